"""Which analyses decide which property."""

import json
import os

from .c.suite import CLib
from .py.cli import Cli
from .py.proto import Proto
from .py.suite import CGen

ENGINE = ('the abstract interpreter in sa/c (integer polyhedra and bit vectors '
          'over the -O0 LLVM IR of the library), with its models of memcpy, '
          'memset, memmove and strlen')
CLANG = 'clang 18 and opt (mem2reg) lowering C to LLVM IR for x86-64'

C_ASSUME = [
    'LP64 target: 32 bit int, 64 bit size_t and pointers',
    'callers obey the documented contract of each external function: pointers '
    'are valid, sizes are those of the buffers and at most INT_MAX, the '
    'workspace is aligned for any object, field numbers are 1..2^29-1',
]


def c(explanation):
    return {'level': 'proof', 'kind': 'c', 'trusted': [ENGINE, CLANG],
            'technique': 'abstract interpretation of the library (LLVM IR) '
                         'with polyhedra and bit vectors, against '
                         'specifications of each external function',
            'level_note': 'Sound over all paths and inputs under the listed '
                          'assumptions; trusts the analyser and clang -O0.',
            'assumptions': C_ASSUME, 'explanation': explanation}


EXPL = ('Every external function of the runtime library is interpreted '
        'abstractly from an entry state that covers every caller allowed by '
        'its contract; the sites below are all the places (or exits of a '
        'function) where the rule applies, over all paths.')

PROPERTIES = {p: c(EXPL) for p in
              ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09',
               'C10', 'C11', 'C12', 'C13', 'C14', 'C15', 'C16', 'C17', 'C18',
               'C19')}

PYENGINE = ('the abstract interpreter of Python in sa/py, with its models of '
            'str, list, dict, re.sub and os.path')


def gen(explanation):
    return {'level': 'other', 'kind': 'gen', 'trusted': [PYENGINE, CLANG],
            'technique': 'abstract interpretation of the generator (Python '
                         'syntax trees) to a template of the generated code, '
                         'path enumeration over the IR of its instances',
            'level_note': 'The template covers every file; the instances '
                          'cover every case of the template.',
            'assumptions': GEN_ASSUME, 'explanation': explanation}


GEN_ASSUME = [
    'proto files are valid and C names made from their names do not collide '
    'and are no C keywords',
    'text of a template that does not depend on a decision depends on names '
    'and numbers only by inserting them',
    'LP64 target',
]

GEXPL = ('The generator is interpreted abstractly on a file with any number '
         'of messages with any number of items of every kind.  The text it '
         'generates for every case is compiled, and every path of every '
         'generated function is compared with what it has to do.')

PROPERTIES.update({p: gen(GEXPL) for p in
                   ('G01', 'G02', 'G03', 'G04', 'G05', 'G06', 'G07', 'G08')})



def cli(explanation):
    return {'level': 'other', 'kind': 'cli', 'trusted': [PYENGINE],
            'technique': 'effect and exception flow analysis of the command '
                         'line and generate_files() (Python syntax trees): '
                         'every path, with every call outside the package '
                         'failing or not; taint analysis for order',
            'level_note': 'All options, one and two input files (three for '
                          'the functions of the Python API) with any names.',
            'assumptions': [
                'argparse as documented; the parser of proto files and the '
                'Generator classes as one step each',
                'closing a file does not fail'],
            'explanation': explanation}


XEXPL = ('Every path of _main() and generate_files() is interpreted '
         'abstractly, for unknown names and all combinations of options, with '
         'every call of the outside world and of the parser failing or '
         'succeeding; the rules are checked on the effects in order.')

PROPERTIES.update({p: cli(XEXPL) for p in
                   ('X01', 'X02', 'X03', 'X04', 'X05')})


def parser(technique, level, note, explanation, *assumptions):
    return {'level': level, 'kind': 'parser', 'trusted': [
        PYENGINE, 'the model of textparser (Sequence, choice, ...)'],
        'technique': technique, 'level_note': note,
        'assumptions': list(assumptions), 'explanation': explanation}


TREES = ('Path enumeration over Proto() (Python syntax trees) on the trees '
         'that the extracted grammar makes of files with unknown names')
PROPERTIES.update({
    'P01': parser(
        'automata: the extracted regular expressions as machines with '
        'priorities, product with those of the language; small-model '
        'analysis of the comment filter',
        'other', 'Tokens: all texts.  Comments: all texts of up to 4 (5) '
        'significant characters in each state, others opaque.',
        'The regular expressions of the tokens are extracted and compared '
        'as machines; the function between reading and parsing is '
        'interpreted on the quotient alphabet its expressions allow.',
        'identifiers are ASCII; strings contain no newlines'),
    'P02': parser(
        'language inclusion of the extracted parsing expression grammar by '
        'derivatives (boolean formulas as decision diagrams)',
        'proof', 'All token sequences, with messages up to 3 (5) deep.',
        'Parser.grammar() is evaluated to the patterns it builds; every '
        'token sequence of the supported grammar is accepted and everything '
        'accepted is a proto file.',
        'what is optional in the comparison: the semicolons after import '
        'and reserved, options in messages and enums'),
    'P03': parser(
        TREES, 'other', 'One file with every kind of item, any names.',
        'Every attribute of what is loaded is compared with the file.'),
    'P04': parser(
        TREES + ', with equality of names decided on each path', 'other',
        'A field at nesting levels 1 to 3; any of the names in sight may be '
        'equal unless the file were invalid.',
        'On each path the type found is the innermost declaration.',
        'files are valid: no two declarations of one scope share a name',
        'a message has not the name of a package'),
    'P05': parser(
        TREES + ', with every file existing or not', 'other',
        'Two imports and two import directories with any names.',
        'What is opened, in terms of the names, on each path.'),
    'P06': parser(
        TREES + ', for every relation of use', 'other',
        'All relations between up to 4 messages.',
        'The order of the messages for each relation.'),
    'P07': parser(
        TREES, 'other', 'Every form of integer with unknown digits; terms '
        'are compared on sample digits.',
        'The term that becomes a number or value, for each form.',
        'octal numbers have octal digits'),
})


HEAVY = ('bool', 'int32', 'int64', 'uint32', 'uint64', 'sint32', 'sint64')
NEED_HEAVY = {'C08': HEAVY, 'C11': HEAVY, 'C17': HEAVY[1:]}


def slow(unit):
    return unit.endswith('/items')


def slow_for():
    """Properties that the units of the second pass over repeated fields
    have something to say about."""
    with open(os.path.join(os.path.dirname(__file__), 'units.json')) as fin:
        return [p for p, us in json.load(fin).items() if any(map(slow, us))]


def in_quick(unit, prop):
    """Units with items take long where an item is a varint.  What does not
    depend on its value is decided by the units of the other types."""
    if not slow(unit):
        return True
    if unit.split('/')[1] in HEAVY:
        return unit.split('/')[1] in NEED_HEAVY.get(prop, ())
    return prop in slow_for()


def jobs_of(prop, tier, repo):
    meta = PROPERTIES[prop]
    jobs = []
    if meta['kind'] == 'c':
        lib = CLib(repo)
        lib.prepare()
        jobs += lib.jobs()
        if tier == 'quick':
            jobs = [j for j in jobs if in_quick(j[1], prop)]
        jobs.sort(key=lambda j: slow(j[1]))
    if meta['kind'] == 'gen':
        gen = CGen(repo)
        gen.prepare()
        jobs += gen.jobs()
    if meta['kind'] == 'parser':
        jobs += Proto(repo).jobs(prop, tier)
    if meta['kind'] == 'cli':
        jobs += Cli(repo).jobs()
        if prop == 'X04':
            jobs += Proto(repo).jobs('P03', tier)
            jobs += Proto(repo).jobs('P05', tier)
    return jobs
