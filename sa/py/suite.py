"""The units of the analysis of the generator of C code."""

import re
import sys

from . import cgen, render, schema, shapes
from .grammar import NoMatch
from .render import Unrenderable
from .values import Sym, Str, Join, Rep, List, Unsupported

PACKAGES = {
    'package': [('foo.Bar2', 'foo_bar2'), ('short', 'short')],
    'no package': [None],
}


class CGen:
    """Each unit is one way to call the generator: with or without a
    package, with lower or upper case enum values."""

    def __init__(self, repo):
        self.repo = repo

    def prepare(self):
        cgen.library_functions(self.repo)

    def jobs(self):
        out = []
        for pkg in PACKAGES:
            for upper in (False, True):
                for rotate in ((0, 1) if not upper else (2,)):
                    out.append((self, f'c/{pkg}/'
                                f'{"upper" if upper else "lower"}/{rotate}',
                                (pkg, upper, rotate)))
        return out

    def run(self, name, spec):
        sys.setrecursionlimit(20000)
        pkg, upper, rotate = spec
        findings = []
        try:
            it, sc, paths = schema.c_template(self.repo, pkg == 'package',
                                              upper)
        except NoMatch as e:
            return {'findings': [
                ('G05', 'code is generated for every valid file',
                 'pbtools/parser.py', 'Parser.grammar', 0, False,
                 f'{e.tokens[e.pos:e.pos + 1]} is not accepted after '
                 f'{e.tokens[max(0, e.pos - 6):e.pos]}')],
                'analysed': ['Parser.grammar'], 'loops': [], 'error': None}

        def report(prop, rule, construct, ok, message):
            findings.append((prop, rule, cgen.GEN, construct, 0, bool(ok),
                             message))
        numbers, names = harvest(paths)
        packages = PACKAGES[pkg]
        package = packages[rotate % len(packages)]
        files = [shapes.big_file(package, rotate, numbers, names)]
        files += shapes.small_files(package)
        rnd = render.Renderer(it)
        imported = shapes.imported_file(package)
        env = shapes.file_env(imported)
        out = self.select(rnd, env, paths)
        imported_text = ('', '')
        if out[1] != 'raise':
            imported_text = (shapes.full_snake(imported.snake, 'only'),
                             rnd.ev(out[2][0], env))
        for f in files:
            env = shapes.file_env(f)
            out = self.select(rnd, env, paths)
            raised = out[1] == 'raise'
            report('G05', 'code is generated for every valid file',
                   'generate', not raised,
                   f'{describe(out[2])} is raised' if raised else '')
            if raised:
                continue
            header, source = (rnd.ev(x, env) for x in out[2])
            cgen.FileCheck(self.repo, f, header, source, upper,
                           report, imported_text).check()
        missing = list(rnd.uncovered())
        error = None
        if missing:
            rep, case = missing[0]
            error = (f'{len(missing)} cases of the template are not '
                     f'instantiated: {rep.src} {case[0]} {case[1]!r}'[:600])
        return {'findings': findings, 'analysed': sorted(it.analysed),
                'loops': [], 'error': error}

    def select(self, rnd, env, paths):
        for dec, outcome, value in paths:
            if all(bool(rnd.ev(c, env)) == b for c, b in dec):
                return dec, outcome, value
        raise Unrenderable('no path of the generator applies')


def describe(v):
    cls = getattr(v, 'cls', None)
    return cls.name if cls is not None else str(v)[:80]


def harvest(paths):
    """Numbers and names that the generator compares with."""
    numbers, names = set(), set()
    seen = set()

    def term(t, inside):
        if isinstance(t, (Sym,)):
            if t.k in seen:
                return
            seen.add(t.k)
            cond = inside or t.op in ('eq', 'lt', 'le', 'in', 'mod')
            for a in t.args:
                term(a, cond)
        elif isinstance(t, bool) or t is None:
            pass
        elif inside and isinstance(t, int):
            numbers.update((t - 1, t, t + 1))
        elif inside and isinstance(t, str):
            names.add(t)
        elif isinstance(t, (tuple, list, frozenset, set)):
            for a in t:
                term(a, inside)
        elif isinstance(t, List):
            for a in t.segs:
                term(a, inside)
        elif isinstance(t, Str):
            for a in t.parts:
                term(a, inside)
        elif isinstance(t, Join):
            term(t.sep, False)
            for a in t.segs:
                term(a, False)
        elif isinstance(t, Rep):
            if t.k in seen:
                return
            seen.add(t.k)
            for v, dec, segs in t.cases:
                for c, b in dec:
                    term(c, True)
                for x in segs:
                    term(x, False)
    for dec, outcome, value in paths:
        for c, b in dec:
            term(c, True)
        term(value, False)
    good = sorted(n for n in numbers if 0 < n < 2 ** 29)
    idents = sorted(n for n in names if len(n) < 40 and n not in RESERVED and
                    re.fullmatch('[a-zA-Z][a-zA-Z0-9]*(_[a-zA-Z0-9]+)*', n))
    from .naming import snake
    return good[:40], [(n, snake(n)) for n in idents[:20]]


RESERVED = set('''auto break case char const continue default do double else
enum extern float for goto if inline int long register restrict return short
signed sizeof static struct switch typedef union unsigned void volatile while
asm bool class new delete this base main NULL true false int32 int64 uint32
uint64 sint32 sint64 fixed32 fixed64 sfixed32 sfixed64 string bytes'''.split())
