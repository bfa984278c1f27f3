"""What the parser makes of proto files: every path through Proto(), on token
trees in which all names are unknown."""

import ast
import itertools
import sys

from . import language, lexer
from .grammar import Grammar, NoMatch, Tok, words
from .pai import Interp, PyExc
from .values import (Builtin, Class, Dict, Ext, List, Obj, Rep, Str, Sym,
                     Unsupported, _counter,
                     atom, concat, key, short)

FILE = 'pbtools/parser.py'
SCALARS = ['int32', 'int64', 'sint32', 'sint64', 'uint32', 'uint64',
           'fixed32', 'fixed64', 'sfixed32', 'sfixed64', 'float', 'double',
           'bool', 'string', 'bytes']


class ParseInterp(Interp):
    """Conditions are decided when they are evaluated; equality of names is a
    congruence, and names of one scope differ from each other."""

    concrete = True

    def __init__(self, root):
        super().__init__(root)
        self.scopes = []        # sets of keys of names
        self.parsed = {}        # what is parsed for each text
        self.ext['textparser.Parser.parse'] = self.parse
        self.grammar = Grammar(self)
        self.texts = []
        self.filters = set()
        self.ext['os.path.exists'] = self.exists
        self.ext['os.path.isfile'] = self.exists
        self.files_exist = set()
        self.there = None       # unknown, or what all files are

    def merged(self, run, outcomes):
        return None

    # -- names ---------------------------------------------------------------

    def facts(self):
        for c in self.contexts:
            yield from c.order

    def name_equal(self, a, b):
        """Two names, atoms or constants."""
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if key(a) == key(b):
            return True
        if not all(isinstance(x, str) or isinstance(x, Sym) and
                   x.op == 'atom' for x in (a, b)):
            return False        # generated names, as that of a map's entry
        if isinstance(a, str):
            a, b = b, a
        if isinstance(b, str) and (b in SCALARS or not b or '.' in b or
                                   not a.args[1]):
            return False
        cls = {}

        def find(k):
            while k in cls:
                k = cls[k]
            return k
        apart = []
        for c, v in self.facts():
            if isinstance(c, Sym) and c.op == 'same':
                x, y = find(key(c.args[0])), find(key(c.args[1]))
                if v and x != y:
                    cls[x] = y
                elif not v:
                    apart.append((key(c.args[0]), key(c.args[1])))
        x, y = find(key(a)), find(key(b))
        if x == y:
            return True
        if any({find(p), find(q)} == {x, y} for p, q in apart):
            return False
        for s in self.scopes:
            of = {find(k) for k in s}
            if x in of and y in of:
                return False
        if isinstance(b, str):
            return False        # names of other kinds of things
        a, b = sorted((a, b), key=lambda s: repr(s.k))
        return self.decide(Sym('same', a, b, ty='bool'))

    def components(self, v):
        """The dotted name a string is, or None."""
        parts = v.parts if isinstance(v, Str) else (v,)
        out = [[]]
        for p in parts:
            if isinstance(p, str):
                for i, x in enumerate(p.split('.')):
                    if i:
                        out.append([])
                    if x:
                        out[-1].append(x)
            elif isinstance(p, Sym) and p.ty == 'str' and (
                    p.op == 'atom' or p.op.startswith('m.')):
                out[-1].append(p)
            else:
                return None
        return [concat(*x) if len(x) > 1 else x[0] if x else ''
                for x in out]

    def equal(self, a, b):
        if isinstance(a, (Sym, Str)) or isinstance(b, (Sym, Str)):
            if isinstance(a, (str, Sym, Str)) and isinstance(b, (str, Sym,
                                                                 Str)):
                if key(a) == key(b):
                    return True
                x, y = self.components(a), self.components(b)
                if x is not None and y is not None:
                    return len(x) == len(y) and all(
                        self.name_equal(p, q) for p, q in zip(x, y))
                if x is None and y is None:
                    return super().equal(a, b)
                z, other = (a, b) if x is None else (b, a)
                if isinstance(z, Sym) and z.op == 'getitem' and \
                        isinstance(other, str) and not other.isalnum() and \
                        isinstance(z.args[0], Sym) and \
                        z.args[0].op == 'atom' and z.args[0].args[1]:
                    return False    # a character of a name
            elif a is None or b is None:
                return False
        return super().equal(a, b)

    def known_key(self, d, k):
        """The key of the dictionary that is equal to k, or k."""
        if isinstance(d, Dict) and not d.more and isinstance(k, (Sym, Str)):
            for k2, _ in list(d.entries.values()):
                if isinstance(k2, (str, Sym, Str)) and self.equal(k2, k):
                    return k2
        return k

    def store_item(self, obj, idx, v):
        return super().store_item(obj, self.known_key(obj, idx), v)

    def dict_get(self, d, i, *default, **kw):
        return super().dict_get(d, self.known_key(d, i), *default, **kw)

    def contains(self, c, x):
        if isinstance(c, Dict) and not c.more:
            return key(self.known_key(c, x)) in c.entries
        return super().contains(c, x)

    def get_slice(self, v, lo, hi, step):
        if isinstance(v, Str) and step is None and isinstance(lo, int) and \
                lo >= 0 and isinstance(hi, int) and hi < 0 and \
                all(isinstance(p, str) and len(p) >= n for p, n in
                    ((v.parts[0], lo), (v.parts[-1], -hi))) and \
                len(v.parts) > 1:
            return concat(v.parts[0][lo:], *v.parts[1:-1], v.parts[-1][:hi])
        if isinstance(v, Str) and step is None and isinstance(hi, int) and \
                isinstance(v.parts[0], str) and 0 <= (lo or 0) and \
                0 <= hi <= len(v.parts[0]):
            return v.parts[0][lo:hi]
        return super().get_slice(v, lo, hi, step)

    def get_attr(self, v, name, *default):
        if isinstance(v, Str) and name in ('strip', 'lstrip', 'rstrip'):
            return Builtin(name, lambda chars=None: self.stripped(
                v, name, chars))
        return super().get_attr(v, name, *default)

    def stripped(self, v, name, chars):
        """The unknown text has neither quotes nor spaces at its ends."""
        if chars is not None and not isinstance(chars, str):
            raise Unsupported(f'{name}() of unknown characters')
        parts = list(v.parts)
        if name != 'rstrip' and isinstance(parts[0], str):
            parts[0] = parts[0].lstrip(chars)
        if name != 'lstrip' and isinstance(parts[-1], str):
            parts[-1] = parts[-1].rstrip(chars)
        return concat(*parts)

    # -- files ---------------------------------------------------------------

    def exists(self, it, path):
        if self.there is not None:
            return self.there
        if key(plain_path(path)) in self.files_exist:
            return True
        return self.decide(Sym('exists', plain_path(path), ty='bool'))

    def call_func(self, f, args, kw):
        """What is done to the text of a file before it is parsed has its
        own analysis."""
        if len(args) == 1 and not kw and f.cls is None and \
                source_of(args[0]) is not None and is_filter(f.node):
            self.filters.add(f.name)
            return Sym('filtered', f.name, args[0], ty='str')
        return super().call_func(f, args, kw)

    def parse(self, it, parser, text, *args, **kw):
        if args or kw:
            raise Unsupported('arguments of parse()')
        self.texts.append(text)
        toks = self.parsed.get(source_of(text))
        if toks is None:
            toks = self.parsed.get(None)
        if toks is None:
            raise Unsupported(f'the text {short(text)} is parsed')
        if self.grammar.top is None:
            self.grammar.load(parser)
        return self.grammar.parse(toks)

    def new_parser(self):
        return self.call(parser_class(self.module('pbtools.parser')), [])


def parser_class(mod):
    cls = [c for c in mod.vars.values() if isinstance(c, Class) and any(
        isinstance(b, Ext) and b.path == 'textparser.Parser'
        for k in c.mro() for b in k.bases)]
    if len(cls) != 1:
        raise Unsupported('the class of the parser')
    return cls[0]


def is_filter(node):
    return isinstance(node, ast.FunctionDef) and not any(
        isinstance(n, ast.Attribute) and n.attr == 'parse' or
        isinstance(n, ast.Name) and n.id in ('Parser', 'Proto', 'open')
        for n in ast.walk(node))


def plain_path(t):
    """A path without what makes it absolute."""
    while isinstance(t, Sym) and t.op == 'call' and \
            isinstance(t.args[0], Ext) and t.args[0].path in (
                'os.path.abspath', 'os.path.realpath', 'os.path.normpath'):
        t = t.args[1]
    return t


def file_name(t):
    """The name of a file as it is in the import."""
    t = plain_path(t)
    while isinstance(t, Sym) and t.op == 'call' and \
            isinstance(t.args[0], Ext) and t.args[0].path == 'os.path.join':
        t = plain_path(t.args[-1])
    return t


def source_of(text):
    """The key of the name of the file a text was read from."""
    if isinstance(text, Sym) and text.op == 'call':
        f = text.args[0]
        if isinstance(f, Ext) and f.path == 'open':
            return key(file_name(text.args[1]))
    if isinstance(text, Sym):
        for a in text.args:
            r = source_of(a)
            if r is not None:
                return r
    return None


# -- files as this analysis describes them ------------------------------------

class D:
    """A declaration."""

    def __init__(self, **kw):
        self.__dict__.update(kw)


def field(name, type, label='', options='', dot=False):
    return D(kind='field', name=name, type=type, label=label, dot=dot,
             options=options)


def map_(name, key, type, options=''):
    return D(kind='map', name=name, key=key, type=type, options=options,
             dot=False)


def message(name, *items):
    return D(kind='message', name=name, items=list(items))


def enum(name, *values, options=()):
    return D(kind='enum', name=name, items=list(values), options=options)


def oneof(name, *fields):
    return D(kind='oneof', name=name, items=list(fields))


def rpc(name, req, resp, reqs=False, resps=False, body=';', dots=('', '')):
    return D(kind='rpc', name=name, req=req, resp=resp, reqs=reqs,
             resps=resps, body=body, dots=dots)


def raw(text):
    return D(kind='raw', text=text)


def user(name):
    return atom(name, user=True)


_numbers = itertools.count(11, 7)


def number():
    return str(next(_numbers))


def T(*parts):
    """Tokens of a mix of texts and unknown names, numbers and strings."""
    out = []
    for p in parts:
        if isinstance(p, str):
            out += words(p)
        elif isinstance(p, Tok):
            out.append(p)
        elif isinstance(p, Sym):
            out.append(Tok('x', p))
        elif isinstance(p, tuple):      # a dotted name
            for i, x in enumerate(p):
                out += ([Tok('.')] if i else []) + (
                    words(x) if isinstance(x, str) else [Tok('x', x)])
        else:
            out += p
    return out


def string(name):
    return Tok('"x"', concat('"', atom(name), '"'))


def tokens(d):
    k = d.kind
    if k == 'raw':
        return words(d.text)
    if k == 'field':
        d.number = number()
        return T(d.label, '.' if d.dot else '', d.type, d.name, '=', d.number,
                 d.options, ';')
    if k == 'map':
        d.number = number()
        return T('map <', d.key, ',', d.type, '>', d.name, '=', d.number,
                 d.options, ';')
    if k == 'value':
        d.number = number()
        return T(d.name, '=', d.number, d.options, ';')
    if k in ('message', 'enum', 'oneof', 'service'):
        out = T(k, d.name, '{')
        for x in d.items:
            out += tokens(x)
        return out + words('}')
    if k == 'rpc':
        return T('rpc', d.name, '(', 'stream' if d.reqs else '', d.dots[0],
                 d.req, ') returns (', 'stream' if d.resps else '', d.dots[1],
                 d.resp, ')', d.body)
    raise Unsupported(k)


def value(name, options=''):
    return D(kind='value', name=name, options=options)


def file_tokens(items, package=None):
    out = words('syntax = "proto3" ;')
    if package is not None:
        out += T('package', package, ';')
    for d in items:
        out += d if isinstance(d, list) else tokens(d)
    return out


def of(d, kind):
    return [x for x in d.items if x.kind in (
        kind if isinstance(kind, tuple) else (kind,))]


def dotted(*parts):
    out = []
    for p in parts:
        out += ['.', p]
    return concat(*out[1:])


def full_file():
    """Every kind of item, more than once and in no particular order."""
    u = user
    package = (u('pkg1'), u('pkg2'))
    inner = enum(u('Inner'), value(u('IA')), raw(';'),
                 value(u('IB'), '[ deprecated = true ]'))
    deep = message(u('Deep'), field(u('deep_f'), (u('Inner'),)),
                   oneof(u('deep_one'), field(u('deep_o1'), ('bool',)),
                         field(u('deep_o2'), (u('Msg'),))),
                   map_(u('deep_map'), 'string', ('bytes',)))
    msg = message(
        u('Msg'),
        field(u('plain'), ('int32',)),
        raw('reserved 2 , 4 to 6 , 9 to max ;'),
        field(u('rep'), ('string',), 'repeated', '[ packed = false ]'),
        inner,
        oneof(u('one'), field(u('o1'), ('fixed64',)), raw(';'),
              field(u('o2'), (u('Inner'),)), field(u('o3'), ('bytes',))),
        field(u('opt'), ('sint64',), 'optional'),
        deep,
        field(u('sub'), (u('Deep'),), 'repeated',
              '[ ( a . b ) . c = 3 , d = "x" ]'),
        raw(';'),
        map_(u('map1'), 'int64', (u('Deep'),)),
        field(u('en'), (u('Inner'),), 'optional', '[ deprecated = true ]'),
        raw('reserved "x" , "y" ;'),
        message(u('Empty')),
        map_(u('map2'), 'bool', (u('Color'),), '[ deprecated = true ]'),
        oneof(u('two'), field(u('t1'), ('float',))),
        field(u('qual'), package + (u('Color'),)),
        field(u('dotted'), package + (u('Other'),), 'repeated', dot=True),
        field(u('last'), ('double',)),
        enum(u('Second'), value(u('SA'))))
    other = message(u('Other'), field(u('of'), (u('Color'),), 'repeated'),
                    raw('reserved 1 ;'))
    color = enum(u('Color'), value(u('RED')), value(u('GREEN')))
    size = enum(u('Size'), value(u('SMALL')))
    svc = D(kind='service', name=u('Svc'), items=[
        rpc(u('R1'), (u('Msg'),), (u('Other'),)),
        raw('option deprecated = true ;'),
        rpc(u('R2'), (u('Other'),), (u('Msg'),), True, False),
        raw(';'),
        rpc(u('R3'), package + (u('Msg'),), (u('Other'),), False, True,
            '{ }', ('.', '')),
        rpc(u('R4'), (u('Other'),), package + (u('Other'),), True, True,
            '{ option idempotency_level = NO_SIDE_EFFECTS ; option x = 1 ; }',
            ('', '.'))])
    svc2 = D(kind='service', name=u('Svc2'), items=[])
    options = [
        D(kind='option', tokens=T('option', u('op1'), '= true ;'),
          want=((u('op1'),), 'bool', True)),
        D(kind='option', tokens=T('option (', (u('op2'), u('op3')), ') .',
                                  u('op4'), '.', u('op5'), '= false ;'),
          want=(('(', u('op2'), '.', u('op3'), ').', u('op4'), '.',
                 u('op5')), 'bool', False)),
        D(kind='option', tokens=T('option', u('op6'), '= ', string('text'),
                                  ';'),
          want=((u('op6'),), 'string', atom('text'))),
        D(kind='option', tokens=T('option', u('op7'), '.', u('op8'),
                                  '= 42 ;'),
          want=((u('op7'), '.', u('op8')), 'integer', 42)),
        D(kind='option', tokens=T('option', u('op9'), '=', (
            u('val1'), u('val2')), ';'),
          want=((u('op9'),), 'ident', dotted(u('val1'), u('val2')))),
        D(kind='option', tokens=T('option (', u('op10'), ') = -5 ;'),
          want=(('(', u('op10'), ')'), 'integer', -5)),
    ]
    return D(package=package, options=options, messages=[msg, other],
             enums=[color, size], services=[svc, svc2],
             items=[options[0].tokens, color, options[1].tokens, raw(';'),
                    msg, svc, options[2].tokens, options[3].tokens, other,
                    size, options[4].tokens, svc2, options[5].tokens])


def names_of(items):
    for d in items:
        if isinstance(d, D):
            if isinstance(getattr(d, 'name', None), Sym):
                yield d.name
            yield from names_of(getattr(d, 'items', []))


# -- the analysis --------------------------------------------------------------

class Proto:
    """The units: what is loaded, how types and imports are found."""

    def __init__(self, repo):
        self.repo = repo

    def prepare(self):
        pass

    def jobs(self, prop, tier):
        return [(self, f'parser/{n}', (m,) + tuple(a))
                for p, n, m, *a in self.units(tier) if p == prop]

    def run(self, name, spec):
        sys.setrecursionlimit(20000)
        self.findings = []
        self.analysed = set()
        getattr(self, spec[0])(*spec[1:])
        return {'findings': self.findings, 'analysed': sorted(self.analysed),
                'loops': [], 'error': None}

    def report(self, prop, rule, construct, ok, message='', file=FILE):
        self.findings.append((prop, rule, file, construct, 0, bool(ok),
                              '' if ok else message))

    def interp(self):
        it = ParseInterp(self.repo)
        it.module('pbtools')
        it.module('pbtools.parser')
        return it

    def paths(self, it, f):
        born = next(_counter)

        def body():
            mark = len(it.journal)
            try:
                return f()
            finally:
                locs = sorted({f'{k} {n} of {short(o)}'[:100]
                               for k, o, n in it.touched(mark, born)
                               if o is not it.events})
                self.report('X04', 'nothing is kept from one file to the '
                            'next', 'Proto', not locs,
                            f'{locs[:4]} is changed')
        out = it.run_paths(body)
        self.analysed |= {f'{a}:{b}' for a, b in it.analysed}
        return out

    def units(self, tier):
        deep = tier == 'thorough'
        yield 'P01', 'tokens', 'tokens'
        for n in range(8):
            yield 'P01', f'comments/{n}', 'comments', n, 8, 5 if deep else 4
        for n in (1, 2, 3) + ((4, 5) if deep else ()):
            yield 'P02', f'language/{n}', 'language', n
        yield 'P03', 'fidelity', 'fidelity', True
        yield 'P03', 'fidelity/no package', 'fidelity', False
        for pkg in (0, 1, 2):
            for level in (1, 2, 3):
                for kind in ('field', 'repeated', 'oneof', 'map'):
                    if pkg != 2 or (level, kind) == (2, 'field') or deep:
                        yield ('P04', f'scope/{pkg}/{level}/{kind}', 'scope',
                               pkg, level, kind, 0, False)
            for qual in (1, 2):
                for dot, kind in itertools.product(
                        (False, True), ('field', 'oneof', 'map')):
                    if deep or kind == 'field' or pkg and (dot, kind) in (
                            (False, 'oneof'), (True, 'map')):
                        yield ('P04', f'qualified/{pkg}/{qual}/{kind}/'
                               f'{"." if dot else ""}', 'scope', pkg, 2,
                               kind, qual, dot)
        for label in ('', 'weak', 'public'):
            yield 'P05', f'imports/{label}', 'imports', label
        for n in range(8):
            yield 'P06', f'order/4/{n}', 'order', 4, n, 8
        yield 'P06', 'order/3', 'order', 3, 0, 1
        yield 'P07', 'integers', 'integers'

    # -- tokens and language ---------------------------------------------------

    def tokens(self):
        g = language.load(self.interp())
        wrong, kinds, n = lexer.tokens(g.specs, g.names)
        by = {}
        for t, got, want in wrong:
            by.setdefault(want or got, (t, got, want))
        for kind, _ in lexer.SPEC:
            t = by.pop(kind, None)
            self.report('P01', 'tokens are those of proto files', kind,
                        t is None, t and f'{t[0]!r} is {t[1]}, not {t[2]}')
        for k, t in by.items():
            self.report('P01', 'tokens are those of proto files', str(k),
                        False, f'{t[0]!r} is {t[1]}, not {t[2]}')
        for k, of in kinds.items():
            for special in ('SKIP', 'MISMATCH'):
                self.report('P01', 'white space is skipped, other characters '
                            'are errors', f'{special} {k}',
                            (special in of) == (k == special),
                            f'{k} is {sorted(of)}')
        for kind, _ in lexer.SPEC:
            self.report('P01', 'every kind of token exists', kind,
                        any(kind in of for of in kinds.values()),
                        'no token is')

    def comments(self, part, parts, depth):
        it = self.interp()
        it.there = True
        it.parsed[key(atom('main'))] = file_tokens([])
        parser = it.module('pbtools.parser')
        it.call(parser.vars['parse_file'], [atom('main')])
        t = it.texts[0]
        names = []
        while isinstance(t, Sym) and t.op == 'filtered':
            names.insert(0, t.args[0])
            t = t.args[1]
        if len(names) != 1:
            raise Unsupported(f'comments are removed by {names}')
        f = parser.vars[names[0]]
        it = self.interp()
        f = it.module('pbtools.parser').vars[names[0]]
        lexer.hooks(it)
        n = 0
        for t, r, want, ok in lexer.comments(it, f, part, parts, depth):
            n += 1
            if want is None:
                self.report('P01', 'a comment that does not end is an error',
                            names[0], ok, f'it is not for {t!r}')
            else:
                self.report('P01', 'comments become spaces, all else stays '
                            'as it is', names[0], ok,
                            f'{t!r} becomes {describe(r)}')
        self.analysed |= {f'{a}:{b}' for a, b in it.analysed}

    def language(self, depth):
        it = self.interp()
        missing, extra, n = language.compare(it, depth)
        self.report('P02', 'every proto file of the supported grammar is '
                    'accepted', f'Parser.grammar, messages {depth} deep',
                    missing is None, f'not accepted: {" ".join(missing or [])}')
        self.report('P02', 'nothing else is accepted',
                    f'Parser.grammar, messages {depth} deep',
                    extra is None, f'accepted: {" ".join(extra or [])}')
        self.analysed |= {f'{a}:{b}' for a, b in it.analysed}

    # -- where imports are found -----------------------------------------------

    def imports(self, label):
        it = self.interp()
        names = [atom('import1'), atom('import2')]
        dirs = [atom('dir1'), atom('dir2')]
        decls = [[enum(user(f'IE{n}'), value(user(f'IV{n}'))),
                  message(user(f'IM{n}'), message(user(f'IN{n}')))]
                 for n in (1, 2)]
        pkgs = [(user('ipkg1'),), None]
        for name, d, p in zip(names, decls, pkgs):
            it.parsed[key(name)] = file_tokens(d, p)
        main = atom('main')
        it.parsed[key(main)] = file_tokens(
            [T('import', label, Tok('"x"', concat('"', n, '"')), ';')
             for n in names], (user('pkg0'),))
        parser = it.module('pbtools.parser')
        it.files_exist.add(key(main))

        def body():
            it.events = List()
            it.texts = []
            try:
                r = it.call(parser.vars['parse_file'], [main], {
                    'import_paths': List(list(dirs))})
            except PyExc as e:
                r = e.value
            return r, list(it.events.segs), list(it.texts)
        for dec, outcome, v in self.paths(it, body):
            if outcome != 'return':
                raise Unsupported('the analysis fails')
            r, events, texts = v
            there = {c.args[0].k: b for c, b in dec if c.op == 'exists'}
            want = []
            missing = None
            for n in names:
                for d in dirs:
                    p = Sym('call', Ext('os.path.join'), d, n, ty='str')
                    if there.get(p.k, True):
                        want.append(p)          # or it was not looked for
                        break
                else:
                    if there.get(n.k):
                        want.append(n)
                    else:
                        missing = n
                        break
            opened = [e for e in events if e[0] == 'call' and
                      e[1].op == 'call' and isinstance(e[1].args[0], Ext) and
                      e[1].args[0].path == 'open']
            files = [key(plain_path(e[1].args[1])) for e in opened]
            self.report('P05', 'the files read are the given one and the '
                        'first that exists for each import', 'parse_file',
                        files == [key(main)] + [key(p) for p in want] or
                        sorted(map(repr, files)) == sorted(
                            repr(key(p)) for p in [main] + want),
                        f'{[text(f) for f in files]} are opened')
            for e in opened:
                self.opening(e[1])
            if missing is not None:
                self.report('P05', 'a missing import is an error that says '
                            'so', 'find_file', isinstance(r, Obj) and
                            r.cls.name == 'Error' and mentions(r, missing),
                            f'the result is {describe(r)}')
                continue
            self.report('P05', 'a file with imports that exist is parsed',
                        'parse_file', isinstance(r, Obj) and
                        r.cls.name == 'Proto', f'{describe(r)} is raised')
            if not (isinstance(r, Obj) and r.cls.name == 'Proto'):
                continue
            c = Compare(it, self.report, 'P05', None)
            for x, (n, p, d, pkg) in c.list(
                    'every import', 'Proto.imports', c.get(r, 'imports'),
                    list(zip(names, want, decls, pkgs))):
                c.same('the path of an import', 'ImportedProto.path',
                       c.get(x, 'path'), n)
                c.same('where an import is', 'ImportedProto.abspath',
                       plain_path(c.get(x, 'abspath')), p)
                c.same('the package of an import', 'ImportedProto.package',
                       c.get(x, 'package'), pkg and dotted(*pkg))
            self.report('P05', 'every file that is read is parsed as UTF-8 '
                        'text', 'parse_file', len(texts) == len(files),
                        f'{len(texts)} of {len(files)} are parsed')

    def opening(self, t):
        pos = [a for a in t.args[1:] if not isinstance(a, tuple)]
        kw = dict(a for a in t.args[1:] if isinstance(a, tuple))
        mode = pos[1] if len(pos) > 1 else kw.get('mode', 'r')
        enc = pos[3] if len(pos) > 3 else kw.get('encoding')
        extra = set(kw) - {'mode', 'encoding', 'newline'}
        ok = mode in ('r', 'rt') and isinstance(enc, str) and \
            enc.lower().replace('_', '-') in ('utf-8', 'utf8', 'utf-8-sig') \
            and not extra
        self.report('P05', 'files are read as UTF-8', 'open', ok,
                    f'opened with {pos[1:]} {kw}')

    # -- the order of messages -------------------------------------------------

    def order(self, n, part, parts):
        """Every relation of use between a number of messages."""
        it = self.interp()
        it.there = True
        names = [user(x) for x in 'ABCDE'[:n]]
        other = user('Top')
        extra = [user(x) for x in ('f', 'n', 'o', 'e')]
        it.scopes.append({key(x) for x in names + [other] + extra + [
            user(f'n{j}') for j in range(n)]})
        pairs = [(i, j) for i in range(n) for j in range(n)
                 if i != j or n < 4]
        for bits in range(2 ** len(pairs)):
            if bits % parts != part:
                continue
            edges = {p for k, p in enumerate(pairs) if bits >> k & 1}
            decls = []
            for i in range(n):
                items = []
                inner = []
                ones = []
                for k, j in sorted(edges):
                    if k != i:
                        continue
                    f = field(user('f'), (names[j],))
                    how = (i * 3 + j + bits) % 4
                    if bits % 5 < 2:
                        how = bits % 5 + 1      # all at one place
                    if how == 1:
                        ones.append(f)
                    elif how == 2:
                        inner.append(f)
                    elif how == 3:
                        items.append(map_(atom(f'm{j}'), 'int32',
                                          (names[j],)))
                    else:
                        items.append(f)
                if ones:
                    items.append(oneof(user('o'), *ones))
                if inner:
                    n_ = message(user('n'), *inner)
                    n_.name = atom(f'n{i}', user=True)
                    items.append(n_)
                decls.append(message(names[i], *items))
            reach = {i: {i} for i in range(n)}
            for _ in range(n):
                for i, j in edges:
                    reach[i] |= reach[j]
            nested = bits % 3 == 0
            top = [message(other, *decls)] if nested else decls
            for dec, outcome, proto in self.paths(it, lambda: self.proto(
                    it, file_tokens(top))):
                if outcome != 'return':
                    self.report('P06', 'a file is loaded whatever its '
                                'messages use', 'Proto', False,
                                f'{describe(proto)} is raised when '
                                f'{uses(names, edges)}')
                    continue
                msgs = it.get_attr(proto, 'messages')
                if nested:
                    msgs = it.get_attr(msgs.segs[0], 'messages')
                got = [key(it.get_attr(m, 'name')) for m in msgs.segs]
                self.report('P06', 'every message is there once',
                            'Proto.messages', sorted(map(repr, got)) == sorted(
                                repr(key(x)) for x in names),
                            f'{len(got)} of {n} when {uses(names, edges)}')
                pos = {k: p for p, k in enumerate(got)}
                bad = [(i, j) for i, j in sorted(edges)
                       if i != j and i not in reach[j] and
                       pos.get(key(names[j]), 0) > pos.get(key(names[i]), 0)]
                self.report('P06', 'a message is after the ones it uses',
                            'Proto.messages', not bad,
                            f'when {uses(names, edges)}')

    # -- integers --------------------------------------------------------------

    def integers(self):
        """Numbers of fields, of enum values and of options, of every form."""
        it = self.interp()
        it.there = True
        forms = [('', '0', 10, '')]
        for sign in ('', '-'):
            forms += [(sign, d, 10, 'decimal') for d in '123456789']
            forms += [(sign, '0x', 16, 'hexadecimal'),
                      (sign, '0X', 16, 'hexadecimal'),
                      (sign, '0', 8, 'octal')]
        for sign, prefix, base, form in forms:
            digits = atom('digits')
            term = concat(sign + prefix, digits) if form else '0'
            tok = Tok('1', term)
            top = [T('option', user('a'), '=', tok, ';'),
                   T('enum', user('E'), '{', user('V'), '=', tok, '; }'),
                   T('message', user('M'), '{ int32', user('f'), '=', tok,
                     '; oneof', user('o'), '{ bool', user('g'), '=', tok,
                     '; } map < int32 , string >', user('m'), '=', tok,
                     '; }')]
            for dec, outcome, proto in self.paths(it, lambda: self.proto(
                    it, file_tokens(top))):
                samples = SAMPLES[base] if form else ['']
                samples = [d for d in samples if all(
                    bool(value_of(c, d)) == b for c, b in dec)]
                what = f'{sign}{prefix}... ({form})' if form else '0'
                if not samples:
                    continue
                self.report('P07', 'an integer is accepted',
                            f'{form or "zero"}', outcome == 'return',
                            f'{describe(proto)} is raised for {what}')
                if outcome != 'return':
                    continue
                m = it.get_attr(proto, 'messages').segs[0]
                ints = {
                    'the value of an option': (it.get_attr(
                        proto, 'options').segs[0], 'value'),
                    'the number of an enum value': (it.get_attr(it.get_attr(
                        proto, 'enums').segs[0], 'fields').segs[0],
                        'field_number'),
                    'the number of a oneof field': (it.get_attr(it.get_attr(
                        m, 'oneofs').segs[0], 'fields').segs[0],
                        'field_number'),
                }
                for n, f in zip(('field', 'map'),
                                it.get_attr(m, 'fields').segs):
                    ints[f'the number of a {n}'] = (f, 'field_number')
                for rule, (o, a) in ints.items():
                    v = it.get_attr(o, a)
                    for d in samples:
                        want = int(sign + prefix + d, base)
                        try:
                            got = value_of(v, d)
                        except ValueError as e:
                            got = f'an error: {e}'
                        self.report('P07', f'{rule} is the integer written',
                                    form or 'zero', got == want,
                                    f'{sign}{prefix}{d} is {got}')

    # -- what types are --------------------------------------------------------

    def scope(self, package, level, kind, qual, dot):
        """A field whose type may be any of the names in sight."""
        it = self.interp()
        it.there = True
        t, u = user('T'), user
        quals = tuple(user(f'Q{i}') for i in range(qual))
        if kind == 'map':
            probe = map_(u('probe'), 'int32', quals + (t,))
            probe.dot = dot
        else:
            probe = field(u('probe'), quals + (t,),
                          'repeated' if kind == 'repeated' else '', dot=dot)
        item = oneof(u('one'), probe) if kind == 'oneof' else probe
        inner = None
        stack = []
        for n in (3, 2, 1):
            items = [enum(u(f'E{n}'), value(u(f'V{n}'))),
                     message(u(f'N{n}'), enum(u(f'NE{n}'), value(u(f'NV{n}'))),
                             message(u(f'NN{n}')))]
            # a message without enums, and one without messages
            if kind == 'repeated':
                del items[0]
            elif kind == 'oneof' and n == 1:
                del items[1]
            if n == level:
                items.insert(n - 1, item)
            if inner is not None:
                items.insert(1, inner)
            inner = message(u(f'M{n}'), *items)
            stack.insert(0, inner)
            it.scopes.append({key(d.name) for d in items
                              if d.kind in ('enum', 'message')})
        stack = stack[:level]
        top = [message(u('A'), enum(u('AE'), value(u('AV')))), inner,
               enum(u('B'), value(u('BV'))), message(u('C'))]
        it.scopes.append({key(d.name) for d in top})
        pkg = tuple(u(f'pkg{i}') for i in range(package)) or None
        imports = []
        paths = [atom('import1'), atom('import2')]
        for n, path in enumerate(paths, 1):
            decls = [enum(u(f'IE{n}'), value(u(f'IV{n}'))),
                     message(u(f'IM{n}'), message(u(f'IN{n}')))]
            it.scopes.append({key(d.name) for d in decls})
            for ipkg in ((u(f'ipkg{n}'),), (u(f'ipkg{n}a'), u(f'ipkg{n}b')),
                         None):
                imports.append((n, path, ipkg, decls))
        # each import has a package, one of two names, or none
        choices = [(a, b) for a in imports[:3] for b in imports[3:]]
        if qual:
            choices = choices[::2]
        for one, two in choices:
            it.parsed = {}
            for n, path, ipkg, decls in (one, two):
                it.parsed[key(path)] = file_tokens(decls, ipkg)
            main = [T('import', Tok('"x"', concat('"', path, '"')), ';')
                    for n, path, _, _ in (one, two)] + top
            it.parsed[key(atom('main'))] = file_tokens(main, pkg)
            self.scope_paths(it, D(
                package=pkg, top=top, stack=stack, type=quals + (t,),
                imports=[(p, d) for _, _, p, d in (one, two)], probe=probe,
                kind=kind, dot=dot))

    def scope_paths(self, it, f):
        parser = it.module('pbtools.parser')

        def body():
            want = None
            proto = error = None
            try:
                proto = it.call(parser.vars['parse_file'], [atom('main')])
            except PyExc as e:
                error = e.value
            want = self.expected(it, f)
            return proto, error, want
        try:
            out = self.paths(it, body)
        except NoMatch as e:
            self.report('P04', 'the file is accepted', 'grammar', False,
                        f'{e.tokens[:e.pos + 1][-6:]} is not')
            return
        rule = 'the type of a field is the innermost declaration of its name'
        if len(f.type) > 1:
            rule = 'a qualified name is the declaration in its package'
        for dec, outcome, value_ in out:
            if outcome == 'raise':
                raise Unsupported(f'the analysis fails: {describe(value_)}')
            proto, error, want = value_
            if want == 'unspecified':
                if error is None:
                    self.ends_as_written(it, proto, f, dec)
                continue
            if error is not None:
                cls = getattr(error, 'cls', None)
                self.report('P04', 'a type that is not declared is an error '
                            'that says so', 'Proto', cls is not None and
                            cls.name == 'Error' and (
                                want is not None or mentions(error, f.type[-1])
                            ), f'{describe(error)} is raised')
                self.report('P04', rule, f'Proto {f.kind}', want is None,
                            f'{describe(error)} is raised when the type is '
                            f'{want and want[1]} {want and short(want[0])} '
                            f'and {story(dec)}')
                continue
            self.report('P04', 'a type that is not declared is an error '
                        'that says so', f'Proto {f.kind}', want is not None,
                        f'none is raised when {story(dec)}')
            if want is None:
                continue
            got = self.find(it, proto, f)
            if got is None:
                self.report('P04', rule, f'Proto {f.kind}', False,
                            'the field is not there')
                continue
            c = Compare(it, self.report, 'P04', f)
            k = c.get(got, 'type_kind')
            ft = c.get(got, 'full_type')
            ok = k == want[1] and self.same_name(it, ft, want[0], dec)
            self.report('P04', rule, f'Proto {f.kind}', ok,
                        f'it is {k} {short(ft)}, expected {want[1]} '
                        f'{short(want[0])}, when {story(dec)}')

    def ends_as_written(self, it, proto, f, dec):
        got = self.find(it, proto, f)
        if got is None or it.get_attr(got, 'type_kind') not in ('enum',
                                                                'message'):
            return
        ft = it.get_attr(got, 'full_type')
        x = it.components(ft)
        n = len(f.type)
        self.report('P04', 'the full name of a type ends with what is written',
                    f'Proto {f.kind}', x is not None and len(x) >= n and
                    self.same_name(it, dotted(*x[-n:]), dotted(*f.type), dec),
                    f'it is {short(ft)} for {[short(p) for p in f.type]} when '
                    f'{story(dec)}')

    def same_name(self, it, a, b, dec):
        """Equal under the equalities of the path."""
        x, y = it.components(a), it.components(b)
        if x is None or y is None or len(x) != len(y):
            return False
        cls = {}

        def find(k):
            while k in cls:
                k = cls[k]
            return k
        for c, v in dec:
            if c.op == 'same' and v:
                p, q = find(key(c.args[0])), find(key(c.args[1]))
                if p != q:
                    cls[p] = q
        return all(find(key(p)) == find(key(q)) for p, q in zip(x, y))

    def find(self, it, proto, f):
        msgs = it.get_attr(proto, 'messages')
        m = None
        for d in f.stack:
            m = next((x for x in msgs.segs
                      if key(it.get_attr(x, 'name')) == key(d.name)), None)
            if m is None:
                return None
            msgs = it.get_attr(m, 'messages')
        if f.kind == 'oneof':
            o = it.get_attr(m, 'oneofs').segs
            fields = it.get_attr(o[0], 'fields').segs if o else []
        else:
            fields = it.get_attr(m, 'fields').segs
        if len(fields) != 1:
            return None
        if f.kind == 'map':
            t = it.get_attr(fields[0], 'type')
            e = next((x for x in msgs.segs
                      if key(it.get_attr(x, 'name')) == key(t)), None)
            fields = it.get_attr(e, 'fields').segs if e is not None else []
            return fields[1] if len(fields) == 2 else None
        return fields[0]

    def expected(self, it, f):
        """(full name, kind), None for an error, or 'unspecified'."""
        t = f.type[-1]
        base = list(f.package or ())
        own = dotted(*base) if base else None

        def pick(decls, path):
            for d in decls:
                if d.kind in ('enum', 'message') and it.name_equal(d.name, t):
                    return dotted(*path, d.name), d.kind

        def imported(pkg):
            for p, decls in f.imports:
                q = dotted(*p) if p else None
                if it.equal(q, pkg) is True:
                    r = pick(decls, list(p or ()))
                    if r:
                        return r
        if len(f.type) == 1:
            for i in range(len(f.stack), 0, -1):
                r = pick(f.stack[i - 1].items,
                         base + [m.name for m in f.stack[:i]])
                if r:
                    return r
            r = pick(f.top, base) or imported(own)
            if r:
                return r
            for n in range(len(base) - 1, 0, -1):
                if imported(dotted(*base[:n])):
                    return 'unspecified'        # an outer package
            return imported(None)
        q = f.type[:-1]
        visible = [d.name for m in f.stack for d in m.items
                   if d.kind == 'message'] + [
            d.name for d in f.top if d.kind == 'message'] + [
            d.name for p, decls in f.imports for d in decls
            if d.kind == 'message']
        if any(it.name_equal(q[0], n) for n in visible):
            return 'unspecified'        # the package has to be given in full
        want = dotted(*q)
        r = None
        if own is not None and it.equal(own, want) is True:
            r = pick(f.top, base)
        r = r or imported(want)
        if r:
            return r
        parts = base + [x for p, _ in f.imports for x in (p or ())]
        if any(it.name_equal(q[0], x) for x in parts):
            return 'unspecified' if not (
                own is not None and it.equal(own, want) is True) else None
        return None

    # -- what is loaded ------------------------------------------------------

    def fidelity(self, package):
        it = self.interp()
        f = full_file()
        if not package:
            for m in f.messages[0].items:
                if m.kind == 'field':
                    m.type = m.type[-1:]
                    m.dot = False
            for r in f.services[0].items:
                if r.kind == 'rpc':
                    r.req, r.resp = r.req[-1:], r.resp[-1:]
            f.package = None
        names = list(names_of(f.items)) + list(f.package or ()) + [
            user(f'op{i}') for i in range(1, 11)]
        it.scopes.append({key(n) for n in names})
        try:
            toks = file_tokens(f.items, f.package)
            out = self.paths(it, lambda: self.proto(it, toks))
        except NoMatch as e:
            self.report('P03', 'the file is accepted', 'grammar', False,
                        f'{e.tokens[e.pos:e.pos + 1]} is not accepted after '
                        f'{e.tokens[max(0, e.pos - 6):e.pos]}')
            return
        self.report('P03', 'the file is accepted', 'grammar', True)
        for dec, outcome, proto in out:
            self.report('P03', 'the file is loaded', 'Proto',
                        outcome == 'return', f'{describe(proto)} is raised')
            if outcome == 'return':
                c = Compare(it, self.report, 'P03', f)
                self.compare(c, proto, f)

    def compare(self, c, proto, f):
        base = list(f.package or ())
        get = c.get
        c.same('the package', 'Proto.package', get(proto, 'package'),
               dotted(*f.package) if f.package else None)
        for o, d in c.list('every option', 'Proto.options',
                           get(proto, 'options'), f.options):
            name, kind, val = d.want
            c.same('the name of an option', 'Option.name', get(o, 'name'),
                   concat(*name))
            c.same('the kind of an option', f'Option.kind {kind}',
                   get(o, 'kind'), kind)
            c.same('the value of an option', f'Option.value {kind}',
                   get(o, 'value'), val)
        self.enums(c, 'Proto', get(proto, 'enums'), f.enums, base)
        msgs = get(proto, 'messages')
        self.messages(c, 'Proto', msgs, f.messages, base)
        for s, d in c.list('every service', 'Proto.services',
                           get(proto, 'services'), f.services):
            c.same('the name of a service', 'Service.name', get(s, 'name'),
                   d.name)
            for r, e in c.list('every rpc', 'Service.rpcs', get(s, 'rpcs'),
                               of(d, 'rpc')):
                for a, w in (('name', e.name), ('request_type',
                                                dotted(*e.req)),
                             ('response_type', dotted(*e.resp)),
                             ('request_stream', e.reqs),
                             ('response_stream', e.resps)):
                    c.same(f'the {a} of an rpc', f'Rpc.{a}', get(r, a), w)

    def enums(self, c, where, got, want, base):
        for e, d in c.list('every enum', f'{where}.enums', got, want):
            c.same('the name of an enum', 'Enum.name', c.get(e, 'name'),
                   d.name)
            c.same('the full name of an enum', 'Enum.full_name',
                   c.get(e, 'full_name'), dotted(*base, d.name))
            for v, x in c.list('every value of an enum', 'Enum.fields',
                               c.get(e, 'fields'), of(d, 'value')):
                c.same('the name of an enum value', 'EnumField.name',
                       c.get(v, 'name'), x.name)
                c.same('the number of an enum value', 'EnumField.field_number',
                       c.get(v, 'field_number'), int(x.number))

    def messages(self, c, where, got, want, base):
        """Messages may be in any order."""
        segs = got.segs if isinstance(got, List) else []
        by = {norm(c.get(m, 'name')): m for m in segs}
        seen = []
        for d in want:
            m = by.get(key(d.name))
            c.rep('P03', 'every message', f'{where}.messages', m is not None,
                  f'{d.name} is missing')
            if m is not None:
                seen.append(m)
                self.message(c, m, d, base)
        rest = [m for m in segs if m not in seen]
        if where == 'Proto':
            c.rep('P03', 'every message once', f'{where}.messages', not rest,
                  f'{len(rest)} more than declared')
        return rest

    def message(self, c, m, d, base):
        get = c.get
        c.same('the full name of a message', 'Message.full_name',
               get(m, 'full_name'), dotted(*base, d.name))
        path = base + [d.name]
        self.enums(c, 'Message', get(m, 'enums'), of(d, 'enum'), path)
        entries = self.messages(c, 'Message', get(m, 'messages'),
                                of(d, 'message'), path)
        for f, x in c.list('every field', 'Message.fields', get(m, 'fields'),
                           of(d, ('field', 'map'))):
            self.field(c, 'MessageField', f, x)
            if x.kind == 'map':
                self.map(c, f, x, entries, path)
            else:
                c.same('the type of a field', 'MessageField.type',
                       get(f, 'type'), x.type[-1])
                c.same('repeated', f'MessageField.repeated {x.label}',
                       get(f, 'repeated'), x.label == 'repeated')
                c.same('optional', f'MessageField.optional {x.label}',
                       get(f, 'optional'), x.label == 'optional')
        c.list('one more message for each map', 'Message.messages',
               List(entries), of(d, 'map'))
        for o, x in c.list('every oneof', 'Message.oneofs', get(m, 'oneofs'),
                           of(d, 'oneof')):
            c.same('the name of a oneof', 'Oneof.name', get(o, 'name'),
                   x.name)
            c.same('the full name of a oneof', 'Oneof.full_name',
                   get(o, 'full_name'), dotted(*path, x.name))
            for f, y in c.list('every field of a oneof', 'Oneof.fields',
                               get(o, 'fields'), of(x, 'field')):
                self.field(c, 'OneofField', f, y)
                c.same('the type of a field', 'OneofField.type',
                       get(f, 'type'), y.type[-1])

    def field(self, c, cls, f, x):
        c.same('the name of a field', f'{cls}.name {x.kind}',
               c.get(f, 'name'), x.name)
        c.same('the number of a field', f'{cls}.field_number {x.kind}',
               c.get(f, 'field_number'), int(x.number))

    def map(self, c, f, x, entries, path):
        """A map is a repeated message of key and value."""
        get = c.get
        mine = [m for m in entries
                if norm(get(m, 'name')) == norm(get(f, 'type'))]
        c.rep('P03', 'a map has a message for its entries',
              'Message._load_map', len(mine) == 1, f'it has {len(mine)}')
        c.same('a map is repeated', 'MessageField.repeated map',
               get(f, 'repeated'), True)
        c.same('a map is not optional', 'MessageField.optional map',
               get(f, 'optional'), False)
        c.same('a map is a field of messages', 'MessageField.type_kind map',
               get(f, 'type_kind'), 'message')
        if len(mine) != 1:
            return
        c.same('the scope of the entries of a map', 'Message.full_name map',
               get(mine[0], 'full_name'),
               dotted(*path, get(mine[0], 'name')))
        c.same('the scope of the type of a map', 'MessageField.full_type map',
               get(f, 'full_type'), dotted(*path, get(f, 'type')))
        want = [('key', 1, x.key), ('value', 2, x.type[-1])]
        for g, (n, i, t) in c.list('key and value', 'Message.fields map',
                                   get(mine[0], 'fields'), want):
            for a, w in (('name', n), ('field_number', i), ('type', t),
                         ('repeated', False), ('optional', False)):
                c.same(f'the {a} of the {n} of a map', f'map {n}.{a}',
                       get(g, a), w)

    def proto(self, it, toks, imports=None):
        """Proto() of the tokens; imports are handled by what it opens."""
        it.grammar.load(it.new_parser())
        tree = it.grammar.parse(toks)
        return it.call(it.module('pbtools.parser').vars['Proto'],
                       [tree, atom('abspath'), List()])


class Compare:
    """Attributes of loaded objects with what the file says."""

    def __init__(self, it, report, prop, file):
        self.it, self.rep, self.prop, self.file = it, report, prop, file

    def get(self, o, name):
        try:
            return self.it.get_attr(o, name)
        except PyExc:
            return f'no attribute {name}'

    def same(self, rule, construct, got, want):
        g, w = norm(got), norm(want)
        self.rep(self.prop, rule, construct, g == w,
                 f'is {text(g)}, expected {text(w)}')

    def list(self, rule, construct, got, want):
        """The objects of a list with as many elements as expected."""
        segs = got.segs if isinstance(got, List) else \
            list(got) if isinstance(got, tuple) else None
        ok = segs is not None and len(segs) == len(want) and \
            not any(isinstance(s, Rep) for s in segs)
        self.rep(self.prop, rule, construct, ok,
                 f'has {len(segs) if segs is not None else got} elements, '
                 f'expected {len(want)}')
        return list(zip(segs, want)) if ok else []


def norm(v):
    if isinstance(v, (List, tuple)):
        return tuple(norm(x) for x in (v.segs if isinstance(v, List) else v))
    if isinstance(v, Sym) and v.op == 'call' and isinstance(v.args[0], Ext) \
            and v.args[0].path == 'int':
        return norm(v.args[1])
    if isinstance(v, Sym) and v.op == 'number':
        return norm(v.args[0])
    return key(v)


def text(k):
    return short_key(k)[:150]


def short_key(k):
    if isinstance(k, tuple):
        if len(k) > 1 and k[0] == 'atom':
            return str(k[1])
        return '(' + ' '.join(short_key(x) for x in k) + ')'
    return str(k)


SAMPLES = {10: ['', '0', '7', '00', '23456789', '08'],
           16: ['0', '1f', 'AB', '00ff', '7fffffff', '10', 'deadBEEF'],
           8: ['0', '7', '17', '755', '00', '017777777777']}


def value_of(t, digits):
    """The value of a term for given digits."""
    def ev(x):
        return value_of(x, digits)
    if isinstance(t, (int, str, bool)) or t is None:
        return t
    if isinstance(t, Str):
        return ''.join(str(ev(p)) for p in t.parts)
    if isinstance(t, (tuple, list)):
        return [ev(x) for x in t]
    if isinstance(t, List):
        return [ev(x) for x in t.segs]
    if type(t).__name__ == 'Snap':
        return [ev(x) for x in t.segs]
    if isinstance(t, Sym):
        op, a = t.op, t.args
        if op == 'atom':
            return digits
        if op == 'call' and isinstance(a[0], Ext) and a[0].path == 'int' or \
                op == 'int':
            rest = [ev(x) for x in a if not isinstance(x, (Ext, tuple))]
            kw = dict(x for x in a if isinstance(x, tuple))
            return int(*rest, **kw)
        if op.startswith('m.'):
            return getattr(ev(a[0]), op[2:])(*[ev(x) for x in a[1:]])
        if op == 'slice':
            return ev(a[0])[slice(*[ev(x) for x in a[1:]])]
        if op == 'getitem':
            return ev(a[0])[ev(a[1])]
        if op == 'truth':
            return bool(ev(a[0]))
        if op == 'not':
            return not ev(a[0])
        f = {'eq': lambda x, y: x == y, 'in': lambda x, y: x in y,
             'lt': lambda x, y: x < y, 'le': lambda x, y: x <= y,
             'add': lambda x, y: x + y, 'sub': lambda x, y: x - y,
             'mul': lambda x, y: x * y, 'neg': lambda x: -x,
             'len': len, 'abs': abs}.get(op)
        if f is not None:
            return f(*[ev(x) for x in a])
    raise Unsupported(f'the value of {short(t)}')


def uses(names, edges):
    return ', '.join(f'{names[i].args[0]} uses {names[j].args[0]}'
                     for i, j in sorted(edges)) or 'none uses another'


def mentions(error, name):
    return any(_mentions(a, name) for a in error.attrs.get('args', ()))


def _mentions(t, name):
    if isinstance(t, (Sym, Str)):
        if key(t) == key(name):
            return True
        return any(_mentions(a, name) for a in
                   (t.args if isinstance(t, Sym) else t.parts))
    return False


def story(dec):
    """The names that are equal on a path."""
    eq = [f'{c.args[0].args[0]} is {c.args[1].args[0]}' for c, v in dec
          if c.op == 'same' and v]
    return ' and '.join(eq) or 'all names differ'


def describe(v):
    if isinstance(v, Obj):
        args = v.attrs.get('args', ())
        return f'{v.cls.name}({", ".join(short(a) for a in args)})'
    return short(v)
