"""The abstract proto files the generators are analysed with: any number of
messages with any number of fields of every kind, as the parser loads them."""

import ast

from .grammar import Grammar, RepTok, Tok, words
from .pai import Interp
from .values import Sym, Rep, Source, Obj, List, atom

NUMERIC = ['int32', 'int64', 'sint32', 'sint64', 'uint32', 'uint64',
           'fixed32', 'fixed64', 'sfixed32', 'sfixed64', 'float', 'double',
           'bool']
SCALARS = NUMERIC + ['string', 'bytes']
MAP_KEYS = [t for t in SCALARS if t not in ('float', 'double', 'bytes')]
TYPES = SCALARS + ['enum', 'message']


def field_variants():
    for t in TYPES:
        for mode in ('plain', 'repeated', 'optional'):
            if (t, mode) != ('message', 'optional'):
                yield t, mode


def map_variants():
    for v in TYPES:
        yield 'int32', v
    for k in MAP_KEYS:
        if k != 'int32':
            yield k, 'int32'
    yield 'string', 'string'


class Schema:
    """Abstract tokens and the objects loaded from them."""

    def __init__(self, it, depth=2, maps=True):
        self.it = it
        self.maps = maps
        self.parser = it.module('pbtools.parser')
        it.call_hooks['load_integer'] = self.integer
        self.depth = depth
        self.sources = {}
        self.kinds = {}         # id(type atom) -> kind

    def integer(self, it, f, args, kw):
        v = args[0]
        if isinstance(v, Sym) and v.op == 'atom':
            return Sym('number', v, ty='int')
        return NotImplemented

    def source(self, name):
        if name not in self.sources:
            self.sources[name] = Source(name)
        return self.sources[name]

    # tokens

    def unknown(self, where, user=False):
        return Tok('x', atom(where, user=user))

    def number(self, where):
        return Tok('1', atom(where))

    def type_tokens(self, t, where):
        if t in SCALARS:
            return [Tok(t)]
        return [self.unknown(f'{where}.type', True)]

    def field_item(self, t, mode, where):
        return ([] if mode == 'plain' else [Tok(mode)]) + \
            self.type_tokens(t, where) + [
                self.unknown(f'{where}.name'), Tok('='),
                self.number(f'{where}.number'), Tok(';')]

    def map_item(self, k, v, where):
        return words(f'map < {k} ,') + self.type_tokens(v, where) + [
            Tok('>'), self.unknown(f'{where}.name'), Tok('='),
            self.number(f'{where}.number'), Tok(';')]

    def block(self, kind, where, user, src, cases):
        cases = cases + [(';', [Tok(';')])]
        return [Tok(kind), self.unknown(f'{where}.name', user), Tok('{'),
                RepTok(src, cases), Tok('}')]

    def enum_item(self, where):
        w = f'{where}.field'
        return self.block('enum', where, True, self.source(f'{where}.fields'),
                          [('field', [
                              self.unknown(f'{w}.name'), Tok('='),
                              self.number(f'{w}.number'), Tok(';')])])

    def oneof_item(self, where):
        cases = []
        for t in TYPES:
            w = f'{where}.field[{t}]'
            cases.append((t, self.type_tokens(t, w) + [
                self.unknown(f'{w}.name'), Tok('='),
                self.number(f'{w}.number'), Tok(';')]))
        return self.block('oneof', where, False,
                          self.source(f'{where}.fields'), cases)

    def message_item(self, where, depth):
        cases = []
        for t, mode in field_variants():
            v = f'{mode}/{t}'
            cases.append((v, self.field_item(t, mode,
                                             f'{where}.field[{v}]')))
        if self.maps:
            for k, t in map_variants():
                v = f'map/{k}/{t}'
                cases.append((v, self.map_item(k, t, f'{where}.field[{v}]')))
        cases.append(('enum', self.enum_item(f'{where}.enum')))
        cases.append(('oneof', self.oneof_item(f'{where}.oneof')))
        if depth > 1:
            cases.append(('message', self.message_item(
                f'{where}.message', depth - 1)))
        return self.block('message', where, True,
                          self.source(f'{where}.items'), cases)

    def tree(self, package):
        """What textparser makes of the file."""
        it = self.it
        g = Grammar(it)
        # the names of textparser are looked up when they are called
        g.load(it.call(self.parser.vars['Parser'], []))
        toks = words('syntax = "proto3" ;')
        if package is not None:
            toks += [Tok('package'), Tok('x', package), Tok(';')]
        toks += [RepTok(self.source('enums'), [('enum',
                                                self.enum_item('enum'))]),
                 RepTok(self.source('messages'), [
                     ('message', self.message_item('msg', self.depth))])]
        return g.parse(toks)

    # objects

    def load(self, tree):
        """What the parser loads before it looks at what types are."""
        it = self.it
        classes = self.parser.vars

        def nothing(it, f, args, kw):
            if f.name.startswith('sort'):
                return args[-1]

        def names(prefix):
            return [n for n in functions(it, self.parser)
                    if n.startswith(prefix)]
        hooks = {n: nothing for n in names('resolve') + names('sort')}
        saved = dict(it.call_hooks)
        it.call_hooks.update(hooks)
        try:
            return it.call(classes['Proto'], [tree, atom('abspath'), List()])
        finally:
            it.call_hooks.clear()
            it.call_hooks.update(saved)

    def proto(self, package):
        """An abstract parsed file."""
        it = self.it
        pkg = atom('package') if package else None
        loaded = self.load(self.tree(pkg))
        messages = it.get_attr(loaded, 'messages')
        for message in elements(messages):
            self.resolve(message, package)
        imported = Obj(self.parser.vars['ImportedProto'])
        imported.overrides = {'path': atom('import.path')}
        proto = Obj(self.parser.vars['Proto'])
        proto.overrides = {
            'package': pkg,
            'imports': List([Rep(self.source('imports'),
                                 [('import', (), (imported,))])]),
            'options': List(),
            'services': List(),
            'enums': it.get_attr(loaded, 'enums'),
            'messages': messages,
            'abspath': atom('abspath'),
        }
        return proto

    def resolve(self, message, package):
        """What the resolution of types gives the fields."""
        for where, f in self.fields_of(message):
            t = f.attrs['type']
            if isinstance(t, str) and t in SCALARS:
                f.attrs['type_kind'] = 'scalar-value-type'
                continue
            kind = self.kind_of(f)
            f.attrs['type_kind'] = kind
            if isinstance(t, Sym) and t.op == 'atom' or kind == 'map':
                name = t.args[0] if isinstance(t, Sym) and t.op == 'atom' \
                    else 'map'
            if kind == 'map':
                f.attrs['type_kind'] = 'message'
                f.attrs['namespace'] = List(
                    where.attrs['namespace'].segs + [where.attrs['name']])
                continue
            src = self.source(f'{name}.namespace')
            f.attrs['namespace'] = List([Rep(src, [
                ('part', (), (atom(f'{name}.namespace.part'),))])])
            f.attrs['package'] = atom(f'{name}.package')

    def kind_of(self, f):
        t = f.attrs['type']
        if isinstance(t, Sym) and t.op == 'atom':
            where = t.args[0]
            last = where.rsplit('[', 1)[1].split(']')[0]
            return last.split('/')[-1]
        return 'map'

    def fields_of(self, message):
        for f in elements(message.attrs['fields']):
            yield message, f
        for o in elements(message.attrs['oneofs']):
            for f in elements(o.attrs['fields']):
                yield message, f
        for m in elements(message.attrs['messages']):
            yield from self.fields_of(m)


def functions(it, mod):
    """The names of all functions and methods of a module."""
    with open(f'{it.root}/{mod.file}', encoding='utf-8') as fin:
        tree = ast.parse(fin.read())
    return [n.name for n in ast.walk(tree) if isinstance(n, ast.FunctionDef)]


def elements(v):
    """Every value in a list, over all cases."""
    for s in (v.segs if isinstance(v, List) else v):
        if isinstance(s, Rep):
            for c in s.cases:
                yield from elements(c[2])
        else:
            yield s


def c_template(repo, package, upper):
    it = Interp(repo)
    it.ext_raises = False
    schema = Schema(it)
    proto = schema.proto(package)
    mod = it.module('pbtools.c_source')
    options = it.call(mod.vars['Options'], [], {'enums_upper_case': upper})
    paths = it.run_paths(lambda: it.call(
        mod.vars['generate'], [atom('namespace'), proto, atom('header_name'),
                               options]))
    return it, schema, paths
