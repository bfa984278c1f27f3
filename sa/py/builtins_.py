"""Models of what the Python analysis does not interpret: built-in functions,
methods of built-in types and the standard library."""

import operator
import os
import re

from .values import (Sym, Rep, Source, Join, Str, Obj, List, Dict, Class, Func,
                     Bound, Builtin, Ext, Unsupported, Mutable, concat, key,
                     short, _counter)

# types no user defined type is called
SCALARS = frozenset('''double float int32 int64 uint32 uint64 sint32 sint64
    fixed32 fixed64 sfixed32 sfixed64 bool string bytes'''.split())

BINOPS = {
    'Add': operator.add, 'Sub': operator.sub, 'Mult': operator.mul,
    'Div': operator.truediv, 'FloorDiv': operator.floordiv,
    'Mod': operator.mod, 'Pow': operator.pow, 'BitAnd': operator.and_,
    'BitOr': operator.or_, 'BitXor': operator.xor, 'LShift': operator.lshift,
    'RShift': operator.rshift,
}
OPNAMES = {
    'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'Div': 'div',
    'FloorDiv': 'floordiv', 'Mod': 'mod', 'Pow': 'pow', 'BitAnd': 'and',
    'BitOr': 'or', 'BitXor': 'xor', 'LShift': 'shl', 'RShift': 'shr',
    'MatMult': 'matmul',
}
DUNDER = {
    'Add': '__add__', 'Sub': '__sub__', 'Mult': '__mul__',
    'BitOr': '__or__', 'BitAnd': '__and__', 'LShift': '__lshift__',
    'RShift': '__rshift__', 'Mod': '__mod__',
}

# functions without effects: constants are folded, otherwise they are terms
PURE = {
    'os.path.join': os.path.join,
    'os.path.basename': os.path.basename,
    'os.path.dirname': os.path.dirname,
    'os.path.splitext': os.path.splitext,
    'os.path.normpath': os.path.normpath,
    'os.fspath': os.fspath,
    're.sub': re.sub,
    're.escape': re.escape,
    're.split': re.split,
    're.findall': re.findall,
}
RESULT = {'os.path.join': 'str', 'os.path.basename': 'str',
          'os.path.dirname': 'str', 're.sub': 'str', 're.escape': 'str',
          'os.path.normpath': 'str', 'os.path.abspath': 'str',
          'os.path.realpath': 'str',
          'os.path.exists': 'bool', 'os.path.isfile': 'bool',
          'os.path.isdir': 'bool'}


def ext_constant(path):
    if path == 'os.sep':
        return '/'
    if path == 'os.linesep':
        return '\n'
    if path.startswith('string.'):
        import string
        v = getattr(string, path[7:], None)
        if isinstance(v, str):
            return v
    if path in ('re.MULTILINE', 're.DOTALL', 're.IGNORECASE', 're.VERBOSE',
                're.M', 're.S', 're.I', 're.X'):
        return int(getattr(re, path[3:]))
    return None


def splitext(it, p):
    if isinstance(p, str):
        return os.path.splitext(p)
    return (Sym('splitext0', p, ty='str'), Sym('splitext1', p, ty='str'))


def sys_exit(it, *args):
    raise_(it, 'SystemExit', args)


def raise_(it, name, args):
    from .pai import PyExc
    raise PyExc(it.make_exc(name, args))


def ordered_dict(it, *args):
    return it.builtins['dict'].f(*args)


def chain(it, *args):
    out = List()
    for a in args:
        it.extend(out, a)
    return out


def from_iterable(it, arg):
    out = List()
    it.iterate(arg, lambda x: it.extend(out, x))
    return out


def dedent(it, s):
    import textwrap
    if isinstance(s, str):
        return textwrap.dedent(s)
    return Sym('dedent', s, ty='str')


def indent(it, s, prefix):
    import textwrap
    if isinstance(s, str) and isinstance(prefix, str):
        return textwrap.indent(s, prefix)
    return Sym('indent', s, prefix, ty='str')


def compile_re(it, pattern, flags=0):
    return Sym('re', pattern, flags)


def itemgetter(it, i):
    return Builtin('itemgetter', lambda v: it.get_item(v, i))


def attrgetter(it, i):
    return Builtin('attrgetter', lambda v: it.get_attr(v, i))


def partial(it, f, *args, **kw):
    return Builtin('partial',
                   lambda *a, **k: it.call(f, list(args) + list(a),
                                           {**kw, **k}))


def defaultdict(it, factory=None, *args):
    d = Dict(kind='defaultdict')
    d.factory = factory
    return d


def reduce_(it, f, items, *init):
    segs = it.elements(items)
    if any(isinstance(s, Rep) for s in segs):
        raise Unsupported('reduce of an unknown list')
    acc = init[0] if init else segs.pop(0)
    for s in segs:
        acc = it.call(f, [acc, s])
    return acc


EXT = {
    'os.path.splitext': splitext,
    'sys.exit': sys_exit,
    'collections.OrderedDict': ordered_dict,
    'itertools.chain': chain,
    'itertools.chain.from_iterable': from_iterable,
    'textwrap.dedent': dedent,
    'textwrap.indent': indent,
    're.compile': compile_re,
    'operator.itemgetter': itemgetter,
    'operator.attrgetter': attrgetter,
    'functools.partial': partial,
    'functools.reduce': reduce_,
    'collections.defaultdict': defaultdict,
}

EXCEPTIONS = '''BaseException Exception ValueError KeyError IndexError
    TypeError AttributeError NameError RuntimeError NotImplementedError
    OSError IOError FileNotFoundError StopIteration ArithmeticError
    ZeroDivisionError LookupError AssertionError SystemExit KeyboardInterrupt
    UnicodeError RecursionError EOFError ImportError'''.split()
BASE = {'BaseException': None, 'Exception': 'BaseException',
        'KeyError': 'LookupError', 'IndexError': 'LookupError',
        'SystemExit': 'BaseException', 'KeyboardInterrupt': 'BaseException',
        'FileNotFoundError': 'OSError', 'IOError': 'OSError',
        'NotImplementedError': 'RuntimeError', 'RecursionError': 'RuntimeError',
        'ZeroDivisionError': 'ArithmeticError', 'UnicodeError': 'ValueError'}


def builtins(it):
    b = {}

    def add(name):
        def dec(f):
            b[name] = Builtin(name, f)
            return f
        return dec

    for n in EXCEPTIONS:
        b[n] = Class(n, [], {'__exception__': True})
    for n in EXCEPTIONS:
        base = BASE.get(n, 'Exception')
        if base is not None:
            b[n].bases = [b[base]]
    b['object'] = Class('object', [], {})
    b['NotImplemented'] = Ext('NotImplemented')
    b['__name__'] = 'module'

    def const(v):
        return v is None or isinstance(v, (bool, int, str, float, bytes))

    @add('len')
    def len_(v):
        if isinstance(v, Obj):
            return it.call(it.get_attr(v, '__len__'), [])
        if isinstance(v, str):
            return len(v)
        if isinstance(v, (List, tuple, Dict)):
            segs = it.elements(v)
            if not any(isinstance(s, Rep) for s in segs):
                return len(segs)
            return Sym('len', snap(segs), ty='int')
        return Sym('len', v, ty='int')

    @add('str')
    def str_(v='', *a, encoding=None, errors=None):
        return it.to_str(v)

    @add('repr')
    def repr_(v):
        return repr(v) if const(v) else Sym('repr', v, ty='str')

    @add('int')
    def int_(v=0, *base_, base=None):
        base = base_ if base is None else (base,)
        if const(v) and all(const(x) for x in base):
            try:
                return int(v, *base)
            except (ValueError, TypeError) as e:
                raise_(it, type(e).__name__, [str(e)])
        if isinstance(v, Sym) and v.ty == 'int' and not base:
            return v
        return Sym('int', v, *base, ty='int')

    @add('float')
    def float_(v=0):
        return float(v) if const(v) else Sym('float', v)

    @add('bool')
    def bool_(v=False):
        return it.truth_value(v)

    @add('list')
    def list_(v=()):
        segs = it.elements(v)
        out = List(segs)
        if isinstance(v, List) and not v.ordered:
            out.ordered = False
        return out

    @add('tuple')
    def tuple_(v=()):
        segs = it.elements(v)
        if any(isinstance(s, Rep) for s in segs) or not ordered(v):
            return List(segs, kind='tuple', ordered=ordered(v))
        return tuple(segs)

    def set_(v=()):
        return it.dedup(List(it.elements(v), 'set', False))
    b['set'] = Builtin('set', set_)
    b['frozenset'] = Builtin('frozenset', set_)

    def ordered(v):
        return getattr(v, 'ordered', True)

    @add('dict')
    def dict_(v=(), **kw):
        d = Dict()
        if isinstance(v, Dict):
            d.entries = dict(v.entries)
            d.more = list(v.more)
        else:
            for s in it.elements(v):
                if isinstance(s, Rep):
                    d.more.append(it.map_rep(s, lambda x: (
                        it.get_item(x, 0), it.get_item(x, 1))))
                else:
                    k, x = it.elements(s)
                    d.entries[key(k)] = (k, x)
        for k, x in kw.items():
            d.entries[key(k)] = (k, x)
        return d

    @add('range')
    def range_(*a):
        if all(isinstance(x, int) for x in a):
            return List(list(range(*a)))
        t = Sym('range', *a)
        if len(a) == 1 and isinstance(a[0], Sym) and a[0].op == 'len' and \
                type(a[0].args[0]).__name__ == 'Snap':
            return enum(List(a[0].args[0].segs), 0, False)
        src = Source(short(t))
        src.term = t
        return List([Rep(src, [('element', (), (Sym('elem', t, ty='int'),))])])

    def enum(v, start, pairs=True):
        segs = it.elements(v)
        out = []
        n = start
        for s in segs:
            if isinstance(s, Rep):
                loop = next(_counter)
                i = Sym('index', loop, ty='int')
                idx = i if n == 0 and const(n) else Sym('add', i, n, ty='int')
                if any(len(c[2]) > 1 or any(isinstance(x, Rep) for x in c[2])
                       for c in s.cases):
                    idx = Sym('unknown index', loop, ty='int')
                r = it.map_rep(s, lambda x: (idx, x) if pairs else idx)
                out.append(Rep(r.src, r.cases, r.rev, loop, s.mark, s))
                count = Sym('len', snap([s]), ty='int')
                n = count if const(n) and n == 0 else \
                    Sym('add', count, n, ty='int')
            else:
                out.append((n, s) if pairs else n)
                n = n + 1 if const(n) else Sym('add', n, 1, ty='int')
        return List(out)

    @add('enumerate')
    def enumerate_(iterable, start=0):
        v = iterable
        return enum(v, start)

    @add('zip')
    def zip_(*a, strict=False):
        lists = [it.elements(x) for x in a]
        if not any(isinstance(s, Rep) for l in lists for s in l):
            return List([tuple(x) for x in zip(*lists)])
        if all(len(l) == len(lists[0]) for l in lists):
            out = []
            for group in zip(*lists):
                if not any(isinstance(s, Rep) for s in group):
                    out.append(tuple(group))
                    continue
                r0 = group[0]
                if not all(isinstance(s, Rep) and s.src is r0.src and
                           s.rev == r0.rev and len(s.cases) == len(r0.cases)
                           for s in group):
                    raise Unsupported('zip of different lists')
                cases = []
                for cs in zip(*[s.cases for s in group]):
                    if any(c[0] != cs[0][0] or c[1] != cs[0][1] or
                           len(c[2]) != len(cs[0][2]) for c in cs):
                        raise Unsupported('zip of different lists')
                    cases.append((cs[0][0], cs[0][1],
                                  tuple(zip(*[c[2] for c in cs]))))
                out.append(Rep(r0.src, cases, r0.rev))
            return List(out)
        raise Unsupported('zip of unknown lists')

    @add('reversed')
    def reversed_(v):
        from .pai import reverse
        return List(reverse(it.elements(v)), ordered=ordered(v))

    @add('sorted')
    def sorted_(v, key=None, reverse=False):
        segs = it.elements(v)
        if key is None and all(const(s) for s in segs):
            return List(sorted(segs, reverse=reverse))
        if len(segs) <= 1 and not any(isinstance(s, Rep) for s in segs):
            return List(segs)

        def known(k):
            return const(k) or isinstance(k, tuple) and all(map(known, k))
        if not any(isinstance(s, Rep) for s in segs):
            keys = [it.call(key, [s]) if key is not None else s for s in segs]
            if all(map(known, keys)) and isinstance(reverse, bool):
                order = sorted(range(len(segs)), key=lambda i: keys[i],
                               reverse=reverse)
                return List([segs[i] for i in order])
        out = []
        cases = []
        src = Source('sorted')
        t = Sym('sorted', snap(segs), key, reverse)
        src.term = t
        src.sorted_of = segs
        # the same elements in another order
        flat = [s if isinstance(s, Rep) else
                Rep(one(s), [('one', (), (s,))]) for s in segs]
        for s in flat:
            r = Rep(s.src, s.cases, s.rev, s.loop, s.mark, s.base)
            out.append(r)
        return List(out, kind='sorted')

    def one(s):
        src = Source(short(s))
        src.single = True
        src.one = True
        return src

    def any_all(v, want):
        state = {'found': False}
        segs = it.elements(v)
        unknown = []
        for s in segs:
            if isinstance(s, Rep):
                unknown.append(s)
            else:
                t = it.truth_value(s)
                if isinstance(t, Sym):
                    t = it.decide(t)
                if t == want:
                    return want
        if not unknown:
            return not want
        out = List()

        def body(x):
            if it.truth(x) == want:
                it.append(out, 'x')
        for s in unknown:
            it.generic_loop(s, body)
        t = it.truth_value(out)
        if isinstance(t, bool):
            return want if t else not want
        return t if want else Sym('not', t, ty='bool')

    b['any'] = Builtin('any', lambda v: any_all(v, True))
    b['all'] = Builtin('all', lambda v: any_all(v, False))

    @add('isinstance')
    def isinstance_(v, t):
        if isinstance(t, tuple):
            return any(isinstance_(v, x) is True for x in t)
        if isinstance(t, Class):
            if isinstance(v, Obj):
                return v.cls.is_subclass(t)
            if isinstance(v, Sym) and v.ty == 'any':
                return Sym('isinstance', v, t.name, ty='bool')
            return False
        if isinstance(t, Builtin):
            kinds = {'str': (str, Str), 'int': (int,), 'bool': (bool,),
                     'list': (List,), 'tuple': (tuple,), 'dict': (Dict,),
                     'set': (List,), 'float': (float,)}[t.name]
            if isinstance(v, Sym):
                if v.ty in ('str', 'int', 'bool'):
                    return v.ty == t.name
                return Sym('isinstance', v, t.name, ty='bool')
            if isinstance(v, List):
                return v.kind == t.name or (t.name == 'list' and
                                            v.kind == 'sorted')
            return isinstance(v, kinds)
        return Sym('isinstance', v, short(t), ty='bool')

    @add('issubclass')
    def issubclass_(v, t):
        return v.is_subclass(t)

    @add('getattr')
    def getattr_(v, n, *d):
        if not isinstance(n, str):
            raise Unsupported('getattr of an unknown name')
        return it.get_attr(v, n, *d)

    @add('hasattr')
    def hasattr_(v, n):
        m = object()
        return it.get_attr(v, n, m) is not m

    @add('setattr')
    def setattr_(v, n, x):
        if not isinstance(n, str):
            raise Unsupported('setattr of an unknown name')
        it.store_attr(v, n, x)

    @add('type')
    def type_(v):
        if isinstance(v, Obj):
            return v.cls
        return Sym('type', v)

    @add('callable')
    def callable_(v):
        return isinstance(v, (Func, Bound, Builtin, Class))

    @add('map')
    def map_(f, *vs):
        out = List()
        v = vs[0] if len(vs) == 1 else b['zip'].f(*vs)

        def body(x):
            it.append(out, it.call(f, [x] if len(vs) == 1 else
                                   it.elements(x)))
        it.iterate(v, body)
        out.ordered = ordered(v)
        return out

    @add('filter')
    def filter_(f, v):
        out = List()

        def body(x):
            if it.truth(x if f is None else it.call(f, [x])):
                it.append(out, x)
        it.iterate(v, body)
        out.ordered = ordered(v)
        return out

    @add('sum')
    def sum_(v, start=0):
        segs = it.elements(v)
        if any(isinstance(s, Rep) for s in segs):
            if isinstance(start, List):
                out = List(start.segs)
                it.iterate(v, lambda x: it.extend(out, x))
                return out
            if all(s == 1 for r in segs if isinstance(r, Rep)
                   for c in r.cases for s in c[2]):
                return Sym('len', snap(segs), ty='int')
            return Sym('sum', snap(segs), start, ty='int')
        for s in segs:
            start = it.binop('Add', start, s)
        return start

    def minmax(name, f):
        def g(*a, **kw):
            segs = it.elements(a[0]) if len(a) == 1 else list(a)
            if all(const(s) for s in segs) and (
                    not kw or set(kw) == {'default'} and len(a) == 1):
                if segs:
                    return f(segs)
                if kw:
                    return kw['default']
                raise_(it, 'ValueError',
                       [f'{name}() arg is an empty sequence'])
            return Sym(name, snap(segs), ty='any')
        b[name] = Builtin(name, g)
    minmax('min', min)
    minmax('max', max)

    @add('next')
    def next_(v, *default):
        segs = it.elements(v)
        if segs and isinstance(segs[0], Rep) and sum(
                len(s.cases) for s in segs if isinstance(s, Rep)) > 12:
            if default and not it.truth(it.truth_value(List(segs))):
                return default[0]
            return Sym('getitem', snap(segs), 0)
        r = it.first_of(List(segs))
        if r is not it.UNSET:
            return r
        if default:
            return default[0]
        raise_(it, 'StopIteration', [])

    @add('iter')
    def iter_(v):
        return List(it.elements(v))

    @add('print')
    def print_(*a, **kw):
        it.event('print', a, tuple(sorted(kw.items())))

    @add('open')
    def open_(*a, **kw):
        t = Sym('call', Ext('open'), *a, *sorted(kw.items()))
        it.event('call', t)
        return it.maybe_raise(t)

    @add('vars')
    def vars_(v):
        return Dict(v.attrs.items())

    @add('format')
    def format_(v, spec=''):
        return it.format_value(v, None, spec)

    @add('abs')
    def abs_(v):
        return abs(v) if const(v) else Sym('abs', v, ty='int')

    @add('ord')
    def ord_(v):
        return ord(v) if const(v) else Sym('ord', v, ty='int')

    @add('chr')
    def chr_(v):
        return chr(v) if const(v) else Sym('chr', v, ty='str')

    @add('hex')
    def hex_(v):
        return hex(v) if const(v) else Sym('hex', v, ty='str')

    @add('id')
    def id_(v):
        it.event('unordered', 'id', v)
        return Sym('id', v, ty='int')

    @add('hash')
    def hash_(v):
        it.event('unordered', 'hash', v)
        return Sym('hash', v, ty='int')

    @add('property')
    def property_(f):
        from .values import Descriptor
        return Descriptor('property', f)

    for n in ('staticmethod', 'classmethod'):
        def make(n):
            from .values import Descriptor
            return Builtin(n, lambda f: Descriptor(n, f))
        b[n] = make(n)
    return b


def snap(segs):
    from .pai import Snap
    return Snap(segs)


# -- methods ---------------------------------------------------------------

STR_FOLD = {'upper', 'lower', 'strip', 'lstrip', 'rstrip', 'title', 'replace',
            'startswith', 'endswith', 'split', 'rsplit', 'splitlines',
            'partition', 'rpartition', 'capitalize', 'isdigit', 'isalpha',
            'isalnum', 'isupper', 'islower', 'isspace', 'isidentifier',
            'find', 'rfind', 'index', 'count', 'zfill', 'ljust', 'rjust',
            'center', 'encode', 'swapcase', 'removeprefix', 'removesuffix',
            'expandtabs', 'casefold', 'translate', 'isnumeric', 'isdecimal'}
STR_KEYWORDS = {'split': {'sep': None, 'maxsplit': -1},
                'rsplit': {'sep': None, 'maxsplit': -1},
                'splitlines': {'keepends': False},
                'encode': {'encoding': 'utf-8', 'errors': 'strict'},
                'expandtabs': {'tabsize': 8}}
STR_TY = {'startswith': 'bool', 'endswith': 'bool', 'isdigit': 'bool',
          'isalpha': 'bool', 'isalnum': 'bool', 'isupper': 'bool',
          'islower': 'bool', 'isspace': 'bool', 'isidentifier': 'bool',
          'isnumeric': 'bool', 'isdecimal': 'bool',
          'find': 'int', 'rfind': 'int', 'index': 'int', 'count': 'int',
          'split': 'any', 'rsplit': 'any', 'splitlines': 'any',
          'partition': 'any', 'rpartition': 'any', 'encode': 'any'}


def method(it, v, name):
    """A callable for a method of a built-in value."""
    if isinstance(v, (str, Str)) or (isinstance(v, Sym) and v.ty == 'str'):
        return str_method(it, v, name)
    if isinstance(v, List):
        f = LIST.get(name) or (SET.get(name) if v.kind == 'set' else None)
        if f is None:
            return None
        return lambda *a, **k: f(it, v, *a, **k)
    if isinstance(v, Dict):
        f = DICT.get(name)
        return None if f is None else (lambda *a, **k: f(it, v, *a, **k))
    if isinstance(v, tuple):
        if name in ('index', 'count'):
            return lambda x: LIST[name](it, List(v), x)
        return None
    if isinstance(v, Sym) and v.op == 're':
        def m(*a):
            if name in ('sub',):
                return it.call_ext('re.sub', [v.args[0], *a], {})
            if name in ('findall', 'split'):
                return it.call_ext('re.' + name, [v.args[0], *a], {})
            return it.call_ext('re.' + name, [v.args[0], *a], {})
        return m
    if isinstance(v, Sym) and v.ty == 'any' and v.op in (
            'getitem', 'elem', 'slice') and name in STR_FOLD | {'format'} and \
            name not in ('index', 'count'):
        return str_method(it, v, name)
    return None


def str_method(it, v, name):
    if name == 'join':
        return lambda items: it.join(v, items)
    if name == 'format':
        if isinstance(v, str):
            return lambda *a, **k: it.format(v, a, k)
        return lambda *a, **k: format_unknown(it, v, a, k)
    if name == 'format_map':
        return lambda d: it.format(v, (), {k: x for k, x in
                                           d.entries.values()})
    if name not in STR_FOLD:
        return None

    def m(*a, **kw):
        for i, k in enumerate(STR_KEYWORDS.get(name, ())):
            if k in kw and len(a) == i:
                a += (kw.pop(k),)
            elif kw and len(a) == i:
                a += (STR_KEYWORDS[name][k],)
        if kw:
            raise Unsupported(f'{name}({kw})')
        if isinstance(v, str) and all(
                x is None or isinstance(x, (str, int, tuple)) for x in a) and \
                not kw and not any(isinstance(y, (Sym, Str)) for x in a
                                   if isinstance(x, tuple) for y in x):
            try:
                r = getattr(v, name)(*a)
            except Exception as e:
                raise_(it, type(e).__name__, [str(e)])
            return it.import_result(r)
        if name in ('upper', 'lower'):
            return it.map_str(v, lambda p: getattr(p, name)()
                              if isinstance(p, str)
                              else Sym('m.' + name, p, ty='str'))
        if name == 'startswith' and isinstance(v, Str) and \
                isinstance(v.parts[0], str) and isinstance(a[0], str):
            p = v.parts[0]
            if len(p) >= len(a[0]) or not a[0].startswith(p):
                return p.startswith(a[0])
        if name == 'endswith' and isinstance(v, Str) and \
                isinstance(v.parts[-1], str) and isinstance(a[0], str):
            p = v.parts[-1]
            if len(p) >= len(a[0]) or not a[0].endswith(p):
                return p.endswith(a[0])
        if name == 'strip' and not a and isinstance(v, Str):
            w = concat(*[p for p in v.parts])
            return Sym('m.strip', w, ty='str')
        return Sym('m.' + name, v, *a, ty=STR_TY.get(name, 'str'))
    return m


def format_unknown(it, v, a, k):
    """format() of a text that is only partly known: the known parts are
    formatted and what comes from lists is taken as it is, if it was made
    from text without braces; otherwise it is a term."""
    out = []
    if isinstance(v, Str):
        for p in v.parts:
            if isinstance(p, str):
                out.append(it.format(p, a, k))
            elif isinstance(p, Sym):
                out.append(p)
            else:
                def each(x):
                    return it.format(x, a, k) if isinstance(x, str) else \
                        format_unknown(it, x, a, k)
                segs = [it.map_rep(s, each) if isinstance(s, Rep) else each(s)
                        for s in p.segs]
                out.append(Join(each(p.sep), segs))
        return concat(*out)
    if isinstance(v, Sym) and v.op == 'atom':
        return v
    return Sym('format', v, *a, *sorted(k.items()), ty='str')


def l_append(it, l, v):
    it.append(l, v)


def l_extend(it, l, v):
    it.extend(l, v)


def l_insert(it, l, i, v):
    segs = list(l.segs)
    if i == 0:
        segs = [v] + segs
    elif isinstance(i, int) and i > 0 and not any(
            isinstance(s, Rep) for s in segs[:i]):
        segs.insert(i, v)
    elif isinstance(i, int) and i < 0 and not any(
            isinstance(s, Rep) for s in segs[i:]):
        segs.insert(i, v)
    else:
        raise Unsupported('insert into an unknown list')
    it.set_segs(l, segs)


def l_pop(it, l, i=-1):
    segs = list(l.segs)
    if not segs:
        raise_(it, 'IndexError', [])
    if not isinstance(i, int) or any(
            isinstance(s, Rep) for s in (segs[:i + 1] if i >= 0 else segs[i:])):
        raise Unsupported('pop from an unknown list')
    v = segs.pop(i)
    it.set_segs(l, segs)
    return v


def l_remove(it, l, v):
    segs = list(l.segs)
    for i, s in enumerate(segs):
        if isinstance(s, Rep):
            raise Unsupported('remove from an unknown list')
        if it.truth(it.equal(s, v)):
            del segs[i]
            it.set_segs(l, segs)
            return
    raise_(it, 'ValueError', [])


def l_index(it, l, v):
    n = 0
    for s in l.segs:
        if isinstance(s, Rep):
            return Sym('listindex', snap(l.segs), v, ty='int')
        if it.truth(it.equal(s, v)):
            return n
        n += 1
    raise_(it, 'ValueError', [])


def l_count(it, l, v):
    if any(isinstance(s, Rep) for s in l.segs):
        return Sym('count', snap(l.segs), v, ty='int')
    return sum(1 for s in l.segs if it.truth(it.equal(s, v)))


def l_reverse(it, l):
    from .pai import reverse
    it.set_segs(l, reverse(l.segs))


def l_sort(it, l, **kw):
    r = it.builtins['sorted'].f(l, **kw)
    l.ordered = True
    it.set_segs(l, r.segs)


def l_copy(it, l):
    return List(l.segs, l.kind, l.ordered)


def l_clear(it, l):
    it.set_segs(l, [])


LIST = {'append': l_append, 'extend': l_extend, 'insert': l_insert,
        'pop': l_pop, 'remove': l_remove, 'index': l_index, 'count': l_count,
        'reverse': l_reverse, 'sort': l_sort, 'copy': l_copy,
        'clear': l_clear}


def s_add(it, l, v):
    c = it.contains(l, v)
    if c is not True:
        it.append(l, v)


def s_update(it, l, *vs):
    for v in vs:
        it.set_segs(l, l.segs + it.elements(v))


def s_union(it, l, *vs):
    out = List(l.segs, 'set', False)
    s_update(it, out, *vs)
    return out


SET = {'add': s_add, 'update': s_update, 'union': s_union,
       'discard': lambda it, l, v: l_remove(it, l, v)
       if it.contains(l, v) is True else None,
       'difference': lambda it, l, o: it.set_op('Sub', l, List(
           it.elements(o), 'set', False)),
       'intersection': lambda it, l, o: it.set_op('BitAnd', l, List(
           it.elements(o), 'set', False))}


def d_get(it, d, k, default=None):
    return it.dict_get(d, k, default)


def d_items(it, d):
    out = [(k, v) for k, v in d.entries.values()]
    return List(out + list(d.more))


def d_keys(it, d):
    return List(it.elements(d))


def d_values(it, d):
    return List([v for _, v in d.entries.values()] +
                [it.map_rep(r, lambda kv: kv[1]) for r in d.more])


def d_update(it, d, o=None, **kw):
    o = it.builtins['dict'].f(o or Dict(), **kw)
    e = dict(d.entries)
    e.update(o.entries)
    it.set_entries(d, e, d.more + o.more)


def d_setdefault(it, d, k, v=None):
    if d.more:
        raise Unsupported('setdefault in an unknown dictionary')
    if key(k) in d.entries:
        return d.entries[key(k)][1]
    m = object()
    r = it.dict_get(d, k, m)
    if r is not m:
        return r
    it.store_item(d, k, v)
    return v


def d_pop(it, d, k, *default):
    v = it.dict_get(d, k, *default)
    e = dict(d.entries)
    if e.pop(key(k), None) is None and (d.more or not default):
        raise Unsupported('pop from an unknown dictionary')
    it.set_entries(d, e)
    return v


DICT = {'get': d_get, 'items': d_items, 'keys': d_keys, 'values': d_values,
        'update': d_update, 'setdefault': d_setdefault, 'pop': d_pop,
        'copy': lambda it, d: it.builtins['dict'].f(d)}
