"""Abstract values of the Python analysis.

Constants are Python constants.  Everything unknown is a Sym, a term over
atoms.  A list of unknown length is a List with a Rep segment: a Rep stands
for "one group of values per element of a source, where the group depends on
the variant of the element and on what was decided about it".  Strings built
from these are Str, a sequence of constants, terms and joins of lists.
"""

import itertools

_counter = itertools.count(1)


class Unsupported(Exception):
    pass


class Sym:
    """A term.  ty is 'str', 'int', 'bool' or 'any'."""
    __slots__ = ('op', 'args', 'ty', 'k')

    def __init__(self, op, *args, ty='any'):
        self.op = op
        self.args = args
        self.ty = ty
        self.k = ('S', op) + tuple(key(a) for a in args)

    def __eq__(self, other):
        return isinstance(other, Sym) and self.k == other.k

    def __hash__(self):
        return hash(self.k)

    def __repr__(self):
        if self.op == 'atom':
            return f'<{self.args[0]}>'
        return f'{self.op}({", ".join(short(a) for a in self.args)})'


def atom(name, ty='str', user=False):
    """user: the name of a user defined type, which is no keyword."""
    return Sym('atom', name, user, ty=ty)


class Rep:
    """cases: ((variant, decisions, segments), ...)"""
    __slots__ = ('src', 'cases', 'rev', 'loop', 'mark', 'base', 'k')

    def __init__(self, src, cases, rev=False, loop=None, mark=None,
                 base=None):
        self.src = src
        self.loop = loop        # the loop that made it, and what stood for
        self.mark = mark        # earlier elements in it
        self.base = base        # the Rep the loop was over
        self.cases = tuple(cases)
        self.rev = rev
        self.k = ('R', src.id, rev) + tuple(
            (key(v), tuple((key(c), b) for c, b in d),
             tuple(key(s) for s in segs))
            for v, d, segs in self.cases)

    def __repr__(self):
        return (f'Rep({self.src.name}, ' + '; '.join(
            f'{v}{"/" + str(d) if d else ""}: {short(s)}'
            for v, d, s in self.cases[:4]) + ')')


class Source:
    """Where the elements of a Rep come from."""

    def __init__(self, name):
        self.id = next(_counter)
        self.name = name

    def __repr__(self):
        return f'Source({self.name})'


class Join:
    __slots__ = ('sep', 'segs', 'k')

    def __init__(self, sep, segs):
        self.sep = sep
        self.segs = tuple(segs)
        self.k = ('J', key(sep)) + tuple(key(s) for s in self.segs)

    def __repr__(self):
        return f'Join({short(self.sep)}, {short(self.segs)})'


class Str:
    """parts: constants, Sym and Join."""
    __slots__ = ('parts', 'k')

    def __init__(self, parts):
        self.parts = tuple(parts)
        self.k = ('T',) + tuple(key(p) for p in self.parts)

    def __eq__(self, other):
        return isinstance(other, Str) and self.k == other.k

    def __hash__(self):
        return hash(self.k)

    def __repr__(self):
        return 'Str(' + ' '.join(short(p) for p in self.parts) + ')'


def concat(*values):
    """A str, Sym or Str of the given strings after each other."""
    parts = []
    for v in values:
        for p in (v.parts if isinstance(v, Str) else (v,)):
            if isinstance(p, str) and parts and isinstance(parts[-1], str):
                parts[-1] += p
            elif p != '' or not isinstance(p, str):
                parts.append(p)
    if not parts:
        return ''
    if len(parts) == 1 and isinstance(parts[0], (str, Sym)):
        return parts[0]
    return Str(parts)


class Mutable:
    def __init__(self):
        self.birth = next(_counter)


class Obj(Mutable):
    def __init__(self, cls, attrs=None, name=None):
        super().__init__()
        self.cls = cls
        self.attrs = dict(attrs or {})
        self.overrides = {}
        self.name = name

    def __repr__(self):
        return f'<{self.cls.name} {self.name or self.birth}>'


class List(Mutable):
    def __init__(self, segs=(), kind='list', ordered=True):
        super().__init__()
        self.segs = list(segs)
        self.kind = kind
        self.ordered = ordered

    def __repr__(self):
        return f'List{self.segs!r}'


class Dict(Mutable):
    """entries: {key(k): (k, v)}; more: segments of (k, v) pairs."""

    def __init__(self, entries=(), kind='dict'):
        super().__init__()
        self.entries = {key(k): (k, v) for k, v in entries}
        self.more = []
        self.kind = kind

    def __repr__(self):
        return f'Dict{list(self.entries.values())!r}'


class Class(Mutable):
    def __init__(self, name, bases, attrs, module=None):
        super().__init__()
        self.name = name
        self.bases = bases
        self.attrs = attrs
        self.module = module

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, Class):
                out += [c for c in b.mro() if c not in out]
        return out

    def lookup(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c.attrs[name]
        return None

    def is_subclass(self, other):
        return other in self.mro()

    def __repr__(self):
        return f'<class {self.name}>'


class Func(Mutable):
    def __init__(self, node, frame, defaults, kw_defaults, cls=None):
        super().__init__()
        self.node = node
        self.frame = frame
        self.defaults = defaults
        self.kw_defaults = kw_defaults
        self.cls = cls
        self.name = getattr(node, 'name', '<lambda>')
        self.generator = False
        self.has_if = True

    def __repr__(self):
        return f'<function {self.name}>'


class Bound:
    def __init__(self, func, self_):
        self.func = func
        self.self = self_


class Descriptor:
    """property, staticmethod or classmethod."""

    def __init__(self, kind, func):
        self.kind = kind
        self.func = func


class Builtin:
    def __init__(self, name, f):
        self.name = name
        self.f = f

    def __repr__(self):
        return f'<builtin {self.name}>'


class Ext:
    """Something in a module that is not part of the project."""

    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return f'<{self.path}>'


class Module:
    def __init__(self, name, file):
        self.name = name
        self.file = file
        self.vars = {}


def key(v):
    if isinstance(v, (Sym, Rep, Join, Str)) or type(v).__name__ == "Snap":
        return v.k
    if isinstance(v, bool):
        return ('b', v)
    if v is None or isinstance(v, (str, int, float, bytes)):
        return v
    if isinstance(v, tuple):
        return ('t',) + tuple(key(x) for x in v)
    if isinstance(v, List):
        return ('L',) + tuple(key(x) for x in v.segs)
    if isinstance(v, frozenset):
        return ('f',) + tuple(sorted(map(repr, v)))
    if isinstance(v, Ext):
        return ('E', v.path)
    return ('O', id(v))


def short(v):
    t = repr(v)
    return t if len(t) < 300 else t[:300] + '...'
