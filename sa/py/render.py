"""Instances of abstract strings: what a template is for given elements."""

import os
import re

from .values import Sym, Rep, Str, Join, Obj, List, Dict, Ext, key, short
from .pai import Snap
from . import builtins_ as B


class Unrenderable(Exception):
    pass


class Inst:
    """An element of a source."""

    def __init__(self, variant, atoms=None, sources=None):
        self.variant = variant
        self.atoms = atoms or {}
        self.sources = sources or {}


class Known:
    def __init__(self, value):
        self.value = value


class Located:
    def __init__(self, obj, env):
        self.obj = obj
        self.env = env


class Lazy:
    def __init__(self, f, *args):
        self.f = f
        self.args = args


class Env:
    def __init__(self, parent=None, inst=None):
        self.parent = parent
        self.inst = inst
        self.extra = {}
        self.bound = {}

    def atom(self, name):
        e = self
        while e is not None:
            if e.inst is not None and name in e.inst.atoms:
                return e.inst.atoms[name]
            e = e.parent
        for b in self.found():
            if name in b.inst.atoms:
                return b.inst.atoms[name]
        raise Unrenderable(f'no value for {name}')

    def found(self):
        """Elements that ended a loop."""
        e = self
        while e is not None:
            for name, b in e.bound.items():
                if b is None:
                    raise Unrenderable(f'several elements of {name}')
                while b is not None and b is not e:
                    if b.inst is not None:
                        yield b
                    b = b.parent
            e = e.parent

    def bind(self, name, b):
        old = self.bound.get(name, b)
        if old is None or old.inst is not b.inst:
            b = None
        self.bound[name] = b

    def source(self, name):
        e = self
        while e is not None:
            if e.inst is not None and name in e.inst.sources:
                return e.inst.sources[name]
            e = e.parent
        for b in self.found():
            if name in b.inst.sources:
                return b.inst.sources[name]
        raise Unrenderable(f'no elements for {name}')

    def get(self, k):
        e = self
        while e is not None:
            if k in e.extra:
                v = e.extra[k]
                if isinstance(v, Lazy):
                    v = e.extra[k] = v.f(*v.args)
                return v
            e = e.parent
        return None


class Renderer:

    def __init__(self, it):
        self.it = it
        self.used = set()       # (rep, case) that were rendered
        self.seen = {}
        self.index_of = {}
        self.keep = []

    # -- lists -----------------------------------------------------------

    def flatten(self, segs, env):
        """[(value, env)]"""
        out = []
        for s in segs:
            if isinstance(s, Rep):
                out += self.rep(s, env, out)
            else:
                out.append((s, env))
        return out

    def instances(self, rep, env):
        src = rep.src
        if getattr(src, 'single', False):
            return [Inst(None)]
        if getattr(src, 'term', None) is not None:
            values = list(self.ev(src.term, env))
            out = []
            for v in values:
                i = Inst('element')
                i.elem = (Sym('elem', src.term).k, v)
                out.append(i)
            return out
        if isinstance(src.id, tuple) and src.id[0] == 'prefix':
            return None
        if getattr(src, 'of', None) is not None:
            insts = self.instances(src.of, env)
            if insts is None:
                return None
            out = []
            for inst in reversed(insts) if rep.rev else insts:
                if self.case(src.exits, inst, Env(env, inst))[0] is not None:
                    break
                out.append(inst)
            return out[::-1] if rep.rev else out
        return env.source(src.name)

    def case(self, rep, inst, env):
        found = []
        index = self.index_of.get(id(rep))
        if index is None:
            index = {}
            for i, c in enumerate(rep.cases):
                index.setdefault(c[0], []).append((i, c[1], c[2]))
            self.index_of[id(rep)] = index
            self.keep.append(rep)
        if inst.variant is None:
            cases = [x for v in index.values() for x in v]
        else:
            cases = index.get(inst.variant, ())
        for i, dec, segs in cases:
            if all(bool(self.ev(c, env)) == b for c, b in dec):
                found.append((i, segs))
        if not found:
            return None, ()         # filtered out before
        if len(found) > 1 and any(f[1] != found[0][1] for f in found):
            raise Unrenderable(f'ambiguous cases in {short(rep)}')
        return found[0]

    def rep(self, rep, env, before):
        insts = self.instances(rep, env)
        if insts is None:
            earlier = env.get(rep.src.id)
            if earlier is None:
                raise Unrenderable('earlier elements of another loop')
            return list(earlier)
        if rep.rev:
            insts = list(reversed(insts))
        out = []
        bases = []
        b = rep
        while b is not None:
            bases.append(b)
            b = b.base
        self.seen[rep.k] = rep
        envs = []
        for n, inst in enumerate(insts):
            e = Env(env, inst)
            e.extra['at', rep.src.id] = (env, insts, n)
            envs.append((inst, e))
            if hasattr(inst, 'elem'):
                e.extra[inst.elem[0]] = inst.elem[1]
            for i, b in enumerate(bases):
                if b.loop is not None:
                    e.extra[('index', b.loop)] = Lazy(
                        self.index, b, envs[:n]) if i else len(out)
            for b in bases:
                if b.loop is not None:
                    e.extra[('before', b.loop)] = (env, envs, n)
            if rep.mark is not None:
                mark, old = rep.mark
                done = len(out)
                if isinstance(mark, list):
                    e.extra[mark[0].src.id] = Lazy(
                        self.earlier, out, done, old, env, rep.rev)
                else:
                    e.extra[mark.k] = (old, env, out, done, rep.rev)
            i, segs = self.case(rep, inst, e)
            if i is not None:
                self.used.add((rep.k, i))
            out += self.flatten(segs, e)
        return out

    def replay(self, mark, env, envs, n):
        """What a variable is after n elements of a loop."""
        rep, old, _ = self.it.updates[mark.k]
        value = self.ev(old, env)
        for inst, e in envs[:n]:
            e2 = Env(e)
            e2.extra[mark.k] = Known(value)
            i, segs = self.case(rep, inst, e2)
            if i is not None:
                value = self.ev(segs[0], e2)
        return value

    def index(self, b, envs):
        return sum(len(self.case(b, inst, e)[1]) for inst, e in envs)

    def earlier(self, out, done, old, env, rev):
        pre = self.flatten(old, env)
        return out[:done][::-1] + pre if rev else pre + out[:done]

    def attribute(self, o, name):
        """The attribute of an element of a list."""
        for dec, outcome, value, delta in self.it.explore(
                lambda: self.it.get_attr(o.obj, name)):
            if all(bool(self.ev(c, o.env)) == b for c, b in dec):
                if outcome != 'end':
                    raise Unrenderable(f'no attribute {name}')
                return self.ev(value, o.env)
        raise Unrenderable(name)

    def in_slice(self, env, snap, n, lo, hi):
        rep = snap.segs[n]
        outer, insts, at = env.get(('at', rep.src.id))
        before = len(self.flatten(snap.segs[:n], outer))
        for inst in insts[:at]:
            e = Env(outer, inst)
            before += len(self.case(rep, inst, e)[1])
        total = before
        if (lo or 0) < 0 or (hi or 0) < 0:
            total = len(self.flatten(snap.segs, outer))
        return before in range(*slice(lo, hi).indices(
            max(total, before + 1)))

    def uncovered(self):
        for k, rep in self.seen.items():
            if getattr(rep.src, 'single', False):
                continue
            if len(rep.cases) == 1 and not rep.cases[0][1]:
                continue
            for i, c in enumerate(rep.cases):
                if not c[1] and not c[2]:
                    continue        # nothing for elements of the kind
                if (k, i) not in self.used:
                    yield rep, c

    # -- values ----------------------------------------------------------

    def ev(self, v, env):
        if v is None or isinstance(v, (str, bool, int, float, bytes)):
            return v
        if isinstance(v, Str):
            return ''.join(self.part(p, env) for p in v.parts)
        if isinstance(v, Sym):
            return self.sym(v, env)
        if isinstance(v, tuple):
            return tuple(self.ev(x, env) for x in v)
        if isinstance(v, List):
            return [self.ev(x, e) for x, e in self.flatten(v.segs, env)]
        if isinstance(v, Snap):
            return [self.ev(x, e) for x, e in self.flatten(v.segs, env)]
        if isinstance(v, Obj):
            return v
        if isinstance(v, Join):
            return self.part(v, env)
        raise Unrenderable(f'value {short(v)}')

    def part(self, p, env):
        if isinstance(p, Join):
            sep = self.ev(p.sep, env)
            return sep.join(self.text(x, e)
                            for x, e in self.flatten(p.segs, env))
        return self.text(p, env)

    def text(self, v, env):
        r = self.ev(v, env)
        if not isinstance(r, str):
            raise Unrenderable(f'{short(v)} is no string: {r!r}')
        return r

    def sym(self, s, env):
        op, a = s.op, s.args
        if op == 'atom':
            return env.atom(a[0])
        if op == 'number':
            return int_value(self.ev(a[0], env))
        if op in ('elem', 'index'):
            k = s.k if op == 'elem' else ('index', a[0])
            v = env.get(k)
            if v is None:
                raise Unrenderable(short(s))
            return v
        if op == 'earlier':
            raise Unrenderable(short(s))
        if op == 'loopvar':
            e = env.get(s.k)
            if isinstance(e, Known):
                return e.value
            if e is not None and s.ty == 'str':
                old, env2, out, done, rev = e
                parts = [self.text(x, e2) for x, e2 in out[:done]]
                first = self.ev(old, env2)
                return ''.join(parts[::-1]) + first if rev else \
                    first + ''.join(parts)
            before = env.get(('before', a[0]))
            if s.k in self.it.updates and before is not None:
                return self.replay(s, *before)
            raise Unrenderable(short(s))
        if op == 'after' and s.k in self.it.updates:
            rep, old, mark = self.it.updates[s.k]
            insts = self.instances(rep, env)
            if insts is None:
                raise Unrenderable(short(s))
            if rep.rev:
                insts = list(reversed(insts))
            envs = []
            for n, inst in enumerate(insts):
                e = Env(env, inst)
                e.extra[('before', rep.loop)] = (env, envs, n)
                envs.append((inst, e))
            return self.replay(mark, env, envs, len(envs))
        if op == 'call' and isinstance(a[0], Ext):
            path = a[0].path
            if path in B.PURE:
                args = [self.ev(x, env) for x in a[1:]]
                pos = [x for x, y in zip(args, a[1:])
                       if not is_kw(y)]
                kw = {x[0]: x[1] for x, y in zip(args, a[1:]) if is_kw(y)}
                return B.PURE[path](*pos, **kw)
            raise Unrenderable(short(s))
        if op.startswith('m.'):
            args = [self.ev(x, env) for x in a]
            return getattr(args[0], op[2:])(*args[1:])
        if op == 'splitext0':
            return os.path.splitext(self.ev(a[0], env))[0]
        if op == 'splitext1':
            return os.path.splitext(self.ev(a[0], env))[1]
        if op == 'getitem' and isinstance(a[0], Snap):
            v, e = self.flatten(a[0].segs, env)[self.ev(a[1], env)]
            return Located(v, e) if isinstance(v, Obj) else self.ev(v, e)
        if op == 'attr':
            o = self.ev(a[0], env)
            if isinstance(o, Located):
                return self.attribute(o, a[1])
            raise Unrenderable(short(s))
        if op in OPS:
            return OPS[op](*[self.ev(x, env) for x in a])
        if op == 'in slice':
            return self.in_slice(env, *a)
        if op == 'exit':
            found = self.flatten(a[0].segs, env)
            if not found or found[0][0] != a[1]:
                return False
            env.bind(a[0].segs[0].src.name, found[0][1])
            return True
        if op == 'nonempty':
            return len(self.ev(a[0], env)) > 0
        if op == 'cond':
            return self.ev(a[1] if self.ev(a[0], env) else a[2], env)
        if op == 'lookup':
            i = self.ev(a[1], env)
            for k, v in self.ev(a[0], env):
                if k == i:
                    return v
            raise Unrenderable(short(s))
        if op in ('some', 'after', 'unknown', 'unknown index'):
            raise Unrenderable(short(s))
        raise Unrenderable(f'{op}: {short(s)}')


def is_kw(v):
    return isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], str)


def int_value(t):
    s = t.lstrip('-')
    if s[:2].lower() == '0x':
        v = int(s, 16)
    elif s.startswith('0'):
        v = int(s, 8)
    else:
        v = int(s)
    return -v if t.startswith('-') else v


def _slice(v, lo, hi, step):
    return v[lo:hi:step]


OPS = {
    'add': lambda a, b: a + b, 'sub': lambda a, b: a - b,
    'mul': lambda a, b: a * b, 'floordiv': lambda a, b: a // b,
    'mod': lambda a, b: a % b, 'and': lambda a, b: a & b,
    'or': lambda a, b: a | b, 'xor': lambda a, b: a ^ b,
    'shl': lambda a, b: a << b, 'shr': lambda a, b: a >> b,
    'pow': lambda a, b: a ** b, 'div': lambda a, b: a / b,
    'neg': lambda a: -a, 'invert': lambda a: ~a,
    'eq': lambda a, b: a == b, 'lt': lambda a, b: a < b,
    'le': lambda a, b: a <= b, 'in': lambda a, b: a in b,
    'not': lambda a: not a, 'truth': bool, 'len': len, 'str': str,
    'is': lambda a, b: a is b, 'hex': hex, 'abs': abs,
    'repr': repr, 'format': lambda v, spec: format(v, spec),
    'percent': lambda spec, v: spec % v,
    'getitem': lambda v, i: v[i], 'slice': _slice,
    'int': lambda v, *b: int(v, *b),
    'min': min, 'max': max, 'ord': ord, 'chr': chr,
    'dedent': lambda s: __import__('textwrap').dedent(s),
    'indent': lambda s, p: __import__('textwrap').indent(s, p),
    'sum': lambda v, start: sum(v, start),
    'count': lambda v, x: v.count(x),
}
