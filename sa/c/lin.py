"""Numeric domain: integer linear constraints over named atoms.

A `Lin` is an integer linear form over atoms.  Products of atoms are atoms of
their own (with bounds derived from the factors).  A `Store` is a convex
polyhedron with integer tightening: solved equalities, inequalities and
intervals.  Entailment is decided by Fourier-Motzkin elimination, bounded in
the number of rows, so `prove` answers True only when the entailment holds.
"""

import array
import ctypes
import os
import subprocess
import tempfile
from math import gcd

INF = 1 << 200


class Atom:
    __slots__ = ('id', 'name', 'lo', 'hi', 'key', 'factors', 'width', 'data')

    def __init__(self, id_, name, lo, hi, key=None, factors=None, width=None,
                 data=None):
        self.id = id_
        self.name = name
        self.lo = lo
        self.hi = hi
        self.key = key
        self.factors = factors
        self.width = width
        self.data = data


class AtomTable:

    def __init__(self):
        self.atoms = []
        self.cons = {}

    def new(self, name, lo=-INF, hi=INF, width=None, key=None, factors=None,
            data=None):
        a = Atom(len(self.atoms), name, lo, hi, key, factors, width, data)
        self.atoms.append(a)
        return a.id

    def consed(self, key, name, lo=-INF, hi=INF, width=None, data=None):
        a = self.cons.get(key)
        if a is None:
            a = self.new(name, lo, hi, width, key, None, data)
            self.cons[key] = a
        return a

    def prod(self, a, b):
        fs = tuple(sorted(self.factors(a) + self.factors(b)))
        key = ('prod',) + fs
        p = self.cons.get(key)
        if p is None:
            lo, hi = 1, 1
            for f in fs:
                la, ha = self.atoms[f].lo, self.atoms[f].hi
                c = [lo * la, lo * ha, hi * la, hi * ha]
                lo, hi = max(min(c), -INF), min(max(c), INF)
            p = self.new('*'.join(self.atoms[f].name for f in fs), lo, hi,
                         None, key, fs)
            self.cons[key] = p
        return p

    def factors(self, a):
        f = self.atoms[a].factors
        return f if f is not None else (a,)


T = AtomTable()


def reset():
    global T
    T.atoms = []
    T.cons = {}


class Lin:
    __slots__ = ('c', 't', '_h')

    def __init__(self, c=0, t=None):
        self.c = c
        self.t = t if t is not None else {}
        self._h = None

    @staticmethod
    def atom(a, k=1):
        return Lin(0, {a: k})

    def const(self):
        return not self.t

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.c + o, self.t)
        if not o.t:
            return Lin(self.c + o.c, self.t)
        if not self.t:
            return Lin(self.c + o.c, o.t)
        t = dict(self.t)
        for a, k in o.t.items():
            n = t.get(a, 0) + k
            if n:
                t[a] = n
            else:
                del t[a]
        return Lin(self.c + o.c, t)

    __radd__ = __add__

    def __neg__(self):
        return Lin(-self.c, {a: -k for a, k in self.t.items()})

    def __sub__(self, o):
        if isinstance(o, int):
            return Lin(self.c - o, self.t)
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def scale(self, k):
        if k == 0:
            return Lin(0)
        if k == 1:
            return self
        return Lin(self.c * k, {a: c * k for a, c in self.t.items()})

    def mul(self, o):
        if not o.t:
            return self.scale(o.c)
        if not self.t:
            return o.scale(self.c)
        res = Lin(self.c * o.c)
        res = res + Lin(0, {a: k * o.c for a, k in self.t.items()} if o.c else {})
        res = res + Lin(0, {a: k * self.c for a, k in o.t.items()} if self.c else {})
        for a, ka in self.t.items():
            for b, kb in o.t.items():
                res = res + Lin(0, {T.prod(a, b): ka * kb})
        return res

    def key(self):
        if self._h is None:
            self._h = (self.c, frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        s = []
        for a, k in sorted(self.t.items()):
            n = T.atoms[a].name
            if k == 1:
                s.append(f'+{n}')
            elif k == -1:
                s.append(f'-{n}')
            else:
                s.append(f'{k:+d}*{n}')
        if self.c or not s:
            s.append(f'{self.c:+d}')
        r = ''.join(s)
        return r[1:] if r[0] == '+' else r


ZERO = Lin(0)
ONE = Lin(1)


def norm(l):
    """l >= 0 divided by the gcd of its coefficients, constant rounded down."""
    if not l.t:
        return l
    g = 0
    for k in l.t.values():
        g = gcd(g, k)
        if g == 1:
            return l
    return Lin(l.c // g, {a: k // g for a, k in l.t.items()})


class Infeasible(Exception):
    pass


STATS = {'prove': 0, 'fm': 0, 'fmcap': 0}


class Store:
    __slots__ = ('eq', 'rows', 'bnd', 'cache', 'known', 'pts', 'systems')

    def __init__(self):
        self.eq = {}
        self.rows = {}          # coefficients -> inequality
        self.bnd = {}
        self.cache = {}         # what does not follow
        self.systems = {}
        self.known = {}         # what follows; adding facts keeps it
        self.pts = []           # integer points that satisfy the store

    def clone(self):
        s = Store.__new__(Store)
        s.eq = dict(self.eq)
        s.rows = dict(self.rows)
        s.bnd = dict(self.bnd)
        s.cache = dict(self.cache)
        s.systems = dict(self.systems)
        s.known = dict(self.known)
        s.pts = list(self.pts)
        return s

    # -- points: models of the store, each refutes what it violates

    def value(self, pt, a):
        """The value of an atom at a point; those without one get one."""
        v = pt.get(a)
        if v is None:
            e = self.eq.get(a)
            if e is not None:
                v = e.c
                for b, k in e.t.items():
                    v += k * self.value(pt, b)
                pt[a] = v
                return v
            at = T.atoms[a]
            if at.factors is not None:
                v = 1
                for f in at.factors:
                    v *= self.value(pt, f)
            else:
                lo, hi = self.bounds(a)
                v = lo if lo > -INF else min(hi, 0)
            pt[a] = v
        return v

    def at(self, pt, l):
        v = l.c
        for a, k in l.t.items():
            x = pt.get(a)
            if x is None:
                x = self.value(pt, a)
            v += k * x
        return v

    def keep_points(self, l, eq=False):
        """The store gets l >= 0 or l = 0."""
        if self.pts:
            out = []
            for pt in self.pts:
                if any(a not in pt for a in l.t):
                    pt = dict(pt)
                v = self.at(pt, l)
                if v >= 0 and not (eq and v):
                    out.append(pt)
            self.pts = out

    def add_point(self, pt):
        """Keeps a point if it satisfies the store."""
        pt = dict(pt)
        for a in list(pt):
            at = T.atoms[a]
            if at.factors is not None:
                v = 1
                for f in at.factors:
                    v *= self.value(pt, f)
                if v != pt[a]:
                    return
        for g in self.rows.values():
            if self.at(pt, g) < 0:
                return
        for a, (lo, hi) in self.bnd.items():
            if not lo <= self.value(pt, a) <= hi:
                return
        for a, e in self.eq.items():
            if pt.get(a) is not None and pt[a] != self.at(pt, e):
                return
        for a in list(pt):
            lo, hi = self.bounds(a)
            if not lo <= pt[a] <= hi:
                return
        STATS['points'] = STATS.get('points', 0) + 1
        self.pts.insert(0, pt)
        del self.pts[8:]

    def refuted(self, l):
        for i, pt in enumerate(self.pts):
            for a in l.t:
                if a not in pt:
                    pt = dict(pt)
                    self.pts[i] = pt
                    break
            if self.at(pt, l) < 0:
                return True
        return False

    # -- bounds

    def bounds(self, a):
        b = self.bnd.get(a)
        if b is not None:
            return b
        at = T.atoms[a]
        if at.factors is not None:
            lo, hi = 1, 1
            for f in at.factors:
                la, ha = self.bounds(f)
                c = [lo * la, lo * ha, hi * la, hi * ha]
                lo, hi = max(min(c), -INF), min(max(c), INF)
            return lo, hi
        return at.lo, at.hi

    def interval(self, l):
        lo = hi = l.c
        for a, k in l.t.items():
            la, ha = self.bounds(a)
            if k < 0:
                la, ha = -ha, -la
                k = -k
            if la <= -INF:
                lo = -INF
            elif lo > -INF:
                lo = max(lo + k * la, -INF)
            if ha >= INF:
                hi = INF
            elif hi < INF:
                hi = min(hi + k * ha, INF)
        return lo, hi

    # -- substitution

    def resolve(self, l):
        eq = self.eq
        if not eq:
            return l
        while True:
            hit = None
            for a in l.t:
                if a in eq:
                    hit = a
                    break
                fs = T.atoms[a].factors
                if fs is not None:
                    for f in fs:
                        if f in eq:
                            hit = a
                            break
                    if hit is not None:
                        break
            if hit is None:
                return l
            k = l.t[hit]
            rest = Lin(l.c, {a: c for a, c in l.t.items() if a != hit})
            if hit in eq:
                l = rest + eq[hit].scale(k)
            else:
                p = ONE
                for f in T.atoms[hit].factors:
                    p = p.mul(eq[f] if f in eq else Lin.atom(f))
                l = rest + p.scale(k)

    # -- adding facts

    def add_ge(self, l):
        """Assume l >= 0.  Raises Infeasible if trivially contradictory."""
        l = norm(self.resolve(l))
        if not l.t:
            if l.c < 0:
                raise Infeasible
            return
        lo, hi = self.interval(l)
        if lo >= 0:
            return
        if hi < 0:
            raise Infeasible
        if len(l.t) == 1:
            (a, k), = l.t.items()
            blo, bhi = self.bounds(a)
            if k > 0:
                blo = max(blo, -(l.c // k))     # ceil(-c/k)
            else:
                bhi = min(bhi, l.c // -k)
            self.set_bounds(a, blo, bhi)
            return
        tk = l.key()[1]
        g = self.rows.get(tk)
        if g is not None and g.c <= l.c:
            return
        # l and -l both present: an equality
        opp = self.rows.get(frozenset((a, -k) for a, k in l.t.items()))
        if opp is not None:
            if opp.c + l.c == 0:
                self.add_eq(l)
                return
            if opp.c + l.c < 0:
                raise Infeasible
        self.cache = {}
        self.systems = {}
        self.keep_points(l)
        self.rows[tk] = l
        self.tighten(l)

    def set_bounds(self, a, lo, hi):
        if lo > hi:
            raise Infeasible
        self.cache = {}
        self.systems = {}
        if lo == hi:
            self.add_eq(Lin(-lo, {a: 1}))
            return
        old = self.bounds(a)
        if old == (lo, hi):
            return
        self.keep_points(Lin(-lo, {a: 1}))
        self.keep_points(Lin(hi, {a: -1}))
        self.bnd[a] = (lo, hi)
        for g in list(self.rows.values()):
            if a in g.t:
                self.tighten(g)

    def tighten(self, g, depth=0):
        """Interval propagation from one inequality."""
        for a, k in g.t.items():
            if a in self.eq:
                return
        # greatest value of each term; at most one may be unbounded
        inf = None
        total = g.c
        for a, k in g.t.items():
            la, ha = self.bounds(a)
            if (ha >= INF) if k > 0 else (la <= -INF):
                if inf is not None:
                    return
                inf = a
            else:
                total += k * (ha if k > 0 else la)
        if inf is None and total < 0:
            raise Infeasible
        for a, k in list(g.t.items()):
            la, ha = self.bounds(a)
            # k*a >= -(rest) ; rest max
            if inf is not None:
                if a != inf:
                    continue
                rmax = total
            else:
                rmax = total - (k * ha if k > 0 else k * la)
            if k > 0:
                nlo = -(rmax // k)
                if nlo > la:
                    self._improve(a, nlo, ha)
            else:
                nhi = rmax // -k
                if nhi < ha:
                    self._improve(a, la, nhi)

    def _improve(self, a, lo, hi):
        if lo > hi:
            raise Infeasible
        if lo == hi:
            if a not in self.eq:
                self.add_eq(Lin(-lo, {a: 1}))
        else:
            self.keep_points(Lin(-lo, {a: 1}))
            self.keep_points(Lin(hi, {a: -1}))
            self.bnd[a] = (lo, hi)
            self.cache = {}
            self.systems = {}

    def add_eq(self, l):
        l = self.resolve(l)
        if not l.t:
            if l.c != 0:
                raise Infeasible
            return
        g = 0
        for k in l.t.values():
            g = gcd(g, k)
        if g > 1:
            if l.c % g:
                raise Infeasible
            l = Lin(l.c // g, {a: k // g for a, k in l.t.items()})
        lo, hi = self.interval(l)
        if lo > 0 or hi < 0:
            raise Infeasible
        self.cache = {}
        self.systems = {}
        self.keep_points(l, True)
        best = None
        for a, k in l.t.items():
            if k in (1, -1) and T.atoms[a].factors is None:
                # must not occur inside a product of the same equation
                if any(T.atoms[b].factors and a in T.atoms[b].factors
                       for b in l.t):
                    continue
                if best is None or a > best:
                    best = a
        if best is None:
            for x in (norm(l), norm(-l)):
                g = self.rows.get(x.key()[1])
                if g is None or g.c > x.c:
                    self.rows[x.key()[1]] = x
            return
        k = l.t[best]
        rest = Lin(l.c, {a: c for a, c in l.t.items() if a != best})
        val = -rest if k == 1 else rest
        blo, bhi = self.bounds(best)
        self.bnd.pop(best, None)
        self.eq[best] = val
        for b in list(self.eq):
            if b == best:
                continue
            v = self.eq[b]
            if best in v.t or any(T.atoms[x].factors and best in T.atoms[x].factors
                                  for x in v.t):
                self.eq[b] = self.resolve(v)
        again = []
        for tk, g in list(self.rows.items()):
            if best in g.t or any(T.atoms[x].factors and
                                  best in T.atoms[x].factors for x in g.t):
                again.append(g)
                del self.rows[tk]
        for g in again:
            self.add_ge(g)
        # bounds of the eliminated atom become constraints of its value
        if blo > -INF:
            self.add_ge(val - blo)
        if bhi < INF:
            self.add_ge(Lin(bhi) - val)

    # -- queries

    def prove(self, l):
        """Does the store entail l >= 0?"""
        STATS['prove'] += 1
        l = norm(self.resolve(l))
        if not l.t:
            return l.c >= 0
        lo, hi = self.interval(l)
        if lo >= 0:
            return True
        if hi < 0:
            return False
        key = l.key()
        if key in self.known:
            return True
        if key in self.cache:
            return False
        if self.pts and self.refuted(l):
            STATS['refuted'] = STATS.get('refuted', 0) + 1
            self.cache[key] = False
            return False
        if self._prove(l):
            self.known[key] = True
            return True
        self.cache[key] = False
        return False

    def _prove(self, l):
        if FM is None:
            for g in self.rows.values():
                d = l - g
                if self.interval(d)[0] >= 0:
                    return True
        if self._fm(l):
            return True
        return self._factor(l)

    def _factor(self, l):
        """l = a*q + r with a >= 0, q >= 0, r >= 0."""
        prods = [a for a in l.t if T.atoms[a].factors is not None]
        if not prods:
            return False
        cands = set()
        for p in prods:
            cands.update(T.atoms[p].factors)
        for a in cands:
            if self.bounds(a)[0] < 0:
                continue
            q = ZERO
            r = Lin(l.c)
            for m, k in l.t.items():
                fs = T.factors(m)
                if a in fs:
                    rest = list(fs)
                    rest.remove(a)
                    x = ONE
                    for f in rest:
                        x = x.mul(Lin.atom(f))
                    q = q + x.scale(k)
                else:
                    r = r + Lin(0, {m: k})
            if not q.t and q.c == 0:
                continue
            # r may give part of q back: a*q + r, with a >= lo_a
            if self.prove(q):
                la = self.bounds(a)[0]
                if self.prove(r) or (la > 0 and self.prove(r + q.scale(la))):
                    return True
        return False

    def prove_eq(self, l):
        l = self.resolve(l)
        if not l.t:
            return l.c == 0
        return self.prove(l) and self.prove(-l)

    def infeasible(self):
        """Can a contradiction be derived?"""
        return not self.pts and self._fm(None)

    def _fm(self, goal):
        STATS['fm'] += 1
        if FM is None:
            rows, bnd = self.system(set(goal.t) if goal is not None else None)
            if goal is not None:
                rows.insert(0, norm(-goal - 1))
            r, pt = fm_infeasible_py(rows, bnd)
        else:
            r, pt = self.compiled(goal)
        if pt is not None:
            if self.pts and goal is not None:
                for a, v in self.pts[0].items():
                    if a not in pt and a not in self.eq and \
                            T.atoms[a].factors is None:
                        pt[a] = v
            self.add_point(pt)
        return r

    def system(self, atoms):
        """The rows connected with the atoms, with the bounds as rows."""
        if atoms is not None:
            comp = self.components()
            todo = {comp.get(a, a) for a in atoms}
            atoms = set(atoms)
            for a in list(atoms):
                fs = T.atoms[a].factors
                if fs:
                    todo.update(comp.get(f, f) for f in fs)
            rows = [g for g in self.rows.values()
                    if comp[next(iter(g.t))] in todo]
        else:
            rows = list(self.rows.values())
            atoms = set()
        for g in rows:
            atoms.update(g.t)
        # products: McCormick with interval bounds of the factors
        for a in list(atoms):
            fs = T.atoms[a].factors
            if fs is not None and len(fs) == 2:
                x, y = fs
                lx, hx = self.bounds(x)
                ly, hy = self.bounds(y)
                p = Lin.atom(a)
                X = Lin.atom(x)
                Y = Lin.atom(y)
                if lx > -INF and ly > -INF:
                    rows.append(p - X.scale(ly) - Y.scale(lx) + lx * ly)
                if hx < INF and hy < INF:
                    rows.append(p - X.scale(hy) - Y.scale(hx) + hx * hy)
                if lx > -INF and hy < INF:
                    rows.append(X.scale(hy) + Y.scale(lx) - p - lx * hy)
                if hx < INF and ly > -INF:
                    rows.append(X.scale(ly) + Y.scale(hx) - p - hx * ly)
                atoms.add(x)
                atoms.add(y)
        bnd = {}
        for a in atoms:
            lo, hi = bnd[a] = self.bounds(a)
            if lo > -INF:
                rows.append(Lin(-lo, {a: 1}))
            if hi < INF:
                rows.append(Lin(hi, {a: -1}))
        return rows, bnd

    def components(self):
        """Atom -> representative, for the atoms of the constraints."""
        comp = self.systems.get('comp')
        if comp is not None:
            return comp
        up = {}

        def find(a):
            r = a
            while True:
                u = up.get(r, r)
                if u == r:
                    break
                r = u
            while a != r:
                up[a], a = r, up.get(a, r)
            return r

        for g in self.rows.values():
            first = None
            for a in g.t:
                for b in (a,) + tuple(T.atoms[a].factors or ()):
                    r = find(b)
                    up.setdefault(r, r)
                    if first is None:
                        first = r
                    elif r != first:
                        up[r] = first
        comp = self.systems['comp'] = {a: find(a) for a in up}
        for a in list(up):
            comp[a] = find(a)
        return comp

    def compiled(self, goal):
        if goal is None:
            key = None
        else:
            comp = self.components()
            key = frozenset(comp.get(a, a) for a in goal.t)
        sys = self.systems.get(key)
        if sys is None or goal is not None and any(
                a not in sys.idx for a in goal.t):
            rows, bnd = self.system(set(goal.t) if goal is not None else None)
            sys = self.systems[key] = System(rows, bnd)
        return sys.infeasible(norm(-goal - 1) if goal is not None else None)


def low(r, bnd):
    """The least value of r within the bounds."""
    v = r.c
    for a, k in r.t.items():
        b = bnd.get(a)
        if b is None:
            return -INF
        x = b[0] if k > 0 else b[1]
        if x <= -INF or x >= INF:
            return -INF
        v += k * x
    return v


FM = None
LIMIT = 1 << 62
WIDE = 1 << 120


def load_fm():
    """Compiles fm.c; without it fm_infeasible_py does the same, slowly."""
    global FM
    if FM is not None or os.environ.get('SA_NO_FM'):
        return
    src = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'fm.c')
    with tempfile.TemporaryDirectory() as tmp:
        lib = os.path.join(tmp, 'fm.so')
        try:
            subprocess.run(['cc', '-O3', '-shared', '-fPIC', '-o', lib, src],
                           check=True, capture_output=True)
            fn = ctypes.CDLL(lib).fm
        except (OSError, subprocess.CalledProcessError):
            return
    fn.restype = ctypes.c_int
    fn.argtypes = [ctypes.c_int, ctypes.c_int] + [ctypes.c_void_p] * 4 + \
        [ctypes.c_uint64] * 2 + [ctypes.c_void_p] * 2
    FM = fn


def words(values):
    out = array.array('q')
    for v in values:
        l = v & 0xffffffffffffffff
        out.append(l - (1 << 64) if l >> 63 else l)
        out.append(v >> 64)
    return out


class System:
    """Rows in the form that fm.c takes."""

    __slots__ = ('rows', 'bnd', 'idx', 'n', 'coef', 'con', 'lo', 'hi', 'hlo',
                 'hhi')

    def __init__(self, rows, bnd):
        self.rows = rows
        self.bnd = bnd
        self.idx = {a: i for i, a in enumerate(bnd)}
        n = self.n = len(bnd)
        self.coef = None
        if not 0 < n <= 64:
            return
        m = [0] * (n * len(rows))
        o = 0
        idx = self.idx
        for r in rows:
            for a, k in r.t.items():
                if not -LIMIT < k < LIMIT:
                    return
                m[o + idx[a]] = k
            if not -WIDE < r.c < WIDE:
                return
            o += n
        lo = []
        hi = []
        self.hlo = self.hhi = 0
        for i, (x, y) in enumerate(bnd.values()):
            if x > -INF:
                self.hlo |= 1 << i
            if y < INF:
                self.hhi |= 1 << i
            x = x if x > -INF else 0
            y = y if y < INF else 0
            if not (-WIDE < x < WIDE and -WIDE < y < WIDE):
                return
            lo.append(x)
            hi.append(y)
        self.con = words(r.c for r in rows)
        self.lo = words(lo)
        self.hi = words(hi)
        self.coef = array.array('q', m)

    def infeasible(self, goal):
        n = self.n
        if self.coef is not None:
            g = None
            fits = True
            if goal is not None:
                g = array.array('q', bytes(8 * n))
                for a, k in goal.t.items():
                    if not -LIMIT < k < LIMIT:
                        fits = False
                        break
                    g[self.idx[a]] = k
                fits = fits and -WIDE < goal.c < WIDE
                g += words([goal.c if fits else 0])
            if fits:
                pt = array.array('q', bytes(8 * n))
                r = FM(len(self.rows), n, at(self.coef), at(self.con),
                       at(self.lo), at(self.hi), self.hlo, self.hhi,
                       at(g) if g is not None else None, at(pt))
                if r == 1:
                    return True, None
                if r == 0:
                    return False, dict(zip(self.bnd, pt))
                if r == -1:
                    STATS['fmcap'] += 1
                    return False, None
        STATS['fmpy'] = STATS.get('fmpy', 0) + 1
        rows = list(self.rows)
        if goal is not None:
            rows.insert(0, goal)
        return fm_infeasible_py(rows, self.bnd)


def at(a):
    return a.buffer_info()[0] or None


def fm_infeasible_py(rows, bnd, cap=500):
    cur = {}
    for r in rows:
        if not r.t:
            if r.c < 0:
                return True, None
            continue
        tk = frozenset(r.t.items())
        if tk not in cur or cur[tk].c > r.c:
            cur[tk] = r
    work = list(cur.values())
    steps = []
    while work:
        pos = {}
        neg = {}
        for r in work:
            for a, k in r.t.items():
                if k > 0:
                    pos[a] = pos.get(a, 0) + 1
                else:
                    neg[a] = neg.get(a, 0) + 1
        best = None
        for a in pos:
            x, y = pos[a], neg.get(a, 0)
            c = (x * y - x - y, a)
            if best is None or c < best:
                best = c
        for a in neg:
            if a not in pos:
                c = (-neg[a], a)
                if best is None or c < best:
                    best = c
        best = best[1]
        p = []
        n = []
        cur = {}
        for r in work:
            k = r.t.get(best, 0)
            if k > 0:
                p.append(r)
            elif k < 0:
                n.append(r)
            else:
                cur[frozenset(r.t.items())] = r
        steps.append((best, p, n))
        for a in p:
            ka = a.t[best]
            for b in n:
                kb = -b.t[best]
                g = gcd(ka, kb)
                ma, mb = kb // g, ka // g
                t = {x: k * ma for x, k in a.t.items()} if ma != 1 \
                    else dict(a.t)
                for x, k in b.t.items():
                    v = t.get(x, 0) + k * mb
                    if v:
                        t[x] = v
                    else:
                        del t[x]
                c = a.c * ma + b.c * mb
                if not t:
                    if c < 0:
                        return True, None
                    continue
                r = norm(Lin(c, t))
                if low(r, bnd) >= 0 and len(r.t) > 1:
                    continue
                tk = frozenset(r.t.items())
                if tk not in cur or cur[tk].c > r.c:
                    cur[tk] = r
        if len(cur) > cap:
            STATS['fmcap'] += 1
            return False, None
        work = list(cur.values())
    pt = {}
    for a, p, n in reversed(steps):
        lo = hi = None
        for r in p:
            k = r.t[a]
            v = r.c
            for x, m in r.t.items():
                if x != a:
                    if x not in pt:
                        pt[x] = free(bnd, x)
                    v += m * pt[x]
            v = -(v // k)
            if lo is None or v > lo:
                lo = v
        for r in n:
            k = -r.t[a]
            v = r.c
            for x, m in r.t.items():
                if x != a:
                    if x not in pt:
                        pt[x] = free(bnd, x)
                    v += m * pt[x]
            v //= k
            if hi is None or v < hi:
                hi = v
        if lo is None:
            lo = min(0, hi) if hi is not None else 0
        elif hi is not None and lo > hi:
            return False, None
        pt[a] = lo
    return False, pt


def free(bnd, a):
    lo, hi = bnd.get(a, (-INF, INF))
    return lo if lo > -INF else min(hi, 0)
