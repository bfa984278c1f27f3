"""Abstract values and abstract states of the C analysis.

An integer is an integer linear form (a representative modulo 2**width), a
vector of GF(2)-affine bit forms over atom bits, or both.  Pointers are a
region and a linear offset.  A state is a polyhedron (lin.Store), a set of
known bit equations, and the contents of the memory regions.
"""

from . import lin
from .lin import Lin, Store, T, Infeasible, ZERO, ONE, INF


class AnalysisError(Exception):
    """The analysed code uses something this analysis does not model."""


class IntV:
    __slots__ = ('w', 'lin', 'bits')

    def __init__(self, w, lin_=None, bits=None):
        self.w = w
        self.lin = lin_
        self.bits = bits

    def __repr__(self):
        if self.lin is not None:
            return f'i{self.w}({self.lin})'
        return f'i{self.w}<{show_bits(self.bits)}>'


class PtrV:
    __slots__ = ('reg', 'off')

    def __init__(self, reg, off):
        self.reg = reg
        self.off = off

    def __repr__(self):
        return f'&{self.reg}[{self.off}]'


class NullV:
    def __repr__(self):
        return 'NULL'


class FnV:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f'fn {self.name}'


class UndefV:
    def __repr__(self):
        return 'undef'


class Cond:
    __slots__ = ('k', 'a', 'b', 'pred')

    def __init__(self, k, a, b=None, pred=None):
        self.k = k          # const cmp bit not
        self.a = a
        self.b = b
        self.pred = pred

    def __repr__(self):
        return f'({self.k} {self.pred or ""} {self.a} {self.b})'


NULL = NullV()
UNDEF = UndefV()
TRUE = Cond('const', True)
FALSE = Cond('const', False)

B0 = (0, frozenset())
B1 = (1, frozenset())


def show_bits(bits):
    out = []
    for c, fs in bits:
        s = '^'.join(f'{T.atoms[a].name}.{i}' for a, i in sorted(fs))
        out.append((s + ('^1' if c else '')) if s else str(c))
    return ','.join(out)


def bxor(a, b):
    return (a[0] ^ b[0], a[1] ^ b[1])


def bnot(a):
    return (1 - a[0], a[1])


def const_bits(v, w):
    v &= (1 << w) - 1
    return tuple(B1 if (v >> i) & 1 else B0 for i in range(w))


def bits_const(bits):
    v = 0
    for i, (c, fs) in enumerate(bits):
        if fs:
            return None
        v |= c << i
    return v


def atom_bits(a, w=None):
    hi = T.atoms[a].hi
    assert T.atoms[a].lo >= 0 and hi < INF, T.atoms[a].name
    n = hi.bit_length()
    bits = [(0, frozenset([(a, i)])) for i in range(n)]
    if w is not None:
        bits = (bits + [B0] * w)[:w]
    return tuple(bits)


def const(w, v):
    return IntV(w, Lin(v))


class Region:
    """A memory object.  kind: obj in out heap items cstr global opaque"""

    def __init__(self, name, kind, size=None, base=None, ty=None, readonly=False,
                 align=1, data=None):
        self.name = name
        self.kind = kind
        self.size = size        # Lin or None (unknown)
        self.ty = ty            # declared type name, e.g. %struct.x
        self.readonly = readonly
        self.align = align
        self.data = data
        if base is None:
            b = T.new(f'&{name}/{align}' if align > 1 else f'&{name}',
                      4096 // align, (1 << 62) // align)
            base = Lin.atom(b, align)
        self.base = base

    def __repr__(self):
        return self.name


class Cells:
    """Contents of an 'obj' region: constant offset -> (size, value)."""
    __slots__ = ('c', 'init')

    def __init__(self, c=None, init=False):
        self.c = c if c is not None else {}
        self.init = init        # False: uninitialised bytes are undefined

    def clone(self):
        return Cells(dict(self.c), self.init)


class State:
    __slots__ = ('store', 'bitk', 'nz', 'neq', 'mem', 'log', 'ghost', 'note',
                 'own')

    def __init__(self):
        self.store = Store()
        self.bitk = {}          # (atom, bit) -> form
        self.nz = ()            # tuples of forms, at least one is 1
        self.neq = ()           # Lin != 0
        self.mem = {}           # Region -> Cells
        self.log = {}           # Region -> tuple of write records
        self.ghost = {}         # monitors
        self.note = ()
        self.own = set()        # regions whose Cells are private to this state

    def clone(self):
        s = State.__new__(State)
        s.store = self.store.clone()
        s.bitk = dict(self.bitk)
        s.nz = self.nz
        s.neq = self.neq
        s.mem = dict(self.mem)
        s.log = dict(self.log)
        s.ghost = dict(self.ghost)
        s.note = self.note
        s.own = set()
        self.own = set()
        return s

    def cells(self, reg):
        """Writable cells of a region."""
        c = self.mem.get(reg)
        if c is None:
            c = Cells()
            self.mem[reg] = c
            self.own.add(reg)
        elif reg not in self.own:
            c = c.clone()
            self.mem[reg] = c
            self.own.add(reg)
        return c

    # ---------------------------------------------------------------- bits

    def rbit(self, f):
        """Resolve a bit form under the known bit equations and bounds."""
        c, fs = f
        if not fs:
            return f
        changed = True
        while changed:
            changed = False
            for x in fs:
                k = self.bitk.get(x)
                if k is None:
                    if self.upper(x[0]) < (1 << x[1]):
                        k = B0
                    elif x[0] in self.store.eq and self.store.eq[x[0]].const():
                        k = (self.store.eq[x[0]].c >> x[1] & 1, frozenset())
                    else:
                        sb = T.cons.get(('bitval', x[0], x[1]))
                        if sb is not None:
                            r = self.store.resolve(Lin.atom(sb))
                            if r.const():
                                k = (r.c, frozenset())
                if k is not None:
                    fs = (fs - {x}) ^ k[1]
                    c ^= k[0]
                    changed = True
                    break
        return (c, fs)

    def upper(self, a):
        """Upper bound of a non-negative atom."""
        e = self.store.eq.get(a)
        if e is None:
            return self.store.bounds(a)[1]
        return min(self.store.interval(e)[1], T.atoms[a].hi)

    def rbits(self, bits):
        return tuple(self.rbit(b) for b in bits)

    def set_bit(self, f, v):
        """Assume that the form has the value v."""
        c, fs = self.rbit(f)
        if not fs:
            if c != v:
                raise Infeasible
            return
        p = max(fs)
        val = (c ^ v, fs - {p})
        for k, g in list(self.bitk.items()):
            if p in g[1]:
                self.bitk[k] = (g[0] ^ val[0], (g[1] - {p}) ^ val[1])
        self.bitk[p] = val
        if not val[1]:
            sb = T.cons.get(('bitval',) + p)
            if sb is not None:
                self.store.add_eq(Lin(-val[0], {sb: 1}))
            a, i = p
            lo, hi = self.store.bounds(a)
            if a not in self.store.eq:
                if val[0] == 0 and hi == (1 << (i + 1)) - 1 and hi < INF:
                    # highest bit known to be zero
                    n = i
                    while n > 0 and self.bitk.get((a, n - 1)) == B0:
                        n -= 1
                    self.store.set_bounds(a, lo, (1 << n) - 1)
                elif val[0] == 1 and lo < (1 << i):
                    self.store.set_bounds(a, 1 << i, hi)
        self.check_nz()

    def check_nz(self):
        """The tuples are kept as assumed: a merge may forget the bits that
        made one hold."""
        for t in self.nz:
            live = None
            for f in t:
                r = self.rbit(f)
                if r == B1:
                    break
                if r != B0:
                    if live is not None and live != r:
                        break
                    live = r
            else:
                if live is None:
                    raise Infeasible
                self.set_bit(live, 1)
                return

    def add_nz(self, bits):
        live = tuple(b for b in self.rbits(bits) if b != B0)
        if any(b == B1 for b in live):
            return
        if not live:
            raise Infeasible
        if len(live) == 1:
            self.set_bit(live[0], 1)
            return
        if live not in self.nz:
            self.nz = self.nz + (live,)

    def is_nz(self, bits):
        """Is at least one of the bits known to be one?"""
        bits = self.rbits(bits)
        if any(b == B1 for b in bits):
            return True
        have = set(bits)
        for t in self.nz:
            if all(r in have or r == B0 for r in self.rbits(t)):
                return True
        return False

    # ------------------------------------------------------------- numbers

    def lin_of_bits(self, bits):
        """A linear form congruent to the unsigned value modulo 2**len."""
        bits = self.rbits(bits)
        w = len(bits)
        n = w
        while n > 0 and bits[n - 1] == B0:
            n -= 1
        k = 0
        while k < n and bits[k] == B0:
            k += 1
        if k >= n:
            return ZERO
        c = bits_const(bits)
        if c is not None:
            return Lin(c)
        one = {f[1] for f in bits if f[1]}
        if len(one) == 1:
            # depends on a single bit
            fs, = one
            c0 = c1 = 0
            for i, f in enumerate(bits):
                c0 |= f[0] << i
                c1 |= (f[0] ^ bool(f[1])) << i
            return Lin(c0) + self.bit_lin((0, fs)).scale(c1 - c0)
        core = bits[k:n]
        # sign replication
        if n == w and len(core) > 1 and core[-1] == core[-2] and core[-1][1]:
            m = len(core)
            while m > 1 and core[m - 1] == core[m - 2]:
                m -= 1
            low = core[:m]
            u = self.lin_of_bits(low)
            return (u - self.bit_lin(core[-1]).scale(1 << m)).scale(1 << k)
        return self.core_lin(core).scale(1 << k)

    def bit_lin(self, f):
        f = self.rbit(f)
        if not f[1]:
            return Lin(f[0])
        if len(f[1]) == 1:
            (a, i), = f[1]
            sb = T.consed(('bitval', a, i), f'{T.atoms[a].name}.{i}', 0, 1)
            return Lin(1, {sb: -1}) if f[0] else Lin.atom(sb)
        x = T.consed(('bitsval', (f,)), 'bit', 0, 1)
        return Lin.atom(x)

    def core_lin(self, core):
        f = core[0]
        if f[0] == 0 and len(f[1]) == 1:
            (a, i0), = f[1]
            if all(c == 0 and fs == frozenset([(a, i0 + i)])
                   for i, (c, fs) in enumerate(core)):
                hi = self.upper(a)
                if i0 == 0 and (1 << len(core)) > hi:
                    return Lin.atom(a)
                if len(core) == 1:
                    return self.bit_lin(f)
                if self.store.bounds(a)[0] >= 0:
                    # quotient and remainder by a power of two
                    if (1 << (i0 + len(core))) > hi:
                        return self.divmod_const(Lin.atom(a), 1 << i0)[0]
                    if i0 == 0 and len(core) <= 8:
                        return self.divmod_const(Lin.atom(a),
                                                 1 << len(core))[1]
                nm = f'{T.atoms[a].name}[{i0}+{len(core)}]'
                x = T.consed(('bitsval', core), nm, 0, (1 << len(core)) - 1)
                return Lin.atom(x)
        if len(core) == 1:
            return self.bit_lin(core[0])
        key = ('bitsval', core)
        x = T.cons.get(key)
        if x is None:
            x = T.consed(key, f'bv{len(T.atoms)}', 0, (1 << len(core)) - 1)
        return Lin.atom(x)

    def lin(self, v):
        """Representative modulo 2**w."""
        if v.lin is not None:
            return v.lin
        return self.lin_of_bits(v.bits)

    def uview(self, v):
        return self._view(v, 0, (1 << v.w) - 1, 'u')

    def sview(self, v):
        return self._view(v, -(1 << (v.w - 1)), (1 << (v.w - 1)) - 1, 's')

    def _view(self, v, lo, hi, tag):
        st = self.store
        l = st.resolve(self.lin(v))
        if not l.t:
            m = 1 << v.w
            return Lin((l.c - lo) % m + lo)
        ilo, ihi = st.interval(l)
        if ilo >= lo and ihi <= hi:
            return l
        m = 1 << v.w
        if ilo > -INF and ihi < INF:
            q0 = (ilo - lo) // m
            q1 = (ihi - lo) // m
            if q0 == q1:
                return l - q0 * m
        if (ilo >= lo or st.prove(l - lo)) and (ihi <= hi or st.prove(Lin(hi) - l)):
            return l
        for q in (-1, 1):
            x = l - q * m
            if st.prove(x - lo) and st.prove(Lin(hi) - x):
                return x
        if tag == 's' and v.bits is not None:
            # value of the bits, minus the sign
            bits = self.rbits(v.bits)
            u = self.lin_of_bits(bits)
            s = u - self.bit_lin(bits[-1]).scale(1 << v.w)
            a, b = st.interval(u)
            if a >= 0 and b < m:
                return s
        if tag == 's':
            r = st.resolve(l)
            if len(r.t) == 1 and r.c == 0:
                (a, k), = r.t.items()
                if k == 1 and st.bounds(a)[0] >= 0 and st.bounds(a)[1] < m:
                    sb = T.consed(('bitval', a, v.w - 1),
                                  f'{T.atoms[a].name}.{v.w - 1}', 0, 1)
                    b = self.rbit((0, frozenset([(a, v.w - 1)])))
                    if not b[1]:
                        return l - (b[0] << v.w)
                    self.sign_split(a, v.w - 1, sb)
                    return l - Lin.atom(sb, m)
        key = ('wrap' + tag, v.w, l.key())
        u = T.consed(key, f'wrap{tag}{v.w}({l})', lo, hi)
        k = T.consed(('wrapk',) + key, f'k{len(T.atoms)}')
        st.add_eq(l - Lin.atom(u) - Lin.atom(k, m))
        return Lin.atom(u)

    def sign_split(self, a, i, sb):
        # 2**i * sb <= a <= 2**i - 1 + 2**i * sb
        self.store.add_ge(Lin(0, {a: 1, sb: -(1 << i)}))
        self.store.add_ge(Lin((1 << i) - 1, {a: -1, sb: 1 << i}))

    def bits(self, v):
        if v.bits is not None:
            return self.rbits(v.bits)
        l = self.store.resolve(v.lin)
        if not l.t:
            return const_bits(l.c, v.w)
        # exact single atom
        if len(l.t) == 1 and l.c == 0:
            (a, k), = l.t.items()
            at = T.atoms[a]
            if k > 0 and k & (k - 1) == 0 and at.lo >= 0 and at.hi < INF:
                sh = k.bit_length() - 1
                full = (B0,) * sh + atom_bits(a) + (B0,) * v.w
                return self.rbits(full[:v.w])
        u = self.uview(v)
        u = self.store.resolve(u)
        if len(u.t) == 1 and u.c == 0:
            (a, k), = u.t.items()
            at = T.atoms[a]
            if k == 1 and at.lo >= 0 and at.hi < INF:
                return self.rbits(atom_bits(a, v.w))
        if not u.t:
            return const_bits(u.c, v.w)
        x = T.consed(('bv', u.key()), f'bv({u})', 0, (1 << 64) - 1)
        self.store.add_eq(Lin.atom(x) - u)
        return self.rbits(atom_bits(x, v.w))

    def one_bit(self, w, l):
        """The bits of a linear form that depends on one bit only."""
        if len(l.t) != 1:
            return None
        (a, k), = l.t.items()
        at = T.atoms[a]
        if at.lo != 0 or at.hi != 1:
            return None
        key = at.key
        if key is not None and key[0] == 'bitval':
            f = (0, frozenset([(key[1], key[2])]))
        elif key is not None and key[0] == 'bitsval' and len(key[1]) == 1:
            f = key[1][0]
        else:
            f = atom_bits(a)[0]
        x, y = const_bits(l.c % (1 << w), w), const_bits((l.c + k) % (1 << w), w)
        return tuple(i if i == j else f if i == B0 else bnot(f)
                     for i, j in zip(x, y))

    def const_of(self, v):
        if v.lin is not None:
            l = self.store.resolve(v.lin)
            if not l.t:
                return l.c % (1 << v.w)
            return None
        return bits_const(self.rbits(v.bits))

    def divmod_const(self, u, m):
        """(q, r) of a linear form u by constant m > 0 (floor)."""
        u = self.store.resolve(u)
        if not u.t:
            return Lin(u.c // m), Lin(u.c % m)
        if all(k % m == 0 for k in u.t.values()):
            return (Lin(u.c // m, {a: k // m for a, k in u.t.items()}),
                    Lin(u.c % m))
        # split the divisible part off
        dv = {a: k // m for a, k in u.t.items() if k % m == 0}
        rest = Lin(u.c % m, {a: k for a, k in u.t.items() if k % m})
        key = ('div', m, rest.key())
        q = T.cons.get(key)
        if q is None:
            lo, hi = -INF, INF
            q = T.consed(key, f'({rest}/{m})', lo, hi)
        Q = Lin.atom(q)
        r = T.consed(('mod', m, rest.key()), f'({rest}%{m})', 0, m - 1)
        R = Lin.atom(r)
        self.store.add_eq(rest - Q.scale(m) - R)
        # bounds of q
        lo, hi = self.store.interval(rest)
        if lo > -INF:
            self.store.add_ge(Q - lo // m)
        if hi < INF:
            self.store.add_ge(Lin(hi // m) - Q)
        return Q + Lin(u.c // m, dv), R

    # ---------------------------------------------------------- conditions

    def add_ne(self, l):
        l = self.store.resolve(l)
        if not l.t:
            if l.c == 0:
                raise Infeasible
            return
        if self.store.prove(l):
            self.store.add_ge(l - 1)
        elif self.store.prove(-l):
            self.store.add_ge(-l - 1)
        else:
            if l not in self.neq:
                self.neq = self.neq + (l,)

    def add_eq(self, l):
        self.store.add_eq(l)
        self.check_neq()

    def add_ge(self, l):
        self.store.add_ge(l)
        if self.neq:
            self.check_neq()

    def check_neq(self):
        if not self.neq:
            return
        out = []
        for l in self.neq:
            r = self.store.resolve(l)
            if not r.t:
                if r.c == 0:
                    raise Infeasible
                continue
            lo, hi = self.store.interval(r)
            if lo > 0 or hi < 0:
                continue
            if lo == 0:
                self.store.add_ge(r - 1)
                continue
            if hi == 0:
                self.store.add_ge(-r - 1)
                continue
            out.append(l)
        self.neq = tuple(out)

    def maybe(self, goal_neg):
        """Can the constraint list hold?  goal_neg: list of Lin >= 0."""
        try:
            s = self.clone()
            for l in goal_neg:
                s.add_ge(l)
        except Infeasible:
            return False
        return not s.store.infeasible()
