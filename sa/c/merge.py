"""Merging of states at function returns.

States that differ only in how many bytes a base-128 varint took are merged
without loss: the number of bytes becomes the atom VLEN(position) (decoding)
or VL(value) (encoding), and the value the atom VAL(position).  States in
which a coder has failed are merged with loss of the returned value.
"""

from .lin import Lin, T, Infeasible, Store, ZERO, INF
from .state import (IntV, PtrV, NullV, FnV, UndefV, Cond, B0, B1, bnot, bxor, const,
                    atom_bits, bits_const, State, Cells, UNDEF)


def cursor_axiom(*a):
    from .loops import cursor_axiom as f
    return f(*a)


def vlen_atom(reg, off):
    return T.consed(('vlen', reg.name, off.key()), f'VLEN({reg}[{off}])', 1, 11,
                    data=(reg, off))


def val_atom(reg, off):
    return T.consed(('val', reg.name, off.key()), f'VAL({reg}[{off}])', 0,
                    (1 << 64) - 1, data=(reg, off))


def vl_atom(bits):
    n = len(bits)
    while n > 0 and bits[n - 1] == B0:
        n -= 1
    hi = max(1, (n + 6) // 7)
    bits = tuple(bits[:n])
    return T.consed(('vl', bits), f'VL{len(T.atoms)}', 1, hi, data=bits)


def sync_vl(st, a):
    """Bounds of VL(V) from what is known about the bits of V."""
    bits = st.rbits(T.atoms[a].data)
    n = len(bits)
    while n > 0 and bits[n - 1] == B0:
        n -= 1
    hi = max(1, (n + 6) // 7)
    lo = 1
    for m in range(hi, 1, -1):
        if st.is_nz(bits[7 * (m - 1):]):
            lo = m
            break
    if a in st.store.eq:
        v = st.store.eq[a]
        st.store.add_ge(v - lo)
        st.store.add_ge(Lin(hi) - v)
    else:
        l0, h0 = st.store.bounds(a)
        st.store.set_bounds(a, max(lo, l0), min(hi, h0))


def canon_varint(it, base, st):
    """Name the varints whose continuation bits became known."""
    groups = {}
    for (a, i), f in st.bitk.items():
        if i != 7 or f[1] or (a, 7) in base.bitk:
            continue
        at = T.atoms[a]
        if at.key is None or at.key[0] != 'in':
            continue
        reg, off = at.data
        groups.setdefault((reg, frozenset(off.t.items())), {})[off.c] = (a, f[0])
    for (reg, tk), d in groups.items():
        cs = sorted(d)
        i = 0
        while i < len(cs):
            j = i
            while d[cs[j]][1] == 1 and j + 1 < len(cs) and cs[j + 1] == cs[j] + 1:
                j += 1
            chain = cs[i:j + 1]
            i = j + 1
            start = Lin(chain[0], dict(tk))
            vlen = vlen_atom(reg, start)
            k = len(chain)
            if ('vdone', vlen, k) in st.ghost:
                continue
            if it.loop_stack:
                cursor_axiom(it, st, reg, start)
            last = d[chain[-1]][1]
            if last == 0 and k <= 10:
                st.store.add_eq(Lin(-k, {vlen: 1}))
                val = val_atom(reg, start)
                for n, c in enumerate(chain):
                    a = d[c][0]
                    for r in range(7):
                        b = 7 * n + r
                        if b >= 64:
                            continue
                        f = st.bitk.get((a, r))
                        form = (0, frozenset([(val, b)]))
                        if f is None:
                            subst_bit(st, (a, r), form)
                        else:
                            st.set_bit((form[0] ^ f[0], form[1] ^ f[1]), 0)
                for b in range(7 * k, 64):
                    st.set_bit((0, frozenset([(val, b)])), 0)
                if 7 * k < 64:
                    lo, hi = st.store.bounds(val)
                    st.store.set_bounds(val, lo, min(hi, (1 << (7 * k)) - 1))
            elif k >= 10:
                st.store.add_eq(Lin(-11, {vlen: 1}))
            else:
                st.store.add_ge(Lin(-(k + 1), {vlen: 1}))
            st.ghost[('vdone', vlen, k)] = True


def subst_bit(st, key, form):
    for k, g in list(st.bitk.items()):
        if key in g[1]:
            st.bitk[k] = (g[0] ^ form[0], (g[1] - {key}) ^ form[1])
    st.bitk[key] = form


# --------------------------------------------------------------------------
# encoder: bytes -> venc

def as_varint(bf):
    """Value bits of a byte run that has varint shape, else None."""
    n = len(bf)
    if not 1 <= n <= 10:
        return None
    for i, b in enumerate(bf):
        if b[7] != (B1 if i < n - 1 else B0):
            return None
    bits = [x for b in bf for x in b[:7]]
    if any(x != B0 for x in bits[64:]):
        return None
    return tuple((bits + [B0] * 64)[:64])


def venc_bytes(bits, n):
    """The n bytes of a varint of known length."""
    if not 1 <= n <= 10:
        return None
    bits = (tuple(bits) + (B0,) * 70)[:70]
    return tuple(bits[7 * i:7 * i + 7] + ((B1 if i < n - 1 else B0),)
                 for i in range(n))


def coalesce(st, entries):
    """One byte run out of writes of constant bytes that touch, else None."""
    if not entries:
        return None
    parts = []
    for off, n, c in entries:
        if c[0] == 'venc':
            n = st.store.resolve(n)
            if n.t:
                return None
            b = venc_bytes(c[1], n.c)
            if b is None:
                return None
            parts.append((off, b))
            continue
        if c[0] != 'bytes':
            return None
        parts.append((off, c[1]))
    base = parts[0][0]
    try:
        rel = []
        for off, b in parts:
            d = st.store.resolve(off - base)
            if d.t:
                return None
            rel.append((d.c, b))
    except Infeasible:
        return None
    rel.sort(key=lambda x: x[0])
    pos = rel[0][0]
    out = ()
    for o, b in rel:
        if o != pos:
            return None
        out += tuple(b)
        pos += len(b)
    return base + rel[0][0], out


def canon_venc(base, states, args=()):
    # an integer argument is the likely value of a varint written here
    cand = []
    for v in args:
        if isinstance(v, IntV) and v.w in (32, 64):
            b = v.bits if v.bits is not None else safe_bits(base, v)
            if b is not None and bits_const(b) is None:
                cand.append((tuple(b) + (B0,) * 64)[:64])
    todo = []
    for st in states:
        for reg, log in st.log.items():
            if reg.kind != 'out':
                continue
            b = base.log.get(reg, ())
            if len(log) <= len(b) or log[:len(b)] != b:
                continue
            run = coalesce(st, log[len(b):])
            if run is None:
                continue
            off, bf = run
            res = tuple(st.rbits(x) for x in bf)
            if as_varint(tuple(tuple(x[:7]) + (y[7],) for x, y in zip(bf, res))) \
                    is None:
                continue
            todo.append((len(bf), st, reg, off, bf))
    if len({x[0] for x in todo}) < 2:
        return []
    todo.sort(key=lambda x: -x[0])
    used = set()
    for n, st, reg, off, bf in todo:
        bits = [x for b in bf for x in b[:7]]
        bits = tuple((bits + [B0] * 70)[:70])
        if any(st.rbit(x) != B0 for x in bits[64:]):
            continue
        bits = bits[:64]
        mine = st.rbits(bits)
        hit = None
        for v in cand:
            if st.rbits(v) == mine:
                hit = v
                break
        if hit is None:
            hit = bits
            cand.append(bits)
        used.add(hit)
        a = vl_atom(hit)
        sync_vl(st, a)
        l = st.store.resolve(Lin.atom(a))
        if l.t or l.c != n:
            continue
        blog = base.log.get(reg, ())
        st.log[reg] = blog + ((off, Lin.atom(a), ('venc', hit)),)
    for st in states:
        for v in cand:
            if v not in used:
                continue
            try:
                sync_vl(st, vl_atom(v))
            except Infeasible:
                pass
    return cand


# --------------------------------------------------------------------------
# merging two states

class NoMerge(Exception):
    pass


def pivots(s1, s2):
    out = []
    seen = set()
    for s in (s1, s2):
        for a in list(s.store.eq) + list(s.store.bnd):
            if a in seen:
                continue
            seen.add(a)
            k = T.atoms[a].key
            if k is None or k[0] not in ('vlen', 'vl'):
                continue
            i1 = s1.store.interval(s1.store.resolve(Lin.atom(a)))
            i2 = s2.store.interval(s2.store.resolve(Lin.atom(a)))
            if i1 != i2:
                out.append((a, i1, i2))
    return out


def merge_lin(s1, s2, l1, l2, piv):
    if l1 == l2:
        return l1
    r1, r2 = s1.store.resolve(l1), s2.store.resolve(l2)
    cands = [l1, l2, r1, r2]
    d = r1 - r2
    for a, (a1, b1), (a2, b2) in piv:
        if a1 == b1:
            for k in (1, -1):
                cands.append(r1 + Lin(-k * a1, {a: k}))
        if a2 == b2:
            for k in (1, -1):
                cands.append(r2 + Lin(-k * a2, {a: k}))
    seen = set()
    for c in cands:
        if c in seen:
            continue
        seen.add(c)
        if s1.store.prove_eq(c - l1) and s2.store.prove_eq(c - l2):
            return c
    return None


def discriminators(s1, s2, bits):
    """Bits that are known and differ between the two states."""
    out = []
    seen = set()
    for c, fs in bits:
        for x in fs:
            if x in seen:
                continue
            seen.add(x)
            f = (0, frozenset([x]))
            a, b = s1.rbit(f), s2.rbit(f)
            if not a[1] and not b[1] and a != b:
                out.append((f, a[0]))
    return out


def merge_bits(s1, s2, b1, b2):
    out = []
    disc = None
    for x, y in zip(b1, b2):
        if x == y:
            out.append(x)
            continue
        rx, ry = s1.rbit(x), s2.rbit(y)
        if rx == ry:
            out.append(rx)
            continue
        for c in (x, y, rx, ry):
            if s1.rbit(c) == rx and s2.rbit(c) == ry:
                out.append(c)
                break
        else:
            if rx != bnot(ry):
                return None
            if disc is None:
                disc = discriminators(s1, s2, tuple(b1) + tuple(b2))
                if not disc:
                    disc = discriminators(s1, s2, sign_bits(s1, s2))
            if not disc:
                return None
            d, v = disc[0]
            out.append(bxor(rx if v == 0 else ry, d))
    return tuple(out)


def sign_bits(s1, s2):
    out = []
    for k in sorted(set(s1.bitk) & set(s2.bitk)):
        out.append((0, frozenset([k])))
    return out


class Fresh:
    def __init__(self, lo, hi):
        self.lo = lo
        self.hi = hi


def safe_bits(st, v):
    """Bits of a value, without adding facts to the state."""
    if v.bits is not None:
        return v.bits
    keep = st.store
    st.store = keep.clone()
    try:
        b = st.bits(v)
        if st.store.eq != keep.eq or st.store.rows != keep.rows:
            return None
        return b
    finally:
        st.store = keep


def safe_range(st, v):
    """Unsigned range of a value, without adding facts to the state."""
    keep = st.store
    st.store = keep.clone()
    try:
        return st.store.interval(st.store.resolve(st.uview(v)))
    finally:
        st.store = keep


def hull(s1, s2, v1, v2):
    """A value in the range of both."""
    top = (1 << v1.w) - 1
    r1, r2 = safe_range(s1, v1), safe_range(s2, v2)
    lo = max(0, min(r1[0], r2[0]))
    hi = min(top, max(r1[1], r2[1]))
    if lo == hi:
        return const(v1.w, lo)
    a = T.new(f'm#{len(T.atoms)}', lo, hi)
    return IntV(v1.w, None, atom_bits(a, v1.w))


def merge_value(it, s1, s2, v1, v2, piv, lossy):
    if v1 is v2:
        return v1
    if isinstance(v1, UndefV) and isinstance(v2, UndefV):
        return v1
    if isinstance(v1, NullV) and isinstance(v2, NullV):
        return v1
    if isinstance(v1, FnV) and isinstance(v2, FnV) and v1.name == v2.name:
        return v1
    if isinstance(v1, PtrV) and isinstance(v2, PtrV) and v1.reg is v2.reg:
        l = merge_lin(s1, s2, v1.off, v2.off, piv)
        if l is None:
            raise NoMerge
        return PtrV(v1.reg, l)
    if isinstance(v1, IntV) and isinstance(v2, IntV) and v1.w == v2.w:
        if v1.lin is not None and v2.lin is not None:
            l = merge_lin(s1, s2, v1.lin, v2.lin, piv)
            if l is not None:
                return IntV(v1.w, l)
        b1 = safe_bits(s1, v1)
        b2 = safe_bits(s2, v2)
        b = None
        if b1 is not None and b2 is not None:
            b = merge_bits(s1, s2, b1, b2)
        if b is not None:
            return IntV(v1.w, None, b)
        if lossy:
            return hull(s1, s2, v1, v2)
    raise NoMerge


def merge_store(s1, s2, piv):
    a, b = s1.store, s2.store
    r = Store()
    r.eq = {k: v for k, v in a.eq.items() if b.eq.get(k) == v}
    r.rows = {tk: g for tk, g in a.rows.items()
              if tk in b.rows and b.rows[tk].c == g.c}
    common = set(r.rows)
    atoms = set(a.bnd) | set(b.bnd)
    for k in set(a.eq) | set(b.eq):
        if k not in r.eq:
            atoms.add(k)
    for k in atoms:
        if k in r.eq:
            continue
        x = a.interval(a.resolve(Lin.atom(k)))
        y = b.interval(b.resolve(Lin.atom(k)))
        lo, hi = min(x[0], y[0]), max(x[1], y[1])
        if (lo, hi) != (T.atoms[k].lo, T.atoms[k].hi):
            r.set_bounds(k, max(lo, T.atoms[k].lo), min(hi, T.atoms[k].hi))
    for own, other, which in ((a, b, 0), (b, a, 1)):
        extra = [g for tk, g in own.rows.items() if tk not in common]
        # what is zero here and positive in the other
        zero = []
        for k, v in own.eq.items():
            if k not in r.eq:
                l = Lin.atom(k) - v
                extra += [l, -l]
                if len(zero) < 4:
                    zero += [x for x in (l, -l) if other.prove(x - 1)]
        if piv:
            for k, (lo, hi) in own.bnd.items():
                if k in r.eq or k in other.eq:
                    continue
                at = T.atoms[k]
                if at.key is not None and at.key[0] in ('in', 'vlen', 'vl',
                                                        'bitval', 'bitsval'):
                    continue
                olo, ohi = other.bounds(k)
                if lo > olo:
                    extra.append(Lin(-lo, {k: 1}))
                if hi < ohi:
                    extra.append(Lin(hi, {k: -1}))
        for c in extra:
            if len(c.t) == 0:
                continue
            if other.prove(c):
                r.add_ge(c)
                continue
            if len(c.t) > 1 and abs(c.c) <= 8:
                for k in (4, 8):
                    if other.prove(c + k):
                        while k > 1 and other.prove(c + (k - 1)):
                            k -= 1
                        r.add_ge(c + k)
                        break
                for z in zero:
                    for k in (1, 8):
                        if other.prove(c + z.scale(k)):
                            r.add_ge(c + z.scale(k))
                            break
            for p in piv:
                pa = p[0]
                lo, hi = p[1 + which]
                for d in (c + Lin(-lo, {pa: 1}), c + Lin(hi, {pa: -1})):
                    if d.t and own.prove(d) and other.prove(d):
                        r.add_ge(d)
    return r


def signature(it, base, st, ret):
    sig = [it.coder_mode(st)]
    if 'signature' in it.hooks:
        sig.append(it.hooks['signature'](st))
    # the error code of a failed coder
    for reg, off, kind in it.coders:
        cells = st.mem.get(reg)
        if cells is None:
            continue
        e = cells.c.get(off + it.dbg.off(kind[8:], 'pos'))
        if e is not None and isinstance(e[1], IntV):
            c = st.const_of(e[1])
            sig.append(c if c is not None and c >> 31 else None)
    if isinstance(ret, Cond):
        sig.append(('cond', ret.a if ret.k == 'const' else id(ret)))
    elif isinstance(ret, IntV):
        sig.append(('int', ret.w))
        c = st.const_of(ret)
        if ret.w <= 8:
            sig.append(c)
    elif isinstance(ret, PtrV):
        sig.append(('ptr', id(ret.reg)))
    elif isinstance(ret, FnV):
        sig.append(('fn', ret.name))
    else:
        sig.append(type(ret).__name__)
    for reg in st.mem:
        c = st.mem[reg]
        if base.mem.get(reg) is c:
            continue
        for o in sorted(c.c):
            n, v = c.c[o]
            k = type(v).__name__
            if isinstance(v, PtrV):
                k = ('ptr', id(v.reg))
            sig.append((id(reg), o, n, k))
    for reg, log in st.log.items():
        b = base.log.get(reg, ())
        sig.append((id(reg), len(log), tuple(x[2][0] for x in log[len(b):])))
    for k in sorted(st.ghost, key=repr):
        v = st.ghost[k]
        if k[0] == 'vdone':
            continue
        if isinstance(v, Lin):
            sig.append((k, 'lin'))
        elif isinstance(v, tuple) and k[0] == 'pend':
            sig.append((k, len(v)))
        else:
            sig.append((k, repr(v)))
    return tuple(sig)


def merge_content(s1, s2, c1, c2):
    if c1 == c2 or c1 is c2:
        return c1
    if c1[0] != c2[0]:
        raise NoMerge
    if c1[0] == 'venc':
        b = merge_bits(s1, s2, c1[1], c2[1])
        if b is None:
            raise NoMerge
        return ('venc', b)
    if c1[0] == 'bytes' and len(c1[1]) == len(c2[1]):
        out = []
        for x, y in zip(c1[1], c2[1]):
            b = merge_bits(s1, s2, x, y)
            if b is None:
                raise NoMerge
            out.append(b)
        return ('bytes', tuple(out))
    raise NoMerge


def merge_two(it, base, s1, r1, s2, r2, lossy):
    piv = pivots(s1, s2)
    ret = None
    if r1 is not None:
        if isinstance(r1, Cond):
            if r1 is not r2 and not (r1.k == 'const' and r2.k == 'const'
                                     and r1.a == r2.a):
                raise NoMerge
            ret = r1
        else:
            ret = merge_value(it, s1, s2, r1, r2, piv, lossy)
    m = State()
    for reg, c1 in s1.mem.items():
        c2 = s2.mem.get(reg)
        if c1 is c2:
            m.mem[reg] = c1
            continue
        if c2 is None or set(c1.c) != set(c2.c):
            raise NoMerge
        c = Cells(init=c1.init or c2.init)
        for o, (n, v1) in c1.c.items():
            n2, v2 = c2.c[o]
            if n2 != n:
                raise NoMerge
            c.c[o] = (n, merge_value(it, s1, s2, v1, v2, piv, False))
        m.mem[reg] = c
    for reg, l1 in s1.log.items():
        l2 = s2.log.get(reg, ())
        if l1 is l2:
            m.log[reg] = l1
            continue
        if len(l1) != len(l2):
            raise NoMerge
        out = []
        for (o1, n1, c1), (o2, n2, c2) in zip(l1, l2):
            o = merge_lin(s1, s2, o1, o2, piv)
            n = merge_lin(s1, s2, n1, n2, piv)
            if o is None or n is None:
                raise NoMerge
            if c1[0] == 'val' and c2[0] == 'val':
                c = ('val', merge_value(it, s1, s2, c1[1], c2[1], piv, False))
            else:
                c = merge_content(s1, s2, c1, c2)
            out.append((o, n, c))
        m.log[reg] = tuple(out)
    for k, v1 in s1.ghost.items():
        v2 = s2.ghost.get(k)
        if v1 is v2 or v1 == v2:
            m.ghost[k] = v1
            continue
        if k[0] == 'vdone':
            continue
        if isinstance(v1, Lin) and isinstance(v2, Lin):
            l = merge_lin(s1, s2, v1, v2, piv)
            if l is None:
                raise NoMerge
            m.ghost[k] = l
            continue
        raise NoMerge
    m.store = merge_store(s1, s2, piv)
    m.bitk = {k: f for k, f in s1.bitk.items() if s2.bitk.get(k) == f}
    # bits that are zero in both through different equations
    for k, f in s1.bitk.items():
        if k not in m.bitk and not f[1] and s2.rbit((0, frozenset([k]))) == f:
            m.bitk[k] = f
    for k, f in s2.bitk.items():
        if k not in m.bitk and not f[1] and s1.rbit((0, frozenset([k]))) == f:
            m.bitk[k] = f
    m.nz = tuple(t for t in s1.nz if t in s2.nz or s2.is_nz(t))
    m.nz += tuple(t for t in s2.nz if t not in m.nz and s1.is_nz(t))
    # bits known in both and different: keep how they go together
    flip = sorted(k for k, f in s1.bitk.items() if not f[1] and k not in m.bitk
                  and k in s2.bitk and not s2.bitk[k][1])
    if flip:
        d = flip[0]
        for k in flip[1:]:
            m.bitk[k] = (s1.bitk[k][0] ^ s1.bitk[d][0], frozenset([d]))
        for own, other in ((s1, s2), (s2, s1)):
            one = [k for k in flip if own.bitk[k][0]][:2]
            for t in other.nz[:8]:
                if own.is_nz(t):
                    continue
                for k in one:
                    m.nz += (tuple(t) + ((0, frozenset([k])),),)
    m.neq = tuple(t for t in s1.neq if t in s2.neq)
    m.note = s1.note if s1.note == s2.note else ()
    return m, ret


def merge(it, base, outs, args=()):
    live = []
    for st, v in outs:
        try:
            canon_varint(it, base, st)
            live.append((st, v))
        except Infeasible:
            continue
    canon_venc(base, [s for s, _ in live], args)
    groups = {}
    for st, v in live:
        groups.setdefault(signature(it, base, st, v), []).append((st, v))
    res = []
    for sig, g in groups.items():
        lossy = it.lossy_merge and 'ab' in sig[0]
        if lossy and len(it.stack) <= it.keep_depth \
                and len(live) <= it.keep_failed:
            res += g
            continue
        clusters = []
        for st, v in g:
            for i, (cs, cv) in enumerate(clusters):
                # no Infeasible may escape: it would drop feasible paths
                try:
                    clusters[i] = merge_two(it, base, cs, cv, st, v, lossy)
                    break
                except (NoMerge, Infeasible):
                    continue
            else:
                clusters.append((st, v))
        res += clusters
    return res
