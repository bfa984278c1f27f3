"""The second pass over a repeated field (see spec_decode for the contract)."""

from .lin import Lin, T, Infeasible, ZERO
from .state import (IntV, PtrV, NullV, FnV, UndefV, NULL, UNDEF, B0, B1,
                    const_bits, atom_bits, const, Region)
from .harness import *
from .harness import (Scenario, Anchor, INT_MAX, ENC, DEC, INFO, REPEATED, BASE,
                      BYTES, HEAPT)
from .spec_scalar import (TYPES, decoded_form, show, vlen_at, val_at, bool_exact,
                          check_decoder_sticky, check_decoder_ok)
from .spec_repeated import item_size, struct_of, items_member
from .spec_decode import (info_struct, slice_of, least, chunk_wts, chunk_size,
                          chunk_count)
from .spec_msg import MsgScenario
from .loops import get_slot
from . import merge as mg

Z = ('Z',)
PART = ('Zpart',)
ERR = ('Zerr',)                 # minus the code of the item that failed, or 0


class Pass2(MsgScenario):

    own_slice = True

    def __init__(self, mod, name, t):
        super().__init__(mod, name, 'decode')
        self.t = t
        self.it.hooks['store'] = self.on_store
        self.it.hooks['cursor'] = self.on_cursor
        self.it.hooks['signature'] = self.signature
        if t == 'message':
            self.it.hooks['candidates'] = [self.item_pointers]

    def signature(self, st):
        """Kept apart: all items are read, or not known to be."""
        z = st.ghost.get(Z)
        return z is not None and self.L0 is not None and \
            st.store.prove(z - self.L0)

    def item_pointers(self, it, frame, head, p0, h, xs, val):
        """Is a pointer that changes in the loop that to the next item?"""
        out = []
        for s in xs:
            v0 = get_slot(p0, s)
            if not (isinstance(v0, PtrV) and v0.reg is self.HEAP):
                continue
            f = val(s)
            for sign in (1, -1):
                g = self.next_item(f, sign)
                d = g(p0)
                if d is not None and p0.st.store.prove(d):
                    out.append((f'{s} is that of item Z', g))
        return out

    def next_item(self, f, sign):
        def g(q):
            x = f(q)
            base = self.items(q.st)
            z = q.st.ghost.get(Z)
            if x is None or base is None or z is None:
                return None
            return (x - base.off - self.isz.mul(z)).scale(sign)
        return g

    # -- where things are

    def items(self, st):
        v = self.get(st, self.R, self.rs, self.items_f)
        return v if isinstance(v, PtrV) and v.reg is self.HEAP else None

    def isize(self):
        return self.isz if self.t == 'message' else Lin(item_size(self.t))

    def slice_pos(self, st):
        return self.geti(st, self.I, DEC, 'pos', base=self.ibase)

    def coder_ends(self, st):
        """Absolute positions of the decoders that have not failed."""
        out = []
        for reg, off, kind in self.it.coders:
            if not kind.endswith(DEC) or reg not in st.mem:
                continue
            b = self.get(st, reg, DEC, 'buf_p', base=off)
            p = self.geti(st, reg, DEC, 'pos', base=off)
            if isinstance(b, PtrV) and b.reg is self.IN and p is not None and \
                    st.store.prove(p):
                out.append(st.store.resolve(b.off + p))
        return out

    def any_failed(self, st):
        for reg, off, kind in self.it.coders:
            if not kind.endswith(DEC) or reg is self.D or reg not in st.mem:
                continue
            p = self.geti(st, reg, DEC, 'pos', base=off)
            if p is not None and not st.store.prove(p):
                return True
        return False

    def varints_ending_at(self, st, end):
        """Starts of the varints that end at `end`."""
        out = []
        for key in list(T.cons):
            if key[0] == 'vlen' and key[1] == 'IN':
                at = Lin(key[2][0], dict(key[2][1])) if len(key[2]) == 2 \
                    else None
                if at is None:
                    continue
                if st.store.prove_eq(at + Lin.atom(T.cons[key]) - end):
                    out.append(at)
        return out

    # -- items stored

    def on_store(self, it, p, reg, off, n, v):
        if reg is not self.HEAP or self.t == 'message':
            return False
        st = p.st
        base = self.items(st)
        if base is None:
            return False
        size = self.isize()
        d = st.store.resolve(off - base.off)
        if st.store.prove(d - size.mul(self.L0)):
            return False                    # other memory
        sp = self.slice_pos(st)
        if sp is not None and st.store.prove_eq(sp):
            return False                    # initialisation
        z = st.ghost[Z]
        parts = {0: 0}
        if self.t == 'bytes':
            parts = {self.off(BYTES, 'buf_p'): 0, self.off(BYTES, 'size'): 1}
        part = None
        for o, k in parts.items():
            if st.store.prove_eq(d - size.mul(z) - o):
                part = k
        room = st.store.prove(self.L0 - z - 1)
        it.ob('item_store', part is not None and room,
              f'store at {st.store.resolve(d)} of the items with '
              f'{st.store.resolve(z)} of {self.L0} items stored')
        if not room:
            st.add_ge(self.L0 - z - 1)
        if part is None:
            return False
        if self.any_failed(st):
            return False
        done = set(st.ghost.get(PART, ())) | {part}
        if len(done) == len(parts):
            st.ghost[Z] = st.store.resolve(z + 1)
            st.ghost[PART] = ()
        else:
            st.ghost[PART] = tuple(sorted(done))
        if self.t not in ('string', 'bytes'):
            it.ob('item_value', self.value_ok(st, v, n),
                  f'item {st.store.resolve(z)} of {self.t} gets {v}')
        return False

    def value_ok(self, st, v, n):
        t = self.t
        w, kind, _ = TYPES[t]
        got = value_bits(st, v)
        if got is None:
            return False
        for end in self.coder_ends(st):
            if kind == 'fixed':
                at = end - w // 8
                want = []
                for i in range(w // 8):
                    want += self.it.in_byte(st, self.IN, st.store.resolve(at + i))
                if same_bits(st, got, tuple(want)):
                    return True
                continue
            for at in self.varints_ending_at(st, end):
                bits = atom_bits(val_at(st, self.IN, at), 64)
                if t == 'bool':
                    if bool_exact(st, got[0], bits) and \
                            all(b == B0 for b in st.rbits(got[1:])):
                        return True
                elif same_bits(st, got, decoded_form(t, bits)):
                    return True
        return False

    # -- a chunk is about to be read

    def on_cursor(self, it, p0, h, cur):
        """Assume that the items of a counted field are among those counted."""
        if cur['reg'] is not self.IN:
            return
        st = p0.st
        z0 = st.ghost.get(Z)
        if z0 is None:
            return
        first = cur['base'] + cur['init']
        size = cur['end'] - cur['init']
        if not self.counted_chunk(st, first, size, z0):
            return
        left = self.L0 - z0
        if cur['kind'] == 'varint':
            h.st.store.add_ge(left - Lin.atom(cur['n']))
        else:
            h.st.store.add_ge(left.scale(cur['step']) - size)

    def counted_chunk(self, st, first, size, z0):
        if not st.store.prove(self.L0 - z0 - 1):
            return False
        for at in self.varints_ending_at(st, first):
            V = Lin.atom(val_at(st, self.IN, at))
            if not st.store.prove_eq(V - size):
                continue
            if st.store.prove_eq(at - self.start) and st.store.prove_eq(z0) and \
                    st.store.prove_eq(self.wt0 - WT_LEN):
                return True
            for tg in self.varints_ending_at(st, at):
                if self.is_tag(st, tg):
                    return True
        return False

    def is_tag(self, st, at):
        bits = atom_bits(val_at(st, self.IN, at), 64)
        return same_bits(st, bits[3:32], atom_bits(self.tag, 29))

    # -- messages

    def cb_decode(self, it, p, args):
        st = p.st
        base = self.items(st)
        m = args[1]
        if base is None or not isinstance(m, PtrV):
            it.ob('item_store', False, f'decode_inner gets message {m}')
            raise Infeasible
        z = st.ghost[Z]
        sp = self.slice_pos(st)
        if sp is not None and st.store.prove(-sp - 1):
            # the fields around it have failed already
            dec = args[0]
            s = self.geti(st, dec.reg, DEC, 'size', base=dec.off.c)
            q = self.geti(st, dec.reg, DEC, 'pos', base=dec.off.c)
            it.ob('cb_coder', s is not None and q is not None and
                  st.store.prove_eq(q - s), f'{s} - {q} byte(s) to decode after a '
                  'failure')
            return [(p, None)]
        d = st.store.resolve(m.off - base.off)
        room = st.store.prove(self.L0 - z - 1)
        it.ob('item_store', m.reg is self.HEAP and room and
              st.store.prove_eq(d - self.isz.mul(z)),
              f'item {z} of {self.L0} is decoded to offset {d} of the items')
        if not room:
            st.add_ge(self.L0 - z - 1)
        st.ghost[Z] = st.store.resolve(z + 1)
        dec = args[0]
        if isinstance(dec, PtrV):
            b = self.get(st, dec.reg, DEC, 'buf_p', base=dec.off.c)
            s = self.geti(st, dec.reg, DEC, 'size', base=dec.off.c)
            q = self.geti(st, dec.reg, DEC, 'pos', base=dec.off.c)
            sp = self.slice_pos(st)
            if s is not None and q is not None and isinstance(b, PtrV) and \
                    st.store.prove(q) and sp is not None and st.store.prove(sp):
                first = st.store.resolve(b.off + q)
                ok = any(st.store.prove_eq(
                    Lin.atom(val_at(st, self.IN, at)) - s + q)
                    for at in self.varints_ending_at(st, first))
                it.ob('item_value', ok, f'item {z} is decoded from {s - q} '
                      f'byte(s) at {first}')
        out = super().cb_decode(it, p, args)
        if len(out) == 2:
            q = out[1][0].st
            if q.store.prove_eq(q.ghost[ERR]):
                q.ghost[ERR] = self.geti(q, dec.reg, DEC, 'pos',
                                         base=dec.off.c)
        return out


def decode_repeated(mod, t, mode, empty):
    fname = f'pbtools_decoder_decode_repeated_{t}'
    if t == 'message':
        fname = 'pbtools_decode_repeated_inner'
    scn = Pass2(mod, f'{fname}/{mode}/{"empty" if empty else "items"}', t)
    d = scn.decoder(mode)
    scn.INSIZE = scn.IN.size
    ip = info_struct(scn, bool(empty))
    scn.MSGIN = scn.HEAP
    scn.rs = REPEATED if t == 'message' else struct_of(t)
    scn.items_f = 'items_p' if t == 'message' else items_member(scn, t)
    scn.R = scn.obj('repeated', scn.rs)
    scn.put(scn.R, scn.rs, 'length', ZERO)
    args = [d, ip, PtrV(scn.R, ZERO)]
    if t == 'message':
        args += [scn.size_arg(), scn.FNS['init'], scn.FNS['decode']]
    if not empty:
        # every counted item took its least size
        scn.st.add_ge(scn.slice_size - scn.L0.scale(least(t)))
        ws = chunk_wts(t)
        a = T.new('packed', 0, 1) if len(ws) > 1 else None
        # the wire type of the first field is one that can be counted
        wt = Lin.atom(a, WT_LEN - ws[0]) + ws[0] if a is not None else Lin(WT_LEN)
        scn.put(scn.I, INFO, 'wire_type', wt)
        scn.wt0 = wt
    scn.st.ghost[Z] = ZERO
    scn.st.ghost[PART] = ()
    scn.st.ghost[ERR] = ZERO
    outs = scn.call(fname, args)
    if mode == 'ab':
        check_decoder_sticky(scn, outs)
    kinds = set()
    for st, ret in outs:
        m, p, s = scn.dec(st)
        length = scn.geti(st, scn.R, scn.rs, 'length')
        z = st.ghost[Z]
        if empty:
            scn.chk('C11', 'no items when none were counted', length is not None
                    and st.store.prove_eq(length) and st.store.prove_eq(z),
                    f'length {length}')
            if mode == 'ok':
                scn.chk('C11', 'a field without items does not affect decoding',
                        m == 'ok' and st.store.prove_eq(p - scn.P), f'pos {p}')
            continue
        if m == '?':
            scn.chk('C04', 'a decoder is either valid or has failed', False,
                    f'exit with pos {p} and size {s}')
            continue
        sp = scn.slice_pos(st)
        failed = sp is not None and st.store.prove(-sp - 1)
        items = scn.items(st)
        if mode == 'ab':
            continue
        if m == 'ok':
            kinds.add('ok')
            check_decoder_ok(scn, st, p, s)
            scn.chk('C11', 'decoding succeeds only when all items are decoded',
                    sp is not None and st.store.prove(sp) and (
                        st.store.prove(z - scn.L0) or
                        st.store.prove_eq(sp - scn.slice_size)),
                    f'{z} of {scn.L0} items, position {sp}')
            scn.chk('C11', 'the length is the number of items', length is not None
                    and st.store.prove_eq(length - scn.L0), f'length {length}')
            if t == 'message':
                e = st.ghost[ERR]
                scn.chk('C14', 'no success after an item that failed',
                        st.store.prove_eq(e), f'its result was {e}')
            scn.chk('C05', 'no success without memory for the items',
                    items is not None, 'there is no memory')
            scn.chk('C02', 'the items are in memory taken from the workspace',
                    items is not None and st.store.prove(items.off - scn.hp) and
                    st.store.prove(scn.heap_pos(st) - items.off
                                   - scn.isize().mul(scn.L0)), f'{items}')
            continue
        ok = s is not None and st.store.prove_eq(p - s) and st.store.prove(p + 8)
        scn.chk('C04', 'a failed decoder reports a documented code', ok,
                f'pos {p}, size {s}')
        if failed:
            kinds.add('data')
            scn.chk('C04', 'the first error in an item is what is reported',
                    st.store.prove_eq(p - sp), f'{p}, not {sp}')
            e = st.ghost[ERR]
            if t == 'message' and st.store.prove(-e - 1):
                scn.chk('C04', 'the error in a sub-message is the error of the '
                        'message', st.store.prove_eq(p - e), f'{p}, not {e}')
        else:
            kinds.add('memory')
            scn.chk('C04', 'running out of memory for the items is reported as '
                    'such', st.store.prove_eq(p + OUT_OF_MEMORY), f'{p}')
            scn.chk('C05', 'out of memory is reported when memory is short',
                    not feasible(st, [scn.hs - scn.hp - 7
                                      - scn.isize().mul(scn.L0)]),
                    'reported although there is room')
            scn.chk('C05', 'no items after failing to allocate them',
                    length is not None and (st.store.prove_eq(length) or
                                            items is not None), f'length {length}')
    if not empty:
        if mode == 'ok':
            scn.chk('C11', 'decoding the items can succeed and fail',
                    kinds == {'ok', 'data', 'memory'}, f'{kinds}')
        check_steps(scn, t)
    return scn


def check_steps(scn, t):
    """Each iteration steps over one field, as the first pass did."""
    n = 0
    for info in scn.it.loops:
        if info['kind'] != 'summarised' or info.get('cursor') is not None:
            continue
        h = info['h'].st
        hp = scn.slice_pos(h)
        if hp is None or not h.store.prove(hp):
            continue
        if scn.items(h) is None:
            continue
        moved = [q for q in info['backs'] if scn.slice_pos(q.st) is None or
                 not q.st.store.prove_eq(scn.slice_pos(q.st) - hp)]
        if not moved:
            continue
        n += 1
        line = info['line']
        check_first(scn, t, info['p0'].st, info['fn'], line)
        for q in info['backs']:
            check_step(scn, t, h, hp, q.st, info['fn'], line)
    scn.chk('C11', 'the second pass goes over the fields of the message', n > 0,
            'no loop over them found')


def slice_kept(scn, st):
    sl = slice_of(scn, st)
    return sl is not None and st.store.prove_eq(sl[0] - scn.start) and \
        st.store.prove_eq(sl[1] - scn.slice_size)


def check_first(scn, t, st, fn, line):
    """What has been read when the loop starts is the first field."""
    p = scn.slice_pos(st)
    z = st.ghost[Z]
    if p is None or st.store.prove(-p - 1):
        return
    if st.store.prove_eq(p) and st.store.prove_eq(z):
        # its iterations do not begin with a tag
        raise Anchor('the first field is read in the loop over the others')
    for wt in chunk_wts(t):
        s = assume(st, [], [scn.wt0 - wt])
        if s is None:
            continue
        check_field(scn, s, t, scn.start, wt, p, z, 'the first field', fn, line)


def check_field(scn, s, t, at, wt, dp, dz, what, fn, line):
    n = chunk_size(scn, s, t, at, wt)
    if t == 'message':
        ok, exp = s.store.prove_eq(dz - 1), '1'
    else:
        ok, exp = chunk_count(scn, s, t, at, wt, dz)
    moved = s.store.prove_eq(dp - n)
    for prop in ('C11', 'C02'):
        scn.chk(prop, 'the second pass reads a field as the first counted it',
                ok and moved, f'{what}, wire type {wt}: {s.store.resolve(dp)} '
                f'byte(s), {s.store.resolve(dz)} item(s), expected {n} and {exp}',
                fn, line)
    if t in ('string', 'bytes'):
        check_blob_item(scn, s, t, at, s.store.resolve(s.ghost[Z] - 1), fn, line)


def check_step(scn, t, h, hp, st, fn, line):
    p = scn.slice_pos(st)
    if p is not None and st.store.prove(-p - 1):
        return                      # failed: the loop ends
    scn.chk('C01', 'the input window of the second pass does not change',
            slice_kept(scn, st), f'{slice_of(scn, st)}', fn, line)
    if p is None:
        return
    z = st.ghost[Z]
    hz = h.ghost[Z]
    X = st.store.resolve(scn.start + hp)
    v = vlen_at(st, scn.IN, X)
    bits = atom_bits(val_at(st, scn.IN, X), 64)
    at = st.store.resolve(X + v)
    scn.chk('C02', 'the second pass stops when the counted items are read',
            st.store.prove(scn.L0 - hz - 1), f'{hz} of {scn.L0} read', fn, line)
    mine = same_bits(st, bits[3:32], atom_bits(scn.tag, 29))
    dz = st.store.resolve(z - hz)
    for wt in range(8):
        s = st.clone()
        try:
            for i in range(3):
                s.set_bit(bits[i], (wt >> i) & 1)
            if s.store.infeasible():
                continue
        except Infeasible:
            continue
        dp = s.store.resolve(p - hp - v)
        if mine:
            if wt not in chunk_wts(t) and t != 'message':
                scn.chk('C13', 'a field with another wire type is rejected',
                        False, f'a repeated {t} accepts wire type {wt}', fn, line)
                continue
            if t == 'message' and wt != WT_LEN:
                continue            # rejected by the first pass
            check_field(scn, s, t, at, wt, dp, dz, 'a later field', fn, line)
            continue
        ext = skip_size(scn, s, at, wt)
        ok = ext is not None and s.store.prove_eq(dp - ext) and \
            s.store.prove_eq(dz)
        if not ok and s.store.prove_eq(dz) is False and feasible(s, [dz - 1]):
            msg = f'{dz} item(s) taken from a field with another number'
        else:
            msg = f'wire type {wt}: {dp} byte(s), {dz} item(s)'
        for prop in ('C11', 'C12'):
            scn.chk(prop, 'other fields are passed over exactly', ok, msg, fn, line)


def skip_size(scn, st, at, wt):
    if wt == WT_VARINT:
        return vlen_at(st, scn.IN, at)
    if wt == WT_LEN:
        return vlen_at(st, scn.IN, at) + Lin.atom(val_at(st, scn.IN, at))
    if wt == WT_64:
        return Lin(8)
    if wt == WT_32:
        return Lin(4)
    return None


def check_blob_item(scn, st, t, at, idx, fn, line):
    """The item read last is a copy of the bytes of the field at `at`."""
    v = vlen_at(st, scn.IN, at)
    V = Lin.atom(val_at(st, scn.IN, at))
    base = scn.items(st)
    off = base.off + idx.scale(item_size(t))
    log = [e for e in st.log.get(scn.HEAP, ()) if e[2][0] != 'rep']
    ptr = size = None
    po = 0 if t == 'string' else scn.off(BYTES, 'buf_p')
    for o, n, c in log:
        if c[0] != 'val':
            continue
        if st.store.prove_eq(o - off - po):
            ptr = c[1]
        elif t == 'bytes' and st.store.prove_eq(o - off - scn.off(BYTES, 'size')):
            size = c[1]
    ok = isinstance(ptr, PtrV) and ptr.reg is scn.HEAP
    why = f'item is {ptr}'
    if t == 'bytes':
        ok2 = isinstance(size, IntV) and st.store.prove_eq(st.uview(size) - V)
        scn.chk('C11', 'the size of a bytes item is its length', ok2,
                f'size {size}', fn, line)
        if isinstance(ptr, NullV) and st.store.prove_eq(V):
            return
    if ok:
        total = V + 1 if t == 'string' else V
        ok = st.store.prove(ptr.off - base.off
                            - scn.L0.scale(item_size(t))) and \
            st.store.prove(scn.heap_pos(st) - ptr.off - total)
        why = f'at {ptr.off}'
    scn.chk('C02', f'a {t} item lies within memory taken for it', ok, why, fn, line)
    if not ok:
        return
    covered = st.store.prove_eq(V)
    term = t != 'string'
    for o, n, c in log:
        if c[0] == 'copy' and c[1] is scn.IN and st.store.prove_eq(o - ptr.off) \
                and st.store.prove_eq(n - V) and \
                st.store.prove_eq(c[2] - at - v):
            covered = True
        elif c[0] == 'val' and isinstance(c[1], IntV) and \
                st.store.prove_eq(o - ptr.off - V) and st.const_of(c[1]) == 0:
            term = True
    scn.chk('C11', f'a {t} item is a copy of its bytes', covered,
            f'{show([(e[1], e[2]) for e in log])}', fn, line)
    scn.chk('C11', 'a string item is zero terminated', term, 'no terminator',
            fn, line)
