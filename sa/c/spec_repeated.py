"""Repeated fields: encoding, the two decode passes and allocation."""

from .lin import Lin, T, Infeasible, ZERO
from .state import (IntV, PtrV, NullV, FnV, UndefV, NULL, B0, B1, const_bits,
                    atom_bits, const, Region)
from .harness import (Scenario, Anchor, INT_MAX, ENC, DEC, INFO, REPEATED, BASE,
                      BYTES, HEAPT, WT_VARINT, WT_64, WT_LEN, WT_32, assume,
                      feasible, out_pieces, match_varint, match_bytes,
                      match_copy, tag_bits, vl)
from .spec_scalar import (TYPES, varint_form, decoded_form, show, len_bits,
                          same_ptr, check_contiguous, check_encoder_abort,
                          check_encoder_sticky, can_be_zero)
from . import merge as mg

# type -> struct of the repeated field, size of an item in memory
STRUCT = {
    'int32': 'int32', 'sint32': 'int32', 'sfixed32': 'int32', 'enum': 'int32',
    'int64': 'int64', 'sint64': 'int64', 'sfixed64': 'int64',
    'uint32': 'uint32', 'fixed32': 'uint32',
    'uint64': 'uint64', 'fixed64': 'uint64',
    'float': 'float', 'double': 'double', 'bool': 'bool',
    'string': 'string', 'bytes': 'bytes',
}
REPEATED_TYPES = [t for t in TYPES if t != 'enum']
ITEM_SIZE = {'int32': 4, 'uint32': 4, 'float': 4, 'int64': 8, 'uint64': 8,
             'double': 8, 'bool': 1, 'string': 8, 'bytes': 16}


def item_size(t):
    return ITEM_SIZE[STRUCT[t]]


def struct_of(t):
    return f'pbtools_repeated_{STRUCT[t]}_t'


def items_member(scn, t):
    s = struct_of(t)
    for f in ('items_p', 'items_pp'):
        if f in scn.it.dbg.structs.get(s, {}):
            return f
    raise Anchor(f'no items in struct {s}')


def load_int(it, st, reg, off, n):
    hi = (1 << (8 * n)) - 1
    a = T.consed(('ld', reg.name, off.key(), n), f'{reg}[{off}]', 0, hi)
    return a


def items_of(it, t):
    """Loader of items of a type."""
    def scalar(it, st, off, ty, n):
        if t == 'bool':
            a = T.consed(('ld', 'ITEMS', off.key(), n), f'item[{off}]', 0, 1)
            return IntV(8, None, atom_bits(a, 8))
        a = T.consed(('ld', 'ITEMS', off.key(), n), f'item[{off}]', 0,
                     (1 << (8 * n)) - 1)
        return IntV(8 * n, None, atom_bits(a, 8 * n))

    def string(it, st, off, ty, n):
        return PtrV(string_region(it, off), ZERO)

    def blob(it, st, off, ty, n):
        off = st.store.resolve(off)
        po = it.dbg.off(BYTES, 'buf_p')
        so = it.dbg.off(BYTES, 'size')
        for delta, what in ((po, 'p'), (so, 's')):
            base = st.store.resolve(off - delta)
            c = base.c % 16
            if c == 0:
                if what == 'p':
                    return PtrV(bytes_region(it, base), ZERO)
                return IntV(64, Lin.atom(bytes_size(base)))
        raise Anchor(f'unexpected read of a bytes item at {off}')
    return {'string': string, 'bytes': blob}.get(t, scalar)


def string_region(it, off):
    a = T.consed(('slen', off.key()), f'strlen(item[{off}])', 0,
                    INT_MAX - 16)
    return it.region(('str', off.key()),
                     lambda: Region(f'STR[{off}]', 'cstr', Lin(1, {a: 1})))


def bytes_size(off):
    return T.consed(('bsize', off.key()), f'size(item[{off}])', 0,
                    INT_MAX - 16)


def bytes_region(it, off):
    a = bytes_size(off)

    def make():
        r = Region(f'BYTES[{off}]', 'items', Lin.atom(a))
        r.data = opaque
        return r
    return it.region(('bytes', off.key()), make)


def opaque(it, st, off, ty, n):
    a = T.consed(('ldo', off.key(), n), f'byte[{off}]', 0, (1 << (8 * n)) - 1)
    return IntV(8 * n, None, atom_bits(a, 8 * n))


def item_payload(scn, st, t, idx, rest):
    """Consume the payload of item `idx` from pieces; None if it is not there."""
    w, kind, wt = TYPES[t]
    size = item_size(t)
    off = st.store.resolve(idx.scale(size))
    if t == 'string':
        reg = string_region(scn.it, off)
        return match_copy(st, rest, reg, ZERO, reg.size - 1)
    if t == 'bytes':
        reg = bytes_region(scn.it, off)
        return match_copy(st, rest, reg, ZERO, reg.size)
    a = T.consed(('ld', 'ITEMS', off.key(), size), f'item[{off}]', 0,
                 1 if t == 'bool' else (1 << (8 * size)) - 1)
    if t == 'bool':
        raw = atom_bits(a, 64)
        return match_varint(st, rest, raw)
    raw = atom_bits(a, 8 * size)
    if kind == 'fixed':
        return match_bytes(st, rest, [raw[i:i + 8] for i in range(0, 8 * size, 8)])
    return match_varint(st, rest, varint_form(kind, raw))


def check_iterations(scn, t, tag, info, n0, packed):
    """Each iteration of the loop writes one item, last item first."""
    backs = info['backs']
    h = info['h']
    G = Lin.atom(info['g'])
    base = len(h.st.log.get(scn.OUT, ()))
    hp = scn.geti(h.st, scn.E, ENC, 'pos')
    ok = True
    for q in backs:
        st = q.st
        m, p, s = scn.enc(st)
        if m != 'ok':
            scn.chk('C10', 'an iteration writes one item', False,
                    'encoder fails and the loop goes on as if it had not')
            ok = False
            continue
        idx = n0 - 1 - G
        pieces = out_pieces(scn, st, scn.OUT, p + 1, hp + 1, base)
        rest = pieces
        if rest is not None and not packed:
            rest = match_varint(st, rest, tag)
            if rest is not None:
                reg = string_region(scn.it, st.store.resolve(idx.scale(8))) \
                    if t == 'string' else None
                if reg is not None:
                    L = reg.size - 1
                else:
                    L = Lin.atom(bytes_size(st.store.resolve(idx.scale(16))))
                rest = match_varint(st, rest, len_bits(st, L))
        if rest is not None:
            rest = item_payload(scn, st, t, idx, rest)
        good = rest is not None and not rest
        scn.chk('C10', f'iteration n writes item length-1-n of {t} and nothing '
                'else', good,
                f'wrote {show(pieces) if pieces is not None else "with gaps"}')
        ok = ok and good
    return ok and bool(backs)


def encode_repeated(mod, t, mode):
    w, kind, wt = TYPES[t]
    packed = t not in ('string', 'bytes')
    fname = f'pbtools_encoder_write_repeated_{t}'
    scn = Scenario(mod, f'{fname}/{mode}', 'encode')
    e = scn.encoder(mode)
    fno = scn.field_number()
    N = T.new('length', 0, INT_MAX)
    L = Lin.atom(N)
    ITEMS = Region('ITEMS', 'items', L.scale(item_size(t)), align=16)
    ITEMS.data = items_of(scn.it, t)
    R = scn.obj('repeated', struct_of(t))
    scn.put(R, struct_of(t), 'length', L)
    scn.put(R, struct_of(t), items_member(scn, t), PtrV(ITEMS, ZERO))
    tag = tag_bits(scn.fno, WT_LEN)
    outs = scn.call(fname, [e, fno, PtrV(R, ZERO)])
    if mode == 'ab':
        check_encoder_sticky(scn, outs)
        return scn
    nok = 0
    for st, ret in outs:
        m, p, s = scn.enc(st)
        if m == '?':
            scn.chk('C04', 'an encoder is either valid or has failed', False,
                    f'exit with pos {p} and size {s}')
            continue
        if m == 'ab':
            check_encoder_abort(scn, st, p, s)
            scn.chk('C10', 'no items, nothing encoded',
                    not feasible(st, [], [L]), 'fails for no items')
            continue
        scn.chk('C03', 'the buffer of the encoder does not change',
                s is not None and st.store.prove_eq(s - scn.S)
                and same_ptr(scn, st), f'size becomes {s}')
        check_contiguous(scn, st, p)
        log = [x for x in st.log.get(scn.OUT, ())
               if x[2][0] == 'rep' or not st.store.prove(-x[1])]
        reps = [x for x in log if x[2][0] == 'rep']
        if not reps:
            empty = st.store.prove_eq(p - scn.P) and not log
            if not empty:
                scn.chk('C10', 'all items are written', False,
                        'bytes written outside a loop over the items')
                continue
            scn.chk('C10', 'items are encoded', st.store.prove_eq(L),
                    'nothing is written for a repeated field with items')
            continue
        nok += 1
        if len(reps) != 1 or log[0][2][0] != 'rep':
            scn.chk('C10', 'one pass over the items', False, 'several loops')
            continue
        info = reps[0][2][2]
        G = Lin.atom(info['g'])
        scn.chk('C10', 'the items are written before what frames them', True)
        check_iterations(scn, t, tag, info, L, packed)
        scn.chk('C10', 'every item is written', st.store.prove_eq(G - L),
                f'{G} of {L} items written')
        mid = end_of_loop(scn, st, info, log)
        if mid is None:
            scn.chk('C10', 'the end of the loop is known', False, '')
            continue
        pieces = out_pieces(scn, st, scn.OUT, p + 1, mid + 1,
                            [i for i, x in enumerate(st.log[scn.OUT])
                             if x[2][0] == 'rep'][0] + 1)
        if not packed:
            scn.chk('C10', f'nothing but the items of {t} is written',
                    pieces == [], f'{show(pieces) if pieces is not None else "gaps"}')
            continue
        rest = pieces
        if rest is not None:
            rest = match_varint(st, rest, tag)
        if rest is not None:
            rest = match_varint(st, rest, len_bits(st, scn.P - mid))
        scn.chk('C10', 'packed items are preceded by the tag and their total '
                'length', rest is not None and not rest,
                f'{show(pieces) if pieces is not None else "gaps"}')
    scn.chk('C10', 'encoding succeeds for some items and room', nok > 0,
            'no successful exit')
    return scn


def end_of_loop(scn, st, info, log):
    """Encoder position when the loop ended (head state of the last round)."""
    v = scn.geti(info['h'].st, scn.E, ENC, 'pos')
    if v is None:
        return None
    return st.store.resolve(v)
