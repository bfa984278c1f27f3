"""Specification of the scalar encode and decode functions."""

from .lin import Lin, T, ZERO, INF
from .state import (IntV, PtrV, NULL, NullV, UndefV, TRUE, FALSE, B0, B1, bxor,
                    const_bits, atom_bits, const, Region, Cells, Cond)
from . import merge as mg
from .harness import *

# type: (C bits, payload kind, wire type)
TYPES = {
    'int32': (32, 'sext', WT_VARINT),
    'int64': (64, 'sext', WT_VARINT),
    'uint32': (32, 'zext', WT_VARINT),
    'uint64': (64, 'zext', WT_VARINT),
    'sint32': (32, 'zigzag', WT_VARINT),
    'sint64': (64, 'zigzag', WT_VARINT),
    'bool': (1, 'zext', WT_VARINT),
    'enum': (32, 'sext', WT_VARINT),
    'fixed32': (32, 'fixed', WT_32),
    'fixed64': (64, 'fixed', WT_64),
    'sfixed32': (32, 'fixed', WT_32),
    'sfixed64': (64, 'fixed', WT_64),
    'float': (32, 'fixed', WT_32),
    'double': (64, 'fixed', WT_64),
    'string': (None, 'string', WT_LEN),
    'bytes': (None, 'bytes', WT_LEN),
}

NUMERIC = [t for t in TYPES if TYPES[t][0] is not None]


def varint_form(kind, v):
    """Value bits (64) of a varint-encoded value with bits v."""
    v = tuple(v)
    if kind == 'sext':
        return (v + (v[-1],) * 64)[:64]
    if kind == 'zext':
        return (v + (B0,) * 64)[:64]
    if kind == 'zigzag':
        s = v[-1]
        z = (s,) + tuple(bxor(b, s) for b in v[:-1])
        return (z + (B0,) * 64)[:64]
    raise KeyError(kind)


def decoded_form(t, val):
    """Bits of the value decoded from the 64 varint bits val (None: bool)."""
    w, kind, _ = TYPES[t]
    if kind == 'zigzag':
        z = val[:w]
        s = z[0]
        return tuple(bxor(b, s) for b in z[1:]) + (s,)
    return tuple(val[:w])


# ---------------------------------------------------------------- encoding

def encode_scalar(mod, t, always, mode, extra=None):
    """Scenario of pbtools_encoder_write_<t>[_always]."""
    w, kind, wt = TYPES[t]
    fname = f'pbtools_encoder_write_{t}' + ('_always' if always else '')
    name = f'{fname}/{mode}' + ('' if extra is None else f'/{extra}')
    scn = Scenario(mod, name, 'encode')
    e = scn.encoder(mode)
    fno = scn.field_number()
    src = None
    if t == 'bool':
        arg = TRUE if extra else FALSE
        V = const_bits(1 if extra else 0, 64)
        zero = not extra
    elif kind in ('sext', 'zext', 'zigzag', 'fixed'):
        a = T.new('value', 0, (1 << w) - 1)
        arg = IntV(w, None, atom_bits(a))
        raw = atom_bits(a)
        V = raw if kind == 'fixed' else varint_form(kind, raw)
        zero = None
    elif kind == 'string':
        n = T.new('strlen', 0, INT_MAX - 16)
        src = Region('STR', 'cstr', Lin(1, {n: 1}))
        arg = PtrV(src, ZERO)
        L = Lin.atom(n)
        V = None
    else:
        n = T.new('bytessize', 0, INT_MAX - 16)
        src = Region('BYTES', 'items', Lin.atom(n))
        src.data = items_opaque
        B = scn.obj('bytes', BYTES)
        scn.put(B, BYTES, 'buf_p', PtrV(src, ZERO))
        scn.put(B, BYTES, 'size', Lin.atom(n))
        arg = PtrV(B, ZERO)
        L = Lin.atom(n)
        V = None
    tag = tag_bits(fno_atom(scn), wt)
    outs = scn.call(fname, [e, fno, arg])
    if mode == 'ab':
        check_encoder_sticky(scn, outs)
        return scn
    scn.chk('C03', 'encoding succeeds for some value and room',
            any(scn.enc(st)[0] == 'ok' for st, _ in outs), 'no successful exit')
    wire = 'C07'
    omit = 'C09'
    for st, ret in outs:
        m, p, s = scn.enc(st)
        raw = None
        if V is not None:
            zk = is_zero(st, V)
        else:
            zk = st.store.prove_eq(L)
            if not zk and st.store.prove(L - 1):
                zk = False
            elif not zk:
                zk = None
            if kind == 'string':
                content = (src, ZERO, L)
            else:
                content = (src, ZERO, L)
        if m == '?':
            scn.chk('C04', 'an encoder is either valid or has failed', False,
                    f'exit with pos {p} and size {s}')
            continue
        if m == 'ab':
            check_encoder_abort(scn, st, p, s)
            need = encoded_size(st, kind, V, L if V is None else None, tag)
            st2 = assume(st, [scn.P + 1 - need])
            if st2 is not None and not always:
                # a default value needs no room
                pass
            ok = st2 is None
            scn.chk('C03', 'encoding fails only when the buffer is too small',
                    ok, f'fails although {need} byte(s) fit in {scn.P + 1}')
            if not always:
                scn.chk(omit, 'a default value is not encoded', zk is False
                        or not can_be_zero(st, V, None if V is not None else L),
                        'fails for the default value')
            continue
        scn.chk('C03', 'the buffer of the encoder does not change',
                s is not None and st.store.prove_eq(s - scn.S)
                and same_ptr(scn, st), f'size becomes {s}')
        check_contiguous(scn, st, p)
        pieces = out_pieces(scn, st, scn.OUT, p + 1, scn.P + 1)
        if pieces is None:
            scn.chk(wire, 'the encoder position moves by what is written', False,
                    f'bytes between {p + 1} and {scn.P + 1} not written exactly once')
            continue
        if st.store.prove_eq(p - scn.P):
            # nothing written
            scn.chk(omit, 'a non-default value is encoded', not always
                    and (zk is True or not can_be_nonzero(st, V, None if V is not None else L)),
                    'nothing is written for a value that must be encoded')
            continue
        if not always:
            scn.chk(omit, 'a default value is not encoded',
                    zk is False or not can_be_zero(st, V, None if V is not None else L),
                    'the default value is written')
        rest = match_varint(st, pieces, tag)
        scn.chk(wire, 'a field starts with its tag (field number and wire type)',
                rest is not None, f'no tag with wire type {wt} at the start of '
                f'{show(pieces)}')
        if rest is None:
            continue
        if kind == 'fixed':
            rest = match_bytes(st, rest, [V[i:i + 8] for i in range(0, w, 8)])
        elif V is not None:
            rest = match_varint(st, rest, V)
        else:
            rest = match_varint(st, rest, len_bits(st, L))
            if rest is not None:
                rest = match_copy(st, rest, *content)
        scn.chk(wire, f'the payload of {t} follows the tag and nothing else',
                rest is not None and not rest, f'wrote {show(pieces)}')
    return scn


def items_opaque(it, st, off, ty, n):
    a = T.consed(('ld', off.key(), n), f'item[{off}]', 0, (1 << (8 * n)) - 1)
    return IntV(8 * n, None, atom_bits(a, 8 * n))


def fno_atom(scn):
    return scn.fno


def show(pieces):
    out = []
    for n, c in pieces:
        if c[0] == 'venc':
            out.append(f'varint({n} bytes)')
        elif c[0] == 'copy':
            out.append(f'copy({c[1]}+{c[2]}, {n})')
        else:
            out.append(f'{c[0]}({n})')
    return '[' + ', '.join(out) + ']'


def len_bits(st, L):
    return st.bits(IntV(64, L))


def is_zero(st, V):
    b = st.rbits(V)
    if all(x == B0 for x in b):
        return True
    if st.is_nz(b):
        return False
    return None


def can_be_zero(st, V, L):
    if V is None:
        return assume(st, [], [L]) is not None
    s = st.clone()
    try:
        for b in V:
            s.set_bit(b, 0)
    except Infeasible:
        return False
    return not s.store.infeasible()


def can_be_nonzero(st, V, L):
    if V is None:
        return assume(st, [L - 1]) is not None
    s = st.clone()
    try:
        s.add_nz(V)
    except Infeasible:
        return False
    return True


def same_ptr(scn, st):
    b = scn.get(st, scn.E, ENC, 'buf_p')
    return isinstance(b, PtrV) and b.reg is scn.OUT and st.store.prove_eq(b.off)


def encoded_size(st, kind, V, L, tag):
    t = vl(st, tag)
    if kind == 'fixed':
        return t + len(V) // 8
    if V is not None:
        return t + vl(st, V)
    return t + vl(st, len_bits(st, L)) + L


def check_contiguous(scn, st, p):
    """Everything below the old position is written down to the new one."""
    low = st.ghost.get(('low', scn.OUT))
    pend = st.ghost.get(('pend', scn.OUT), ())
    pend = [x for x in pend if not st.store.prove_eq(x[0] - x[1])]
    ok = low is not None and not pend and st.store.prove_eq(low - p - 1)
    scn.chk('C03', 'the bytes between the position and the end of the buffer '
            'have all been written', ok,
            f'position {p}, written from {low}, separate pieces {pend}')
    return ok


def check_encoder_abort(scn, st, p, s):
    ok = p is not None and s is not None and st.store.prove_eq(p - s) \
        and st.store.prove_eq(p + BUFFER_FULL)
    scn.chk('C04', 'a failed encoder reports that the buffer is full', ok,
            f'pos {p}, size {s}')


def check_encoder_sticky(scn, outs):
    for st, ret in outs:
        _, p, s = scn.enc(st)
        ok = p is not None and s is not None and st.store.prove_eq(p - scn.P) \
            and st.store.prove_eq(s - scn.S)
        scn.chk('C04', 'a failed encoder keeps its first error', ok,
                f'pos {p}, size {s} after failing with {scn.P}')
        log = [e for e in st.log.get(scn.OUT, ())
               if e[2][0] == 'rep' or not st.store.prove(-e[1])]
        log = [e for e in log if not (e[2][0] == 'rep' and rep_empty(scn, e))]
        scn.chk('C04', 'a failed encoder writes nothing', not log,
                f'writes {show([(e[1], e[2]) for e in log])}')


def rep_empty(scn, e):
    """Did no iteration of the loop write anything?"""
    info = e[2][2] if len(e[2]) > 2 else None
    if info is None:
        return False
    for q in info['backs']:
        base = len(info['h'].st.log.get(scn.OUT, ()))
        for x in q.st.log.get(scn.OUT, ())[base:]:
            if x[2][0] == 'rep' or not q.st.store.prove(-x[1]):
                return False
    return True


# ---------------------------------------------------------------- decoding

def vlen_at(st, reg, off):
    return Lin.atom(mg.vlen_atom(reg, st.store.resolve(off)))


def val_at(st, reg, off):
    return mg.val_atom(reg, st.store.resolve(off))


def check_decoder_sticky(scn, outs):
    for st, ret in outs:
        _, p, s = scn.dec(st)
        ok = p is not None and s is not None and st.store.prove_eq(p - scn.P) \
            and st.store.prove_eq(s - scn.S)
        scn.chk('C04', 'a failed decoder keeps its first error', ok,
                f'pos {p}, size {s} after failing with {scn.P}')


def check_decoder_abort(scn, st, p, s, codes):
    """pos == size == -code, with a code from the list."""
    lo, hi = scn.codes_of(st, p)
    ok = s is not None and st.store.prove_eq(p - s) and lo == hi and lo in codes
    scn.chk('C04', 'a failed decoder reports the documented code of the cause',
            ok, f'pos {p}, size {s}; expected one of {sorted(codes)}')
    return lo if lo == hi else None


def check_decoder_ok(scn, st, p, s):
    scn.chk('C01', 'the input window of the decoder does not change',
            s is not None and st.store.prove_eq(s - scn.S) and st.store.prove(s - p)
            and same_in(scn, st), f'size {s}, pos {p}')


def same_in(scn, st):
    b = scn.get(st, scn.D, DEC, 'buf_p')
    h = scn.get(st, scn.D, DEC, 'heap_p')
    return isinstance(b, PtrV) and b.reg is scn.IN and st.store.prove_eq(b.off) \
        and isinstance(h, PtrV) and h.reg is scn.HS and st.store.prove_eq(h.off)


def varint_good(scn, st, at=None):
    """Constraints for a readable varint at the entry position."""
    at = scn.P if at is None else at
    v = vlen_at(st, scn.IN, at)
    return [Lin(10) - v, scn.S - at - v]


def varint_cause(scn, st, at=None):
    """Is this failure consistent with: truncated / overflow at `at`?"""
    at = scn.P if at is None else at
    v = vlen_at(st, scn.IN, at)
    trunc = [at + v - scn.S - 1]
    over = [v - 11, scn.S - at - 10]
    return trunc, over


def check_varint_failure(scn, st, code, at=None):
    """Failed reading the varint at `at`: must not be readable, right code."""
    good = feasible(st, varint_good(scn, st, at))
    return not good


def decode_scalar(mod, t, mode):
    w, kind, wt = TYPES[t]
    fname = f'pbtools_decoder_read_{t}'
    scn = Scenario(mod, f'{fname}/{mode}', 'decode')
    d = scn.decoder(mode)
    wtv = scn.wire_type()
    args = [d, wtv]
    dst = None
    if kind == 'string':
        dst = Region('value', 'obj', Lin(8), align=8)
        scn.st.cells(dst)
        args.append(PtrV(dst, ZERO))
    elif kind == 'bytes':
        dst = scn.obj('value', BYTES)
        args.append(PtrV(dst, ZERO))
    outs = scn.call(fname, args)
    if mode == 'ab':
        check_decoder_sticky(scn, outs)
        return scn
    any_ok = False
    for st, ret in outs:
        m, p, s = scn.dec(st)
        if m == '?':
            scn.chk('C04', 'a decoder is either valid or has failed', False,
                    f'exit with pos {p} and size {s}')
            continue
        right = assume(st, [], [scn.wt - wt])
        wrong = wrong_wt(scn, st, wt)
        if m == 'ok':
            any_ok = True
            scn.chk('C13', 'a field with another wire type is rejected',
                    not wrong, f'{t} is read from a field that may have a wire '
                    f'type other than {wt}')
            check_decoder_ok(scn, st, p, s)
            if kind == 'fixed':
                scn.chk('C08', f'{t} takes {w // 8} bytes',
                        st.store.prove_eq(p - scn.P - w // 8), f'position {p}')
                exp = tuple(b for i in range(w // 8)
                            for b in scn.it.in_byte(st, scn.IN, scn.P + i))
                got = value_bits(st, ret)
                scn.chk('C08', f'{t} is the little endian value of its bytes',
                        got is not None and same_bits(st, got, exp),
                        f'value {ret}')
                continue
            v = vlen_at(st, scn.IN, scn.P)
            scn.chk('C13', 'a varint that does not fit in 10 bytes is rejected',
                    st.store.prove(Lin(10) - v), f'{t} accepts it')
            va = val_at(st, scn.IN, scn.P)
            if kind in ('string', 'bytes'):
                check_blob(scn, st, p, t, dst, v, va)
                continue
            scn.chk('C08', f'{t} takes the bytes of its varint',
                    st.store.prove_eq(p - scn.P - v), f'position {p}')
            bits = atom_bits(va, 64)
            got = value_bits(st, ret)
            if t == 'bool':
                z = is_zero(st, bits)
                ok = got is not None and got[0] in (B0, B1) and \
                    ((got[0] == B0 and z is True) or (got[0] == B1 and z is False))
                if got is not None and not ok and len(got) >= 1:
                    ok = bool_exact(st, got[0], bits)
                scn.chk('C08', 'bool is true for every non-zero varint', ok,
                        f'value {ret}')
            else:
                scn.chk('C08', f'{t} is the {kind} value of its varint',
                        got is not None and same_bits(st, got, decoded_form(t, bits)),
                        f'value {ret}')
            continue
        # failed
        if right is None:
            check_decoder_abort(scn, st, p, s, {BAD_WIRE_TYPE})
            continue
        if kind == 'fixed':
            check_decoder_abort(scn, right, p, s, {OUT_OF_DATA})
            scn.chk('C08', f'every well-formed {t} is accepted',
                    not feasible(right, [scn.S - scn.P - w // 8]), 'it is rejected')
            continue
        v = vlen_at(right, scn.IN, scn.P)
        good = varint_good(scn, right)
        if kind in ('string', 'bytes'):
            check_blob_failure(scn, right, p, s, t, good)
            continue
        code = check_decoder_abort(scn, right, p, s, {OUT_OF_DATA, VARINT_OVERFLOW})
        scn.chk('C08', f'every well-formed {t} is accepted',
                not feasible(right, good), 'it is rejected')
        check_varint_code(scn, right, code, scn.P)
    scn.chk('C08', f'a well-formed {t} can be read', any_ok, 'every path fails')
    return scn


def bool_exact(st, f, bits):
    """Is the form f equal to (bits != 0) in both cases?"""
    for v in (0, 1):
        s = st.clone()
        try:
            s.set_bit(f, v)
        except Infeasible:
            continue
        z = is_zero(s, bits)
        if z is not (v == 0):
            return False
    return True


def check_varint_code(scn, st, code, at):
    v = vlen_at(st, scn.IN, at)
    if code == OUT_OF_DATA:
        scn.chk('C04', 'out of data is reported when the input ends', not
                feasible(st, [scn.S - at - v]) or not feasible(st, [scn.S - at - 10]),
                'reported although the varint is complete')
    elif code == VARINT_OVERFLOW:
        scn.chk('C04', 'varint overflow is reported for varints longer than 10 '
                'bytes', not feasible(st, [Lin(10) - v]), 'reported for others')


def wrong_wt(scn, st, wt):
    return feasible(st, [scn.wt - wt - 1]) or feasible(st, [Lin(wt - 1) - scn.wt])


def check_blob(scn, st, p, t, dst, v, va):
    """A string or bytes value was decoded."""
    V = Lin.atom(va)
    end = scn.P + v + V
    scn.chk('C08', f'{t} takes its length and that many bytes',
            st.store.prove_eq(p - end), f'position {p}')
    if t == 'string':
        ptr = st.mem[dst].c.get(0, (0, None))[1]
        total = V + 1
    else:
        ptr = scn.get(st, dst, BYTES, 'buf_p')
        sz = scn.get(st, dst, BYTES, 'size')
        scn.chk('C08', 'the size of bytes is its length',
                isinstance(sz, IntV) and st.store.prove_eq(st.uview(sz) - V),
                f'size {sz}')
        total = V
    if isinstance(ptr, NullV) and st.store.prove_eq(total):
        return
    ok = isinstance(ptr, PtrV) and ptr.reg is scn.HEAP
    scn.chk('C05', f'no success without memory for the {t}', ok, f'{ptr}')
    scn.chk('C08', f'the {t} value points to workspace memory', ok, f'{ptr}')
    if not ok:
        return
    ok = st.store.prove(ptr.off - scn.hp) and \
        st.store.prove(scn.geti(st, scn.HS, HEAPT, 'pos') - ptr.off - total)
    scn.chk('C02', f'the {t} value lies within memory allocated by this call', ok,
            f'at {ptr.off}')
    covered = st.store.prove_eq(V)
    term = t != 'string'
    for o, n, c in st.log.get(scn.HEAP, ()):
        if c[0] == 'copy' and c[1] is scn.IN and st.store.prove_eq(o - ptr.off) \
                and st.store.prove_eq(n - V) and \
                st.store.prove_eq(c[2] - scn.P - v):
            covered = True
        elif c[0] == 'val' and st.store.prove_eq(o - ptr.off - V) and \
                st.store.prove_eq(n - 1) and isinstance(c[1], IntV) \
                and st.const_of(c[1]) == 0:
            term = True
        elif not st.store.prove(-n):
            # anything else must not touch the value
            if not (st.store.prove(o - ptr.off - total)
                    or st.store.prove(ptr.off - o - n)):
                covered = covered and False
    scn.chk('C08', f'the {t} value is a copy of its bytes', covered,
            f'{show([(e[1], e[2]) for e in st.log.get(scn.HEAP, ())])}')
    scn.chk('C08', 'a string is zero terminated', term, 'no terminator')


def check_blob_failure(scn, st, p, s, t, good):
    va = val_at(st, scn.IN, scn.P)
    V = Lin.atom(va)
    v = vlen_at(st, scn.IN, scn.P)
    extra = 1 if t == 'string' else 0
    room = scn.hs - scn.hp - V - extra
    fits = scn.S - scn.P - v - V
    code = check_decoder_abort(scn, st, p, s, {OUT_OF_DATA, VARINT_OVERFLOW,
                                               LENGTH_OVERFLOW, OUT_OF_MEMORY})
    scn.chk('C08', f'every well-formed {t} is accepted when there is memory',
            not feasible(st, good + [fits, room]), f'rejected with code {code}')
    if code == OUT_OF_MEMORY:
        scn.chk('C05', 'out of memory is reported when memory is short',
                not feasible(st, good + [room, Lin(INT_MAX - 1) - V]),
                'reported although there is room')
    elif code == LENGTH_OVERFLOW:
        scn.chk('C04', 'length overflow is reported for lengths of 2**31 - 1 '
                'and more', not feasible(st, good + [Lin(INT_MAX - 1) - V]),
                'reported for a shorter length')
    elif code == VARINT_OVERFLOW:
        check_varint_code(scn, st, code, scn.P)
    elif code == OUT_OF_DATA:
        scn.chk('C04', 'out of data is reported when the input ends',
                not feasible(st, good + [fits]), 'reported although it is complete')


# -------------------------------------------------------------------- tags

def read_tag(mod, mode):
    fname = 'pbtools_decoder_read_tag'
    scn = Scenario(mod, f'{fname}/{mode}', 'decode')
    d = scn.decoder(mode)
    W = Region('wire_type', 'obj', Lin(4), align=4)
    scn.st.cells(W)
    outs = scn.call(fname, [d, PtrV(W, ZERO)])
    if mode == 'ab':
        check_decoder_sticky(scn, outs)
        return scn
    for st, ret in outs:
        m, p, s = scn.dec(st)
        wtv = st.mem[W].c.get(0, (0, None))[1]
        scn.chk('C17', 'the wire type is always set', isinstance(wtv, IntV),
                f'wire type {wtv}')
        if m == '?':
            scn.chk('C04', 'a decoder is either valid or has failed', False,
                    f'exit with pos {p} and size {s}')
            continue
        v = vlen_at(st, scn.IN, scn.P)
        bits = atom_bits(val_at(st, scn.IN, scn.P), 64)
        if m == 'ok':
            check_decoder_ok(scn, st, p, s)
            scn.chk('C13', 'a varint that does not fit in 10 bytes is rejected',
                    st.store.prove(Lin(10) - v), 'the tag is accepted')
            scn.chk('C08', 'a tag takes the bytes of its varint',
                    st.store.prove_eq(p - scn.P - v), f'position {p}')
            got = value_bits(st, ret)
            scn.chk('C08', 'the field number is the tag shifted by three',
                    got is not None and same_bits(st, got[:29], bits[3:32])
                    and all(b == B0 for b in st.rbits(got[29:])), f'{ret}')
            gw = value_bits(st, wtv)
            scn.chk('C08', 'the wire type is the low three bits of the tag',
                    gw is not None and same_bits(st, gw[:3], bits[:3])
                    and all(b == B0 for b in st.rbits(gw[3:])), f'{wtv}')
            scn.chk('C13', 'field number zero is rejected',
                    is_zero(st, bits[3:32]) is False, 'it is accepted')
            continue
        code = check_decoder_abort(scn, st, p, s, {OUT_OF_DATA, VARINT_OVERFLOW,
                                                   BAD_FIELD_NUMBER})
        good = assume(st, varint_good(scn, st))
        if good is not None:
            scn.chk('C08', 'every tag with a field number is accepted',
                    is_zero(good, bits[3:32]) is True
                    or not can_be_nonzero(good, bits[3:32], None),
                    f'rejected with {code}')
            scn.chk('C04', 'field number zero is reported as such',
                    code == BAD_FIELD_NUMBER, f'reported as {code}')
        else:
            check_varint_code(scn, st, code, scn.P)
    return scn


def available(mod, mode):
    fname = 'pbtools_decoder_available'
    scn = Scenario(mod, f'{fname}/{mode}', 'decode')
    d = scn.decoder(mode)
    outs = scn.call(fname, [d])
    for st, ret in outs:
        got = value_bits(st, ret)
        more = feasible(st, [scn.S - scn.P - 1])
        none = feasible(st, [scn.P - scn.S])
        ok = got is not None and (got[0] == B1 and not none
                                  or got[0] == B0 and not more)
        scn.chk('C06', 'more input is available exactly when the position is '
                'before the end and the decoder has not failed', ok, f'{ret}')
    check_decoder_sticky(scn, outs)
    return scn


def skip_field(mod, mode, wt):
    fname = 'pbtools_decoder_skip_field'
    scn = Scenario(mod, f'{fname}/{mode}/{wt}', 'decode')
    d = scn.decoder(mode)
    outs = scn.call(fname, [d, const(32, wt)])
    if mode == 'ab':
        check_decoder_sticky(scn, outs)
        return scn
    oks = 0
    for st, ret in outs:
        m, p, s = scn.dec(st)
        if m == '?':
            scn.chk('C04', 'a decoder is either valid or has failed', False,
                    f'exit with pos {p} and size {s}')
            continue
        v = vlen_at(st, scn.IN, scn.P)
        V = Lin.atom(val_at(st, scn.IN, scn.P))
        known = wt in (WT_VARINT, WT_64, WT_LEN, WT_32)
        if m == 'ok':
            oks += 1
            scn.chk('C12', 'only fields with a known wire type are skipped',
                    known, f'wire type {wt} is skipped')
            check_decoder_ok(scn, st, p, s)
            if not known:
                continue
            n = {WT_VARINT: v, WT_64: Lin(8), WT_32: Lin(4), WT_LEN: v + V}[wt]
            scn.chk('C12', 'skipping a field moves past exactly that field',
                    st.store.prove_eq(p - scn.P - n),
                    f'from {scn.P} to {p} for wire type {wt}')
            if wt in (WT_VARINT, WT_LEN):
                scn.chk('C13', 'a varint that does not fit in 10 bytes is rejected',
                        st.store.prove(Lin(10) - v), 'it is skipped')
            if wt == WT_LEN:
                scn.chk('C13', 'a length of 2**31 - 1 or more is rejected',
                        st.store.prove(Lin(INT_MAX - 1) - V), 'it is skipped')
            continue
        codes = {WT_VARINT: {OUT_OF_DATA, VARINT_OVERFLOW},
                 WT_64: {OUT_OF_DATA, SEEK_OVERFLOW},
                 WT_32: {OUT_OF_DATA, SEEK_OVERFLOW},
                 WT_LEN: {OUT_OF_DATA, SEEK_OVERFLOW, VARINT_OVERFLOW,
                          LENGTH_OVERFLOW}}.get(wt, {BAD_WIRE_TYPE})
        code = check_decoder_abort(scn, st, p, s, codes)
        if not known:
            continue
        good = {WT_VARINT: varint_good(scn, st),
                WT_64: [scn.S - scn.P - 8], WT_32: [scn.S - scn.P - 4],
                WT_LEN: varint_good(scn, st) + [scn.S - scn.P - v - V]}[wt]
        scn.chk('C12', 'every complete field is skipped', not feasible(st, good),
                f'a complete field with wire type {wt} is rejected, code {code}')
    scn.chk('C12', 'fields with a known wire type can be skipped',
            oks > 0 or wt not in (0, 1, 2, 5), f'wire type {wt} is never skipped')
    return scn
