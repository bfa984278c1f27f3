"""Repeated fields: the two decode passes.

Pass 1 (pbtools_repeated_info_decode_T) counts the items of one field of the
input; pass 2 (pbtools_decoder_decode_repeated_T) allocates room for what was
counted and reads the same fields again.  The contract between them:

  - pass 1 moves past exactly the field, and adds the number of items in it:
    1 for an unpacked field, NV (the number of varints) or length / 4 or
    length / 8 for a packed one;
  - a field that makes pass 1 fail adds either nothing or at least as many
    items as pass 2 would read from it;
  - pass 2 starts at the first counted field, reads the fields one after the
    other, each of them as pass 1 did, and only while fewer items have been
    read than were counted.

So when pass 2 starts on a field with Z items read, the items of the field
are among those counted: Z + (items of the field) <= length.  That is the one
fact assumed in the analysis of pass 2 (see cursor_hook).
"""

from .lin import Lin, T, Infeasible, ZERO
from .state import (IntV, PtrV, NullV, FnV, UndefV, NULL, UNDEF, B0, B1,
                    const_bits, atom_bits, const, Region)
from .harness import (Scenario, Anchor, INT_MAX, ENC, DEC, INFO, REPEATED, BASE,
                      BYTES, HEAPT, WT_VARINT, WT_64, WT_LEN, WT_32, assume,
                      feasible, same_bits, BAD_WIRE_TYPE, OUT_OF_DATA,
                      OUT_OF_MEMORY, VARINT_OVERFLOW, SEEK_OVERFLOW,
                      LENGTH_OVERFLOW)
from .spec_scalar import (TYPES, decoded_form, show, vlen_at, val_at,
                          check_decoder_sticky, check_decoder_abort,
                          check_decoder_ok, varint_good, wrong_wt)
from .spec_repeated import item_size, struct_of, items_member, REPEATED_TYPES
from . import merge as mg


def info_struct(scn, first):
    """A repeated info: before (first) or after its first field."""
    I = scn.obj('info', INFO)
    tag = T.new('tag', 1, (1 << 29) - 1)
    scn.tag = tag
    scn.put(I, INFO, 'tag', IntV(32, None, atom_bits(tag, 29) + (B0,) * 3))
    base = scn.off(INFO, 'decoder')
    if first:
        scn.L0 = ZERO
        scn.put(I, INFO, 'length', ZERO)
        scn.start = None
        for f in ('buf_p', 'size', 'pos', 'heap_p'):
            o, n, _ = scn.it.dbg.structs[DEC][f]
            scn.it.cell_store(scn.st.cells(I), base + o, n, UNDEF)
        scn.put(I, INFO, 'wire_type', UNDEF)
    else:
        L0 = T.new('length', 1, INT_MAX - 16)
        scn.L0 = Lin.atom(L0)
        scn.put(I, INFO, 'length', scn.L0)
        start = T.new('start', 0, INT_MAX)
        scn.start = Lin.atom(start)
        scn.slice_size = scn.INSIZE - scn.start
        scn.st.add_ge(scn.slice_size)
        scn.put(I, DEC, 'buf_p', PtrV(scn.IN, scn.start), base=base)
        scn.put(I, DEC, 'size', scn.slice_size, base=base)
        scn.put(I, DEC, 'pos', ZERO, base=base)
        scn.put(I, DEC, 'heap_p', PtrV(scn.HS, ZERO), base=base)
        wt0 = T.new('wiretype0', 0, 7)
        scn.wt0 = Lin.atom(wt0)
        scn.put(I, INFO, 'wire_type', scn.wt0)
    scn.I = I
    scn.ibase = base
    scn.it.add_coder(I, base, '%struct.' + DEC)
    return PtrV(I, ZERO)


def slice_of(scn, st):
    """(start, size, pos) of the slice in the repeated info, or None."""
    b = scn.get(st, scn.I, DEC, 'buf_p', base=scn.ibase)
    h = scn.get(st, scn.I, DEC, 'heap_p', base=scn.ibase)
    s = scn.geti(st, scn.I, DEC, 'size', base=scn.ibase)
    p = scn.geti(st, scn.I, DEC, 'pos', base=scn.ibase)
    if not isinstance(b, PtrV) or b.reg is not scn.IN or s is None or p is None:
        return None
    if not (isinstance(h, PtrV) and h.reg is scn.HS and st.store.prove_eq(h.off)):
        return None
    return b.off, s, p


def chunk_count(scn, st, t, at, wt, delta):
    """Is delta the number of items of the field with its payload at `at`?"""
    w, kind, iwt = TYPES[t]
    if t in ('string', 'bytes') or wt == iwt:
        return st.store.prove_eq(delta - 1), '1'
    v = vlen_at(st, scn.IN, at)
    V = Lin.atom(val_at(st, scn.IN, at))
    if kind == 'fixed':
        k = w // 8
        return st.store.prove_eq(delta.scale(k) - V), f'length / {k}'
    n = count_atom(scn, st, at + v, at + v + V)
    if n is not None and st.store.prove_eq(delta - Lin.atom(n)):
        return True, 'the number of varints'
    # no iteration: an empty field
    return st.store.prove_eq(delta) and st.store.prove_eq(V), \
        'the number of varints'


def count_atom(scn, st, start, end):
    """NV(start, end) of a loop that reads the varints of the field."""
    for info in scn.it.loops:
        c = info.get('cursor')
        if c is None or c['kind'] != 'varint' or c['reg'] is not scn.IN:
            continue
        if st.store.prove_eq(c['base'] + c['init'] - start) and \
                st.store.prove_eq(c['base'] + c['end'] - end):
            return c['n']
    return None


def least(t):
    """Bytes an item takes at least."""
    if t == 'message':
        return 1
    w, kind, iwt = TYPES[t]
    return w // 8 if kind == 'fixed' else 1


def chunk_wts(t):
    if t in ('string', 'bytes', 'message'):
        return (WT_LEN,)
    w, kind, iwt = TYPES[t]
    return (iwt, WT_LEN)


def chunk_size(scn, st, t, at, wt):
    if wt == WT_LEN:
        return vlen_at(st, scn.IN, at) + Lin.atom(val_at(st, scn.IN, at))
    w, kind, iwt = TYPES[t]
    if wt == WT_VARINT:
        return vlen_at(st, scn.IN, at)
    return Lin(w // 8)


def info_decode(mod, t, first):
    w, kind, iwt = TYPES[t]
    fname = f'pbtools_repeated_info_decode_{t}'
    if t == 'message':
        fname = 'pbtools_repeated_info_decode_message'
    scn = Scenario(mod, f'{fname}/{"first" if first else "more"}', 'decode')
    d = scn.decoder('ok')
    scn.INSIZE = scn.S
    ip = info_struct(scn, first)
    if not first:
        # every counted item took its least size between start and here
        scn.st.add_ge(scn.P - scn.start - scn.L0.scale(least(t)))
    wtv = scn.wire_type()
    args = [ip, d, wtv]
    outs = scn.call(fname, args)
    accepted = set()
    for st, ret in outs:
        m, p, s = scn.dec(st)
        if m == '?':
            scn.chk('C04', 'a decoder is either valid or has failed', False,
                    f'exit with pos {p} and size {s}')
            continue
        L = scn.geti(st, scn.I, INFO, 'length')
        if L is None:
            scn.chk('C11', 'the number of items is kept', False, 'it is lost')
            continue
        delta = st.store.resolve(L - scn.L0)
        # the slice
        if first:
            sl = slice_of(scn, st)
            zero = st.store.prove_eq(L)
            ok = sl is not None and st.store.prove_eq(sl[0] + sl[2] - scn.P) \
                and st.store.prove_eq(sl[0] + sl[1] - scn.S) \
                and st.store.prove(sl[2])
            scn.chk('C11', 'the first field of a repeated field starts the '
                    'slice that is decoded later', ok or zero, f'slice {sl}')
            iw = scn.geti(st, scn.I, INFO, 'wire_type')
            scn.chk('C11', 'the wire type of the first field is kept',
                    zero or iw is not None and st.store.prove_eq(iw - scn.wt),
                    f'wire type {iw}')
        else:
            sl = slice_of(scn, st)
            ok = sl is not None and st.store.prove_eq(sl[0] - scn.start) \
                and st.store.prove_eq(sl[1] - scn.slice_size) \
                and st.store.prove_eq(sl[2])
            iw = scn.geti(st, scn.I, INFO, 'wire_type')
            ok = ok and iw is not None and st.store.prove_eq(iw - scn.wt0)
            scn.chk('C11', 'later fields leave the slice that is decoded later',
                    ok, f'slice {sl}, wire type {iw}')
        tg = scn.geti(st, scn.I, INFO, 'tag')
        scn.chk('C11', 'the tag of a repeated field does not change',
                tg is not None and st.store.prove_eq(tg - Lin.atom(scn.tag)),
                f'tag {tg}')
        # the field
        if m == 'ok':
            check_decoder_ok(scn, st, p, s)
            for wt in range(8):
                q = assume(st, [], [scn.wt - wt])
                if q is None:
                    continue
                good = wt in chunk_wts(t)
                scn.chk('C13', 'a field with another wire type is rejected',
                        good, f'a repeated {t} accepts wire type {wt}')
                if not good:
                    continue
                accepted.add(wt)
                n = chunk_size(scn, q, t, scn.P, wt)
                scn.chk('C11', 'counting moves past exactly the field',
                        q.store.prove_eq(p - scn.P - n),
                        f'from {scn.P} to {p} for wire type {wt}')
                scn.chk('C02', 'no more items are counted than there is input '
                        'for', q.store.prove(p - scn.P - delta.scale(least(t))),
                        f'{delta} items in {q.store.resolve(p - scn.P)} bytes')
                ok, exp = chunk_count(scn, q, t, scn.P, wt, delta)
                for prop in ('C11', 'C02'):
                    scn.chk(prop, f'the items of a field of {t} are counted', ok,
                            f'{q.store.resolve(delta)} counted for wire type '
                            f'{wt}, expected {exp}')
                if wt != WT_64 and wt != WT_32:
                    scn.chk('C13', 'a varint that does not fit in 10 bytes is '
                            'rejected', q.store.prove(
                                Lin(10) - vlen_at(q, scn.IN, scn.P)),
                            'it is accepted')
                if wt == WT_LEN and kind == 'fixed':
                    pass
            continue
        codes = {BAD_WIRE_TYPE, OUT_OF_DATA, VARINT_OVERFLOW, LENGTH_OVERFLOW,
                 SEEK_OVERFLOW}
        code = check_decoder_abort(scn, st, p, s, codes)
        for wt in range(8):
            q = assume(st, [], [scn.wt - wt])
            if q is None:
                continue
            if wt not in chunk_wts(t):
                scn.chk('C04', 'another wire type is reported as such',
                        code == BAD_WIRE_TYPE or t in ('string', 'bytes')
                        and code is not None, f'reported as {code}')
                continue
            check_failed_count(scn, q, t, wt, delta, code)
    for wt in chunk_wts(t):
        scn.chk('C11', 'packed and unpacked fields are accepted', wt in accepted,
                f'repeated {t} with wire type {wt} is always rejected')
    return scn


def modulo(st, V, m):
    """V modulo m, in terms of a remainder the program took if it did."""
    for key, a in list(T.cons.items()):
        if key[0] == 'mod' and key[1] == m:
            l = st.store.resolve(V - Lin.atom(a))
            if l.c % m == 0 and all(k % m == 0 for k in l.t.values()):
                return Lin.atom(a)
    return st.divmod_const(V, m)[1]


def check_failed_count(scn, st, t, wt, delta, code):
    """A field of the right wire type makes the first pass fail."""
    w, kind, iwt = TYPES[t]
    at = scn.P
    v = vlen_at(st, scn.IN, at)
    V = Lin.atom(val_at(st, scn.IN, at))
    if wt == WT_VARINT:
        good = varint_good(scn, st)
    elif wt == WT_LEN:
        good = varint_good(scn, st) + [scn.S - at - v - V]
    else:
        good = [scn.S - at - w // 8]
    g = assume(st, good)
    packed = wt == WT_LEN and t not in ('string', 'bytes')
    if g is not None and packed and kind == 'fixed':
        # a partial last item
        r = modulo(g, V, w // 8)
        scn.chk('C08', f'every well-formed repeated {t} is accepted',
                not feasible(g, [], [r]), f'rejected with code {code}')
    elif g is not None and packed:
        n = count_atom(scn, g, at + v, at + v + V)
        ok = n is not None and g.store.prove_eq(delta - Lin.atom(n))
        scn.chk('C08', f'every well-formed repeated {t} is accepted', ok,
                f'rejected with code {code} before its items have been read')
    else:
        scn.chk('C08', f'every well-formed repeated {t} is accepted', g is None,
                f'rejected with code {code}')
    # what the second pass may read from it
    none = st.store.prove_eq(delta)
    if packed:
        fits = assume(st, varint_good(scn, st) + [scn.S - at - v - V])
        if fits is None:
            ok = none or st.store.prove(delta)
        elif kind == 'fixed':
            ok = none or fits.store.prove(delta.scale(w // 8) - V)
        else:
            n = count_atom(scn, fits, at + v, at + v + V)
            ok = none or (n is not None and
                          fits.store.prove(delta - Lin.atom(n)))
    else:
        ok = none or st.store.prove(delta - 1)
    scn.chk('C02', 'a field that cannot be counted adds nothing or at least '
            'what the second pass reads from it', ok, f'adds {delta}')
