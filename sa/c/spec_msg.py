"""Messages: creation, framing of sub-messages, allocation of items.

What the library calls back (init, encode_inner and decode_inner of a
generated message) is replaced by its contract:

  init(message, heap)      sets all of the message; `message` is room for one
                           taken from the workspace `heap`
  encode_inner(e, message) writes zero or more bytes in front of what is
                           encoded, or fails; does nothing with a failed `e`
  decode_inner(d, message) reads everything of `d` or fails; does nothing with
                           a failed `d`; may take memory from the workspace
"""

from .lin import Lin, T, Infeasible, ZERO
from .state import (IntV, PtrV, NullV, FnV, UndefV, NULL, UNDEF, B0, B1,
                    const_bits, atom_bits, const, Region)
from .harness import *
from .harness import (Scenario, Anchor, INT_MAX, ENC, DEC, INFO, REPEATED, BASE,
                      BYTES, HEAPT)
from .spec_scalar import (show, vlen_at, val_at, check_decoder_sticky, same_ptr,
                          check_encoder_abort, check_encoder_sticky, len_bits,
                          check_decoder_abort, check_decoder_ok,
                          check_contiguous, varint_good)
from .spec_repeated import STRUCT, item_size, struct_of, items_member
from . import spec_decode
from . import merge as mg

CODES = set(range(1, 9))


class MsgScenario(Scenario):

    own_slice = False           # items have a decoder of their own

    def __init__(self, mod, name, side):
        super().__init__(mod, name, side)
        self.EV = Region('EV', 'events', None)
        self.it.callbacks.update({'init!': self.cb_init,
                                  'encode!': self.cb_encode,
                                  'decode!': self.cb_decode})
        k = T.new('words', 1, 1 << 24)
        self.isz = Lin.atom(k, 8)           # size of the message struct
        self.expect = {}

    def size_arg(self):
        return IntV(64, self.isz)

    def event(self, st, off, content):
        st.log[self.EV] = st.log.get(self.EV, ()) + ((off, ONE_, content),)

    def events(self, st, start=0):
        return st.log.get(self.EV, ())[start:]

    # -- contracts

    def is_heap(self, st, v):
        return isinstance(v, PtrV) and v.reg is self.HS_reg() and \
            st.store.prove_eq(v.off - self.HS_off())

    def HS_reg(self):
        return self.HS

    def HS_off(self):
        return ZERO

    def heap_pos(self, st):
        return self.geti(st, self.HS, HEAPT, 'pos')

    def cb_init(self, it, p, args):
        st = p.st
        m, h = args
        it.ob('cb_heap', self.is_heap(st, h), f'init gets {h} as workspace')
        ok = isinstance(m, PtrV) and m.reg is self.HEAP
        it.ob('cb_room', ok, f'init gets {m}, which is not in the workspace')
        if not ok:
            raise Infeasible
        if self.HEAP.data is not None:
            lo, cur = it.heap_window(st, self.HEAP)
            it.ob('cb_room', st.store.prove(m.off - lo) and
                  st.store.prove(cur - m.off - self.isz),
                  f'init of a message at {m.off} outside memory taken from the '
                  f'workspace, [{lo}, {cur})')
        it.check_align(st, m.reg, m.off, 8)
        st.log[m.reg] = st.log.get(m.reg, ()) + (
            (m.off, self.isz, ('init',)),)
        self.event(st, m.off, ('init',))
        return [(p, None)]

    def cb_encode(self, it, p, args):
        e, m = args
        st = p.st
        it.ob('cb_coder', isinstance(e, PtrV) and e.reg is self.E
              and st.store.prove_eq(e.off), f'encode_inner gets {e}')
        ok = isinstance(m, PtrV) and m.reg is self.MSG
        it.ob('cb_message', ok, f'encode_inner gets message {m}')
        if not ok:
            raise Infeasible
        self.event(st, m.off, ('encode',))
        if self.expect.get('encoder'):
            self.expect['encoder'](st)
        mode, pos, size = self.enc(st)
        if mode == '?':
            raise Infeasible if pos is None else AnalysisFail(
                'encoder in an unknown state')
        if mode == 'ab':
            return [(p, None)]
        q = p.clone()
        it.fresh_n += 1
        n = T.new(f'inner{it.fresh_n}', 0, INT_MAX)
        n = Lin.atom(n)
        self.inner = n
        st.add_ge(pos + 1 - n)
        self.put(self.E, ENC, 'pos', st.store.resolve(pos - n), st)
        it.out_write(st, self.OUT, pos + 1 - n, n, ('inner',))
        self.put(self.E, ENC, 'pos', Lin(-BUFFER_FULL), q.st)
        self.put(self.E, ENC, 'size', Lin(-BUFFER_FULL), q.st)
        return [(p, None), (q, None)]

    def cb_decode(self, it, p, args):
        d, m = args
        st = p.st
        ok = isinstance(m, PtrV) and m.reg is self.MSGIN
        it.ob('cb_message', ok, f'decode_inner gets message {m}')
        ok2 = isinstance(d, PtrV) and d.reg.kind == 'obj' and not d.off.t
        it.ob('cb_coder', ok2, f'decode_inner gets {d}')
        if not (ok and ok2):
            raise Infeasible
        base = d.off.c
        buf = self.get(st, d.reg, DEC, 'buf_p', base=base)
        hp = self.get(st, d.reg, DEC, 'heap_p', base=base)
        size = self.geti(st, d.reg, DEC, 'size', base=base)
        pos = self.geti(st, d.reg, DEC, 'pos', base=base)
        if size is None or pos is None:
            it.ob('cb_coder', False, 'decode_inner gets a decoder that is not '
                  'set up')
            raise Infeasible
        self.event(st, m.off, ('decode',))
        if hasattr(self, 'D') and self.D is not d.reg and \
                not self.own_slice:
            pm, pp, _ = self.dec(st)
            if pm == 'ab':
                # the message around it has failed already
                it.ob('cb_coder', st.store.prove_eq(pos - size),
                      f'{size - pos} byte(s) to decode after a failure')
                self.event(st, pp, ('late',))
                return [(p, None)]
        if st.store.prove(-pos - 1):
            it.ob('cb_coder', st.store.prove_eq(pos - size) and
                  st.store.prove(pos + 8), f'failed decoder with pos {pos} and '
                  f'size {size}')
            self.event(st, size, ('failed',))
            return [(p, None)]
        good = isinstance(buf, PtrV) and buf.reg is self.IN
        it.ob('cb_coder', good, f'the decoder reads {buf}')
        it.ob('cb_coder', self.is_heap(st, hp), f'the decoder allocates from {hp}')
        it.ob('cb_coder', st.store.prove(pos) and st.store.prove(size - pos),
              f'decoder with pos {pos} and size {size}')
        if not good:
            raise Infeasible
        it.ob('in_read', st.store.prove(buf.off + pos) and
              st.store.prove(self.IN.size - buf.off - size),
              f'a sub-message is read from [{buf.off + pos}, {buf.off + size})')
        self.event(st, st.store.resolve(buf.off + pos), ('from',))
        self.event(st, st.store.resolve(size - pos), ('size',))
        q = p.clone()
        # memory may have been taken
        it.fresh_n += 1
        for s in (st, q.st):
            h0 = self.heap_pos(s)
            a = T.new(f'heappos{it.fresh_n}', 0, INT_MAX)
            a = Lin.atom(a)
            s.add_ge(a - h0)
            s.add_ge(self.hs - a)
            self.put(self.HS, HEAPT, 'pos', a, s)
        # done, or failed with some code
        self.put(d.reg, DEC, 'pos', size, st, base=base)
        e = T.new(f'inerr{it.fresh_n}', 1, 8)
        for f in ('pos', 'size'):
            self.put(d.reg, DEC, f, Lin.atom(e, -1), q.st, base=base)
        self.event(q.st, Lin.atom(e, -1), ('error',))
        return [(p, None), (q, None)]

    FNS = {'init': FnV('init!'), 'encode': FnV('encode!'), 'decode': FnV('decode!')}


ONE_ = Lin(1)


class AnalysisFail(Exception):
    pass


def ev(scn, st, kind, start=0):
    return [o for o, _, c in scn.events(st, start) if c[0] == kind]


def message_in_heap(scn, size=None):
    """A message that was taken from the workspace before."""
    a = T.new('msgoff/8', 2, INT_MAX)
    off = Lin.atom(a, 8)
    scn.st.add_ge(scn.hp - off - scn.isz)
    return PtrV(scn.HEAP, off)


# --------------------------------------------------------------- creation

def message_new(mod):
    fname = 'pbtools_message_new'
    scn = MsgScenario(mod, fname, 'alloc')
    size = Lin.atom(T.new('size', 0, INT_MAX))
    WS = Region('WS', 'obj', size, align=16)
    # the heap structure is at the start of the workspace, the rest is room
    scn.HS = WS
    scn.HEAP = WS
    scn.st.cells(WS)
    scn.hs = size
    hsz = scn.size_of(HEAPT)

    def init(it, p, args):
        st = p.st
        m, h = args
        it.ob('cb_heap', isinstance(h, PtrV) and h.reg is WS
              and st.store.prove_eq(h.off), f'init gets {h} as workspace')
        ok = isinstance(m, PtrV) and m.reg is WS
        it.ob('cb_room', ok and st.store.prove(m.off - hsz) and
              st.store.prove(size - m.off - scn.isz), f'init gets {m}')
        if not ok:
            raise Infeasible
        it.check_align(st, m.reg, m.off, 8)
        scn.event(st, m.off, ('init',))
        return [(p, None)]
    scn.it.callbacks['init!'] = init
    outs = scn.call(fname, [PtrV(WS, ZERO), IntV(64, size), scn.size_arg(),
                            scn.FNS['init']])
    oks = 0
    for st, ret in outs:
        inits = ev(scn, st, 'init')
        if isinstance(ret, NullV):
            scn.chk('C05', 'creating a message fails only when the workspace is '
                    'too small', not feasible(st, [size - hsz - scn.isz]),
                    'fails although there is room')
            scn.chk('C18', 'nothing is initialised when there is no room',
                    not inits, 'init is called')
            continue
        ok = isinstance(ret, PtrV) and ret.reg is WS
        scn.chk('C18', 'a new message is in the workspace', ok, f'{ret}')
        if not ok:
            continue
        oks += 1
        scn.chk('C02', 'a new message is within the workspace, after what '
                'describes it', st.store.prove(ret.off - hsz) and
                st.store.prove(size - ret.off - scn.isz), f'at {ret.off}')
        scn.chk('C18', 'a new message is initialised once', len(inits) == 1 and
                st.store.prove_eq(inits[0] - ret.off), f'{inits}')
        buf = scn.get(st, WS, HEAPT, 'buf_p')
        hs = scn.geti(st, WS, HEAPT, 'size')
        hp = scn.geti(st, WS, HEAPT, 'pos')
        ok = isinstance(buf, PtrV) and buf.reg is WS and st.store.prove_eq(buf.off) \
            and hs is not None and st.store.prove_eq(hs - size) and \
            hp is not None and st.store.prove(hp - ret.off - scn.isz) and \
            st.store.prove(size - hp)
        scn.chk('C02', 'the workspace that remains is what is after the message',
                ok, f'buffer {buf}, size {hs}, position {hp}')
    scn.chk('C05', 'creating a message succeeds with enough room', oks > 0,
            'it never does')
    return scn


def sub_alloc(mod):
    fname = 'pbtools_sub_message_alloc'
    scn = MsgScenario(mod, fname, 'alloc')
    scn.heap()
    PP = Region('message_pp', 'obj', Lin(8), align=8)
    scn.st.cells(PP)
    outs = scn.call(fname, [PtrV(PP, ZERO), PtrV(scn.HS, ZERO), scn.size_arg(),
                            scn.FNS['init']])
    for st, ret in outs:
        check_alloc(scn, st, ret, scn.isz,
                    st.mem[PP].c.get(0, (0, None))[1], None)
        inits = ev(scn, st, 'init')
        ptr = st.mem[PP].c.get(0, (0, None))[1]
        if st.const_of(ret) == 0 and isinstance(ptr, PtrV):
            scn.chk('C18', 'an allocated message is initialised once',
                    len(inits) == 1 and st.store.prove_eq(inits[0] - ptr.off),
                    f'{inits}')
    scn.chk('C05', 'allocation succeeds and fails',
            {st.const_of(r) for st, r in outs} == {0, 0xffffffff},
            'not both')
    return scn


def check_alloc(scn, st, ret, size, ptr, length, fn=None):
    """0 and memory from the workspace, or -1 and nothing."""
    r = st.const_of(ret) if isinstance(ret, IntV) else None
    scn.chk('C05', 'allocation returns 0 or -1', r in (0, 0xffffffff), f'{ret}')
    hp = scn.heap_pos(st) if hasattr(scn, 'heap_pos') else \
        scn.geti(st, scn.HS, HEAPT, 'pos')
    if r == 0:
        ok = isinstance(ptr, PtrV) and ptr.reg is scn.HEAP
        scn.chk('C02', 'allocated memory is in the workspace', ok, f'{ptr}')
        if ok:
            scn.chk('C02', 'allocated memory was free and is taken',
                    st.store.prove(ptr.off - scn.hp)
                    and hp is not None and st.store.prove(hp - ptr.off - size)
                    and st.store.prove(scn.hs - hp), f'at {ptr.off}, {hp} taken')
            aligned(scn, st, ptr, 8)
        return True
    if r is not None:
        # room for the largest padding: 8 bytes alignment
        scn.chk('C05', 'allocation fails only when there is no room',
                not feasible(st, [scn.hs - scn.hp - size - 7,
                                  Lin(INT_MAX) - size, size] +
                             ([length] if length is not None else [])),
                'fails although there is room')
    return False


def aligned(scn, st, ptr, n):
    l = st.store.resolve(ptr.reg.base + ptr.off)
    ok = l.c % n == 0 and all(k % n == 0 for k in l.t.values())
    if not ok:
        _, r = st.divmod_const(l, n)
        ok = st.store.prove(-r)
    scn.chk('C16', 'memory handed out is aligned', ok, f'at {ptr.off}')


def alloc_repeated_messages(mod):
    fname = 'pbtools_alloc_repeated'
    scn = MsgScenario(mod, fname, 'alloc')
    scn.heap()
    R = scn.obj('repeated', REPEATED)
    scn.put(R, REPEATED, 'length', ZERO)
    L = Lin.atom(T.new('length', 0, INT_MAX))
    outs = scn.call(fname, [PtrV(R, ZERO), IntV(32, L), PtrV(scn.HS, ZERO),
                            scn.size_arg(), scn.FNS['init']])
    total = L.mul(scn.isz)
    for st, ret in outs:
        items = scn.get(st, R, REPEATED, 'items_p')
        length = scn.geti(st, R, REPEATED, 'length')
        if check_alloc(scn, st, ret, total, items, L):
            scn.chk('C18', 'the length is the number of items allocated',
                    length is not None and st.store.prove_eq(length - L),
                    f'length {length}')
            check_item_inits(scn, st, items, L)
        else:
            scn.chk('C05', 'no items after failing to allocate them',
                    length is not None and st.store.prove_eq(length),
                    f'length {length}')
    scn.chk('C05', 'allocation succeeds and fails',
            {st.const_of(r) for st, r in outs} == {0, 0xffffffff},
            'not both')
    return scn


def check_item_inits(scn, st, items, L):
    """Item n is initialised in iteration n of a loop over all items."""
    log = [e for e in scn.events(st) if e[2][0] in ('init', 'rep')]
    if not log:
        scn.chk('C18', 'every item is initialised', st.store.prove_eq(L),
                'no item is')
        return None
    ok = len(log) == 1 and log[0][2][0] == 'rep'
    scn.chk('C18', 'items are initialised in one loop', ok, f'{log}')
    if not ok:
        return None
    info = log[0][2][2]
    G = Lin.atom(info['g'])
    scn.chk('C18', 'every item is initialised', st.store.prove_eq(G - L),
            f'{G} of {L}')
    for q in info['backs']:
        base = len(scn.events(info['h'].st))
        new = scn.events(q.st, base)
        ok = len(new) == 1 and new[0][2][0] == 'init' and isinstance(items, PtrV) \
            and q.st.store.prove_eq(new[0][0] - items.off - G.mul(scn.isz))
        scn.chk('C18', 'iteration n initialises item n', ok, f'{new}')
    return info


def alloc_repeated(mod, t):
    fname = f'pbtools_alloc_repeated_{t}'
    scn = Scenario(mod, fname, 'alloc')
    scn.heap()
    B = scn.obj('message', BASE)
    scn.put(B, BASE, 'heap_p', PtrV(scn.HS, ZERO))
    rs = struct_of(t)
    R = scn.obj('repeated', rs)
    scn.put(R, rs, 'length', ZERO)
    L = Lin.atom(T.new('length', 0, INT_MAX))
    outs = scn.call(fname, [PtrV(B, ZERO), IntV(32, L), PtrV(R, ZERO)])
    n = item_size(t)
    total = L.scale(n)
    for st, ret in outs:
        items = scn.get(st, R, rs, items_member(scn, t))
        length = scn.geti(st, R, rs, 'length')
        if not check_alloc(scn, st, ret, total, items, L):
            scn.chk('C05', 'no items after failing to allocate them',
                    length is not None and st.store.prove_eq(length),
                    f'length {length}')
            continue
        scn.chk('C18', 'the length is the number of items allocated',
                length is not None and st.store.prove_eq(length - L),
                f'length {length}')
        if not isinstance(items, PtrV):
            continue
        if t == 'string':
            check_string_items(scn, st, items, L)
            continue
        ok = st.store.prove_eq(L)
        for o, m, c in st.log.get(scn.HEAP, ()):
            if c[0] == 'fill' and all(b == B0 for b in c[1]) and \
                    st.store.prove(items.off - o) and \
                    st.store.prove(o + m - items.off - total):
                ok = True
            elif c[0] == 'rep' and len(c) > 2:
                ok = ok or zero_loop(scn, st, c[2], items, L, n)
        scn.chk('C18', f'allocated items of {t} are zero or empty', ok,
                f'{show([(e[1], e[2]) for e in st.log.get(scn.HEAP, ())])}')
    scn.chk('C05', 'allocation succeeds and fails',
            {st.const_of(r) for st, r in outs} == {0, 0xffffffff},
            'not both')
    return scn


def zero_loop(scn, st, info, items, L, n):
    """Does iteration i of the loop clear item i (or byte i)?"""
    G = Lin.atom(info['g'])
    base = len(info['h'].st.log.get(scn.HEAP, ()))
    unit = None
    for q in info['backs']:
        new = q.st.log.get(scn.HEAP, ())[base:]
        at = items.off
        k = None
        for u in (n, 1):
            a = items.off + G.scale(u)
            left = u
            for o, m, c in new:
                m = q.st.store.resolve(m)
                if m.t or not q.st.store.prove_eq(o - a) or c[0] != 'val':
                    break
                if not (isinstance(c[1], NullV) or isinstance(c[1], IntV)
                        and q.st.const_of(c[1]) == 0):
                    break
                a = a + m
                left -= m.c
            else:
                if left == 0:
                    k = u
                    break
        if k is None or unit not in (None, k):
            return False
        unit = k
    if unit is None:
        return False
    return st.store.prove_eq(G.scale(unit) - L.scale(n))


def check_string_items(scn, st, items, L):
    log = [e for e in st.log.get(scn.HEAP, ()) if e[2][0] == 'rep'
           or not st.store.prove(-e[1])]
    if not log:
        scn.chk('C18', 'every allocated string is empty', st.store.prove_eq(L),
                'nothing is written')
        return
    ok = len(log) == 1 and log[0][2][0] == 'rep' and len(log[0][2]) > 2
    scn.chk('C18', 'strings are set in one loop', ok, f'{log}')
    if not ok:
        return
    info = log[0][2][2]
    G = Lin.atom(info['g'])
    scn.chk('C18', 'every allocated string is set', st.store.prove_eq(G - L),
            f'{G} of {L}')
    for q in info['backs']:
        base = len(info['h'].st.log.get(scn.HEAP, ()))
        new = q.st.log.get(scn.HEAP, ())[base:]
        ok = len(new) == 1 and new[0][2][0] == 'val' and \
            isinstance(new[0][2][1], PtrV) and \
            q.st.store.prove_eq(new[0][0] - items.off - G.scale(8))
        if ok:
            v = new[0][2][1]
            ok = v.reg.kind == 'global' and v.reg.data is not None and \
                not v.off.t and v.reg.data[v.off.c:v.off.c + 1] == b'\0'
        scn.chk('C18', 'iteration n makes string n empty', ok, f'{new}')


# --------------------------------------------------------------- encoding

def message_encode(mod):
    fname = 'pbtools_message_encode'
    scn = MsgScenario(mod, fname, 'encode')
    SIZE = Lin.atom(T.new('size', 0, INT_MAX - 16))
    OUT = Region('OUT', 'out', SIZE)
    scn.OUT = OUT
    scn.MSG = scn.obj('message', BASE)
    scn.st.ghost[('low', OUT)] = SIZE
    scn.st.ghost[('pend', OUT)] = ()
    state = {}

    def encode(it, p, args):
        e = args[0]
        if not isinstance(e, PtrV):
            it.ob('cb_coder', False, f'encode_inner gets {e}')
            raise Infeasible
        scn.E = e.reg
        st = p.st
        b = scn.get(st, e.reg, ENC, 'buf_p')
        s = scn.geti(st, e.reg, ENC, 'size')
        q = scn.geti(st, e.reg, ENC, 'pos')
        scn.chk('C03', 'encoding starts at the end of the given buffer',
                isinstance(b, PtrV) and b.reg is OUT and st.store.prove_eq(b.off)
                and s is not None and st.store.prove_eq(s - SIZE)
                and q is not None and st.store.prove_eq(q - SIZE + 1),
                f'buffer {b}, size {s}, position {q}')
        if s is None or q is None:
            raise Infeasible
        return scn.cb_encode(it, p, args)
    scn.it.callbacks['encode!'] = encode
    outs = scn.call(fname, [PtrV(scn.MSG, ZERO), PtrV(OUT, ZERO), IntV(64, SIZE),
                            scn.FNS['encode']])
    kinds = set()
    for st, ret in outs:
        scn.chk('C14', 'the fields of the message are encoded once',
                [st.store.prove_eq(o) for o in ev(scn, st, 'encode')] == [True],
                f'{ev(scn, st, "encode")}')
        r = st.store.resolve(st.sview(ret)) if isinstance(ret, IntV) else None
        inner = [e for e in st.log.get(OUT, ()) if e[2][0] == 'inner']
        if not inner:
            kinds.add('ab')
            scn.chk('C04', 'the result of a failed encoding is minus its code',
                    r is not None and st.store.prove_eq(r + BUFFER_FULL), f'{r}')
            scn.chk('C04', 'a failed encoder writes nothing',
                    not [e for e in st.log.get(OUT, ())
                         if not st.store.prove(-e[1])], 'it does')
            continue
        kinds.add('ok')
        off, n, _ = inner[0]
        scn.chk('C03', 'the result is the number of encoded bytes',
                r is not None and st.store.prove_eq(r - n), f'{r} of {n}')
        moved = st.store.prove_eq(off) or st.store.prove_eq(n)
        stray = []
        for o, m, c in st.log.get(OUT, ()):
            if c[0] == 'inner':
                continue
            if c[0] == 'move':
                moved = moved or (st.store.prove_eq(o) and st.store.prove_eq(m - n)
                                  and st.store.prove_eq(c[1] - off))
                continue
            if c[0] in ('rep', 'copy') or not st.store.prove(-m):
                cm = copy_down(scn, st, c, off, n) if c[0] == 'rep' else None
                if cm or c[0] == 'copy' and c[1] is OUT and st.store.prove_eq(o) \
                        and st.store.prove_eq(m - n) and \
                        st.store.prove_eq(c[2] - off):
                    moved = True
                else:
                    stray.append((o, m, c))
        scn.chk('C03', 'the encoded message is moved to the start of the buffer',
                moved and not stray, f'{[e for e in st.log.get(OUT, ())]}')
    scn.chk('C03', 'encoding can succeed and fail', kinds == {'ok', 'ab'}, f'{kinds}')
    return scn


def copy_down(scn, st, c, off, n):
    """A loop that copies byte i of the message to byte i of the buffer."""
    if len(c) < 3:
        return False
    info = c[2]
    G = Lin.atom(info['g'])
    base = len(info['h'].st.log.get(scn.OUT, ()))
    for q in info['backs']:
        new = q.st.log.get(scn.OUT, ())[base:]
        if len(new) != 1 or not q.st.store.prove_eq(new[0][0] - G):
            return False
        return False        # the byte read is not tracked
    return False


def sub_encode(mod, always, mode, null):
    fname = 'pbtools_encoder_sub_message_encode' + ('_always' if always else '')
    scn = MsgScenario(mod, f'{fname}/{mode}/{null}', 'encode')
    e = scn.encoder(mode)
    fno = scn.field_number()
    scn.MSG = scn.obj('message', BASE)
    msg = NULL if null else PtrV(scn.MSG, ZERO)
    outs = scn.call(fname, [e, fno, msg, scn.FNS['encode']])
    if mode == 'ab':
        check_encoder_sticky(scn, outs)
        return scn
    tag = tag_bits(scn.fno, WT_LEN)
    kinds = set()
    for st, ret in outs:
        m, p, s = scn.enc(st)
        calls = ev(scn, st, 'encode')
        if null:
            scn.chk('C14', 'a sub-message that is not set is not encoded',
                    m == 'ok' and not calls and st.store.prove_eq(p - scn.P),
                    f'position {p}')
            continue
        scn.chk('C14', 'the fields of a sub-message are encoded once',
                [st.store.prove_eq(o) for o in calls] == [True], f'{calls}')
        if m == '?':
            scn.chk('C04', 'an encoder is either valid or has failed', False,
                    f'exit with pos {p} and size {s}')
            continue
        if m == 'ab':
            kinds.add('ab')
            check_encoder_abort(scn, st, p, s)
            inner = [x for x in st.log.get(scn.OUT, ()) if x[2][0] == 'inner']
            if inner:
                n = inner[0][1]
                need = n + vl(st, tag) + vl(st, len_bits(st, n))
                scn.chk('C03', 'encoding fails only when the buffer is too small',
                        assume(st, [scn.P + 1 - need]) is None,
                        f'fails although {need} byte(s) fit')
            continue
        kinds.add('ok')
        scn.chk('C03', 'the buffer of the encoder does not change',
                s is not None and st.store.prove_eq(s - scn.S)
                and same_ptr(scn, st), f'size becomes {s}')
        check_contiguous(scn, st, p)
        check_frame(scn, st, st.log.get(scn.OUT, ()), p, scn.P, tag, 0)
    if not null:
        scn.chk('C14', 'encoding a sub-message can succeed and fail',
                kinds == {'ok', 'ab'}, f'{kinds}')
    return scn


def check_frame(scn, st, log, p, end, tag, start):
    """The bytes (p, end] are tag, length and one sub-message."""
    inner = [x for x in log[start:] if x[2][0] == 'inner']
    n = inner[0][1] if len(inner) == 1 else None
    pieces = out_pieces(scn, st, scn.OUT, p + 1, end + 1, start)
    rest = pieces
    if rest is not None and n is not None:
        rest = match_varint(st, rest, tag)
        if rest is not None:
            rest = match_varint(st, rest, len_bits(st, n))
        ok = rest is not None and (
            (len(rest) == 1 and rest[0][1][0] == 'inner') or
            (not rest and st.store.prove_eq(n)))
    else:
        ok = False
    return scn.chk('C14', 'a sub-message is preceded by its tag and its length',
                   ok, f'{show(pieces) if pieces is not None else "gaps"}')


def encode_repeated_messages(mod, mode):
    fname = 'pbtools_encode_repeated_inner'
    scn = MsgScenario(mod, f'{fname}/{mode}', 'encode')
    e = scn.encoder(mode)
    fno = scn.field_number()
    L = Lin.atom(T.new('length', 0, INT_MAX))
    ITEMS = Region('ITEMS', 'items', L.mul(scn.isz), align=16)
    scn.MSG = ITEMS
    R = scn.obj('repeated', REPEATED)
    scn.put(R, REPEATED, 'length', L)
    scn.put(R, REPEATED, 'items_p', PtrV(ITEMS, ZERO))
    outs = scn.call(fname, [e, fno, PtrV(R, ZERO), scn.size_arg(),
                            scn.FNS['encode']])
    if mode == 'ab':
        check_encoder_sticky(scn, outs)
        return scn
    tag = tag_bits(scn.fno, WT_LEN)
    some = False
    seen = set()
    for st, ret in outs:
        m, p, s = scn.enc(st)
        if m == '?':
            scn.chk('C04', 'an encoder is either valid or has failed', False,
                    f'exit with pos {p} and size {s}')
            continue
        if m == 'ab':
            check_encoder_abort(scn, st, p, s)
            scn.chk('C10', 'no items, nothing encoded',
                    not feasible(st, [], [L]), 'fails for no items')
        else:
            scn.chk('C03', 'the buffer of the encoder does not change',
                    s is not None and st.store.prove_eq(s - scn.S)
                    and same_ptr(scn, st), f'size becomes {s}')
            check_contiguous(scn, st, p)
        log = [x for x in scn.events(st) if x[2][0] in ('rep', 'encode')]
        if not log:
            scn.chk('C10', 'items are encoded', st.store.prove_eq(L),
                    'nothing is written for a repeated field with items')
            if m == 'ok':
                scn.chk('C10', 'no items, nothing encoded',
                        st.store.prove_eq(p - scn.P), f'position {p}')
            continue
        reps = [x for x in log if x[2][0] == 'rep']
        if m == 'ok':
            ok = len(log) == len(reps) == 1
            scn.chk('C10', 'one pass over the items', ok, f'{len(log)} parts')
            if not ok:
                continue
            some = True
            info = reps[0][2][2]
            G = Lin.atom(info['g'])
            scn.chk('C10', 'every item is written', st.store.prove_eq(G - L),
                    f'{G} of {L} items written')
            end = spec_end(scn, info)
            scn.chk('C10', 'nothing but the items is written',
                    end is not None and st.store.prove_eq(p - end), f'position {p}')
        for r in reps:
            if id(r[2][2]) in seen:
                continue
            seen.add(id(r[2][2]))
            check_message_iterations(scn, r[2][2], L, tag)
    scn.chk('C10', 'encoding succeeds for some items and room', some,
            'no successful exit')
    return scn


def spec_end(scn, info):
    v = scn.geti(info['h'].st, scn.E, ENC, 'pos')
    return None if v is None else info['h'].st.store.resolve(v)


def check_message_iterations(scn, info, L, tag):
    if info['mode'][:1] != ('ok',):
        return
    G = Lin.atom(info['g'])
    h = info['h'].st
    hp = scn.geti(h, scn.E, ENC, 'pos')
    for q in info['backs']:
        st = q.st
        m, p, s = scn.enc(st)
        new = scn.events(st, len(scn.events(h)))
        calls = [o for o, _, c in new if c[0] == 'encode']
        scn.chk('C10', 'iteration n encodes item length-1-n',
                len(calls) == 1 and st.store.prove_eq(
                    calls[0] - (L - 1 - G).mul(scn.isz)), f'{calls}')
        if m == 'ok':
            check_frame(scn, st, st.log.get(scn.OUT, ()), p, hp, tag,
                        len(h.log.get(scn.OUT, ())))


# --------------------------------------------------------------- decoding

def message_decode(mod):
    fname = 'pbtools_message_decode'
    scn = MsgScenario(mod, fname, 'decode')
    scn.heap()
    SIZE = Lin.atom(T.new('size', 0, INT_MAX))
    scn.IN = Region('IN', 'in', SIZE)
    B = scn.obj('message', BASE)
    scn.put(B, BASE, 'heap_p', PtrV(scn.HS, ZERO))
    scn.MSGIN = B
    outs = scn.call(fname, [PtrV(B, ZERO), PtrV(scn.IN, ZERO), IntV(64, SIZE),
                            scn.FNS['decode']])
    kinds = set()
    for st, ret in outs:
        r = st.store.resolve(st.sview(ret)) if isinstance(ret, IntV) else None
        scn.chk('C14', 'the fields of the message are decoded once',
                [st.store.prove_eq(o) for o in ev(scn, st, 'decode')] == [True],
                f'{ev(scn, st, "decode")}')
        frm, sz = ev(scn, st, 'from'), ev(scn, st, 'size')
        scn.chk('C01', 'a message is decoded from all of the given data',
                len(frm) == len(sz) == 1 and st.store.prove_eq(frm[0])
                and st.store.prove_eq(sz[0] - SIZE), f'{frm} {sz}')
        err = ev(scn, st, 'error')
        kinds.add(bool(err))
        if err:
            scn.chk('C04', 'the result of a failed decoding is minus its code',
                    r is not None and st.store.prove_eq(r - err[0]), f'{r}')
        else:
            scn.chk('C08', 'the result is the number of decoded bytes',
                    r is not None and st.store.prove_eq(r - SIZE), f'{r}')
    scn.chk('C08', 'decoding can succeed and fail', kinds == {True, False},
            f'{kinds}')
    return scn


def sub_decode(mod, mode):
    fname = 'pbtools_decoder_sub_message_decode'
    scn = MsgScenario(mod, f'{fname}/{mode}', 'decode')
    d = scn.decoder(mode)
    wt = scn.wire_type()
    PP = Region('message_pp', 'obj', Lin(8), align=8)
    scn.st.cells(PP)
    OLD = Region('old', 'opaque', None)
    scn.it.cell_store(scn.st.cells(PP), 0, 8, PtrV(OLD, ZERO))
    scn.MSGIN = scn.HEAP
    outs = scn.call(fname, [d, wt, PtrV(PP, ZERO), scn.size_arg(),
                            scn.FNS['init'], scn.FNS['decode']])
    oks = 0
    for st, ret in outs:
        ptr = st.mem[PP].c.get(0, (0, None))[1]
        inits = ev(scn, st, 'init')
        m, p, s = scn.dec(st)
        same = isinstance(ptr, PtrV) and ptr.reg is OLD
        mine = isinstance(ptr, PtrV) and ptr.reg is scn.HEAP and \
            len(inits) == 1 and st.store.prove_eq(inits[0] - ptr.off)
        scn.chk('C18', 'the pointer to a sub-message is either not changed or to '
                'an initialised message', same or mine, f'{ptr}')
        decs = ev(scn, st, 'decode')
        scn.chk('C14', 'a sub-message is decoded into its own memory',
                all(any(st.store.prove_eq(o - i) for i in inits) for o in decs)
                and len(decs) <= 1, f'{decs} {inits}')
        if mode == 'ab':
            continue
        if m == '?':
            scn.chk('C04', 'a decoder is either valid or has failed', False,
                    f'exit with pos {p} and size {s}')
            continue
        frm, sz = ev(scn, st, 'from'), ev(scn, st, 'size')
        err = ev(scn, st, 'error')
        v = vlen_at(st, scn.IN, scn.P)
        V = Lin.atom(val_at(st, scn.IN, scn.P))
        if frm:
            for prop in ('C01', 'C14'):
                scn.chk(prop, 'a sub-message is decoded from its own bytes',
                        len(frm) == 1 and st.store.prove_eq(frm[0] - scn.P - v)
                        and st.store.prove_eq(sz[0] - V),
                        f'{sz} byte(s) at {frm}')
        if m == 'ok':
            oks += 1
            check_decoder_ok(scn, st, p, s)
            scn.chk('C13', 'a field with another wire type is rejected',
                    st.store.prove_eq(scn.wt - WT_LEN), 'it is accepted')
            scn.chk('C14', 'decoding goes on after the sub-message',
                    st.store.prove_eq(p - scn.P - v - V), f'at {p}')
            scn.chk('C14', 'a sub-message is decoded once', len(decs) == 1
                    and mine and not err, f'{decs}')
            continue
        code = check_decoder_abort_any(scn, st, p, s)
        late = ev(scn, st, 'late')
        if late:
            scn.chk('C04', 'a failed decoder keeps its first error',
                    st.store.prove_eq(p - late[0]), f'{p} after {late[0]}')
        if err:
            scn.chk('C04', 'the error in a sub-message is the error of the message',
                    st.store.prove_eq(p - err[0]), f'{p}, not {err[0]}')
            continue
        good = [] if feasible(st, varint_good(scn, st)) else None
        wrong = not feasible(st, [], [scn.wt - WT_LEN])
        if code == OUT_OF_MEMORY:
            scn.chk('C05', 'out of memory is reported when memory is short',
                    not feasible(st, [scn.hs - scn.hp - scn.isz - 7]),
                    'reported although there is room')
        elif code == BAD_WIRE_TYPE:
            scn.chk('C04', 'another wire type is reported as such', wrong,
                    'reported for the right wire type')
        elif not wrong:
            g = varint_good(scn, st) + [scn.S - scn.P - v - V]
            scn.chk('C14', 'every complete sub-message is decoded',
                    not feasible(st, g, [scn.wt - WT_LEN]) or code is None,
                    f'rejected with code {code}')
        scn.chk('C14', 'a sub-message is not decoded from a part of its bytes',
                not frm, f'{sz} byte(s) at {frm}')
    if mode == 'ab':
        check_decoder_sticky(scn, outs)
    else:
        scn.chk('C14', 'decoding a sub-message can succeed', oks > 0, 'never')
    return scn


def check_decoder_abort_any(scn, st, p, s):
    ok = s is not None and st.store.prove_eq(p - s) and st.store.prove(p + 8)
    scn.chk('C04', 'a failed decoder reports a documented code', ok,
            f'pos {p}, size {s}')
    lo, hi = scn.codes_of(st, p)
    return lo if lo == hi else None


# ------------------------------------------------------------------ others

def info_init(mod):
    fname = 'pbtools_repeated_info_init'
    scn = Scenario(mod, fname, 'decode')
    I = scn.obj('info', INFO)
    fno = scn.field_number()
    for st, ret in scn.call(fname, [PtrV(I, ZERO), fno]):
        l = scn.geti(st, I, INFO, 'length')
        t = scn.geti(st, I, INFO, 'tag')
        scn.chk('C11', 'counting items starts from zero',
                l is not None and st.store.prove_eq(l), f'length {l}')
        scn.chk('C11', 'the tag of a repeated field is its field number',
                t is not None and st.store.prove_eq(t - Lin.atom(scn.fno)),
                f'tag {t}')
    return scn


def bytes_init(mod):
    fname = 'pbtools_bytes_init'
    scn = Scenario(mod, fname, 'alloc')
    B = scn.obj('bytes', BYTES)
    for st, ret in scn.call(fname, [PtrV(B, ZERO)]):
        s = scn.get(st, B, BYTES, 'size')
        scn.chk('C18', 'a new bytes value is empty', isinstance(s, IntV)
                and st.const_of(s) == 0, f'size {s}')
    return scn


TEXTS = {0: 'Ok', 1: 'Bad wire type', 2: 'Out of data', 3: 'Out of memory',
         4: 'Encode buffer full', 5: 'Bad field number', 6: 'Varint overflow',
         7: 'Seek overflow', 8: 'Length delimited overflow'}


RANGES = {'positive': (0, INT_MAX), 'negative': (-INT_MAX, -1),
          'least': (-INT_MAX - 1, -INT_MAX - 1)}


def error_text(mod, which):
    fname = 'pbtools_error_code_to_string'
    scn = Scenario(mod, f'{fname}/{which}', 'other')
    lo, hi = RANGES[which]
    C = Lin.atom(T.new('code', lo, hi))
    outs = scn.call(fname, [IntV(32, C)])
    seen = set()
    for st, ret in outs:
        text = None
        if isinstance(ret, PtrV) and ret.reg.kind == 'global' and \
                ret.reg.data is not None and not ret.off.t:
            b = ret.reg.data[ret.off.c:]
            text = b[:b.index(b'\0')].decode('ascii', 'replace')
        scn.chk('C19', 'every error code has a text', text is not None, f'{ret}')
        if text is None:
            continue
        l, h = st.store.interval(st.store.resolve(C))
        for v in range(max(l, -9), min(h, 9) + 1):
            if not feasible(st, [], [C - v]):
                continue
            seen.add(v)
            want = TEXTS.get(abs(v))
            if want is not None:
                scn.chk('C19', 'the text of a code is its own',
                        text.lower() == want.lower(), f'{v}: {text}')
            else:
                scn.chk('C19', 'a code that is not defined has no text of another',
                        text not in TEXTS.values(), f'{v}: {text}')
        if l < -9 or h > 9:
            scn.chk('C19', 'a code that is not defined has no text of another',
                    text not in TEXTS.values(), f'{l}..{h}: {text}')
    scn.chk('C19', 'every documented code has a text',
            {abs(v) for v in seen if abs(v) in TEXTS} ==
            {k for k in TEXTS if lo <= k <= hi or lo <= -k <= hi}, f'{sorted(seen)}')
    return scn
