"""Entry states and exit checks of the C analysis.

A scenario analyses one external function of the library from one abstract
entry state that covers every concrete entry state of its contract, and
compares every abstract exit state with the specification.  A scenario yields
findings: (property, rule, function, line, ok, message).
"""

from . import ir, lin
from .lin import Lin, T, Infeasible, ZERO, ONE, INF
from .state import (AnalysisError, IntV, PtrV, NullV, FnV, UndefV, Cond, NULL,
                    UNDEF, TRUE, FALSE, B0, B1, bxor, bnot, const_bits,
                    bits_const, atom_bits, const, Region, Cells, State)
from .interp import Interp, Path
from . import merge as mg

INT_MAX = (1 << 31) - 1
BAD_WIRE_TYPE = 1
OUT_OF_DATA = 2
OUT_OF_MEMORY = 3
BUFFER_FULL = 4
BAD_FIELD_NUMBER = 5
VARINT_OVERFLOW = 6
SEEK_OVERFLOW = 7
LENGTH_OVERFLOW = 8

WT_VARINT, WT_64, WT_LEN, WT_32 = 0, 1, 2, 5

DEC = 'pbtools_decoder_t'
ENC = 'pbtools_encoder_t'
HEAPT = 'pbtools_heap_t'
INFO = 'pbtools_repeated_info_t'
REPEATED = 'pbtools_repeated_message_t'
BASE = 'pbtools_message_base_t'
BYTES = 'pbtools_bytes_t'


class Anchor(Exception):
    """Something the analysis is anchored on does not exist."""


# obligation kind -> rule text
RULES = {
    'in_read': 'every read of the encoded input lies within the input',
    'heap_window': 'every write to the workspace lies within memory allocated '
                   'from it by this call',
    'heap_write': 'every write to the workspace lies within it',
    'heap_read': 'every read of the workspace lies within it',
    'out_write': 'every write to the output buffer lies within it',
    'out_read': 'every read of the output buffer lies within it',
    'items_read': 'every item read lies within the repeated field',
    'cstr_read': 'no string is read past its terminator',
    'obj_read': 'every read of an object lies within it',
    'obj_write': 'every write to an object lies within it',
    'global_write': 'no global is written',
    'global_read': 'no mutable global is read',
    'const_write': 'no read-only memory is written',
    'null': 'no null pointer is used',
    'uninit': 'no value is used before it is set',
    'align': 'every access is aligned',
    'overflow': 'no signed arithmetic overflows',
    'shift': 'every shift distance is less than the width',
    'div': 'no division by zero',
    'overlap': 'memcpy does not overlap',
    'unreachable': 'no unreachable code is reached',
    'progress': 'every loop has a bounded quantity that moves in each iteration',
    'item_store': 'item number n is stored at n * item size, n < length',
    'item_value': 'each item is the value of the bytes read for it',
    'cb_heap': 'messages are given the workspace they are in',
    'cb_room': 'messages are initialised in memory taken from the workspace',
    'cb_message': 'fields are encoded from and decoded to the message at hand',
    'cb_coder': 'the fields of a message are given a coder that is set up',
    'obj_symbolic': 'object access at a constant offset',
}


class Scenario:

    def __init__(self, mod, name, side, callbacks=None):
        self.mod = mod
        self.name = name
        self.side = side                # 'decode' 'encode' 'alloc' 'other'
        self.it = Interp(mod, callbacks)
        self.st = State()
        self.findings = []
        self.nexits = 0
        self.fn = None
        self.notes = []

    # -- findings

    def chk(self, prop, rule, ok, msg='', fn=None, line=None):
        fn = fn or self.fn
        if line is None:
            f = self.mod.functions.get(fn)
            line = f.line if f is not None else None
        self.findings.append((prop, rule, fn, line, bool(ok),
                              '' if ok else f'{msg} (scenario {self.name})'))
        return ok

    # -- objects

    def size_of(self, struct):
        ty = ir.Ty('struct', name='%struct.' + struct)
        if '%struct.' + struct not in self.mod.structs:
            f = self.it.dbg.structs.get(struct)
            if not f:
                raise Anchor(f'struct {struct} does not exist')
            return (max(o + n for o, n, _ in f.values()) + 7) // 8 * 8
        return self.mod.size(ty)

    def obj(self, name, struct, kind='obj'):
        r = Region(name, kind, Lin(self.size_of(struct)), align=16)
        self.st.cells(r)
        return r

    def off(self, struct, field):
        return self.it.dbg.off(struct, field)

    def put(self, reg, struct, field, value, st=None, base=0):
        st = st or self.st
        o, n, _ = self.it.dbg.structs[struct][field]
        if isinstance(value, Lin):
            value = IntV(8 * n, value)
        self.it.cell_store(st.cells(reg), base + o, n, value)

    def get(self, st, reg, struct, field, base=0):
        try:
            o, n, _ = self.it.dbg.structs[struct][field]
        except KeyError:
            raise Anchor(f'no member {field} in struct {struct}')
        c = st.mem.get(reg)
        e = c.c.get(base + o) if c is not None else None
        if e is None or e[0] != n:
            return None
        return e[1]

    def geti(self, st, reg, struct, field, base=0):
        """Signed linear view of an integer member, or None."""
        v = self.get(st, reg, struct, field, base)
        if not isinstance(v, IntV):
            return None
        return st.store.resolve(st.sview(v))

    # -- coders

    def heap(self, full=True):
        """A workspace and the struct describing it."""
        hs = T.new('heapsize', 16, INT_MAX)
        hp = T.new('heappos', 16, INT_MAX)
        HS = self.obj('heap', HEAPT)
        hb = T.new('&ws/16', 1 << 20, 1 << 50)
        HEAP = Region('WS', 'heap', Lin.atom(hs), base=Lin.atom(hb, 16))
        HEAP.data = {'lo': Lin.atom(hp),
                     'cur': lambda st: self.geti(st, HS, HEAPT, 'pos')}
        self.put(HS, HEAPT, 'buf_p', PtrV(HEAP, ZERO))
        self.put(HS, HEAPT, 'size', Lin.atom(hs))
        self.put(HS, HEAPT, 'pos', Lin.atom(hp))
        self.st.add_ge(Lin.atom(hs) - Lin.atom(hp))
        self.it.regions['WS'] = HEAP
        self.HS, self.HEAP, self.hs, self.hp = HS, HEAP, Lin.atom(hs), Lin.atom(hp)
        return HS

    def decoder(self, mode, name='decoder', heap=True):
        if heap:
            self.heap()
        D = self.obj(name, DEC)
        if mode == 'ok':
            size = T.new('size', 0, INT_MAX)
            pos = T.new('pos', 0, INT_MAX)
            IN = Region('IN', 'in', Lin.atom(size))
            self.S, self.P = Lin.atom(size), Lin.atom(pos)
            self.st.add_ge(self.S - self.P)
            s, p = self.S, self.P
        else:
            insize = T.new('insize', 0, INT_MAX)
            e = T.new('err', 1, 8)
            IN = Region('IN', 'in', Lin.atom(insize))
            s = p = Lin.atom(e, -1)
            self.S = self.P = s
        self.IN = IN
        self.put(D, DEC, 'buf_p', PtrV(IN, ZERO))
        self.put(D, DEC, 'size', s)
        self.put(D, DEC, 'pos', p)
        self.put(D, DEC, 'heap_p', PtrV(self.HS, ZERO) if heap else NULL)
        self.it.add_coder(D, 0, '%struct.' + DEC)
        self.D = D
        self.mode = mode
        return PtrV(D, ZERO)

    def encoder(self, mode, name='encoder'):
        E = self.obj(name, ENC)
        bs = T.new('bufsize', 0, INT_MAX - 16)
        OUT = Region('OUT', 'out', Lin.atom(bs))
        if mode == 'ok':
            pos = T.new('pos', -1, INT_MAX - 17)
            self.S, self.P = Lin.atom(bs), Lin.atom(pos)
            self.st.add_ge(self.S - self.P - 1)
            s, p = self.S, self.P
            self.st.ghost[('low', OUT)] = p + 1
            self.st.ghost[('pend', OUT)] = ()
        else:
            e = T.new('err', 1, 8)
            s = p = Lin.atom(e, -1)
            self.S = self.P = s
        self.OUT = OUT
        self.put(E, ENC, 'buf_p', PtrV(OUT, ZERO))
        self.put(E, ENC, 'size', s)
        self.put(E, ENC, 'pos', p)
        self.it.add_coder(E, 0, '%struct.' + ENC)
        self.E = E
        self.mode = mode
        return PtrV(E, ZERO)

    def field_number(self):
        a = T.new('fieldno', 1, (1 << 29) - 1)
        self.fno = a
        return IntV(32, Lin.atom(a))

    def wire_type(self):
        a = T.new('wiretype', 0, 7)
        self.wt = Lin.atom(a)
        return IntV(32, self.wt)

    # -- running

    def call(self, fname, args):
        f = self.mod.functions.get(fname)
        if f is None:
            raise Anchor(f'function {fname} does not exist')
        self.fn = fname
        if len(f.params) != len(args):
            raise Anchor(f'{fname} has {len(f.params)} parameters, '
                         f'{len(args)} expected')
        args = [self.coerce(v, ty) for v, (ty, _) in zip(args, f.params)]
        outs = self.it.exec_function(f, args, self.st)
        outs = [(s, v) for s, v in outs if not s.store.infeasible()]
        self.nexits += len(outs)
        return outs

    def coerce(self, v, ty):
        if isinstance(v, IntV) and ty.k in ('int', 'float') and ty.w != v.w:
            if ty.w == 1:
                return v
            raise Anchor(f'argument of {v.w} bits passed as {ty.w} bits')
        return v

    # -- decoder exits

    def dec(self, st):
        """(mode, pos lin, size lin)"""
        p = self.geti(st, self.D, DEC, 'pos')
        s = self.geti(st, self.D, DEC, 'size')
        if p is None or s is None:
            return '?', p, s
        if st.store.prove(p):
            return 'ok', p, s
        if st.store.prove(-p - 1):
            return 'ab', p, s
        return '?', p, s

    def enc(self, st):
        p = self.geti(st, self.E, ENC, 'pos')
        s = self.geti(st, self.E, ENC, 'size')
        if p is None or s is None:
            return '?', p, s
        if st.store.prove(s):
            return 'ok', p, s
        if st.store.prove(-s - 1):
            return 'ab', p, s
        return '?', p, s

    def codes_of(self, st, p):
        lo, hi = st.store.interval(st.store.resolve(p))
        return -hi, -lo


def feasible(st, goals=(), eqs=()):
    """Can the state satisfy the additional linear constraints?"""
    try:
        s = st.clone()
        for l in goals:
            s.add_ge(l)
        for l in eqs:
            s.add_eq(l)
        s.check_nz()
        if any(s.store.prove_eq(l) for l in s.neq):
            return False
        return not s.store.infeasible()
    except Infeasible:
        return False


def assume(st, goals=(), eqs=()):
    """The state with additional constraints, or None."""
    try:
        s = st.clone()
        for l in goals:
            s.add_ge(l)
        for l in eqs:
            s.add_eq(l)
        if s.store.infeasible():
            return None
        return s
    except Infeasible:
        return None


def same_bits(st, a, b):
    a, b = st.rbits(a), st.rbits(b)
    if a == b:
        return True
    x, y = as_number(st, a), as_number(st, b)
    return x is not None and y is not None and st.store.prove_eq(x - y)


def as_number(st, bits):
    """Linear form of a bit vector that is all the bits of one atom."""
    if all(b in (B0, B1) for b in bits):
        return Lin(bits_const(bits))
    for b in bits:
        if b in (B0, B1):
            continue
        if b[0] != 0 or len(b[1]) != 1:
            return None
        (a, i), = b[1]
        at = T.atoms[a]
        if at.lo < 0 or at.hi >= INF:
            return None
        w = max(len(bits), at.hi.bit_length())
        full = st.rbits(atom_bits(a, w))
        if tuple(full) == tuple(bits) + (B0,) * (w - len(bits)):
            return Lin.atom(a)
        return None


def value_bits(st, v):
    if isinstance(v, Cond):
        if v.k == 'const':
            return const_bits(1 if v.a else 0, 1)
        return None
    if isinstance(v, IntV):
        return st.bits(v)
    return None


# ------------------------------------------------------------------ output

def out_pieces(scn, st, reg, low, high, start=0):
    """Pieces written since log index `start`, from low to high addresses.

    Returns [(length, content)] covering [low, high) exactly, or None.
    """
    log = [e for e in st.log.get(reg, ())[start:]
           if not (not st.store.resolve(e[1]).t
                   and st.store.resolve(e[1]).c == 0 and e[2][0] != 'rep')]
    res = []
    at = low
    used = [False] * len(log)
    while True:
        if st.store.prove_eq(at - high):
            break
        for i, (o, n, c) in enumerate(log):
            if used[i] or c[0] in ('rep', 'opaque'):
                continue
            if st.store.prove_eq(o - at):
                used[i] = True
                res.append((n, c))
                at = st.store.resolve(o + n)
                break
        else:
            return None
        if len(res) > 200:
            return None
    for i, (o, n, c) in enumerate(log):
        if not used[i] and not st.store.prove(-n):
            return None
    return res


def match_varint(st, pieces, bits):
    """Consume the base 128 encoding of `bits`; rest of pieces or None."""
    bits = tuple(bits) + (B0,) * (70 - len(bits))
    if not pieces:
        return None
    n, c = pieces[0]
    if c[0] == 'venc':
        if not same_bits(st, c[1], bits[:64]):
            return None
        l = st.store.resolve(Lin.atom(mg.vl_atom(c[1])))
        if not st.store.prove_eq(n - l):
            return None
        return pieces[1:]
    got = []
    rest = list(pieces)
    while True:
        if not rest:
            return None
        n, c = rest[0]
        if c[0] != 'bytes':
            return None
        bf = [st.rbits(b) for b in c[1]]
        for k, b in enumerate(bf):
            got.append(b)
            if b[7] == B0:
                more = bf[k + 1:]
                rest = rest[1:]
                if more:
                    rest = [(Lin(len(more)), ('bytes', tuple(more)))] + rest
                break
            if b[7] != B1 or len(got) >= 10:
                return None
        else:
            rest = rest[1:]
            continue
        break
    val = [x for b in got for x in b[:7]]
    val = tuple((val + [B0] * 70)[:70])
    if not same_bits(st, val, bits[:70]):
        return None
    if len(got) > 1 and not st.is_nz(bits[7 * (len(got) - 1):]):
        return None
    return rest


def match_bytes(st, pieces, forms):
    """Consume the given byte forms."""
    rest = list(pieces)
    forms = list(forms)
    while forms:
        if not rest:
            return None
        n, c = rest[0]
        if c[0] != 'bytes':
            return None
        k = 0
        for b in c[1]:
            if not forms:
                break
            if not same_bits(st, b, forms[0]):
                return None
            forms.pop(0)
            k += 1
        more = c[1][k:]
        rest = rest[1:]
        if more:
            rest = [(Lin(len(more)), ('bytes', tuple(more)))] + rest
    return rest


def match_copy(st, pieces, reg, off, n):
    """Consume a copy of n bytes of reg from off."""
    if st.store.prove_eq(n):
        # nothing, or an empty copy
        if pieces and st.store.prove(-pieces[0][0]):
            return pieces[1:]
        return pieces
    if not pieces:
        return None
    m, c = pieces[0]
    if c[0] != 'copy' or c[1] is not reg:
        return None
    if not st.store.prove_eq(c[2] - off) or not st.store.prove_eq(m - n):
        return None
    return pieces[1:]


def tag_bits(fno, wt):
    """Bits of field number << 3 | wire type."""
    return (const_bits(wt, 3) + atom_bits(fno, 29) + (B0,) * 32)[:64]


def vl(st, bits):
    a = mg.vl_atom(st_tuple(bits))
    try:
        mg.sync_vl(st, a)
    except Infeasible:
        pass
    return Lin.atom(a)


def st_tuple(bits):
    return tuple(bits)
