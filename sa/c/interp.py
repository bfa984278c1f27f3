"""Abstract interpreter over the IR: trace partitioning at branches, lossless
merging at function returns, inferred inductive invariants at loop heads."""

import re
import sys

from . import ir
from .lin import Lin, T, Infeasible, ZERO, ONE, INF, norm
from .state import (AnalysisError, IntV, PtrV, NullV, FnV, UndefV, Cond, NULL,
                    UNDEF, TRUE, FALSE, B0, B1, bxor, bnot, const_bits,
                    bits_const, atom_bits, const, Region, Cells, State)

sys.setrecursionlimit(20000)

CODERS = {'%struct.pbtools_decoder_t', '%struct.pbtools_encoder_t'}


class Obligations:

    def __init__(self):
        self.d = {}

    def add(self, kind, fn, line, ok, msg):
        e = self.d.setdefault((kind, fn, line), [0, 0, []])
        e[0] += 1
        if not ok:
            e[1] += 1
            if len(e[2]) < 3:
                e[2].append(msg)

    def merge(self, o):
        for k, (n, f, m) in o.d.items():
            e = self.d.setdefault(k, [0, 0, []])
            e[0] += n
            e[1] += f
            e[2] = (e[2] + m)[:3]


class Debug:
    """Structure member offsets from debug information."""

    def __init__(self, mod):
        self.structs = {}
        md = mod.md
        for k, v in md.items():
            if v.startswith('!DICompositeType(tag: DW_TAG_structure_type'):
                m = re.search(r'[ (]name: "([^"]*)"', v)
                e = re.search(r'elements: !([0-9]+)', v)
                if not m or not e:
                    continue
                fields = {}
                for ref in re.findall(r'!([0-9]+)', md.get(int(e.group(1)), '')):
                    d = md.get(int(ref), '')
                    n = re.search(r'name: "([^"]*)"', d)
                    if not n:
                        continue
                    o = re.search(r'offset: ([0-9]+)', d)
                    s = re.search(r'size: ([0-9]+)', d)
                    b = re.search(r'baseType: !([0-9]+)', d)
                    fields[n.group(1)] = (int(o.group(1)) // 8 if o else 0,
                                          int(s.group(1)) // 8,
                                          int(b.group(1)) if b else None)
                self.structs[m.group(1)] = fields

    def off(self, struct, field):
        try:
            return self.structs[struct][field][0]
        except KeyError:
            raise AnalysisError(f'no member {field} in struct {struct}')


class Frame:
    __slots__ = ('fn', 'cfg', 'env', 'allocas')

    def __init__(self, fn, cfg, env):
        self.fn = fn
        self.cfg = cfg
        self.env = env
        self.allocas = []


class Path:
    """A state at a point of a function activation."""
    __slots__ = ('st', 'env')

    def __init__(self, st, env):
        self.st = st
        self.env = env

    def clone(self):
        return Path(self.st.clone(), dict(self.env))


# How much is merged.  Any setting is sound; a unit is decided by the first
# setting under which all its obligations hold.
PRECISION = {'keep_failed': 0, 'keep_depth': 0}
SETTINGS = ((0, 0), (24, 1), (24, 2))


class Interp:

    def __init__(self, mod, callbacks=None, max_paths=4000, lossy_merge=True):
        self.mod = mod
        self.dbg = Debug(mod)
        self.cfgs = {}
        self.obs = Obligations()
        self.callbacks = callbacks or {}
        self.regions = {}
        self.globals = {}
        self.stack = []
        self.coders = []            # (region, offset, kind)
        self.loops = []             # loop reports
        self.max_paths = max_paths
        self.lossy_merge = lossy_merge
        # so few outcomes with a failed coder are not merged, at that depth
        self.keep_failed = PRECISION['keep_failed']
        self.keep_depth = PRECISION['keep_depth']
        self.events = []
        self.analysed = set()
        self.fresh_n = 0
        self.loop_stack = []
        self.on_store = None
        self.hooks = {}

    # ------------------------------------------------------------- helpers

    def cfg(self, fn):
        c = self.cfgs.get(fn.name)
        if c is None:
            c = ir.CFG(fn)
            self.cfgs[fn.name] = c
        return c

    def where(self):
        return self.stack[-1] if self.stack else ('?', None)

    def ob(self, kind, ok, msg=''):
        fn, line = self.where()
        if not ok:
            chain = ' <- '.join(f'{f}:{l}' for f, l in reversed(self.stack))
            msg = f'{msg} [{chain}]'
        self.obs.add(kind, fn, line, ok, msg)
        return ok

    def fresh(self, name, w, signed=False):
        self.fresh_n += 1
        if signed:
            a = T.new(f'{name}#{self.fresh_n}', -(1 << (w - 1)), (1 << (w - 1)) - 1)
            return IntV(w, Lin.atom(a))
        a = T.new(f'{name}#{self.fresh_n}', 0, (1 << w) - 1)
        return IntV(w, None, atom_bits(a, w))

    def region(self, key, make):
        r = self.regions.get(key)
        if r is None:
            r = make()
            self.regions[key] = r
        return r

    def add_coder(self, reg, off, kind):
        self.coders.append((reg, off, kind))

    def find_coders(self, ty, off=0):
        out = []
        if ty.k == 'struct':
            if ty.name in CODERS:
                return [(off, ty.name)]
            _, _, offs = self.mod.layout(ty)
            for f, o in zip(self.mod.struct_fields(ty), offs):
                out += self.find_coders(f, off + o)
        return out

    # ---------------------------------------------------------- operations

    def operand(self, p, ty, a):
        k = a[0]
        if k == 'r':
            try:
                return p.env[a[1]]
            except KeyError:
                raise AnalysisError(f'undefined {a[1]}')
        if k == 'c':
            if ty.w == 1:
                return TRUE if a[1] else FALSE
            return const(ty.w, a[1])
        if k == 'g':
            name = a[1]
            if name[1:] in self.mod.functions or name in self.mod.declares:
                return FnV(name[1:])
            return PtrV(self.global_region(name), ZERO)
        if k == 'null':
            return NULL
        if k == 'undef':
            return UNDEF
        if k == 'fp':
            v = a[1]
            if v.startswith('0x'):
                b = int(v[2:], 16)
            else:
                import struct
                b = struct.unpack('<Q', struct.pack('<d', float(v)))[0]
            if ty.w == 32:
                import struct
                d = struct.unpack('<d', struct.pack('<Q', b))[0]
                b = struct.unpack('<I', struct.pack('<f', d))[0]
            return const(ty.w, b)
        if k == 'cgep':
            base = self.operand(p, a[2][0][0], a[2][0][1])
            return self.gep(p, a[1], [base] + [self.operand(p, t, x)
                                               for t, x in a[2][1:]])
        raise AnalysisError(f'operand {a}')

    def global_region(self, name):
        r = self.globals.get(name)
        if r is None:
            ty, val, isconst, _ = self.mod.globals[name]
            size = self.mod.size(ty)
            data = val[1] if val and val[0] == 'bytes' else None
            if data is None and val == ('zero',):
                data = b'\0' * size
            r = Region(name, 'global', Lin(size), readonly=isconst,
                       align=self.mod.layout(ty)[1], data=data)
            self.globals[name] = r
        return r

    def gep(self, p, sty, args):
        base = args[0]
        off = ZERO
        st = p.st
        idx = args[1:]
        ty = sty
        for i, v in enumerate(idx):
            if i == 0:
                l = self.idx(st, v)
                off = off + l.scale(self.mod.size(ty))
            else:
                if ty.k == 'struct':
                    n = st.const_of(v)
                    _, _, offs = self.mod.layout(ty)
                    off = off + offs[n]
                    ty = self.mod.struct_fields(ty)[n]
                elif ty.k == 'array':
                    ty = ty.el
                    off = off + self.idx(st, v).scale(self.mod.size(ty))
                else:
                    raise AnalysisError('gep into scalar')
        if isinstance(base, PtrV):
            return PtrV(base.reg, base.off + off)
        if isinstance(base, NullV):
            if not off.t and off.c == 0:
                return NULL
            # member of a null object: a pointer that must not be used
            return NULL
        if isinstance(base, UndefV):
            return UNDEF
        raise AnalysisError(f'gep on {base}')

    def idx(self, st, v):
        if not isinstance(v, IntV):
            raise AnalysisError(f'index {v}')
        return st.sview(v)

    # -- memory

    def deref(self, st, v, what):
        if isinstance(v, PtrV):
            return v
        if isinstance(v, NullV):
            self.ob('null', False, f'{what} through a null pointer')
        elif isinstance(v, UndefV):
            self.ob('uninit', False, f'{what} through an undefined pointer')
        else:
            raise AnalysisError(f'{what} through {v}')
        raise Infeasible

    def check_bounds(self, st, reg, off, n, what):
        """Obligation: [off, off + n) lies in the region."""
        kind = {'in': 'in', 'out': 'out', 'heap': 'heap', 'items': 'items',
                'cstr': 'cstr'}.get(reg.kind, 'obj') + '_' + what
        if reg.size is None:
            return
        lo = st.store.prove(off)
        hi = st.store.prove(reg.size - off - n)
        if isinstance(n, Lin) and not (lo and hi) and st.store.prove(-n):
            lo = hi = True          # nothing accessed
        self.ob(kind, lo and hi,
                f'{what} of {n} byte(s) at {reg}[{st.store.resolve(off)}] not '
                f'within its {st.store.resolve(reg.size)} bytes')
        if not lo:
            st.add_ge(off)
        if not hi:
            st.add_ge(reg.size - off - n)

    def check_align(self, st, reg, off, n):
        if n <= 1:
            return
        l = st.store.resolve(reg.base + off)
        ok = l.c % n == 0 and all(k % n == 0 for k in l.t.values())
        if not ok:
            # atoms with a known residue
            _, r = st.divmod_const(l, n)
            ok = st.store.prove(-r)
        self.ob('align', ok, f'{n}-byte access to {reg}[{off}] not aligned')

    def heap_window(self, st, reg):
        d = reg.data
        lo = d['lo']
        cur = d['cur'](st)
        return lo, cur

    def load(self, p, ptr, ty):
        st = p.st
        ptr = self.deref(st, ptr, 'read')
        reg, off = ptr.reg, st.store.resolve(ptr.off)
        n = self.mod.size(ty)
        self.check_bounds(st, reg, off, n, 'read')
        self.check_align(st, reg, off, n)
        h = self.hooks.get('load')
        if h:
            v = h(self, p, reg, off, ty, n)
            if v is not None:
                return v
        if reg.kind in ('obj', 'opaque'):
            if off.t:
                self.ob('obj_symbolic', True, '')
                return self.fresh('ld', n * 8)
            return self.cell_load(st, reg, off.c, ty, n)
        if reg.kind == 'in':
            return self.bytes_value(ty, [self.in_byte(st, reg, off + i)
                                         for i in range(n)])
        if reg.kind == 'items':
            return reg.data(self, st, off, ty, n)
        if reg.kind == 'heap':
            return self.heap_load(st, reg, off, ty, n)
        if reg.kind == 'global':
            if reg.data is not None and not off.t:
                b = reg.data[off.c:off.c + n]
                return self.bytes_value(ty, [const_bits(x, 8) for x in b])
            if not reg.readonly:
                self.ob('global_read', False, f'reads the mutable global {reg}')
            return self.fresh('glob', n * 8)
        if reg.kind == 'cstr':
            a = T.consed(('cstr', reg.name, off.key(), n), f'{reg}[{off}]', 0,
                         (1 << (8 * n)) - 1, data=(reg, off) if n == 1 else None)
            return IntV(8 * n, None, atom_bits(a, 8 * n))
        if reg.kind == 'out':
            return self.fresh('outb', n * 8)
        raise AnalysisError(f'load from {reg.kind}')

    def in_byte(self, st, reg, off):
        off = st.store.resolve(off)
        a = T.consed(('in', reg.name, off.key()), f'{reg}[{off}]', 0, 255,
                     data=(reg, off))
        return atom_bits(a, 8)

    def bytes_value(self, ty, bs):
        bits = tuple(b for x in bs for b in x)
        if ty.k == 'ptr':
            raise AnalysisError('pointer made of bytes')
        return IntV(len(bits), None, bits)

    def cell_load(self, st, reg, off, ty, n):
        cells = st.mem.get(reg)
        if cells is None:
            cells = Cells(init=reg.kind == 'opaque')
            st.mem[reg] = cells
        e = cells.c.get(off)
        if e is not None and e[0] == n:
            v = e[1]
            if isinstance(v, UndefV):
                self.ob('uninit', False, f'{reg}+{off} read before it is written')
                return self.fresh('undef', 8 * n) if ty.k != 'ptr' else UNDEF
            if ty.k == 'ptr' and isinstance(v, IntV):
                if st.const_of(v) == 0:
                    return NULL
                raise AnalysisError(f'integer {v} used as pointer')
            if ty.k == 'int' and ty.w == 1:
                raise AnalysisError('i1 in memory')
            if ty.k in ('int', 'float') and isinstance(v, NullV):
                return const(8 * n, 0)
            return v
        # bytewise
        bs = []
        ok = True
        for i in range(n):
            b = self.byte_at(st, cells, reg, off + i)
            if b is None:
                ok = False
                break
            bs.append(b)
        if not ok:
            if cells.init:
                v = self.fresh(f'{reg}+{off}', 8 * n)
                if ty.k == 'ptr':
                    raise AnalysisError(f'unknown pointer in {reg}+{off}')
                c = st.cells(reg)
                self.cell_store(c, off, n, v)
                return v
            self.ob('uninit', False, f'{reg}+{off} read before it is written')
            return UNDEF if ty.k == 'ptr' else self.fresh('undef', 8 * n)
        if ty.k == 'ptr':
            if all(bits_const(b) == 0 for b in bs):
                return NULL
            raise AnalysisError('pointer made of bytes')
        return self.bytes_value(ty, bs)

    def byte_at(self, st, cells, reg, o):
        for k in range(o, o - 9, -1):
            e = cells.c.get(k)
            if e is not None:
                if k + e[0] <= o:
                    return None
                v = e[1]
                if isinstance(v, IntV):
                    return self.raw(st, v)[(o - k) * 8:(o - k) * 8 + 8]
                if isinstance(v, NullV):
                    return (B0,) * 8
                return None
        return None

    def cell_store(self, cells, off, n, v):
        c = cells.c
        if off in c and c[off][0] == n:
            c[off] = (n, v)
            return
        for k in list(range(off - 8, off + n)):
            e = c.get(k)
            if e is None or k + e[0] <= off:
                continue
            # split what remains
            del c[k]
            ev = e[1]
            for i in range(e[0]):
                o = k + i
                if off <= o < off + n:
                    continue
                if isinstance(ev, IntV) and ev.bits is not None:
                    c[o] = (1, IntV(8, None, ev.bits[i * 8:i * 8 + 8]))
                elif isinstance(ev, NullV):
                    c[o] = (1, const(8, 0))
                elif isinstance(ev, IntV) and ev.lin is not None \
                        and ev.lin.const():
                    c[o] = (1, const(8, (ev.lin.c >> (8 * i)) & 255))
                else:
                    c[o] = (1, UNDEF)
        c[off] = (n, v)

    def byte_forms(self, st, v, n):
        if isinstance(v, IntV):
            bits = self.raw(st, v)
            return tuple(tuple(bits[i * 8:i * 8 + 8]) for i in range(n))
        if isinstance(v, NullV):
            return tuple((B0,) * 8 for _ in range(n))
        return None

    def store(self, p, ptr, v, ty):
        st = p.st
        ptr = self.deref(st, ptr, 'write')
        reg, off = ptr.reg, st.store.resolve(ptr.off)
        n = self.mod.size(ty)
        if isinstance(v, Cond):
            raise AnalysisError('i1 stored')
        self.check_bounds(st, reg, off, n, 'write')
        self.check_align(st, reg, off, n)
        self.write(p, reg, off, n, v)

    def write(self, p, reg, off, n, v):
        """n constant."""
        st = p.st
        h = self.hooks.get('store')
        if h and h(self, p, reg, off, n, v):
            return
        if reg.kind in ('obj', 'opaque'):
            if off.t:
                c = st.cells(reg)
                c.c = {}
                c.init = True
                return
            self.cell_store(st.cells(reg), off.c, n, v)
            return
        if reg.kind == 'out':
            bf = self.byte_forms(st, v, n)
            if bf is None:
                raise AnalysisError('pointer written to the output')
            self.out_write(st, reg, off, Lin(n), ('bytes', bf))
            return
        if reg.kind == 'heap':
            self.heap_write(st, reg, off, Lin(n), ('val', v))
            return
        if reg.readonly or reg.kind in ('in', 'items', 'cstr'):
            self.ob('const_write', False, f'writes the read-only {reg}')
            return
        if reg.kind == 'global':
            self.ob('global_write', False, f'writes the global {reg}')
            return
        raise AnalysisError(f'store to {reg.kind}')

    # output log: pieces below the low mark, contiguous

    def out_write(self, st, reg, off, n, content):
        off = st.store.resolve(off)
        n = st.store.resolve(n)
        st.log[reg] = st.log.get(reg, ()) + ((off, n, content),)
        if st.store.prove(-n):
            return
        low = st.ghost.get(('low', reg))
        if low is None:
            return
        pend = list(st.ghost.get(('pend', reg), ()))
        a, b = off, off + n
        done = False
        for i, (x, y) in enumerate(pend):
            if st.store.prove_eq(y - a):
                pend[i] = (x, b)
                done = True
                break
            if st.store.prove_eq(b - x):
                pend[i] = (a, y)
                done = True
                break
        if not done:
            pend.append((a, b))
        moved = True
        while moved:
            moved = False
            for i, (x, y) in enumerate(pend):
                if st.store.prove_eq(y - low):
                    low = x
                    del pend[i]
                    moved = True
                    break
        st.ghost[('low', reg)] = low
        st.ghost[('pend', reg)] = tuple(pend)

    def heap_write(self, st, reg, off, n, content):
        w = reg.data
        if w is not None:
            lo, cur = self.heap_window(st, reg)
            ok = (st.store.prove(off - lo) and st.store.prove(cur - off - n)) \
                or st.store.prove(-n)
            self.ob('heap_window', ok,
                    f'write of {n} byte(s) at workspace offset '
                    f'{st.store.resolve(off)} is outside the space allocated '
                    f'by this call, [{st.store.resolve(lo)}, '
                    f'{st.store.resolve(cur)})')
        st.log[reg] = st.log.get(reg, ()) + ((off, n, content),)

    def heap_load(self, st, reg, off, ty, n):
        for (o, m, c) in reversed(st.log.get(reg, ())):
            if st.store.prove_eq(off - o) and st.store.prove_eq(m - n) \
                    and c[0] == 'val':
                return c[1]
            if st.store.prove(off - o - m) or st.store.prove(o - off - n):
                continue
            break
        if ty.k == 'ptr':
            return UNDEF
        return self.fresh('heapld', 8 * n)

    # -- copies

    def memcpy(self, p, dst, src, nv, move=False):
        st = p.st
        n = st.store.resolve(st.uview(nv))
        if not n.t and n.c == 0:
            return
        if not isinstance(dst, PtrV) or not isinstance(src, PtrV):
            if st.store.prove(-n):
                return
            if isinstance(dst, (NullV, UndefV)) or isinstance(src, (NullV, UndefV)):
                # a zero size copy does not touch the pointers
                ok = st.store.prove(-n)
                self.ob('null', ok, 'copy through a null pointer')
                raise Infeasible
            raise AnalysisError(f'memcpy {dst} {src}')
        so = st.store.resolve(src.off)
        do = st.store.resolve(dst.off)
        self.check_bounds(st, src.reg, so, n, 'read')
        self.check_bounds(st, dst.reg, do, n, 'write')
        h = self.hooks.get('copy')
        if h and h(self, p, dst.reg, do, src.reg, so, n, move):
            return
        if dst.reg is src.reg and dst.reg.kind == 'out':
            st.log[dst.reg] = st.log.get(dst.reg, ()) + ((do, n, ('move', so)),)
            return
        if not move and dst.reg is src.reg:
            ov = st.store.prove(so - do - n) or st.store.prove(do - so - n)
            self.ob('overlap', ov, 'memcpy of overlapping memory')
        if not n.t and n.c <= 64:
            vals = self.read_bytes(p, src.reg, so, n.c)
            if vals is not None:
                for o, m, v in vals:
                    self.write(p, dst.reg, do + o, m, v)
                return
        if dst.reg.kind == 'out':
            self.out_write(st, dst.reg, do, n, ('copy', src.reg, so))
        elif dst.reg.kind == 'heap':
            self.heap_write(st, dst.reg, do, n, ('copy', src.reg, so))
        elif dst.reg.kind in ('obj', 'opaque'):
            c = st.cells(dst.reg)
            c.c = {}
            c.init = True
            st.log[dst.reg] = st.log.get(dst.reg, ()) + \
                ((do, n, ('copy', src.reg, so)),)
        else:
            self.ob('const_write', False, f'writes the read-only {dst.reg}')

    def read_bytes(self, p, reg, off, n):
        """[(offset, size, value)] of n bytes, or None when opaque."""
        st = p.st
        if reg.kind == 'in':
            return [(i, 1, IntV(8, None, self.in_byte(st, reg, off + i)))
                    for i in range(n)]
        if reg.kind in ('obj', 'opaque') and not off.t:
            cells = st.mem.get(reg)
            out = []
            i = 0
            while i < n:
                e = cells.c.get(off.c + i) if cells else None
                if e is not None and i + e[0] <= n:
                    if isinstance(e[1], UndefV):
                        self.ob('uninit', False, f'{reg}+{off.c + i} copied '
                                'before it is written')
                    out.append((i, e[0], e[1]))
                    i += e[0]
                    continue
                b = self.byte_at(st, cells, reg, off.c + i) if cells else None
                if b is None:
                    if cells is None or not cells.init:
                        out.append((i, 1, UNDEF))
                    else:
                        out.append((i, 1, self.fresh('cp', 8)))
                else:
                    out.append((i, 1, IntV(8, None, b)))
                i += 1
            return out
        if reg.kind == 'items' and n in (1, 2, 4, 8):
            v = reg.data(self, st, off, ir.Ty('int', 8 * n), n)
            return [(0, n, v)]
        if reg.kind == 'global' and reg.data is not None and not off.t:
            return [(i, 1, const(8, x)) for i, x in
                    enumerate(reg.data[off.c:off.c + n])]
        return None

    def memset(self, p, dst, val, nv):
        st = p.st
        n = st.store.resolve(st.uview(nv))
        if not n.t and n.c == 0:
            return
        if not isinstance(dst, PtrV):
            if st.store.prove(-n):
                return
            self.ob('null', False, 'memset through a null pointer')
            raise Infeasible
        off = st.store.resolve(dst.off)
        self.check_bounds(st, dst.reg, off, n, 'write')
        h = self.hooks.get('set')
        if h and h(self, p, dst.reg, off, n, val):
            return
        b = st.bits(val)[:8]
        if not n.t and n.c <= 64 and dst.reg.kind in ('obj', 'opaque'):
            for i in range(n.c):
                self.write(p, dst.reg, off + i, 1, IntV(8, None, b))
            return
        if dst.reg.kind == 'out':
            self.out_write(st, dst.reg, off, n, ('fill', b))
        elif dst.reg.kind == 'heap':
            self.heap_write(st, dst.reg, off, n, ('fill', b))
        elif dst.reg.kind in ('obj', 'opaque'):
            c = st.cells(dst.reg)
            c.c = {}
            c.init = True
            st.log[dst.reg] = st.log.get(dst.reg, ()) + ((off, n, ('fill', b)),)
        else:
            self.ob('const_write', False, f'writes the read-only {dst.reg}')

    # ---------------------------------------------------------- arithmetic

    def arith(self, p, inst, a, b):
        st = p.st
        w = inst.ty.w
        op = inst.op
        if w == 1:
            return self.bool_op(op, a, b)
        for v in (a, b):
            if isinstance(v, UndefV):
                self.ob('uninit', False, 'arithmetic on an undefined value')
                return self.fresh('undef', w)
        if isinstance(a, PtrV) or isinstance(b, PtrV):
            raise AnalysisError('arithmetic on pointer')
        flags = inst.x or set()
        if op in ('add', 'sub', 'mul'):
            if 'nsw' in flags:
                x, y = st.sview(a), st.sview(b)
                r = x + y if op == 'add' else x - y if op == 'sub' else x.mul(y)
                lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
                ok = st.store.prove(r - lo) and st.store.prove(Lin(hi) - r)
                self.ob('overflow', ok, f'signed {op} {st.store.resolve(x)}, '
                        f'{st.store.resolve(y)} may overflow')
                if not ok:
                    st.add_ge(r - lo)
                    st.add_ge(Lin(hi) - r)
                return IntV(w, st.store.resolve(r))
            x, y = st.lin(a), st.lin(b)
            if op == 'mul':
                x, y = (st.store.resolve(x), st.store.resolve(y))
                if x.t and y.t:
                    x, y = st.uview(a), st.uview(b)
                return IntV(w, st.store.resolve(x.mul(y)))
            r = st.store.resolve(x + y if op == 'add' else x - y)
            return IntV(w, r, st.one_bit(w, r))
        ca, cb = st.const_of(a), st.const_of(b)
        if ca is not None and cb is not None and op in ('and', 'or', 'xor'):
            return const(w, {'and': ca & cb, 'or': ca | cb, 'xor': ca ^ cb}[op])
        if op == 'and':
            if ca is not None and cb is None:
                a, b, ca, cb = b, a, cb, ca
            if cb is not None:
                if a.bits is None and cb & (cb + 1) == 0 and not self.natural(st, a):
                    k = cb.bit_length()
                    _, r = st.divmod_const(st.uview(a), 1 << k)
                    bits = st.bits(a)
                    return IntV(w, r, tuple(bits[:k]) + (B0,) * (w - k))
                bits = self.raw(st, a)
                m = const_bits(cb, w)
                return IntV(w, None, tuple(x if y == B1 else B0
                                           for x, y in zip(bits, m)))
            x, y = self.raw(st, a), self.raw(st, b)
            out = []
            for i, j in zip(x, y):
                if i == j:
                    out.append(i)
                elif i == B0 or j == B0:
                    out.append(B0)
                elif i == B1:
                    out.append(j)
                elif j == B1:
                    out.append(i)
                else:
                    out.append(self.and_form(st, i, j))
            return IntV(w, None, tuple(out))
        if op == 'or':
            if cb == 0:
                return a
            if ca == 0:
                return b
            x, y = self.raw(st, a), self.raw(st, b)
            out = []
            disjoint = True
            for i, j in zip(x, y):
                if i == B0:
                    out.append(j)
                elif j == B0 or i == j:
                    out.append(i)
                    disjoint = disjoint and j == B0
                elif i == B1 or j == B1:
                    out.append(B1)
                    disjoint = False
                else:
                    k = self.and_form(st, i, j)
                    disjoint = disjoint and k == B0
                    out.append(bxor(bxor(i, j), k))
            r = IntV(w, None, tuple(out))
            if disjoint and (a.lin is not None or b.lin is not None):
                r.lin = st.store.resolve(st.lin(a) + st.lin(b))
            return r
        if op == 'xor':
            if cb == (1 << w) - 1 and a.lin is not None and a.bits is None \
                    and not self.natural(st, a):
                return IntV(w, Lin(-1) - a.lin)
            x, y = self.raw(st, a), self.raw(st, b)
            return IntV(w, None, tuple(bxor(i, j) for i, j in zip(x, y)))
        if op in ('shl', 'lshr', 'ashr'):
            if cb is None:
                raise AnalysisError('shift by a variable')
            ok = cb < w
            self.ob('shift', ok, f'shift of {w} bits by {cb}')
            if not ok:
                return self.fresh('shift', w)
            if op == 'shl':
                r = IntV(w)
                if a.bits is not None or self.natural(st, a):
                    bits = self.raw(st, a)
                    r.bits = ((B0,) * cb + tuple(bits))[:w]
                if a.lin is not None:
                    r.lin = st.store.resolve(a.lin.scale(1 << cb))
                return r
            if op == 'lshr':
                if a.bits is not None or self.natural(st, a):
                    bits = self.raw(st, a)
                    return IntV(w, None, (tuple(bits[cb:]) + (B0,) * w)[:w])
                bits = self.raw(st, a)
                return IntV(w, None, (tuple(bits[cb:]) + (B0,) * w)[:w])
            if a.bits is not None or self.natural(st, a):
                bits = self.raw(st, a)
                return IntV(w, None, (tuple(bits[cb:]) + (bits[-1],) * w)[:w])
            q, _ = st.divmod_const(st.sview(a), 1 << cb)
            return IntV(w, q)
        if op in ('udiv', 'urem'):
            self.ob('div', cb != 0 and cb is not None, 'division by zero')
            if cb is None or cb == 0:
                raise AnalysisError('division by a variable')
            q, r = st.divmod_const(st.uview(a), cb)
            return IntV(w, q if op == 'udiv' else r)
        if op in ('sdiv', 'srem'):
            self.ob('div', cb is not None and cb != 0, 'division by zero')
            if cb is None or cb == 0 or cb >= 1 << (w - 1):
                raise AnalysisError('division by a variable')
            x = st.sview(a)
            if st.store.prove(x):
                q, r = st.divmod_const(x, cb)
                return IntV(w, q if op == 'sdiv' else r)
            if st.store.prove(-x):
                q, r = st.divmod_const(-x, cb)
                return IntV(w, -q if op == 'sdiv' else -r)
            # sign unknown: truncation towards zero, exact up to a fresh value
            q = self.fresh('sdiv', w, True)
            r = self.fresh('srem', w, True)
            Q, R = q.lin, r.lin
            st.add_ge(R + (cb - 1))
            st.add_ge(Lin(cb - 1) - R)
            st.store.add_eq(x - Q.scale(cb) - R)
            return q if op == 'sdiv' else r
        raise AnalysisError(f'operation {op}')

    def raw(self, st, v):
        """Bits of a value, not resolved under what the path knows."""
        return v.bits if v.bits is not None else st.bits(v)

    def and_form(self, st, a, b):
        if a == B1 or b == B0:
            return b
        if b == B1 or a == B0:
            return a
        x, y = st.rbit(a), st.rbit(b)
        if x == B0 or y == B0:
            return B0
        if x == B1:
            return b
        if y == B1 or x == y:
            return a
        return st_and(x, y)

    def natural(self, st, v):
        """Has the value bits that need no new name?"""
        l = st.store.resolve(v.lin)
        if not l.t:
            return True
        if len(l.t) == 1 and l.c == 0:
            (a, k), = l.t.items()
            at = T.atoms[a]
            return (k > 0 and k & (k - 1) == 0 and at.lo >= 0
                    and at.hi < (1 << 64) and at.factors is None
                    and (at.hi * k) < (1 << v.w))
        return False

    def bool_op(self, op, a, b):
        if op == 'xor':
            if b.k == 'const':
                return Cond('not', a) if b.a else a
            if a.k == 'const':
                return Cond('not', b) if a.a else b
        if op == 'and':
            if a.k == 'const':
                return b if a.a else FALSE
            if b.k == 'const':
                return a if b.a else FALSE
        if op == 'or':
            if a.k == 'const':
                return TRUE if a.a else b
            if b.k == 'const':
                return TRUE if b.a else a
        return Cond(op, a, b)

    # ---------------------------------------------------------- conditions

    NEG = {'eq': 'ne', 'ne': 'eq', 'ugt': 'ule', 'ule': 'ugt', 'uge': 'ult',
           'ult': 'uge', 'sgt': 'sle', 'sle': 'sgt', 'sge': 'slt', 'slt': 'sge'}
    SWAP = {'eq': 'eq', 'ne': 'ne', 'ugt': 'ult', 'ult': 'ugt', 'uge': 'ule',
            'ule': 'uge', 'sgt': 'slt', 'slt': 'sgt', 'sge': 'sle', 'sle': 'sge'}

    def assume(self, st, c, truth):
        """Refine st in place; raises Infeasible."""
        if c.k == 'const':
            if c.a != truth:
                raise Infeasible
            return
        if c.k == 'not':
            return self.assume(st, c.a, not truth)
        if c.k == 'bit':
            st.set_bit(c.a, 1 if truth else 0)
            return
        if c.k == 'and' and truth:
            self.assume(st, c.a, True)
            self.assume(st, c.b, True)
            return
        if c.k == 'or' and not truth:
            self.assume(st, c.a, False)
            self.assume(st, c.b, False)
            return
        if c.k in ('and', 'or'):
            raise AnalysisError('compound i1 condition')
        if c.k == 'xor':
            raise AnalysisError('xor of i1 conditions')
        pred = c.pred if truth else self.NEG[c.pred]
        a, b = c.a, c.b
        if isinstance(a, (PtrV, NullV, FnV)) or isinstance(b, (PtrV, NullV, FnV)):
            return self.assume_ptr(st, pred, a, b)
        if isinstance(a, UndefV) or isinstance(b, UndefV):
            self.ob('uninit', False, 'branch on an undefined value')
            return
        self.assume_int(st, pred, a, b)

    def assume_ptr(self, st, pred, a, b):
        if isinstance(a, UndefV) or isinstance(b, UndefV):
            self.ob('uninit', False, 'branch on an undefined pointer')
            return
        na, nb = isinstance(a, NullV), isinstance(b, NullV)
        if pred in ('eq', 'ne'):
            if na or nb:
                same = na and nb
                if same != (pred == 'eq'):
                    raise Infeasible
                return
            if isinstance(a, PtrV) and isinstance(b, PtrV) and a.reg is b.reg:
                d = a.off - b.off
                if pred == 'eq':
                    self.assume_eq(st, d)
                else:
                    st.add_ne(d)
                return
            if isinstance(a, FnV) and isinstance(b, FnV):
                if (a.name == b.name) != (pred == 'eq'):
                    raise Infeasible
                return
            if pred == 'eq':
                raise Infeasible
            return
        if isinstance(a, PtrV) and isinstance(b, PtrV) and a.reg is b.reg:
            d = a.off - b.off
            self.assume_rel(st, pred[1:], d)
            return
        raise AnalysisError('pointer comparison')

    def assume_ge(self, st, l):
        l = st.store.resolve(l)
        if l.t and st.store.prove(-l - 1):
            raise Infeasible
        st.add_ge(l)

    def assume_eq(self, st, l):
        l = st.store.resolve(l)
        if l.t:
            if st.store.prove(l - 1) or st.store.prove(-l - 1):
                raise Infeasible
            for x in st.neq:
                r = st.store.resolve(x)
                if st.store.prove_eq(r - l) or st.store.prove_eq(r + l):
                    raise Infeasible
        st.add_eq(l)

    def assume_rel(self, st, rel, d):
        """d = a - b."""
        if rel == 'gt':
            self.assume_ge(st, d - 1)
        elif rel == 'ge':
            self.assume_ge(st, d)
        elif rel == 'lt':
            self.assume_ge(st, -d - 1)
        else:
            self.assume_ge(st, -d)

    def assume_int(self, st, pred, a, b):
        w = a.w
        ca, cb = st.const_of(a), st.const_of(b)
        if ca is not None and cb is None:
            a, b, ca, cb = b, a, cb, ca
            pred = self.SWAP[pred]
        if ca is not None and cb is not None:
            sa = ca - (1 << w) if ca >> (w - 1) else ca
            sb = cb - (1 << w) if cb >> (w - 1) else cb
            r = {'eq': ca == cb, 'ne': ca != cb, 'ugt': ca > cb, 'uge': ca >= cb,
                 'ult': ca < cb, 'ule': ca <= cb, 'sgt': sa > sb, 'sge': sa >= sb,
                 'slt': sa < sb, 'sle': sa <= sb}[pred]
            if not r:
                raise Infeasible
            return
        if pred in ('eq', 'ne'):
            bitsy = a.lin is None or b.lin is None
            if bitsy and cb is not None:
                bits = st.bits(a)
                if pred == 'eq':
                    l = self.fresh_lin_bits(st, bits)
                    for i, f in enumerate(bits):
                        st.set_bit(f, (cb >> i) & 1)
                    if l is not None:
                        self.assume_eq(st, l - cb)
                    return
                if cb == 0:
                    st.add_nz(bits)
                else:
                    # differs from the constant in some bit
                    st.add_nz(tuple(bnot(f) if (cb >> i) & 1 else f
                                    for i, f in enumerate(bits)))
                l = self.fresh_lin_bits(st, bits)
                if l is not None:
                    self.check_ne(st, l - cb)
                return
            if bitsy and cb is None and a.lin is None and b.lin is None:
                x, y = st.bits(a), st.bits(b)
                diff = tuple(bxor(i, j) for i, j in zip(x, y))
                if pred == 'eq':
                    for f in diff:
                        st.set_bit(f, 0)
                else:
                    st.add_nz(diff)
            x = st.store.resolve(st.lin(a))
            y = st.store.resolve(st.lin(b))
            m = 1 << w
            ia, ib = st.store.interval(x), st.store.interval(y)
            if ia[0] >= 0 and ia[1] < m and ib[0] >= 0 and ib[1] < m:
                d = x - y
            else:
                d = st.sview(a) - st.sview(b)
            if pred == 'eq':
                self.assume_eq(st, d)
            else:
                self.check_ne(st, d)
            return
        if pred[0] == 's':
            if cb is not None and a.bits is not None:
                # sign tests
                s = None
                sc = cb - (1 << w) if cb >> (w - 1) else cb
                if (pred, sc) in (('slt', 0), ('sle', -1)):
                    s = 1
                elif (pred, sc) in (('sge', 0), ('sgt', -1)):
                    s = 0
                if s is not None:
                    st.set_bit(a.bits[-1], s)
                    if a.lin is None:
                        return
            x, y = st.sview(a), st.sview(b)
            self.assume_rel(st, pred[1:], x - y)
            return
        if cb is not None and (a.bits is not None or self.natural(st, a)
                               or 127 <= cb <= 128):
            # unsigned against a constant: bounds on the high bits
            bits = st.bits(a)
            l = self.fresh_lin_bits(st, bits) if a.lin is None else None
            k = None
            if pred in ('uge', 'ugt'):
                c = cb if pred == 'uge' else cb + 1
                if c > 0 and c & (c - 1) == 0:
                    k = c.bit_length() - 1
                    if k >= w:
                        raise Infeasible
                    st.add_nz(bits[k:])
                elif c == 0:
                    return
            else:
                c = cb if pred == 'ult' else cb + 1
                if c == 0:
                    raise Infeasible
                if c & (c - 1) == 0:
                    k = c.bit_length() - 1
                    for f in bits[k:]:
                        st.set_bit(f, 0)
            if a.lin is None:
                if l is None and k is None:
                    l = st.lin_of_bits(bits)
                if l is not None:
                    self.assume_rel(st, pred[1:], l - cb)
                return
        x, y = st.uview(a), st.uview(b)
        self.assume_rel(st, pred[1:], x - y)

    def check_ne(self, st, d):
        d = st.store.resolve(d)
        if d.t and st.store.prove(d) and st.store.prove(-d):
            raise Infeasible
        st.add_ne(d)

    def fresh_lin_bits(self, st, bits):
        """Linear form of a bit vector if it has a simple one."""
        bits = st.rbits(bits)
        n = len(bits)
        while n > 0 and bits[n - 1] == B0:
            n -= 1
        k = 0
        while k < n and bits[k] == B0:
            k += 1
        if k >= n:
            return ZERO
        f = bits[k]
        if f[0] == 0 and len(f[1]) == 1:
            (a, i0), = f[1]
            if all(c == 0 and fs == frozenset([(a, i0 + i)])
                   for i, (c, fs) in enumerate(bits[k:n])):
                hi = st.store.bounds(a)[1]
                if i0 == 0 and (1 << (n - k)) > hi:
                    return Lin.atom(a, 1 << k)
                if n - k <= 32:
                    return st.core_lin(bits[k:n]).scale(1 << k)
        return None

    # ------------------------------------------------------- instructions

    def cast(self, p, inst, v):
        """Returns value or list of (Path, value) when forking."""
        st = p.st
        op = inst.op
        to = inst.x
        if op == 'freeze':
            return v
        if isinstance(v, UndefV):
            return UNDEF
        if op == 'bitcast':
            return v
        if op == 'ptrtoint':
            if isinstance(v, NullV):
                return const(to.w, 0)
            if isinstance(v, PtrV):
                return IntV(to.w, v.reg.base + v.off)
            raise AnalysisError('ptrtoint')
        if op == 'inttoptr':
            return self.inttoptr(st, v)
        if op == 'zext' or op == 'sext':
            if isinstance(v, Cond):
                out = []
                for t in (True, False):
                    q = p.clone()
                    try:
                        self.assume(q.st, v, t)
                    except Infeasible:
                        continue
                    val = (1 if t else 0) if op == 'zext' else (-1 if t else 0)
                    out.append((q, const(to.w, val)))
                return out
            if v.lin is not None:
                l = st.uview(v) if op == 'zext' else st.sview(v)
                return IntV(to.w, l, None if v.bits is None else
                            self.ext_bits(st, v, to.w, op))
            return IntV(to.w, None, self.ext_bits(st, v, to.w, op))
        if op == 'trunc':
            if to.w == 1:
                if isinstance(v, Cond):
                    return v
                b = st.bits(v)[0]
                if not b[1]:
                    return TRUE if b[0] else FALSE
                return Cond('bit', b)
            if isinstance(v, PtrV):
                raise AnalysisError('truncated pointer')
            return IntV(to.w, v.lin, None if v.bits is None else v.bits[:to.w])
        raise AnalysisError(f'cast {op}')

    def ext_bits(self, st, v, w, op):
        bits = tuple(v.bits)
        fill = B0 if op == 'zext' else bits[-1]
        return (bits + (fill,) * w)[:w]

    def inttoptr(self, st, v):
        l = st.store.resolve(st.lin(v))
        if not l.t and l.c == 0:
            return NULL
        for reg in self.all_regions(st):
            b = reg.base
            (a, k), = b.t.items()
            if l.t.get(a) == k:
                return PtrV(reg, l - b)
            rb = st.store.resolve(b)
            if rb.t != b.t:
                d = st.store.resolve(l - b)
                if not any(x in rb.t for x in d.t):
                    return PtrV(reg, d)
        raise AnalysisError(f'pointer from the integer {l}')

    def all_regions(self, st):
        seen = set()
        for r in list(st.mem) + list(st.log) + list(self.regions.values()):
            if r not in seen:
                seen.add(r)
                yield r

    def step(self, p, inst, frame):
        """Execute one non-terminator; returns list of Paths."""
        st = p.st
        op = inst.op
        env = p.env
        if op == 'load':
            env[inst.res] = self.load(p, self.operand(p, ir.PTR, inst.args[0]),
                                      inst.ty)
            return None
        if op == 'store':
            self.store(p, self.operand(p, ir.PTR, inst.args[1]),
                       self.operand(p, inst.ty, inst.args[0]), inst.ty)
            return None
        if op == 'getelementptr':
            env[inst.res] = self.gep(p, inst.ty, [self.operand(p, t, a)
                                                  for t, a in inst.args])
            return None
        if op in ir.BIN:
            env[inst.res] = self.arith(p, inst,
                                       self.operand(p, inst.ty, inst.args[0]),
                                       self.operand(p, inst.ty, inst.args[1]))
            return None
        if op == 'icmp':
            a = self.operand(p, inst.ty, inst.args[0])
            b = self.operand(p, inst.ty, inst.args[1])
            if inst.ty.w == 1:
                raise AnalysisError('comparison of i1')
            env[inst.res] = Cond('cmp', a, b, inst.x)
            return None
        if op == 'fcmp':
            return self.fcmp(p, inst)
        if op in ir.CASTS:
            v = self.operand(p, inst.ty, inst.args[0])
            r = self.cast(p, inst, v)
            if isinstance(r, list):
                out = []
                for q, val in r:
                    q.env[inst.res] = val
                    out.append(q)
                return out
            env[inst.res] = r
            return None
        if op == 'alloca':
            if inst.x is not None:
                raise AnalysisError('variable length array')
            reg = Region(f'{frame.fn.name}.{inst.res[1:]}', 'obj',
                         Lin(self.mod.size(inst.ty)), ty=inst.ty,
                         align=16)
            frame.allocas.append(reg)
            st.cells(reg)
            for off, kind in self.find_coders(inst.ty):
                self.coders.append((reg, off, kind))
            env[inst.res] = PtrV(reg, ZERO)
            return None
        if op == 'select':
            c = self.operand(p, ir.I1, inst.args[0])
            out = []
            for t in (True, False):
                q = p.clone()
                try:
                    self.assume(q.st, c, t)
                except Infeasible:
                    continue
                q.env[inst.res] = self.operand(q, inst.ty, inst.args[1 if t else 2])
                out.append(q)
            return out
        if op == 'call':
            return self.call(p, inst, frame)
        raise AnalysisError(f'instruction {op} {inst.x if op == "unsupported" else ""}')

    def fcmp(self, p, inst):
        """Comparison of a floating point number with a constant, as ranges
        of the bits of the number."""
        w = inst.ty.w
        a = self.operand(p, inst.ty, inst.args[0])
        b = self.operand(p, inst.ty, inst.args[1])
        if isinstance(a, UndefV) or isinstance(b, UndefV):
            self.ob('uninit', False, 'branch on an undefined value')
            raise Infeasible
        sign, inf = 1 << (w - 1), {32: 0xff << 23, 64: 0x7ff << 52}[w]
        numbers = [(0, inf), (sign, sign + inf)]
        nan = [(inf + 1, sign - 1), (sign + inf + 1, 2 * sign - 1)]
        pred = inst.x
        if p.st.const_of(a) is not None and p.st.const_of(b) is None:
            a, b = b, a
            pred = pred.translate(str.maketrans('lg', 'gl'))
        c = p.st.const_of(b)
        if a is b or inst.args[0] == inst.args[1]:
            rel = {'eq': numbers, 'uno': nan}
        elif c is None:
            raise AnalysisError('comparison of floating point numbers')
        elif any(lo <= c <= hi for lo, hi in nan):
            rel = {'uno': numbers + nan}
        elif c & (sign - 1) == 0:
            rel = {'eq': [(0, 0), (sign, sign)], 'gt': [(1, inf)],
                   'lt': [(sign + 1, sign + inf)], 'uno': nan}
        else:
            m = c & (sign - 1)
            rel = {'eq': [(c, c)], 'uno': nan}
            far = [(m + 1, inf)]
            near = [(0, m - 1), (sign, sign + inf)]
            if c & sign:
                far, near = [tuple(x ^ sign for x in r) for r in far], \
                    [(sign, c - 1), (0, inf)]
            rel['lt' if c & sign else 'gt'] = far
            rel['gt' if c & sign else 'lt'] = near
        hold = {'oeq': ('eq',), 'ogt': ('gt',), 'oge': ('gt', 'eq'),
                'olt': ('lt',), 'ole': ('lt', 'eq'), 'one': ('lt', 'gt'),
                'ord': ('lt', 'eq', 'gt'), 'uno': ('uno',),
                'true': tuple(rel), 'false': ()}
        if pred not in hold:
            hold[pred] = hold['o' + pred[1:]] + ('uno',)
        out = []
        l = p.st.uview(a)
        for k, ranges in rel.items():
            for lo, hi in ranges:
                q = p.clone()
                try:
                    self.assume_ge(q.st, l - lo)
                    self.assume_ge(q.st, Lin(hi) - l)
                except Infeasible:
                    continue
                q.env[inst.res] = TRUE if k in hold[pred] else FALSE
                out.append(q)
        return out

    def call(self, p, inst, frame):
        target = self.operand(p, ir.PTR, inst.x)
        args = [self.operand(p, t, a) for t, a in inst.args]
        if not isinstance(target, FnV):
            self.ob('null', False, f'call through {target}')
            raise Infeasible
        name = target.name
        st = p.st
        if name.startswith('llvm.memcpy') or name in ('memcpy',):
            self.memcpy(p, args[0], args[1], args[2])
            ret = args[0]
        elif name.startswith('llvm.memmove') or name == 'memmove':
            self.memcpy(p, args[0], args[1], args[2], move=True)
            ret = args[0]
        elif name.startswith('llvm.memset') or name == 'memset':
            v = args[1]
            self.memset(p, args[0], v, args[2])
            ret = args[0]
        elif name == 'strlen':
            ret = self.strlen(p, args[0])
        elif name in self.callbacks:
            outs = self.callbacks[name](self, p, args)
            res = []
            for q, v in outs:
                if inst.res:
                    q.env[inst.res] = v
                res.append(q)
            return res
        elif name in self.mod.functions:
            outs = self.exec_function(self.mod.functions[name], args, st)
            res = []
            for s, v in outs:
                q = Path(s, dict(p.env))
                if inst.res:
                    q.env[inst.res] = v
                res.append(q)
            return res
        else:
            raise AnalysisError(f'call of unknown function {name}')
        if inst.res:
            p.env[inst.res] = ret
        return None

    def strlen(self, p, v):
        st = p.st
        v = self.deref(st, v, 'read')
        reg = v.reg
        if reg.kind == 'cstr' and not st.store.resolve(v.off).t \
                and st.store.resolve(v.off).c == 0:
            return IntV(64, reg.size - 1)
        if reg.kind == 'global' and reg.data is not None and not v.off.t:
            return const(64, reg.data.index(b'\0', v.off.c) - v.off.c)
        if reg.kind == 'cstr':
            # from inside the string
            off = st.store.resolve(v.off)
            self.ob('cstr_read', st.store.prove(off)
                    and st.store.prove(reg.size - off - 1), 'strlen past the end')
            return IntV(64, reg.size - 1 - off)
        self.ob('cstr_read', False, f'strlen of {reg}, not a string')
        return self.fresh('strlen', 64)

    # ----------------------------------------------------------- functions

    def exec_function(self, fn, args, st):
        if len(self.stack) > 60:
            raise AnalysisError('call depth')
        if sum(1 for f, _ in self.stack if f == fn.name) >= 3:
            raise AnalysisError(f'recursion in {fn.name}')
        self.analysed.add(fn.name)
        env = {}
        for (ty, name), v in zip(fn.params, args):
            env[name] = v
        if len(args) != len(fn.params):
            raise AnalysisError(f'{fn.name} called with {len(args)} arguments')
        cfg = self.cfg(fn)
        frame = Frame(fn, cfg, env)
        base = st.clone()
        ncoders = len(self.coders)
        self.stack.append((fn.name, fn.line))
        try:
            _, _, rets = self.run_region(frame, set(cfg.rpo), None,
                                         [(cfg.entry, Path(st, env))])
        finally:
            self.stack.pop()
        outs = []
        for q, v in rets:
            outs.append((q.st, v))
        if outs:
            outs = self.merge(base, outs, args)
        del self.coders[ncoders:]
        for s, v in outs:
            for r in frame.allocas:
                s.mem.pop(r, None)
                s.log.pop(r, None)
        return outs

    def run_region(self, frame, blocks, head, start):
        """Run from (block, path) starts inside `blocks`.

        Returns (paths back at head, [(block, path)] leaving, [(path, ret)]).
        """
        cfg = frame.cfg
        fn = frame.fn
        pending = {}
        for b, q in start:
            pending.setdefault(b, []).append(q)
        first = head is not None
        backs, exits, rets = [], [], []
        count = 0
        while pending:
            b = min(pending, key=lambda x: cfg.idx[x])
            paths = pending.pop(b)
            if b in cfg.loops and not (b == head):
                for q in paths:
                    ex, rt = self.exec_loop(frame, b, q)
                    rets += rt
                    for nb, x in ex:
                        if nb in blocks and nb != head:
                            pending.setdefault(nb, []).append(x)
                        elif nb == head:
                            backs.append(x)
                        else:
                            exits.append((nb, x))
                continue
            for q in paths:
                count += 1
                if count > self.max_paths:
                    raise AnalysisError(f'too many paths in {fn.name}')
                for kind, nb, x in self.exec_block(frame, b, q):
                    if kind == 'ret':
                        rets.append((x, nb))
                    elif nb == head:
                        backs.append(x)
                    elif nb in blocks:
                        pending.setdefault(nb, []).append(x)
                    else:
                        exits.append((nb, x))
        return backs, exits, rets

    def exec_block(self, frame, b, p):
        fn = frame.fn
        insts = fn.blocks[b]
        work = [(p, 0)]
        out = []
        while work:
            q, i = work.pop()
            try:
                alive = True
                while i < len(insts):
                    inst = insts[i]
                    if inst.line:
                        self.stack[-1] = (fn.name, inst.line)
                    if inst.op == 'phi':
                        i += 1
                        continue
                    if inst.op in ('br', 'condbr', 'switch', 'ret', 'unreachable'):
                        out += self.terminator(frame, b, q, inst)
                        alive = False
                        break
                    r = self.step(q, inst, frame)
                    i += 1
                    if r is not None:
                        if len(r) == 1:
                            q = r[0]
                            continue
                        for x in r:
                            work.append((x, i))
                        alive = False
                        break
                assert not alive
            except Infeasible:
                continue
        return out

    def edge(self, frame, src, dst, q):
        """Evaluate the phis of dst; returns paths (forks materialise i1)."""
        vals = []
        for inst in frame.fn.blocks[dst]:
            if inst.op != 'phi':
                break
            for v, lbl in inst.args:
                if lbl == src:
                    vals.append((inst.res, self.operand(q, inst.ty, v)))
                    break
            else:
                raise AnalysisError('phi without incoming edge')
        for r, v in vals:
            q.env[r] = v
        return q

    def terminator(self, frame, b, q, inst):
        if inst.op == 'ret':
            v = None
            if inst.args:
                v = self.operand(q, inst.ty, inst.args[0])
                if isinstance(v, Cond) and v.k != 'const':
                    out = []
                    for t in (True, False):
                        x = q.clone()
                        try:
                            self.assume(x.st, v, t)
                        except Infeasible:
                            continue
                        out.append(('ret', TRUE if t else FALSE, x))
                    return out
            return [('ret', v, q)]
        if inst.op == 'br':
            return [('br', inst.x[0], self.edge(frame, b, inst.x[0], q))]
        if inst.op == 'condbr':
            c = self.operand(q, ir.I1, inst.args[0])
            if isinstance(c, UndefV):
                self.ob('uninit', False, 'branch on an undefined value')
                raise Infeasible
            out = []
            for t, dst in ((True, inst.x[0]), (False, inst.x[1])):
                x = q.clone()
                try:
                    self.assume(x.st, c, t)
                except Infeasible:
                    continue
                out.append(('br', dst, self.edge(frame, b, dst, x)))
            return out
        if inst.op == 'switch':
            v = self.operand(q, inst.ty, inst.args[0])
            if isinstance(v, UndefV):
                self.ob('uninit', False, 'switch on an undefined value')
                raise Infeasible
            out = []
            d, cases = inst.x
            rest = q.clone()
            dead = False
            for cv, dst in cases:
                k = const(inst.ty.w, cv)
                x = q.clone()
                try:
                    self.assume_int(x.st, 'eq', v, k)
                    out.append(('br', dst, self.edge(frame, b, dst, x)))
                except Infeasible:
                    pass
                if not dead:
                    try:
                        self.assume_int(rest.st, 'ne', v, k)
                    except Infeasible:
                        dead = True
            if not dead:
                out.append(('br', d, self.edge(frame, b, d, rest)))
            return out
        if inst.op == 'unreachable':
            self.ob('unreachable', False, 'reaches unreachable code')
            return []
        raise AnalysisError(inst.op)

    # --------------------------------------------------------------- loops

    def exec_loop(self, frame, head, p):
        from .loops import exec_loop
        return exec_loop(self, frame, head, p)

    def merge(self, base, outs, args=()):
        from .merge import merge
        return merge(self, base, outs, args)

    # ------------------------------------------------------------- coders

    def coder_mode(self, st):
        """Partition key: is each coder object in an error state?"""
        key = []
        for reg, off, kind in self.coders:
            cells = st.mem.get(reg)
            if cells is None:
                key.append(None)
                continue
            so = self.dbg.off(kind[len('%struct.'):], 'size')
            e = cells.c.get(off + so)
            if e is None or not isinstance(e[1], IntV):
                key.append(None)
                continue
            l = st.sview(e[1])
            if st.store.prove(l):
                key.append('ok')
            elif st.store.prove(-l - 1):
                key.append('ab')
            else:
                key.append('?')
        return tuple(key)


def st_and(a, b):
    """An opaque name for the conjunction of two bit forms."""
    key = ('and',) + tuple(sorted((a, b), key=lambda f: (f[0], sorted(f[1]))))
    x = T.consed(key, f'and{len(T.atoms)}', 0, 1)
    return (0, frozenset([(x, 0)]))
