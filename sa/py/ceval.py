"""Paths through generated C functions.

The functions a generator makes hold no arithmetic: they load members of the
message, call the runtime library and branch on what they loaded or on what
a call returned.  Every path through such a function is enumerated over the
compiler's IR, with symbolic values for everything that is not a constant.
A path is cut at the head of a loop: what follows starts from a state in
which the message holds anything."""

from ..c import ir


class Unsupported(Exception):
    pass


MAX_PATHS = 20000


class Seg:
    """From an entry or loop head to a loop head or the end."""

    def __init__(self, start, end, decisions, events, stores, ret):
        self.start = start
        self.end = end
        self.decisions = decisions
        self.events = events        # [(callee, args, n)]
        self.stores = stores        # self memory: {off: (size, value)}
        self.ret = ret


class State:
    __slots__ = ('regs', 'frames', 'mem', 'stores', 'events', 'decisions',
                 'epoch', 'start', 'calls', 'order')

    def copy(self):
        s = State()
        s.regs = dict(self.regs)
        s.frames = [list(f) for f in self.frames]
        s.mem = dict(self.mem)
        s.stores = dict(self.stores)
        s.events = list(self.events)
        s.decisions = dict(self.decisions)
        s.epoch = self.epoch
        s.start = self.start
        s.calls = self.calls
        return s


class Eval:
    """One function."""

    def __init__(self, module, fn, pure=()):
        self.m = module
        self.fn = fn
        self.segs = []
        self.seen = {}
        self.steps = 0
        self.heads = {}
        self.frame_no = 0
        self.args = None

    def run(self):
        s = State()
        s.regs, s.frames, s.mem, s.stores = {}, [], {}, {}
        s.events, s.decisions, s.epoch, s.start = [], {}, 0, 'entry'
        s.calls = 0
        self.enter(s, self.fn, [('ptr', ('arg', i), 0) if t.k == 'ptr'
                                else ('arg', i)
                                for i, (t, _) in enumerate(self.fn.params)],
                   None)
        work = [s]
        while work:
            s = work.pop()
            work += self.step(s)
            if len(self.segs) + len(work) > MAX_PATHS:
                raise Unsupported(f'too many paths in {self.fn.name}')
        return self.segs

    # frame: [fn, id, block, prev, index, result register]

    def enter(self, s, fn, args, res):
        if len(s.frames) > 20:
            raise Unsupported(f'deep calls in {self.fn.name}')
        fid = (s.frames[-1][1] if s.frames else ()) + (
            (s.frames[-1][2], s.frames[-1][4]) if s.frames else ())
        for (t, name), v in zip(fn.params, args):
            s.regs[fid, name] = v
        s.frames.append([fn, fid, fn.order[0], None, 0, res])

    def loops(self, fn):
        if fn.name not in self.heads:
            cfg = ir.CFG(fn)
            heads = set()
            for b in fn.order:
                for t in succs(fn.blocks[b][-1]):
                    if cfg.dominates(t, b):
                        heads.add(t)
            self.heads[fn.name] = heads
        return self.heads[fn.name]

    def goto(self, s, label):
        """False when the path ends here."""
        label = label.lstrip('%')
        f = s.frames[-1]
        fn = f[0]
        if label not in fn.blocks and '%' + label in fn.blocks:
            label = '%' + label
        f[3], f[2], f[4] = f[2], label, 0
        # The phis read their values first.
        new = {}
        for i in fn.blocks[label]:
            if i.op != 'phi':
                break
            for v, lbl in i.args:
                if lbl.lstrip('%') == f[3].lstrip('%'):
                    new[f[1], i.res] = self.val(s, v, i.ty)
                    break
            else:
                raise Unsupported('phi')
        s.regs.update(new)
        if label in self.loops(fn):
            return self.at_head(s, f, label, new)
        return True

    def at_head(self, s, f, label, new):
        key = (f[1], label)
        self.finish(s, key, None)
        s.mem = {k: v for k, v in s.mem.items() if k[0][0] == 'alloca'}
        n = sum(1 for k in self.seen if k[0] == key)
        if n > 4:
            # Whatever the loop counts is anything from now on.
            new = {k: ('loop', key, k[1]) for k in new}
            s.regs.update(new)
        sig = (key, tuple(sorted((k[1], v) for k, v in new.items())),
               tuple(sorted((k, v) for k, v in s.mem.items()
                            if v[1][0] not in ('out', 'loop'))))
        if sig in self.seen:
            return False
        if n > 40:
            raise Unsupported(f'loop in {self.fn.name}')
        self.seen[sig] = True
        s.mem = {k: ((v[0], ('loop', key) + k) if v[1][0] in ('out', 'loop')
                     else v) for k, v in s.mem.items()}
        s.epoch += 1
        s.stores = {}
        s.events = []
        s.decisions = {}
        s.start = key
        return True

    def finish(self, s, end, ret):
        self.segs.append(Seg(s.start, end, s.decisions, s.events, s.stores,
                             ret))

    # values

    def val(self, s, v, ty):
        k = v[0]
        if k == 'r':
            try:
                return s.regs[s.frames[-1][1], v[1]]
            except KeyError:
                raise Unsupported(f'register {v[1]}')
        if k == 'c':
            return ('c', v[1])
        if k in ('null', 'zero'):
            return ('c', 0)
        if k == 'fp':
            return ('c', 0) if float_zero(v[1]) else ('fp', v[1])
        if k == 'g':
            return ('ptr', ('g', v[1].lstrip('@')), 0)
        if k == 'undef':
            return ('undef',)
        raise Unsupported(f'operand {v}')

    def step(self, s):
        """Runs until the path ends or forks."""
        while True:
            self.steps += 1
            if self.steps > 3000000:
                raise Unsupported(f'too many steps in {self.fn.name}')
            f = s.frames[-1]
            i = f[0].blocks[f[2]][f[4]]
            op = i.op
            if op == 'phi':
                f[4] += 1
            elif op == 'br':
                if not self.goto(s, i.x[0]):
                    return []
            elif op == 'condbr':
                out = []
                for st, t in self.decide_zero(s, self.val(s, i.args[0],
                                                          ir.I1)):
                    if self.goto(st, i.x[1] if t else i.x[0]):
                        out.append(st)
                return out
            elif op == 'switch':
                return self.switch(s, i)
            elif op == 'ret':
                v = self.val(s, i.args[0], i.ty) if i.args else None
                s.frames.pop()
                if not s.frames:
                    self.finish(s, 'end', v)
                    return []
                f = s.frames[-1]
                call = f[0].blocks[f[2]][f[4]]
                if call.res is not None:
                    s.regs[f[1], call.res] = v
                f[4] += 1
            elif op == 'call':
                self.call(s, i)
            elif op == 'unreachable':
                return []
            else:
                r = self.plain(s, i)
                if i.res is not None:
                    s.regs[f[1], i.res] = r
                f[4] += 1

    def plain(self, s, i):
        op = i.op
        if op == 'alloca':
            f = s.frames[-1]
            return ('ptr', ('alloca', f[1], i.res), 0)
        if op == 'load':
            return self.load(s, self.val(s, i.args[0], ir.PTR),
                             self.m.size(i.ty), i.ty)
        if op == 'store':
            self.store(s, self.val(s, i.args[1], ir.PTR), self.m.size(i.ty),
                       self.val(s, i.args[0], i.ty))
            return None
        if op == 'getelementptr':
            return self.gep(s, i)
        if op in ('bitcast', 'inttoptr', 'ptrtoint', 'freeze'):
            return self.val(s, i.args[0], i.ty)
        if op in ('zext', 'sext', 'trunc'):
            v = self.val(s, i.args[0], i.ty)
            if v[0] == 'c':
                return ('c', v[1])
            if op == 'trunc' and i.x.w == 1 or op == 'zext' and i.ty.w == 1:
                return v if v[0] != 'load' or v[3] == 1 else \
                    ('op', op, i.x.w, v)
            return ('op', op, i.x.w, v)
        if op == 'icmp':
            return self.icmp(s, i)
        if op == 'select':
            c = self.val(s, i.args[0], ir.I1)
            a, b = (self.val(s, x, i.ty) for x in i.args[1:])
            if c[0] == 'c':
                return a if c[1] else b
            return a if a == b else ('op', 'select', c, a, b)
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr',
                  'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
            a, b = (self.val(s, x, i.ty) for x in i.args)
            if a[0] == b[0] == 'c':
                f = {'add': lambda x, y: x + y, 'sub': lambda x, y: x - y,
                     'mul': lambda x, y: x * y, 'and': lambda x, y: x & y,
                     'or': lambda x, y: x | y, 'xor': lambda x, y: x ^ y,
                     'shl': lambda x, y: x << y}.get(op)
                if f:
                    return ('c', f(a[1], b[1]))
            return ('op', op, a, b)
        if op in ir.FBIN or op in ('fneg', 'fcmp', 'sitofp', 'uitofp',
                                   'fptosi', 'fptoui', 'fpext', 'fptrunc'):
            return ('op', op) + tuple(self.val(s, x, i.ty) for x in i.args)
        raise Unsupported(f'{op} in {s.frames[-1][0].name}')

    def gep(self, s, i):
        base = self.val(s, i.args[0][1], ir.PTR)
        if base[0] == 'c':
            raise Unsupported('constant address')
        if base[0] != 'ptr':
            off = 0
            region = ('at', base)
        else:
            region, off = base[1], base[2]
        ty = i.ty
        for n, (aty, a) in enumerate(i.args[1:]):
            v = self.val(s, a, aty)
            if v[0] != 'c':
                raise Unsupported('variable index')
            if n == 0:
                off += v[1] * self.m.size(ty) if ty.k != 'void' else v[1]
            elif ty.k == 'struct':
                off += self.m.layout(ty)[2][v[1]]
                ty = self.m.struct_fields(ty)[v[1]]
            else:
                ty = ty.el
                off += v[1] * self.m.size(ty)
        if region[0] == 'at' and off == 0:
            return region[1]
        return ('ptr', region, off)

    def icmp(self, s, i):
        a, b = (self.val(s, x, i.ty) for x in i.args)
        pred = i.x
        if a[0] == 'c' and b[0] == 'c':
            x, y = a[1], b[1]
            w = i.ty.w or 64
            if pred[0] == 'u':
                x, y = x % (1 << w), y % (1 << w)
            return ('c', int({'eq': x == y, 'ne': x != y}.get(
                pred, {'lt': x < y, 'le': x <= y, 'gt': x > y,
                       'ge': x >= y}.get(pred[1:], None))))
        if a[0] == 'c':
            a, b = b, a
            pred = {'eq': 'eq', 'ne': 'ne'}.get(
                pred, pred[0] + {'lt': 'gt', 'gt': 'lt', 'le': 'ge',
                                 'ge': 'le'}.get(pred[1:], ''))
        if a[0] == 'ptr' and b == ('c', 0):
            return ('c', int(pred == 'ne'))
        return ('icmp', pred, a, b)

    # decisions: {value: ('is', c) or ('not', frozenset)}

    def decide_zero(self, s, v):
        """[(state, v is zero)]"""
        if v[0] == 'c':
            return [(s, v[1] == 0)]
        if v[0] == 'icmp' and v[1] in ('eq', 'ne') and v[3][0] == 'c':
            eq = v[1] == 'eq'
            x = v[2]
            if x[0] == 'icmp':      # (a == b) != 0
                return [(st, z if not eq else not z) if v[3][1] == 0 else
                        (st, not z if not eq else z)
                        for st, z in self.decide_zero(s, x)]
            return [(st, is_ != eq)
                    for st, is_ in self.decide(s, x, v[3][1])]
        if v[0] == 'op' and v[1] == 'xor' and v[3] == ('c', 1):
            return [(st, not z) for st, z in self.decide_zero(s, v[2])]
        if v[0] == 'op' and v[1] in ('zext', 'sext'):
            return self.decide_zero(s, v[3])
        return self.decide(s, v, 0)

    def decide(self, s, x, c):
        """[(state, x == c)]"""
        if x[0] == 'op' and x[1] in ('zext', 'sext') and x[3][0] == 'icmp':
            return [(st, z if c == 0 else not z)
                    for st, z in self.decide_zero(s, x[3])]
        d = s.decisions.get(x)
        if d is not None and d[0] == 'is':
            return [(s, d[1] == c)]
        if d is not None and c in d[1]:
            return [(s, False)]
        t = s.copy()
        s.decisions[x] = ('is', c)
        t.decisions[x] = ('not', (d[1] if d else frozenset()) | {c})
        return [(s, True), (t, False)]

    def switch(self, s, i):
        v = self.val(s, i.args[0], i.ty)
        default, cases = i.x
        out = []
        if v[0] == 'c':
            for c, lbl in cases:
                if c == v[1]:
                    return [s] if self.goto(s, lbl) else []
            return [s] if self.goto(s, default) else []
        d = s.decisions.get(v)
        for c, lbl in cases:
            if d is not None and (d[0] == 'is' and d[1] != c or
                                  d[0] == 'not' and c in d[1]):
                continue
            t = s.copy()
            t.decisions[v] = ('is', c)
            if self.goto(t, lbl):
                out.append(t)
        if d is None or d[0] == 'not' or \
                d[1] not in [c for c, _ in cases]:
            if d is None or d[0] == 'not':
                s.decisions[v] = ('not', (d[1] if d else frozenset()) |
                                  {c for c, _ in cases})
            if self.goto(s, default):
                out.append(s)
        return out

    # memory

    def load(self, s, p, size, ty):
        if p[0] != 'ptr':
            return ('load', ('at', p), 0, size, s.epoch)
        region, off = p[1], p[2]
        if region[0] == 'g':
            return ('load', region, off, size, 0)
        hit = s.mem.get((region, off))
        if hit is not None and hit[0] == size:
            return hit[1]
        for (r, o), (n, v) in s.mem.items():
            if r == region and o < off + size and off < o + n:
                if v == ('c', 0) and o <= off and off + size <= o + n:
                    return v
                if v[0] in ('out', 'loop'):
                    return ('part', v, off - o, size)
                raise Unsupported('partial load')
        if region[0] == 'alloca':
            return ('undef',)
        return ('load', region, off, size, s.epoch)

    def store(self, s, p, size, v):
        if p[0] != 'ptr':
            raise Unsupported('store through an unknown pointer')
        region, off = p[1], p[2]
        for r, o in list(s.mem):
            n, old = s.mem[r, o]
            if r == region and o < off + size and off < o + n:
                del s.mem[r, o]
                if old == ('c', 0):
                    if o < off:
                        s.mem[r, o] = (off - o, old)
                    if o + n > off + size:
                        s.mem[r, off + size] = (o + n - off - size, old)
        s.mem[region, off] = (size, v)
        for r, o in list(s.stores):
            n, old = s.stores[r, o]
            if r == region and o < off + size and off < o + n:
                del s.stores[r, o]
                if old == ('c', 0):
                    if o < off:
                        s.stores[r, o] = (off - o, old)
                    if o + n > off + size:
                        s.stores[r, off + size] = (o + n - off - size, old)
        s.stores[region, off] = (size, v)

    def call(self, s, i):
        f = s.frames[-1]
        callee = i.x
        if callee[0] == 'r':
            t = self.val(s, callee, ir.PTR)
            if t[0] == 'ptr' and t[1][0] == 'g':
                callee = ('g', t[1][1])
            else:
                raise Unsupported(f'call through a pointer in {f[0].name}')
        name = callee[1].lstrip('@')
        args = [self.val(s, v, t) for t, v in i.args]
        if name.startswith('llvm.memset') or name == 'memset':
            if args[2][0] != 'c' or args[1] != ('c', 0):
                raise Unsupported('memset')
            self.store(s, args[0], args[2][1], ('c', 0))
            if i.res is not None:
                s.regs[f[1], i.res] = args[0]
            f[4] += 1
            return
        if name.startswith('llvm.memcpy') or name == 'memcpy':
            if args[2][0] != 'c':
                raise Unsupported('memcpy')
            self.copy(s, args[0], args[1], args[2][1])
            f[4] += 1
            return
        if name in self.m.functions:
            self.enter(s, self.m.functions[name], args, i.res)
            return
        n = s.calls = s.calls + 1
        n = (n, s.start)
        s.events.append((name, args, n))
        for a in args:
            if a[0] == 'ptr' and a[1][0] == 'alloca':
                for k in list(s.mem):
                    if k[0] == a[1]:
                        del s.mem[k]
                s.mem[a[1], 0] = (self.alloca_size(s, a[1]),
                                  ('out', n, name))
        if i.res is not None:
            s.regs[f[1], i.res] = ('call', n, name)
        f[4] += 1

    def copy(self, s, dst, src, n):
        if src[0] == 'ptr' and src[1][0] == 'g':
            g = self.m.globals.get(src[1][1]) or self.m.globals.get(
                '@' + src[1][1])
            raise Unsupported('memcpy from a global')
        parts = [(o, sz, v) for (r, o), (sz, v) in s.mem.items()
                 if r == src[1] and o < src[2] + n and src[2] < o + sz]
        if sum(p[1] for p in parts) != n:
            raise Unsupported('memcpy')
        for o, sz, v in parts:
            self.store(s, ('ptr', dst[1], dst[2] + o - src[2]), sz, v)

    def alloca_size(self, s, region):
        for f in s.frames:
            if f[1] == region[1]:
                for b in f[0].blocks.values():
                    for i in b:
                        if i.op == 'alloca' and i.res == region[2]:
                            return self.m.size(i.ty)
        return 1 << 20


def succs(i):
    if i.op == 'br':
        out = [i.x[0]]
    elif i.op == 'condbr':
        out = i.x
    elif i.op == 'switch':
        out = [i.x[0]] + [l for _, l in i.x[1]]
    else:
        return []
    return out


def float_zero(t):
    try:
        return float(t) == 0 and not t.startswith('-')
    except ValueError:
        return t.lower().startswith('0x') and int(t.lstrip('0xKLMHR') or '0',
                                                  16) == 0
