"""Loops.

Loops that a constant bounds are unrolled completely.  Every other loop is
summarised: slots (head phis, memory cells, ghosts) that change become either
a closed form init + step * g of the iteration number g, or a fresh atom
constrained by an inductive invariant, found by dropping candidate
inequalities until the remaining ones are preserved by every iteration.
"""

from .lin import Lin, T, Infeasible, ZERO, ONE, INF
from .state import (AnalysisError, IntV, PtrV, NullV, FnV, UndefV, Cond, B0, B1,
                    const, atom_bits, bits_const, State, Cells)
from .interp import Path, Obligations
from . import merge as mg

MAX_UNROLL = 14


def head_phis(frame, head):
    return [i.res for i in frame.fn.blocks[head] if i.op == 'phi']


def slots_of(it, frame, head, p, base):
    """slot -> value for everything that may change."""
    out = {}
    for r in head_phis(frame, head):
        out[('e', r)] = p.env[r]
    for reg, cells in p.st.mem.items():
        if base is not None and base.st.mem.get(reg) is cells:
            continue
        for o, (n, v) in cells.c.items():
            out[('m', reg, o, n)] = v
    for k, v in p.st.ghost.items():
        if isinstance(v, Lin):
            out[('g', k)] = v
    return out


def get_slot(p, s):
    if s[0] == 'e':
        return p.env.get(s[1])
    if s[0] == 'm':
        c = p.st.mem.get(s[1])
        if c is None:
            return None
        e = c.c.get(s[2])
        if e is None or e[0] != s[3]:
            return None
        return e[1]
    return p.st.ghost.get(s[1])


def set_slot(it, p, s, v):
    if s[0] == 'e':
        p.env[s[1]] = v
    elif s[0] == 'm':
        it.cell_store(p.st.cells(s[1]), s[2], s[3], v)
    else:
        p.st.ghost[s[1]] = v


def same(p1, v1, p2, v2):
    if v1 is v2:
        return True
    if isinstance(v1, Lin):
        return isinstance(v2, Lin) and p2.st.store.prove_eq(v1 - v2)
    if isinstance(v1, UndefV) and isinstance(v2, UndefV):
        return True
    if isinstance(v1, NullV) and isinstance(v2, NullV):
        return True
    if isinstance(v1, FnV) and isinstance(v2, FnV):
        return v1.name == v2.name
    if isinstance(v1, Cond) and isinstance(v2, Cond):
        return v1.k == 'const' and v2.k == 'const' and v1.a == v2.a
    if isinstance(v1, PtrV) and isinstance(v2, PtrV):
        return v1.reg is v2.reg and p2.st.store.prove_eq(v1.off - v2.off)
    if isinstance(v1, IntV) and isinstance(v2, IntV):
        if v1.w != v2.w:
            return False
        if v1.lin is not None and v2.lin is not None:
            if p2.st.store.prove_eq(v1.lin - v2.lin):
                return True
        if v1.bits is None and v2.bits is None:
            return False
        return p2.st.bits(v1) == p2.st.bits(v2)
    return False


def lin_slot(p, v):
    """Linear view of a slot value (signed for 32 bit and wider)."""
    if isinstance(v, Lin):
        return p.st.store.resolve(v)
    if isinstance(v, PtrV):
        return p.st.store.resolve(v.off)
    if isinstance(v, IntV):
        if v.w <= 8:
            return p.st.store.resolve(p.st.uview(v))
        return p.st.store.resolve(p.st.sview(v))
    return None


def zero_bits(p, v):
    if isinstance(v, IntV) and v.bits is not None:
        return sum(1 for b in p.st.rbits(v.bits) if b == B0)
    return 0


def is_const(p, v):
    return isinstance(v, IntV) and p.st.const_of(v) is not None


def constant_bounded(it, frame, head, p0, backs):
    """Should the loop be unrolled: do constants decide when it ends?"""
    if not backs:
        return True
    cfg = frame.cfg
    body = cfg.loops[head]
    # a head phi whose bit vector gains zeros every iteration
    for r in head_phis(frame, head):
        v0 = p0.env[r]
        if isinstance(v0, IntV) and (v0.bits is not None or not is_const(p0, v0)) \
                and all(isinstance(q.env[r], IntV)
                        and q.env[r].bits is not None for q in backs):
            z0 = sum(1 for b in p0.st.bits(v0) if b == B0)
            if all(isinstance(q.env[r], IntV)
                   and sum(1 for b in q.st.bits(q.env[r]) if b == B0) > z0
                   for q in backs):
                return True
    # an exit test between two values that are constant on every back edge
    for b in body:
        t = frame.fn.blocks[b][-1]
        if t.op != 'condbr':
            continue
        for i in frame.fn.blocks[b]:
            if i.op != 'icmp' or i.ty.k != 'int':
                continue
            ok = True
            varies = False
            for q in backs:
                vs = []
                for a in i.args:
                    if a[0] == 'c':
                        vs.append(a[1])
                    elif a[0] == 'r' and isinstance(q.env.get(a[1]), IntV):
                        vs.append(q.st.const_of(q.env[a[1]]))
                    else:
                        vs.append(None)
                if None in vs:
                    ok = False
                    break
                if any(a[0] == 'r' and a[1] in changing(frame, head) for a in i.args):
                    varies = True
            if ok and varies and exits_loop(frame, body, b, i.res):
                return True
    return False


_changing = {}


def changing(frame, head):
    """Registers computed from head phis inside the loop."""
    key = (frame.fn.name, head, id(frame.fn))
    r = _changing.get(key)
    if r is None:
        r = set(head_phis(frame, head))
        body = frame.cfg.loops[head]
        grew = True
        while grew:
            grew = False
            for b in frame.cfg.rpo:
                if b not in body:
                    continue
                for i in frame.fn.blocks[b]:
                    if i.res and i.res not in r and i.op not in ('call', 'load'):
                        ops = []
                        for a in i.args:
                            x = a
                            if isinstance(a, tuple) and len(a) == 2 and \
                                    isinstance(a[0], tuple):
                                x = a[0]
                            elif isinstance(a, tuple) and len(a) == 2 and \
                                    hasattr(a[0], 'k'):
                                x = a[1]
                            if x and x[0] == 'r':
                                ops.append(x[1])
                        if any(o in r for o in ops):
                            r.add(i.res)
                            grew = True
        _changing[key] = r
    return r


def exits_loop(frame, body, b, res):
    """Is the comparison (transitively) used to leave the loop?"""
    used = {res}
    grew = True
    while grew:
        grew = False
        for x in body:
            for i in frame.fn.blocks[x]:
                if i.res in used:
                    continue
                for a in i.args:
                    y = a
                    if isinstance(a, tuple) and len(a) == 2 and isinstance(a[0], tuple):
                        y = a[0]
                    if isinstance(y, tuple) and len(y) == 2 and y[0] == 'r' \
                            and y[1] in used and i.res:
                        used.add(i.res)
                        grew = True
    for x in body:
        t = frame.fn.blocks[x][-1]
        if t.op == 'condbr' and t.args[0][0] == 'r' and t.args[0][1] in used:
            if any(s not in body for s in t.x):
                return True
            # `a && b` lowers to a branch to the merge of the condition
            if t.args[0][1] == res and any(
                    i.op == 'phi' and i.ty.w == 1 and i.res != res and
                    any(v[0] == 'c' and pred == x for v, pred in i.args) and
                    exits_loop(frame, body, s, i.res)
                    for s in t.x for i in frame.fn.blocks[s]):
                return True
    return False


class Trial:
    """Obligations of a pass, kept only when the pass is final."""

    def __init__(self, it):
        self.it = it

    def __enter__(self):
        self.saved = self.it.obs
        self.it.obs = Obligations()
        self.nloops = len(self.it.loops)
        return self

    def __exit__(self, *a):
        self.mine = self.it.obs
        self.it.obs = self.saved
        self.myloops = self.it.loops[self.nloops:]
        del self.it.loops[self.nloops:]
        return False

    def accept(self):
        self.it.obs.merge(self.mine)
        self.it.loops += self.myloops


def run_body(it, frame, head, p):
    return it.run_region(frame, frame.cfg.loops[head], head, [(head, p)])


def exec_loop(it, frame, head, p, visited=()):
    # first iteration, exactly
    p0 = p.clone()
    with Trial(it) as t:
        backs, exits, rets = run_body(it, frame, head, p.clone())
    if not backs:
        t.accept()
        return exits, rets
    if constant_bounded(it, frame, head, p0, backs):
        t.accept()
        n = 1
        work = backs
        while work:
            n += 1
            if n > MAX_UNROLL:
                break
            nxt = []
            for q in work:
                b, e, r = run_body(it, frame, head, q)
                nxt += b
                exits += e
                rets += r
            work = nxt
            if len(work) > 64:
                raise AnalysisError('unrolling diverges')
        if not work:
            it.loops.append({'fn': frame.fn.name, 'head': head,
                             'kind': 'unrolled', 'iterations': n,
                             'line': loop_line(frame, head)})
            return exits, rets
        # not bounded after all: summarise what remains
        for q in work:
            e, r = summarise(it, frame, head, q, visited)
            exits += e
            rets += r
        return exits, rets
    return summarise(it, frame, head, p0, visited, backs)


def loop_line(frame, head):
    for i in frame.fn.blocks[head]:
        if i.line:
            return i.line
    return None


def part_key(it, frame, head, p):
    """Which head state does a path belong to?"""
    key = [it.coder_mode(p.st)]
    for r in head_phis(frame, head):
        v = p.env[r]
        if isinstance(v, (NullV, UndefV, Cond)):
            key.append((r, type(v).__name__, v.a if isinstance(v, Cond) else None))
        elif isinstance(v, IntV) and v.w <= 8 and is_const(p, v):
            key.append((r, p.st.const_of(v)))
        elif isinstance(v, PtrV):
            key.append((r, id(v.reg)))
    return tuple(key)


def terms(it, frame, head, p, changed):
    """Linear forms that candidate bounds may mention."""
    out = [ZERO, Lin(-1)]
    seen = {ZERO, Lin(-1)}

    def add(v):
        if v is None:
            return
        l = lin_slot(p, v)
        if l is None or l in seen or len(l.t) > 3:
            return
        seen.add(l)
        out.append(l)
    for reg, cells in p.st.mem.items():
        if reg.kind != 'obj':
            continue
        for o, (n, v) in cells.c.items():
            if ('m', reg, o, n) in changed or n not in (4, 8):
                continue
            if isinstance(v, IntV) and (v.lin is not None or n == 4):
                add(v)
    body = frame.cfg.loops[head]
    for b in body:
        for i in frame.fn.blocks[b]:
            if i.op == 'icmp' and i.ty.k == 'int':
                for a in i.args:
                    if a[0] == 'r' and isinstance(p.env.get(a[1]), IntV) \
                            and ('e', a[1]) not in changed:
                        add(p.env[a[1]])
    for k, v in p.st.ghost.items():
        if isinstance(v, Lin) and ('g', k) not in changed:
            add(v)
    return out[:24]


def summarise(it, frame, head, p0, visited, backs=None):
    """Returns exits, rets of a loop entered with p0."""
    key0 = part_key(it, frame, head, p0)
    if key0 in visited:
        raise AnalysisError(f'loop of {frame.fn.name} alternates between modes')
    if len(visited) > 6:
        raise AnalysisError(f'loop of {frame.fn.name}: too many modes')
    if backs is None:
        with Trial(it):
            backs, _, _ = run_body(it, frame, head, p0.clone())
    it.fresh_n += 1
    g = T.new(f'g{it.fresh_n}', 0, (1 << 63))
    nlimit = len(T.atoms)
    G = Lin.atom(g)

    # what changes?
    changed = {}          # slot -> ('closed', step) | ('havoc',)
    dead = set()
    logs = set()

    def note_changes(h, q, closed_guess):
        grew = False
        s0 = slots_of(it, frame, head, q, None)
        allslots = set(s0)
        for s in slots_of(it, frame, head, p0, None):
            allslots.add(s)
        for s in allslots:
            hv = get_slot(h, s)
            qv = get_slot(q, s)
            if hv is None:
                # not present at the head: dead at the head (or uninitialised)
                if s not in dead:
                    dead.add(s)
                    grew = True
                continue
            if qv is None:
                if changed.get(s) != ('lost',):
                    changed[s] = ('lost',)
                    grew = True
                continue
            if s in changed and changed[s][0] in ('havoc', 'lost', 'undef'):
                continue
            if s in changed and changed[s][0] == 'closed':
                d = lin_delta(q, qv, hv)
                if d is None or not q.st.store.prove_eq(d - changed[s][1]):
                    changed[s] = ('havoc',)
                    grew = True
                continue
            if same(h, hv, q, qv):
                continue
            if isinstance(hv, UndefV):
                changed[s] = ('undef',)
                grew = True
                continue
            d = lin_delta(q, qv, hv)
            if d is not None and all(a < nlimit and stable(a) for a in d.t):
                changed[s] = ('closed', d)
            else:
                changed[s] = ('havoc',)
            grew = True
        for reg, log in q.st.log.items():
            if len(log) != len(h.st.log.get(reg, ())) and reg not in logs:
                logs.add(reg)
                grew = True
        return grew

    def stable(a):
        fs = T.factors(a)
        for f in fs:
            k = T.atoms[f].key
            if k is not None and k[0] in ('vlen', 'val', 'vl', 'in', 'bitsval'):
                return False
        return True

    def lin_delta(q, qv, hv):
        if isinstance(qv, PtrV) and (not isinstance(hv, PtrV) or hv.reg is not qv.reg):
            return None
        a, b = lin_slot(q, qv), lin_slot(q, hv)
        if a is None or b is None:
            return None
        if isinstance(qv, IntV) and qv.w <= 8:
            return None
        return q.st.store.resolve(a - b)

    mine = [q for q in backs if part_key(it, frame, head, q) == key0]
    for q in mine:
        note_changes(p0, q, True)

    cands = None
    rounds = 0
    nlim_fresh = {}
    cursor = None
    while True:
        rounds += 1
        if rounds > 60:
            raise AnalysisError(f'no invariant for the loop of {frame.fn.name}')
        h, xs = generalise(it, frame, head, p0, changed, dead, logs, G)
        if cursor is not None:
            cursor = dict(cursor, c=lin_slot(h, get_slot(h, cursor['slot'])))
            cursor_hook = it.hooks.get('cursor')
            if cursor_hook is not None:
                cursor_hook(it, p0, h, cursor)
        if cands is None or set(xs) != set(cands[1]):
            clist = candidates(it, frame, head, p0, h, xs, changed, nlim_fresh)
            cands = (clist, list(xs))
            dropped = set()
        live = [c for i, c in enumerate(cands[0]) if i not in dropped]
        ok = True
        try:
            for cid, f in live:
                l = f(h)
                if l is not None:
                    h.st.store.add_ge(l)
        except Infeasible:
            # cannot hold at entry with a contradiction: candidates hold at p0
            raise AnalysisError('contradictory candidates')
        hh = h.clone()
        it.loop_stack.append({'g': G, 'head': h, 'fn': frame.fn.name,
                              'p0': p0, 'changed': dict(changed),
                              'cursor': cursor})
        with Trial(it) as t:
            backs, exits, rets = run_body(it, frame, head, h.clone())
        it.loop_stack.pop()
        mine = [q for q in backs if part_key(it, frame, head, q) == key0]
        grew = False
        for q in mine:
            if note_changes(hh, q, False):
                grew = True
        if grew:
            cands = None
            continue
        bad = False
        for i, (cid, f) in enumerate(cands[0]):
            if i in dropped:
                continue
            for q in mine:
                l = f(q)
                if l is None:
                    continue
                # closed forms: g grows by one
                l = shift(l, g, xs)
                if not q.st.store.prove(l):
                    dropped.add(i)
                    bad = True
                    break
        if bad:
            continue
        if cursor is None and mine:
            cursor = find_cursor(it, hh, mine, p0, G, changed)
            if cursor is not None:
                cands = None
                continue
        break
    t.accept()
    invs = [cands[0][i][0] for i in range(len(cands[0])) if i not in dropped]
    rank = ranking(it, frame, head, hh, mine, p0)
    it.stack[-1] = (frame.fn.name, loop_line(frame, head) or frame.fn.line)
    if mine:
        it.ob('progress', rank is not None,
              'no bounded quantity decreases in every iteration of the loop')
    info = {'fn': frame.fn.name, 'head': head, 'kind': 'summarised',
            'line': loop_line(frame, head), 'rounds': rounds,
            'closed': sum(1 for v in changed.values() if v[0] == 'closed'),
            'havoc': sum(1 for v in changed.values() if v[0] == 'havoc'),
            'invariants': invs, 'ranking': rank, 'path': list(it.stack),
            'g': g, 'p0': p0, 'h': hh, 'backs': mine, 'logs': logs,
            'mode': key0[0], 'nlimit': nlimit}
    it.loops.append(info)
    info['cursor'] = cursor
    if cursor is not None:
        end_facts(it, cursor, G, hh, exits, rets, backs)
    for reg in logs:
        for _, q in exits:
            fix_log(q, reg, info)
        for q, _ in rets:
            fix_log(q, reg, info)
    # other modes
    for q in backs:
        if part_key(it, frame, head, q) != key0:
            for reg in logs:
                fix_log(q, reg, info)
            e, r = exec_loop(it, frame, head, q, visited + (key0,))
            exits = exits + e
            rets = rets + r
    return exits, rets


def fix_log(q, reg, info):
    log = q.st.log.get(reg)
    if log is None:
        return
    out = []
    for e in log:
        if e[2][0] == 'rep' and e[2][1] == info['g']:
            cp = copy_loop(info, reg)
            if cp is not None:
                e = (cp[0], q.st.store.resolve(Lin.atom(info['g'])),
                     ('copy', cp[1], cp[2]))
            else:
                e = (e[0], e[1], ('rep', info['g'], info))
        out.append(e)
    q.st.log[reg] = tuple(out)


def copy_loop(info, reg):
    """(first, source, its first) of a loop that copies a byte per iteration
    to reg, upwards."""
    cache = info.setdefault('copies', {})
    if reg not in cache:
        cache[reg] = find_copy(info, reg)
    return cache[reg]


def find_copy(info, reg):
    G = Lin.atom(info['g'])
    base = len(info['h'].st.log.get(reg, ()))
    res = None
    for q in info['backs']:
        new = [e for e in q.st.log.get(reg, ())[base:]
               if not (e[1] == ZERO and e[2][0] != 'rep')]
        if len(new) != 1:
            return None
        off, n, c = new[0]
        if q.st.store.resolve(n) != Lin(1):
            return None
        if c[0] == 'bytes' and len(c[1]) == 1:
            bits = c[1][0]
        elif c[0] == 'val' and isinstance(c[1], IntV) and c[1].w == 8 \
                and c[1].bits is not None:
            bits = c[1].bits
        else:
            return None
        if bits[0][0] or len(bits[0][1]) != 1:
            return None
        (a, i), = bits[0][1]
        data = T.atoms[a].data
        if i != 0 or T.atoms[a].key[0] not in ('in', 'cstr') or data is None \
                or tuple(bits) != atom_bits(a, 8):
            return None
        src, so = data
        d = q.st.store.resolve(off - G)
        s = q.st.store.resolve(so - G)
        if any(x >= info['nlimit'] for l in (d, s) for x in l.t):
            return None
        if res is None:
            res = (d, src, s)
        elif res != (d, src, s):
            return None
    return res


def shift(l, g, xs):
    return l


def generalise(it, frame, head, p0, changed, dead, logs, G):
    h = p0.clone()
    xs = {}
    for s, kind in changed.items():
        v0 = get_slot(p0, s)
        if kind[0] == 'lost':
            if s[0] == 'm':
                h.st.cells(s[1]).c.pop(s[2], None)
            continue
        if kind[0] == 'undef':
            continue
        if kind[0] == 'closed':
            l = lin_slot(p0, v0) + kind[1].mul(G)
            nv = relin(v0, l)
            if isinstance(nv, IntV):
                # the value is in range: it has been stored in every iteration
                w = nv.w
                h.st.store.add_ge(l + (1 << (w - 1)))
                h.st.store.add_ge(Lin((1 << (w - 1)) - 1) - l)
            set_slot(it, h, s, nv)
            xs[s] = ('closed', l)
            continue
        nm = s[1] if s[0] == 'e' else f'{s[1]}+{s[2]}' if s[0] == 'm' else s[1][0]
        it.fresh_n += 1
        if isinstance(v0, IntV) and (v0.w <= 8 or (v0.lin is None)):
            a = T.new(f'{nm}~{it.fresh_n}', 0, (1 << v0.w) - 1)
            nv = IntV(v0.w, None, atom_bits(a, v0.w))
        elif isinstance(v0, IntV):
            a = T.new(f'{nm}~{it.fresh_n}', -(1 << (v0.w - 1)), (1 << (v0.w - 1)) - 1)
            nv = IntV(v0.w, Lin.atom(a))
        elif isinstance(v0, PtrV):
            a = T.new(f'{nm}~{it.fresh_n}')
            nv = PtrV(v0.reg, Lin.atom(a))
        elif isinstance(v0, Lin):
            a = T.new(f'{nm}~{it.fresh_n}')
            nv = Lin.atom(a)
        else:
            raise AnalysisError(f'loop of {frame.fn.name}: {s} changes from {v0}')
        set_slot(it, h, s, nv)
        xs[s] = ('havoc', a)
    for s in dead:
        if s[0] == 'm':
            c = h.st.mem.get(s[1])
            if c is not None and s[2] in c.c and c.c[s[2]][0] == s[3]:
                h.st.cells(s[1]).c.pop(s[2], None)
    (ga, _), = G.t.items()
    for reg in logs:
        h.st.log[reg] = p0.st.log.get(reg, ()) + ((ZERO, ZERO, ('rep', ga)),)
    return h, xs


def relin(v0, l):
    if isinstance(v0, IntV):
        return IntV(v0.w, l)
    if isinstance(v0, PtrV):
        return PtrV(v0.reg, l)
    return l


def candidates(it, frame, head, p0, h, xs, changed, cache):
    """Inequalities between slots that hold at entry, as functions of a path."""
    out = []
    ts = terms(it, frame, head, p0, changed)
    names = {}

    def val(s):
        def f(q):
            v = get_slot(q, s)
            return None if v is None else lin_slot(q, v)
        return f
    lin0 = {}
    for s, x in xs.items():
        v0 = get_slot(p0, s)
        l0 = lin_slot(p0, v0)
        if l0 is None:
            continue
        lin0[s] = l0
    for s in lin0:
        if xs[s][0] != 'havoc' and xs[s][0] != 'closed':
            continue
        f = val(s)
        l0 = lin0[s]
        for t in ts + [l0]:
            for sign in (1, -1):
                d = (l0 - t).scale(sign)
                if p0.st.store.prove(d):
                    out.append((f'{sname(s)} {">=" if sign > 0 else "<="} {t}',
                                bound(f, t, sign)))
    # pairs
    keys = [s for s in lin0]
    for i, s in enumerate(keys):
        for r in keys[i + 1:]:
            if xs[s][0] == 'closed' and xs[r][0] == 'closed':
                continue
            fs, fr = val(s), val(r)
            # x - y == x0 - y0 and x + y == x0 + y0
            for k in (1, -1):
                c = lin0[s] - lin0[r].scale(k)
                for sign in (1, -1):
                    out.append((f'{sname(s)} {"-" if k > 0 else "+"} {sname(r)} '
                                f'{">=" if sign > 0 else "<="} {c}',
                                pair(fs, fr, k, c, sign)))
            # x <= y
            d = lin0[s] - lin0[r]
            for sign in (1, -1):
                if p0.st.store.prove(d.scale(sign)):
                    out.append((f'{sname(s)} {">=" if sign > 0 else "<="} '
                                f'{sname(r)}', pair(fs, fr, 1, ZERO, sign)))
    for c in it.hooks.get('candidates', ()):
        out += c(it, frame, head, p0, h, xs, val)
    return out


def sname(s):
    if s[0] == 'e':
        return s[1]
    if s[0] == 'm':
        return f'{s[1]}+{s[2]}'
    return str(s[1][0])


def bound(f, t, sign):
    def g(q):
        l = f(q)
        return None if l is None else (l - t).scale(sign)
    return g


def pair(fs, fr, k, c, sign):
    def g(q):
        a, b = fs(q), fr(q)
        if a is None or b is None:
            return None
        return (a - b.scale(k) - c).scale(sign)
    return g


def ranking(it, frame, head, h, backs, p0):
    """A slot difference that decreases and is bounded below at every back edge."""
    if not backs:
        return 'no iteration follows another'
    vals = {}
    for r in head_phis(frame, head):
        vals[('e', r)] = lin_slot(h, h.env[r]) if isinstance(h.env[r], (IntV, PtrV)) \
            else None
    for reg, cells in h.st.mem.items():
        for o, (n, v) in cells.c.items():
            if n in (4, 8) and isinstance(v, IntV):
                vals[('m', reg, o, n)] = lin_slot(h, v) if v.lin is not None else None
    ch = []
    for s, l in vals.items():
        if l is None:
            continue
        if any(get_slot(q, s) is None or not same(h, get_slot(h, s), q, get_slot(q, s))
               for q in backs):
            ch.append(s)
    stab = [(s, l) for s, l in vals.items() if l is not None and s not in ch]
    stab.append((None, ZERO))
    # loop-invariant registers used in comparisons
    for b in frame.cfg.loops[head]:
        for i in frame.fn.blocks[b]:
            if i.op == 'icmp' and i.ty.k == 'int':
                for a in i.args:
                    if a[0] == 'r' and a[1] in h.env and isinstance(h.env[a[1]], IntV) \
                            and h.env[a[1]].lin is not None \
                            and ('e', a[1]) not in ch:
                        stab.append((('e', a[1]), lin_slot(h, h.env[a[1]])))
    for s in ch:
        x = vals[s]
        for sign in (1, -1):
            # decreasing (sign=1) or increasing (-1) by at least one
            dec = True
            for q in backs:
                v = get_slot(q, s)
                l = lin_slot(q, v) if v is not None else None
                if l is None or not q.st.store.prove((x - l).scale(sign) - 1):
                    dec = False
                    break
            if not dec:
                continue
            for r, t in stab:
                if all(q.st.store.prove((x - t).scale(sign)) for q in backs):
                    return (f'{sname(s)} {"decreases" if sign > 0 else "increases"} '
                            f'and is bounded by {t}')
    return None


def find_cursor(it, h, backs, p0, G, changed):
    """A decoder position that steps over one item per iteration."""
    for reg, off, kind in it.coders:
        if not kind.endswith('decoder_t'):
            continue
        name = kind[len('%struct.'):]
        po = off + it.dbg.off(name, 'pos')
        so = off + it.dbg.off(name, 'size')
        bo = off + it.dbg.off(name, 'buf_p')
        slot = ('m', reg, po, 4)
        ss = ('m', reg, so, 4)
        if slot not in changed or ss in changed:
            continue
        bufp = get_slot(h, ('m', reg, bo, 8))
        if not isinstance(bufp, PtrV) or bufp.reg.kind != 'in':
            continue
        c = get_slot(h, slot)
        size = get_slot(h, ss)
        if not isinstance(c, IntV) or not isinstance(size, IntV):
            continue
        st = h.st
        cl = lin_slot(h, c)
        init = lin_slot(p0, get_slot(p0, slot))
        end = lin_slot(h, size)
        base = st.store.resolve(bufp.off)
        if changed[slot][0] == 'closed':
            k = changed[slot][1]
            if k.t or k.c not in (4, 8):
                continue
            a = T.consed(('nf', k.c, bufp.reg.name, (base + init).key(),
                          (base + end).key()), f'NF{k.c}#{len(T.atoms)}', 0, 1 << 31)
            return {'kind': 'fixed', 'step': k.c, 'slot': slot, 'c': cl,
                    'base': base, 'reg': bufp.reg, 'init': init, 'end': end,
                    'n': a, 'coder': (reg, off, kind)}
        ok = True
        for q in backs:
            ql = lin_slot(q, get_slot(q, slot))
            d = q.st.store.resolve(ql - cl)
            va = T.cons.get(('vlen', bufp.reg.name,
                             q.st.store.resolve(base + cl).key()))
            if va is None or not q.st.store.prove_eq(d - Lin.atom(va)):
                ok = False
                break
        if ok:
            a = T.consed(('nv', bufp.reg.name, (base + init).key(),
                          (base + end).key()), f'NV#{len(T.atoms)}', 0, 1 << 31)
            return {'kind': 'varint', 'slot': slot, 'c': cl, 'base': base,
                    'reg': bufp.reg, 'init': init, 'end': end, 'n': a,
                    'coder': (reg, off, kind)}
    return None


def cursor_axiom(it, st, reg, start):
    """A varint is read at `start`: one more item of the sequence."""
    for l in it.loop_stack:
        cur = l.get('cursor')
        if cur is None or cur['kind'] != 'varint' or cur['reg'] is not reg:
            continue
        if st.store.prove_eq(start - cur['base'] - cur['c']) \
                and st.store.prove(cur['end'] - cur['c'] - 1):
            st.store.add_ge(Lin.atom(cur['n']) - l['g'] - 1)


def end_facts(it, cur, G, h, exits, rets, backs):
    """The number of items when the loop has ended.

    NV(start, end) is the number of varints read one after the other from
    start until end is reached or one of them cannot be read (which counts).
    """
    reg, off, kind = cur['coder']
    name = kind[len('%struct.'):]
    N = Lin.atom(cur['n'])
    for q in [x for _, x in exits] + [x for x, _ in rets] + backs:
        st = q.st
        v = get_slot(q, cur['slot'])
        if v is None or not isinstance(v, IntV):
            continue
        l = lin_slot(q, v)
        try:
            if st.store.prove_eq(l - cur['end']) and st.store.prove_eq(l - cur['c']):
                if cur['kind'] == 'varint':
                    st.store.add_eq(N - G)
                continue
            if cur['kind'] == 'varint':
                va = T.cons.get(('vlen', cur['reg'].name, st.store.resolve(
                    cur['base'] + cur['c']).key()))
                if va is None:
                    continue
                # this iteration's varint cannot be read
                if not st.maybe([Lin(10, {va: -1}),
                                 cur['end'] - cur['c'] - Lin.atom(va)]):
                    st.store.add_eq(N - G - 1)
        except Infeasible:
            continue
