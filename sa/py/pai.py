"""Abstract interpreter for Python source.

It evaluates the syntax trees of the project over the abstract values in
values.py; nothing of the project is executed.  Unknown conditions are
explored both ways.  A loop over a list of unknown length is run once per
case of its elements with everything it changes made unknown; what it adds to
lists and strings becomes one Rep segment, so the result describes the lists
and strings for any number of elements.
"""

import ast
import itertools
import os
import string as string_module

from .values import (Sym, Rep, Source, Join, Str, Obj, List, Dict, Class, Func,
                     Bound, Descriptor, Builtin, Ext, Module, Unsupported,
                     Mutable, concat, key, short, _counter)
from . import builtins_ as B

MAX_PATHS = 4000
MAX_DEPTH = 60


class PyExc(Exception):
    """An exception raised by the interpreted program."""

    def __init__(self, value):
        super().__init__(short(value))
        self.value = value


class _Return(Exception):
    def __init__(self, value):
        self.value = value


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


UNSET = object()


class Frame(Mutable):
    def __init__(self, parent, globals_, func=None):
        super().__init__()
        self.vars = {}
        self.parent = parent
        self.globals = globals_
        self.func = func
        self.yields = None
        self.names_global = set()
        self.names_nonlocal = set()


class Context:
    """Decisions taken while one piece of code is explored."""

    def __init__(self):
        self.path = []
        self.pos = 0
        self.facts = {}
        self.order = []

    def restart(self):
        self.pos = 0
        self.facts = {}
        self.order = []

    def advance(self):
        while self.path and not self.path[-1][1]:
            self.path.pop()
        if not self.path:
            return False
        self.path[-1] = (self.path[-1][0], False)
        return True

    def decisions(self):
        return tuple(self.order)


class Interp:
    UNSET = UNSET
    locals_of = None
    concrete = False            # all that is recursed on is there
    dead_names = frozenset()

    def __init__(self, root, package='pbtools', ext=None, ext_raises=False):
        self.root = root
        self.dead = {}
        self.package = package
        self.modules = {}
        self.journal = []
        self.contexts = [Context()]
        self.depth = 0
        self.events = List()
        self.ext = dict(B.EXT)
        self.ext.update(ext or {})
        self.ext_raises = ext_raises
        self.builtins = B.builtins(self)
        self.where = None
        self.analysed = set()
        self.loop_sites = set()
        self.paths = 0
        self.current_exc = []
        self.handlers = 0
        self.call_hooks = {}
        self.updates = {}       # how loops change variables

    # -- modules ---------------------------------------------------------

    def module(self, name):
        """A module of the project by its dotted name."""
        if name in self.modules:
            return self.modules[name]
        base = os.path.join(self.root, *name.split('.'))
        file = base + '.py'
        if os.path.isdir(base):
            file = os.path.join(base, '__init__.py')
        if not os.path.exists(file):
            raise Unsupported(f'no module {name}')
        with open(file, encoding='utf-8') as fin:
            tree = ast.parse(fin.read())
        mod = Module(name, os.path.relpath(file, self.root))
        self.modules[name] = mod
        frame = Frame(None, mod)
        frame.vars = mod.vars
        mod.vars['__name__'] = name
        mod.vars['__file__'] = file
        mod.frame = frame
        mod.is_package = file.endswith('__init__.py')
        self.block(tree.body, frame)
        return mod

    def import_from(self, mod, node):
        name = node.module or ''
        if node.level:
            parts = mod.name.split('.')
            if not mod.is_package:
                parts = parts[:-1]
            if node.level > 1:
                parts = parts[:-(node.level - 1)]
            name = '.'.join(parts + ([name] if name else []))
        return name

    def is_project(self, name):
        return name == self.package or name.startswith(self.package + '.')

    def import_name(self, name, item):
        if self.is_project(name):
            m = self.module(name)
            if item in m.vars:
                return m.vars[item]
            return self.module(f'{name}.{item}')
        return self.ext_value(f'{name}.{item}')

    def ext_value(self, path):
        v = self.ext.get(path)
        if v is not None and not callable(v):
            return v
        if isinstance(v, type(None)):
            c = B.ext_constant(path)
            if c is not None:
                return c
        return Ext(path)

    # -- journal ---------------------------------------------------------

    def set_var(self, frame, name, value):
        self.journal.append(('var', frame, name, frame.vars.get(name, UNSET)))
        frame.vars[name] = value

    def set_attr(self, obj, name, value):
        self.journal.append(('attr', obj, name, obj.attrs.get(name, UNSET)))
        obj.attrs[name] = value

    def set_segs(self, lst, segs):
        self.journal.append(('list', lst, None, list(lst.segs)))
        lst.segs = list(segs)

    def set_entries(self, d, entries, more=None):
        self.journal.append(('dict', d, None, (dict(d.entries), list(d.more))))
        d.entries = dict(entries)
        if more is not None:
            d.more = list(more)

    def undo(self, mark, birth=None):
        """Objects made since birth keep what was done to them."""
        while len(self.journal) > mark:
            kind, obj, name, old = self.journal.pop()
            if birth is not None and obj.birth >= birth:
                continue
            if kind == 'list':
                obj.segs = old
            elif kind == 'dict':
                obj.entries, obj.more = old
            else:
                d = obj.vars if kind == 'var' else obj.attrs
                if old is UNSET:
                    d.pop(name, None)
                else:
                    d[name] = old

    def read_loc(self, loc):
        kind, obj, name = loc
        if kind == 'list':
            return list(obj.segs)
        if kind == 'dict':
            return dict(obj.entries), list(obj.more)
        return (obj.vars if kind == 'var' else obj.attrs).get(name, UNSET)

    def write_loc(self, loc, value):
        kind, obj, name = loc
        if kind == 'list':
            self.set_segs(obj, value)
        elif kind == 'dict':
            self.set_entries(obj, *value)
        elif value is UNSET:
            d = obj.vars if kind == 'var' else obj.attrs
            self.journal.append((kind, obj, name, d.get(name, UNSET)))
            d.pop(name, None)
        elif kind == 'var':
            self.set_var(obj, name, value)
        else:
            self.set_attr(obj, name, value)

    def touched(self, mark, birth):
        out = {}
        for kind, obj, name, old in self.journal[mark:]:
            if obj.birth < birth:
                out.setdefault((kind, obj, name), old)
        return out

    # -- decisions -------------------------------------------------------

    def decide(self, cond):
        """The truth of an unknown condition on the path explored."""
        flip = False
        while isinstance(cond, Sym) and cond.op == 'not':
            cond = cond.args[0]
            flip = not flip
        if isinstance(cond, bool):
            return cond != flip
        if cond.op == 'cond' and cond.ty == 'bool':
            c, a, b = cond.args
            return self.decide(a if self.decide(c) else b) != flip
        for c in self.contexts:
            if cond.k in c.facts:
                return c.facts[cond.k] != flip
        c = self.contexts[-1]
        if c.pos < len(c.path):
            k, v = c.path[c.pos]
            if k != cond.k:
                raise Unsupported('exploration is not deterministic')
        else:
            v = True
            c.path.append((cond.k, v))
        c.pos += 1
        c.facts[cond.k] = v
        c.order.append((cond, v))
        return v != flip

    def explore(self, f):
        """Results of f() on all paths: [(decisions, outcome, value, delta)].
        The effects are undone; delta is what touched() locations became."""
        out = []
        ctx = Context()
        self.contexts.append(ctx)
        jmark = len(self.journal)
        try:
            while True:
                ctx.restart()
                birth = next(_counter)
                self.paths += 1
                if len(out) > MAX_PATHS:
                    raise Unsupported('too many paths')
                outcome, value = 'end', None
                try:
                    value = f()
                except _Return as e:
                    outcome, value = 'return', e.value
                except _Break:
                    outcome = 'break'
                except _Continue:
                    outcome = 'end'
                except PyExc as e:
                    outcome, value = 'raise', e.value
                locs = self.touched(jmark, birth)
                delta = {loc: self.read_loc(loc) for loc in locs}
                out.append((ctx.decisions(), outcome, value, delta))
                self.undo(jmark, birth)
                if not ctx.advance():
                    return out
        finally:
            self.contexts.pop()

    def run_paths(self, f):
        """For top level use: [(decisions, outcome, value)] with f's effects
        on new objects kept reachable from the value."""
        out = []
        ctx = Context()
        self.contexts.append(ctx)
        try:
            while True:
                ctx.restart()
                mark = len(self.journal)
                birth = next(_counter)
                outcome = 'return'
                try:
                    value = f()
                except _Return as e:
                    value = e.value
                except PyExc as e:
                    outcome, value = 'raise', e.value
                out.append((ctx.decisions(), outcome, value))
                if len(out) > MAX_PATHS:
                    raise Unsupported('too many paths')
                if not ctx.advance():
                    return out
                self.undo(mark, birth)
        finally:
            self.contexts.pop()

    # -- loops -----------------------------------------------------------

    def iterate(self, value, body):
        """Runs body for every element of value."""
        for seg in self.elements(value):
            if isinstance(seg, Rep):
                self.generic_loop(seg, body)
            else:
                try:
                    body(seg)
                except _Continue:
                    pass

    def elements(self, v):
        """Segments of an iterable."""
        if isinstance(v, List):
            return list(v.segs)
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, Dict):
            out = [k for k, _ in v.entries.values()]
            for r in v.more:
                out.append(self.map_rep(r, lambda kv: kv[0]))
            return out
        if isinstance(v, (Sym, Str)):
            src = Source(short(v))
            src.term = v
            return [Rep(src, [('element', (), (Sym('elem', v),))])]
        if isinstance(v, Obj):
            it = self.get_attr(v, '__iter__', None)
            if it is not None:
                return self.elements(self.call(it, []))
        raise Unsupported(f'iteration over {short(v)}')

    def map_rep(self, rep, f):
        cases = []
        for v, d, segs in rep.cases:
            cases.append((v, d, tuple(
                self.map_rep(s, f) if isinstance(s, Rep) else f(s)
                for s in segs)))
        return Rep(rep.src, cases, rep.rev, rep.loop, rep.mark, rep.base)

    def generic_loop(self, rep, body):
        loop = next(_counter)
        self.loop_sites.add(self.where)
        havoc = {}
        results = self.loop_round(rep, body, loop, havoc)
        self.merge_loop(rep, results, loop, havoc)

    def marker(self, loc, old, loop):
        """An unknown value for something a loop changes."""
        kind, obj, name = loc
        if kind == 'list':
            src = Source('earlier')
            src.id = ('prefix', loop, id(obj))
            return [Rep(src, [('earlier', (), (Sym('earlier', loop, obj.birth),))])]
        if kind == 'dict':
            return old
        what = name if kind == 'var' else (obj.birth, name)
        ty = 'any'
        if isinstance(old, (str, Str)) or (isinstance(old, Sym) and
                                           old.ty == 'str'):
            ty = 'str'
        elif isinstance(old, bool):
            ty = 'bool'
        elif isinstance(old, int):
            ty = 'int'
        return Sym('loopvar', loop, what, obj.birth, ty=ty)

    def loop_round(self, rep, body, loop, havoc):
        """havoc grows while the cases are explored; a case explored before
        it was complete is explored again."""
        results = {}
        version = {}
        again = True
        rounds = 0
        while again:
            again = False
            rounds += 1
            if rounds > 10:
                raise Unsupported('loop does not stabilise')
            for i, case in enumerate(rep.cases):
                for _ in range(10):
                    if version.get(i) == len(havoc):
                        break
                    version[i] = len(havoc)
                    again = True
                    results[i] = self.loop_case(case, body, loop, havoc)
        return [r for i in range(len(rep.cases)) for r in results[i]]

    def loop_case(self, case, body, loop, havoc):
        variant, dec, segs = case

        def run():
            # what was decided about the element holds
            ctx = self.contexts[-1]
            for c, b in dec:
                ctx.facts.setdefault(c.k, b)
            for loc, (old, new) in havoc.items():
                self.write_loc(loc, new)
            for s in segs:
                if isinstance(s, Rep):
                    self.generic_loop(s, body)
                else:
                    try:
                        body(s)
                    except _Continue:
                        pass
        out = []
        for d, outcome, value, delta in self.explore(run):
            for loc in delta:
                if loc not in havoc:
                    old = self.read_loc(loc)
                    if same(delta[loc], old):
                        continue
                    if loc[0] in ('var', 'attr') and old is UNSET:
                        continue
                    havoc[loc] = (old, self.marker(loc, old, loop))
            out.append((variant, tuple(dec) + d, outcome, value, delta))
        return out

    def merge_loop(self, rep, results, loop, havoc):
        exits = []
        for r in results:
            if r[2] == 'return':
                gone = self.locals_of
                r = r[:4] + ({k: v for k, v in r[4].items()
                              if k[0] != 'var' or k[1] is not gone},)
            elif r[2] == 'break':
                r = r[:4] + ({k: v for k, v in r[4].items()
                              if k[0] != 'var' or k[1] is not self.locals_of
                              or k[2] not in self.dead_names},)
            if r[2] != 'end':
                exits.append(r)
        groups = []
        for r in exits:
            variant, dec, outcome, value, delta = r
            if is_const(value) and not delta:
                for g in groups:
                    if g[0][2] == outcome and not g[0][4] and \
                            same(g[0][3], value):
                        g.append(r)
                        break
                else:
                    groups.append([r])
            else:
                groups.append([r])
        conds = []
        first = Rep(rep.src, [(r[0], r[1], (i,)) for i, g in enumerate(groups)
                              for r in g], rep.rev)
        for i, g in enumerate(groups):
            variant, dec, outcome, value, delta = g[0]
            if len(groups) == 1 and is_const(value) and not delta:
                cond = Sym('nonempty', Snap([Rep(
                    rep.src, [(r[0], r[1], ('x',)) for r in g])]), ty='bool')
            else:
                cond = Sym('exit', Snap([looped(first, loop, base=rep)]), i,
                           ty='bool')
            if self.decide(cond):
                # an element with this outcome ends the loop
                ends = [x for x in results if x[2] == 'end']
                self.apply_loop(rep, ends, loop, havoc, partial=first)
                for loc, new in delta.items():
                    old = self.read_loc(loc)
                    if loc in havoc:
                        new = self.replace_marker(loc, new, havoc[loc][1], old)
                    self.write_loc(loc, new)
                if outcome == 'return':
                    raise _Return(value)
                if outcome == 'raise':
                    raise PyExc(value)
                raise _Break()
        self.apply_loop(rep, [x for x in results if x[2] == 'end'], loop, havoc)

    def replace_marker(self, loc, new, mark, now):
        if loc[0] == 'list':
            n = [key(x) for x in new]
            k = key(mark[0])
            if k in n:
                i = n.index(k)
                return new[:i] + now + new[i + 1:]
            return new
        if loc[0] in ('var', 'attr'):
            if isinstance(new, (Str, Sym)) and mark.ty == 'str':
                parts = new.parts if isinstance(new, Str) else (new,)
                return concat(*[now if p == mark else p for p in parts])
        return new

    def apply_loop(self, rep, results, loop, havoc, partial=None):
        """Effects of the elements with the given results."""
        src = rep.src
        if partial is not None:
            src = Source(f'{rep.src.name} before the exit')
            src.of = rep
            src.exits = partial
        birthless = {}
        for loc, (old, mark) in havoc.items():
            kind = loc[0]
            if kind == 'list':
                self.merge_list(loc, old, mark, results, src, rep, loop)
            elif kind == 'dict':
                self.merge_dict(loc, old, results, src, rep, loop)
            else:
                self.merge_scalar(loc, old, mark, results, src, rep, loop)
        # things set for the first time in the loop
        fresh = {}
        for variant, dec, outcome, value, delta in results:
            for loc in delta:
                if loc not in havoc and loc[0] in ('var', 'attr'):
                    fresh.setdefault(loc, []).append(delta[loc])
        for loc, values in fresh.items():
            now = self.read_loc(loc)
            if now is not UNSET and all(same(v, now) for v in values):
                continue
            if loc[0] == 'attr' and len(values) == len(results) or \
                    loc[0] == 'attr' and all(same(v, values[0])
                                             for v in values):
                # an attribute of the element itself
                if all(same(v, values[0]) for v in values):
                    self.write_loc(loc, values[0])
                    continue
            self.write_loc(loc, Sym('after', loop, loc[2], loc[1].birth))

    def merge_list(self, loc, old, mark, results, src, rep, loop):
        lst = loc[1]
        pre, post = [], []
        k = key(mark[0])
        for variant, dec, outcome, value, delta in results:
            new = delta.get(loc, mark)
            ks = [key(x) for x in new]
            if ks.count(k) != 1:
                # replaced as a whole
                self.set_segs(lst, [Sym('after', loop, 'list', lst.birth)])
                if any(key(x) == k for x in new):
                    raise Unsupported('list changed in an unknown way')
                self.set_segs(lst, self.unknown_list(lst, loop))
                return
            i = ks.index(k)
            pre.append((variant, dec, tuple(new[:i])))
            post.append((variant, dec, tuple(new[i + 1:])))
        segs = list(old)
        if any(c[2] for c in pre):
            segs = [looped(Rep(src, pre, not rep.rev), loop, mark, old,
                           rep)] + segs
        if any(c[2] for c in post):
            segs = segs + [looped(Rep(src, post, rep.rev), loop, mark, old,
                                  rep)]
        self.set_segs(lst, segs)

    def unknown_list(self, lst, loop):
        src = Source(f'unknown {loop}')
        return [Rep(src, [('unknown', (), (Sym('unknown', loop, lst.birth),))])]

    def merge_dict(self, loc, old, results, src, rep, loop):
        entries, more = old
        cases = []
        for variant, dec, outcome, value, delta in results:
            e, m = delta.get(loc, old)
            added = tuple((k, v) for kk, (k, v) in e.items()
                          if kk not in entries or not same(entries[kk][1], v))
            added += tuple(m[len(more):])
            if any(kk not in e for kk in entries):
                raise Unsupported('dictionary entries removed in a loop')
            cases.append((variant, dec, added))
        d = loc[1]
        entries = dict(entries)
        consts = {}
        for variant, dec, added in cases:
            for kv in added:
                if not isinstance(kv, Rep) and key(kv[0]) in entries:
                    entries[key(kv[0])] = (kv[0], Sym('after', loop, key(kv[0]),
                                                      d.birth))
        if any(c[2] for c in cases):
            more = list(more) + [looped(Rep(src, cases, rep.rev), loop,
                                        base=rep)]
        self.set_entries(d, entries, more)

    def merge_scalar(self, loc, old, mark, results, src, rep, loop):
        news = [(v, d, delta.get(loc, mark))
                for v, d, _, _, delta in results]
        if all(same(n, mark) for _, _, n in news):
            self.write_loc(loc, old)
            return
        self.updates[mark.k] = (looped(Rep(
            src, [(v, d, (n,)) for v, d, n in news], rep.rev), loop,
            base=rep), old, mark)
        # text added to a string
        if mark.ty == 'str':
            pre, post = [], []
            for v, d, n in news:
                parts = n.parts if isinstance(n, Str) else (n,)
                at = [i for i, p in enumerate(parts) if p == mark]
                if len(at) != 1:
                    break
                i = at[0]
                pre.append((v, d, (concat(*parts[:i]),) if i else ()))
                post.append((v, d, (concat(*parts[i + 1:]),)
                             if parts[i + 1:] else ()))
            else:
                value = old
                if any(c[2] for c in pre):
                    value = concat(Join('', [looped(
                        Rep(src, pre, not rep.rev), loop, mark, old, rep)]),
                        value)
                if any(c[2] for c in post):
                    value = concat(value, Join('', [
                        looped(Rep(src, post, rep.rev), loop, mark, old, rep)]))
                self.write_loc(loc, value)
                return
        # a list bound to a name and extended by +
        if isinstance(old, List) and all(
                same(n, mark) or isinstance(n, List) for _, _, n in news):
            self.write_loc(loc, List(self.unknown_list(old, loop)))
            return
        # counting
        adds = [(v, d, n) for v, d, n in news if not same(n, mark)]
        if mark.ty == 'int' and all(
                isinstance(n, Sym) and n.op == 'add' and n.args[0] == mark and
                n.args[1] == 1 for _, _, n in adds):
            count = Sym('len', Snap([Rep(src, [(v, d, ('x',))
                                               for v, d, n in adds])]),
                        ty='int')
            self.write_loc(loc, Sym('add', old, count, ty='int')
                           if old != 0 else count)
            return
        # a flag
        if all(n is None or isinstance(n, (bool, int, str))
               for _, _, n in adds) and len({key(n) for _, _, n in adds}) == 1:
            value = adds[0][2]
            some = Sym('nonempty', Snap([Rep(src, [(v, d, ('x',))
                                                   for v, d, n in adds])]),
                       ty='bool')
            if value is True and old is False:
                self.write_loc(loc, some)
            elif value is False and old is True:
                self.write_loc(loc, Sym('not', some, ty='bool'))
            else:
                self.write_loc(loc, Sym('cond', some, value, old, ty=mark.ty))
            return
        after = Sym('after', loop, loc[2], loc[1].birth, ty=mark.ty)
        self.updates[after.k] = self.updates[mark.k]
        self.write_loc(loc, after)

    # -- statements ------------------------------------------------------

    def block(self, body, frame):
        for node in body:
            self.stmt(node, frame)

    def stmt(self, node, frame):
        m = getattr(self, 's_' + type(node).__name__, None)
        if m is None:
            raise Unsupported(f'{type(node).__name__} at line {node.lineno} '
                              f'of {frame.globals.file}')
        self.where = (frame.globals.file, node.lineno)
        m(node, frame)

    def s_Expr(self, node, frame):
        self.eval(node.value, frame)

    def s_Pass(self, node, frame):
        pass

    def s_Assign(self, node, frame):
        v = self.eval(node.value, frame)
        for t in node.targets:
            self.assign(t, v, frame)

    def s_AnnAssign(self, node, frame):
        if node.value is not None:
            self.assign(node.target, self.eval(node.value, frame), frame)

    def s_AugAssign(self, node, frame):
        t = node.target
        if isinstance(t, ast.Name):
            old = self.eval(ast.Name(id=t.id, ctx=ast.Load(), lineno=t.lineno),
                            frame)
            set_ = lambda v: self.assign(t, v, frame)
        elif isinstance(t, ast.Attribute):
            obj = self.eval(t.value, frame)
            old = self.get_attr(obj, t.attr)
            set_ = lambda v: self.store_attr(obj, t.attr, v)
        else:
            obj = self.eval(t.value, frame)
            idx = self.eval(t.slice, frame)
            old = self.get_item(obj, idx)
            set_ = lambda v: self.store_item(obj, idx, v)
        v = self.eval(node.value, frame)
        if isinstance(node.op, ast.Add) and isinstance(old, List) and \
                old.kind == 'list':
            self.extend(old, v)
            set_(old)
            return
        if isinstance(old, Obj) and isinstance(node.op, ast.LShift):
            f = self.get_attr(old, '__ilshift__', None)
            if f is not None:
                set_(self.call(f, [v]))
                return
        set_(self.binop(type(node.op).__name__, old, v))

    def s_If(self, node, frame):
        t = self.truth_value(self.eval(node.test, frame))
        if isinstance(t, Sym):
            v = self.known(t)
            if v is None:
                def run():
                    self.block(node.body if self.decide(t) else node.orelse,
                               frame)
                    return None
                if self.merged(run, ('end',)) is not None:
                    return
                v = self.decide(t)
            t = v
        if t:
            self.block(node.body, frame)
        else:
            self.block(node.orelse, frame)

    def known(self, cond):
        flip = False
        while isinstance(cond, Sym) and cond.op == 'not':
            cond = cond.args[0]
            flip = not flip
        if isinstance(cond, bool):
            return cond != flip
        if cond.op == 'cond' and cond.ty == 'bool':
            c, a, b = cond.args
            v = self.known(c)
            if v is not None:
                v = self.known(a if v else b)
            return None if v is None else v != flip
        for c in self.contexts:
            if cond.k in c.facts:
                return c.facts[cond.k] != flip
        return None

    def merged(self, run, outcomes):
        """Explores run() and continues with the combined effects of its
        paths: (value,), or None if they cannot be combined."""
        results = self.explore(run)
        if any(r[1] not in outcomes for r in results):
            return None
        if len(results) == 1:
            d, outcome, value, delta = results[0]
            for loc, new in delta.items():
                self.write_loc(loc, new)
            return (value,)
        src = Source('if')
        src.single = True
        value = self.merge_values(src, [(r[0], r[2]) for r in results])
        if value is None:
            return None
        locs = {}
        for r in results:
            for loc in r[3]:
                locs[loc] = None
        new = {}
        for loc in locs:
            old = self.read_loc(loc)
            news = [(r[0], r[3].get(loc, old)) for r in results]
            if loc[0] == 'list':
                n = len(old)
                if all(same(list(x[:n]), old) for _, x in news):
                    tails = [('if', d, tuple(x[n:])) for d, x in news]
                    new[loc] = list(old) + (
                        [Rep(src, tails)] if any(t[2] for t in tails) else [])
                else:
                    new[loc] = [Rep(src, [('if', d, tuple(x))
                                          for d, x in news])]
            elif loc[0] == 'dict':
                if not all(same(x, news[0][1]) for _, x in news):
                    return None
                new[loc] = news[0][1]
            else:
                set_ = [(d, x) for d, x in news if x is not UNSET]
                v = self.merge_values(src, set_)
                if v is None:
                    return None
                new[loc] = v[0]
        for loc, v in new.items():
            self.write_loc(loc, v)
        return value

    def merge_values(self, src, values):
        """(value,) or None"""
        first = values[0][1]
        if all(same(v, first) for _, v in values):
            return (first,)
        if all(isinstance(v, (str, Str)) or isinstance(v, Sym) and
               v.ty == 'str' for _, v in values):
            return (concat(Join('', [Rep(src, [('if', d, (v,))
                                               for d, v in values])])),)
        if all(is_bool(v) for _, v in values) or \
                all(kind_of(v) == 'int' for _, v in values):
            return (decision_tree(values),)
        if all(isinstance(v, List) and v.kind == first.kind
               for _, v in values):
            return (List([Rep(src, [('if', d, tuple(v.segs))
                                    for d, v in values])], first.kind,
                         all(v.ordered for _, v in values)),)
        return None

    def s_For(self, node, frame):
        it = self.eval(node.iter, frame)
        site = (frame.globals.file, node.lineno)

        def body(x):
            self.assign(node.target, x, frame)
            self.block(node.body, frame)
        dead = self.dead_after(node, frame)
        saved = self.locals_of, self.dead_names

        def loop_body(x):
            # What a loop inside is about does not concern this one.
            inner = self.locals_of, self.dead_names
            try:
                body(x)
            finally:
                self.locals_of, self.dead_names = inner
        try:
            self.where = site
            self.locals_of, self.dead_names = frame, dead
            self.iterate(it, loop_body)
        except _Break:
            return
        finally:
            self.locals_of, self.dead_names = saved
        self.block(node.orelse, frame)

    def dead_after(self, node, frame):
        """Names that only the loop itself uses."""
        if node not in self.dead:
            inside = set(id(n) for n in ast.walk(node))
            stored = {n.id for n in ast.walk(node) if isinstance(n, ast.Name)
                      and isinstance(n.ctx, ast.Store)}
            f = frame.func
            if f is None or not hasattr(f, 'node'):
                self.dead[node] = frozenset()
            else:
                used = {n.id for n in ast.walk(f.node)
                        if isinstance(n, ast.Name) and
                        not isinstance(n.ctx, ast.Store) and
                        id(n) not in inside}
                self.dead[node] = frozenset(stored - used)
        return self.dead[node]

    def s_While(self, node, frame):
        for i in range(10000):
            t = self.truth_value(self.eval(node.test, frame))
            if isinstance(t, Sym) and i > 0:
                raise Unsupported(f'while loop over unknown condition, line '
                                  f'{node.lineno} of {frame.globals.file}')
            if not (t if isinstance(t, bool) else self.decide(t)):
                self.block(node.orelse, frame)
                return
            try:
                self.block(node.body, frame)
            except _Continue:
                continue
            except _Break:
                return
        raise Unsupported('while loop')

    def s_Return(self, node, frame):
        raise _Return(None if node.value is None
                      else self.eval(node.value, frame))

    def s_Break(self, node, frame):
        raise _Break()

    def s_Continue(self, node, frame):
        raise _Continue()

    def s_Import(self, node, frame):
        for a in node.names:
            if self.is_project(a.name):
                m = self.module(a.name)
                self.set_var(frame, a.asname or a.name.split('.')[0], m)
            elif a.asname:
                self.set_var(frame, a.asname, self.ext_value(a.name))
            else:
                top = a.name.split('.')[0]
                self.set_var(frame, top, self.ext_value(top))

    def s_ImportFrom(self, node, frame):
        name = self.import_from(frame.globals, node)
        for a in node.names:
            if a.name == '*':
                for k, v in self.module(name).vars.items():
                    if not k.startswith('_'):
                        self.set_var(frame, k, v)
                continue
            self.set_var(frame, a.asname or a.name,
                         self.import_name(name, a.name))

    def s_FunctionDef(self, node, frame):
        f = self.make_func(node, frame)
        for d in reversed(node.decorator_list):
            f = self.decorate(d, f, frame)
        self.set_var(frame, node.name, f)

    def make_func(self, node, frame):
        a = node.args
        f = Func(node, frame, [self.eval(d, frame) for d in a.defaults],
                 [None if d is None else (self.eval(d, frame),)
                  for d in a.kw_defaults])
        f.generator = isinstance(node, ast.FunctionDef) and is_generator(node)
        f.has_if = isinstance(node, ast.FunctionDef) and any(
            isinstance(n, (ast.If, ast.For, ast.While, ast.BoolOp, ast.IfExp,
                           ast.Try, ast.ListComp, ast.Compare))
            for n in ast.walk(node))
        return f

    def decorate(self, d, f, frame):
        if isinstance(d, ast.Name) and d.id in ('property', 'staticmethod',
                                                'classmethod'):
            return Descriptor(d.id, f)
        dec = self.eval(d, frame)
        if isinstance(dec, Ext) and dec.path.startswith('functools.'):
            if dec.path == 'functools.cached_property':
                return Descriptor('property', f)
            return f
        if isinstance(dec, Sym) and 'lru_cache' in repr(dec):
            return f
        return self.call(dec, [f])

    def s_ClassDef(self, node, frame):
        bases = [self.eval(b, frame) for b in node.bases]
        f = Frame(frame, frame.globals)
        f.is_class = True
        self.block(node.body, f)
        cls = Class(node.name, bases, f.vars, frame.globals)
        for v in f.vars.values():
            g = v.func if isinstance(v, Descriptor) else v
            if isinstance(g, Func) and g.cls is None:
                g.cls = cls
        v = cls
        for d in reversed(node.decorator_list):
            dec = self.eval(d, frame)
            if isinstance(dec, (Ext, Sym)) and 'dataclass' in repr(dec):
                cls.attrs['__dataclass__'] = [
                    (s.target.id, s.value, f) for s in node.body
                    if isinstance(s, ast.AnnAssign)]
                continue
            v = self.call(dec, [v])
        self.set_var(frame, node.name, v)

    def s_Raise(self, node, frame):
        if node.exc is None:
            raise PyExc(self.current_exc[-1])
        v = self.eval(node.exc, frame)
        if isinstance(v, Class):
            v = self.call(v, [])
        raise PyExc(v)

    def s_Try(self, node, frame):
        def main():
            try:
                self.handlers += 1
                try:
                    self.block(node.body, frame)
                finally:
                    self.handlers -= 1
            except PyExc as e:
                for h in node.handlers:
                    if h.type is None or self.matches(
                            e.value, self.eval(h.type, frame)):
                        if h.name:
                            self.set_var(frame, h.name, e.value)
                        self.current_exc.append(e.value)
                        try:
                            self.block(h.body, frame)
                        finally:
                            self.current_exc.pop()
                        return
                raise
            self.block(node.orelse, frame)
        if not node.finalbody:
            main()
            return
        try:
            main()
        except (PyExc, _Return, _Break, _Continue):
            self.block(node.finalbody, frame)
            raise
        self.block(node.finalbody, frame)

    def matches(self, exc, types):
        if isinstance(types, tuple):
            return any(self.matches(exc, t) for t in types)
        if isinstance(exc, Obj) and isinstance(types, Class):
            return exc.cls.is_subclass(types)
        if isinstance(exc, Sym) and isinstance(types, Class):
            if types.name == 'BaseException':
                return True
            return self.decide(Sym('isinstance', exc, types.name, ty='bool'))
        if isinstance(types, Ext):
            if isinstance(exc, Obj):
                return any(isinstance(b, Ext) and b.path == types.path
                           for c in exc.cls.mro() for b in c.bases)
            return self.decide(Sym('isinstance', exc, types.path, ty='bool'))
        raise Unsupported(f'except {short(types)}')

    def s_With(self, node, frame):
        managers = []
        for item in node.items:
            v = self.eval(item.context_expr, frame)
            managers.append(v)
            entered = v
            if isinstance(v, Obj):
                entered = self.call(self.get_attr(v, '__enter__'), [])
            if item.optional_vars is not None:
                self.assign(item.optional_vars, entered, frame)
        try:
            self.block(node.body, frame)
        finally:
            for v in reversed(managers):
                if isinstance(v, Obj):
                    self.call(self.get_attr(v, '__exit__'), [None, None, None])
                else:
                    self.event('close', v)

    def s_Assert(self, node, frame):
        if not self.truth(self.eval(node.test, frame)):
            raise PyExc(self.make_exc('AssertionError', []))

    def s_Delete(self, node, frame):
        for t in node.targets:
            if isinstance(t, ast.Name):
                self.write_loc(('var', frame, t.id), UNSET)
            elif isinstance(t, ast.Subscript):
                obj = self.eval(t.value, frame)
                idx = self.eval(t.slice, frame)
                if isinstance(obj, Dict) and not obj.more:
                    e = dict(obj.entries)
                    if key(idx) not in e:
                        raise Unsupported('del of an unknown entry')
                    del e[key(idx)]
                    self.set_entries(obj, e)
                elif isinstance(obj, List) and isinstance(idx, int) and \
                        not any(isinstance(s, Rep) for s in obj.segs):
                    s = list(obj.segs)
                    del s[idx]
                    self.set_segs(obj, s)
                else:
                    raise Unsupported('del')
            else:
                raise Unsupported('del')

    def s_Global(self, node, frame):
        frame.names_global |= set(node.names)

    def s_Nonlocal(self, node, frame):
        frame.names_nonlocal |= set(node.names)

    def s_Match(self, node, frame):
        v = self.eval(node.subject, frame)
        for c in node.cases:
            if self.match_pattern(c.pattern, v, frame) and (
                    c.guard is None or self.truth(self.eval(c.guard, frame))):
                self.block(c.body, frame)
                return

    def match_pattern(self, p, v, frame):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.compare('Eq', v, self.eval(p.value, frame)))
        if isinstance(p, ast.MatchSingleton):
            return self.truth(self.compare('Is', v, p.value))
        if isinstance(p, ast.MatchOr):
            return any(self.match_pattern(x, v, frame) for x in p.patterns)
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and \
                    not self.match_pattern(p.pattern, v, frame):
                return False
            if p.name:
                self.set_var(frame, p.name, v)
            return True
        if isinstance(p, ast.MatchSequence):
            segs = self.elements(v)
            if any(isinstance(s, Rep) for s in segs) or \
                    any(isinstance(x, ast.MatchStar) for x in p.patterns):
                raise Unsupported('match of a sequence')
            return len(segs) == len(p.patterns) and all(
                self.match_pattern(x, s, frame)
                for x, s in zip(p.patterns, segs))
        raise Unsupported('match pattern')

    # -- assignment ------------------------------------------------------

    def assign(self, t, v, frame):
        if isinstance(t, ast.Name):
            f = frame
            if t.id in frame.names_global:
                f = frame.globals.frame
            elif t.id in frame.names_nonlocal:
                f = frame.parent
                while f is not None and t.id not in f.vars:
                    f = f.parent
            self.set_var(f, t.id, v)
        elif isinstance(t, ast.Attribute):
            self.store_attr(self.eval(t.value, frame), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.store_item(self.eval(t.value, frame),
                            self.eval(t.slice, frame), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            values = self.unpack(v, t.elts)
            for x, y in zip(t.elts, values):
                if isinstance(x, ast.Starred):
                    x = x.value
                self.assign(x, y, frame)
        else:
            raise Unsupported('assignment target')

    def unpack(self, v, targets):
        n = len(targets)
        star = [i for i, t in enumerate(targets) if isinstance(t, ast.Starred)]
        if isinstance(v, (Sym, Str)) and not star:
            return [Sym('getitem', v, i) for i in range(n)]
        segs = self.elements(v)
        if not star:
            if any(isinstance(s, Rep) for s in segs):
                return [self.get_item(v, i) for i in range(n)]
            if len(segs) != n:
                raise PyExc(self.make_exc('ValueError',
                                          ['wrong number of values']))
            return segs
        i = star[0]
        after = n - i - 1
        head, tail = segs[:i], segs[len(segs) - after:] if after else []
        if any(isinstance(s, Rep) for s in head + tail):
            raise Unsupported('unpacking of an unknown list')
        return head + [List(segs[i:len(segs) - after])] + tail

    def store_attr(self, obj, name, v):
        if isinstance(obj, Obj):
            d = obj.cls.lookup(name)
            if isinstance(d, Descriptor) and d.kind == 'property':
                raise Unsupported(f'assignment to property {name}')
            self.set_attr(obj, name, v)
        elif isinstance(obj, Class):
            self.set_attr(obj, name, v)
        elif isinstance(obj, (Sym, Ext, Module)):
            self.event('setattr', obj, name, v)
        else:
            raise Unsupported(f'attribute {name} of {short(obj)} set')

    def store_item(self, obj, idx, v):
        if isinstance(obj, Dict):
            e = dict(obj.entries)
            if isinstance(idx, (Sym, Str)):
                for kk, (k, _) in e.items():
                    if kk != key(idx) and self.truth(
                            self.compare('Eq', k, idx)):
                        e[kk] = (k, v)
                        self.set_entries(obj, e)
                        return
            e[key(idx)] = (idx, v)
            self.set_entries(obj, e)
        elif isinstance(obj, List) and isinstance(idx, int):
            segs = list(obj.segs)
            rest = segs[:idx] if idx >= 0 else segs[idx:]
            if any(isinstance(s, Rep) for s in rest) or \
                    isinstance(segs[idx], Rep):
                raise Unsupported('item of an unknown list set')
            segs[idx] = v
            self.set_segs(obj, segs)
        elif isinstance(obj, (Sym, Ext)):
            self.event('setitem', obj, idx, v)
        else:
            raise Unsupported(f'item of {short(obj)} set')

    # -- expressions -----------------------------------------------------

    def eval(self, node, frame):
        m = getattr(self, 'e_' + type(node).__name__, None)
        if m is None:
            raise Unsupported(f'{type(node).__name__} at line '
                              f'{getattr(node, "lineno", "?")} of '
                              f'{frame.globals.file}')
        return m(node, frame)

    def e_Constant(self, node, frame):
        return node.value

    def e_Name(self, node, frame):
        f = frame
        first = True
        while f is not None:
            # class bodies are not visible from functions in them
            if first or not getattr(f, 'is_class', False):
                if node.id in f.vars:
                    return f.vars[node.id]
            first = False
            f = f.parent
        g = frame.globals.vars
        if node.id in g:
            return g[node.id]
        if node.id in self.builtins:
            return self.builtins[node.id]
        raise PyExc(self.make_exc('NameError', [node.id]))

    def e_Attribute(self, node, frame):
        return self.get_attr(self.eval(node.value, frame), node.attr)

    def e_Subscript(self, node, frame):
        v = self.eval(node.value, frame)
        if isinstance(node.slice, ast.Slice):
            s = node.slice
            lo, hi, st = (None if x is None else self.eval(x, frame)
                          for x in (s.lower, s.upper, s.step))
            return self.get_slice(v, lo, hi, st)
        return self.get_item(v, self.eval(node.slice, frame))

    def e_Slice(self, node, frame):
        raise Unsupported('slice object')

    def e_Call(self, node, frame):
        if isinstance(node.func, ast.Name) and node.func.id == 'super' and \
                not node.args:
            f = frame
            while f is not None and f.func is None:
                f = f.parent
            self_ = f.vars[f.func.node.args.args[0].arg]
            return ('super', f.func.cls, self_)
        if isinstance(node.func, ast.Name) and node.func.id == 'locals':
            return Dict(frame.vars.items())
        f = self.eval(node.func, frame)
        args = []
        for a in node.args:
            if isinstance(a, ast.Starred):
                segs = self.elements(self.eval(a.value, frame))
                args += segs
            else:
                args.append(self.eval(a, frame))
        kw = {}
        for k in node.keywords:
            v = self.eval(k.value, frame)
            if k.arg is None:
                if not isinstance(v, Dict) or v.more:
                    raise Unsupported('** of an unknown mapping')
                for n, x in v.entries.values():
                    kw[n] = x
            else:
                kw[k.arg] = v
        self.where = (frame.globals.file, node.lineno)
        return self.call(f, args, kw)

    def e_BinOp(self, node, frame):
        a = self.eval(node.left, frame)
        b = self.eval(node.right, frame)
        return self.binop(type(node.op).__name__, a, b)

    def e_UnaryOp(self, node, frame):
        v = self.eval(node.operand, frame)
        if isinstance(node.op, ast.Not):
            t = self.truth_value(v)
            return (not t) if isinstance(t, bool) else Sym('not', t, ty='bool')
        if isinstance(v, (int, float)):
            return {ast.USub: lambda: -v, ast.UAdd: lambda: +v,
                    ast.Invert: lambda: ~v}[type(node.op)]()
        return Sym({ast.USub: 'neg', ast.UAdd: 'pos',
                    ast.Invert: 'invert'}[type(node.op)], v, ty='int')

    def e_BoolOp(self, node, frame):
        v = None
        for i, x in enumerate(node.values):
            v = self.eval(x, frame)
            if i == len(node.values) - 1:
                return v
            t = self.truth(v)
            if isinstance(node.op, ast.And) and not t:
                return False if is_bool(v) else v
            if isinstance(node.op, ast.Or) and t:
                return True if is_bool(v) else v
        return v

    def e_Compare(self, node, frame):
        left = self.eval(node.left, frame)
        result = True
        for op, c in zip(node.ops, node.comparators):
            right = self.eval(c, frame)
            result = self.compare(type(op).__name__, left, right)
            if len(node.ops) > 1 and not self.truth(result):
                return False
            left = right
        return result

    def e_IfExp(self, node, frame):
        if self.truth(self.eval(node.test, frame)):
            return self.eval(node.body, frame)
        return self.eval(node.orelse, frame)

    def e_JoinedStr(self, node, frame):
        return concat(*[self.eval(v, frame) for v in node.values])

    def e_FormattedValue(self, node, frame):
        v = self.eval(node.value, frame)
        spec = '' if node.format_spec is None else \
            self.eval(node.format_spec, frame)
        conv = {-1: None, 115: 's', 114: 'r', 97: 'a'}[node.conversion]
        return self.format_value(v, conv, spec)

    def e_List(self, node, frame):
        return List(self.display(node, frame))

    def e_Tuple(self, node, frame):
        segs = self.display(node, frame)
        if any(isinstance(s, Rep) for s in segs):
            return List(segs, kind='tuple')
        return tuple(segs)

    def e_Set(self, node, frame):
        return List(self.display(node, frame), kind='set', ordered=False)

    def display(self, node, frame):
        out = []
        for x in node.elts:
            if isinstance(x, ast.Starred):
                out += self.elements(self.eval(x.value, frame))
            else:
                out.append(self.eval(x, frame))
        return out

    def e_Dict(self, node, frame):
        d = Dict()
        for k, v in zip(node.keys, node.values):
            if k is None:
                o = self.eval(v, frame)
                if not isinstance(o, Dict):
                    raise Unsupported('** of an unknown mapping')
                d.entries.update(o.entries)
                d.more += o.more
            else:
                kk = self.eval(k, frame)
                d.entries[key(kk)] = (kk, self.eval(v, frame))
        return d

    def e_Lambda(self, node, frame):
        return self.make_func(node, frame)

    def comprehension(self, node, frame, add):
        f = Frame(frame, frame.globals)

        def level(i):
            if i == len(node.generators):
                add(f)
                return
            g = node.generators[i]

            def body(x):
                self.assign(g.target, x, f)
                for c in g.ifs:
                    if not self.truth(self.eval(c, f)):
                        return
                level(i + 1)
            self.iterate(self.eval(g.iter, frame if i == 0 else f), body)
        level(0)

    def e_ListComp(self, node, frame):
        out = List()
        self.comprehension(node, frame, lambda f: self.append(
            out, self.eval(node.elt, f)))
        return out

    def e_GeneratorExp(self, node, frame):
        return self.e_ListComp(node, frame)

    def e_SetComp(self, node, frame):
        out = self.e_ListComp(node, frame)
        out.kind = 'set'
        out.ordered = False
        return out

    def e_DictComp(self, node, frame):
        out = Dict()
        self.comprehension(node, frame, lambda f: self.store_item(
            out, self.eval(node.key, f), self.eval(node.value, f)))
        return out

    def e_NamedExpr(self, node, frame):
        v = self.eval(node.value, frame)
        f = frame
        self.assign(node.target, v, f)
        return v

    def e_Starred(self, node, frame):
        raise Unsupported('starred expression')

    def e_Yield(self, node, frame):
        v = None if node.value is None else self.eval(node.value, frame)
        self.append(frame.yields, v)
        return None

    def e_YieldFrom(self, node, frame):
        self.extend(frame.yields, self.eval(node.value, frame))
        return None

    # -- lists -----------------------------------------------------------

    def append(self, lst, v):
        self.set_segs(lst, lst.segs + [v])

    def extend(self, lst, v):
        if isinstance(v, List) and not v.ordered:
            lst.ordered = False
        self.set_segs(lst, lst.segs + self.elements(v))

    # -- truth, comparison, arithmetic -----------------------------------

    def truth(self, v):
        t = self.truth_value(v)
        return t if isinstance(t, bool) else self.decide(t)

    def truth_value(self, v):
        """A bool or a Sym."""
        if v is None or isinstance(v, (bool, int, str, float, bytes)):
            return bool(v)
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, Obj):
            f = v.cls.lookup('__bool__') or v.cls.lookup('__len__')
            if f is not None:
                return self.truth_value(self.call(Bound(f, v), []))
            return True
        if isinstance(v, List):
            segs = v.segs
            if any(not isinstance(s, Rep) or surely(s) for s in segs):
                return True
            if not segs:
                return False
            return Sym('nonempty', Snap(segs), ty='bool')
        if isinstance(v, Dict):
            if v.entries:
                return True
            if not v.more:
                return False
            return Sym('nonempty', Snap(v.more), ty='bool')
        if isinstance(v, Str):
            if any(isinstance(p, str) and p for p in v.parts):
                return True
            return Sym('truth', v, ty='bool')
        if isinstance(v, Sym):
            if v.ty == 'bool':
                return v
            if v.op in ('call', 'attr') and isinstance(v.args[0], Ext) and \
                    v.args[0].path == 'open':
                return True
            return Sym('truth', v, ty='bool')
        return True

    def compare(self, op, a, b):
        if op in ('NotEq', 'IsNot', 'NotIn'):
            r = self.compare({'NotEq': 'Eq', 'IsNot': 'Is', 'NotIn': 'In'}[op],
                             a, b)
            return (not r) if isinstance(r, bool) else Sym('not', r, ty='bool')
        if op == 'In':
            return self.contains(b, a)
        if op == 'Is':
            if isinstance(a, (Obj, List, Dict, Class, Func)) or \
                    isinstance(b, (Obj, List, Dict, Class, Func)):
                if isinstance(a, Sym) or isinstance(b, Sym):
                    return Sym('is', a, b, ty='bool')
                return a is b
            if a is None or b is None:
                o = b if a is None else a
                if isinstance(o, Sym) and o.op == 'getitem' and \
                        isinstance(o.args[0], Snap) and never_none(
                            o.args[0].segs):
                    return False
                if isinstance(o, Sym) and o.ty == 'any':
                    return Sym('is', o, None, ty='bool')
                return a is None and b is None
            op = 'Eq'
        if op == 'Eq':
            return self.equal(a, b)
        if is_const(a) and is_const(b):
            try:
                return {'Lt': lambda: a < b, 'LtE': lambda: a <= b,
                        'Gt': lambda: a > b, 'GtE': lambda: a >= b}[op]()
            except TypeError:
                raise PyExc(self.make_exc('TypeError', []))
        if isinstance(a, List) and isinstance(b, List) and a.kind == 'set':
            raise Unsupported('comparison of sets')
        if op == 'Gt':
            return Sym('lt', b, a, ty='bool')
        if op == 'GtE':
            return Sym('le', b, a, ty='bool')
        return Sym({'Lt': 'lt', 'LtE': 'le'}[op], a, b, ty='bool')

    def equal(self, a, b):
        if is_const(a) and is_const(b):
            return a == b and type(a) in (type(b), bool, int, float)
        ka, kb = key(a), key(b)
        if ka == kb and not isinstance(a, Obj):
            return True
        if isinstance(a, Obj) and isinstance(b, Obj):
            f = a.cls.lookup('__eq__')
            if f is not None:
                return self.call(Bound(f, a), [b])
            if a.cls.lookup('__dataclass__') is not None:
                return Sym('eq', a, b, ty='bool')
            return a is b
        if isinstance(a, (Obj, Class, Func)) or isinstance(b, (Obj, Class,
                                                               Func)):
            if isinstance(a, Sym) or isinstance(b, Sym):
                return Sym('eq', a, b, ty='bool')
            return a is b
        if isinstance(a, (List, tuple)) and isinstance(b, (List, tuple)):
            sa, sb = self.elements(a), self.elements(b)
            if any(isinstance(s, Rep) for s in sa + sb):
                if not has_rep(sa) and not sa:
                    return not self.truth_value(b) if isinstance(
                        self.truth_value(b), bool) else Sym(
                            'not', self.truth_value(b), ty='bool')
                if not has_rep(sb) and not sb:
                    t = self.truth_value(a)
                    return (not t) if isinstance(t, bool) else Sym('not', t,
                                                                   ty='bool')
                na = sum(not isinstance(s, Rep) for s in sa)
                nb = sum(not isinstance(s, Rep) for s in sb)
                if (not has_rep(sa) and na < nb) or \
                        (not has_rep(sb) and nb < na):
                    return False
                return Sym('eq', Snap(sa), Snap(sb), ty='bool')
            if len(sa) != len(sb):
                return False
            result = True
            for x, y in zip(sa, sb):
                e = self.equal(x, y)
                if e is False:
                    return False
                if e is not True:
                    if not self.decide(e):
                        return False
            return result
        ta, tb = kind_of(a), kind_of(b)
        if ta != 'any' and tb != 'any' and ta != tb and not (
                {ta, tb} <= {'int', 'bool'}):
            return False
        if isinstance(a, (Str, Sym)) and isinstance(b, str) and \
                self.differs(a, b):
            return False
        if isinstance(b, (Str, Sym)) and isinstance(a, str) and \
                self.differs(b, a):
            return False
        if is_const(a):
            a, b = b, a
        elif not is_const(b) and repr(ka) > repr(kb):
            a, b = b, a
        return Sym('eq', a, b, ty='bool')

    def differs(self, v, const):
        """Is the string surely not the constant?"""
        if isinstance(v, Sym):
            if v.op == 'atom' and v.args[1]:
                return const in self.keywords()
            return False
        parts = v.parts
        if isinstance(parts[0], str) and \
                not const.startswith(parts[0][:len(const) + 1]):
            return True
        if isinstance(parts[-1], str) and not const.endswith(parts[-1]):
            return True
        return any(isinstance(p, str) and p not in const for p in parts)

    def keywords(self):
        return B.SCALARS

    def contains(self, c, x):
        if isinstance(c, (str, Str, Sym)):
            if isinstance(c, str) and isinstance(x, str):
                return x in c
            if isinstance(c, Str) and isinstance(x, str) and \
                    any(isinstance(p, str) and x in p for p in c.parts):
                return True
            return Sym('in', x, c, ty='bool')
        if isinstance(c, Dict):
            if is_const(x) and not c.more:
                if all(is_const(k) for k, _ in c.entries.values()):
                    return key(x) in c.entries
            segs = [k for k, _ in c.entries.values()] + \
                [self.map_rep(r, lambda kv: kv[0]) for r in c.more]
        elif isinstance(c, Obj):
            f = c.cls.lookup('__contains__')
            if f is None:
                raise Unsupported('in')
            return self.call(Bound(f, c), [x])
        else:
            segs = self.elements(c)
        unknown = []
        for s in segs:
            if isinstance(s, Rep) and getattr(s.src, 'one', False):
                s = s.cases[0][2][0]
            if isinstance(s, Rep):
                r = self.rep_may_contain(s, x)
                if r:
                    unknown.append(s)
                continue
            e = self.equal(s, x)
            if e is True:
                return True
            if e is not False:
                unknown.append(s)
        if not unknown:
            return False
        if has_rep(unknown) or len(unknown) > 1:
            return Sym('in', x, Snap(unknown), ty='bool')
        return self.equal(unknown[0], x)

    def rep_may_contain(self, rep, x):
        for v, d, segs in rep.cases:
            for s in segs:
                if isinstance(s, Rep):
                    if self.rep_may_contain(s, x):
                        return True
                elif self.equal(s, x) is not False:
                    return True
        return False

    def binop(self, op, a, b):
        if op == 'Add':
            if isinstance(a, (List, tuple)) and isinstance(b, (List, tuple)):
                segs = self.elements(a) + self.elements(b)
                if isinstance(a, tuple) and not has_rep(segs):
                    return tuple(segs)
                return List(segs, kind=getattr(a, 'kind', 'tuple'),
                            ordered=getattr(a, 'ordered', True) and
                            getattr(b, 'ordered', True))
            if 'str' in (kind_of(a), kind_of(b)):
                if not {kind_of(a), kind_of(b)} <= {'str', 'any'}:
                    raise PyExc(self.make_exc('TypeError', []))
                return concat(a, b)
        if op == 'Mod' and kind_of(a) == 'str' and isinstance(a, str):
            return self.percent(a, b)
        if op == 'Mult':
            if isinstance(b, (str, List)) or isinstance(b, Str):
                a, b = b, a
            if isinstance(b, int) and isinstance(a, (List, tuple)):
                segs = self.elements(a) * b
                return tuple(segs) if isinstance(a, tuple) else List(segs)
            if isinstance(a, Str) and isinstance(b, int):
                return concat(*([a] * b))
            if isinstance(a, List):
                src = Source(short(b))
                return List([Rep(src, [('n', (), tuple(a.segs))])])
        if isinstance(a, List) and isinstance(b, List) and op in (
                'BitOr', 'BitAnd', 'Sub', 'BitXor'):
            return self.set_op(op, a, b)
        if isinstance(a, Dict) and isinstance(b, Dict) and op == 'BitOr':
            d = Dict()
            d.entries = {**a.entries, **b.entries}
            d.more = a.more + b.more
            return d
        if is_const(a) and is_const(b):
            try:
                return B.BINOPS[op](a, b)
            except Exception as e:
                raise PyExc(self.make_exc(type(e).__name__, [str(e)]))
        if isinstance(a, Ext) or isinstance(b, Ext) or isinstance(a, Sym) or \
                isinstance(b, Sym) or isinstance(a, Str) or isinstance(b, Str):
            ty = 'int'
            if op == 'Mult' and 'str' in (kind_of(a), kind_of(b)):
                ty = 'str'
            elif op not in ('Add', 'Sub', 'Mult', 'FloorDiv', 'Mod', 'BitAnd',
                            'BitOr', 'BitXor', 'LShift', 'RShift', 'Pow'):
                ty = 'any'
            elif 'any' in (kind_of(a), kind_of(b)):
                ty = 'any'
            return Sym(B.OPNAMES[op], a, b, ty=ty)
        f = a.cls.lookup(B.DUNDER.get(op, '')) if isinstance(a, Obj) else None
        if f is not None:
            return self.call(Bound(f, a), [b])
        raise Unsupported(f'{op} of {short(a)} and {short(b)}')

    def set_op(self, op, a, b):
        if op == 'BitOr':
            return self.dedup(List(a.segs + b.segs, 'set', False))
        keep_common = op == 'BitAnd'
        out = List([], 'set', False)

        def body(x):
            if self.truth(self.contains(b, x)) == keep_common:
                self.append(out, x)
        self.iterate(a, body)
        return out

    def dedup(self, lst):
        """Without repeated constants."""
        seen = set()
        segs = []
        for s in lst.segs:
            if not isinstance(s, Rep):
                if key(s) in seen:
                    continue
                seen.add(key(s))
            segs.append(s)
        lst.segs = segs
        return lst

    # -- strings ---------------------------------------------------------

    def to_str(self, v):
        if isinstance(v, (str, Str)):
            return v
        if v is None or isinstance(v, (bool, int, float)):
            return str(v)
        if isinstance(v, Sym):
            if v.ty == 'str':
                return v
            return Sym('str', v, ty='str')
        if isinstance(v, Obj):
            f = v.cls.lookup('__str__') or v.cls.lookup('__repr__')
            if f is not None:
                return self.call(Bound(f, v), [])
            if v.cls.lookup('__exception__'):
                args = v.attrs.get('args', ())
                if len(args) == 1:
                    return self.to_str(args[0])
                return '' if not args else Sym('str', args, ty='str')
        return Sym('str', v, ty='str')

    def format_value(self, v, conv, spec):
        if conv in ('r', 'a'):
            v = Sym('repr', v, ty='str') if not is_const(v) else repr(v)
        elif conv == 's':
            v = self.to_str(v)
        if spec == '':
            return self.to_str(v)
        if is_const(v) and isinstance(spec, str):
            try:
                return format(v, spec)
            except ValueError as e:
                raise PyExc(self.make_exc('ValueError', [str(e)]))
        if isinstance(v, Sym) and v.ty == 'int' and spec == 'd':
            return self.to_str(v)
        if isinstance(v, (Sym, Str)) and kind_of(v) == 'str' and spec == 's':
            return v
        return Sym('format', v, spec, ty='str')

    def format(self, fmt, args, kw):
        out = []
        auto = itertools.count()
        for lit, field, spec, conv in string_module.Formatter().parse(fmt):
            if lit:
                out.append(lit)
            if field is None:
                continue
            first, rest = string_module._string.formatter_field_name_split(
                field)
            if first == '':
                first = next(auto)
            if isinstance(first, int):
                if first >= len(args):
                    raise PyExc(self.make_exc('IndexError', []))
                v = args[first]
            else:
                if first not in kw:
                    raise PyExc(self.make_exc('KeyError', [first]))
                v = kw[first]
            for is_attr, name in rest:
                v = self.get_attr(v, name) if is_attr else \
                    self.get_item(v, name)
            if '{' in (spec or ''):
                spec = self.format(spec, args, kw)
            out.append(self.format_value(v, conv, spec or ''))
        return concat(*out)

    def percent(self, fmt, args):
        if is_const(args):
            return fmt % args
        if isinstance(args, tuple) and all(is_const(a) for a in args):
            return fmt % args
        if not isinstance(args, (tuple, Dict)):
            args = (args,)
        out = []
        i = 0
        n = 0
        while i < len(fmt):
            j = fmt.find('%', i)
            if j < 0:
                out.append(fmt[i:])
                break
            out.append(fmt[i:j])
            k = j + 1
            name = None
            if fmt[k] == '(':
                e = fmt.index(')', k)
                name = fmt[k + 1:e]
                k = e + 1
            while fmt[k] in '-+ #0123456789.':
                k += 1
            spec = fmt[j + 1:k] if name is None else ''
            c = fmt[k]
            if c == '%':
                out.append('%')
            else:
                if name is not None:
                    v = self.get_item(args, name)
                else:
                    if n >= len(args):
                        raise PyExc(self.make_exc('TypeError', []))
                    v = args[n]
                    n += 1
                if spec or c not in 'sdi':
                    out.append(Sym('percent', '%' + spec + c, v, ty='str'))
                else:
                    out.append(self.to_str(v))
            i = k + 1
        return concat(*out)

    def join(self, sep, items):
        if isinstance(items, List) and not items.ordered:
            self.event('unordered', 'join', items)
        segs = self.elements(items)
        if not has_rep(segs):
            out = []
            for i, s in enumerate(segs):
                if kind_of(s) not in ('str', 'any'):
                    raise PyExc(self.make_exc('TypeError', []))
                if i:
                    out.append(sep)
                out.append(s)
            return concat(*out)
        return concat(Join(sep, segs))

    def map_str(self, v, f):
        """f is a homomorphism on strings."""
        if isinstance(v, str):
            return f(v)
        if isinstance(v, Sym):
            return f(v)
        out = []
        for p in v.parts:
            if isinstance(p, Join):
                segs = []
                for s in p.segs:
                    if isinstance(s, Rep):
                        segs.append(self.map_rep(
                            s, lambda x: self.map_str(x, f)))
                    else:
                        segs.append(self.map_str(s, f))
                out.append(Join(self.map_str(p.sep, f), segs))
            else:
                out.append(f(p))
        return concat(*out)

    # -- items and attributes --------------------------------------------

    def get_item(self, v, i):
        if isinstance(v, Dict):
            return self.dict_get(v, i)
        if isinstance(v, (List, tuple)) or (isinstance(v, str) and
                                            isinstance(i, int)):
            segs = self.elements(v)
            if isinstance(i, int):
                order = segs if i >= 0 else segs[::-1]
                n = i if i >= 0 else -i - 1
                for j, s in enumerate(order):
                    if isinstance(s, Rep):
                        if len(s.cases) > 12 or any(
                                len(c[2]) > 1 for c in s.cases) or \
                                getattr(s.src, 'term', None) is not None:
                            return Sym('getitem', Snap(segs), i)
                        r = self.get_slice(List(segs), i,
                                           i + 1 if i != -1 else None, None)
                        r = self.first_of(r)
                        if r is UNSET:
                            raise PyExc(self.make_exc('IndexError', []))
                        return r
                    if j == n:
                        return s
                raise PyExc(self.make_exc('IndexError', []))
            return Sym('getitem', Snap(segs), i)
        if isinstance(v, Str) and isinstance(i, int):
            p = v.parts[0] if i >= 0 else v.parts[-1]
            if isinstance(p, str) and (i < len(p) if i >= 0 else
                                       -i <= len(p)):
                return p[i]
            return Sym('getitem', v, i, ty='str')
        if isinstance(v, (Sym, Ext)):
            return Sym('getitem', v, i,
                       ty='str' if kind_of(v) == 'str' else 'any')
        if isinstance(v, Obj):
            f = v.cls.lookup('__getitem__')
            if f is not None:
                return self.call(Bound(f, v), [i])
        raise Unsupported(f'item of {short(v)}')

    def equal_maybe(self, a, b):
        if isinstance(a, Obj) or isinstance(b, Obj):
            return True
        if isinstance(a, (List, tuple)) or isinstance(b, (List, tuple)):
            return True
        return self.equal(a, b) is not False

    def dict_get(self, d, i, default=UNSET):
        if key(i) in d.entries:
            return d.entries[key(i)][1]
        maybe = [(k, v) for k, v in d.entries.values()
                 if self.equal_maybe(k, i)]
        if len(maybe) > 2 and all(
                is_const(k) and (is_const(v) or isinstance(v, (Str, Sym)))
                for k, v in maybe):
            # one decision instead of one for every key
            if self.decide(Sym('in', i, Snap([k for k, v in maybe]),
                               ty='bool')):
                kinds = {kind_of(v) for k, v in maybe}
                return Sym('lookup', Snap(maybe), i,
                           ty=kinds.pop() if len(kinds) == 1 else 'any')
            maybe = []
        for k, v in maybe:
            e = self.equal(k, i)
            if e is True:
                return v
            if e is not False and self.decide(e):
                return v
        if d.more:
            may = [r for r in d.more if self.rep_may_contain(
                self.map_rep(r, lambda kv: kv[0]), i)]
            if may:
                here = self.contains(List(
                    [self.map_rep(r, lambda kv: kv[0]) for r in may]), i)
                if here is not False and self.truth(here):
                    return Sym('lookup', Snap(may), i)
        if default is not UNSET:
            return default
        raise PyExc(self.make_exc('KeyError', [i]))

    def get_slice(self, v, lo, hi, step):
        if all(x is None or isinstance(x, int) for x in (lo, hi, step)):
            if isinstance(v, (str, tuple, bytes)):
                return v[lo:hi:step]
            if isinstance(v, List):
                if not has_rep(v.segs):
                    return List(v.segs[lo:hi:step])
                r = self.slice_unknown(v.segs, lo, hi, step)
                if r is not None:
                    return List(r)
                if step in (None, 1):
                    r = self.slice_cases(v.segs, lo, hi)
                    if r is not None:
                        return List(r)
                src = Source('slice')
                t = Sym('slice', Snap(v.segs), lo, hi, step)
                src.term = t
                return List([Rep(src, [('element', (), (Sym('elem', t),))])])
            if isinstance(v, Str) and step is None:
                first, last = v.parts[0], v.parts[-1]
                if hi is None and isinstance(lo, int) and lo >= 0 and \
                        isinstance(first, str) and lo <= len(first):
                    return concat(first[lo:], *v.parts[1:])
                if lo is None and isinstance(hi, int) and hi < 0 and \
                        isinstance(last, str) and -hi <= len(last):
                    return concat(*v.parts[:-1], last[:hi])
        return Sym('slice', v, lo, hi, step,
                   ty='str' if kind_of(v) == 'str' else 'any')

    def slice_cases(self, segs, lo, hi):
        """The elements whose position is in a range."""
        out = []
        for n, s in enumerate(segs):
            if not isinstance(s, Rep):
                return None
            if any(len(c[2]) > 1 or any(isinstance(x, Rep) for x in c[2])
                   for c in s.cases):
                return None
            cond = Sym('in slice', Snap(segs), n, lo, hi, ty='bool')
            out.append(Rep(s.src, [(v, tuple(d) + ((cond, True),), x)
                                   for v, d, x in s.cases], s.rev, s.loop,
                           s.mark, s.base))
        return out

    def first_of(self, v):
        """The first element or UNSET."""
        def body(x):
            raise _Return(x)
        try:
            self.iterate(v, body)
        except _Return as r:
            return r.value
        return UNSET

    def slice_unknown(self, segs, lo, hi, step):
        if step == -1 and lo is None and hi is None:
            return reverse(segs)
        if step not in (None, 1):
            return None
        segs = list(segs)
        if hi is not None:
            if hi >= 0:
                if has_rep(segs[:hi]):
                    return None
                segs = segs[:hi]
            else:
                if has_rep(segs[hi:]):
                    return None
                segs = segs[:hi]
        if lo is not None:
            if lo < 0 or has_rep(segs[:lo]):
                return None
            segs = segs[lo:]
        return segs

    def get_attr(self, v, name, *default):
        if isinstance(v, Obj):
            if name in v.overrides:
                return v.overrides[name]
            d = v.cls.lookup(name)
            if isinstance(d, Descriptor) and d.kind == 'property':
                return self.call(Bound(d.func, v), [])
            if name in v.attrs:
                return v.attrs[name]
            if d is not None:
                return self.bind(d, v, v.cls)
            if name == '__class__':
                return v.cls
            if name == '__dict__':
                return Dict(v.attrs.items())
            g = v.cls.lookup('__getattr__')
            if g is not None:
                return self.call(Bound(g, v), [name])
            ext = [b for c in v.cls.mro() for b in c.bases
                   if isinstance(b, Ext)]
            if ext:
                return ('extmethod', ext[0], v, name)
            if default:
                return default[0]
            raise PyExc(self.make_exc('AttributeError', [name]))
        if isinstance(v, Class):
            d = v.lookup(name)
            if d is not None:
                if isinstance(d, Descriptor):
                    if d.kind == 'classmethod':
                        return Bound(d.func, v)
                    return d.func
                return d
            if name == '__name__':
                return v.name
        if isinstance(v, Module):
            if name in v.vars:
                return v.vars[name]
            return self.module(f'{v.name}.{name}')
        if isinstance(v, Ext):
            return self.ext_value(f'{v.path}.{name}')
        if isinstance(v, tuple) and len(v) == 3 and v[0] == 'super':
            mro = v[2].cls.mro() if isinstance(v[2], Obj) else v[2].mro()
            at = mro.index(v[1])
            for c in mro[at + 1:]:
                if name in c.attrs:
                    return self.bind(c.attrs[name], v[2], c)
            return Builtin('super.' + name, lambda *a, **k: None)
        if isinstance(v, Func) and name in ('__name__', '__doc__'):
            return v.name
        if isinstance(v, (str, Str, List, Dict, tuple, int, bytes)) or \
                isinstance(v, Sym):
            m = B.method(self, v, name)
            if m is not None:
                return Builtin(name, m)
            if isinstance(v, Sym):
                return Sym('attr', v, name)
        if default:
            return default[0]
        raise PyExc(self.make_exc('AttributeError', [name]))

    def bind(self, d, obj, cls):
        if isinstance(d, Descriptor):
            if d.kind == 'property':
                return self.call(Bound(d.func, obj), [])
            if d.kind == 'classmethod':
                return Bound(d.func, obj.cls if isinstance(obj, Obj) else obj)
            return d.func
        if isinstance(d, (Func, Builtin)):
            return Bound(d, obj)
        return d

    # -- calls -----------------------------------------------------------

    def event(self, *what):
        self.append(self.events, tuple(what) + (('at', self.where),))

    def make_exc(self, name, args):
        cls = self.builtins.get(name) or self.builtins['Exception']
        return Obj(cls, {'args': tuple(args)})

    def call(self, f, args, kw=None):
        kw = kw or {}
        if isinstance(f, Bound):
            return self.call(f.func, [f.self] + list(args), kw)
        if isinstance(f, Builtin):
            return f.f(*args, **kw)
        if isinstance(f, Func):
            return self.call_func(f, args, kw)
        if isinstance(f, Class):
            return self.instantiate(f, args, kw)
        if isinstance(f, Ext):
            return self.call_ext(f.path, args, kw)
        if isinstance(f, tuple) and len(f) == 4 and f[0] == 'extmethod':
            h = self.ext.get(f'{f[1].path}.{f[3]}')
            if h is not None:
                return h(self, f[2], *args, **kw)
            t = Sym('method', f[1].path, f[3], f[2], *args)
            self.event('call', t)
            return self.maybe_raise(t)
        if isinstance(f, Sym):
            t = Sym('call', f, *args,
                    *[(k, v) for k, v in sorted(kw.items())])
            self.event('call', t)
            return self.maybe_raise(t)
        if isinstance(f, Obj):
            g = f.cls.lookup('__call__')
            if g is not None:
                return self.call(Bound(g, f), args, kw)
        if isinstance(f, Descriptor):
            return self.call(f.func, args, kw)
        if f is None or is_const(f):
            raise PyExc(self.make_exc('TypeError', []))
        raise Unsupported(f'call of {short(f)}')

    def maybe_raise(self, t):
        if self.ext_raises:
            if self.decide(Sym('raises', t, next(_counter) if False else 0,
                               ty='bool')):
                raise PyExc(Sym('exception', t))
        return t

    def call_ext(self, path, args, kw):
        h = self.ext.get(path)
        if callable(h):
            return h(self, *args, **kw)
        if path in B.PURE and all(is_const(a) for a in args) and not kw:
            try:
                return self.import_result(B.PURE[path](*args))
            except Exception as e:
                raise PyExc(self.make_exc(type(e).__name__, [str(e)]))
        t = Sym('call', Ext(path), *args,
                *[(k, v) for k, v in sorted(kw.items())],
                ty=B.RESULT.get(path, 'any'))
        if path not in B.PURE:
            self.event('call', t)
            return self.maybe_raise(t)
        return t

    def import_result(self, v):
        if isinstance(v, list):
            return List([self.import_result(x) for x in v])
        if isinstance(v, tuple):
            return tuple(self.import_result(x) for x in v)
        return v

    def instantiate(self, cls, args, kw):
        obj = Obj(cls)
        init = cls.lookup('__init__')
        if cls.lookup('__exception__'):
            obj.attrs['args'] = tuple(args)
        if cls.lookup('__dataclass__') is not None and init is None:
            fields = [x for c in reversed(cls.mro())
                      for x in c.attrs.get('__dataclass__', [])]
            names = [n for n, _, _ in fields]
            given = dict(zip(names, args))
            given.update(kw)
            for n, default, fr in fields:
                if n in given:
                    obj.attrs[n] = given[n]
                elif default is not None:
                    v = self.eval(default, fr)
                    if isinstance(v, Sym) and 'default_factory' in repr(v):
                        f = dict(a for a in v.args if isinstance(a, tuple)
                                 and len(a) == 2)['default_factory']
                        v = self.call(f, [])
                    obj.attrs[n] = v
                else:
                    raise PyExc(self.make_exc('TypeError', []))
            post = cls.lookup('__post_init__')
            if post is not None:
                self.call(Bound(post, obj), [])
            return obj
        if init is not None:
            self.call(Bound(init, obj), args, kw)
        elif any(isinstance(b, Ext) for c in cls.mro() for b in c.bases):
            obj.attrs['__ext_args__'] = tuple(args)
        return obj

    def call_func(self, f, args, kw):
        node = f.node
        hook = self.call_hooks.get(f.name)
        if hook is not None:
            r = hook(self, f, args, kw)
            if r is not NotImplemented:
                return r
        frame = Frame(f.frame, f.frame.globals, f)
        while getattr(frame.parent, 'is_class', False):
            frame.parent = frame.parent.parent
        a = node.args
        params = [p.arg for p in a.posonlyargs + a.args]
        args = list(args)
        kw = dict(kw)
        if has_rep(args):
            raise Unsupported('call with an unknown number of arguments')
        values = frame.vars
        for p in params:
            if args:
                values[p] = args.pop(0)
        for p in params:
            if p in kw:
                if p in values:
                    raise PyExc(self.make_exc('TypeError', []))
                values[p] = kw.pop(p)
        for p, d in zip(reversed(params), reversed(f.defaults)):
            values.setdefault(p, d)
        for p, d in zip(a.kwonlyargs, f.kw_defaults):
            if p.arg in kw:
                values[p.arg] = kw.pop(p.arg)
            elif d is not None:
                values[p.arg] = d[0]
        if a.vararg is not None:
            values[a.vararg.arg] = tuple(args)
            args = []
        if a.kwarg is not None:
            values[a.kwarg.arg] = Dict(kw.items())
            kw = {}
        if args or kw or any(p not in values for p in params):
            raise PyExc(self.make_exc('TypeError', [f.name]))
        self.analysed.add((f.frame.globals.file, self.qualname(f)))
        where = self.where
        if self.depth >= MAX_DEPTH:
            if self.concrete:
                raise PyExc(self.make_exc('RecursionError', [f.name]))
            raise Unsupported(f'recursion of {f.name}')
        self.depth += 1
        try:
            if isinstance(node, ast.Lambda):
                return self.eval(node.body, frame)
            if f.generator:
                frame.yields = List()
                try:
                    self.block(node.body, frame)
                except _Return:
                    pass
                return frame.yields
            if f.cls is not None and f.name == '__init__' or \
                    not f.has_if:
                try:
                    self.block(node.body, frame)
                except _Return as e:
                    return e.value
                return None

            def run():
                try:
                    self.block(node.body, frame)
                except _Return as e:
                    return e.value
            v = self.merged(run, ('end',))
            return v[0] if v is not None else run()
        finally:
            self.depth -= 1
            self.where = where

    def qualname(self, f):
        return f'{f.cls.name}.{f.name}' if f.cls is not None else f.name


class Snap:
    """An immutable copy of the segments of a list, used in terms."""
    __slots__ = ('segs', 'k')

    def __init__(self, segs):
        self.segs = tuple(segs)
        self.k = ('snap',) + tuple(key(s) for s in self.segs)

    def __repr__(self):
        return f'Snap{list(self.segs)!r}'

    def __eq__(self, other):
        return isinstance(other, Snap) and self.k == other.k

    def __hash__(self):
        return hash(self.k)


def decision_tree(values):
    """The value of [(decisions, value)] as a term."""
    if len(values) == 1 or not values[0][0]:
        return values[0][1]
    c = values[0][0][0][0]
    sides = [], []
    for d, v in values:
        assert d[0][0].k == c.k
        sides[0 if d[0][1] else 1].append((d[1:], v))
    if not sides[0] or not sides[1]:
        return decision_tree(sides[0] or sides[1])
    a, b = decision_tree(sides[0]), decision_tree(sides[1])
    if same(a, b):
        return a
    if a is True and b is False:
        return c
    if a is False and b is True:
        return Sym('not', c, ty='bool')
    return Sym('cond', c, a, b, ty='bool' if is_bool(a) else 'int')


def looped(rep, loop, mark=None, old=None, base=None):
    """Remembers for rendering what a loop's own terms stand for."""
    return Rep(rep.src, rep.cases, rep.rev, loop,
               None if mark is None else (mark, old), base)


def loop_key(rep):
    return rep.src.name


def same(a, b):
    if a is b:
        return True
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (Obj, List, Dict, Func, Class)) or a is UNSET or \
            b is UNSET:
        return False
    try:
        return type(a) is type(b) and key(a) == key(b)
    except Exception:
        return False


def is_const(v):
    return v is None or isinstance(v, (bool, int, str, float, bytes))


def never_none(segs):
    return all(never_none([x for c in s.cases for x in c[2]])
               if isinstance(s, Rep) else
               isinstance(s, (Obj, str, Str, List, tuple)) for s in segs)


def is_bool(v):
    return isinstance(v, bool) or (isinstance(v, Sym) and v.ty == 'bool')


def surely(rep):
    """Does the Rep have at least one value?"""
    return getattr(rep.src, 'single', False) and all(
        any(not isinstance(x, Rep) or surely(x) for x in c[2])
        for c in rep.cases)


def has_rep(segs):
    return any(isinstance(s, Rep) for s in segs)


def kind_of(v):
    if isinstance(v, bool):
        return 'bool'
    if isinstance(v, int):
        return 'int'
    if isinstance(v, (str, Str)):
        return 'str'
    if isinstance(v, Sym):
        return v.ty
    if v is None:
        return 'none'
    if isinstance(v, (List, tuple)):
        return 'list'
    if isinstance(v, Dict):
        return 'dict'
    return 'any'


def reverse(segs):
    out = []
    for s in reversed(list(segs)):
        if isinstance(s, Rep):
            cases = [(v, d, tuple(reverse(x))) for v, d, x in s.cases]
            s = Rep(s.src, cases, not s.rev, s.loop, s.mark, s.base)
        out.append(s)
    return out


def is_generator(node):
    todo = list(node.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo += list(ast.iter_child_nodes(n))
    return False
