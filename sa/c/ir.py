"""Front end of the C analysis: clang's IR of the analysed translation unit.

The C source is compiled to LLVM IR (no optimisation, only promotion of
scalar locals to SSA registers) and the text is parsed into plain Python
objects.  Nothing of the analysed program is executed.
"""

import os
import re
import subprocess
import tempfile


class IRError(Exception):
    pass


def compile_c(sources, include_dirs, defines=(), extra=(), work=None):
    """Compile C file(s) to one .ll text each; returns list of IR texts."""
    texts = []
    with tempfile.TemporaryDirectory() as tmp:
        for i, src in enumerate(sources):
            raw = os.path.join(tmp, f'{i}.raw.ll')
            out = os.path.join(tmp, f'{i}.ll')
            cmd = ['clang', '-S', '-emit-llvm', '-O0', '-Xclang',
                   '-disable-O0-optnone', '-g', '-std=gnu11',
                   '-fno-discard-value-names', '-w']
            cmd += [f'-I{d}' for d in include_dirs]
            cmd += [f'-D{d}' for d in defines]
            cmd += list(extra)
            cmd += [src, '-o', raw]
            res = subprocess.run(cmd, capture_output=True, text=True)
            if res.returncode != 0:
                raise IRError(f'clang failed on {src}:\n{res.stderr}')
            res = subprocess.run(['opt', '-S', '-passes=sroa,mem2reg', raw,
                                  '-o', out], capture_output=True, text=True)
            if res.returncode != 0:
                raise IRError(f'opt failed on {src}:\n{res.stderr}')
            with open(out) as fin:
                texts.append(fin.read())
    return texts


# --------------------------------------------------------------------------
# Types

class Ty:
    __slots__ = ('k', 'w', 'n', 'el', 'fields', 'name')

    def __init__(self, k, w=0, n=0, el=None, fields=None, name=None):
        self.k = k              # int ptr float void array struct label func
        self.w = w
        self.n = n
        self.el = el
        self.fields = fields
        self.name = name

    def __repr__(self):
        return f'<{self.k}{self.w or ""}{self.name or ""}>'


VOID = Ty('void')
PTR = Ty('ptr', 64)
I1 = Ty('int', 1)


class Module:

    def __init__(self):
        self.structs = {}
        self.globals = {}
        self.functions = {}
        self.declares = set()
        self.md = {}

    def size(self, ty):
        return self.layout(ty)[0]

    def layout(self, ty):
        """(size, align, field offsets)"""
        if ty.k == 'int':
            n = max(1, ty.w // 8)
            if n not in (1, 2, 4, 8, 16):
                raise IRError(f'odd int {ty.w}')
            return n, min(n, 8), None
        if ty.k == 'ptr':
            return 8, 8, None
        if ty.k == 'float':
            return ty.w // 8, ty.w // 8, None
        if ty.k == 'array':
            s, a, _ = self.layout(ty.el)
            return s * ty.n, a, None
        if ty.k == 'struct':
            fields = ty.fields
            if fields is None:
                fields = self.structs[ty.name].fields
            if fields is None:
                raise IRError(f'opaque struct {ty.name}')
            off = 0
            al = 1
            offs = []
            for f in fields:
                s, a, _ = self.layout(f)
                off = (off + a - 1) // a * a
                offs.append(off)
                off += s
                al = max(al, a)
            return (off + al - 1) // al * al, al, offs
        raise IRError(f'no layout for {ty.k}')

    def struct_fields(self, ty):
        return ty.fields if ty.fields is not None else self.structs[ty.name].fields


class Fn:

    def __init__(self, name):
        self.name = name
        self.params = []        # (Ty, name)
        self.ret = VOID
        self.blocks = {}        # label -> [Inst]
        self.order = []
        self.internal = False
        self.variadic = False
        self.dbg = None
        self.file = None
        self.line = None


class Inst:
    __slots__ = ('op', 'res', 'ty', 'args', 'x', 'line', 'file')

    def __init__(self, op, res, ty, args, x=None):
        self.op = op
        self.res = res
        self.ty = ty
        self.args = args
        self.x = x
        self.line = None
        self.file = None

    def __repr__(self):
        return f'{self.res}={self.op} {self.args} {self.x} @{self.line}'


TOK = re.compile(r'''
    \s+
  | (?P<str>c"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*")
  | (?P<qn>[%@]"[^"]*")
  | (?P<name>[%@][-A-Za-z0-9_.$]+)
  | (?P<md>!(?:[A-Za-z_.]+(?=[(\s])|"[^"]*"|[0-9]+|(?=\{)))
  | (?P<fp>0x[KLMHR]?[0-9A-Fa-f]+|-?[0-9]+\.[0-9]+(?:[eE][-+]?[0-9]+)?)
  | (?P<num>-?[0-9]+)
  | (?P<attr>\#[0-9]+)
  | (?P<word>[A-Za-z_][-A-Za-z0-9_.$]*)
  | (?P<strlit>"[^"]*")
  | (?P<p>\.\.\.|[=,(){}\[\]<>*:|])
''', re.X)


def tokenize(s):
    pos = 0
    out = []
    n = len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m:
            raise IRError(f'cannot tokenize: {s[pos:pos+60]!r}')
        pos = m.end()
        if m.lastgroup:
            out.append((m.lastgroup, m.group(m.lastgroup)))
    return out


PARAM_ATTRS = {'noundef', 'zeroext', 'signext', 'inreg', 'nocapture', 'noalias',
               'readonly', 'writeonly', 'immarg', 'nonnull', 'returned', 'readnone',
               'nofree', 'noreturn', 'dso_local', 'local_unnamed_addr',
               'unnamed_addr', 'nest', 'swiftself', 'allocptr', 'internal',
               'private', 'external', 'hidden', 'tail', 'musttail', 'notail',
               'fastcc', 'ccc', 'inbounds', 'volatile', 'exact', 'disjoint', 'nneg',
               'constant', 'global', 'weak', 'linkonce_odr', 'linkonce',
               'nuw', 'nsw', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract',
               'afn', 'reassoc', 'thread_local', 'common', 'available_externally'}


class LineParser:

    def __init__(self, mod, toks):
        self.m = mod
        self.t = toks
        self.i = 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else (None, None)

    def next(self):
        tok = self.peek()
        self.i += 1
        return tok

    def accept(self, v):
        if self.peek()[1] == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        tok = self.next()
        if tok[1] != v:
            raise IRError(f'expected {v} got {tok} in {self.t}')

    def skip_attrs(self):
        seen = set()
        while True:
            k, v = self.peek()
            if k == 'word' and v in PARAM_ATTRS:
                seen.add(v)
                self.i += 1
            elif k == 'word' and v in ('align', 'dereferenceable', 'sret', 'byval',
                                       'dereferenceable_or_null', 'range', 'captures',
                                       'memory', 'addrspace', 'elementtype'):
                self.i += 1
                seen.add(v)
                if self.accept('('):
                    d = 1
                    while d:
                        v2 = self.next()[1]
                        d += (v2 == '(') - (v2 == ')')
                elif self.peek()[0] == 'num':
                    self.i += 1
            elif k == 'attr':
                self.i += 1
            else:
                return seen

    def type(self):
        k, v = self.next()
        if k == 'word':
            if v == 'void':
                ty = VOID
            elif v == 'ptr':
                ty = PTR
            elif v == 'float':
                ty = Ty('float', 32)
            elif v == 'double':
                ty = Ty('float', 64)
            elif v == 'x86_fp80':
                ty = Ty('float', 128)
            elif v == 'label':
                ty = Ty('label')
            elif v == 'metadata':
                ty = Ty('metadata')
            elif re.fullmatch(r'i[0-9]+', v):
                ty = Ty('int', int(v[1:]))
            else:
                raise IRError(f'type {v} in {self.t}')
        elif v == '[':
            n = int(self.next()[1])
            self.expect('x')
            el = self.type()
            self.expect(']')
            ty = Ty('array', n=n, el=el)
        elif v == '{':
            fields = []
            while not self.accept('}'):
                fields.append(self.type())
                self.accept(',')
            ty = Ty('struct', fields=fields)
        elif v == '<':
            raise IRError('vector/packed type')
        elif k in ('name', 'qn'):
            ty = Ty('struct', name=v)
        else:
            raise IRError(f'type {v} in {self.t}')
        if self.peek()[1] == '(' and ty.k in ('void', 'int', 'ptr', 'float') \
                and self.fn_type_ahead():
            d = 0
            while True:
                v = self.next()[1]
                d += (v == '(') - (v == ')')
                if d == 0:
                    break
            ty = Ty('func', el=ty)
        return ty

    def fn_type_ahead(self):
        # "void (ptr, i32) %f(" in calls to variadic functions
        d = 0
        j = self.i
        while j < len(self.t):
            v = self.t[j][1]
            d += (v == '(') - (v == ')')
            if d == 0:
                break
            j += 1
        return j + 1 < len(self.t) and self.t[j + 1][0] in ('name', 'qn')

    def value(self, ty):
        """Operand: ('r', name) | ('g', name) | ('c', int) | ('null',) | ..."""
        k, v = self.next()
        if k in ('name', 'qn'):
            return ('r', v) if v[0] == '%' else ('g', v)
        if k == 'num':
            return ('c', int(v))
        if v == 'true':
            return ('c', 1)
        if v == 'false':
            return ('c', 0)
        if v in ('null', 'none'):
            return ('null',)
        if v in ('undef', 'poison'):
            return ('undef',)
        if v == 'zeroinitializer':
            return ('zero',)
        if k == 'fp':
            return ('fp', v)
        if k == 'str':
            return ('bytes', parse_bytes(v))
        if v == '[':
            els = []
            while not self.accept(']'):
                ety = self.type()
                els.append((ety, self.value(ety)))
                self.accept(',')
            return ('agg', els)
        if v == '{':
            els = []
            while not self.accept('}'):
                ety = self.type()
                els.append((ety, self.value(ety)))
                self.accept(',')
            return ('agg', els)
        if v in ('getelementptr', 'bitcast', 'inttoptr', 'ptrtoint'):
            op = v
            self.skip_attrs()
            self.expect('(')
            if op == 'getelementptr':
                sty = self.type()
                self.expect(',')
                args = []
                while True:
                    aty = self.type()
                    self.skip_attrs()
                    args.append((aty, self.value(aty)))
                    if not self.accept(','):
                        break
                self.expect(')')
                return ('cgep', sty, args)
            aty = self.type()
            val = self.value(aty)
            self.expect('to')
            self.type()
            self.expect(')')
            return ('ccast', op, val)
        raise IRError(f'operand {k} {v} in {self.t}')

    def tyval(self):
        ty = self.type()
        self.skip_attrs()
        return ty, self.value(ty)


def parse_bytes(v):
    s = v[2:-1]
    out = []
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


BIN = {'add', 'sub', 'mul', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'udiv',
       'sdiv', 'urem', 'srem'}
CASTS = {'sext', 'zext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'fptosi',
         'fptoui', 'sitofp', 'uitofp', 'fpext', 'fptrunc', 'freeze'}
FBIN = {'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}


def parse_inst(mod, line):
    dbg = None
    m = re.search(r', !dbg !([0-9]+)', line)
    if m:
        dbg = int(m.group(1))
    line = re.sub(r', ![a-zA-Z_.]+ ![0-9]+', '', line)
    p = LineParser(mod, tokenize(line))
    res = None
    if p.peek()[0] in ('name', 'qn') and p.t[1][1] == '=':
        res = p.next()[1]
        p.next()
    p.skip_attrs()
    op = p.next()[1]
    if op in ('tail', 'musttail', 'notail'):
        op = p.next()[1]
    flags = set()
    if op in BIN or op in FBIN:
        flags = p.skip_attrs()
        ty = p.type()
        a = p.value(ty)
        p.expect(',')
        b = p.value(ty)
        inst = Inst(op, res, ty, [a, b], flags)
    elif op == 'fneg':
        p.skip_attrs()
        ty = p.type()
        inst = Inst(op, res, ty, [p.value(ty)])
    elif op in ('icmp', 'fcmp'):
        p.skip_attrs()
        pred = p.next()[1]
        ty = p.type()
        a = p.value(ty)
        p.expect(',')
        b = p.value(ty)
        inst = Inst(op, res, ty, [a, b], pred)
    elif op in CASTS:
        fl = p.skip_attrs()
        ty = p.type()
        a = p.value(ty)
        if op == 'freeze':
            inst = Inst(op, res, ty, [a], ty)
        else:
            p.expect('to')
            to = p.type()
            inst = Inst(op, res, ty, [a], to)
    elif op == 'alloca':
        p.skip_attrs()
        ty = p.type()
        n = None
        if p.accept(','):
            if p.peek()[1] != 'align':
                n = p.tyval()
        inst = Inst(op, res, ty, [], n)
    elif op == 'load':
        p.skip_attrs()
        ty = p.type()
        p.expect(',')
        _, a = p.tyval()
        inst = Inst(op, res, ty, [a])
    elif op == 'store':
        p.skip_attrs()
        ty, v = p.tyval()
        p.expect(',')
        _, a = p.tyval()
        inst = Inst(op, res, ty, [v, a])
    elif op == 'getelementptr':
        p.skip_attrs()
        sty = p.type()
        p.expect(',')
        args = []
        while True:
            args.append(p.tyval())
            if not p.accept(','):
                break
        inst = Inst(op, res, sty, args)
    elif op == 'br':
        if p.accept('label'):
            inst = Inst('br', None, None, [], [p.next()[1]])
        else:
            ty = p.type()
            c = p.value(ty)
            p.expect(',')
            p.expect('label')
            t = p.next()[1]
            p.expect(',')
            p.expect('label')
            f = p.next()[1]
            inst = Inst('condbr', None, ty, [c], [t, f])
    elif op == 'switch':
        ty = p.type()
        c = p.value(ty)
        p.expect(',')
        p.expect('label')
        d = p.next()[1]
        p.expect('[')
        cases = []
        while not p.accept(']'):
            cty = p.type()
            cv = p.value(cty)
            p.expect(',')
            p.expect('label')
            cases.append((cv[1], p.next()[1]))
        inst = Inst('switch', None, ty, [c], (d, cases))
    elif op == 'ret':
        ty = p.type()
        inst = Inst('ret', None, ty, [] if ty.k == 'void' else [p.value(ty)])
    elif op == 'unreachable':
        inst = Inst('unreachable', None, None, [])
    elif op == 'phi':
        p.skip_attrs()
        ty = p.type()
        inc = []
        while True:
            p.expect('[')
            v = p.value(ty)
            p.expect(',')
            lbl = p.next()[1]
            p.expect(']')
            inc.append((v, lbl))
            if not p.accept(','):
                break
        inst = Inst('phi', res, ty, inc)
    elif op == 'select':
        p.skip_attrs()
        cty, c = p.tyval()
        p.expect(',')
        ty, a = p.tyval()
        p.expect(',')
        _, b = p.tyval()
        inst = Inst('select', res, ty, [c, a, b])
    elif op == 'call':
        p.skip_attrs()
        ty = p.type()
        if ty.k == 'func':
            ty = ty.el
        k, v = p.next()
        if k not in ('name', 'qn'):
            raise IRError(f'call target {v}: {line}')
        callee = ('r', v) if v[0] == '%' else ('g', v)
        if v.startswith('@llvm.dbg') or v.startswith('@llvm.lifetime'):
            return None
        p.expect('(')
        args = []
        while not p.accept(')'):
            aty = p.type()
            p.skip_attrs()
            args.append((aty, p.value(aty)))
            p.accept(',')
        inst = Inst('call', res, ty, args, callee)
    elif op in ('extractvalue', 'insertvalue'):
        inst = Inst('unsupported', res, None, [], line)
    else:
        inst = Inst('unsupported', res, None, [], line)
    inst.line = dbg
    return inst


def parse_module(text):
    mod = Module()
    cur = None
    block = None
    pending = ''
    for line in text.split('\n'):
        if cur is None:
            if line.startswith('%') and ' = type ' in line:
                p = LineParser(mod, tokenize(line))
                name = p.next()[1]
                p.expect('=')
                p.next()
                if p.peek()[1] == 'opaque':
                    mod.structs[name] = Ty('struct', name=name)
                else:
                    mod.structs[name] = p.type()
            elif line.startswith('@'):
                mline = re.sub(r', !dbg ![0-9]+', '', line)
                p = LineParser(mod, tokenize(mline))
                name = p.next()[1]
                p.expect('=')
                const = False
                external = False
                while p.peek()[0] == 'word' and p.peek()[1] in PARAM_ATTRS | {'align'}:
                    w = p.next()[1]
                    const = const or w == 'constant'
                    external = external or w == 'external'
                ty = p.type()
                val = None if external else p.value(ty)
                mod.globals[name] = (ty, val, const, mline)
            elif line.startswith('declare '):
                m = re.search(r'@([-A-Za-z0-9_.$]+)\(', line)
                mod.declares.add('@' + m.group(1))
            elif line.startswith('define '):
                cur = parse_define(mod, line)
                block = None
            elif line.startswith('!'):
                m = re.match(r'!([0-9]+) = (?:distinct )?(.*)$', line)
                if m:
                    mod.md[int(m.group(1))] = m.group(2)
        else:
            if line.startswith('}'):
                mod.functions[cur.name] = cur
                cur = None
                continue
            if not line.strip():
                continue
            m = re.match(r'^([-A-Za-z0-9_.$]+|"[^"]*"):', line)
            if m:
                block = '%' + m.group(1)
                cur.blocks[block] = []
                cur.order.append(block)
                continue
            if block is None:
                # implicit entry label
                block = '%entry.implicit'
                cur.blocks[block] = []
                cur.order.append(block)
            s = line.strip()
            if pending:
                s = pending + ' ' + s
                pending = ''
            if s.startswith('switch') and ']' not in s:
                pending = s
                continue
            s = re.sub(r'\s*;.*$', '', s)
            if s.startswith('#dbg'):
                continue
            inst = parse_inst(mod, s)
            if inst is not None:
                cur.blocks[block].append(inst)
    # debug lines
    files = {}
    for fn in mod.functions.values():
        if fn.dbg is not None:
            md = mod.md.get(fn.dbg, '')
            m = re.search(r'line: ([0-9]+)', md)
            fn.line = int(m.group(1)) if m else None
        for insts in fn.blocks.values():
            for inst in insts:
                if inst.line is not None:
                    m = re.search(r'line: ([0-9]+)', mod.md.get(inst.line, ''))
                    inst.line = int(m.group(1)) if m else None
    return mod


def parse_define(mod, line):
    m = re.search(r'!dbg !([0-9]+)', line)
    dbg = int(m.group(1)) if m else None
    line = re.sub(r' !dbg ![0-9]+', '', line)
    toks = tokenize(line.rstrip(' {'))
    p = LineParser(mod, toks)
    p.next()
    attrs = p.skip_attrs()
    ty = p.type()
    name = p.next()[1]
    fn = Fn(name[1:])
    fn.ret = ty
    fn.dbg = dbg
    fn.internal = 'internal' in attrs
    p.expect('(')
    i = 0
    while not p.accept(')'):
        if p.accept('...'):
            fn.variadic = True
            continue
        pty = p.type()
        p.skip_attrs()
        if p.peek()[0] in ('name', 'qn'):
            pname = p.next()[1]
        else:
            pname = f'%{i}'
        fn.params.append((pty, pname))
        i += 1
        p.accept(',')
    return fn


# --------------------------------------------------------------------------
# Control flow

class CFG:

    def __init__(self, fn):
        self.fn = fn
        self.succ = {}
        self.pred = {b: [] for b in fn.order}
        for b in fn.order:
            t = fn.blocks[b][-1]
            if t.op in ('br', 'condbr'):
                s = list(dict.fromkeys(t.x))
            elif t.op == 'switch':
                s = list(dict.fromkeys([t.x[0]] + [c[1] for c in t.x[1]]))
            else:
                s = []
            self.succ[b] = s
            for x in s:
                self.pred[x].append(b)
        self.entry = fn.order[0]
        # reverse post order
        seen = set()
        post = []
        stack = [(self.entry, iter(self.succ[self.entry]))]
        seen.add(self.entry)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succ[s])))
                    break
            else:
                post.append(b)
                stack.pop()
        self.rpo = list(reversed(post))
        self.idx = {b: i for i, b in enumerate(self.rpo)}
        # dominators
        idom = {self.entry: self.entry}
        changed = True
        while changed:
            changed = False
            for b in self.rpo[1:]:
                ps = [q for q in self.pred[b] if q in idom]
                new = ps[0]
                for q in ps[1:]:
                    new = self._inter(idom, new, q)
                if idom.get(b) != new:
                    idom[b] = new
                    changed = True
        self.idom = idom
        # natural loops
        self.loops = {}
        for b in self.rpo:
            for s in self.succ[b]:
                if self.idx[s] <= self.idx[b]:
                    if not self.dominates(s, b):
                        raise IRError(f'irreducible loop in {fn.name}')
                    body = self.loops.setdefault(s, {s})
                    work = [b]
                    while work:
                        x = work.pop()
                        if x not in body:
                            body.add(x)
                            work += [q for q in self.pred[x] if q in self.idx]

    def _inter(self, idom, a, b):
        while a != b:
            while self.idx[a] > self.idx[b]:
                a = idom[a]
            while self.idx[b] > self.idx[a]:
                b = idom[b]
        return a

    def dominates(self, a, b):
        while True:
            if a == b:
                return True
            if b == self.entry:
                return False
            b = self.idom[b]
