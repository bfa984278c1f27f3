"""Tokens: the regular expressions of the parser as machines, compared with
those of the language; and what is done to comments before."""

import re
import sys

try:
    from re import _constants as C
    from re import _parser as sre
except ImportError:         # before Python 3.11
    import sre_constants as C
    import sre_parse as sre

from .pai import PyExc
from .values import (Builtin, Class, Ext, List, Obj, Sym, Unsupported)

SPEC = [
    ('SKIP', r'[ \r\n\t]+'),
    ('IDENT', r'[a-zA-Z][a-zA-Z0-9_]*'),
    ('INT', r'-?(0[xX][a-fA-F0-9]+|[0-9]+)'),
    ('PROTO3', r'"proto3"'),
    ('STRING', r'"(\\.|[^"\\])*"'),
] + [(c, re.escape(c)) for c in '.,=;{}()[]<>'] + [('MISMATCH', r'.')]


class Machine:
    """The ordered alternatives of the tokens, as a machine whose states are
    ordered lists of threads (what a backtracking matcher tries first)."""

    def __init__(self, specs):
        self.nodes = []         # ('char', f, next) ('split', [..]) ('acc', k)
        starts = []
        for kind, regex in specs:
            acc = self.add(('acc', kind))
            starts.append(self.compile(list(sre.parse(regex, re.DOTALL)),
                                       acc))
        self.start = self.close([self.add(('split', starts))])
        self.memo = {}

    def add(self, n):
        self.nodes.append(n)
        return len(self.nodes) - 1

    def compile(self, items, nxt):
        for op, arg in reversed(items):
            nxt = self.item(op, arg, nxt)
        return nxt

    def item(self, op, arg, nxt):
        name = str(op)
        if name in ('LITERAL', 'NOT_LITERAL', 'ANY', 'IN'):
            return self.add(('char', charset(name, arg), nxt))
        if name == 'SUBPATTERN':
            if arg[1] or arg[2]:
                raise Unsupported('flags in a regular expression')
            return self.compile(list(arg[3]), nxt)
        if name == 'BRANCH':
            return self.add(('split', [self.compile(list(x), nxt)
                                       for x in arg[1]]))
        if name in ('MAX_REPEAT', 'MIN_REPEAT'):
            lo, hi, sub = arg
            if lo > 8 or hi is not C.MAXREPEAT and hi > 8:
                raise Unsupported('counts in a regular expression')
            lazy = name == 'MIN_REPEAT'
            if hi is C.MAXREPEAT:
                loop = self.add(None)
                body = self.compile(list(sub), loop)
                self.nodes[loop] = ('split', [nxt, body] if lazy
                                    else [body, nxt])
                tail = loop
            else:
                tail = nxt
                for _ in range(hi - lo):
                    body = self.compile(list(sub), tail)
                    tail = self.add(('split', [nxt, body] if lazy
                                     else [body, nxt]))
            for _ in range(lo):
                tail = self.compile(list(sub), tail)
            return tail
        raise Unsupported(f'{name} in a regular expression')

    def close(self, threads):
        """Threads in order, each at a character or an end."""
        out, seen = [], set()

        def go(n):
            if n in seen:
                return
            seen.add(n)
            k = self.nodes[n]
            if k[0] == 'split':
                for x in k[1]:
                    go(x)
            else:
                out.append(n)
        for t in threads:
            go(t)
        # what comes after a match is never tried
        for i, n in enumerate(out):
            if self.nodes[n][0] == 'acc':
                return tuple(out[:i + 1])
        return tuple(out)

    def matched(self, state):
        """The kind that matches up to here, when it does."""
        if state and self.nodes[state[-1]][0] == 'acc':
            return self.nodes[state[-1]][1]
        return None

    def step(self, state, c):
        k = (state, c)
        if k not in self.memo:
            self.memo[k] = self.close([
                self.nodes[n][2] for n in state
                if self.nodes[n][0] == 'char' and self.nodes[n][1](c)])
        return self.memo[k]


def charset(name, arg):
    if name == 'ANY':
        return lambda c: True       # DOTALL
    if name == 'LITERAL':
        return lambda c: ord(c) == arg
    if name == 'NOT_LITERAL':
        return lambda c: ord(c) != arg
    regex = re.compile('x')
    negate = False
    tests = []
    for op, a in arg:
        n = str(op)
        if n == 'NEGATE':
            negate = True
        elif n == 'LITERAL':
            tests.append(lambda c, a=a: ord(c) == a)
        elif n == 'RANGE':
            tests.append(lambda c, a=a: a[0] <= ord(c) <= a[1])
        elif n == 'CATEGORY':
            s = {'CATEGORY_DIGIT': r'\d', 'CATEGORY_NOT_DIGIT': r'\D',
                 'CATEGORY_SPACE': r'\s', 'CATEGORY_NOT_SPACE': r'\S',
                 'CATEGORY_WORD': r'\w', 'CATEGORY_NOT_WORD': r'\W'}[str(a)]
            regex = re.compile(s)
            tests.append(lambda c, regex=regex: bool(regex.match(c)))
        else:
            raise Unsupported(f'{n} in a set of characters')
    return lambda c: any(t(c) for t in tests) != negate


# every ASCII character, and a letter, a digit, a space and a symbol besides
ALPHABET = [chr(i) for i in range(128)] + ['\u00e9', '\u0663', '\u2003',
                                           '\u20ac']


def tokens(specs, names):
    """Texts on which the first token differs from the language's, and which
    of the parser's kinds is which token."""
    code, ref = Machine(specs), Machine(SPEC)
    start = (code.start, ref.start, '')
    seen = {start: None}
    queue = [start]
    kinds = {}
    wrong = []
    for s in queue:
        a, b, first = s
        ka, kb = code.matched(a), ref.matched(b)
        if s != start:
            if (ka is None) != (kb is None):
                wrong.append((spell(seen, s), ka and names.get(ka, ka), kb))
                if len(wrong) > 20:
                    break
                continue
            if ka is not None:
                kinds.setdefault(ka, set()).add(kb)
                if len(kinds[ka]) > 1:
                    wrong.append((spell(seen, s), names.get(ka, ka), kb))
                    continue
        for c in ALPHABET:
            if not said(first, c):
                continue
            f = first or c
            t = (code.step(a, c), ref.step(b, c), f if f in '"/' else 'x')
            if not t[0] and not t[1]:
                continue
            if t not in seen:
                seen[t] = (s, c)
                queue.append(t)
    return wrong, kinds, len(queue)


def said(first, c):
    """Is the text one the language says something about?"""
    if first == '"':
        return c not in '\n\r\0'
    if first == '/' and c in '/*':
        return False        # comments are gone before
    if c in '\x0b\x0c\x1c\x1d\x1e\x1f' or c == '_' and not first:
        return False        # other white space, names that start with _
    return c < '\x80'


def spell(seen, s):
    out = ''
    while seen[s] is not None:
        s, c = seen[s]
        out = c + out
    return out


# -- comments ------------------------------------------------------------------

SIGNIFICANT = '/*"\\\n'


def without_comments(text):
    """What has to come out: None for an error, '?' for texts that are no
    proto files whatever is done."""
    out = ''
    i = 0
    n = len(text)
    while i < n:
        c, two = text[i], text[i:i + 2]
        if two == '//':
            while i < n and text[i] != '\n':
                out += ' '
                i += 1
        elif two == '/*':
            out += '  '
            i += 2
            while True:
                if i >= n:
                    return None
                two = text[i:i + 2]
                if two == '*/':
                    out += '  '
                    i += 2
                    break
                if two == '/*':
                    return None
                step = 2 if two == '//' else 1
                out += re.sub('[^\n]', ' ', text[i:i + step])
                i += step
        elif two == '*/' or c == '\\':
            return '?'
        elif c == '"':
            out += c
            i += 1
            while True:
                if i >= n or text[i] == '\n':
                    return '?'
                if text[i] == '\\':
                    if i + 1 >= n or text[i + 1] == '\n':
                        return '?'
                    out += text[i:i + 2]
                    i += 2
                    continue
                out += text[i]
                i += 1
                if out[-1] == '"':
                    break
        else:
            out += c
            i += 1
    return out


BEFORE = ['', 'a', '"a', '//a', '/*a', 'a\n"a"//a\n']
AFTER = ['', 'a', '"//"a', '*/a', '\na"a\\"//"/*a*/a', '\\""//"a"']


def texts(depth):
    """Every text of unknown characters (one or two of them) and of those
    that matter, in every state a text can be in."""
    seen = set()

    def grow(t, n):
        yield t
        if n:
            for c in SIGNIFICANT + 'a':
                if c != 'a' or not t.endswith('a'):
                    yield from grow(t + c, n - 1)
    for m in grow('', depth):
        for b in BEFORE:
            for a in AFTER:
                t = (b + m + a).replace('a', 'aa', 1)
                if t not in seen:
                    seen.add(t)
                    yield t


def hooks(it):
    """Regular expressions on texts whose characters are known up to those
    that no regular expression tells apart."""
    cls = Class('Match', [], {})
    checked = set()

    def pattern(p, flags=0):
        if isinstance(p, Sym) and p.op == 're':
            p, *f = p.args
            flags = f[0] if f else flags
        flags = constant(flags)
        if not isinstance(p, str):
            raise Unsupported('an unknown regular expression')
        if p not in checked:
            same_for_others(p, flags)
            checked.add(p)
        return re.compile(p, flags)

    def match(m):
        o = Obj(cls)
        for name in ('start', 'end', 'span', 'group', 'groups'):
            o.attrs[name] = Builtin(name, getattr(m, name))
        o.attrs['lastgroup'] = m.lastgroup
        return o

    def text(s):
        if not isinstance(s, str):
            raise Unsupported('a regular expression on an unknown text')
        return s

    def finditer(it, p, s, flags=0):
        return List([match(m) for m in pattern(p, flags).finditer(text(s))])

    def sub(it, p, repl, s, count=0, flags=0):
        if isinstance(repl, str):
            return pattern(p, flags).sub(repl, text(s), constant(count))

        def one(m):
            r = it.call(repl, [match(m)])
            if not isinstance(r, str):
                raise Unsupported('an unknown replacement')
            return r
        return pattern(p, flags).sub(one, text(s), constant(count))

    def first(name):
        def f(it, p, s, flags=0):
            m = getattr(pattern(p, flags), name)(text(s))
            return None if m is None else match(m)
        return f
    cls.attrs['__getitem__'] = Builtin(
        '__getitem__', lambda o, i: o.attrs['group'].f(i))
    it.ext['re.finditer'] = finditer
    it.ext['re.sub'] = sub
    for name in ('match', 'search', 'fullmatch'):
        it.ext['re.' + name] = first(name)
    it.ext['re.split'] = lambda it, p, s, maxsplit=0, flags=0: List(
        pattern(p, flags).split(text(s), constant(maxsplit)))
    it.ext['re.findall'] = lambda it, p, s, flags=0: List(
        [tuple(x) if isinstance(x, tuple) else x
         for x in pattern(p, flags).findall(text(s))])


def constant(flags):
    if isinstance(flags, Ext) and flags.path.startswith('re.'):
        return int(getattr(re, flags.path[3:]))
    if isinstance(flags, int):
        return flags
    raise Unsupported('flags of a regular expression')


def same_for_others(p, flags):
    """No set of characters tells two insignificant characters apart."""
    def go(items):
        for op, arg in items:
            name = str(op)
            if name in ('LITERAL', 'NOT_LITERAL', 'IN', 'ANY'):
                f = charset(name, arg)
                if len({f(c) for c in ALPHABET
                        if c not in SIGNIFICANT}) > 1:
                    raise Unsupported(f'characters told apart by {p}')
            elif name == 'SUBPATTERN':
                go(arg[3])
            elif name == 'BRANCH':
                for x in arg[1]:
                    go(x)
            elif name in ('MAX_REPEAT', 'MIN_REPEAT'):
                go(arg[2])
            elif name in ('ASSERT', 'ASSERT_NOT'):
                go(arg[1])
    go(sre.parse(p, flags))


def comments(it, f, part, parts, depth):
    """(text, result, expected) for each text on which the filter differs."""
    n = 0
    for t in texts(depth):
        want = without_comments(t)
        if want == '?':
            continue
        n += 1
        if n % parts != part:
            continue

        def body():
            try:
                return it.call(f, [t])
            except PyExc as e:
                return e.value
        out = it.run_paths(body)
        for dec, outcome, r in out:
            if want is None:
                ok = isinstance(r, Obj) and r.cls.name == 'Error'
            else:
                ok = r == want
            yield t, r, want, ok
