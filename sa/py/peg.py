"""The language of a parsing expression grammar, and its comparison with
languages that have to include and to be included in it.

A position in a grammar is a boolean function of what may come next: ordered
choice and greedy repetition fail only where the first alternative fails, so
that positions are formulas with negation.  The formulas are decision
diagrams over pairs of (letters, rest); reading a letter replaces each pair
by the formula of its rest, or by false.
"""

from .values import Unsupported


class Engine:

    def __init__(self):
        self.exprs = {}
        self.conts = {}
        self.vars = {}          # key -> number
        self.letters = []       # of variables
        self.rest = []
        self.nodes = {}
        self.info = [(None, None, None), (None, None, None)]    # False, True
        self.memo = {}
        self.fmemo = {}
        self.dmemo = {}
        self.TRUE = self.cont(('true',))
        self.END = self.cont(('end',))
        self.end_var = self.var('end', None)

    # -- expressions ---------------------------------------------------------

    def expr(self, *e):
        return self.exprs.setdefault(e, e)

    def lit(self, letters):
        return self.expr('lit', frozenset(letters))

    def seq(self, *es):
        return self.expr('seq', *es)

    def choice(self, *es):
        return self.expr('choice', *es)

    def opt(self, e):
        return self.expr('opt', e)

    def many(self, e):
        return self.expr('many', e)

    def delim(self, e, d):
        return self.seq(e, self.many(self.seq(d, e)))

    def fail(self):
        return self.lit(())

    def nullable(self, e):
        k = e[0]
        if k == 'lit':
            return False
        if k == 'seq':
            return all(self.nullable(x) for x in e[1:])
        if k == 'choice':
            return any(self.nullable(x) for x in e[1:])
        return True

    # -- decision diagrams ---------------------------------------------------

    def var(self, letters, rest):
        k = (letters, rest)
        if k not in self.vars:
            self.vars[k] = len(self.letters)
            self.letters.append(letters)
            self.rest.append(rest)
        return self.node(self.vars[k], 0, 1)

    def node(self, v, lo, hi):
        if lo == hi:
            return lo
        k = (v, lo, hi)
        n = self.nodes.get(k)
        if n is None:
            n = self.nodes[k] = len(self.info)
            self.info.append(k)
        return n

    def ite(self, c, a, b):
        if c == 1 or a == b:
            return a
        if c == 0:
            return b
        if (a, b) == (1, 0):
            return c
        k = (c, a, b)
        r = self.memo.get(k)
        if r is None:
            v = min(self.info[n][0] for n in (c, a, b) if n > 1)

            def branch(n, hi):
                if n > 1 and self.info[n][0] == v:
                    return self.info[n][2 if hi else 1]
                return n
            lo = self.ite(*(branch(n, 0) for n in k))
            hi = self.ite(*(branch(n, 1) for n in k))
            r = self.memo[k] = self.node(v, lo, hi)
        return r

    def and_(self, a, b):
        return self.ite(a, b, 0)

    def or_(self, a, b):
        return self.ite(a, 1, b)

    def not_(self, a):
        return self.ite(a, 0, 1)

    # -- positions -----------------------------------------------------------

    def cont(self, k):
        return self.conts.setdefault(k, len(self.conts))

    def match(self, e, k):
        """Those texts on which e matches and the rest is in k."""
        key = (e, k)
        r = self.fmemo.get(key)
        if r is not None:
            return r
        op = e[0]
        if op == 'lit':
            r = self.var(e[1], k) if e[1] else 0
        elif op == 'seq':
            if len(e) == 1:
                r = self.formula(k)
            elif len(e) == 2:
                r = self.match(e[1], k)
            else:
                r = self.match(e[1], self.cont(('seq', e[2:], k)))
        elif op == 'choice':
            r = 0
            for x in reversed(e[1:]):
                r = self.or_(self.match(x, k), self.and_(
                    self.not_(self.match(x, self.TRUE)), r))
        elif op == 'opt':
            r = self.or_(self.match(e[1], k), self.and_(
                self.not_(self.match(e[1], self.TRUE)), self.formula(k)))
        elif op == 'many':
            if self.nullable(e[1]):
                raise Unsupported('repetition of what may be empty')
            r = self.formula(self.cont(('many', e[1], k)))
        self.fmemo[key] = r
        return r

    def formula(self, k):
        key = ('cont', k)
        r = self.fmemo.get(key)
        if r is not None:
            return r
        c = self.cont_key(k)
        if c[0] == 'true':
            r = 1
        elif c[0] == 'end':
            r = self.end_var
        elif c[0] == 'seq':
            r = self.match(('seq',) + c[1], c[2])
        else:
            _, e, rest = c
            r = self.or_(self.match(e, k), self.and_(
                self.not_(self.match(e, self.TRUE)), self.formula(rest)))
        self.fmemo[key] = r
        return r

    def cont_key(self, k):
        if len(self.__dict__.setdefault('keys', [])) < len(self.conts):
            self.keys = list(self.conts)
        return self.keys[k]

    def read(self, n, a):
        """The position after a letter."""
        if n < 2:
            return n
        key = (n, a)
        r = self.dmemo.get(key)
        if r is None:
            v, lo, hi = self.info[n]
            s = self.letters[v]
            c = self.formula(self.rest[v]) if s != 'end' and a in s else 0
            r = self.dmemo[key] = self.ite(c, self.read(hi, a),
                                           self.read(lo, a))
        return r

    def accepts(self, n):
        while n > 1:
            v, lo, hi = self.info[n]
            n = hi if self.letters[v] == 'end' else lo
        return bool(n)

    def compare(self, lower, mid, upper, alphabet, limit=200000):
        """Texts of lower that mid has not, and of mid that upper has not."""
        start = tuple(self.match(e, self.END) for e in (lower, mid, upper))
        seen = {start: None}
        queue = [start]
        missing = extra = None
        for s in queue:
            lo, m, up = s
            if missing is None and self.accepts(lo) and not self.accepts(m):
                missing = self.word(seen, s)
            if extra is None and self.accepts(m) and not self.accepts(up):
                extra = self.word(seen, s)
            if (lo == 0 or lo == m) and (m == 0 or m == up):
                continue
            for a in alphabet:
                t = tuple(self.read(n, a) for n in s)
                if t not in seen:
                    seen[t] = (s, a)
                    queue.append(t)
            if len(queue) > limit:
                raise Unsupported('too many positions of the grammar')
        return missing, extra, len(queue)

    def word(self, seen, s):
        out = []
        while seen[s] is not None:
            s, a = seen[s]
            out.append(a)
        return out[::-1]
