"""The grammar, keywords and tokens of the parser, as its source builds them,
and the trees textparser makes of token sequences with unknown parts."""

import re

from .values import (Builtin, Class, Dict, Ext, List, Obj, Rep, Source, Str,
                     Sym, Unsupported)


class P(Obj):
    """A pattern."""

    def __init__(self, cls, kind, items):
        super().__init__(cls)
        self.kind = kind
        self.items = items

    def __repr__(self):
        return f'{self.kind}({len(self.items)})'


class NoMatch(Exception):
    """The tokens are not accepted."""

    def __init__(self, pos, tokens):
        super().__init__()
        self.pos = pos
        self.tokens = tokens


class RepTok:
    """Any number of the cases, in any order, in a sequence of tokens."""

    def __init__(self, src, cases):
        self.src = src
        self.cases = cases      # [(name, tokens)]


class Tok:
    """A token: a word that shows its kind and its value."""

    def __init__(self, word, value=None):
        self.word = word
        self.value = word if value is None else value

    def __repr__(self):
        return self.word


class Grammar:

    def __init__(self, it):
        self.it = it
        self.cls = cls = Class('Pattern', [], {})
        cls.attrs['__ilshift__'] = Builtin('__ilshift__', self.forward)
        for name in ('Sequence', 'Choice', 'choice', 'ChoiceDict',
                     'ZeroOrMore', 'ZeroOrMoreDict', 'OneOrMore',
                     'OneOrMoreDict', 'Optional', 'Forward', 'Tag',
                     'DelimitedList', 'And', 'Not', 'NoMatch', 'Any',
                     'AnyUntil', 'Repeated', 'RepeatedDict'):
            it.ext['textparser.' + name] = self.constructor(name)
        self.top = None

    def constructor(self, name):
        def make(it, *args, **kw):
            if kw:
                if name in ('DelimitedList',) and set(kw) == {'delim'}:
                    args = args + (kw['delim'],)
                else:
                    raise Unsupported(f'{name}({sorted(kw)})')
            return self.make(name, args)
        return make

    def pattern(self, x):
        if isinstance(x, P):
            return x
        if isinstance(x, str):
            return P(self.cls, 'lit', [x])
        raise Unsupported(f'a pattern that is {x!r}')

    def make(self, name, args):
        if name in ('choice', 'Choice', 'ChoiceDict'):
            kind, items = 'choice', [self.pattern(a) for a in args]
        elif name == 'Sequence':
            kind, items = 'seq', [self.pattern(a) for a in args]
        elif name in ('ZeroOrMore', 'OneOrMore', 'ZeroOrMoreDict',
                      'OneOrMoreDict') and len(args) == 1:
            kind = ('dict' if name.endswith('Dict') else 'many') + \
                ('1' if name.startswith('One') else '')
            items = [self.pattern(args[0])]
        elif name == 'Optional' and len(args) == 1:
            kind, items = 'opt', [self.pattern(args[0])]
        elif name == 'Forward' and not args:
            kind, items = 'forward', []
        elif name == 'Tag' and len(args) == 2:
            kind, items = 'tag', [args[0], self.pattern(args[1])]
        elif name == 'DelimitedList' and 1 <= len(args) <= 2:
            kind = 'delim'
            items = [self.pattern(args[0]),
                     self.pattern(args[1] if len(args) > 1 else ',')]
        else:
            raise Unsupported(f'{name} with {len(args)} arguments')
        return P(self.cls, kind, items)

    def forward(self, p, x):
        p.items[:] = [self.pattern(x)]
        return p

    # -- what the parser class says ----------------------------------------

    def load(self, parser):
        """From an instance of the subclass of textparser.Parser."""
        it = self.it

        def given(name, default):
            f = parser.cls.lookup(name)
            if f is None:
                return default
            return it.call(it.get_attr(parser, name), [])
        self.keywords = set(constants(it, given('keywords', List())))
        self.specs = []
        self.names = {}
        for s in constants(it, given('token_specs', List())):
            if not isinstance(s, tuple) or len(s) not in (2, 3):
                raise Unsupported('token specification')
            if len(s) == 3:
                self.names[s[0]] = s[1]
            self.specs.append((s[0], s[-1]))
        if parser.cls.lookup('tokenize') is not None or \
                parser.cls.lookup('parse') is not None:
            raise Unsupported('the parser has its own tokenizer')
        self.re = re.compile('|'.join(f'(?P<{n}>{r})' for n, r in self.specs),
                             re.DOTALL)
        self.top = self.pattern(given('grammar', None))
        return self

    def lex(self, text):
        """The kinds and words of a constant text."""
        out = []
        for m in self.re.finditer(text):
            kind, value = m.lastgroup, m.group(m.lastgroup)
            if kind == 'SKIP':
                continue
            if kind == 'MISMATCH':
                raise NoMatch(0, [text])
            if value in self.keywords:
                kind = value
            out.append((self.names.get(kind, kind), value))
        return out

    def kind(self, word):
        k = self.__dict__.setdefault('kinds', {})
        if word not in k:
            toks = self.lex(word)
            k[word] = toks[0][0] if len(toks) == 1 else None
        return k[word]

    # -- trees -------------------------------------------------------------

    def parse(self, tokens):
        self.far = 0
        self.tokens = tokens
        r = self.match(self.top, tokens, 0)
        if r is None or r[1] != len(tokens):
            raise NoMatch(self.far, tokens)
        return r[0]

    def match(self, p, toks, i):
        """(tree, next position), or None."""
        k = p.kind
        if k == 'lit':
            if i < len(toks) and isinstance(toks[i], Tok) and \
                    self.kind(toks[i].word) == p.items[0]:
                if toks is self.tokens:
                    self.far = max(self.far, i + 1)
                return toks[i].value, i + 1
            return None
        if k == 'seq':
            out = []
            for q in p.items:
                r = self.match(q, toks, i)
                if r is None:
                    return None
                out.append(r[0])
                i = r[1]
            return List(out), i
        if k == 'choice':
            for q in p.items:
                r = self.match(q, toks, i)
                if r is not None:
                    return r
            return None
        if k == 'tag':
            r = self.match(p.items[1], toks, i)
            return r and ((p.items[0], r[0]), r[1])
        if k == 'opt':
            r = self.match(p.items[0], toks, i)
            return (List(), i) if r is None else (List([r[0]]), r[1])
        if k == 'forward':
            if not p.items:
                raise Unsupported('a forward declaration without definition')
            return self.match(p.items[0], toks, i)
        if k == 'delim':
            out = []
            start = i
            while True:
                r = self.match(p.items[0], toks, i)
                if r is None:
                    break
                out.append(r[0])
                start = i = r[1]
                r = self.match(p.items[1], toks, i)
                if r is None:
                    break
                i = r[1]
            return (List(out), start) if out else None
        if k in ('many', 'many1', 'dict', 'dict1'):
            return self.repeated(p, toks, i)
        raise Unsupported(k)

    def repeated(self, p, toks, i):
        q = p.items[0]
        segs = []               # values and (src, [(case, values)])
        n = 0
        while True:
            if i < len(toks) and isinstance(toks[i], RepTok):
                segs.append((toks[i].src, [
                    (name, self.inside(q, ts)) for name, ts in toks[i].cases]))
                i += 1
                continue
            r = self.match(q, toks, i)
            if r is None or r[1] == i:
                break
            segs.append(r[0])
            i = r[1]
            n += 1
        if p.kind.endswith('1') and not n:
            return None
        if p.kind.startswith('many'):
            out = [Rep(s[0], [(name, (), tuple(v)) for name, v in s[1]])
                   if isinstance(s, tuple) and isinstance(s[0], Source) else s
                   for s in segs]
            return List(out), i
        entries = {}

        def place(v):
            k = v[0] if isinstance(v, (tuple, str)) else v.segs[0]
            if not isinstance(k, str):
                raise Unsupported('key of a dictionary of items')
            return entries.setdefault(k, [])
        for s in segs:
            if isinstance(s, tuple) and isinstance(s[0], Source):
                by = {}
                for name, vs in s[1]:
                    for v in vs:
                        place(v)
                        k = v[0] if isinstance(v, (tuple, str)) else v.segs[0]
                        by.setdefault(k, []).append((name, (), (v,)))
                for k, cases in by.items():
                    entries[k].append(Rep(s[0], cases))
            else:
                place(s).append(s)
        return Dict([(k, List(v)) for k, v in entries.items()]), i

    def inside(self, q, toks):
        """A case of unknown repetition is one or more whole matches."""
        out = []
        i = 0
        while i < len(toks):
            r = self.match(q, toks, i)
            if r is None or r[1] == i:
                raise NoMatch(i, toks)
            out.append(r[0])
            i = r[1]
        return out


def constants(it, v):
    """The constant elements of a list, set or tuple."""
    if isinstance(v, (List, tuple)):
        out = []
        for s in it.elements(v):
            if isinstance(s, Rep) or isinstance(s, Sym):
                raise Unsupported('a list of the parser is not constant')
            out.append(s)
        return out
    if isinstance(v, (set, frozenset, list)):
        return list(v)
    raise Unsupported(f'a list of the parser that is {v!r}')


def words(text):
    """Tokens of a text in which names in <> are unknown."""
    return [Tok(w) for w in text.split()]
