"""The language of proto files: what has to be accepted, what may be."""

import sys

from .grammar import Grammar
from .peg import Engine
from .values import Unsupported

KEYWORDS = ['syntax', 'package', 'message', 'repeated', 'enum', 'service',
            'rpc', 'returns', 'stream', 'import', 'oneof', 'option', 'true',
            'false', 'map', 'reserved', 'max', 'to', 'weak', 'public',
            'optional']
PUNCTUATION = list('.,=;{}()[]<>')
INTEGERS = ['1', '-1', '0x1f']
WORDS = ['x'] + KEYWORDS + INTEGERS + ['"x"', '"proto3"'] + PUNCTUATION


class Reference:
    """The grammar of proto3 without groups, extensions, floating point and
    message constants, and options inside of messages and enums."""

    def __init__(self, en, alphabet, lenient, depth):
        self.en = en
        self.lenient = lenient
        self.names = [w for w in alphabet if w[0].isalpha()]
        self.depth = depth

    def w(self, *words):
        return self.en.lit(words)

    def s(self, *items):
        return self.en.seq(*[self.w(i) if isinstance(i, str) else i
                             for i in items])

    def build(self):
        en = self.en
        w, s = self.w, self.s
        c, o, many, delim = en.choice, en.opt, en.many, en.delim
        ident = w(*self.names)
        full = delim(ident, w('.'))
        type_ = s(o(w('.')), full)
        number = w(*(INTEGERS if self.lenient else ('1', '0x1f')))
        integer = w(*INTEGERS)
        string = w('"x"')
        constant = c(full, string, integer) if self.lenient else \
            c(w('true', 'false'), full, string, integer)
        name = s(c(ident, s('(', o(w('.')) if self.lenient else s(), full,
                            ')')), many(s('.', ident)))
        setting = s(name, '=', constant)
        options = o(s('[', delim(setting, w(',')), ']'))
        semi = o(w(';')) if self.lenient else w(';')
        option = s('option', setting, ';')
        import_ = s('import', o(w('weak', 'public')), string, semi)
        package = s('package', full, ';')
        empty = w(';')
        enum_value = s(ident, '=', integer, options, ';')
        ranges = delim(s(number, o(s('to', c(number, w('max'))))), w(','))
        reserved = s('reserved', c(ranges, delim(string, w(','))), semi)
        enum_items = [enum_value, empty]
        if self.lenient:
            enum_items += [option, s('reserved', c(delim(s(integer, o(s(
                'to', c(integer, w('max'))))), w(',')), delim(
                    string, w(','))), semi)]
        enum = s('enum', ident, '{', many(c(*enum_items)), '}')
        oneof_field = s(type_, ident, '=', number,
                        options if self.lenient else s(), ';')
        oneof_items = [oneof_field, empty] + ([option] if self.lenient
                                              else [])
        oneof = s('oneof', ident, '{', many(c(*oneof_items)), '}')
        map_ = s('map', '<', ident, ',', type_, '>', ident, '=', number,
                 options, ';')
        field = s(o(w('repeated', 'optional')), type_, ident, '=', number,
                  options, ';')
        message = en.fail()
        for _ in range(self.depth):
            items = [field, enum, message, oneof, map_, reserved, empty]
            if self.lenient:
                items.append(option)
            message = s('message', ident, '{', many(c(*items)), '}')
        type_of = s('(', o(w('stream')), type_, ')')
        body = many(c(option, empty)) if self.lenient else many(option)
        rpc = s('rpc', ident, type_of, 'returns', type_of,
                c(s('{', body, '}'), w(';')))
        service = s('service', ident, '{', many(c(option, rpc, empty)), '}')
        return s('syntax', '=', '"proto3"', ';',
                 many(c(import_, package, option, message, enum, service,
                        empty)))


def convert(en, g, p, depth, letters):
    """The grammar of the parser as an expression; messages in messages up
    to a depth."""
    memo = {}

    def conv(p, d):
        k = (id(p), d)
        if k in memo:
            return memo[k]
        kind, items = p.kind, p.items
        if kind == 'lit':
            r = en.lit(letters.get(items[0], ()))
        elif kind == 'seq':
            r = en.seq(*[conv(x, d) for x in items])
        elif kind == 'choice':
            r = en.choice(*[conv(x, d) for x in items])
        elif kind == 'tag':
            r = conv(items[1], d)
        elif kind == 'opt':
            r = en.opt(conv(items[0], d))
        elif kind in ('many', 'dict'):
            r = en.many(conv(items[0], d))
        elif kind in ('many1', 'dict1'):
            x = conv(items[0], d)
            r = en.seq(x, en.many(x))
        elif kind == 'delim':
            r = en.delim(conv(items[0], d), conv(items[1], d))
        elif kind == 'forward':
            if not items:
                raise Unsupported('a forward declaration without definition')
            r = conv(items[0], d - 1) if d > 0 else en.fail()
        else:
            raise Unsupported(kind)
        memo[k] = r
        return r
    return conv(p, depth)


def load(it):
    g = Grammar(it)
    mod = it.module('pbtools.parser')
    from .proto import parser_class
    return g.load(it.call(parser_class(mod), []))


def compare(it, depth):
    """(missing text, extra text, positions)."""
    sys.setrecursionlimit(100000)
    g = load(it)
    en = Engine()
    alphabet = WORDS + sorted(g.keywords - set(WORDS))
    letters = {}
    for w in alphabet:
        letters.setdefault(g.kind(w), set()).add(w)
    mid = convert(en, g, g.top, depth, letters)
    lower = Reference(en, alphabet, False, depth).build()
    upper = Reference(en, alphabet, True, depth).build()
    return en.compare(lower, mid, upper, alphabet)
