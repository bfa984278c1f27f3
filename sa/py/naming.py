"""Documented names: CamelCase and mixedCase become snake_case."""


def snake(name):
    out = ''
    prev = ''
    for i, c in enumerate(name):
        if not (c.isascii() and c.isalnum()):
            c = '_'
        if c == '_':
            if not out.endswith('_'):
                out += '_'
        else:
            nxt = name[i + 1] if i + 1 < len(name) else ''
            if c.isupper() and out and not out.endswith('_') and (
                    prev.islower() or prev.isdigit() or nxt.islower()):
                out += '_'
            out += c.lower()
        prev = c
    return out
