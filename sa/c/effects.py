"""Effects: state shared between calls, allocation, input and output.

Decided over every function of a module, reachable or not: the functions a
module may call are its own, those it is handed as arguments, and functions of
the C library that neither keep state nor allocate nor do input or output.
"""

PURE = {
    'memcpy', 'memmove', 'memset', 'memcmp', 'memchr', 'strlen', 'strnlen',
    'strcmp', 'strncmp', 'strcpy', 'strncpy', 'strchr', 'strrchr', 'abs',
    'labs', 'llabs', '__memcpy_chk', '__memset_chk', '__memmove_chk',
    '__stack_chk_fail', 'bcmp',
}


def referenced(inst):
    """Names of globals and functions an instruction mentions."""
    out = []

    def walk(x):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == 'g' and isinstance(x[1], str):
                out.append(x[1])
            for y in x:
                walk(y)
        elif isinstance(x, list):
            for y in x:
                walk(y)
    walk(inst.args)
    walk(inst.x)
    return out


def effects(mod, own, file):
    """[(rule, function, line, ok, message)]; own: functions linked with it."""
    res = []
    mutable = {}
    for name, (ty, val, const, line) in mod.globals.items():
        n = name.lstrip('@')
        if n.startswith('llvm.'):
            continue
        if not const:
            mutable[n] = line
        res.append(('no object outlives a call', n, None, const,
                    f'{n} can be written: {line[:120]}'))
    for fn in mod.functions.values():
        for block in fn.blocks.values():
            for i in block:
                if i.op == 'call':
                    name = i.x[1].lstrip('@') if i.x[0] == 'g' else None
                    if name is None:
                        res.append(('only functions passed in are called '
                                    'indirectly', fn.name, i.line, True, ''))
                        continue
                    ok = name in own or name in PURE or name.startswith('llvm.')
                    res.append(('calls only functions without hidden state',
                                fn.name, i.line, ok, f'calls {name}'))
                for g in referenced(i):
                    g = g.lstrip('@')
                    if g in mutable:
                        res.append(('no mutable object is shared between calls',
                                    fn.name, i.line, False, f'uses {g}'))
    return res
