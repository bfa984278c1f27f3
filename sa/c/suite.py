"""The scenarios of the C library analysis."""

import os
import signal

from . import interp, ir, lin
from .state import AnalysisError
from .harness import RULES, Anchor
from . import effects
from . import spec_scalar as S
from . import spec_repeated as R
from . import spec_decode as D
from . import spec_msg as M
from . import spec_pass2 as P

# obligation kind -> properties, by the side a scenario exercises
KIND = {
    'in_read': {'*': ['C01']},
    'heap_window': {'*': ['C02']},
    'heap_write': {'*': ['C02']},
    'heap_read': {'*': ['C02']},
    'item_store': {'*': ['C02', 'C11']},
    'out_write': {'*': ['C03']},
    'out_read': {'*': ['C03']},
    'items_read': {'*': ['C03']},
    'cstr_read': {'*': ['C03']},
    'obj_read': {'decode': ['C01', 'C17'], 'alloc': ['C02', 'C17'],
                 '*': ['C03', 'C17']},
    'obj_write': {'decode': ['C02', 'C17'], 'alloc': ['C02', 'C17'],
                 '*': ['C03', 'C17']},
    'progress': {'*': ['C06']},
    'item_value': {'*': ['C11', 'C08']},
    'align': {'*': ['C16']},
    'cb_heap': {'*': ['C02', 'C18']},
    'cb_room': {'*': ['C02', 'C18']},
    'cb_message': {'decode': ['C02', 'C14'], '*': ['C03', 'C14']},
    'cb_coder': {'*': ['C14']},
    'const_write': {'*': ['C15']},
    'global_write': {'*': ['C15']},
    'global_read': {'*': ['C15']},
}


def kind_props(kind, side):
    k = KIND.get(kind)
    if k is None:
        return ['C17']
    return k.get(side, k['*'])


def scenarios():
    """[(name, function(mod))] in a fixed order."""
    out = []

    def add(name, f, *a):
        out.append((name, (f, a)))
    for m in ('ok', 'ab'):
        for t in S.TYPES:
            for al in (0, 1):
                for ex in ((0, 1) if t == 'bool' else (None,)):
                    add(f'encode/{t}/{al}/{m}/{ex}', S.encode_scalar, t, al, m, ex)
            add(f'decode/{t}/{m}', S.decode_scalar, t, m)
        add(f'read_tag/{m}', S.read_tag, m)
        add(f'available/{m}', S.available, m)
        for wt in range(8):
            add(f'skip/{wt}/{m}', S.skip_field, m, wt)
        for t in R.REPEATED_TYPES:
            add(f'encode_repeated/{t}/{m}', R.encode_repeated, t, m)
    for t in R.REPEATED_TYPES:
        for first in (1, 0):
            add(f'repeated_info/{t}/{first}', D.info_decode, t, first)
    # what comes after a failure is the same for all types of a kind
    out2 = [(t, m, e) for t in R.REPEATED_TYPES + ['message']
            for m in ('ok', 'ab') for e in (1, 0)
            if e or m == 'ok' or THOROUGH or
            t in ('int32', 'fixed32', 'string', 'message')]
    for t, m, e in out2:
        add(f'decode_repeated/{t}/{m}/{"empty" if e else "items"}',
            P.decode_repeated, t, m, e)
    add('message_new', M.message_new)
    add('sub_alloc', M.sub_alloc)
    add('alloc_repeated/message', M.alloc_repeated_messages)
    for t in R.REPEATED_TYPES:
        add(f'alloc_repeated/{t}', M.alloc_repeated, t)
    add('message_encode', M.message_encode)
    add('message_decode', M.message_decode)
    for m in ('ok', 'ab'):
        for al in (0, 1):
            for null in (0, 1):
                if not (al and null):
                    add(f'sub_encode/{al}/{m}/{null}', M.sub_encode, al, m, null)
        add(f'encode_repeated/message/{m}', M.encode_repeated_messages, m)
        add(f'sub_decode/{m}', M.sub_decode, m)
    add('info_init', M.info_init)
    add('bytes_init', M.bytes_init)
    for k in M.RANGES:
        add(f'error_text/{k}', M.error_text, k)
    return out


THOROUGH = os.environ.get('VERIF_TIER') == 'thorough'


class CLib:
    """The runtime library, in one compile time configuration."""

    def __init__(self, repo, defines=(), tag=''):
        self.repo = repo
        self.defines = defines
        self.tag = tag
        self.mod = None

    def prepare(self):
        lin.load_fm()
        src = os.path.join(self.repo, 'lib/src/pbtools.c')
        inc = os.path.join(self.repo, 'lib/include')
        self.mod = ir.parse_module(ir.compile_c([src], [inc], self.defines)[0])

    def jobs(self, only=None):
        out = [(self, self.tag + n, s) for n, s in scenarios()]
        out.append((self, self.tag + 'effects', None))
        return [x for x in out if only is None or only(x[1])]

    def run(self, name, spec):
        if spec is None:
            file = 'lib/src/pbtools.c'
            return {'findings': [('C15', rule, file, fn, line, ok, msg)
                                 for rule, fn, line, ok, msg in
                                 effects.effects(self.mod, self.mod.functions,
                                                 file)],
                    'analysed': sorted(self.mod.functions), 'loops': []}
        f, a = spec
        return decide(lambda: f(self.mod, *a))


class TakesLong(AnalysisError):
    pass


def takes_long(*_):
    raise TakesLong('a second attempt takes long')


RETRY_SECONDS = 150


def decide(make, file='lib/src/pbtools.c'):
    """The result under the first precision setting that decides the unit.
    There is a limit on the time for other settings than the first."""
    first = None
    error = None
    try:
        for n, (kf, kd) in enumerate(interp.SETTINGS):
            if n == 1:
                signal.signal(signal.SIGALRM, takes_long)
                signal.alarm(RETRY_SECONDS)
            interp.PRECISION['keep_failed'] = kf
            interp.PRECISION['keep_depth'] = kd
            lin.reset()
            try:
                res = scn_result(make(), file)
            except TakesLong:
                break
            except AnalysisError as e:
                error = error or e
                continue
            if all(f[5] for f in res['findings']):
                return res
            first = first or res
    except TakesLong:
        pass
    finally:
        signal.alarm(0)
    if first is None:
        raise error
    return first


def scn_result(scn, file='lib/src/pbtools.c'):
    res = []
    for prop, rule, fn, line, ok, msg in scn.findings:
        res.append((prop, rule, file, fn, line, ok, msg[:3000]))
    for (kind, fn, line), (n, nf, msgs) in scn.it.obs.d.items():
        for p in kind_props(kind, scn.side):
            rule = RULES.get(kind, kind)
            res.append((p, rule, file, fn, line, nf == 0,
                        '' if nf == 0 else
                        f'{"; ".join(msgs)[:2000]} (scenario {scn.name})'))
    loops = [(l['fn'], l['line'], l['kind'], l.get('ranking') or
              l.get('iterations')) for l in scn.it.loops]
    return {'findings': res, 'analysed': sorted(scn.it.analysed), 'loops': loops}
