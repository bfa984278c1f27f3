"""What the generated C code of a file must be.

The text that the generator's template gives for a file is compiled, its
types are compared with the documented ones by compile time assertions, and
each of its functions is compared path by path with what it has to do with
every field of its message."""

import os
import re
import subprocess
import tempfile

from ..c import ir
from . import ceval
from .shapes import Field, Enum, Oneof, Message, full_snake

GEN = 'pbtools/c_source/__init__.py'

CTYPES = {
    'int32': ['int32_t'], 'int64': ['int64_t'], 'sint32': ['int32_t'],
    'sint64': ['int64_t'], 'uint32': ['uint32_t'], 'uint64': ['uint64_t'],
    'fixed32': ['uint32_t', 'int32_t'], 'fixed64': ['uint64_t', 'int64_t'],
    'sfixed32': ['int32_t'], 'sfixed64': ['int64_t'], 'float': ['float'],
    'double': ['double'], 'bool': ['bool'], 'string': ['char *'],
    'bytes': ['struct pbtools_bytes_t'],
}
SIZES = {'int32': 4, 'int64': 8, 'sint32': 4, 'sint64': 8, 'uint32': 4,
         'uint64': 8, 'fixed32': 4, 'fixed64': 8, 'sfixed32': 4,
         'sfixed64': 8, 'float': 4, 'double': 8, 'bool': 1, 'string': 8,
         'enum': 4, 'message': 8}


class Probe:
    """A C file that is compiled with the generated one; every line that
    does not compile is a finding."""

    def __init__(self):
        self.lines = []
        self.meta = {}
        self.offsets = []

    def line(self, text, meta):
        self.lines.append(text)
        self.meta[len(self.lines)] = meta

    def check(self, cond, meta):
        self.line(f'_Static_assert({cond}, "check");', meta)

    def offset(self, expr, meta):
        """The value of a constant expression, once compiled."""
        n = len(self.offsets)
        self.offsets.append(None)
        self.line(f'const unsigned long long probe_value_{n} = '
                  f'(unsigned long long)({expr});', meta)
        return n


class Member:
    """Where a field lives in its message."""

    def __init__(self, field, oneof=None):
        self.f = field
        self.oneof = oneof


class FileCheck:

    def __init__(self, repo, f, header, source, upper, report,
                 imported_text=('', '')):
        self.imported_text = imported_text
        self.repo = repo
        self.f = f
        self.header = header
        self.source = source
        self.upper = upper
        self.report = report        # (prop, rule, construct, ok, message)
        self.probe = Probe()
        self.messages = []          # (Message, C name, public)

    # -- names ---------------------------------------------------------------

    def walk(self, m, prefix, public):
        name = full_snake(prefix, m.snake)
        for s in m.messages:
            self.walk(s, name, False)
        for x in m.fields:
            if x.type == 'map':
                self.walk(self.map_entry(x), name, False)
        self.messages.append((m, name, public))

    def map_entry(self, x):
        snake = f'pbtools_map_{x.name.title()}'
        e = Message('PbtoolsMap' + x.name.title(), map_snake(x.name))
        e.entry = True
        e.items = [Field('key', 'key', 1, x.key, 'plain'),
                   Field('value', 'value', 2, x.value, 'plain',
                         ref=x.value_ref)]
        return e

    def type_snake(self, owner, x):
        """The C name of the type of a field."""
        if x.type == 'map':
            return f'{owner}_{map_snake(x.name)}'
        return x.ref[2]

    # -- probe ---------------------------------------------------------------

    def compatible(self, a, b):
        return f'__builtin_types_compatible_p({a}, {b})'

    def member_expr(self, name, path):
        return f'((struct {name}_t *)0)->{path}'

    def build_probe(self):
        p = self.probe
        for e in self.f.enums:
            self.probe_enum(e, self.f.snake)
        for path, header in self.f.imports:
            mark = 'PROBE_' + re.sub(r'\W', '_', header)
            p.line(f'const int probe_include_{len(p.lines)} = {mark};',
                   ('G05', 'the header of every import is included',
                    'imports', f'import of {path}: no #include of {header}'))
        for m in self.f.messages:
            self.walk(m, self.f.snake, True)
        self.info = {}
        for m, name, public in self.messages:
            self.probe_message(m, name, public)
        for name in self.f.imported[1]:
            self.info[name] = {'size': p.offset(f'sizeof(struct {name}_t)', (
                'G05', 'imported types can be used', 'imports', name))}

    def imported_header(self):
        """The header of an imported file, as the generator makes it for a
        message without fields."""
        name, text = self.imported_text
        out = ''
        for n in self.f.imported[0]:
            out += f'enum {n}_e {{ {n}_zero_e = 0 }};\n'
        for n in self.f.imported[1]:
            out += re.sub(rf'\b{name}(?=_)', n, text)
        return out

    def probe_enum(self, e, prefix):
        name = full_snake(prefix, e.snake)
        p = self.probe
        p.check(f'sizeof(enum {name}_e) == 4',
                ('G07', 'an enum type for every enum', 'enum', name))
        for n, snake, value, token in e.values:
            c = f'{prefix}_{snake}_e'
            if self.upper:
                c = c.upper()
            p.check(f'{c} == ({value if value >= 0 else value + 1}LL'
                    f'{"" if value >= 0 else " - 1LL"})',
                    ('G07', 'enum values have the numbers of the proto file',
                     'enum', f'{n} = {token} is not {c} == {value}'))
            p.check(f'__builtin_types_compatible_p(enum {name}_e, '
                    f'enum {name}_e) && (enum {name}_e){c} == {c}',
                    ('G07', 'enum values have the numbers of the proto file',
                     'enum', f'{n} does not fit'))

    def probe_message(self, m, name, public):
        p = self.probe
        for e in m.enums:
            self.probe_enum(e, name)
        info = self.info[name] = {'members': {}, 'oneofs': {}}
        where = f'message {m.name}'
        info['size'] = p.offset(f'sizeof(struct {name}_t)', (
            'G05', 'a struct for every message', 'message', where))
        p.check(f'offsetof(struct {name}_t, base) == 0 && ' + self.compatible(
            f'__typeof__({self.member_expr(name, "base")})',
            'struct pbtools_message_base_t'), (
            'G05', 'a struct for every message', 'message', where))
        info['heap'] = p.offset(
            f'offsetof(struct {name}_t, base.heap_p)',
            ('G05', 'a struct for every message', 'message', where))
        p.check(self.compatible(
            f'__typeof__(*((struct {name}_repeated_t *)0)->items_p)',
            f'struct {name}_t') + ' && offsetof(struct '
            f'{name}_repeated_t, items_p) == offsetof(struct '
            'pbtools_repeated_message_t, items_p) && offsetof(struct '
            f'{name}_repeated_t, length) == offsetof(struct '
            'pbtools_repeated_message_t, length) && ' + self.compatible(
                f'__typeof__(((struct {name}_repeated_t *)0)->length)',
                'int'),
            ('G05', 'a struct for repeated fields of every message',
             'message', where))
        for x in m.fields:
            info['members'][id(x)] = self.probe_field(m, name, x)
        for o in m.oneofs:
            oname = f'{name}_{o.snake}'
            mem = self.member_expr(name, o.snake)
            info['oneofs'][id(o)] = (p.offset(
                f'offsetof(struct {name}_t, {o.snake})',
                ('G03', 'a choice and a none choice for every oneof',
                 'oneof', f'{where}: {o.name}')), {})
            p.check(self.compatible(f'__typeof__({mem})',
                                    f'enum {oname}_e') +
                    f' && {oname}_none_e == 0',
                    ('G03', 'a choice and a none choice for every oneof',
                     'oneof', f'{where}: {o.name}'))
            for n, x in enumerate(o.fields):
                info['members'][id(x)] = self.probe_field(m, name, x, o)
                info['oneofs'][id(o)][1][id(x)] = p.offset(
                    f'{oname}_{x.snake}_e',
                    ('G03', 'a choice for every field of a oneof',
                     kind_of(x), f'{where}: {o.name}.{x.name}'))
                p.check(f'{oname}_{x.snake}_e == {n + 1}',
                        ('G03', 'choices are distinct and none is zero',
                         kind_of(x), f'{where}: {o.name}.{x.name}'))
        self.probe_api(m, name, public)

    def probe_field(self, m, name, x, oneof=None):
        p = self.probe
        what = f'{m.name}.{x.name}'
        meta = ('G05', 'members have the documented types', kind_of(x), what)
        path = x.snake
        mode = x.mode
        if mode == 'repeated':
            if x.type in ('message', 'map'):
                t = [f'struct {self.type_snake(name, x)}_repeated_t']
            elif x.type == 'enum':
                t = ['struct pbtools_repeated_int32_t']
            else:
                t = [f'struct pbtools_repeated_{y}_t'
                     for y in REPEATED[x.type]]
        else:
            suffix = '_p' if x.type in ('string', 'message') else ''
            if mode == 'optional':
                path += f'.value{suffix}'
            else:
                path += suffix
            if x.type == 'enum':
                t = [f'enum {x.ref[2]}_e']
            elif x.type == 'message':
                t = [f'struct {x.ref[2]}_t *']
            else:
                t = CTYPES[x.type]
        mem = self.member_expr(name, path)
        p.check(' || '.join(self.compatible(f'__typeof__({mem})', y)
                            for y in t), meta)
        out = {'at': p.offset(f'offsetof(struct {name}_t, {path})', meta),
               'size': p.offset(f'sizeof({mem})', meta)}
        if mode == 'optional':
            pres = f'{x.snake}.is_present'
            p.check(self.compatible(
                f'__typeof__({self.member_expr(name, pres)})', 'bool'), meta)
            out['present'] = p.offset(f'offsetof(struct {name}_t, {pres})',
                                      meta)
        if mode == 'repeated':
            out['length'] = p.offset(
                f'offsetof(struct {name}_t, {path}.length)', meta)
        return out

    def api(self, ret, name, params):
        """A function that calls another as documented."""
        n = len(self.probe.lines)
        ps = ', '.join(f'{t} a{i}' for i, t in enumerate(params))
        args = ', '.join(f'a{i}' for i in range(len(params)))
        self.probe.line(
            f'{ret} probe_call_{n}({ps}); {ret} probe_call_{n}({ps}) '
            f'{{ {"return " if ret != "void" else ""}{name}({args}); }}',
            ('G05', 'functions are declared as documented',
             re.sub(r'.*_', '', name), name))

    def probe_api(self, m, name, public):
        t = f'struct {name}_t *'
        if public:
            self.api(t, f'{name}_new', ['void *', 'size_t'])
            self.api('int', f'{name}_encode', [t, 'uint8_t *', 'size_t'])
            self.api('int', f'{name}_decode', [t, 'const uint8_t *',
                                               'size_t'])
        for x in m.fields:
            if x.mode == 'repeated':
                self.api('int', f'{name}_{x.snake}_alloc', [t, 'int'])
            elif x.type == 'message':
                self.api('int', f'{name}_{x.snake}_alloc', [t])
        for o in m.oneofs:
            for x in o.fields:
                if x.type == 'message':
                    self.api('int', f'{name}_{x.snake}_alloc', [t])
                else:
                    self.api('void', f'{name}_{x.snake}_init', [t])

    # -- compilation -----------------------------------------------------------

    def compile(self):
        inc = os.path.join(self.repo, 'lib', 'include')
        with tempfile.TemporaryDirectory() as tmp:
            for _, header in self.f.imports:
                mark = 'PROBE_' + re.sub(r'\W', '_', header)
                with open(os.path.join(tmp, header), 'w') as fout:
                    fout.write(f'#ifndef {mark}\n#define {mark} 1\n')
                    if header == self.f.imports[0][1]:
                        fout.write(self.imported_header())
                    fout.write('#endif\n')
            base = self.f.header[:-2]
            hpath = os.path.join(tmp, base + '.h')
            cpath = os.path.join(tmp, base + '.c')
            with open(hpath, 'w') as fout:
                fout.write(self.header)
            with open(cpath, 'w') as fout:
                fout.write(self.source)
            opts = ['-std=gnu11', f'-I{tmp}', f'-I{inc}',
                    '-ferror-limit=0', '-Wall', '-Wextra',
                    '-Wno-unused-parameter',
                    '-Wmissing-prototypes',
                    '-Werror=incompatible-pointer-types',
                    '-Werror=int-conversion',
                    '-Werror=implicit-function-declaration',
                    '-Werror=missing-prototypes',
                    '-Werror=incompatible-function-pointer-types',
                    '-Werror=undefined-internal',
                    '-fno-color-diagnostics', '-fno-caret-diagnostics']
            ok = self.syntax(['clang', '-fsyntax-only', *opts, cpath], tmp,
                             'the generated source compiles')
            ok &= self.syntax(['clang', '-x', 'c', '-fsyntax-only', *opts,
                               hpath], tmp,
                              'the generated header compiles on its own')
            ok &= self.syntax(['clang++', '-x', 'c++', '-fsyntax-only',
                               f'-I{tmp}', f'-I{inc}', '-w',
                               '-fno-caret-diagnostics', hpath], tmp,
                              'the generated header is valid C++')
            ppath = os.path.join(tmp, 'probe.c')
            head = [f'#include "{base}.h"', f'#include "{base}.h"',
                    '#include <stddef.h>']
            with open(ppath, 'w') as fout:
                fout.write('\n'.join(head + self.probe.lines) + '\n')
            res = subprocess.run(
                ['clang', '-fsyntax-only', *opts, '-Wno-missing-prototypes',
                 '-Wno-unused', '-Wno-enum-compare',
                 ppath], capture_output=True, text=True)
            failed = {}
            for m in re.finditer(r'probe\.c:(\d+):\d+: (?:fatal )?error: '
                                 r'(.*)', res.stderr):
                failed.setdefault(int(m.group(1)) - len(head), m.group(2))
            if res.returncode and not failed:
                if ok:
                    raise ir.IRError(res.stderr[:500])
                return None
            for n, meta in self.probe.meta.items():
                prop, rule, construct, text = meta
                self.report(prop, rule, construct, n not in failed,
                            f'{text}: {failed[n]}' if n in failed else '')
            if not ok:
                return None
            if failed:
                lines = [('' if n in failed else l)
                         for n, l in enumerate(self.probe.lines, 1)]
                with open(ppath, 'w') as fout:
                    fout.write('\n'.join(head + lines) + '\n')
            texts = ir.compile_c([cpath, ppath], [tmp, inc])
        mod, probe = map(ir.parse_module, texts)
        for n in range(len(self.probe.offsets)):
            g = probe.globals.get(f'@probe_value_{n}')
            if g is not None:
                v = g[1]
                self.probe.offsets[n] = v[1] if v[0] == 'c' else 0
        return mod

    def syntax(self, cmd, tmp, rule):
        res = subprocess.run(cmd, capture_output=True, text=True)
        errors = re.findall(r'(?:error|warning): .*', res.stderr)
        errors = [e for e in errors if e.startswith('error')]
        ok = res.returncode == 0
        text = ''
        if not ok:
            lines = [l.replace(tmp + '/', '') for l in
                     res.stderr.split('\n') if 'error' in l]
            text = '; '.join(lines[:3])
        self.report('G05', rule, 'generate', ok, text)
        return ok

    # -- functions ---------------------------------------------------------------

    def off(self, n):
        return None if n is None else self.probe.offsets[n]

    def check(self):
        self.build_probe()
        mod = self.compile()
        if mod is None:
            return
        if any(n is None for n in self.probe.offsets):
            return              # reported
        self.mod = mod
        self.lib = set(library_functions(self.repo))
        undefined = sorted(d[1:] for d in mod.declares
                           if d[1:] not in self.lib and
                           not d.startswith('@llvm.') and
                           d[1:] not in ('memset', 'memcpy') and
                           not self.imported(d[1:]))
        self.report('G05', 'every function that is used exists', 'generate',
                    not undefined, f'not defined: {undefined[:5]}')
        self.suffixes()
        self.expected = set()
        for m, name, public in self.messages:
            FunctionChecks(self, m, name, public).run()
        extra = [n for n, fn in mod.functions.items()
                 if not fn.internal and n not in self.expected]
        self.extra = extra

    def imported(self, name):
        return any(name.startswith(f'{n}_') and
                   re.search(rf'\b{self.imported_text[0]}' +
                             re.escape(name[len(n):]) + r'\b',
                             self.imported_text[1])
                   for n in self.f.imported[1])

    def suffixes(self):
        """How the internal functions of a message are called, from what the
        documented ones give to the library."""
        self.suffix = {}
        for m, name, public in self.messages:
            if not public:
                continue
            for what, wrapper, callee, n in (
                    ('init', 'new', 'pbtools_message_new', 3),
                    ('encode_inner', 'encode', 'pbtools_message_encode', 3),
                    ('decode_inner', 'decode', 'pbtools_message_decode', 3)):
                if what in self.suffix:
                    continue
                fn = self.mod.functions.get(f'{name}_{wrapper}')
                if fn is None:
                    continue
                for s in ceval.Eval(self.mod, fn).run():
                    for c, args, _ in s.events:
                        if c == callee and args[n][0] == 'ptr' and \
                                args[n][1][0] == 'g' and \
                                args[n][1][1].startswith(name):
                            self.suffix[what] = args[n][1][1][len(name):]
            if len(self.suffix) == 3:
                break
        for what in ('init', 'encode_inner', 'decode_inner'):
            self.suffix.setdefault(what, '_' + what)
        # Functions that encode and decode all items of a repeated field.
        self.repeated = {'encode': '_encode_repeated_inner',
                         'decode': '_decode_repeated_inner'}
        for what in ('encode', 'decode'):
            callee = f'pbtools_{what}_repeated_inner'
            for m, name, public in self.messages:
                for fname, fn in self.mod.functions.items():
                    if fname.startswith(name + '_') and not fn.internal and \
                            any(i.op == 'call' and i.x == ('g', '@' + callee)
                                and any(v == ('g', f'@{name}' + self.suffix[
                                    what + '_inner']) for t, v in i.args)
                                for b in fn.blocks.values() for i in b) and \
                            len(fn.params) == 3:
                        self.repeated[what] = fname[len(name):]
                        break
                else:
                    continue
                break


REPEATED = {t: [t] for t in ('int32', 'int64', 'uint32', 'uint64', 'float',
                             'double', 'bool', 'string', 'bytes')}
REPEATED.update({'sint32': ['int32'], 'sint64': ['int64'],
                 'fixed32': ['uint32', 'int32'],
                 'fixed64': ['uint64', 'int64'],
                 'sfixed32': ['int32'], 'sfixed64': ['int64']})

_lib = {}


def library_functions(repo):
    if repo not in _lib:
        text = ir.compile_c([os.path.join(repo, 'lib/src/pbtools.c')],
                            [os.path.join(repo, 'lib/include')])[0]
        _lib[repo] = set(re.findall(
            r'^define (?!internal)[^@]*@([\w.]+)\(', text, re.M))
    return _lib[repo]


def map_snake(name):
    """The name of the message of a map, as the C code has it."""
    from .naming import snake
    return snake(f'PbtoolsMap{name.title()}')


def kind_of(x):
    if x.type == 'map':
        return f'map<{x.key}, {x.value}>'
    return f'{x.mode}/{x.type}'


def show(v):
    if not isinstance(v, tuple):
        return str(v)
    k = v[0]
    if k == 'c':
        return str(v[1])
    if k == 'ptr':
        r = v[1]
        base = {'arg': lambda: f'arg{r[1]}', 'g': lambda: r[1],
                'alloca': lambda: r[2].lstrip('%')}.get(
            r[0], lambda: str(r))()
        return f'&{base}+{v[2]}' if v[2] or r[0] != 'g' else base
    if k == 'load':
        return f'*({show(("ptr", v[1], v[2]))}:{v[3]})'
    if k == 'call':
        return f'{v[2]}()'
    return str(v)[:80]


class FunctionChecks:
    """The functions of one message."""

    def __init__(self, file, m, name, public):
        self.fc = file
        self.m = m
        self.name = name
        self.public = public
        info = file.info[name]
        self.size = file.off(info['size'])
        self.heap = file.off(info['heap'])
        self.members = {k: {a: file.off(b) for a, b in v.items()}
                        for k, v in info['members'].items()}
        self.oneofs = {k: (file.off(v[0]),
                           {a: file.off(b) for a, b in v[1].items()})
                       for k, v in info['oneofs'].items()}
        self.epoch = 0

    def report(self, prop, rule, construct, ok, text=''):
        self.fc.report(prop, rule, construct, ok,
                       f'{self.name}: {text}' if text else '')

    def sizeof(self, cname):
        return self.fc.off(self.fc.info[cname]['size']) \
            if cname in self.fc.info else None

    def run(self):
        self.encode()
        self.decode()
        self.init()
        self.wrappers()

    def fn(self, suffix, construct, prop):
        name = f'{self.name}{suffix}'
        fn = self.fc.mod.functions.get(name)
        self.fc.expected.add(name)
        self.report(prop, 'the functions of every message are defined',
                    construct, fn is not None, f'{name} is not defined')
        if fn is None:
            return None
        return ceval.Eval(self.fc.mod, fn).run()

    def all_fields(self):
        for x in self.m.fields:
            yield x, None
        for o in self.m.oneofs:
            for x in o.fields:
                yield x, o

    # encode

    def encode_spec(self, x, oneof, epoch=0):
        """[(callee, args after the encoder)] that write a field."""
        at = self.members[id(x)]['at']
        self_ = ('arg', 1)
        ptr = ('ptr', self_, at)
        num = ('c', x.number)
        if x.mode == 'repeated':
            if x.type in ('message', 'map'):
                t = self.fc.type_snake(self.name, x)
                if t in self.fc.f.imported[1]:
                    return [(t + self.fc.repeated['encode'], [num, ptr])]
                return [('pbtools_encode_repeated_inner',
                         [num, ptr, ('c', self.sizeof(t)),
                          self.func(t, 'encode_inner')])]
            types = ['int32'] if x.type == 'enum' else [x.type]
            return [(f'pbtools_encoder_write_repeated_{t}', [num, ptr])
                    for t in types]
        always = '_always' if x.mode == 'optional' or oneof else ''
        if x.type == 'message':
            t = x.ref[2]
            return [(f'pbtools_encoder_sub_message_encode{always}',
                     [num, ('load', self_, at, 8, epoch),
                      self.func(t, 'encode_inner')])]
        if x.type == 'bytes':
            v = ptr
        else:
            v = ('load', self_, at, SIZES[x.type], epoch)
        types = ['enum', 'int32'] if x.type == 'enum' else [x.type]
        return [(f'pbtools_encoder_write_{t}{always}', [num, v])
                for t in types]

    def func(self, t, what):
        return ('ptr', ('g', t + self.fc.suffix[what]), 0)

    def encode(self):
        segs = self.fn(self.fc.suffix['encode_inner'], 'message', 'G01')
        if segs is None:
            return
        fields = list(self.all_fields())
        numbers = {}
        for x, o in fields:
            numbers[x.number] = (x, o)
        bad = {}        # id(x) -> text
        other = None
        for s in segs:
            if s.start != 'entry' or s.end != 'end':
                raise ceval.Unsupported(f'loop in {self.name}_encode_inner')
            written = {}
            for callee, args, n in s.events:
                hit = None
                for x, o in fields:
                    for c, a in self.encode_spec(x, o):
                        if c == callee and args[0] == ('ptr', ('arg', 0), 0) \
                                and args[1:] == a:
                            hit = x
                if hit is None:
                    num = args[1][1] if len(args) > 1 and \
                        args[1][0] == 'c' else None
                    x = numbers.get(num, (None, None))[0]
                    text = (f'{callee}('
                            f'{", ".join(show(a) for a in args)})')
                    if x is not None:
                        want = self.encode_spec(*numbers[num])[0]
                        bad.setdefault(id(x), text + ' instead of '
                                       f'{want[0]}(..., ' + ', '.join(
                                           show(a) for a in want[1]) + ')')
                    else:
                        other = other or text
                else:
                    written[id(hit)] = written.get(id(hit), 0) + 1
            if s.stores:
                other = other or 'the message is modified'
            for x, o in fields:
                want = self.wanted(x, o, s)
                have = written.get(id(x), 0)
                if want is None:
                    bad.setdefault(id(x), f'{x.name}: whether it is written '
                                   'does not depend on '
                                   + ('the choice' if o else 'is_present'))
                elif want != have:
                    bad.setdefault(
                        id(x), f'{x.name} (number {x.number}) is written '
                        f'{have} times when it should be {want} '
                        f'({self.cond_text(s)})')
        for x, o in fields:
            prop = 'G03' if o else 'G04' if x.mode == 'optional' else 'G01'
            self.report(prop, 'encode writes the field once, with its '
                        'number, type and value, when it is set',
                        kind_of(x), id(x) not in bad, bad.get(id(x), ''))
        self.report('G01', 'encode writes nothing but the fields', 'message',
                    other is None, other or '')

    def cond_text(self, s):
        return ', '.join(f'{show(k)} {v[0]} {v[1] if v[0] == "is" else set(v[1])}'
                         for k, v in list(s.decisions.items())[:4]) or 'always'

    def wanted(self, x, o, s):
        if o is not None:
            off, choices = self.oneofs[id(o)]
            d = s.decisions.get(('load', ('arg', 1), off, 4, 0))
            c = choices[id(x)]
            if d is None:
                return None
            if d[0] == 'is':
                return int(d[1] == c)
            return 0 if c in d[1] else None
        if x.mode == 'optional':
            d = s.decisions.get(('load', ('arg', 1),
                                 self.members[id(x)]['present'], 1, 0))
            if d is None:
                return None
            # A bool is zero or one.
            if d[0] == 'is':
                return int(d[1] != 0)
            return 0 if 1 in d[1] else 1 if 0 in d[1] else None
        return 1

    # decode

    def decode(self):
        segs = self.fn(self.fc.suffix['decode_inner'], 'message', 'G02')
        if segs is None:
            return
        dec = ('ptr', ('arg', 0), 0)
        fields = list(self.all_fields())
        pre = [s for s in segs if s.start == 'entry']
        heads = {s.end for s in pre} | {s.start for s in segs
                                        if s.start != 'entry'}
        heads.discard('end')
        text = None
        if len(heads) != 1 or any(s.end == 'end' for s in pre):
            self.report('G02', 'decode reads fields until none is left',
                        'message', False, 'no loop over the fields')
            return
        head = heads.pop()
        # Before the loop: an info for every repeated field.
        rep = [x for x, o in fields if x.mode == 'repeated']
        infos = {}
        bad = {}
        for s in pre:
            mine = {}
            for callee, args, n in s.events:
                if callee == 'pbtools_repeated_info_init' and \
                        args[0][0] == 'ptr' and args[0][1][0] == 'alloca' and \
                        args[1][0] == 'c':
                    mine.setdefault(args[1][1], []).append(args[0])
                else:
                    text = text or (f'{callee} before any field is read')
            if has_self(s.stores):
                text = text or 'the message is modified before the fields'
            for x in rep:
                got = mine.get(x.number, [])
                if len(got) != 1:
                    bad[id(x)] = f'{len(got)} infos for {x.name}'
                elif infos.setdefault(id(x), got[0]) != got[0]:
                    bad[id(x)] = f'several infos for {x.name}'
        if len(set(infos.values())) != len(infos):
            dup = [x.name for x in rep if id(x) in infos and
                   list(infos.values()).count(infos[id(x)]) > 1]
            for x in rep:
                if x.name in dup:
                    bad[id(x)] = f'{dup} share an info'
        numbers = {x.number: (x, o) for x, o in fields}
        seen = set()
        default = False
        exits = False
        for s in segs:
            if s.start == 'entry':
                continue
            ev = list(s.events)
            if not ev or ev[0][0] != 'pbtools_decoder_available' or \
                    ev[0][1] != [dec]:
                text = text or 'a field is read without asking for data'
                continue
            avail = s.decisions.get(('call', ev[0][2],
                                     'pbtools_decoder_available'))
            if avail is None:
                text = text or 'a field is read without data'
                continue
            more = avail != ('is', 0)
            if s.end == 'end':
                if more:
                    text = text or 'decoding ends with data left'
                exits = True
                self.finalizers(s, ev[1:], rep, infos, bad, dec)
                continue
            if not more:
                text = text or 'decoding goes on without data'
                continue
            if len(ev) < 2 or ev[1][0] != 'pbtools_decoder_read_tag' or \
                    ev[1][1][0] != dec or ev[1][1][1][0] != 'ptr' or \
                    ev[1][1][1][1][0] != 'alloca':
                text = text or 'no tag is read'
                continue
            tag = ('call', ev[1][2], 'pbtools_decoder_read_tag')
            wt = ('out', ev[1][2], 'pbtools_decoder_read_tag')
            d = s.decisions.get(tag)
            rest = ev[2:]
            if d is not None and d[0] == 'is' and d[1] in numbers:
                x, o = numbers[d[1]]
                seen.add(id(x))
                why = self.decoded(x, o, s, rest, wt, infos.get(id(x)), dec)
                if why:
                    bad.setdefault(id(x), why)
            else:
                if d is None or d[0] == 'not':
                    default = True
                    excluded = d[1] if d else frozenset()
                    for n in numbers:
                        if n not in excluded:
                            bad.setdefault(id(numbers[n][0]),
                                           f'{numbers[n][0].name} (number '
                                           f'{n}) is not read')
                if len(rest) != 1 or \
                        rest[0][0] != 'pbtools_decoder_skip_field' or \
                        rest[0][1] != [dec, wt] or has_self(s.stores):
                    which = f'number {d[1]}' if d and d[0] == 'is' else \
                        'an unknown number'
                    text = text or f'a field with {which} is not skipped'
        for x, o in fields:
            if id(x) not in seen:
                bad.setdefault(id(x), f'{x.name} (number {x.number}) is not '
                               'read')
            prop = 'G03' if o else 'G04' if x.mode == 'optional' else \
                'G08' if x.mode == 'repeated' else 'G02'
            rule = 'decode counts and then stores the items of the field' \
                if x.mode == 'repeated' else 'decode stores the field read'
            self.report(prop, rule, kind_of(x), id(x) not in bad,
                        bad.get(id(x), ''))
        if not default:
            text = text or 'unknown fields are not skipped'
        if not exits:
            text = text or 'decoding never ends'
        self.report('G02', 'decode reads fields until none is left and skips '
                    'unknown ones', 'message', text is None, text or '')

    def rtype(self, x):
        return 'int32' if x.type == 'enum' else x.type

    def finalizers(self, s, ev, rep, infos, bad, dec):
        left = list(ev)
        for x in rep:
            info = infos.get(id(x))
            if info is None:
                continue
            ptr = ('ptr', ('arg', 1), self.members[id(x)]['at'])
            if x.type in ('message', 'map'):
                t = self.fc.type_snake(self.name, x)
                want = ('pbtools_decode_repeated_inner',
                        [dec, info, ptr, ('c', self.sizeof(t)),
                         self.func(t, 'init'),
                         self.func(t, 'decode_inner')])
                if t in self.fc.f.imported[1]:
                    want = (t + self.fc.repeated['decode'],
                            [dec, info, ptr])
            else:
                want = (f'pbtools_decoder_decode_repeated_{self.rtype(x)}',
                        [dec, info, ptr])
            hits = [e for e in left if e[0] == want[0] and e[1] == want[1]]
            if len(hits) != 1:
                got = [f'{e[0]}({", ".join(map(show, e[1]))})' for e in left
                       if info in e[1] or ptr in e[1]]
                bad.setdefault(id(x), f'{x.name} is stored {len(hits)} times '
                               f'by {want[0]}: {got}')
            left = [e for e in left if e not in hits]
        if left or has_self(s.stores):
            what = left[0][0] if left else 'a store'
            self.report('G02', 'nothing but repeated fields is stored at the '
                        'end', 'message', False, what)
        else:
            self.report('G02', 'nothing but repeated fields is stored at the '
                        'end', 'message', True)

    def decoded(self, x, o, s, ev, wt, info, dec):
        """What is wrong with how a field is read."""
        mem = self.members[id(x)]
        at = mem['at']
        ptr = ('ptr', ('arg', 1), at)
        stores = {k: v for k, v in s.stores.items() if k[0] == ('arg', 1)}
        others = [k for k in s.stores if k[0][0] == 'arg' and
                  k[0] != ('arg', 1)]
        if others:
            return f'{x.name}: a store to something else'
        if x.mode == 'repeated':
            if stores:
                return f'{x.name}: the message is modified while counting'
            if x.type in ('message', 'map'):
                c = 'pbtools_repeated_info_decode'
            else:
                c = f'pbtools_repeated_info_decode_{self.rtype(x)}'
            want = [(c, [info, dec, wt])]
            return self.same(x, ev, want)
        want_stores = {}
        if o is not None:
            off, choices = self.oneofs[id(o)]
            want_stores[('arg', 1), off] = (4, ('c', choices[id(x)]))
        if x.mode == 'optional':
            want_stores[('arg', 1), mem['present']] = (1, ('c', 1))
        init = ('pbtools_bytes_init', [ptr])
        if x.type == 'bytes':
            want = [('pbtools_decoder_read_bytes', [dec, wt, ptr])]
            if ev and (ev[0][0], ev[0][1]) == init:
                ev = ev[1:]
        elif x.type == 'string':
            want = [('pbtools_decoder_read_string', [dec, wt, ptr])]
        elif x.type == 'message':
            t = x.ref[2]
            want = [('pbtools_decoder_sub_message_decode',
                     [dec, wt, ptr, ('c', self.sizeof(t)),
                      self.func(t, 'init'), self.func(t, 'decode_inner')])]
        else:
            types = ['enum', 'int32'] if x.type == 'enum' else [x.type]
            if len(ev) != 1 or ev[0][0] not in [
                    f'pbtools_decoder_read_{t}' for t in types] or \
                    ev[0][1] != [dec, wt]:
                return (f'{x.name} (number {x.number}) is read by ' +
                        ', '.join(f'{e[0]}({", ".join(map(show, e[1]))})'
                                  for e in ev))
            want_stores[('arg', 1), at] = (SIZES[x.type],
                                           ('call', ev[0][2], ev[0][0]))
            want = None
        if want is not None:
            why = self.same(x, ev, want)
            if why:
                return why
            # What a default value left in the member does not matter.
            stores = {k: v for k, v in stores.items()
                      if not (at <= k[1] and
                              k[1] + v[0] <= at + mem['size'])}
        if stores != want_stores:
            return (f'{x.name} (number {x.number}): stores ' + ', '.join(
                f'+{k[1]}:{v[0]} = {show(v[1])}' for k, v in stores.items()) +
                ' instead of ' + ', '.join(
                f'+{k[1]}:{v[0]} = {show(v[1])}'
                for k, v in want_stores.items()))
        return None

    def same(self, x, ev, want):
        have = [(e[0], e[1]) for e in ev]
        if have != want:
            return (f'{x.name} (number {x.number}) is read by ' + ', '.join(
                f'{e[0]}({", ".join(map(show, e[1]))})' for e in have) +
                ' instead of ' + ', '.join(
                f'{c}({", ".join(map(show, a))})' for c, a in want))
        return None

    # init

    def default_ok(self, x, stores, events):
        """Whether the default value of a field has been set."""
        mem = self.members[id(x)]
        at = mem['at']
        if x.mode == 'repeated':
            return self.zero(stores, mem['length'], 4)
        if x.mode == 'optional':
            return self.zero(stores, mem['present'], 1)
        if x.type == 'bytes':
            return self.zero(stores, at, 16) or any(
                e[0] == 'pbtools_bytes_init' and
                e[1] == [('ptr', ('arg', 0), at)] for e in events)
        if x.type == 'string':
            v = stores.get((('arg', 0), at))
            return v is not None and v[0] == 8 and self.empty_string(v[1])
        return self.zero(stores, at, SIZES[x.type])

    def empty_string(self, v):
        if v[0] != 'ptr' or v[1][0] != 'g':
            return False
        g = self.fc.mod.globals.get('@' + v[1][1].lstrip('@'))
        if g is None or g[1] is None:
            return False
        if g[1] == ('zero',):
            return True
        if g[1][0] == 'bytes':
            return g[1][1][v[2]] == 0
        return False

    def zero(self, stores, at, n):
        for (r, o), (sz, v) in stores.items():
            if r == ('arg', 0) and o <= at and at + n <= o + sz and \
                    v == ('c', 0):
                return True
        have = set()
        for (r, o), (sz, v) in stores.items():
            if r == ('arg', 0) and v == ('c', 0):
                have.update(range(o, o + sz))
        return all(at + i in have for i in range(n))

    def init(self):
        segs = self.fn(self.fc.suffix['init'], 'message', 'G06')
        if segs is None:
            return
        bad = {}
        other = None
        fields = [(x, None) for x in self.m.fields]
        for s in segs:
            if s.start != 'entry' or s.end != 'end':
                raise ceval.Unsupported(f'loop in {self.name}_init')
            events = [(e[0], e[1]) for e in s.events]
            if s.stores.get((('arg', 0), self.heap)) != (8, ('ptr', (
                    'arg', 1), 0)):
                other = other or 'the heap is not stored'
            for x, o in fields:
                if not self.default_ok(x, s.stores, events):
                    bad[id(x)] = f'{x.name} has no default value'
            for o in self.m.oneofs:
                off, choices = self.oneofs[id(o)]
                if not self.zero(s.stores, off, 4):
                    bad[id(o)] = f'{o.name} is not none'
            for callee, args in events:
                if callee != 'pbtools_bytes_init' or not any(
                        x.type == 'bytes' and args ==
                        [('ptr', ('arg', 0), self.members[id(x)]['at'])]
                        for x, o in fields):
                    other = other or f'{callee} is called'
            for (r, o), (n, v) in s.stores.items():
                if r != ('arg', 0) and r[0] != 'alloca' or \
                        r == ('arg', 0) and (o < 0 or o + n > self.size):
                    other = other or 'something else is written'
        for x, o in fields:
            self.report('G06', 'every field of a new message has its default '
                        'value', kind_of(x), id(x) not in bad,
                        bad.get(id(x), ''))
        for o in self.m.oneofs:
            for prop in ('G06', 'G03'):
                self.report(prop, 'no field of a oneof of a new message is '
                            'set', 'oneof', id(o) not in bad,
                            bad.get(id(o), ''))
        self.report('G06', 'a new message knows its heap and nothing else is '
                    'written', 'message', other is None, other or '')

    # wrappers

    def simple(self, suffix, construct, want, stores=None, prop='G08',
               returns=True, rule='allocates items of the type of the field',
               extra=None):
        segs = self.fn(suffix, construct, prop)
        if segs is None:
            return
        text = None
        for s in segs:
            if s.start != 'entry' or s.end != 'end':
                raise ceval.Unsupported(f'loop in {self.name}{suffix}')
            have = [(e[0], e[1]) for e in s.events]
            if want is not None:
                if have != [want]:
                    text = text or ', '.join(
                        f'{c}({", ".join(map(show, a))})' for c, a in have) \
                        + ' instead of ' + \
                        f'{want[0]}({", ".join(map(show, want[1]))})'
                elif returns and s.ret != ('call', s.events[0][2], want[0]):
                    text = text or 'the result is not returned'
            if extra is not None:
                text = text or extra(s, have)
            elif {k: v for k, v in s.stores.items()
                  if k[0][0] != 'alloca'} != (stores or {}):
                text = text or ('stores ' + ', '.join(
                    f'+{k[1]}:{v[0]} = {show(v[1])}'
                    for k, v in s.stores.items()))
        self.report(prop, rule, construct, text is None, f'{suffix[1:]}: '
                    f'{text}' if text else '')

    def wrappers(self):
        size = ('c', self.size)
        a0 = ('ptr', ('arg', 0), 0)
        a1 = ('ptr', ('arg', 1), 0)
        if self.public:
            self.simple('_new', 'message',
                        ('pbtools_message_new',
                         [a0, ('arg', 1), size,
                          self.func(self.name, 'init')]), prop='G05',
                        rule='new makes a message of the right size')
            self.simple('_encode', 'message',
                        ('pbtools_message_encode',
                         [a0, a1, ('arg', 2),
                          self.func(self.name, 'encode_inner')]), prop='G01',
                        rule='encode encodes the message')
            self.simple('_decode', 'message',
                        ('pbtools_message_decode',
                         [a0, a1, ('arg', 2),
                          self.func(self.name, 'decode_inner')]), prop='G02',
                        rule='decode decodes the message')
        heap = ('load', ('arg', 0), self.heap, 8, 0)
        for x, o in self.all_fields():
            at = self.members[id(x)]['at']
            ptr = ('ptr', ('arg', 0), at)
            if x.mode == 'repeated':
                if x.type in ('message', 'map'):
                    t = self.fc.type_snake(self.name, x)
                    want = ('pbtools_alloc_repeated',
                            [ptr, ('arg', 1), heap, ('c', self.sizeof(t)),
                             self.func(t, 'init')])
                else:
                    want = (f'pbtools_alloc_repeated_{self.rtype(x)}',
                            [a0, ('arg', 1), ptr])
                self.simple(f'_{x.snake}_alloc', kind_of(x), want)
            elif x.type == 'message':
                t = x.ref[2]
                stores = {}
                if o is not None:
                    off, choices = self.oneofs[id(o)]
                    stores = {(('arg', 0), off): (4, ('c', choices[id(x)]))}
                self.simple(f'_{x.snake}_alloc', kind_of(x), (
                    'pbtools_sub_message_alloc',
                    [ptr, heap, ('c', self.sizeof(t)),
                     self.func(t, 'init')]), stores,
                    prop='G03' if o else 'G08',
                    rule='alloc selects the field and allocates it' if o else
                    'allocates items of the type of the field')
            elif o is not None:
                def extra(s, have, x=x, o=o):
                    off, choices = self.oneofs[id(o)]
                    if s.stores.get((('arg', 0), off)) != (
                            4, ('c', choices[id(x)])):
                        return 'the field is not selected'
                    if not self.default_ok(x, s.stores, have):
                        return 'no default value'
                    at = self.members[id(x)]['at']
                    n = self.members[id(x)]['size']
                    for (r, k), (sz, v) in s.stores.items():
                        if r == ('arg', 0) and k != off and not (
                                at <= k and k + sz <= at + n):
                            return 'something else is written'
                    for c, a in have:
                        if (c, a) != ('pbtools_bytes_init',
                                      [('ptr', ('arg', 0), at)]):
                            return f'{c} is called'
                    return None
                self.simple(f'_{x.snake}_init', kind_of(x), None,
                            prop='G03', extra=extra, returns=False,
                            rule='init selects the field and sets its '
                            'default value')


def has_self(stores):
    return any(k[0][0] != 'alloca' for k in stores)
