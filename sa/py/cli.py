"""The command line and the writing of files: every path through _main() and
generate_files(), with every call of the outside world returning or raising.

The parser of proto files and the Generator classes are events here; they
have their own analyses.
"""

import os
import re
import sys

try:
    from re import _parser as sre
except ImportError:         # before Python 3.11
    import sre_parse as sre

from . import render, schema
from .builtins_ import raise_
from .pai import Interp
from .values import (Builtin, Class, Ext, List, Obj, Str, Sym, Unsupported,
                     _counter, atom, concat, short)

LANGUAGES = {
    'c': ('pbtools.c_source', ('h', 'c')),
    'rust': ('pbtools.rust_source', ('rs',)),
    'mys': ('pbtools.mys_source', ('mys',)),
}
# names of input files and what their output files are called
NAMES = [('foo.proto', 'foo'), ('foo_bar.proto', 'foo_bar'),
         ('dir/FooBar.proto', 'foo_bar'), ('/abs/a/msg1.proto', 'msg1'),
         ('../up/My-File.proto', 'my_file'), ('a.b/x.y.proto', 'x_y'),
         ('noExtension', 'no_extension'), ('./two words.proto', 'two_words'),
         ('deep/er/HTTPServer.proto', 'http_server')]


class Argparse:
    """argparse, as far as it decides what the program gets to see."""

    ARG_KW = {'action', 'default', 'nargs', 'help', 'metavar', 'dest', 'type',
              'version', 'const', 'required', 'choices'}

    def __init__(self, it):
        self.it = it
        cls = Class('ArgumentParser', [], {})
        self.cls = cls
        for name in ('add_argument', 'add_subparsers', 'add_parser',
                     'set_defaults', 'parse_args', 'add_argument_group',
                     'add_mutually_exclusive_group', 'error', 'exit',
                     'print_help', 'parse_known_args', 'format_help'):
            cls.attrs[name] = Builtin(name, getattr(self, name))
        self.top = None
        self.commands = {}
        self.subparsers = None
        self.failed = False

    def new(self, it, *args, **kw):
        o = Obj(self.cls)
        o.arguments = []
        o.defaults = {}
        if self.top is None:
            self.top = o
        return o

    def add_argument(self, o, *flags, **kw):
        if set(kw) - self.ARG_KW:
            raise Unsupported(f'add_argument({sorted(kw)})')
        if not all(isinstance(f, str) for f in flags):
            raise Unsupported('names of options that are no constants')
        long = [f for f in flags if f.startswith('--')]
        dest = kw.get('dest')
        if dest is None:
            dest = (long or list(flags))[0].lstrip('-').replace('-', '_')
        a = {'flags': flags, 'dest': dest, 'kw': kw,
             'positional': not flags[0].startswith('-')}
        o.arguments.append(a)
        return a

    def add_subparsers(self, o, **kw):
        s = self.subparsers = Obj(self.cls)
        s.attrs['required'] = kw.get('required', False)
        s.attrs['dest'] = kw.get('dest')
        return s

    def add_parser(self, o, name, **kw):
        if not isinstance(name, str):
            raise Unsupported('a subcommand that is no constant')
        p = self.new(self.it)
        self.commands[name] = p
        return p

    def set_defaults(self, o, **kw):
        o.defaults.update(kw)

    def add_argument_group(self, o, *a, **kw):
        return o

    def add_mutually_exclusive_group(self, o, **kw):
        return o

    def error(self, o, message):
        raise_(self.it, 'SystemExit', [2])

    def exit(self, o, status=0, message=None):
        raise_(self.it, 'SystemExit', [status])

    def print_help(self, o, *a):
        self.it.event('print', (), ())

    def format_help(self, o):
        return atom('help')

    def parse_known_args(self, o, *a):
        return (self.parse_args(o, *a), List())

    def parse_args(self, o, *a):
        if self.it.decide(Sym('bad usage', ty='bool')):
            self.failed = True
            raise_(self.it, 'SystemExit', [2])
        ns = Obj(Class('Namespace', [], {}))
        for p in self.chosen():
            for k, v in p.defaults.items():
                ns.attrs.setdefault(k, v)
            for arg in p.arguments:
                ns.attrs[arg['dest']] = self.value(arg)
        if self.subparsers is not None and self.subparsers.attrs['dest']:
            ns.attrs[self.subparsers.attrs['dest']] = self.command
        self.namespace = ns
        return ns

    def chosen(self):
        yield self.top
        names = list(self.commands)
        self.command = None
        if self.subparsers is not None:
            if self.subparsers.attrs['required'] is not True and \
                    self.it.decide(Sym('no subcommand', ty='bool')):
                return
            for n in names[:-1]:
                if self.it.decide(Sym('subcommand', n, ty='bool')):
                    self.command = n
                    break
            else:
                self.command = names[-1]
            yield self.commands[self.command]

    def value(self, arg):
        kw, dest = arg['kw'], arg['dest']
        action = kw.get('action', 'store')
        convert = kw.get('type')
        for k in ('const', 'choices'):
            if k in kw:
                raise Unsupported(f'add_argument({k}=)')

        def one(name):
            v = atom(name)
            if convert is not None:
                v = self.it.call(convert, [v])
            return v
        if action == 'version':
            return None
        if action in ('store_true', 'store_false'):
            on = self.it.decide(Sym('given', dest, ty='bool'))
            return on == (action == 'store_true')
        if arg['positional'] and kw.get('nargs') in ('+', '*'):
            return List([one(f'{dest}{i}') for i in range(self.files)])
        if arg['positional'] and kw.get('nargs') is None:
            return one(dest)
        if not self.it.decide(Sym('given', dest, ty='bool')):
            return kw.get('default')
        if action == 'append' and kw.get('nargs') is None:
            base = kw.get('default')
            base = base.segs if isinstance(base, List) else []
            return List(base + [one(f'{dest}{i}') for i in range(APPENDED)])
        if action == 'store' and kw.get('nargs') is None:
            return one(dest)
        if action in ('store', 'append', 'extend') and \
                kw.get('nargs') in ('+', '*'):
            return List([one(f'{dest}{i}') for i in range(APPENDED)])
        raise Unsupported(f'add_argument(action={action!r})')


class Run:
    """One path."""

    def __init__(self):
        self.events = []
        self.argparse = None
        self.decisions = self.outcome = self.value = None

    @property
    def raised(self):
        """The first failing call."""
        for c, b in self.decisions:
            if c.op == 'raises' and b:
                return c.args[0]

    def given(self, dest):
        for c, b in self.decisions:
            if c.op == 'given' and c.args[0] == dest:
                return b


class CliInterp(Interp):

    def __init__(self, root):
        super().__init__(root, ext_raises=True)
        self.stub = Class('Generator', [], {})
        self.stub.attrs['generate'] = Builtin('generate', self.generate)
        self.call_hooks['parse_file'] = self.parse_file
        self.ext['sys.argv'] = List([atom('argv')])
        for p in ('pathlib.Path', 'pathlib.PurePath'):
            self.ext[p] = lambda it, *a: a[0] if len(a) == 1 else \
                self.call_ext('os.path.join', list(a), {})

    def maybe_raise(self, t):
        if t.op == 'call' and isinstance(t.args[0], Sym) and \
                t.args[0].op == 'attr' and t.args[0].args[1] in (
                    'close', 'flush'):
            return t            # closing does not fail
        return super().maybe_raise(t)

    def merged(self, run, outcomes):
        return None         # every path is looked at on its own

    def load(self):
        """Every module, before paths are explored."""
        base = os.path.join(self.root, 'pbtools')
        for d, dirs, files in sorted(os.walk(base)):
            dirs.sort()
            for f in sorted(files):
                name = os.path.relpath(os.path.join(d, f), self.root)[:-3]
                if f.endswith('.py') and f != '__main__.py':
                    name = name.replace('/', '.').removesuffix('.__init__')
                    self.module(name)

    def module(self, name):
        old, self.ext_raises = self.ext_raises, \
            name == 'pbtools.__main__'
        try:
            return super().module(name)
        finally:
            self.ext_raises = old

    def parse_file(self, it, f, args, kw):
        names = [a.arg for a in f.node.args.args]
        values = dict(zip(names, args))
        values.update(kw)
        name = values.get('filename', args[0] if args else None)
        paths = values.get('import_paths')
        t = Sym('parsed', name, freeze(paths))
        self.event('parse', t)
        return self.maybe_raise(t)

    def instantiate(self, cls, args, kw):
        lang = None
        if cls.name == 'Generator':
            mod = cls.module
            mod = getattr(mod, 'name', mod)
            for lang, (m, _) in LANGUAGES.items():
                if mod is not None and str(mod).startswith(m):
                    break
            else:
                lang = None
        if lang is None:
            return super().instantiate(cls, args, kw)
        o = Obj(self.stub)
        o.lang = lang
        o.given = list(args) + list(kw.values())
        return o

    def generate(self, o):
        parsed = [a for a in o.given if isinstance(a, Sym) and
                  a.op == 'parsed']
        t = Sym('generated', o.lang, *parsed)
        self.append(self.events, ('generate', t, o.given))
        self.maybe_raise(t)
        ext = LANGUAGES[o.lang][1]
        texts = tuple(Sym('text', e, t, ty='str') for e in ext)
        return texts if len(ext) > 1 else texts[0]


def freeze(v):
    if isinstance(v, List):
        return tuple(freeze(x) for x in v.segs)
    if isinstance(v, tuple):
        return tuple(freeze(x) for x in v)
    return v


def explore(it, f, files):
    runs = []
    born = next(_counter)

    def body():
        mark = len(it.journal)
        run = Run()
        runs.append(run)
        it.events = List()
        run.argparse = a = Argparse(it)
        a.files = files
        it.ext['argparse.ArgumentParser'] = a.new
        try:
            return f()
        finally:
            run.events = list(it.events.segs)
            run.kept = [loc for loc in it.touched(mark, born)
                        if loc[1] is not it.events]
    out = it.run_paths(body)
    assert len(out) == len(runs)
    for run, (dec, outcome, value) in zip(runs, out):
        run.decisions, run.outcome, run.value = dec, outcome, value
    return runs


# -- files -------------------------------------------------------------------


class Written:
    def __init__(self, path, at):
        self.path = path
        self.at = at
        self.parts = []
        self.closed = None
        self.mode = None


def kwargs(args):
    pos = [a for a in args if not render.is_kw(a)]
    return pos, {a[0]: a[1] for a in args if render.is_kw(a)}


def effects(run):
    """[(index, kind, data)]: 'write' opens, texts, and everything else."""
    out = []
    opened = {}
    for i, e in enumerate(run.events):
        kind = e[0]
        if kind == 'close':
            w = opened.get(e[1])
            if w is not None and w.closed is None:
                w.closed = i
            continue
        if kind == 'print':
            kw = dict(e[2])
            w = opened.get(kw.get('file'))
            if w is not None:
                end = kw.get('end', '\n')
                sep = kw.get('sep', ' ')
                for n, a in enumerate(e[1]):
                    w.parts += [sep, a] if n else [a]
                w.parts.append(end)
            else:
                out.append((i, 'print', e))
            continue
        if kind != 'call':
            out.append((i, kind, e[1]))
            continue
        t = e[1]
        if t.op == 'call' and isinstance(t.args[0], Ext):
            path = t.args[0].path
            pos, kw = kwargs(t.args[1:])
            if path in ('open', 'io.open', 'codecs.open', 'os.open',
                        'os.fdopen'):
                mode = kw.get('mode', pos[1] if len(pos) > 1 else 'r')
                if not isinstance(mode, str) or path.startswith('os.'):
                    raise Unsupported(f'{short(t)}')
                if set(mode) & set('wax+'):
                    w = Written(pos[0] if pos else kw.get('file'), i)
                    w.mode = mode
                    w.term = t
                    opened[t] = w
                    out.append((i, 'open', w))
                else:
                    out.append((i, 'read', t))
                continue
            out.append((i, 'ext', (path, pos, kw, t)))
            continue
        if t.op == 'call' and isinstance(t.args[0], Sym) and \
                t.args[0].op == 'attr':
            target, name = t.args[0].args
            pos, kw = kwargs(t.args[1:])
            w = opened.get(target)
            if w is not None:
                if name == 'write':
                    w.parts.append(pos[0])
                elif name == 'writelines':
                    w.parts += freeze(pos[0])
                elif name == 'close':
                    w.closed = i
                elif name not in ('flush', 'fileno'):
                    raise Unsupported(f'{name} of an output file')
                w.last = (i, t)
                continue
            if name == 'write_text':
                w = Written(target, i)
                w.mode = 'w'
                w.term = t
                w.parts = [pos[0]]
                w.closed = i
                out.append((i, 'open', w))
                continue
            out.append((i, 'method', (name, target, pos, t)))
            continue
        raise Unsupported(f'{short(t)}')
    return out


def text_of(parts):
    out = []
    for p in parts:
        if isinstance(p, Str):
            out += p.parts
        elif isinstance(p, str):
            if p:
                out.append(p)
        else:
            out.append(p)
    return out


# -- names -------------------------------------------------------------------

APPENDED = 7            # how often an option that may be repeated is given
ASCII = frozenset(chr(i) for i in range(128))
ANY = ASCII | {'other'}


def chars(t):
    """The characters a text may consist of."""
    if isinstance(t, str):
        return frozenset(c if c in ASCII else 'other' for c in t)
    if isinstance(t, Str):
        return frozenset().union(*[chars(p) for p in t.parts])
    if not isinstance(t, Sym):
        return ANY
    if t.op in ('splitext0', 'splitext1'):
        return chars(t.args[0])
    if t.op == 'call' and isinstance(t.args[0], Ext):
        path = t.args[0].path
        if path == 'os.path.basename':
            return chars(t.args[1]) - {'/'}
        if path == 're.sub' and len(t.args) == 4 and \
                isinstance(t.args[1], str) and isinstance(t.args[2], str):
            base = chars(t.args[3])
            repl = chars(re.sub(r'\\\d', '', t.args[2]))
            one = one_char(t.args[1])
            if one is not None:
                base = base - one
            return base | repl
    if t.op in ('m.lower', 'm.upper'):
        base = chars(t.args[0])
        f = str.lower if t.op == 'm.lower' else str.upper
        return frozenset(f(c) if c in ASCII else c for c in base)
    if t.op in ('m.strip', 'm.lstrip', 'm.rstrip', 'slice', 'm.removesuffix',
                'm.removeprefix'):
        return chars(t.args[0])
    if t.op == 'm.replace' and isinstance(t.args[1], str):
        base = chars(t.args[0])
        if len(t.args[1]) == 1:
            base = base - {t.args[1]}
        return base | chars(t.args[2])
    if t.op == 'getitem' and isinstance(t.args[0], Sym) and \
            t.args[0].op in ('m.rsplit', 'm.split', 'm.partition',
                             'm.rpartition'):
        return chars(t.args[0].args[0])
    if t.op == 'cond':
        return chars(t.args[1]) | chars(t.args[2])
    return ANY


def one_char(pattern):
    """What a pattern removes, if it matches every single such character."""
    p = sre.parse(pattern)
    items = list(p)
    if len(items) == 1 and items[0][0] is sre.MAX_REPEAT and \
            items[0][1][0] <= 1:
        items = list(items[0][1][2])
    if len(items) != 1:
        return None
    op, arg = items[0]
    if str(op) not in ('IN', 'NOT_LITERAL', 'LITERAL'):
        return None
    rx = re.compile(pattern)
    out = {c for c in ASCII if rx.fullmatch(c)}
    if str(op) == 'IN' and str(arg[0][0]) == 'NEGATE' and \
            not any(str(x[0]) == 'CATEGORY' for x in arg):
        out.add('other')
    return frozenset(out)


def split_path(t):
    """(directory, name) of os.path.join(directory, name)."""
    if isinstance(t, Sym) and t.op == 'call' and \
            isinstance(t.args[0], Ext) and t.args[0].path == 'os.path.join' \
            and len(t.args) == 3:
        return t.args[1], t.args[2]
    if isinstance(t, Sym) and t.op == 'div':
        return t.args
    if isinstance(t, Str) and len(t.parts) >= 3:
        for i in range(1, len(t.parts) - 1):
            p = t.parts[i]
            if isinstance(p, str) and p.startswith('/'):
                rest = t.parts[i + 1:]
                if p != '/':
                    rest = [p[1:]] + list(rest)
                return concat(*t.parts[:i]), concat(*rest)
    return None


class OneAtom(render.Env):
    def __init__(self, values):
        super().__init__()
        self.values = values

    def atom(self, name):
        if name in self.values:
            return self.values[name]
        raise render.Unrenderable(f'no value for {name}')


# -- the analyses ------------------------------------------------------------


class Cli:

    def __init__(self, repo):
        self.repo = repo

    def prepare(self):
        pass

    def jobs(self):
        out = []
        for n in (1, 2):
            out.append((self, f'cli/main/{n} files', ('main', n)))
        for lang in LANGUAGES:
            out.append((self, f'cli/generate_files/{lang}', ('api', lang)))
        out.append((self, 'cli/module', ('module', None)))
        out.append((self, 'cli/order', ('order', None)))
        out.append((self, 'cli/state/c', ('state', None)))
        return out

    def run(self, name, spec):
        self.findings = []
        self.analysed = set()
        getattr(self, spec[0])(spec[1])
        return {'findings': self.findings, 'analysed': sorted(self.analysed),
                'loops': []}

    def report(self, prop, rule, file, construct, ok, message):
        self.findings.append((prop, rule, file, construct, 0, bool(ok),
                              '' if ok else message))

    # -- pbtools ... ------------------------------------------------------

    def main(self, files):
        it = CliInterp(self.repo)
        it.load()
        mod = it.module('pbtools')
        f = mod.vars['_main']
        runs = explore(it, lambda: it.call(f, []), files)
        self.analysed |= {f'{a}:{b}' for a, b in it.analysed}
        file = 'pbtools/__init__.py'
        seen = set()
        for run in runs:
            a = run.argparse
            if a.failed:
                self.report('X01', 'wrong usage is not caught', file, '_main',
                            run.outcome == 'raise' and
                            not run_work(run), 'continues')
                continue
            lang = str(a.command).replace('generate_', '').replace(
                '_source', '')
            seen.add(lang)
            debug = run.given('debug')
            self.failure(run, file, debug)
            expect = {
                'infiles': [atom(f'infiles{i}') for i in range(files)],
                'import_paths': [[atom(f'import_path{i}')
                                  for i in range(APPENDED)]
                                 if run.given('import_path') else [], None],
                'output': atom('output_directory')
                if run.given('output_directory') else '.',
                'upper': bool(run.given('enums_upper_case')),
            }
            if expect['import_paths'][0]:
                expect['import_paths'] = expect['import_paths'][:1]
            self.outputs(run, lang, expect,
                         f'pbtools/subparsers/{a.command}.py')
        self.report('X05', 'there is a subcommand for each language', file,
                    '_main', seen == set(LANGUAGES), f'only {sorted(seen)}')
        self.options(runs[-1].argparse, file)
        for lang, (m, _) in LANGUAGES.items():
            done = [r for r in runs if r.outcome == 'return' and
                    str(r.argparse.command) == f'generate_{lang}_source']
            self.report('X01', 'valid input succeeds', file, lang,
                        bool(done), 'no path succeeds')

    def options(self, a, file):
        """The documented options exist."""
        def find(p, flag):
            for x in p.arguments:
                if flag in x['flags']:
                    return x

        def want(p, where, flags, f, text):
            x = [find(p, flag) for flag in flags]
            ok = all(y is not None and y is x[0] for y in x) and f(x[0])
            self.report('X05', 'the documented options are accepted', file,
                        f'{where} {"/".join(flags)}', ok, text)

        def action(name):
            return lambda x: x['kw'].get('action', 'store') == name and \
                x['kw'].get('nargs') is None and not x['kw'].get('required')
        want(a.top, 'pbtools', ('-d', '--debug'), action('store_true'),
             'no such flag')
        want(a.top, 'pbtools', ('--version',), lambda x:
             x['kw'].get('action') == 'version' and
             isinstance(x['kw'].get('version'), str), 'no such flag')
        self.report('X05', 'a subcommand is required', file, 'pbtools',
                    a.subparsers is not None and
                    a.subparsers.attrs['required'] is True, 'it is not')
        for lang in LANGUAGES:
            name = f'generate_{lang}_source'
            p = a.commands.get(name)
            self.report('X05', 'the documented subcommands are accepted', file,
                        name, p is not None, 'no such subcommand')
            if p is None:
                continue
            want(p, name, ('-I', '--import-path'), action('append'),
                 'not an option that may be repeated')
            want(p, name, ('-o', '--output-directory'), action('store'),
                 'not an option with a value')
            if lang == 'c':
                want(p, name, ('--enums-upper-case',), action('store_true'),
                     'no such flag')
            pos = [x for x in p.arguments if x['positional']]
            self.report('X05', 'one or more input files are accepted', file,
                        name, len(pos) == 1 and pos[0]['kw'].get('nargs') ==
                        '+', 'they are not')

    def failure(self, run, file, debug):
        t = run.raised
        if t is None:
            self.report('X01', 'success is not reported as failure', file,
                        '_main', run.outcome == 'return' and
                        run.value in (None, 0),
                        f'{run.outcome} {describe(run.value)}')
            return
        for c, b in run.decisions:
            if c.op == 'isinstance' and c.args[1] == 'Exception' and not b:
                return          # not an error but an interruption
        what = f'when {short(t)[:80]} fails'
        self.report('X01', 'a failure is not ignored', file, '_main',
                    run.outcome == 'raise',
                    f'success is reported {what}')
        if run.outcome != 'raise':
            return
        exc = Sym('exception', t)
        if run.value == exc:
            self.report('X01', 'an error is reported without a traceback '
                        'unless debugging', file, '_main', debug is True,
                        f'the exception is not caught {what}')
            return
        v = run.value
        is_exit = isinstance(v, Obj) and v.cls.name == 'SystemExit'
        self.report('X01', 'a failure exits', file, '_main', is_exit,
                    f'{describe(v)} {what}')
        if not is_exit:
            return
        status = v.attrs['args'][0] if v.attrs['args'] else None
        text = []
        if isinstance(status, (Str, str, Sym)):
            text = text_of([status])
            bad = not text or isinstance(status, Sym)
        else:
            bad = not isinstance(status, int) or isinstance(status, bool) or \
                status % 256 == 0
            for i, kind, e in effects(run):
                if kind == 'print' and 'stderr' in repr(dict(e[2]).get(
                        'file')):
                    for x in e[1]:
                        text += text_of([x])
                if kind == 'method' and e[0] == 'write' and \
                        'stderr' in repr(e[1]):
                    text += text_of(e[2])
        self.report('X01', 'the exit status of a failure is not 0', file,
                    '_main', not bad, f'sys.exit({short(status)}) {what}')
        self.report('X01', 'the reason of a failure is printed on stderr',
                    file, '_main', Sym('str', exc) in text,
                    f'{short(status)} does not contain it {what}')

    # -- files ------------------------------------------------------------

    def outputs(self, run, lang, expect, file):
        mod, exts = LANGUAGES.get(lang, (None, ()))
        if mod is None:
            return
        file = mod.replace('.', '/') + '/__init__.py'
        eff = effects(run)
        failed = run.raised
        self.report('X04', 'nothing is kept from one file to the next', file,
                    'generate_files', not run.kept, f'{run.kept[:2]}')
        index = {}
        for n, e in enumerate(run.events):
            if e[0] in ('call', 'parse', 'generate'):
                index.setdefault(e[1], n)
        fail_at = index.get(failed, len(run.events))
        work = [(i, kind, x) for i, kind, x in eff
                if kind in ('parse', 'generate', 'open')]
        opens = [x for i, kind, x in eff if kind == 'open']
        # X02
        later = [w for w in work if w[0] > fail_at]
        self.report('X02', 'nothing is read or written after a failure', file,
                    'generate_files', not later,
                    f'{later[0][1] if later else ""} after {short(failed)} '
                    'failed')
        for w in opens:
            end = w.closed if w.closed is not None else len(run.events)
            between = [k for i, k, x in work if w.at < i < end and
                       k in ('parse', 'generate')]
            self.report('X02', 'an output file is not opened before its text '
                        'is complete', file, 'generate_files', not between,
                        f'{between} while {short(w.path)} is open')
        if failed is not None and failed.op in ('parsed', 'generated'):
            src = failed if failed.op == 'parsed' else failed.args[1]
            own = [w for w in opens if mentions(w.path, src.args[0])]
            self.report('X02', 'a file that is not valid leaves its output '
                        'files untouched', file, 'generate_files', not own,
                        f'{[short(w.path) for w in own]} was opened')
        # X05
        parses = [x for i, kind, x in eff if kind == 'parse']
        want = expect['infiles']
        got = [p.args[0] for p in parses]
        self.report('X05', 'the input files are parsed in order', file,
                    'generate_files', got == want[:len(got)] and
                    (failed is not None or len(got) == len(want)),
                    f'{got} is parsed')
        for p in parses:
            paths = p.args[1]
            paths = list(paths) if isinstance(paths, tuple) else paths
            self.report('X05', 'the import paths are used in the order given',
                        file, 'generate_files',
                        paths in expect['import_paths'],
                        f'{short(paths)} for {expect["import_paths"]}')
        for i, kind, x in eff:
            if kind == 'generate':
                given = run.events[i][2]
                self.report('X05', 'code is generated from what was parsed',
                            file, 'generate_files',
                            sum(isinstance(g, Sym) and g.op == 'parsed'
                                for g in given) == 1, f'{short(given)}')
                if lang == 'c':
                    up = [g.attrs['enums_upper_case'] for g in given
                          if isinstance(g, Obj) and
                          'enums_upper_case' in g.attrs]
                    self.report('X05', 'the options reach the generator', file,
                                'generate_files', up == [expect['upper']],
                                f'enums_upper_case is {up} for '
                                f'{expect["upper"]}')
        # X03
        if failed is None:
            self.complete(run, lang, exts, expect, eff, opens, file)
        for w in opens:
            self.confined(w, expect, file)
        for i, kind, x in eff:
            if kind in ('ext', 'method') and not harmless(kind, x, expect):
                name = x[0]
                self.report('X03', 'nothing but the output files is changed',
                            file, 'generate_files', False,
                            f'{name} is called: {short(x)}')

    def complete(self, run, lang, exts, expect, eff, opens, file):
        parses = {x.args[0]: x for i, kind, x in eff if kind == 'parse'}
        for name in expect['infiles']:
            p = parses.get(name)
            if p is None:
                continue
            for ext in exts:
                text = Sym('text', ext, Sym('generated', lang, p))
                full = [w for w in opens if text_of(w.parts) == [text] and
                        w.closed is not None and w.mode in ('w', 'wt')]
                self.report('X03', 'the whole text is written, once', file,
                            f'.{ext}', len(full) == 1,
                            f'{len(full)} files get it')
                for w in full:
                    self.named(run, w, name, ext, expect, eff, lang, file)
        self.report('X03', 'the whole text is written, once', file,
                    'number of files',
                    len(opens) == len(expect['infiles']) * len(exts),
                    f'{len(opens)} files are written for '
                    f'{len(expect["infiles"])}')
        if lang == 'c':
            made = [i for i, kind, x in eff if kind == 'ext' and
                    x[0] == 'os.makedirs' and x[1] and
                    x[1][0] == expect['output'] and
                    (x[2].get('exist_ok') is True or
                     len(x[1]) > 2 and x[1][2] is True)]
            made += [i for i, kind, x in eff if kind == 'method' and
                     x[0] == 'mkdir' and x[1] == expect['output'] and
                     {('exist_ok', True), ('parents', True)} <=
                     set(x[3].args[1:])]
            there = any(b and c.op == 'call' and isinstance(c.args[0], Ext)
                        and c.args[0].path in ('os.path.isdir',
                                               'os.path.exists') and
                        c.args[1] == expect['output']
                        for c, b in run.decisions)
            self.report('X03', 'the output directory is created', file,
                        'generate_files', there or bool(made) and
                        all(made[0] < w.at for w in opens),
                        'it is not, before the files are written')

    def named(self, run, w, name, ext, expect, eff, lang, file):
        ok, text = True, ''
        base = None
        for value, snake in NAMES:
            env = OneAtom({name.args[0]: value, 'output_directory': 'o/p'})
            r = render.Renderer(None)
            try:
                got = r.ev(path_term(w.path), env)
            except render.Unrenderable as e:
                raise Unsupported(f'name of an output file: {e}')
            out = 'o/p' if isinstance(expect['output'], Sym) else \
                expect['output']
            want = os.path.join(out, f'{snake}.{ext}')
            if os.path.normpath(got) != os.path.normpath(want):
                ok, text = False, f'{got} for {value}, not {want}'
            base = f'{snake}.{ext}'
        self.report('X03', 'an output file is called like the input file',
                    file, f'.{ext}', ok, text)
        if lang == 'c' and ext == 'h':
            value = NAMES[-1][0]
            env = OneAtom({name.args[0]: value, 'output_directory': 'o/p'})
            headers = set()
            for i, kind, x in eff:
                if kind == 'generate' and x.args[1].args[0] == name:
                    for g in run.events[i][2]:
                        if isinstance(g, (Str, Sym)) and not (
                                isinstance(g, Sym) and g.op == 'parsed'):
                            headers.add(render.Renderer(None).ev(g, env))
            self.report('X03', 'the source includes the header that is '
                        'written', file, '.h', base in headers,
                        f'{headers} for {base}')

    def confined(self, w, expect, file):
        s = split_path(w.path)
        if s is None:
            if isinstance(expect['output'], str):
                path = w.path
                if isinstance(path, Str) and isinstance(path.parts[0], str):
                    first = path.parts[0].removeprefix(expect['output'] + '/')
                    path = concat(first, *path.parts[1:])
                ok = '/' not in chars(path)
            else:
                ok = False
        else:
            ok = s[0] == expect['output'] and \
                not chars(s[1]) & {'/', '\0', '\\'}
            if ok and '.' in chars(s[1]):
                # no '..': it ends with a constant
                last = s[1].parts[-1] if isinstance(s[1], Str) else None
                ok = isinstance(last, str) and len(last) > 1
        self.report('X03', 'only files in the output directory are written',
                    file, 'generate_files', ok, f'{short(w.path)} is written')

    def api(self, lang):
        """generate_files() with its default arguments."""
        mod, exts = LANGUAGES[lang]
        file = mod.replace('.', '/') + '/__init__.py'
        it = CliInterp(self.repo)
        it.load()
        f = it.module(mod).vars['generate_files']
        infiles = [atom(f'infiles{i}') for i in range(3)]
        runs = explore(it, lambda: it.call(f, [List(infiles)]), 3)
        self.analysed |= {f'{a}:{b}' for a, b in it.analysed}
        for run in runs:
            expect = {'infiles': infiles, 'import_paths': [None, []],
                      'output': '.', 'upper': False}
            self.outputs(run, lang, expect, file)
            t = run.raised
            self.report('X01', 'a failure is not ignored', file,
                        'generate_files', (run.outcome == 'raise') ==
                        (t is not None), f'{run.outcome} when {short(t)} '
                        'fails')

    def module(self, _):
        """python -m pbtools"""
        it = CliInterp(self.repo)
        it.load()
        calls = []

        def main(it_, f, args, kw):
            t = Sym('main')
            calls.append(1)
            it_.event('parse', t)
            return it_.maybe_raise(t)
        it.call_hooks['_main'] = main
        runs = explore(it, lambda: reload(it), 1)
        for run in runs:
            n = sum(e[0] == 'parse' for e in run.events)
            self.report('X01', 'python -m pbtools runs the program once',
                        'pbtools/__main__.py', 'module', n == 1,
                        f'{n} times')
            self.report('X01', 'a failure is not ignored',
                        'pbtools/__main__.py', 'module',
                        (run.raised is not None) == (run.outcome == 'raise'),
                        'it is')

    def state(self, _):
        """Generating code leaves nothing behind for the next file."""
        sys.setrecursionlimit(20000)
        it = Interp(self.repo)
        for m in ('pbtools.parser', 'pbtools.c_source'):
            it.module(m)
        born = next(_counter)
        sc = schema.Schema(it)
        proto = sc.proto(True)
        mod = it.module('pbtools.c_source')
        options = it.call(mod.vars['Options'], [], {'enums_upper_case': True})

        def body():
            mark = len(it.journal)
            try:
                return it.call(mod.vars['generate'], [
                    atom('namespace'), proto, atom('header_name'), options])
            finally:
                self.left_behind(it, mark, born, 'pbtools/c_source/__init__.py',
                                 'generate')
        it.run_paths(body)
        self.analysed |= {f'{a}:{b}' for a, b in it.analysed}

    def left_behind(self, it, mark, born, file, where):
        locs = [loc for loc in it.touched(mark, born)
                if loc[1] is not it.events]
        what = sorted({f'{l[0]} {l[2]} of {short(l[1])}'[:100] for l in locs})
        self.report('X04', 'nothing is kept from one file to the next', file,
                    where, not locs, f'{what[:4]} is changed')

    def order(self, _):
        from . import unordered
        unordered.check(self.repo, self.report, self.analysed)


def reload(it):
    it.modules.pop('pbtools.__main__', None)
    it.module('pbtools.__main__')


def path_term(t):
    s = split_path(t)
    if s is not None and isinstance(t, Sym) and t.op == 'div':
        return Sym('call', Ext('os.path.join'), s[0], s[1], ty='str')
    return t


def harmless(kind, x, expect):
    if kind == 'ext':
        path, pos, kw, t = x
        if path == 'os.makedirs':
            return bool(pos) and pos[0] == expect['output']
        return path.startswith(('os.path.', 'sys.', 'logging.', 'time.',
                                'traceback.')) or path in ('os.getcwd',)
    name = x[0]
    return name not in ('unlink', 'rename', 'replace', 'rmdir', 'touch',
                        'write_bytes', 'mkdir') or \
        name == 'mkdir' and x[1] == expect['output']


def mentions(t, x):
    if t == x:
        return True
    if isinstance(t, Sym):
        return any(mentions(a, x) for a in t.args)
    if isinstance(t, Str):
        return any(mentions(a, x) for a in t.parts)
    if isinstance(t, tuple):
        return any(mentions(a, x) for a in t)
    return False


def run_work(run):
    return [e for e in run.events if e[0] in ('parse', 'generate', 'call')]


def describe(v):
    if isinstance(v, Obj):
        return f'{v.cls.name}{short(v.attrs.get("args", ""))}'
    return short(v)
