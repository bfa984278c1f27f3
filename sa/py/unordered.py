"""Sources of results that differ between runs, and where they end up.

A taint analysis over the syntax trees of the whole package: the order of the
elements of a set (and of a directory listing) is unknown, and so are times,
random numbers, addresses and hashes.  The order of what is made from them is
unknown too, through variables, attributes, parameters and results, until they
are sorted or used in a way that does not depend on the order.
"""

import ast
import os

SETS = {'set', 'frozenset'}
LISTINGS = {'os.listdir', 'os.scandir', 'os.walk', 'glob.glob', 'glob.iglob'}
LISTING_METHODS = {'iterdir', 'rglob'}
KEEP = {'list', 'tuple', 'iter', 'enumerate', 'reversed', 'map', 'filter',
        'zip', 'chain', 'from_iterable', 'deque', 'dict', 'fromkeys',
        'OrderedDict', 'copy', 'islice'}
SAFE = {'len', 'any', 'all', 'min', 'max', 'sum', 'set', 'frozenset', 'sorted',
        'bool', 'isinstance', 'issubset', 'issuperset', 'isdisjoint', 'Counter',
        'type'}
SET_METHODS = {'union', 'intersection', 'difference', 'symmetric_difference',
               'copy', 'keys', 'values', 'items'}
TEXT = {'str', 'repr', 'format', 'print', 'join', 'write', 'writelines'}
PICK = {'next', 'pop', 'popitem', 'index', 'popleft'}
FRESH = {'time', 'random', 'uuid', 'secrets', 'getpass', 'socket', 'platform',
         'tempfile'}
FRESH_CALLS = {'os.getenv', 'os.getpid', 'os.urandom', 'os.times', 'os.getlogin',
               'os.cpu_count', 'datetime.now', 'datetime.utcnow',
               'datetime.today', 'date.today', 'datetime.datetime.now',
               'datetime.datetime.utcnow', 'datetime.date.today', 'os.stat',
               'os.path.getmtime', 'locale.getlocale', 'os.environ.get'}
ADDRESS = {'id', 'hash'}


def dotted(n):
    if isinstance(n, ast.Name):
        return n.id
    if isinstance(n, ast.Attribute):
        b = dotted(n.value)
        return f'{b}.{n.attr}' if b else None
    return None


def name_of(f):
    return f.id if isinstance(f, ast.Name) else \
        f.attr if isinstance(f, ast.Attribute) else None


class Package:
    def __init__(self, repo):
        self.files = {}
        base = os.path.join(repo, 'pbtools')
        for d, dirs, files in sorted(os.walk(base)):
            for f in sorted(files):
                if f.endswith('.py'):
                    path = os.path.join(d, f)
                    with open(path, encoding='utf-8') as fin:
                        self.files[os.path.relpath(path, repo)] = \
                            ast.parse(fin.read())
        self.functions = []     # (file, qualified name, node)
        self.by_name = {}
        for file, tree in self.files.items():
            self.collect(file, tree, '')
        self.attrs = set()      # attributes whose order is unknown
        self.results = set()    # functions and properties
        self.params = set()     # (function, parameter)
        self.globals = set()    # (file, name)
        self.locals = {}

    def collect(self, file, node, prefix):
        for n in ast.iter_child_nodes(node):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                q = f'{prefix}{n.name}'
                self.functions.append((file, q, n))
                self.by_name.setdefault(n.name, []).append(n)
                self.collect(file, n, q + '.')
            elif isinstance(n, ast.ClassDef):
                self.collect(file, n, f'{prefix}{n.name}.')
            else:
                self.collect(file, n, prefix)


class Scope(ast.NodeVisitor):
    """One function, or the statements of a module."""

    def __init__(self, pkg, file, name, node):
        self.pkg, self.file, self.name, self.node = pkg, file, name, node
        self.vars = pkg.locals.setdefault((file, name), set())
        self.sorted = set()
        self.problems = []
        self.sites = 0
        self.changed = False
        for n in walk(node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) \
                    and n.func.attr == 'sort':
                self.sorted.add(dotted(n.func.value))
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for i, a in enumerate(node.args.args):
                if (node.name, a.arg) in pkg.params:
                    self.mark(self.vars, a.arg)

    def mark(self, s, x):
        if x not in s and x not in self.sorted:
            s.add(x)
            self.changed = True

    # -- is the order of the elements unknown? ----------------------------

    def unordered(self, n):
        u = self.unordered
        if isinstance(n, (ast.Set, ast.SetComp)):
            return True
        if isinstance(n, ast.Name):
            return n.id in self.vars or (self.file, n.id) in self.pkg.globals
        if isinstance(n, ast.Attribute):
            return dotted(n) not in self.sorted and (
                n.attr in self.pkg.attrs or
                n.attr in self.pkg.results and self.is_property(n.attr))
        if isinstance(n, ast.Call):
            name, path = name_of(n.func), dotted(n.func)
            if isinstance(n.func, ast.Name) and name in SETS:
                return True
            if path in LISTINGS or isinstance(n.func, ast.Attribute) and \
                    name in LISTING_METHODS:
                return True
            if name in KEEP and any(u(a) for a in n.args):
                return True
            if isinstance(n.func, ast.Attribute) and name in SET_METHODS and \
                    u(n.func.value):
                return True
            return name in self.pkg.results and name not in SAFE
        if isinstance(n, ast.BinOp):
            return u(n.left) or u(n.right)
        if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.DictComp)):
            return any(u(g.iter) for g in n.generators)
        if isinstance(n, (ast.List, ast.Tuple)):
            return any(isinstance(e, ast.Starred) and u(e.value)
                       for e in n.elts)
        if isinstance(n, ast.Subscript):
            return isinstance(n.slice, ast.Slice) and u(n.value)
        if isinstance(n, ast.IfExp):
            return u(n.body) or u(n.orelse)
        if isinstance(n, ast.BoolOp):
            return any(u(v) for v in n.values)
        if isinstance(n, ast.NamedExpr):
            return u(n.value)
        if isinstance(n, ast.Starred):
            return u(n.value)
        return False

    def is_property(self, name):
        return any(name_of(d) in ('property', 'cached_property')
                   for f in self.pkg.by_name.get(name, ())
                   for d in f.decorator_list)

    # -- one round --------------------------------------------------------

    def round(self):
        self.problems = []
        self.sites = 0
        self.changed = False
        body = self.node.body
        for n in body:
            self.visit(n)
        return self.changed

    def problem(self, node, text):
        self.problems.append((node.lineno, text))

    def visit_FunctionDef(self, n):
        pass                    # a scope of its own

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, n):
        for s in n.body:
            self.visit(s)

    def visit_Assign(self, n):
        self.generic_visit(n)
        if self.unordered(n.value):
            for t in n.targets:
                self.taint(t, n)

    def visit_AnnAssign(self, n):
        self.generic_visit(n)
        if n.value is not None and self.unordered(n.value):
            self.taint(n.target, n)

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if self.unordered(n.value):
            self.taint(n.target, n)

    def visit_NamedExpr(self, n):
        self.generic_visit(n)
        if self.unordered(n.value):
            self.taint(n.target, n)

    def taint(self, t, n):
        if isinstance(t, ast.Name):
            if self.name == '<module>':
                self.mark(self.pkg.globals, (self.file, t.id))
            else:
                self.mark(self.vars, t.id)
        elif isinstance(t, ast.Attribute):
            if dotted(t) not in self.sorted:
                self.mark(self.pkg.attrs, t.attr)
        elif isinstance(t, ast.Subscript):
            self.taint(t.value, n)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.problem(n, 'elements of a set are unpacked')

    def visit_Return(self, n):
        self.generic_visit(n)
        if n.value is not None and self.unordered(n.value):
            self.mark(self.pkg.results, self.node.name)

    def visit_Yield(self, n):
        self.generic_visit(n)

    def visit_YieldFrom(self, n):
        self.generic_visit(n)
        if self.unordered(n.value):
            self.mark(self.pkg.results, self.node.name)

    def visit_For(self, n):
        if self.unordered(n.iter):
            self.sites += 1
            for s in n.body + n.orelse:
                self.in_loop(s, n)
        self.generic_visit(n)

    def in_loop(self, s, loop):
        """Does the statement give the same result in any order?"""
        if isinstance(s, (ast.Pass, ast.Continue)):
            return
        if isinstance(s, ast.If):
            for x in s.body + s.orelse:
                self.in_loop(x, loop)
            return
        if isinstance(s, ast.For):
            for x in s.body + s.orelse:
                self.in_loop(x, loop)
            return
        if isinstance(s, ast.Return) and (
                s.value is None or isinstance(s.value, ast.Constant)):
            return
        if isinstance(s, ast.Raise):
            return
        if isinstance(s, ast.Break):
            return
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
            f = s.value.func
            name = name_of(f)
            if isinstance(f, ast.Attribute):
                if name in ('add', 'discard', 'update') or \
                        name == 'remove' and self.unordered(f.value):
                    return
                if name in ('append', 'extend', 'insert', 'appendleft',
                            'setdefault'):
                    self.taint(f.value, s)
                    return
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Yield):
            self.mark(self.pkg.results, self.node.name)
            return
        if isinstance(s, ast.Assign):
            if isinstance(s.value, ast.Constant):
                return
            if all(isinstance(t, ast.Subscript) for t in s.targets):
                for t in s.targets:
                    self.taint(t, s)
                return
            if all(isinstance(t, ast.Name) and
                   not self.used_outside(t.id, loop) for t in s.targets):
                return
        if isinstance(s, ast.AugAssign):
            if isinstance(s.op, (ast.BitOr, ast.BitAnd)) or \
                    isinstance(s.value, ast.Constant) and \
                    not isinstance(s.value.value, str):
                return
            if not self.is_text(s.value):
                self.taint(s.target, s)
                return
        self.problem(s, f'"{ast.unparse(s)[:60]}" is done for the elements of '
                     f'"{ast.unparse(loop.iter)[:40]}", whose order is not '
                     'known')

    def is_text(self, n):
        return isinstance(n, ast.JoinedStr) or \
            isinstance(n, ast.Constant) and isinstance(n.value, str) or \
            isinstance(n, ast.BinOp) and (self.is_text(n.left) or
                                          self.is_text(n.right)) or \
            isinstance(n, ast.Call) and name_of(n.func) in ('format', 'str',
                                                            'join')

    def used_outside(self, name, loop):
        inside = {id(x) for x in ast.walk(loop)}
        return any(isinstance(x, ast.Name) and x.id == name and
                   isinstance(x.ctx, ast.Load) and id(x) not in inside
                   for x in ast.walk(self.node))

    def visit_JoinedStr(self, n):
        self.generic_visit(n)
        for v in n.values:
            if isinstance(v, ast.FormattedValue) and self.unordered(v.value):
                self.problem(n, f'"{ast.unparse(v.value)[:40]}" is made text')

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if self.unordered(n.value) and isinstance(n.ctx, ast.Load) and \
                not isinstance(n.slice, ast.Slice) and \
                not isinstance(n.slice, ast.Constant) or \
                self.unordered(n.value) and isinstance(n.ctx, ast.Load) and \
                isinstance(n.slice, ast.Constant) and \
                isinstance(n.slice.value, int):
            if not self.may_be_dict(n.value):
                self.problem(n, f'an element of "{ast.unparse(n.value)[:40]}" '
                             'is chosen')

    def may_be_dict(self, n):
        return isinstance(n, ast.Name) and any(
            isinstance(x, ast.Assign) and isinstance(x.value, (
                ast.Dict, ast.DictComp)) and any(
                    isinstance(t, ast.Name) and t.id == n.id
                    for t in x.targets) for x in ast.walk(self.node))

    def visit_Call(self, n):
        self.generic_visit(n)
        name, path = name_of(n.func), dotted(n.func)
        self.fresh(n, name, path)
        args = list(n.args) + [k.value for k in n.keywords]
        if isinstance(n.func, ast.Attribute) and name in PICK and \
                self.unordered(n.func.value):
            self.problem(n, f'{name}() of something without order')
        if isinstance(n.func, ast.Attribute) and name in (
                'append', 'extend', 'insert', 'update', 'setdefault'):
            if any(self.unordered(a) for a in args):
                self.taint(n.func.value, n)
            return
        tainted = [a for a in args if self.unordered(a)]
        if not tainted:
            return
        self.sites += 1
        if name in SAFE or name in KEEP:
            return
        if name in PICK or name in TEXT:
            self.problem(n, f'{name}() of "{ast.unparse(tainted[0])[:40]}", '
                         'whose order is not known')
            return
        for f in self.pkg.by_name.get(name, ()):
            params = [a.arg for a in f.args.args]
            if params and params[0] in ('self', 'cls'):
                params = params[1:]
            for p, a in list(zip(params, n.args)) + \
                    [(k.arg, k.value) for k in n.keywords]:
                if self.unordered(a):
                    self.mark(self.pkg.params, (f.name, p))
        for cls in (name,):
            if cls and cls[:1].isupper() and name not in self.pkg.by_name:
                for f in self.pkg.by_name.get('__init__', ()):
                    params = [a.arg for a in f.args.args][1:]
                    for p, a in zip(params, n.args):
                        if self.unordered(a):
                            self.mark(self.pkg.params, ('__init__', p))

    def fresh(self, n, name, path):
        root = (path or '').split('.')[0]
        if root in FRESH and path != root or path in FRESH_CALLS:
            self.problem(n, f'{path}() differs between runs')
        elif isinstance(n.func, ast.Name) and name in ADDRESS:
            if not getattr(n, 'harmless', False):
                self.problem(n, f'{name}() differs between runs')

    def visit_Compare(self, n):
        for x in [n.left] + n.comparators:
            self.spare(x)
        if any(self.unordered(c) for c in n.comparators):
            self.sites += 1
        self.generic_visit(n)

    def spare(self, x):
        for y in ast.walk(x):
            if isinstance(y, ast.Call) and isinstance(y.func, ast.Name) and \
                    y.func.id in ADDRESS:
                y.harmless = True

    def visit_Attribute(self, n):
        if dotted(n) == 'os.environ':
            self.problem(n, 'os.environ differs between runs')
        self.generic_visit(n)


def walk(node):
    return ast.walk(node)


def spare_keys(tree):
    """Addresses used as keys only do not show."""
    for n in ast.walk(tree):
        targets = []
        if isinstance(n, ast.Subscript):
            targets.append(n.slice)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
                n.func.attr in ('add', 'get', 'discard', 'setdefault'):
            targets += n.args[:1]
        if isinstance(n, ast.FunctionDef) and n.name == '__hash__':
            targets.append(n)
        for t in targets:
            for y in ast.walk(t):
                if isinstance(y, ast.Call) and isinstance(y.func, ast.Name) \
                        and y.func.id in ADDRESS:
                    y.harmless = True


def check(repo, report, analysed):
    pkg = Package(repo)
    scopes = []
    for file, tree in pkg.files.items():
        spare_keys(tree)
        scopes.append(Scope(pkg, file, '<module>', tree))
    for file, name, node in pkg.functions:
        scopes.append(Scope(pkg, file, name, node))
    for _ in range(50):
        if not any([s.round() for s in scopes]):
            break
        for s in scopes:
            if isinstance(s.node, ast.FunctionDef):
                for a in s.node.args.args:
                    if (s.node.name, a.arg) in pkg.params:
                        s.mark(s.vars, a.arg)
    for s in scopes:
        analysed.add(f'{s.file}:{s.name}')
        report('X04', 'what is generated does not depend on the order of sets,'
               ' times, addresses or the environment', s.file, s.name,
               not s.problems, '; '.join(f'line {l}: {t}'
                                         for l, t in s.problems[:5]))
