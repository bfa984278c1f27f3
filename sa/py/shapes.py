"""Concrete elements the templates are instantiated with.

A template tells, for every kind of element (plain int32 field, oneof with a
string field, ...) and every decision the generator makes about an element,
which text is generated as a function of names and numbers.  The files here
contain every kind of element with several names and numbers, alone and in
the company of all others, so that every case of the template is
instantiated."""

from .render import Inst, Env
from .schema import NUMERIC, SCALARS, TYPES, MAP_KEYS, field_variants, \
    map_variants


class Field:
    def __init__(self, name, snake, number, type, mode, token=None,
                 ref=None, key=None, value=None, value_ref=None):
        self.name = name
        self.snake = snake
        self.number = number
        self.token = token or str(number)
        self.type = type            # scalar, 'enum', 'message' or 'map'
        self.mode = mode            # plain repeated optional oneof
        self.ref = ref              # (namespace, name, snake) of the type
        self.key = key
        self.value = value
        self.value_ref = value_ref


class Enum:
    def __init__(self, name, snake, values):
        self.name = name
        self.snake = snake
        self.values = values        # [(name, snake, number, token)]


class Oneof:
    def __init__(self, name, snake, fields):
        self.name = name
        self.snake = snake
        self.fields = fields


class Message:
    def __init__(self, name, snake):
        self.name = name
        self.snake = snake
        self.items = []

    def of(self, cls):
        return [i for i in self.items if isinstance(i, cls)]

    fields = property(lambda s: s.of(Field))
    enums = property(lambda s: s.of(Enum))
    oneofs = property(lambda s: s.of(Oneof))
    messages = property(lambda s: s.of(Message))


class File:
    def __init__(self, package, snake):
        self.package = package
        self.snake = snake          # of the package
        self.messages = []
        self.enums = []
        self.imports = []           # [(path, header)]
        self.imported = [], []      # C names of imported enums and messages
        self.header = 'file_name.h'


# -- building -----------------------------------------------------------------

NAMES = [
    ('foo', 'foo'), ('barFie', 'bar_fie'), ('v1', 'v1'), ('a', 'a'),
    ('some_field', 'some_field'), ('Cap', 'cap'), ('x2_y3', 'x2_y3'),
    ('isPresent', 'is_present'), ('length', 'length'), ('value', 'value'),
    ('baseNumber', 'base_number'), ('items', 'items'), ('encodedSize',
                                                        'encoded_size'),
    ('Size', 'size'), ('long_name_with_many_parts',
                       'long_name_with_many_parts'), ('key', 'key'),
    ('fooBar12', 'foo_bar12'), ('b64', 'b64'), ('textValue', 'text_value'),
    ('member_p', 'member_p'), ('tag', 'tag'), ('wire', 'wire'),
]
NUMBERS = [1, 2, 15, 16, 17, 100, 127, 128, 255, 256, 2047, 2048, 3, 4, 5, 6,
           7, 8, 9, 10, 11, 12, 13, 14, 262143, 262144, 33554431, 33554432,
           65535, 65536, 536870911, 18999, 20000, 1000, 31, 32, 63, 64, 1023,
           1024]


class Builder:

    def __init__(self, package, numbers=(), names=()):
        self.names = list(names) + NAMES
        self.numbers = list(numbers) + NUMBERS
        self.package = package

    def namer(self, offset=0):
        """Unique names and numbers within a message."""
        n = [offset]
        used = set()

        def next_name():
            i = n[0]
            n[0] += 1
            name, snake = self.names[i % len(self.names)]
            k = i // len(self.names)
            if k:
                name, snake = f'{name}_{k}', f'{snake}_{k}'
            if snake in used:
                return next_name()
            used.add(snake)
            return name, snake
        return next_name

    def numberer(self, offset=0):
        n = [offset]
        used = set()

        def next_number():
            while True:
                i = n[0]
                n[0] += 1
                v = self.numbers[i % len(self.numbers)] + \
                    i // len(self.numbers) * 1000003 % 500000000
                if v not in used:
                    used.add(v)
                    token = str(v)
                    if i % 11 == 7:
                        token = hex(v)
                    elif i % 11 == 9:
                        token = '0' + oct(v)[2:]
                    return v, token
        return next_number


def variants(maps=True):
    out = [('field', t, m) for t, m in field_variants()]
    if maps:
        out += [('map', k, v) for k, v in map_variants()]
    return out


class FileBuilder:

    def __init__(self, package, rotate=0, **kw):
        pkg, snake = package if package else (None, '')
        self.b = Builder(package, **kw)
        self.file = File(pkg, snake)
        self.ns = [pkg] if pkg else []
        self.rotate = rotate
        self.count = 0
        self.enum_ref = None
        self.message_ref = None

    def ref(self, kind, ns, name, snake):
        return (list(ns), name, snake)

    def enum(self, name, snake, prefix=''):
        values = [(f'{prefix}{n}', f'{prefix.lower()}{s}', v, t)
                  for n, s, v, t in (
                      ('Zero', 'zero', 0, '0'), ('one', 'one', 1, '1'),
                      ('TWO_X', 'two_x', 255, '0xff'),
                      ('minus', 'minus', -1, '-1'),
                      ('big', 'big', 2147483647, '0x7FFFFFFF'),
                      ('oct', 'oct', 8, '010'),
                      ('alsoOne', 'also_one', 1, '0x1'),
                      ('nought', 'nought', 0, '0'),
                      ('low', 'low', -2147483648, '-2147483648'))]
        return Enum(name, snake, values)

    def refs(self):
        """A user defined enum and message to refer to, in turn."""
        self.count += 1
        e = self.enum_refs[self.count % len(self.enum_refs)]
        m = self.message_refs[self.count % len(self.message_refs)]
        return e, m

    def make_field(self, what, name, number):
        (name, snake), (number, token) = name, number
        e, m = self.refs()
        ref = {'enum': e, 'message': m}
        if what[0] == 'map':
            return Field(name, snake, number, 'map', 'repeated', token,
                         key=what[1], value=what[2],
                         value_ref=ref.get(what[2]))
        return Field(name, snake, number, what[1], what[2], token,
                     ref=ref.get(what[1]))

    def message(self, name, snake, what, offset=0, oneofs=(), depth=0,
                nested=(), enums=0, number_offset=None):
        m = Message(name, snake)
        nn = self.b.namer(offset)
        nb = self.b.numberer(offset if number_offset is None
                             else number_offset)
        for i in range(enums):
            m.items.append(self.enum(f'Kind{i}', f'kind{i}', f'E{i}_'))
        m.items += nested
        for w in what:
            m.items.append(self.make_field(w, nn(), nb()))
            if self.count % 7 == 3:
                m.items.append(';')
        for i, types in enumerate(oneofs):
            fields = [self.make_field(('field', t, 'oneof'), nn(), nb())
                      for t in types]
            m.items.append(Oneof(('choice', 'fooOne', 'other_one')[i % 3] +
                                 (str(i) if i > 2 else ''),
                                 ('choice', 'foo_one', 'other_one')[i % 3] +
                                 (str(i) if i > 2 else ''), fields))
        return m


def full_snake(ns_snake, snake):
    return f'{ns_snake}_{snake}' if ns_snake else snake


def big_file(package, rotate=0, numbers=(), names=()):
    fb = FileBuilder(package, rotate, numbers=numbers, names=names)
    f = fb.file
    ns = fb.ns
    p = f.snake
    f.enums.append(fb.enum('TopEnum', 'top_enum', 'T_'))
    f.enums.append(fb.enum('other', 'other', 'OTHER_'))
    f.imports = [('imported.proto', 'imported.h'),
                 ('dir/otherFile.proto', 'other_file.h'),
                 ('sub.dir/v1.types.proto', 'v1_types.h'),
                 ('with-dash.proto', 'with_dash.h'),
                 ('a/b/aVeryLongNameOfAnImportedFileIndeed.proto',
                  'a_very_long_name_of_an_imported_file_indeed.h')]
    # Leaf messages that are referred to.
    nested_leaf = Message('Inner', 'inner')
    nested_leaf.items.append(fb.enum('Deep', 'deep', 'D_'))
    leaf = Message('LeafMsg', 'leaf_msg')
    leaf.items.append(nested_leaf)
    leaf.items.append(fb.enum('LeafKind', 'leaf_kind', 'L_'))
    empty = Message('empty', 'empty')
    f.messages += [leaf, empty]
    fb.enum_refs = [
        (ns, 'TopEnum', full_snake(p, 'top_enum')),
        (ns + ['LeafMsg'], 'LeafKind', full_snake(p, 'leaf_msg_leaf_kind')),
        (ns, 'other', full_snake(p, 'other')),
        (ns + ['LeafMsg', 'Inner'], 'Deep',
         full_snake(p, 'leaf_msg_inner_deep'))]
    fb.message_refs = [
        (ns, 'empty', full_snake(p, 'empty')),
        (ns + ['LeafMsg'], 'Inner', full_snake(p, 'leaf_msg_inner')),
        (ns, 'LeafMsg', full_snake(p, 'leaf_msg'))]
    fb.enum_refs.append((['other', 'pkg'], 'Color', 'other_pkg_color'))
    fb.message_refs.append((['other', 'pkg'], 'Thing', 'other_pkg_thing'))
    f.imported = ['other_pkg_color'], ['other_pkg_thing']
    if package is None:
        # Types whose C names are names of scalar value types.
        for name in ('Int32', 'Bool', 'Sint64', 'Bytes'):
            f.enums.append(fb.enum(name, name.lower(), f'{name}_'))
            fb.enum_refs.append((ns, name, name.lower()))
        for name in ('String', 'Double', 'Fixed64'):
            m = Message(name, name.lower())
            f.messages.append(m)
            fb.message_refs.append((ns, name, name.lower()))
    leaves = len(f.messages)
    all_v = variants()
    r = rotate * 7 % len(all_v)
    all_v = all_v[r:] + all_v[:r]
    # One message per kind of field, with two of them in half of them.
    for i, w in enumerate(all_v):
        name, snake = f'Only{i}', f'only{i}'
        f.messages.append(fb.message(name, snake, [w] * (1 + (i + rotate) % 2),
                                     offset=i + rotate * 5))
    # Every type in a oneof alone, and together with every other type.
    for i, t in enumerate(TYPES):
        f.messages.append(fb.message(f'One{i}', f'one{i}', [],
                                     offset=i * 3 + rotate,
                                     oneofs=[[t]]))
    f.messages.append(fb.message('AllOne', 'all_one', [], oneofs=[
        TYPES, TYPES[::-1], TYPES[3:8]], offset=rotate))
    f.messages.append(fb.message('ManyOnes', 'many_ones', [], oneofs=[
        [TYPES[i % 17]] for i in range(7)], offset=rotate))
    # Pairs and groups, with few optional fields and oneofs per message.
    opts = [w for w in all_v if w[0] == 'field' and w[2] == 'optional']
    rest = [w for w in all_v if w not in opts]
    groups = [opts[i:i + 4] for i in range(0, len(opts), 4)]
    n = 0
    for g in groups:
        part = rest[n * 11 % len(rest):][:11] + rest[:max(
            0, n * 11 % len(rest) + 11 - len(rest))]
        what = [x for pair in zip(part, g + part) for x in pair]
        seen = []
        for w in what:
            if w in opts and w in seen:
                continue
            seen.append(w)
        enum = n % 3
        f.messages.append(fb.message(
            f'Group{n}', f'group{n}', seen, offset=n * 4 + rotate,
            oneofs=[TYPES[(n * 5) % 17:][:3]] if n % 2 else [],
            enums=enum,
            nested=[fb.message('Sub', 'sub', [all_v[(n * 9) % len(all_v)]],
                               offset=n, oneofs=[TYPES[n:n + 2]],
                               enums=1 - (n % 2))] if n % 2 == 0 else []))
        n += 1
    # Every kind of field in a nested message.
    subs = []
    for i in range(0, len(all_v), 5):
        subs.append(fb.message(f'Sub{i}', f'sub{i}', all_v[i:i + 5],
                               offset=i, oneofs=[TYPES[i % 17:][:2]]
                               if i % 2 else []))
    subs.append(fb.message('OneSub', 'one_sub', [], oneofs=[TYPES], offset=2))
    subs.append(Message('EmptySub', 'empty_sub'))
    f.messages.append(fb.message('Nest', 'nest', [
        ('field', 'int32', 'plain')], nested=subs, enums=1))
    f.messages.append(fb.message('Everything', 'everything',
                                 rest + rest[::-1], offset=rotate * 3))
    if rotate % 2:
        f.messages[leaves:] = f.messages[leaves:][::-1]
    return f


def small_files(package):
    pkg = package
    out = []
    for kind in ('nothing', 'enum', 'message', 'import'):
        fb = FileBuilder(pkg)
        f = fb.file
        if kind == 'enum':
            f.enums.append(fb.enum('Only', 'only'))
        elif kind == 'message':
            f.messages.append(Message('Only', 'only'))
        elif kind == 'import':
            f.imports = [('a.proto', 'a.h')]
            fb.enum_refs = fb.message_refs = [None]
            f.messages.append(fb.message('Foo', 'foo', [
                ('field', 'int32', 'plain')]))
        out.append(f)
    return out


def imported_file(package):
    f = FileBuilder(package).file
    f.header = 'imported.h'
    f.messages.append(Message('Only', 'only'))
    return f


# -- instances ----------------------------------------------------------------

def enum_inst(e, where):
    w = f'{where}.field'
    return {f'{where}.name': e.name}, {f'{where}.fields': [
        Inst('field', {f'{w}.name': n, f'{w}.number': t})
        for n, s, v, t in e.values] + [Inst(';')]}


def ref_inst(ref, where):
    ns, name, snake = ref
    w = f'{where}.type'
    return ({w: name, f'{w}.package': '.'.join(ns)},
            {f'{w}.namespace': [Inst('part', {f'{w}.namespace.part': p})
                                for p in ns]})


def field_inst(f, variant, w):
    atoms = {f'{w}.name': f.name, f'{w}.number': f.token}
    sources = {}
    ref = f.value_ref if f.type == 'map' else f.ref
    if ref is not None:
        a, s = ref_inst(ref, w)
        atoms.update(a)
        sources.update(s)
    return Inst(variant, atoms, sources)


def message_inst(m, where, variant):
    items = []
    for i in m.items:
        if i == ';':
            items.append(Inst(';'))
        elif isinstance(i, Field):
            v = f'map/{i.key}/{i.value}' if i.type == 'map' else \
                f'{i.mode}/{i.type}'
            items.append(field_inst(i, v, f'{where}.field[{v}]'))
        elif isinstance(i, Enum):
            a, s = enum_inst(i, f'{where}.enum')
            items.append(Inst('enum', a, s))
        elif isinstance(i, Oneof):
            o = f'{where}.oneof'
            items.append(Inst('oneof', {f'{o}.name': i.name}, {
                f'{o}.fields': [field_inst(x, x.type, f'{o}.field[{x.type}]')
                                for x in i.fields] + [Inst(';')]}))
        else:
            items.append(message_inst(i, f'{where}.message', 'message'))
    return Inst(variant, {f'{where}.name': m.name}, {f'{where}.items': items})


def file_env(f, namespace='file_name'):
    enums = []
    for e in f.enums:
        a, s = enum_inst(e, 'enum')
        enums.append(Inst('enum', a, s))
    root = Inst(None, {'package': f.package, 'namespace': namespace,
                       'header_name': f.header, 'abspath': '/x/f.proto'}, {
        'messages': [message_inst(m, 'msg', 'message') for m in f.messages],
        'enums': enums,
        'imports': [Inst('import', {'import.path': p}) for p, _ in f.imports],
    })
    return Env(None, root)
