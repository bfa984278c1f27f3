"""Behaviour preserving edits of the parser: every check stays quiet.
And mutants (with -m): at least the named property reports."""
import os,shutil,sys
sys.path.insert(0,'/verif'); sys.setrecursionlimit(20000)
PA='pbtools/parser.py'
SRC=open('/repo/'+PA).read()
R={}; M={}
def ref(name,*edits): R[name]=edits
def mut(name,prop,*edits): M[name]=(prop,edits)

ref('ident_helper',('''        full_ident = DelimitedList(ident, '.')
''','''        full_ident = self.dotted(ident)
'''),('''    def grammar(self):
''','''    @staticmethod
    def dotted(item):
        return DelimitedList(item, delim='.')

    def grammar(self):
'''))
ref('order_rules',('''        top_level_def = choice(message, enum, service)
''',''),('''                                               top_level_def,
''','''                                               service,
                                               enum,
                                               message,
'''))
ref('item_helper',('''        for item in tokens[3]:
            if item != ';':
                self.fields.append(EnumField(item))

    @property
    def namespace_snake_case''','''        self.fields = [
            EnumField(item) for item in tokens[3] if item != ';'
        ]

    @property
    def namespace_snake_case'''))
ref('msg_dispatch',('''        for item in tokens[3]:
            kind = item[0]
            sub_namespace = namespace + [self.name]

            if kind == 'field':''','''        sub_namespace = namespace + [self.name]

        for item in tokens[3]:
            self._load_item(item, sub_namespace)

    def _load_item(self, item, sub_namespace):
        kind = item[0]

        if True:
            if kind == 'field':'''))
ref('labels',('''        if tokens[0]:
            repeated = 'repeated' in tokens[0]
            optional = 'optional' in tokens[0]
        else:
            repeated = False
            optional = False

        return cls(load_message_type(tokens[1]),
                   tokens[2],
                   load_integer(tokens[4]),
                   repeated,
                   optional)''','''        label, type, name, _, number, *_ = tokens

        return cls(load_message_type(type),
                   name,
                   load_integer(number),
                   label == ['repeated'],
                   label == ['optional'])'''))
ref('int0',('''    digits = token.lstrip('-')

    if digits[:2] in ['0x', '0X']:
        return int(token, 16)
    elif digits.startswith('0'):
        return int(token, 8)
    else:
        return int(token)''','''    negative = token.startswith('-')
    digits = token[1:] if negative else token

    if digits.startswith('0x') or digits.startswith('0X'):
        value = int(digits, base=16)
    elif len(digits) > 1 and digits[0] == '0':
        value = int(digits, 8)
    else:
        value = int(digits, 10)

    return -value if negative else value'''))
ref('lookup_next',('''            for enum in enums:
                if enum.name == name:
                    return enum

            for message in messages:
                if message.name == name:
                    return message''','''            return next((item for item in enums + messages
                         if item.name == name), None)'''))
ref('resolve_split',('''        for message in reversed(self.messages_stack):
            if field.type in message.type_names:
                namespace = message.namespace + [message.name]
                package = self._package
                break
        else:
            if field.type in self.type_names:
                namespace = self.namespace_base()
                package = self._package
            else:
                for imported in self._imports:
                    if imported.package == self._package:
                        if field.type in imported.type_names:
                            namespace = self.namespace_base()
                            package = self._package
                            break
                else:
                    namespace = []
                    package = None

        field.namespace = namespace
        field.package = package''','''        namespace = self.find_scope(field.type)

        if namespace is not None:
            field.namespace = namespace
            field.package = self._package
        else:
            field.namespace = []
            field.package = None

    def find_scope(self, name):
        for message in self.messages_stack[::-1]:
            if name in message.type_names:
                return message.namespace + [message.name]

        if name in self.type_names or self.is_in_imports(name):
            return self.namespace_base()

        return None

    def is_in_imports(self, name):
        return any(name in imported.type_names
                   for imported in self._imports
                   if imported.package == self._package)'''))
ref('find_list',('''    for import_path in import_paths:
        filepath = os.path.join(import_path, filename)

        if os.path.exists(filepath):
            break
    else:
        filepath = filename

    filepath = os.path.abspath(filepath)

    if not os.path.exists(filepath):
        raise Error(f"'{filename}' not found in import path.")

    return filepath''','''    candidates = [
        os.path.join(import_path, filename) for import_path in import_paths
    ]

    for candidate in candidates + [filename]:
        if os.path.exists(candidate):
            return os.path.abspath(candidate)

    raise Error(f"'{filename}' not found in import path.")'''))
ref('parse_text',('''def load_message_type(tokens):''','''def parse_text(text):
    return Parser().parse(ignore_comments(text))


def load_message_type(tokens):'''),('''            tree = Parser().parse(ignore_comments(fin.read()))''','''            tree = parse_text(fin.read())'''),('''        return Proto(Parser().parse(ignore_comments(fin.read())),
                     find_file(filename, import_paths),
                     import_paths)''','''        tree = parse_text(fin.read())

    return Proto(tree, find_file(filename, import_paths), import_paths)'''))
ref('comment_states',('''    in_single_line_comment = False
    in_multi_line_comment = False
    in_string = False
''','''    state = 'code'
'''),('''        if in_single_line_comment:
            if kind == '\\n':
                in_single_line_comment = False
''','''        if state == 'line':
            if kind == '\\n':
                state = 'code'
'''),('''        elif in_multi_line_comment:
            if kind''','''        elif state == 'block':
            if kind'''),('''                in_multi_line_comment = False
                offset += 2''','''                state = 'code'
                offset += len(kind)'''),('''        elif in_string:
            if kind == '"':
                in_string = False
        elif kind == '"':
            in_string = True
        elif kind == '//':
            in_single_line_comment = True
            start_offset = offset
            chunks.append(string[non_comment_offset:start_offset])
        elif kind == '/*':
            in_multi_line_comment = True
            start_offset = offset
            chunks.append(string[non_comment_offset:start_offset])
''','''        elif state == 'string':
            if kind == '"':
                state = 'code'
        elif kind == '"':
            state = 'string'
        elif kind in ('//', '/*'):
            state = 'line' if kind == '//' else 'block'
            start_offset = offset
            chunks.append(string[non_comment_offset:start_offset])
'''),('''    if in_single_line_comment:''','''    if state == 'line':'''),('''    if in_multi_line_comment:''','''    if state == 'block':'''))
ref('comment_sub',('''    comments = [
        (mo.start(), mo.group(0))
        for mo in re.finditer(r'(/\\*|\\*/|//|\\n|\\\\\\\\|\\\\"|")', string)
    ]

    comments.sort()
''','''    regex = re.compile(r'/\\*|\\*/|//|\\n|\\\\\\\\|\\\\"|"')
    comments = []

    for mo in regex.finditer(string):
        comments.append((mo.start(), mo.group()))
'''))
ref('imported_names',('''        self.enums = [
            tokens[1]
            for tokens in tree[1].get('enum', [])
        ]
        self.messages = [
            tokens[1]
            for tokens in tree[1].get('message', [])
        ]
''','''        self.enums = load_names(tree, 'enum')
        self.messages = load_names(tree, 'message')
'''),('''def load_message_type(tokens):''','''def load_names(tree, kind):
    return [tokens[1] for tokens in tree[1].get(kind, [])]


def load_message_type(tokens):'''))
ref('package_in',('''    try:
        return '.'.join(tokens[1]['package'][0][1])
    except KeyError:
        return None''','''    packages = tokens[1].get('package')

    if packages is None:
        return None

    return '.'.join(packages[0][1])'''))
ref('sort_append',('''            insert_index = 0

            for i, sorted_message in enumerate(reversed_sorted_messages, 1):
                if message.full_name in sorted_message.used_types():
                    if i > insert_index:
                        insert_index = i

            reversed_sorted_messages.insert(insert_index, message)''','''            positions = [
                i
                for i, sorted_message in enumerate(reversed_sorted_messages, 1)
                if message.full_name in sorted_message.used_types()
            ]
            reversed_sorted_messages.insert(max(positions, default=0), message)'''))
ref('sort_simple',('''        reversed_sorted_messages = []

        for message in messages:
            message.messages = self.sort_messages_by_usage(message.messages)

            # Insert first in the reversed list if there are no types
            # using this type.
            insert_index = 0

            for i, sorted_message in enumerate(reversed_sorted_messages, 1):
                if message.full_name in sorted_message.used_types():
                    if i > insert_index:
                        insert_index = i

            reversed_sorted_messages.insert(insert_index, message)

        sorted_messages = []

        for message in reversed(reversed_sorted_messages):''','''        for message in messages:
            message.messages = self.sort_messages_by_usage(message.messages)

        sorted_messages = []

        for message in messages:'''))
ref('used_set',('''        used_types = []

        for field in self.fields:
            if field.full_type in SCALAR_VALUE_TYPES:
                continue

            used_types.append(field.full_type)

        for oneof in self.oneofs:
            for field in oneof.fields:
                if field.full_type in SCALAR_VALUE_TYPES:
                    continue

                used_types.append(field.full_type)

        for message in self.messages:
            used_types += message.used_types()

        return list(set(used_types))''','''        fields = list(self.fields)

        for oneof in self.oneofs:
            fields.extend(oneof.fields)

        used_types = {
            field.full_type
            for field in fields
            if field.full_type not in SCALAR_VALUE_TYPES
        }

        for message in self.messages:
            used_types |= set(message.used_types())

        return sorted(used_types)'''))
ref('option_name',('''        self.name += ''.join([f'.{ident}' for _, ident in tokens[1][1]])
''','''        for _, ident in tokens[1][1]:
            self.name += '.' + ident
'''))
ref('walk_once',('''        for sub_message in message.messages:
            self.resolve_message_fields_types(sub_message)

        for oneof in message.oneofs:
            for field in oneof.fields:
                if field.type in SCALAR_VALUE_TYPES:
                    continue

                self.resolve_field_type(field)

        self.messages_stack.pop()''','''        for oneof in message.oneofs:
            for field in oneof.fields:
                if field.type not in SCALAR_VALUE_TYPES:
                    self.resolve_field_type(field)

        for sub_message in message.messages:
            self.resolve_message_fields_types(sub_message)

        self.messages_stack.pop()'''))
ref('keywords_const',('''        return set(self.KEYWORDS)''','''        return {keyword for keyword in self.KEYWORDS}'''))
ref('token_names',(''''INT',           r\'''',''''INTEGER',       r\''''),("""Tag('integer', 'INT'))""","""Tag('integer', 'INTEGER'))"""),("""Sequence(ident, '=', 'INT', options, ';')
        enum""","""Sequence(ident, '=', 'INTEGER', options, ';')
        enum"""),("""message_type, ident, '=', 'INT', ';')""","""message_type, ident, '=', 'INTEGER', ';')"""),("""                             ident, '=', 'INT', options, ';')""","""                             ident, '=', 'INTEGER', options, ';')"""),("""Sequence('INT',""","""Sequence('INTEGER',"""),("""choice('INT', 'max')""","""choice('INTEGER', 'max')"""),("""message_type, ident, '=', 'INT', options, ';')""","""message_type, ident, '=', 'INTEGER', options, ';')"""))
ref('map_direct',('''        self.messages.append(Message(map_message_tokens, sub_namespace))
        self.fields.append(MessageField([map_type], name, field_number, True, False))''','''        entry = Message(map_message_tokens, sub_namespace)
        self.fields.append(MessageField(type=[entry.name],
                                        name=name,
                                        field_number=field_number,
                                        repeated=True,
                                        optional=False))
        self.messages.append(entry)'''))

mut('scope_outer','P04',('in reversed(self.messages_stack)','in self.messages_stack'))
mut('oneof_noresolve','P04',('''        for oneof in message.oneofs:
            for field in oneof.fields:
                if field.type in SCALAR_VALUE_TYPES:
                    continue

                self.resolve_field_type(field)

        self.messages_stack.pop()''','''        self.messages_stack.pop()

        for oneof in message.oneofs:
            for field in oneof.fields:
                if field.type in SCALAR_VALUE_TYPES:
                    continue

                self.resolve_field_type(field)'''))
mut('imp_anypkg','P04',('''                    if imported.package == self._package:
                        if field''','''                    if imported.package is not None:
                        if field'''))
mut('enum_first','P04',('''        for imported in self._imports:
            if field.package == imported.package:
                if field.type in imported.enums''','''        for imported in self._imports[:1]:
            if field.package == imported.package:
                if field.type in imported.enums'''))
mut('qual_base','P04',('''            if field.package == self._package:
                field.namespace = self.namespace_base()
''','''            if field.package.startswith(self._package or ''):
                field.namespace = self.namespace_base()
'''))
mut('lookup_rest','P04',('''                    return self.lookup_type(rest,
                                            message.enums,
                                            message.messages)''','''                    return self.lookup_type(rest,
                                            message.enums or enums,
                                            message.messages)'''))
mut('last_path','P05',('''        if os.path.exists(filepath):
            break
    else:''','''        if os.path.exists(filepath):
            pass
    else:'''))
mut('path_rev','P05',('for import_path in import_paths:','for import_path in reversed(import_paths):'))
mut('cwd_first','P05',('''    for import_path in import_paths:
        filepath''','''    for import_path in [''] + import_paths:
        filepath'''))
mut('enc','P05',("open(self.abspath, encoding='utf-8')","open(self.abspath)"))
mut('weak_skip','P05',('''        for imported in tokens[1].get('import', [])
''','''        for imported in tokens[1].get('import', [])
        if imported[1] != ['weak']
'''))
mut('pop_user','P06',('if message in sorted_messages or message in users:','if message in sorted_messages or users:'))
mut('users_shared','P06',('users + [message])','users[:1] + [message])'))
mut('used_oneof','P06',('''        for oneof in self.oneofs:
            for field in oneof.fields:
                if field.full_type in SCALAR_VALUE_TYPES:
                    continue

                used_types.append(field.full_type)

        for message in self.messages:''','''        for message in self.messages:'''))
mut('used_nested','P06',('            used_types += message.used_types()\n','            used_types += message.used_types()[:1]\n'))
mut('hex_neg','P07',("digits = token.lstrip('-')","digits = token"))
mut('hexX','P07',("in ['0x', '0X']","in ['0x']"))
mut('opt_int','P07',('''            value = load_integer(value)
''','''            value = int(value)
'''))
mut('map_num','P07',('field_number = load_integer(tokens[8])','field_number = int(tokens[8])'))
mut('opt_dup','P03',("optional = 'optional' in tokens[0]","optional = 'optional' in tokens[0] and len(self.fields) < 9".replace('len(self.fields) < 9','not tokens[5]')))
mut('stream','P03',("self.response_stream = bool(tokens[8])","self.response_stream = bool(tokens[8] or tokens[3])"))
mut('rep_opts','P03',("repeated = 'repeated' in tokens[0]","repeated = 'repeated' in tokens[0] and not tokens[5]"))
mut('map_title','P03',("f'PbtoolsMap{name.title()}'","'PbtoolsMapEntry'"))
mut('opt_name','P03',("full_ident = '.'.join(tokens[1][0][1])","full_ident = tokens[1][0][1][-1]"))
mut('enum_ns','P03',("self.enums.append(Enum(item, sub_namespace))","self.enums.append(Enum(item, namespace))"))
mut('reserved_break','P03',('''            elif kind in ['reserved', ';']:
                pass''','''            elif kind in ['reserved', ';']:
                if kind == 'reserved': break'''))
mut('pkg_last','P03',("'.'.join(tokens[1]['package'][0][1])","tokens[1]['package'][0][1][-1]"))
mut('kw_missing','P02',("        'weak',\n        'public',\n        'optional'","        'weak',\n        'public',\n        'optional',\n        'bytes'"))
mut('ident_kw','P02',("ident = choice('IDENT', *self.KEYWORDS)","ident = choice('IDENT', *self.KEYWORDS[:-1])"))
mut('map_msg_first','P02',('''                             ZeroOrMore(choice(Tag('field', field),
                                               enum,
                                               message,
                                               oneof,
                                               map_field,
                                               reserved,
                                               empty_statement)),''','''                             ZeroOrMore(choice(enum,
                                               message,
                                               oneof,
                                               map_field,
                                               reserved,
                                               Tag('field', field),
                                               empty_statement)),'''))
mut('opt_many','P02',('''                                    DelimitedList(
                                        Sequence(option_name, '=', constant)),''','''                                    ZeroOrMore(
                                        Sequence(option_name, '=', constant)),'''))
mut('const_order','P02',('''        constant = choice(Tag('bool', choice('true', 'false')),
                          Tag('ident', full_ident),
                          Tag('string', 'STRING'),''','''        constant = choice(Tag('ident', full_ident),
                          Tag('bool', choice('true', 'false')),
                          Tag('string', 'STRING'),'''))
mut('res_mix','P02',('''choice(DelimitedList(field_number_range),
                                               DelimitedList('STRING')))''','''DelimitedList(choice(field_number_range,
                                                      'STRING')))'''))
mut('enum_one','P02',('''                        ZeroOrMore(choice(enum_field, empty_statement)),''','''                        enum_field,
                        ZeroOrMore(choice(enum_field, empty_statement)),'''))
mut('rpc_opt','P02',('''                                       ZeroOrMore(option),
''','''                                       Optional(option),
'''))
mut('str_lazy','P01',(r"""r'"(\\.|[^"\\])*"'""",r"""r'"(\"|[^"])*?"'"""))
mut('str_greedy','P01',(r"""r'"(\\.|[^"\\])*"'""",r"""r'".*"'"""))
mut('skip_tab','P01',(r"r'[ \r\n\t]+|",r"r'[ \n\t]+|"))
mut('int_hex','P01',('0[xX][a-fA-F0-9]+|[0-9]+','[0-9]+|0[xX][a-fA-F0-9]+'))
mut('ident_w','P01',(r"r'[a-zA-Z]\w*'",r"r'[a-zA-Z][a-zA-Z0-9]*'"))
mut('com_str','P01',(r'|\\\\|\\"|")',r'|\\"|")'))
mut('com_end','P01',('''    if in_single_line_comment:
        offset = len(string)''','''    if in_single_line_comment and False:
        offset = len(string)'''))
mut('com_nl','P01',("re.sub(r'[^\\n]', ' ', string[start_offset:offset])","' ' * (offset - start_offset)"))
mut('com_unterm','P01',('''    if in_multi_line_comment:
        raise Error(format_parse_error(string, start_offset))

    chunks''','''    chunks'''))
mut('com_strline','P01',('''        elif in_string:
            if kind == '"':
                in_string = False''','''        elif in_string:
            if kind in ['"', '*/']:
                in_string = False'''))

def build(edits,d):
    shutil.rmtree(d,ignore_errors=True)
    os.makedirs(d+'/pbtools')
    shutil.copytree('/repo/pbtools',d+'/pbtools',dirs_exist_ok=True)
    s=SRC
    for a,b in edits:
        assert a in s,a
        s=s.replace(a,b,1)
    compile(s,'x','exec')
    open(f'{d}/{PA}','w').write(s)
def run(name,d,props=('P01','P02','P03','P04','P05','P06','P07')):
    from sa.py.proto import Proto
    from sa import runner
    runner.JOB_SECONDS=300
    P=Proto(d)
    res=runner.run_jobs([j for p in props for j in P.jobs(p,'quick')])
    bad={}; err={}
    for r in res:
        if r['error']: err.setdefault(r['name'].split('/')[1],r['error'])
        for f in r['findings']:
            if not f[5]: bad.setdefault(f[0],[]).append(f)
    return bad,err
if __name__=='__main__':
    args=sys.argv[1:]
    mode='-m' in args
    args=[a for a in args if a!='-m']
    for name in (M if mode else R):
        if args and not any(a in name for a in args): continue
        d='/tmp/parrf/'+name
        build(M[name][1] if mode else R[name],d)
        bad,err=run(name,d,M[name][0].split()) if mode else run(name,d)
        flag=('ok' if M[name][0] in bad else 'MISSED '+M[name][0]) if mode else ('ok' if not bad and not err else 'ALARM')
        print('==',name,flag,{k:len(v) for k,v in bad.items()},{k:v[:150] for k,v in err.items()},flush=True)
        for k,v in list(bad.items())[:3]:
            if not mode or flag!='ok': print('    ',k,v[0][1],v[0][3],v[0][6][:200])
        shutil.rmtree(d)
