import os,shutil,subprocess,sys,re
sys.path.insert(0,'/verif'); sys.setrecursionlimit(20000)
G='pbtools/c_source/__init__.py'; PA='pbtools/parser.py'
SRC={f:open('/repo/'+f).read() for f in (G,PA)}
R={}
def ref(name,*edits,f=G):
    R[name]=[(f,a,b) for a,b in edits]
def multi(name,*edits):
    R[name]=list(edits)

ref('enc_helper',('''            member = fmt.format(field=field,
                                ref='&' if field.type == 'bytes' else '')

            members.append(member)
''','''            members.append(self.format_encode_member(fmt, field))
'''),('''    def generate_message_decode_body(self, message):''','''    @staticmethod
    def format_encode_member(fmt, field):
        ref = ''

        if field.type == 'bytes':
            ref = '&'

        return fmt.format(field=field, ref=ref)

    def generate_message_decode_body(self, message):'''))
ref('includes_comp',('''        includes = []

        for imported in self.parsed.imports:
            basename = os.path.basename(imported.path)
            name = camel_to_snake_case(os.path.splitext(basename)[0])
            includes.append(f'#include "{name}.h"')

        includes = '\\n'.join(includes)

        if includes:
            includes += '\\n'

        return includes''','''        def header_of(path):
            stem, _ = os.path.splitext(os.path.basename(path))

            return camel_to_snake_case(stem) + '.h'

        return ''.join(f'#include "{header_of(imported.path)}"\\n'
                       for imported in self.parsed.imports)'''))
ref('dict_types',('''        elif type in ['int32', 'int64', 'uint32', 'uint64']:
            type = f'{type}_t '
        elif type in ['sint32', 'sint64']:
            type = f'{type[1:]}_t '
        elif type in ['fixed32', 'fixed64']:
            type = f'uint{type[5:]}_t '
        elif type in ['sfixed32', 'sfixed64']:
            type = f'int{type[6:]}_t '
        elif type in ['float', 'double', 'bool']:
            type = f'{type} '
        elif type == 'bytes':
            type = f'struct pbtools_bytes_t '
        elif type == 'string':
            type = f'char *'
            name_snake_case = f'{name_snake_case}_p'
        else:''','''        elif type in C_TYPES:
            type = C_TYPES[type]
            if type == 'char *':
                name_snake_case += '_p'
        else:'''),('''class Options:
''','''C_TYPES = {
    'int32': 'int32_t ', 'int64': 'int64_t ',
    'uint32': 'uint32_t ', 'uint64': 'uint64_t ',
    'sint32': 'int32_t ', 'sint64': 'int64_t ',
    'fixed32': 'uint32_t ', 'fixed64': 'uint64_t ',
    'sfixed32': 'int32_t ', 'sfixed64': 'int64_t ',
    'float': 'float ', 'double': 'double ', 'bool': 'bool ',
    'bytes': 'struct pbtools_bytes_t ',
    'string': 'char *'
}


class Options:
'''))
ref('table_dispatch',('''            if field.repeated:
                if field.type_kind == 'scalar-value-type':
                    fmt = DECODE_REPEATED_SCALAR_VALUE_FMT
                elif field.type_kind == 'enum':
                    fmt = DECODE_REPEATED_ENUM_FMT
                else:
                    fmt = DECODE_REPEATED_FIELD_FMT
''','''            if field.repeated:
                fmt = {
                    'scalar-value-type': DECODE_REPEATED_SCALAR_VALUE_FMT,
                    'enum': DECODE_REPEATED_ENUM_FMT,
                    'message': DECODE_REPEATED_FIELD_FMT
                }[field.type_kind]
'''))
ref('ternary',('''            elif field.type == 'bytes':
                if field.optional:
                    fmt = DECODE_OPTIONAL_MEMBER_BYTES_FMT
                else:
                    fmt = DECODE_MEMBER_BYTES_FMT
''','''            elif field.type == 'bytes':
                fmt = (DECODE_OPTIONAL_MEMBER_BYTES_FMT
                       if field.optional
                       else DECODE_MEMBER_BYTES_FMT)
'''))
ref('generator_yield',('''    def generate_repeated_finalizers(self, message):
        finalizers = []

        for field in message.repeated_fields:''','''    def repeated_of(self, message):
        for field in message.fields:
            if field.repeated:
                yield field

    def generate_repeated_finalizers(self, message):
        finalizers = []

        for field in self.repeated_of(message):'''))
ref('zip_enum',('''        for i, field in enumerate(oneof.fields, 1):
            members.append(
                f'    {oneof.full_name_snake_case}_{field.name_snake_case}_e = {i}')
''','''        number = 0

        for field in oneof.fields:
            number += 1
            members.append('    {}_{}_e = {}'.format(
                oneof.full_name_snake_case, field.name_snake_case, number))
'''))
ref('percent',('''            members.append(f'    self_p->{oneof.name_snake_case} = 0;')''','''            members.append('    self_p->%s = 0;' % oneof.name_snake_case)'''))
ref('early_continue',('''            if field.repeated:
                member = f'    self_p->{name}.length = 0;'
            elif field.optional:
                member = f'    self_p->{name}.is_present = false;'
            elif field.type == 'bytes':''','''            if field.repeated:
                members.append('    self_p->' + name + '.length = 0;')
                continue

            if field.optional:
                member = f'    self_p->{name}.is_present = false;'
            elif field.type == 'bytes':'''))
ref('sorted_cases',('''        for field in message.fields:
            if field.repeated:
                if field.type_kind == 'scalar-value-type':
                    fmt = DECODE_REPEATED_SCALAR''','''        for field in sorted(message.fields, key=lambda field: field.field_number):
            if field.repeated:
                if field.type_kind == 'scalar-value-type':
                    fmt = DECODE_REPEATED_SCALAR'''))
ref('cached_props',('''    @property
    def full_name_snake_case(self):
        return camel_to_snake_case(self.full_name)

    def used_types(self):''','''    @property
    def full_name_snake_case(self):
        name = self.full_name
        snake = camel_to_snake_case(name)

        return snake

    def used_types(self):'''),f=PA)
ref('list_join_types',('''        types = []

        for enum in self.parsed.enums:
            types += self.generate_enum_type(enum)

        for message in self.messages:
            types += self.generate_message_types(message)

        return '\\n'.join(types)''','''        enum_types = [
            line
            for enum in self.parsed.enums
            for line in self.generate_enum_type(enum)
        ]
        message_types = sum([self.generate_message_types(message)
                             for message in self.messages], [])

        return '\\n'.join(enum_types + message_types)'''))
ref('upper_inline',('''            line = ENUM_MEMBER_FMT.format(enum=enum, field=field)

            if self.enums_upper_case:
                line = line.upper()

            lines.append(line)

        return ',\\n'.join(lines)''','''            lines.append(ENUM_MEMBER_FMT.format(enum=enum, field=field))

        if self.enums_upper_case:
            lines = [line.upper() for line in lines]

        return ',\\n'.join(lines)'''))
ref('rename_inner',*[(a,b) for a,b in []])
R['rename_inner']='sub',G,[('}_encode_inner','}_encode_fields'),('}_decode_repeated_inner','}_decode_all')]
ref('while_loop',('''        for oneof in message.oneofs:
            for field in oneof.fields:
                members.append(
                    DECODE_ONEOF_FMT.format(message=message,
                                            oneof=oneof,
                                            field=field))
''','''        for oneof in message.oneofs:
            members += [
                DECODE_ONEOF_FMT.format(message=message,
                                        oneof=oneof,
                                        field=oneof_field)
                for oneof_field in oneof.fields
            ]
'''))
ref('map_filter',('''        return [field for field in self.fields if field.repeated]''','''        return list(filter(lambda field: field.repeated, self.fields))'''),f=PA)
ref('if_else_c',('''    if (self_p->{field.name_snake_case}.is_present) {{
        pbtools_encoder_write_{field.full_type_snake_case}_always(\\
encoder_p, {field.field_number}, {ref}self_p->{field.name_snake_case}.value);
    }}
''','''    if (self_p->{field.name_snake_case}.is_present == true) {{
        pbtools_encoder_write_{field.full_type_snake_case}_always(
            encoder_p,
            {field.field_number},
            {ref}self_p->{field.name_snake_case}.value);
    }}
'''))
ref('for_c',('''    while (pbtools_decoder_available(decoder_p)) {{
        switch (pbtools_decoder_read_tag(decoder_p, &wire_type)) {{
''','''    int field_number;

    for (;;) {{
        if (!pbtools_decoder_available(decoder_p)) {{
            break;
        }}

        field_number = pbtools_decoder_read_tag(decoder_p, &wire_type);

        switch (field_number) {{
'''))
ref('temp_c',('''            self_p->{field.name_snake_case}.is_present = true;
            self_p->{field.name_snake_case}.value = \\
pbtools_decoder_read_{field.full_type_snake_case}(decoder_p, wire_type);
''','''            self_p->{field.name_snake_case}.value = \\
pbtools_decoder_read_{field.full_type_snake_case}(decoder_p, wire_type);
            self_p->{field.name_snake_case}.is_present = true;
'''))
ref('memset_c',('''    self_p->base.heap_p = heap_p;
{members_init}''','''    memset(self_p, 0, sizeof(*self_p));
    self_p->base.heap_p = heap_p;
{members_init}'''))
ref('try_else',('''        if parsed.package is not None:
            namespace = camel_to_snake_case(parsed.package)
''','''        package = parsed.package

        if package:
            namespace = camel_to_snake_case(package)
'''))
ref('oneof_group',('''            if field.type_kind == 'scalar-value-type':
                if field.type == 'string':
                    fmt = ENCODE_ONEOF_STRING_MEMBER_FMT
                else:
                    fmt = ENCODE_ONEOF_CHOICE_FMT
            else:
                if field.type_kind == 'message':
                    fmt = ENCODE_ONEOF_SUB_MESSAGE_MEMBER_FMT
                else:
                    fmt = ENCODE_ONEOF_ENUM_FMT
''','''            if field.type == 'string':
                fmt = ENCODE_ONEOF_STRING_MEMBER_FMT
            elif field.type_kind == 'scalar-value-type':
                fmt = ENCODE_ONEOF_CHOICE_FMT
            elif field.type_kind == 'message':
                fmt = ENCODE_ONEOF_SUB_MESSAGE_MEMBER_FMT
            else:
                assert field.type_kind == 'enum'
                fmt = ENCODE_ONEOF_ENUM_FMT
'''))
ref('walrus_any',('''        if not members:
            members = [''','''        if len(members) == 0:
            members = ['''))
ref('dataclass_opts',('''class Options:

    def __init__(self, enums_upper_case=False):
        self.enums_upper_case = enums_upper_case
''','''class Options:
    """Options of the generator."""

    enums_upper_case = False

    def __init__(self, enums_upper_case=None):
        if enums_upper_case is not None:
            self.enums_upper_case = enums_upper_case
'''))
ref('rec_helper',('''        for message in self.messages:
            self.generate_internal_message_declarations(message,
                                                        declarations)

        return '\\n'.join(declarations)''','''        pending = list(self.messages)

        for message in pending:
            self.generate_internal_message_declarations(message,
                                                        declarations)

        return '\\n'.join(declarations)'''))
def build(name,d):
    shutil.rmtree(d,ignore_errors=True)
    shutil.copytree('/repo',d,symlinks=True,ignore=shutil.ignore_patterns('.git','examples','build'))
    e=R[name]
    if isinstance(e,tuple):
        _,f,subs=e
        s=SRC[f]
        for a,b in subs: s=s.replace(a,b)
        open(f'{d}/{f}','w').write(s)
        return
    cur=dict(SRC)
    for f,a,b in e:
        assert a in cur[f],(name,a)
        cur[f]=cur[f].replace(a,b,1)
    for f in cur: open(f'{d}/{f}','w').write(cur[f])
def run(name,d):
    from sa.py.suite import CGen
    from sa import runner
    runner.JOB_SECONDS=300
    g=CGen(d); g.prepare()
    res=runner.run_jobs(g.jobs())
    bad={}
    n=0
    for r in res:
        if r['error']: print('  ERROR',r['name'],r['error'][:300]); 
        if r['error'] and os.environ.get('TR'): print(r.get('trace'))
        for f in r['findings']:
            n+=1
            if not f[5]: bad.setdefault((f[0],f[1]),[]).append(f)
    print('==',name,'findings',n,'bad',{k:len(v) for k,v in bad.items()},'t',max(r['seconds'] for r in res),flush=True)
    for k,v in list(bad.items())[:6]: print('    ',k,v[0][3],v[0][6][:260])
    return bad
if __name__=='__main__':
    for name in R:
        if len(sys.argv)>1 and not any(a in name for a in sys.argv[1:]): continue
        d='/tmp/pyrf/r'
        build(name,d); run(name,d)
        shutil.rmtree(d)
