# Executed by make.py.

EVERY = ('inputs', 'histories')
DEC_OBS = ['return value of the generated decode function and the fields of '
           'the decoded message']
ENC_OBS = ['return value and buffer of the generated encode function']

prop('C01', 'Decoding never reads outside the given encoded message',
     'Whatever bytes are given to a decode function of a generated message, '
     'every byte read as encoded data lies within the given buffer and size, '
     'and data of a sub-message, string, bytes or packed field is read from '
     'within its declared length.',
     EVERY, 'All encoded buffers of any content and size up to INT_MAX, and '
     'all states in which the decoding functions can be entered.',
     'The tests decode a few dozen fixed well formed and malformed messages; '
     'an out of bounds read needs a particular truncation or length value.',
     [LIB], [('bounds checks before each read', f'{LIB}: decoder_get, '
              'decoder_read, decoder_seek, decoder_init_slice')],
     DEC_OBS,
     [('read position', 'offset of the next byte to read', f'{HDR}: struct '
       'pbtools_decoder_t')])

prop('C02', 'Decoding writes only memory taken from the workspace',
     'Decoding and message creation only write to the message and to memory '
     'taken from the remaining part of the given workspace; memory taken '
     'twice never overlaps, and writes to taken memory stay within the number '
     'of bytes that were asked for.',
     EVERY, 'All encoded inputs, all workspace sizes and all positions in '
     'the workspace.',
     'Tests use workspaces that are large enough or end a fixed handful of '
     'bytes too early; overflow needs a specific item count and size.',
     [LIB, GEN], [('bump allocation with a size check', f'{LIB}: heap_alloc'),
                  ('two passes that count and then store repeated items',
                   f'{LIB}: decoder_decode_repeated_*')],
     DEC_OBS,
     [('workspace position', 'first byte not handed out', f'{HDR}: struct '
       'pbtools_heap_t')])

prop('C03', 'Encoding writes only the given buffer, result is at its start',
     'An encode function writes only within the given buffer, never before '
     'its start or after its end, and returns the exact number of bytes of '
     'the encoded message, which then starts at the first byte of the '
     'buffer. A message whose encoding fits exactly is encoded.',
     EVERY, 'All message contents, all buffer sizes from zero and up.',
     'Tests encode into a few buffer sizes; the failing sizes depend on the '
     'message content.',
     [LIB], [('reverse writing with a capacity check',
              f'{LIB}: encoder_put, encoder_write'),
             ('final move to the start of the buffer',
              f'{LIB}: encoder_get_result')], ENC_OBS,
     [('write position', 'bytes left in front of the encoded data',
       f'{HDR}: struct pbtools_encoder_t')])

prop('C04', 'The first error is kept and reported as a documented code',
     'Once an encode or decode operation has failed, everything that follows '
     'in the same call reads, allocates or writes nothing more and the call '
     'returns minus the code of the first error, which is one of the '
     'documented error codes and tells the actual cause.',
     ('inputs', 'histories', 'fault_sequences'),
     'All inputs and all orders in which operations can fail.',
     'Tests provoke one error at a time and look at a handful of codes.',
     [LIB, HDR], [('sticky failure state of encoder and decoder',
                   f'{LIB}: encoder_abort, decoder_abort')],
     DEC_OBS + ENC_OBS,
     [('failure state', 'a negative size and the error as position',
       f'{HDR}: struct pbtools_encoder_t, pbtools_decoder_t')])

prop('C05', 'An exhausted workspace is always reported as out of memory',
     'When the workspace cannot hold a string, bytes value, sub-message or '
     'the items of a repeated field, decoding fails with the out of memory '
     'error and allocation functions return failure; no operation reports '
     'success with a part of the value missing.',
     ('inputs', 'configurations'), 'All workspace sizes and all inputs.',
     'Tests fail allocation at a few places; each allocating function has '
     'its own check.',
     [LIB], [('result of allocation is checked', f'{LIB}: callers of '
              'heap_alloc and decoder_heap_alloc')], DEC_OBS)

prop('C06', 'Decoding and encoding terminate, with bounded work per byte',
     'Every loop in the encoder and decoder makes progress: decoding consumes '
     'input or fails, loops over a value or over items are bounded by its '
     'size or number, and no input makes a function spin or run backwards.',
     ('inputs',), 'All inputs, including lengths that are zero, maximal or '
     'wrap when added to a position.',
     'A hang needs a special input; tests have a fixed set.',
     [LIB], [('loop conditions on position and size', f'{LIB}: '
              'decoder_available, loops of the repeated field decoders'),
             ('varints are at most ten bytes', f'{LIB}: decoder_read_varint')],
     DEC_OBS)

prop('C07', 'Scalar fields are encoded as the protobuf wire format says',
     'For each scalar type, the bytes written for a field are its key (field '
     'number and wire type) followed by the value in the wire representation '
     'of that type: minimal varint (sign extended to 64 bits for negative '
     'int32 and enum), zigzag, little endian fixed width, or length and '
     'bytes.',
     ('inputs',), 'All values of the type and all field numbers.',
     'Tests encode a handful of values per type.',
     [LIB], [('value encoders', f'{LIB}: pbtools_encoder_write_*')], ENC_OBS)

prop('C08', 'Scalar fields are decoded as the protobuf wire format says',
     'For each scalar type, decoding a field of the right wire type gives the '
     'value the wire format defines for the bytes read: 64 bit varints '
     'truncated to the type, zigzag undone, little endian fixed width, bool '
     'true if any bit is set, and string and bytes contents as given with '
     'strings null terminated. Exactly the bytes of the value are consumed.',
     ('inputs',), 'All byte sequences, including over-long varints.',
     'Tests decode a handful of values per type, all minimally encoded.',
     [LIB], [('value decoders', f'{LIB}: pbtools_decoder_read_*')], DEC_OBS)

prop('C09', 'Default values are left out unless presence is tracked',
     'A singular field with its default value (zero, false, empty) is not '
     'written and every other value is; a field of a oneof or an explicitly '
     'optional field that is present is written whatever its value. Whether '
     'a value is default is decided on all its bits.',
     ('inputs',), 'All values of all scalar types.',
     'Tests compare few values, mainly small ones and zero.',
     [LIB, GEN], [('default check', f'{LIB}: pbtools_encoder_write_*'),
                  ('unconditional writers', f'{LIB}: '
                   'pbtools_encoder_write_*_always')], ENC_OBS)

prop('C10', 'Repeated fields are encoded completely, in order and packed',
     'A repeated numeric field with items is written as one length delimited '
     'field with all items in order, whose length prefix is the number of '
     'payload bytes; repeated strings and bytes are written as one field per '
     'item in order, empty items included. An empty repeated field writes '
     'nothing.',
     ('inputs',), 'All item counts, item values and field numbers.',
     'Tests encode a few short sequences per type.',
     [LIB], [('repeated field encoders', f'{LIB}: '
              'pbtools_encoder_write_repeated_*')], ENC_OBS)

prop('C11', 'Repeated fields are decoded whether packed, unpacked or mixed',
     'All items of a repeated field are decoded in order of occurrence, '
     'independent of whether they come one by one, packed in one or several '
     'chunks, a mix of these, or interleaved with other fields, and the item '
     'count tells how many there were; each item gets the value a singular '
     'field of the type would get.',
     ('inputs', 'histories'), 'All sequences of fields and chunks.',
     'Tests decode a few sequences; the two passes over the input must agree '
     'for every interleaving.',
     [LIB], [('first pass counts, second pass stores', f'{LIB}: '
              'pbtools_repeated_info_decode_*, '
              'pbtools_decoder_decode_repeated_*')], DEC_OBS)

prop('C12', 'Unknown fields of every wire type are skipped exactly',
     'A field that the message does not define is passed over by exactly its '
     'own bytes according to its wire type, so that the fields after it are '
     'decoded as if it was not there; nothing else of the message changes.',
     ('inputs',), 'All field numbers, wire types and contents.',
     'Tests skip one or two unknown fields per wire type.',
     [LIB], [('skipping', f'{LIB}: pbtools_decoder_skip_field')], DEC_OBS)

prop('C13', 'Malformed input is rejected, never accepted as something else',
     'Truncated values, varints longer than ten bytes, lengths beyond the end '
     'of the data, field number zero, wire types that do not fit the field '
     'and undefined wire types make decoding fail with an error.',
     ('inputs',), 'All malformed inputs of these kinds at any position.',
     'Tests have one or two samples of each kind for some types.',
     [LIB], [('checks in the readers', f'{LIB}: pbtools_decoder_read_*, '
              'decoder_read_varint, pbtools_decoder_read_tag')], DEC_OBS)

prop('C14', 'Sub-messages are coded on their own bytes and their own memory',
     'A sub-message field, singular or repeated, is encoded as its key, the '
     'length of exactly what its own encode function wrote, and those bytes; '
     'repeated sub-messages are written in order, one field each, empty ones '
     'included. Decoding gives the decode function of the sub-message a '
     'decoder for exactly the declared bytes, whatever it does with them the '
     'fields that follow are found where the length says, and its failure is '
     'the failure of the whole message.',
     ('inputs', 'histories'), 'All nestings, lengths and contents, and every '
     'behaviour of the coding functions of the sub-message that their '
     'contract allows.',
     'Tests nest a handful of small messages; the framing depends on the '
     'contents of each level and on how inner decoding ends.',
     [LIB], [('sub-message framing', f'{LIB}: pbtools_encoder_sub_message_*, '
              'pbtools_decoder_sub_message_decode, decoder_init_slice'),
             ('repeated sub-messages', f'{LIB}: '
              'pbtools_encoder_encode_repeated_messages')],
     DEC_OBS + ENC_OBS)

prop('C15', 'Encoding and decoding are reentrant',
     'The runtime library keeps no state between or across calls: it has no '
     'writable static data, calls no function with hidden state and takes '
     'memory only from the given workspace, so messages with different '
     'workspaces can be processed at the same time and results depend on '
     'nothing but the arguments.',
     ('schedules', 'histories'), 'All interleavings of calls from different '
     'threads on different messages, and all earlier calls.',
     'Tests are single threaded and cannot observe hidden state.',
     [LIB], [('all state is in the objects passed by the caller', LIB)],
     DEC_OBS + ENC_OBS)

prop('C16', 'Memory handed out and objects accessed are aligned',
     'Every object the library places in the workspace is aligned for its '
     'type, and no access is made through a pointer that is not.',
     ('inputs', 'histories'), 'All sequences of allocations, of any sizes, '
     'from an aligned workspace.',
     'x86 tolerates unaligned accesses, so a misaligned object passes every '
     'test and traps on another target.',
     [LIB], [('rounding up in the allocator', f'{LIB}: heap_alloc')],
     ['addresses of allocated items and messages'])

prop('C17', 'No arithmetic overflow or other undefined operation',
     'No input makes the runtime library overflow a signed integer, shift by '
     'too many bits, follow a null or dangling pointer, use an uninitialised '
     'value or lose bits of a size when it is converted.',
     ('inputs',), 'All inputs and all buffer and workspace sizes up to '
     'INT_MAX.',
     'The operands that overflow are extreme and tests do not run with '
     'instrumentation.',
     [LIB], [('types and casts', LIB)], DEC_OBS + ENC_OBS)

prop('C18', 'New and allocated messages and items are initialised',
     'A message made by new or by allocating repeated or sub-messages has '
     'been given to its init function exactly once before it is handed out; '
     'allocated numeric items are zero, strings and bytes items are empty, '
     'and the length of the repeated field is what was asked for. When '
     'allocation fails nothing is handed out.',
     ('inputs', 'histories'), 'All item counts, item sizes and workspaces, '
     'with any earlier content of the workspace.',
     'Tests use freshly zeroed workspaces, which hide uninitialised items.',
     [LIB], [('allocation of messages and items', f'{LIB}: '
              'pbtools_message_new, pbtools_alloc_repeated*, '
              'pbtools_sub_message_alloc')],
     ['the allocated message or items, and the return value'])

prop('C19', 'Every error code has its own text, other values are unknown',
     'pbtools_error_code_to_string gives each documented error code, with '
     'either sign, its own text, and gives the unknown text for every other '
     'integer.',
     ('inputs',), 'All integers.',
     'Tests look at a handful of values near the documented codes.',
     [LIB, HDR], [('lookup of the text', f'{LIB}: '
                   'pbtools_error_code_to_string')],
     ['the returned text'])

GEN_OBS = ['the generated header and source file, and what the functions in '
           'it do']

prop('G01', 'Every field is encoded by the call for its type, number and place',
     'The encode function generated for a message passes every field of the '
     'message, and nothing else, once to the writer for its type and label, with '
     'its own field number and member; fields of oneofs and optional fields '
     'only when they are set.',
     ('inputs', 'configurations'), 'All message definitions: any number and '
     'order of fields of all types, labels, names and numbers, with and '
     'without a package, and with any values in the message.',
     'The tests generate code for a fixed set of proto files in which most '
     'combinations of type, label and position occur once or not at all.',
     [GEN], [('encoder body', f'{GEN}: generate_message_encode_body and the '
              'templates it fills')], GEN_OBS)

prop('G02', 'Every known field number is decoded into its own member',
     'The decode function generated for a message reads field after field '
     'until the data ends or fails, stores the value of each defined field '
     'number with the reader for its type into its own member, and skips '
     'every other field number.',
     ('inputs', 'configurations'), 'All message definitions and all sequences '
     'of field numbers.',
     'Tests decode a few messages of a fixed set of proto files.',
     [GEN], [('decoder body', f'{GEN}: generate_message_decode_body and the '
              'templates it fills')], GEN_OBS)

prop('G03', 'A oneof holds the field that was set last and codes only that',
     'For every oneof the generated type has a choice of its own for every '
     'field and one, the initial one, for none. Encoding writes exactly the '
     'field of the choice, whatever its value, and decoding a field of the '
     'oneof makes it the choice and initialises it before it is read.',
     ('inputs', 'histories', 'configurations'), 'All oneofs with fields of '
     'all types and all orders in which their fields occur.',
     'Tests have two oneofs and decode each with one field present.',
     [GEN], [('choice enum and functions of a oneof',
              f'{GEN}: generate_oneof_*')], GEN_OBS)

prop('G04', 'Explicitly optional fields are present exactly when they were set',
     'A field with the label optional has a presence flag that is false in a '
     'new message and set by decoding the field. Encoding writes the field, '
     'whatever its value, if and only if the flag is set.',
     ('inputs', 'configurations'), 'All optional fields of all types.',
     'Tests look at presence in one proto file.',
     [GEN], [('presence flags', f'{GEN}: generate_message_*_body')], GEN_OBS)

prop('G05', 'Generated code compiles and has the documented interface',
     'For every valid proto file the generated header and source are valid C '
     'and the header is valid C++; every message, enum, oneof and field has '
     'the struct, members, enum constants and functions that the '
     'documentation gives for it, with names made from the package and the '
     'enclosing messages, and functions that have to exist are defined.',
     ('configurations',), 'All proto files: packages, nesting, imports, '
     'names, field types and labels, and the options of the generator.',
     'The tests compile what is generated from a fixed set of files.',
     [GEN, 'README.rst'], [('the templates and their parts',
                            f'{GEN}: Generator')], GEN_OBS)

prop('G06', 'A new message has every field at its default value',
     'The init function of a message sets every member: numbers to zero, '
     'strings and bytes to empty, repeated fields to no items, message '
     'fields to null, oneofs to none, optional fields to absent, and '
     'enums to their zero value.',
     ('inputs', 'configurations'), 'All message definitions, with any earlier '
     'content of the memory of the message.',
     'Tests use fresh and often zeroed memory.',
     [GEN], [('init body', f'{GEN}: generate_message_init_body')], GEN_OBS)

prop('G07', 'Enum constants have the numbers given in the proto file',
     'Every enum has a type of its own with one constant per value, in the '
     'namespace of the enum, whose number is the one in the proto file; '
     'with upper case names requested only the case of the names changes.',
     ('configurations',), 'All enums with any values, at the top level and '
     'nested in messages.',
     'Tests compile a handful of enums and use few of their constants.',
     [GEN], [('enum types', f'{GEN}: generate_enum*')], GEN_OBS)

prop('G08', 'Repeated fields are counted, allocated and stored by their type',
     'For every repeated field the decode function counts its items with the '
     'function for its type in the loop over all fields, allocates exactly '
     'when items were found and stores them with the function for its type '
     'into its own member; the allocation function of each repeated field '
     'and sub-message uses the size and init function of its type.',
     ('inputs', 'histories', 'configurations'), 'All repeated fields of all '
     'types, in messages with any other fields.',
     'Tests decode a few repeated fields; counting and storing with different '
     'functions goes unnoticed until the encoding varies.',
     [GEN], [('finalisation of repeated fields',
              f'{GEN}: generate_repeated_*')], GEN_OBS)

CLI_OBS = ['exit status, stderr and the files in the output directory']
INIT = 'pbtools/__init__.py'
FILES = ('pbtools/c_source/__init__.py, pbtools/rust_source/__init__.py, '
         'pbtools/mys_source/__init__.py: generate_files')

prop('X01', 'A failure exits with an error message, success exits with 0',
     'Whatever fails in a run of pbtools (reading, parsing, generating or '
     'writing any of the files), the exit status is not 0 and the reason is '
     'printed on stderr, without a traceback unless --debug is given; if '
     'nothing fails the exit status is 0.  generate_files() raises when '
     'anything in it fails.',
     ('inputs', 'crash_points'), 'All points at which a call outside the '
     'package or the parser can fail, all subcommands and options.',
     'The tests provoke two errors; a swallowed or zero exit status shows for '
     'the failures that nobody tries.',
     [CLI], [('one handler around the subcommand', f'{INIT}: _main')],
     CLI_OBS)

prop('X02', 'A file that is not valid leaves its output files untouched',
     'The output files of an input file are opened only after it was parsed '
     'and its code was generated completely, and after the first failure '
     'nothing is parsed, generated or written.',
     ('inputs', 'crash_points'), 'All points of failure, for any number of '
     'input files.',
     'No test looks at the output directory after an error.',
     [GEN, CLI], [('generation before opening', FILES)], CLI_OBS)

prop('X03', 'Exactly the output files are written, completely and once',
     'For each input file, name.h and name.c (or name.rs, or name.mys) in the '
     'output directory get exactly the text that was generated, where name is '
     'the file name without directories and extension in snake case, whatever '
     'the name of the input file; no other file is written, and the directory '
     'is created for C.  The source includes the header that is written.',
     ('inputs', 'configurations'), 'All names of input files and directories.',
     'Tests use plain names; a separator or dot in a name can make the file '
     'land elsewhere.',
     [GEN, CLI], [('name of the output', FILES)], CLI_OBS)

prop('X04', 'The output depends on the input only',
     'The same proto files and options give the same output in every run: the '
     'order of set elements, times, addresses, hashes and the environment do '
     'not show in it, and nothing is kept from one input file that changes '
     'the output of the next.',
     ('inputs', 'histories', 'schedules'), 'All hash seeds, all sequences of '
     'input files.',
     'A test compares with one expected output in one run; the order of a set '
     'of strings changes with the hash seed only for some inputs.',
     [GEN, PARSER, CLI], [('sets used for membership only',
                           f'{PARSER}: Message.used_types')], CLI_OBS)

prop('X05', 'The options and input files given are those used',
     'The documented subcommands and options are accepted; each input file is '
     'parsed once, in order, with the import paths in the order given; the '
     'output directory and --enums-upper-case have their effect, and their '
     'documented defaults otherwise.',
     ('inputs', 'configurations'), 'All combinations of options.',
     'Tests use few combinations of options.',
     [CLI], [('options', 'pbtools/subparsers: add_subparser')], CLI_OBS)

PARSE_OBS = ['the generated files, the objects that parse_file() returns and '
             'the errors it raises']

prop('P01', 'Comments and white space separate tokens, strings stay whole',
     'The text of a proto file is split into identifiers, integers, strings '
     'and symbols as the language defines them: comments (// to the end of '
     'the line, /* */) are the same as white space and never begin inside a '
     'string; strings contain any characters and escapes; a block comment '
     'that is not ended is an error; positions in error messages are those '
     'in the file.',
     ('inputs',), 'All texts.',
     'The tests contain a few comments and strings; quotes, escapes, stars '
     'and slashes can be combined without end.',
     [PARSER], [('comments', f'{PARSER}: ignore_comments'),
                ('tokens', f'{PARSER}: Parser.token_specs')], PARSE_OBS)

prop('P02', 'The grammar accepts the proto files it should and nothing else',
     'Every sequence of tokens of the supported subset of proto3 is parsed, '
     'with any item repeated, absent or in any order where the language '
     'allows it and with words like message or string used as names; what is '
     'not a proto3 file is an error and is never parsed as something else.',
     ('inputs',), 'All sequences of tokens.',
     'A test parses one file; the choices in a parsing grammar are ordered '
     'and the first that matches hides the others.',
     [PARSER], [('the grammar', f'{PARSER}: Parser.grammar')], PARSE_OBS)

prop('P03', 'Everything in a proto file is loaded with the meaning it has',
     'Package, imports, options, messages, enums, fields, labels, oneofs, '
     'maps, services and methods of a file are loaded all of them, in order, '
     'with names, numbers, labels, streams and values as written, under the '
     'message that encloses them; a map is a repeated message with a key and '
     'a value.',
     ('inputs',), 'All files: any kinds of items in any order with any names.',
     'Expected output covers combinations of items that somebody wrote.',
     [PARSER], [('loading', f'{PARSER}: Proto, Message, Enum, Service')],
     PARSE_OBS)

prop('P04', 'A type name refers to the innermost declaration in scope',
     'The type of a field in a message, at any depth, in a oneof or a map, is '
     'the message or enum with that name in the innermost enclosing scope '
     'that declares one, then the file, then the imported files of the same '
     'package; a name with a package refers to that package.  Whether it is '
     'an enum or a message is that of this declaration.  If there is none '
     'the error names the type.',
     ('inputs',), 'All nestings and all equalities between names.',
     'It depends on which names happen to be equal; tests use distinct ones.',
     [PARSER], [('resolution', f'{PARSER}: Proto.resolve_field_type, '
                               'lookup_type')], PARSE_OBS)

prop('P05', 'Imports are found in the import directories in their order',
     'An imported file or input file is the first that exists of those in '
     'the import directories, in the order given, and then relative to the '
     'current directory; if none exists that is an error that names the '
     'file; files are read as UTF-8 text; every import is loaded, with its '
     'package and the names in it.',
     ('inputs', 'configurations'), 'All sets of files that exist and '
     'directories.',
     'Tests have one import directory in which everything exists.',
     [PARSER], [('the search', f'{PARSER}: find_file, Imported')], PARSE_OBS)

prop('P06', 'Messages come after those they use, each exactly once',
     'The messages of a file are ordered such that a message comes after all '
     'messages it uses by value, also through oneofs and nested messages, '
     'unless they use each other; no message is lost or appears twice, '
     'however the messages use each other, including recursion.',
     ('inputs',), 'All relations of use between messages.',
     'The number of relations is exponential and the order depends on all of '
     'the relation.',
     [PARSER], [('the order', f'{PARSER}: Proto.sort_messages_by_usage, '
                              'Message.used_types')], PARSE_OBS)

prop('P07', 'Integers have the value they have in the proto language',
     'Decimal, hexadecimal (0x, 0X) and octal (leading 0) integers, negative '
     'ones included, have that value as field numbers, enum values, oneof '
     'and map fields and option values.',
     ('inputs',), 'All integers in all places.',
     'Tests use decimal numbers, and one place or the other.',
     [PARSER], [('integers', f'{PARSER}: load_integer')], PARSE_OBS)

NOT_APPLICABLE = {}
