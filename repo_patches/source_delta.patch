From 13316ae1d1ba32269fa478dccb6bee5baa53faf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:54 +0000
Subject: [PATCH 01/19] fix: Compare workspace allocation sizes without
 truncating them.

An allocation bigger than INT_MAX became negative when cast to int, was
granted and moved the workspace position backwards. A few bytes of
input (a packed field claiming a size close to INT_MAX) made the decoder
write outside the workspace.
---
 lib/src/pbtools.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/pbtools.c b/lib/src/pbtools.c
index 3c3e857..53fdc04 100644
--- a/lib/src/pbtools.c
+++ b/lib/src/pbtools.c
@@ -83,7 +83,7 @@ static void *heap_alloc(struct pbtools_heap_t *self_p,
 
     left = (self_p->size - self_p->pos);
 
-    if ((int)size <= left) {
+    if ((left >= 0) && (size <= (size_t)left)) {
         addr = (uintptr_t)&self_p->buf_p[self_p->pos];
         rest = (addr & (alignment - 1));
 
@@ -93,7 +93,7 @@ static void *heap_alloc(struct pbtools_heap_t *self_p,
             pad = (alignment - rest);
             size += pad;
 
-            if ((int)size <= left) {
+            if (size <= (size_t)left) {
                 addr += pad;
                 self_p->pos += (int)size;
             } else {
-- 
2.43.0


From d208df83ac94185910b0bbc35eddb3196bc42ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:54 +0000
Subject: [PATCH 02/19] fix: Reject packed fixed size fields with a partial
 last item.

The partial item was not counted when the items were allocated, but
was written when they were read, one item past the allocated block.
---
 lib/src/pbtools.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lib/src/pbtools.c b/lib/src/pbtools.c
index 53fdc04..c4a0250 100644
--- a/lib/src/pbtools.c
+++ b/lib/src/pbtools.c
@@ -1300,6 +1300,12 @@ static void repeated_info_decode_32bit(struct pbtools_repeated_info_t *self_p,
 
     case PBTOOLS_WIRE_TYPE_LENGTH_DELIMITED:
         size = (int)decoder_read_length_delimited(decoder_p, wire_type);
+
+        if ((size % 4) != 0) {
+            decoder_abort(decoder_p, PBTOOLS_OUT_OF_DATA);
+            break;
+        }
+
         self_p->length += (size / 4);
         decoder_seek(decoder_p, size);
         break;
@@ -1328,6 +1334,12 @@ static void repeated_info_decode_64bit(struct pbtools_repeated_info_t *self_p,
 
     case PBTOOLS_WIRE_TYPE_LENGTH_DELIMITED:
         size = (int)decoder_read_length_delimited(decoder_p, wire_type);
+
+        if ((size % 8) != 0) {
+            decoder_abort(decoder_p, PBTOOLS_OUT_OF_DATA);
+            break;
+        }
+
         self_p->length += (size / 8);
         decoder_seek(decoder_p, size);
         break;
-- 
2.43.0


From 713ff6ef42d48e6f43a0500b98bae3a24f8d416a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:54 +0000
Subject: [PATCH 03/19] fix: Report out of memory when decoding repeated
 messages.

Decoding a message without enough workspace for its repeated messages
succeeded, with the repeated messages missing.
---
 lib/src/pbtools.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/pbtools.c b/lib/src/pbtools.c
index c4a0250..5eee983 100644
--- a/lib/src/pbtools.c
+++ b/lib/src/pbtools.c
@@ -2492,6 +2492,8 @@ void pbtools_decode_repeated_inner(
                                  message_init);
 
     if (res != 0) {
+        decoder_abort(decoder_p, PBTOOLS_OUT_OF_MEMORY);
+
         return;
     }
 
-- 
2.43.0


From b5c30b25a93808f43e4bde77bba8865eeb6c5727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:54 +0000
Subject: [PATCH 04/19] fix: Accept an encode buffer of exactly the encoded
 size.

The last byte of the buffer was never used, and encoding an empty
message into an empty buffer failed with the wrong error code.
---
 lib/src/pbtools.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/pbtools.c b/lib/src/pbtools.c
index 5eee983..4a158dc 100644
--- a/lib/src/pbtools.c
+++ b/lib/src/pbtools.c
@@ -120,7 +120,7 @@ static int encoder_get_result(struct pbtools_encoder_t *self_p)
 {
     int length;
 
-    if (self_p->pos >= 0) {
+    if (self_p->size >= 0) {
         length = (self_p->size - self_p->pos - 1);
         memmove(self_p->buf_p,
                 &self_p->buf_p[self_p->pos + 1],
@@ -145,7 +145,7 @@ static void encoder_write(struct pbtools_encoder_t *self_p,
                           uint8_t *buf_p,
                           int size)
 {
-    if (self_p->pos >= size) {
+    if ((self_p->pos + 1) >= size) {
         self_p->pos -= size;
         memcpy(&self_p->buf_p[self_p->pos + 1], buf_p, (size_t)size);
     } else {
-- 
2.43.0


From 0fd50a76d68e30d88cc589264ecea67c3e2a1f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:54 +0000
Subject: [PATCH 05/19] fix: Decode a bool from all 64 bits of its varint.

A varint with only high bits set was decoded as false, but as true in a
repeated field.
---
 lib/src/pbtools.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/pbtools.c b/lib/src/pbtools.c
index 4a158dc..1b2b52b 100644
--- a/lib/src/pbtools.c
+++ b/lib/src/pbtools.c
@@ -1200,7 +1200,7 @@ double pbtools_decoder_read_double(struct pbtools_decoder_t *self_p,
 bool pbtools_decoder_read_bool(struct pbtools_decoder_t *self_p,
                                int wire_type)
 {
-    return (pbtools_decoder_read_int32(self_p, wire_type) != 0);
+    return (pbtools_decoder_read_uint64(self_p, wire_type) != 0);
 }
 
 int pbtools_decoder_read_enum(struct pbtools_decoder_t *self_p,
-- 
2.43.0


From ccdc735174fb29ae6a60337618ba7ffa3bf0b6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:54 +0000
Subject: [PATCH 06/19] fix: Truncate sint32 varints to 32 bits before zigzag
 decoding.

Bit 32 of an oversized varint ended up as the sign of the value.
---
 lib/src/pbtools.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/src/pbtools.c b/lib/src/pbtools.c
index 1b2b52b..40ef68a 100644
--- a/lib/src/pbtools.c
+++ b/lib/src/pbtools.c
@@ -222,7 +222,7 @@ static uint32_t sint32_encode(int32_t value)
     return (data);
 }
 
-static int32_t sint32_decode(uint64_t value)
+static int32_t sint32_decode(uint32_t value)
 {
     if (value & 0x1) {
         value >>= 1;
@@ -1079,7 +1079,9 @@ int64_t pbtools_decoder_read_int64(struct pbtools_decoder_t *self_p,
 int32_t pbtools_decoder_read_sint32(struct pbtools_decoder_t *self_p,
                                     int wire_type)
 {
-    return ((int32_t)pbtools_decoder_read_sint64(self_p, wire_type));
+    return (sint32_decode((uint32_t)read_varint_check_wire_type_varint(
+                self_p,
+                wire_type)));
 }
 
 int64_t pbtools_decoder_read_sint64(struct pbtools_decoder_t *self_p,
@@ -1568,7 +1570,7 @@ static void read_repeated_sint32_item(struct pbtools_decoder_t *self_p,
                                       int32_t *items_p,
                                       int index)
 {
-    items_p[index] = sint32_decode(decoder_read_varint(self_p));
+    items_p[index] = sint32_decode((uint32_t)decoder_read_varint(self_p));
 }
 
 
-- 
2.43.0


From 66909a44d6b071b59cf1146ce4eff489f76b0019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:21 +0000
Subject: [PATCH 07/19] fix: Load hexadecimal and octal integers.

Hexadecimal field numbers and enum values were accepted by the grammar
but failed to load, octal numbers were loaded as decimal and only the
first digit of integer options was loaded.
---
 pbtools/parser.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index 3437d9c..176c84e 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -57,6 +57,21 @@ def format_parse_error(string, offset):
     return str(ParseError(string, offset))
 
 
+def load_integer(token):
+    """Returns the value of given decimal, hexadecimal or octal integer.
+
+    """
+
+    digits = token.lstrip('-')
+
+    if digits[:2] in ['0x', '0X']:
+        return int(token, 16)
+    elif digits.startswith('0'):
+        return int(token, 8)
+    else:
+        return int(token)
+
+
 def ignore_comments(string):
     """Ignore comments in given string by replacing them with spaces. This
     reduces the parsing time by roughly a factor of two.
@@ -307,7 +322,7 @@ class Option:
         elif kind == 'ident':
             value = value[0]
         elif kind == 'integer':
-            value = int(value[0])
+            value = load_integer(value)
 
         self.kind = kind
         self.value = value
@@ -317,7 +332,7 @@ class EnumField:
 
     def __init__(self, tokens):
         self.name = tokens[0]
-        self.field_number = int(tokens[2])
+        self.field_number = load_integer(tokens[2])
 
     @property
     def name_snake_case(self):
@@ -352,7 +367,7 @@ class OneofField(Field):
     def __init__(self, tokens):
         super().__init__(load_message_type(tokens[0]),
                          tokens[1],
-                         int(tokens[3]))
+                         load_integer(tokens[3]))
 
 
 class Oneof:
@@ -396,7 +411,7 @@ class MessageField(Field):
 
         return cls(load_message_type(tokens[1]),
                    tokens[2],
-                   int(tokens[4]),
+                   load_integer(tokens[4]),
                    repeated,
                    optional)
 
@@ -437,7 +452,7 @@ class Message:
         key_type = tokens[2]
         value_type = load_message_type(tokens[4])[-1]
         name = tokens[6]
-        field_number = int(tokens[8])
+        field_number = load_integer(tokens[8])
         map_type = f'PbtoolsMap{name.title()}'
         map_message_tokens = [
             'message',
-- 
2.43.0


From 9a652771ed9c6d71ea383891d6169248bfd82df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:21 +0000
Subject: [PATCH 08/19] fix: Keep all parts of an option value that is a full
 identifier.

---
 pbtools/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index 176c84e..eb53207 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -320,7 +320,7 @@ class Option:
         elif kind == 'bool':
             value = (value == 'true')
         elif kind == 'ident':
-            value = value[0]
+            value = '.'.join(value)
         elif kind == 'integer':
             value = load_integer(value)
 
-- 
2.43.0


From d648cfb7a43831141723a4da1aa0a7dea4bf4689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:21 +0000
Subject: [PATCH 09/19] fix: Load empty statements in enums and oneofs and
 options in services.

They are accepted by the grammar.
---
 pbtools/parser.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index eb53207..88770cd 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -347,7 +347,8 @@ class Enum:
         self.namespace = namespace
 
         for item in tokens[3]:
-            self.fields.append(EnumField(item))
+            if item != ';':
+                self.fields.append(EnumField(item))
 
     @property
     def namespace_snake_case(self):
@@ -378,7 +379,8 @@ class Oneof:
         self.namespace = namespace
 
         for item in tokens[3]:
-            self.fields.append(OneofField(item))
+            if item != ';':
+                self.fields.append(OneofField(item))
 
     @property
     def full_name(self):
@@ -526,7 +528,7 @@ class Service:
 
             if kind == 'rpc':
                 self.rpcs.append(Rpc(item))
-            elif kind == ';':
+            elif kind in ['option', ';']:
                 pass
             else:
                 raise InternalError(kind)
-- 
2.43.0


From 5025b3939a9ff638fe8e9d0c7cc066d8626c4f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:21 +0000
Subject: [PATCH 10/19] fix: Keep the package of a map value type.

---
 pbtools/parser.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index 88770cd..a90b492 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -452,7 +452,6 @@ class Message:
 
     def _load_map(self, tokens, sub_namespace):
         key_type = tokens[2]
-        value_type = load_message_type(tokens[4])[-1]
         name = tokens[6]
         field_number = load_integer(tokens[8])
         map_type = f'PbtoolsMap{name.title()}'
@@ -460,7 +459,7 @@ class Message:
             'message',
             map_type, '{', [
                 ('field', [[], [[], [key_type]], 'key', '=', '1', [], ';']),
-                ('field', [[], [[], [value_type]], 'value', '=', '2', [], ';'])
+                ('field', [[], tokens[4], 'value', '=', '2', [], ';'])
             ], '}'
         ]
         self.messages.append(Message(map_message_tokens, sub_namespace))
-- 
2.43.0


From b2feac81f8e8b0a49ef3a4d38b584c0c1d85f6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:21 +0000
Subject: [PATCH 11/19] fix: Keep the package of rpc request and response
 types.

---
 pbtools/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index a90b492..4c2b51a 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -510,9 +510,9 @@ class Rpc:
 
     def __init__(self, tokens):
         self.name = tokens[1]
-        self.request_type = tokens[4][1][0]
+        self.request_type = '.'.join(load_message_type(tokens[4]))
         self.request_stream = bool(tokens[3])
-        self.response_type = tokens[9][1][0]
+        self.response_type = '.'.join(load_message_type(tokens[9]))
         self.response_stream = bool(tokens[8])
 
 
-- 
2.43.0


From f17aa3f41463c78f61380657ebe3d5e8d3afaec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:21 +0000
Subject: [PATCH 12/19] fix: Do not look for comments in strings.

---
 pbtools/parser.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index 4c2b51a..a251103 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -80,13 +80,14 @@ def ignore_comments(string):
 
     comments = [
         (mo.start(), mo.group(0))
-        for mo in re.finditer(r'(/\*|\*/|//|\n)', string)
+        for mo in re.finditer(r'(/\*|\*/|//|\n|\\"|")', string)
     ]
 
     comments.sort()
 
     in_single_line_comment = False
     in_multi_line_comment = False
+    in_string = False
     start_offset = 0
     non_comment_offset = 0
     chunks = []
@@ -105,6 +106,11 @@ def ignore_comments(string):
                 offset += 2
                 chunks.append(' ' * (offset - start_offset))
                 non_comment_offset = offset
+        elif in_string:
+            if kind == '"':
+                in_string = False
+        elif kind == '"':
+            in_string = True
         elif kind == '//':
             in_single_line_comment = True
             start_offset = offset
-- 
2.43.0


From 1c3dfeaf0d39b5f233b56102cbd355bd36900494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:21 +0000
Subject: [PATCH 13/19] fix: Keep newlines in multi line comments.

The line numbers in error messages were too low after such comment.
---
 pbtools/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index a251103..efd02ed 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -104,7 +104,7 @@ def ignore_comments(string):
             elif kind == '*/':
                 in_multi_line_comment = False
                 offset += 2
-                chunks.append(' ' * (offset - start_offset))
+                chunks.append(re.sub(r'[^\n]', ' ', string[start_offset:offset]))
                 non_comment_offset = offset
         elif in_string:
             if kind == '"':
-- 
2.43.0


From 9631d83edef9f9307d32281a07b2a0e953025c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:21 +0000
Subject: [PATCH 14/19] fix: Classify types by the definition they refer to.

A type nested in a message was taken for a type with the same name in
an imported file of the same package, a type prefixed with a package
of more than one part was always taken for a message, and so was a type
that is not defined at all.
---
 pbtools/parser.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index efd02ed..ab6bd94 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -672,6 +672,9 @@ class Proto:
 
     def resolve_field_type(self, field):
         if field.namespace:
+            if field.package == self._package:
+                field.namespace = self.namespace_base()
+
             return
 
         for message in reversed(self.messages_stack):
@@ -725,20 +728,21 @@ class Proto:
             field.type_kind = 'message'
 
     def is_field_enum(self, field):
-        for imported in self._imports:
-            if field.package == imported.package:
-                if field.type in imported.enums:
-                    return True
-                elif field.type in imported.messages:
-                    return False
-
         if field.package == self._package:
             offset = len(self.namespace_base())
             type = self.lookup_type(field.namespace[offset:] + [field.type],
                                     self._enums,
                                     self._messages)
 
-            return isinstance(type, Enum)
+            if type is not None:
+                return isinstance(type, Enum)
+
+        for imported in self._imports:
+            if field.package == imported.package:
+                if field.type in imported.enums:
+                    return True
+                elif field.type in imported.messages:
+                    return False
 
         raise Error(f"'{field.type}' is not defined.")
 
-- 
2.43.0


From c0f29084ffab09e0e494c13cf9da88003a08db07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:21 +0000
Subject: [PATCH 15/19] fix: Define messages before the messages using them.

A message was inserted after the messages using it, but possibly
before the messages it uses itself, and the generated C header did
not compile.
---
 pbtools/parser.py | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index ab6bd94..460bd1f 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -782,7 +782,34 @@ class Proto:
 
             reversed_sorted_messages.insert(insert_index, message)
 
-        return list(reversed(reversed_sorted_messages))
+        sorted_messages = []
+
+        for message in reversed(reversed_sorted_messages):
+            self.insert_after_used_messages(message,
+                                            messages,
+                                            sorted_messages,
+                                            [])
+
+        return sorted_messages
+
+    def insert_after_used_messages(self,
+                                   message,
+                                   messages,
+                                   sorted_messages,
+                                   users):
+        if message in sorted_messages or message in users:
+            return
+
+        used_types = message.used_types()
+
+        for used_message in messages:
+            if used_message.full_name in used_types:
+                self.insert_after_used_messages(used_message,
+                                                messages,
+                                                sorted_messages,
+                                                users + [message])
+
+        sorted_messages.append(message)
 
 
 def load_message_type(tokens):
-- 
2.43.0


From 9d62b0645ab8f3af8966868d27ae4d17b01df92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:21 +0000
Subject: [PATCH 16/19] fix: Include the header generated for an import in a
 subdirectory.

Generated headers are named after the basename of the proto-file.
---
 pbtools/c_source/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pbtools/c_source/__init__.py b/pbtools/c_source/__init__.py
index 3881cef..8427256 100644
--- a/pbtools/c_source/__init__.py
+++ b/pbtools/c_source/__init__.py
@@ -1295,7 +1295,8 @@ class Generator:
         includes = []
 
         for imported in self.parsed.imports:
-            name = camel_to_snake_case(os.path.splitext(imported.path)[0])
+            basename = os.path.basename(imported.path)
+            name = camel_to_snake_case(os.path.splitext(basename)[0])
             includes.append(f'#include "{name}.h"')
 
         includes = '\n'.join(includes)
-- 
2.43.0


From 0c9df5761a8091d89cc79dd978b87ac04ec456ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:57 +0000
Subject: [PATCH 17/19] fix: Undefined behaviour in
 pbtools_error_code_to_string() for INT_MIN.

---
 lib/src/pbtools.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/pbtools.c b/lib/src/pbtools.c
index 40ef68a..a9f741e 100644
--- a/lib/src/pbtools.c
+++ b/lib/src/pbtools.c
@@ -2608,7 +2608,7 @@ const char *pbtools_error_code_to_string(int code)
 {
     const char *string_p;
 
-    if (code < 0) {
+    if ((code < 0) && (code >= -INT_MAX)) {
         code *= -1;
     }
 
-- 
2.43.0


From 78a005b190dfacb06e49d6d644b30e6e404a7467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:24 +0000
Subject: [PATCH 18/19] fix: Use the kind of a type, not its C name, to find
 scalar fields.

Without a package, a message or enum named, for example, String or Int32
got the member type of the scalar value type.
---
 pbtools/c_source/__init__.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/pbtools/c_source/__init__.py b/pbtools/c_source/__init__.py
index 8427256..6bf9280 100644
--- a/pbtools/c_source/__init__.py
+++ b/pbtools/c_source/__init__.py
@@ -708,7 +708,12 @@ class Generator:
         return self.parsed.package
 
     def generate_struct_member_fmt(self, type, name_snake_case, type_kind):
-        if type in ['int32', 'int64', 'uint32', 'uint64']:
+        if type_kind == 'enum':
+            type = f'enum {type}_e '
+        elif type_kind == 'message':
+            type = f'struct {type}_t *'
+            name_snake_case = f'{name_snake_case}_p'
+        elif type in ['int32', 'int64', 'uint32', 'uint64']:
             type = f'{type}_t '
         elif type in ['sint32', 'sint64']:
             type = f'{type[1:]}_t '
@@ -723,11 +728,6 @@ class Generator:
         elif type == 'string':
             type = f'char *'
             name_snake_case = f'{name_snake_case}_p'
-        elif type_kind == 'enum':
-            type = f'enum {type}_e '
-        elif type_kind == 'message':
-            type = f'struct {type}_t *'
-            name_snake_case = f'{name_snake_case}_p'
         else:
             type += ' '
 
@@ -736,7 +736,11 @@ class Generator:
     def generate_optional_struct_member_fmt(self, type, name_snake_case, type_kind):
         value_name_snake_case = 'value'
 
-        if type in ['int32', 'int64', 'uint32', 'uint64']:
+        if type_kind == 'enum':
+            type = f'enum {type}_e '
+        elif type_kind == 'message':
+            raise Exception('Only scalar value types may be optional.')
+        elif type in ['int32', 'int64', 'uint32', 'uint64']:
             type = f'{type}_t '
         elif type in ['sint32', 'sint64']:
             type = f'{type[1:]}_t '
@@ -751,8 +755,6 @@ class Generator:
         elif type == 'string':
             type = f'char *'
             value_name_snake_case = f'{value_name_snake_case}_p'
-        elif type_kind == 'enum':
-            type = f'enum {type}_e '
         else:
             raise Exception('Only scalar value types may be optional.')
 
@@ -765,7 +767,7 @@ class Generator:
                                             type,
                                             name_snake_case,
                                             type_kind):
-        if type in SCALAR_VALUE_TYPES:
+        if type_kind == 'scalar-value-type':
             if type in ['sint32', 'sint64']:
                 type = type[1:]
             elif type in ['fixed32', 'fixed64']:
-- 
2.43.0


From 07ff29c93f6fdf97e9e6064b79176c9aab726a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:12 +0000
Subject: [PATCH 19/19] fix: An escaped backslash before the end of a string is
 not an escaped quote

---
 pbtools/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index 460bd1f..f706def 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -80,7 +80,7 @@ def ignore_comments(string):
 
     comments = [
         (mo.start(), mo.group(0))
-        for mo in re.finditer(r'(/\*|\*/|//|\n|\\"|")', string)
+        for mo in re.finditer(r'(/\*|\*/|//|\n|\\\\|\\"|")', string)
     ]
 
     comments.sort()
@@ -165,7 +165,7 @@ class Parser(textparser.Parser):
             ('IDENT',         r'[a-zA-Z]\w*'),
             ('INT',           r'-?(0[xX][a-fA-F0-9]+|[0-9]+)'),
             ('PROTO3',        r'"proto3"'),
-            ('STRING',        r'"(\\"|[^"])*?"'),
+            ('STRING',        r'"(\\.|[^"\\])*"'),
             ('DOT',      '.', r'\.'),
             ('COMMA',    ',', r','),
             ('EQ',       '=', r'='),
-- 
2.43.0

