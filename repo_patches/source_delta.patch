From e785a579f545f052e1b6fb8bf19404f2fc24c74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:16 +0000
Subject: [PATCH 01/33] fix: Reject packed fixed size fields of bad length.

A packed fixed32/fixed64 (or sfixed, float, double) field whose length
is not a multiple of the item size made the decoder write one item
after the end of the allocated array.
---
 lib/src/pbtools.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/lib/src/pbtools.c b/lib/src/pbtools.c
index 3c3e857..6bf684a 100644
--- a/lib/src/pbtools.c
+++ b/lib/src/pbtools.c
@@ -1300,8 +1300,14 @@ static void repeated_info_decode_32bit(struct pbtools_repeated_info_t *self_p,
 
     case PBTOOLS_WIRE_TYPE_LENGTH_DELIMITED:
         size = (int)decoder_read_length_delimited(decoder_p, wire_type);
-        self_p->length += (size / 4);
-        decoder_seek(decoder_p, size);
+
+        if ((size % 4) == 0) {
+            self_p->length += (size / 4);
+            decoder_seek(decoder_p, size);
+        } else {
+            decoder_abort(decoder_p, PBTOOLS_OUT_OF_DATA);
+        }
+
         break;
 
     default:
@@ -1328,8 +1334,14 @@ static void repeated_info_decode_64bit(struct pbtools_repeated_info_t *self_p,
 
     case PBTOOLS_WIRE_TYPE_LENGTH_DELIMITED:
         size = (int)decoder_read_length_delimited(decoder_p, wire_type);
-        self_p->length += (size / 8);
-        decoder_seek(decoder_p, size);
+
+        if ((size % 8) == 0) {
+            self_p->length += (size / 8);
+            decoder_seek(decoder_p, size);
+        } else {
+            decoder_abort(decoder_p, PBTOOLS_OUT_OF_DATA);
+        }
+
         break;
 
     default:
-- 
2.43.0


From 42f2c7fdb0ef08309d8a40b8daa953ab0b46ed23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:50 +0000
Subject: [PATCH 02/33] fix: Do not truncate sizes in the heap allocator.

A request of 2^31 bytes or more became a negative int, so it was always
granted and moved the allocation position backwards. Reachable with a
negative length in X_alloc() and with a few bytes of input (an unpacked
item followed by a huge packed length of the same fixed32 field).
---
 lib/src/pbtools.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/src/pbtools.c b/lib/src/pbtools.c
index 6bf684a..6731fe6 100644
--- a/lib/src/pbtools.c
+++ b/lib/src/pbtools.c
@@ -77,13 +77,13 @@ static void *heap_alloc(struct pbtools_heap_t *self_p,
                         size_t alignment)
 {
     uintptr_t addr;
-    int left;
+    size_t left;
     size_t rest;
     size_t pad;
 
-    left = (self_p->size - self_p->pos);
+    left = (size_t)(self_p->size - self_p->pos);
 
-    if ((int)size <= left) {
+    if (size <= left) {
         addr = (uintptr_t)&self_p->buf_p[self_p->pos];
         rest = (addr & (alignment - 1));
 
@@ -93,7 +93,7 @@ static void *heap_alloc(struct pbtools_heap_t *self_p,
             pad = (alignment - rest);
             size += pad;
 
-            if ((int)size <= left) {
+            if (size <= left) {
                 addr += pad;
                 self_p->pos += (int)size;
             } else {
-- 
2.43.0


From 25e767521267f6b06b959b804e31fd58317da539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:50 +0000
Subject: [PATCH 03/33] fix: Report out of memory for repeated messages.

Decoding a repeated message field that does not fit in the workspace
succeeded without the field.
---
 lib/src/pbtools.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/pbtools.c b/lib/src/pbtools.c
index 6731fe6..92b8520 100644
--- a/lib/src/pbtools.c
+++ b/lib/src/pbtools.c
@@ -2492,6 +2492,8 @@ void pbtools_decode_repeated_inner(
                                  message_init);
 
     if (res != 0) {
+        decoder_abort(decoder_p, PBTOOLS_OUT_OF_MEMORY);
+
         return;
     }
 
-- 
2.43.0


From 29e88ddac8862133eb7fa3f61bd07c83ea409a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:50 +0000
Subject: [PATCH 04/33] fix: Encode into a buffer of exactly the encoded size.

One byte of the buffer was never used, so a message that fitted exactly
was reported as not fitting, and encoding an empty message to an empty
buffer returned -1.
---
 lib/src/pbtools.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/src/pbtools.c b/lib/src/pbtools.c
index 92b8520..e14f991 100644
--- a/lib/src/pbtools.c
+++ b/lib/src/pbtools.c
@@ -113,7 +113,7 @@ static void encoder_init(struct pbtools_encoder_t *self_p,
 {
     self_p->buf_p = buf_p;
     self_p->size = (int)size;
-    self_p->pos = ((int)size - 1);
+    self_p->pos = (int)size;
 }
 
 static int encoder_get_result(struct pbtools_encoder_t *self_p)
@@ -121,9 +121,9 @@ static int encoder_get_result(struct pbtools_encoder_t *self_p)
     int length;
 
     if (self_p->pos >= 0) {
-        length = (self_p->size - self_p->pos - 1);
+        length = (self_p->size - self_p->pos);
         memmove(self_p->buf_p,
-                &self_p->buf_p[self_p->pos + 1],
+                &self_p->buf_p[self_p->pos],
                 (size_t)length);
     } else {
         length = self_p->pos;
@@ -147,7 +147,7 @@ static void encoder_write(struct pbtools_encoder_t *self_p,
 {
     if (self_p->pos >= size) {
         self_p->pos -= size;
-        memcpy(&self_p->buf_p[self_p->pos + 1], buf_p, (size_t)size);
+        memcpy(&self_p->buf_p[self_p->pos], buf_p, (size_t)size);
     } else {
         encoder_abort(self_p, PBTOOLS_ENCODE_BUFFER_FULL);
     }
-- 
2.43.0


From 3d8fe5cefd1e2b5e42c170609d378bfce290fe23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:50 +0000
Subject: [PATCH 05/33] fix: Decode bool from all bits of the varint.

Only the low 32 bits were used, unlike for repeated bool.
---
 lib/src/pbtools.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/pbtools.c b/lib/src/pbtools.c
index e14f991..6c9fe31 100644
--- a/lib/src/pbtools.c
+++ b/lib/src/pbtools.c
@@ -1200,7 +1200,7 @@ double pbtools_decoder_read_double(struct pbtools_decoder_t *self_p,
 bool pbtools_decoder_read_bool(struct pbtools_decoder_t *self_p,
                                int wire_type)
 {
-    return (pbtools_decoder_read_int32(self_p, wire_type) != 0);
+    return (pbtools_decoder_read_uint64(self_p, wire_type) != 0);
 }
 
 int pbtools_decoder_read_enum(struct pbtools_decoder_t *self_p,
-- 
2.43.0


From 56bc6d3ba7ac37668e7f244bb7a11549d7a6cde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:50 +0000
Subject: [PATCH 06/33] fix: Keep a repeated field when allocating it again
 fails.

The items pointer was cleared while the length was kept, so encoding or
reading the field after a failed allocation used a null pointer.
---
 lib/src/pbtools.c | 38 +++++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/lib/src/pbtools.c b/lib/src/pbtools.c
index 6c9fe31..7df699e 100644
--- a/lib/src/pbtools.c
+++ b/lib/src/pbtools.c
@@ -1438,15 +1438,17 @@ static int calloc_repeated(struct pbtools_message_base_t *self_p,
                            size_t item_size)
 {
     size_t size;
+    void *items_p;
 
     size = (item_size * (size_t)length);
-    repeated_p->items_p = heap_alloc(self_p->heap_p, size, alignof(uint64_t));
+    items_p = heap_alloc(self_p->heap_p, size, alignof(uint64_t));
 
-    if (repeated_p->items_p == NULL) {
+    if (items_p == NULL) {
         return (-1);
     }
 
-    memset(repeated_p->items_p, 0, size);
+    memset(items_p, 0, size);
+    repeated_p->items_p = items_p;
     repeated_p->length = length;
 
     return (0);
@@ -1510,20 +1512,22 @@ static void decoder_decode_repeated(
     int wire_type;
     int tag;
     int index;
+    void *items_p;
 
     if (repeated_info_p->length == 0) {
         return;
     }
 
-    repeated_p->items_p = decoder_heap_alloc(
+    items_p = decoder_heap_alloc(
         self_p,
         item_size * (size_t)repeated_info_p->length,
         alignof(uint64_t));
 
-    if (repeated_p->items_p == NULL) {
+    if (items_p == NULL) {
         return;
     }
 
+    repeated_p->items_p = items_p;
     repeated_p->length = repeated_info_p->length;
     index = read_repeated(&repeated_info_p->decoder,
                           repeated_info_p->wire_type,
@@ -2180,19 +2184,21 @@ int pbtools_alloc_repeated_string(struct pbtools_message_base_t *self_p,
                                   struct pbtools_repeated_string_t *repeated_p)
 {
     int pos;
+    char **items_pp;
 
-    repeated_p->items_pp = heap_alloc(self_p->heap_p,
-                                      sizeof(*repeated_p->items_pp) * (size_t)length,
-                                      alignof(uint64_t));
+    items_pp = heap_alloc(self_p->heap_p,
+                          sizeof(*items_pp) * (size_t)length,
+                          alignof(uint64_t));
 
-    if (repeated_p->items_pp == NULL) {
+    if (items_pp == NULL) {
         return (-1);
     }
 
     for (pos = 0; pos < length; pos++) {
-        repeated_p->items_pp[pos] = "";
+        items_pp[pos] = "";
     }
 
+    repeated_p->items_pp = items_pp;
     repeated_p->length = length;
 
     return (0);
@@ -2402,17 +2408,19 @@ int pbtools_alloc_repeated(
     pbtools_message_init_t message_init)
 {
     int i;
+    void *items_p;
     char *item_p;
 
-    repeated_p->items_p = heap_alloc(heap_p,
-                                     item_size * (size_t)length,
-                                     alignof(uint64_t));
+    items_p = heap_alloc(heap_p,
+                         item_size * (size_t)length,
+                         alignof(uint64_t));
 
-    if (repeated_p->items_p == NULL) {
+    if (items_p == NULL) {
         return (-1);
     }
 
-    item_p = repeated_p->items_p;
+    repeated_p->items_p = items_p;
+    item_p = items_p;
 
     for (i = 0; i < length; i++) {
         message_init(item_p, heap_p);
-- 
2.43.0


From eaafb3ad4d7af8d98e42fec1a64391445458b961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:20 +0000
Subject: [PATCH 07/33] fix: Parse hexadecimal and octal integers.

---
 pbtools/parser.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index 3437d9c..6e44c7c 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -53,6 +53,21 @@ def camel_to_snake_case(value):
     return value
 
 
+def load_int(value):
+    """Decimal, hexadecimal (0x...) and octal (0...) integers.
+
+    """
+
+    digits = value.lstrip('-')
+
+    if digits[:2] in ['0x', '0X']:
+        return int(value, 16)
+    elif digits.startswith('0'):
+        return int(value, 8)
+    else:
+        return int(value)
+
+
 def format_parse_error(string, offset):
     return str(ParseError(string, offset))
 
@@ -307,7 +322,7 @@ class Option:
         elif kind == 'ident':
             value = value[0]
         elif kind == 'integer':
-            value = int(value[0])
+            value = load_int(value)
 
         self.kind = kind
         self.value = value
@@ -317,7 +332,7 @@ class EnumField:
 
     def __init__(self, tokens):
         self.name = tokens[0]
-        self.field_number = int(tokens[2])
+        self.field_number = load_int(tokens[2])
 
     @property
     def name_snake_case(self):
@@ -352,7 +367,7 @@ class OneofField(Field):
     def __init__(self, tokens):
         super().__init__(load_message_type(tokens[0]),
                          tokens[1],
-                         int(tokens[3]))
+                         load_int(tokens[3]))
 
 
 class Oneof:
@@ -396,7 +411,7 @@ class MessageField(Field):
 
         return cls(load_message_type(tokens[1]),
                    tokens[2],
-                   int(tokens[4]),
+                   load_int(tokens[4]),
                    repeated,
                    optional)
 
@@ -437,7 +452,7 @@ class Message:
         key_type = tokens[2]
         value_type = load_message_type(tokens[4])[-1]
         name = tokens[6]
-        field_number = int(tokens[8])
+        field_number = load_int(tokens[8])
         map_type = f'PbtoolsMap{name.title()}'
         map_message_tokens = [
             'message',
-- 
2.43.0


From 8884575bb5daf9f791485fa47705acf84643c623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:30 +0000
Subject: [PATCH 08/33] fix: Accept empty statements in enums and oneofs.

---
 pbtools/parser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index 6e44c7c..35f1159 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -347,7 +347,8 @@ class Enum:
         self.namespace = namespace
 
         for item in tokens[3]:
-            self.fields.append(EnumField(item))
+            if item != ';':
+                self.fields.append(EnumField(item))
 
     @property
     def namespace_snake_case(self):
@@ -378,7 +379,8 @@ class Oneof:
         self.namespace = namespace
 
         for item in tokens[3]:
-            self.fields.append(OneofField(item))
+            if item != ';':
+                self.fields.append(OneofField(item))
 
     @property
     def full_name(self):
-- 
2.43.0


From 6c0f83f75424cac748bf217e9c8b38f18bcbf233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:14 +0000
Subject: [PATCH 09/33] fix: Ignore options in services.

---
 pbtools/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index 35f1159..1d19e1d 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -528,7 +528,7 @@ class Service:
 
             if kind == 'rpc':
                 self.rpcs.append(Rpc(item))
-            elif kind == ';':
+            elif kind in ['option', ';']:
                 pass
             else:
                 raise InternalError(kind)
-- 
2.43.0


From 9c1aca6e11db9d1208eea385ba88b8137918a7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:56 +0000
Subject: [PATCH 10/33] fix: Keep all parts of dotted rpc types and option
 values.

---
 pbtools/parser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index 1d19e1d..d08b466 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -320,7 +320,7 @@ class Option:
         elif kind == 'bool':
             value = (value == 'true')
         elif kind == 'ident':
-            value = value[0]
+            value = '.'.join(value)
         elif kind == 'integer':
             value = load_int(value)
 
@@ -511,9 +511,9 @@ class Rpc:
 
     def __init__(self, tokens):
         self.name = tokens[1]
-        self.request_type = tokens[4][1][0]
+        self.request_type = '.'.join(tokens[4][1])
         self.request_stream = bool(tokens[3])
-        self.response_type = tokens[9][1][0]
+        self.response_type = '.'.join(tokens[9][1])
         self.response_stream = bool(tokens[8])
 
 
-- 
2.43.0


From 28c59266fe465dafdddfc53afc2dae8fa3056d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:40 +0000
Subject: [PATCH 11/33] fix: Keep the package of map value types.

---
 pbtools/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index d08b466..b0e4fe9 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -452,7 +452,7 @@ class Message:
 
     def _load_map(self, tokens, sub_namespace):
         key_type = tokens[2]
-        value_type = load_message_type(tokens[4])[-1]
+        value_type = tokens[4]
         name = tokens[6]
         field_number = load_int(tokens[8])
         map_type = f'PbtoolsMap{name.title()}'
@@ -460,7 +460,7 @@ class Message:
             'message',
             map_type, '{', [
                 ('field', [[], [[], [key_type]], 'key', '=', '1', [], ';']),
-                ('field', [[], [[], [value_type]], 'value', '=', '2', [], ';'])
+                ('field', [[], value_type, 'value', '=', '2', [], ';'])
             ], '}'
         ]
         self.messages.append(Message(map_message_tokens, sub_namespace))
-- 
2.43.0


From 365a1aceef11a3506d74dd56fb7b42902c1d6f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:21 +0000
Subject: [PATCH 12/33] fix: Include headers of imports in subdirectories by
 file name.

---
 pbtools/c_source/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pbtools/c_source/__init__.py b/pbtools/c_source/__init__.py
index 3881cef..8427256 100644
--- a/pbtools/c_source/__init__.py
+++ b/pbtools/c_source/__init__.py
@@ -1295,7 +1295,8 @@ class Generator:
         includes = []
 
         for imported in self.parsed.imports:
-            name = camel_to_snake_case(os.path.splitext(imported.path)[0])
+            basename = os.path.basename(imported.path)
+            name = camel_to_snake_case(os.path.splitext(basename)[0])
             includes.append(f'#include "{name}.h"')
 
         includes = '\n'.join(includes)
-- 
2.43.0


From 5746d054fba44dbd82eb53cf2ba1718be6562f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:01 +0000
Subject: [PATCH 13/33] fix: Find the declaration of a type and reject
 undefined types.

---
 pbtools/parser.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index b0e4fe9..c7b2246 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -667,6 +667,9 @@ class Proto:
 
     def resolve_field_type(self, field):
         if field.namespace:
+            if field.package == self._package:
+                field.namespace = self.namespace_base()
+
             return
 
         for message in reversed(self.messages_stack):
@@ -720,20 +723,21 @@ class Proto:
             field.type_kind = 'message'
 
     def is_field_enum(self, field):
-        for imported in self._imports:
-            if field.package == imported.package:
-                if field.type in imported.enums:
-                    return True
-                elif field.type in imported.messages:
-                    return False
-
         if field.package == self._package:
             offset = len(self.namespace_base())
             type = self.lookup_type(field.namespace[offset:] + [field.type],
                                     self._enums,
                                     self._messages)
 
-            return isinstance(type, Enum)
+            if type is not None:
+                return isinstance(type, Enum)
+
+        for imported in self._imports:
+            if field.package == imported.package:
+                if field.type in imported.enums:
+                    return True
+                elif field.type in imported.messages:
+                    return False
 
         raise Error(f"'{field.type}' is not defined.")
 
-- 
2.43.0


From 1832a376f084d67a236f3c02ab08e96bb6927636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:55 +0000
Subject: [PATCH 14/33] fix: Do not search the scopes for names with a leading
 dot.

---
 pbtools/parser.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index c7b2246..d62829b 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -281,8 +281,9 @@ class Parser(textparser.Parser):
 
 class Field:
 
-    def __init__(self, type, name, field_number):
+    def __init__(self, type, name, field_number, absolute=False):
         self.type = type[-1]
+        self.absolute = absolute
         self.name = name
         self.field_number = field_number
         self.namespace = type[:-1]
@@ -368,7 +369,8 @@ class OneofField(Field):
     def __init__(self, tokens):
         super().__init__(load_message_type(tokens[0]),
                          tokens[1],
-                         load_int(tokens[3]))
+                         load_int(tokens[3]),
+                         bool(tokens[0][0]))
 
 
 class Oneof:
@@ -397,8 +399,14 @@ class Oneof:
 
 class MessageField(Field):
 
-    def __init__(self, type, name, field_number, repeated, optional):
-        super().__init__(type, name, field_number)
+    def __init__(self,
+                 type,
+                 name,
+                 field_number,
+                 repeated,
+                 optional,
+                 absolute=False):
+        super().__init__(type, name, field_number, absolute)
         self.repeated = repeated
         self.optional = optional
 
@@ -415,7 +423,8 @@ class MessageField(Field):
                    tokens[2],
                    load_int(tokens[4]),
                    repeated,
-                   optional)
+                   optional,
+                   bool(tokens[1][0]))
 
 
 class Message:
@@ -672,6 +681,11 @@ class Proto:
 
             return
 
+        if field.absolute:
+            field.package = None
+
+            return
+
         for message in reversed(self.messages_stack):
             if field.type in message.type_names:
                 namespace = message.namespace + [message.name]
-- 
2.43.0


From 2ffff0af5a878d5aa022efdd50eb5526007a045f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:29 +0000
Subject: [PATCH 15/33] fix: Comment markers in strings are not comments.

---
 pbtools/parser.py | 62 ++++++++++++-----------------------------------
 1 file changed, 16 insertions(+), 46 deletions(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index d62829b..1c64a75 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -78,53 +78,23 @@ def ignore_comments(string):
 
     """
 
-    comments = [
-        (mo.start(), mo.group(0))
-        for mo in re.finditer(r'(/\*|\*/|//|\n)', string)
-    ]
+    def replace(mo):
+        text = mo.group(0)
+
+        if text[0] == '"':
+            return text
+
+        if text[:2] == '/*':
+            if not mo.group('end') or '/*' in re.findall(r'//|/\*', text[2:]):
+                raise Error(format_parse_error(string, mo.start()))
+
+        return re.sub(r'[^\n]', ' ', text)
 
-    comments.sort()
-
-    in_single_line_comment = False
-    in_multi_line_comment = False
-    start_offset = 0
-    non_comment_offset = 0
-    chunks = []
-
-    for offset, kind in comments:
-        if in_single_line_comment:
-            if kind == '\n':
-                in_single_line_comment = False
-                chunks.append(' ' * (offset - start_offset))
-                non_comment_offset = offset
-        elif in_multi_line_comment:
-            if kind == '/*':
-                raise Error(format_parse_error(string, start_offset))
-            elif kind == '*/':
-                in_multi_line_comment = False
-                offset += 2
-                chunks.append(' ' * (offset - start_offset))
-                non_comment_offset = offset
-        elif kind == '//':
-            in_single_line_comment = True
-            start_offset = offset
-            chunks.append(string[non_comment_offset:start_offset])
-        elif kind == '/*':
-            in_multi_line_comment = True
-            start_offset = offset
-            chunks.append(string[non_comment_offset:start_offset])
-
-    if in_single_line_comment:
-        offset = len(string)
-        chunks.append(' ' * (offset - start_offset))
-        non_comment_offset = offset
-
-    if in_multi_line_comment:
-        raise Error(format_parse_error(string, start_offset))
-
-    chunks.append(string[non_comment_offset:])
-
-    return ''.join(chunks)
+    return re.sub(r'"(\\.|[^"\\\n])*"'
+                  r'|//[^\n]*'
+                  r'|/\*((.|\n)*?(?P<end>\*/))?',
+                  replace,
+                  string)
 
 
 class Parser(textparser.Parser):
-- 
2.43.0


From f6a333410a8e665311c493fd6de03184221c67ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:04 +0000
Subject: [PATCH 16/33] fix: An escaped backslash does not escape the end of a
 string.

---
 pbtools/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index 1c64a75..b0a07e8 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -129,7 +129,7 @@ class Parser(textparser.Parser):
             ('IDENT',         r'[a-zA-Z]\w*'),
             ('INT',           r'-?(0[xX][a-fA-F0-9]+|[0-9]+)'),
             ('PROTO3',        r'"proto3"'),
-            ('STRING',        r'"(\\"|[^"])*?"'),
+            ('STRING',        r'"(\\.|[^"\\\n])*"'),
             ('DOT',      '.', r'\.'),
             ('COMMA',    ',', r','),
             ('EQ',       '=', r'='),
-- 
2.43.0


From 471d60d74b7031aee4881a569326b1b4d8fac18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:43 +0000
Subject: [PATCH 17/33] fix: Ignore options in messages, enums and oneofs.

---
 pbtools/parser.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index b0a07e8..a51914b 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -181,15 +181,19 @@ class Parser(textparser.Parser):
         enum = Sequence('enum',
                         ident,
                         '{',
-                        ZeroOrMore(choice(enum_field, empty_statement)),
+                        ZeroOrMore(choice(option,
+                                          Tag('field', enum_field),
+                                          empty_statement)),
                         '}')
 
         # Oneof.
-        oneof_field = Sequence(message_type, ident, '=', 'INT', ';')
+        oneof_field = Sequence(message_type, ident, '=', 'INT', options, ';')
         oneof = Sequence('oneof',
                          ident,
                          '{',
-                         ZeroOrMore(choice(oneof_field, empty_statement)),
+                         ZeroOrMore(choice(option,
+                                           Tag('field', oneof_field),
+                                           empty_statement)),
                          '}')
 
         # Map.
@@ -210,7 +214,8 @@ class Parser(textparser.Parser):
         message <<= Sequence('message',
                              ident,
                              '{',
-                             ZeroOrMore(choice(Tag('field', field),
+                             ZeroOrMore(choice(option,
+                                               Tag('field', field),
                                                enum,
                                                message,
                                                oneof,
@@ -318,8 +323,8 @@ class Enum:
         self.namespace = namespace
 
         for item in tokens[3]:
-            if item != ';':
-                self.fields.append(EnumField(item))
+            if item[0] == 'field':
+                self.fields.append(EnumField(item[1]))
 
     @property
     def namespace_snake_case(self):
@@ -351,8 +356,8 @@ class Oneof:
         self.namespace = namespace
 
         for item in tokens[3]:
-            if item != ';':
-                self.fields.append(OneofField(item))
+            if item[0] == 'field':
+                self.fields.append(OneofField(item[1]))
 
     @property
     def full_name(self):
@@ -424,7 +429,7 @@ class Message:
                 self.oneofs.append(Oneof(item, sub_namespace))
             elif kind == 'map':
                 self._load_map(item, sub_namespace)
-            elif kind in ['reserved', ';']:
+            elif kind in ['reserved', 'option', ';']:
                 pass
             else:
                 raise InternalError(kind)
-- 
2.43.0


From 4cf5049f50efcdfe9ac973fc42fd3ed79557555c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:55 +0000
Subject: [PATCH 18/33] fix: Define repeated structs before they are used.

---
 pbtools/c_source/__init__.py | 42 +++++++++++++++++++++++++++++-------
 1 file changed, 34 insertions(+), 8 deletions(-)

diff --git a/pbtools/c_source/__init__.py b/pbtools/c_source/__init__.py
index 8427256..5f2ccc9 100644
--- a/pbtools/c_source/__init__.py
+++ b/pbtools/c_source/__init__.py
@@ -105,8 +105,7 @@ MESSAGE_STRUCT_FMT = '''\
 /**
  * Message {message.full_name}.
  */
-{repeated_struct}
-
+{repeated_structs}\
 struct {message.full_name_snake_case}_t {{
     struct pbtools_message_base_t base;
 {members}\
@@ -114,10 +113,11 @@ struct {message.full_name_snake_case}_t {{
 '''
 
 REPEATED_MESSAGE_STRUCT_FMT = '''\
-struct {message.full_name_snake_case}_repeated_t {{
+struct {name}_repeated_t {{
     int length;
-    struct {message.full_name_snake_case}_t *items_p;
-}};\
+    struct {name}_t *items_p;
+}};
+
 '''
 
 ENUM_FMT = '''\
@@ -698,6 +698,8 @@ class Generator:
         self.parsed = parsed
         self.header_name = header_name
         self.enums_upper_case = options.enums_upper_case
+        self.local_names = self.message_names(parsed.messages)
+        self.defined_names = set()
 
     @property
     def messages(self):
@@ -707,6 +709,15 @@ class Generator:
     def package(self):
         return self.parsed.package
 
+    def message_names(self, messages):
+        names = []
+
+        for message in messages:
+            names.append(message.full_name_snake_case)
+            names += self.message_names(message.messages)
+
+        return names
+
     def generate_struct_member_fmt(self, type, name_snake_case, type_kind):
         if type in ['int32', 'int64', 'uint32', 'uint64']:
             type = f'{type}_t '
@@ -815,8 +826,23 @@ class Generator:
 
         return members
 
-    def generate_repeated_struct(self, message):
-        return REPEATED_MESSAGE_STRUCT_FMT.format(message=message)
+    def generate_repeated_structs(self, message):
+        # A repeated field needs the struct of its type, which may be
+        # of a message that can't be defined before this one.
+        names = [message.full_name_snake_case]
+        names += [
+            field.full_type_snake_case
+            for field in message.repeated_fields
+            if field.type_kind == 'message'
+        ]
+        structs = []
+
+        for name in names:
+            if name in self.local_names and name not in self.defined_names:
+                self.defined_names.add(name)
+                structs.append(REPEATED_MESSAGE_STRUCT_FMT.format(name=name))
+
+        return ''.join(structs)
 
     def generate_enum_members(self, enum):
         lines = []
@@ -883,7 +909,7 @@ class Generator:
         types += [
             MESSAGE_STRUCT_FMT.format(
                 message=message,
-                repeated_struct=self.generate_repeated_struct(message),
+                repeated_structs=self.generate_repeated_structs(message),
                 members=self.generate_struct_members(message))
         ]
 
-- 
2.43.0


From 2b6a632238d2286d03dff717bcf6024e77e677d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:12 +0000
Subject: [PATCH 19/33] fix: Require a semicolon after import and reserved.

---
 pbtools/parser.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index a51914b..6150f0a 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -168,7 +168,8 @@ class Parser(textparser.Parser):
         # Import.
         import_ = Sequence('import',
                            Optional(choice('weak', 'public')),
-                           'STRING')
+                           'STRING',
+                           ';')
 
         # Package.
         package = Sequence('package', full_ident, ';')
@@ -204,8 +205,10 @@ class Parser(textparser.Parser):
         field_number_range = Sequence('INT',
                                       Optional(Sequence('to',
                                                         choice('INT', 'max'))))
-        reserved = Sequence('reserved', choice(DelimitedList(field_number_range),
-                                               DelimitedList('STRING')))
+        reserved = Sequence('reserved',
+                            choice(DelimitedList(field_number_range),
+                                   DelimitedList('STRING')),
+                            ';')
 
         # Message.
         field = Sequence(Optional(choice('repeated', 'optional')),
-- 
2.43.0


From 941738fc8697835904f2d511d009f88d1fa88c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:32 +0000
Subject: [PATCH 20/33] fix: Reject qualified names of scalar value types.

---
 pbtools/parser.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index 6150f0a..491a298 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -280,6 +280,10 @@ class Field:
     def name_snake_case(self):
         return camel_to_snake_case(self.name)
 
+    @property
+    def is_scalar_value_type(self):
+        return not self.absolute and self.full_type in SCALAR_VALUE_TYPES
+
 
 class Option:
 
@@ -635,7 +639,7 @@ class Proto:
         self.messages_stack.append(message)
 
         for field in message.fields:
-            if field.type in SCALAR_VALUE_TYPES:
+            if field.is_scalar_value_type:
                 continue
 
             self.resolve_field_type(field)
@@ -645,7 +649,7 @@ class Proto:
 
         for oneof in message.oneofs:
             for field in oneof.fields:
-                if field.type in SCALAR_VALUE_TYPES:
+                if field.is_scalar_value_type:
                     continue
 
                 self.resolve_field_type(field)
@@ -707,7 +711,7 @@ class Proto:
         self.messages_stack.pop()
 
     def resolve_field_type_kind(self, field):
-        if field.type in SCALAR_VALUE_TYPES:
+        if field.is_scalar_value_type:
             field.type_kind = 'scalar-value-type'
         elif self.is_field_enum(field):
             field.type_kind = 'enum'
-- 
2.43.0


From cba700854d571c65c2bb9725f8a35588c37f74d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:04 +0000
Subject: [PATCH 21/33] fix: Reject files that end in the middle of a
 statement.

---
 pbtools/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index 491a298..5d5fe22 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -252,7 +252,8 @@ class Parser(textparser.Parser):
                                                package,
                                                option,
                                                top_level_def,
-                                               empty_statement)))
+                                               empty_statement)),
+                         '__EOF__')
 
         return proto
 
-- 
2.43.0


From f8058372588f7b1ef26d2799d7745a3729fed4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:17 +0000
Subject: [PATCH 22/33] fix: Message and enum types named like scalar value
 types.

---
 pbtools/c_source/__init__.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/pbtools/c_source/__init__.py b/pbtools/c_source/__init__.py
index 5f2ccc9..0790de2 100644
--- a/pbtools/c_source/__init__.py
+++ b/pbtools/c_source/__init__.py
@@ -1,6 +1,5 @@
 import os
 
-from ..parser import SCALAR_VALUE_TYPES
 from ..parser import camel_to_snake_case
 from ..parser import parse_file
 
@@ -719,7 +718,12 @@ class Generator:
         return names
 
     def generate_struct_member_fmt(self, type, name_snake_case, type_kind):
-        if type in ['int32', 'int64', 'uint32', 'uint64']:
+        if type_kind == 'enum':
+            type = f'enum {type}_e '
+        elif type_kind == 'message':
+            type = f'struct {type}_t *'
+            name_snake_case = f'{name_snake_case}_p'
+        elif type in ['int32', 'int64', 'uint32', 'uint64']:
             type = f'{type}_t '
         elif type in ['sint32', 'sint64']:
             type = f'{type[1:]}_t '
@@ -734,11 +738,6 @@ class Generator:
         elif type == 'string':
             type = f'char *'
             name_snake_case = f'{name_snake_case}_p'
-        elif type_kind == 'enum':
-            type = f'enum {type}_e '
-        elif type_kind == 'message':
-            type = f'struct {type}_t *'
-            name_snake_case = f'{name_snake_case}_p'
         else:
             type += ' '
 
@@ -747,7 +746,11 @@ class Generator:
     def generate_optional_struct_member_fmt(self, type, name_snake_case, type_kind):
         value_name_snake_case = 'value'
 
-        if type in ['int32', 'int64', 'uint32', 'uint64']:
+        if type_kind == 'enum':
+            type = f'enum {type}_e '
+        elif type_kind == 'message':
+            raise Exception('Only scalar value types may be optional.')
+        elif type in ['int32', 'int64', 'uint32', 'uint64']:
             type = f'{type}_t '
         elif type in ['sint32', 'sint64']:
             type = f'{type[1:]}_t '
@@ -762,8 +765,6 @@ class Generator:
         elif type == 'string':
             type = f'char *'
             value_name_snake_case = f'{value_name_snake_case}_p'
-        elif type_kind == 'enum':
-            type = f'enum {type}_e '
         else:
             raise Exception('Only scalar value types may be optional.')
 
@@ -776,7 +777,7 @@ class Generator:
                                             type,
                                             name_snake_case,
                                             type_kind):
-        if type in SCALAR_VALUE_TYPES:
+        if type_kind == 'scalar-value-type':
             if type in ['sint32', 'sint64']:
                 type = type[1:]
             elif type in ['fixed32', 'fixed64']:
-- 
2.43.0


From 42f3328cba1d932488096d96341257e54e6a7c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:51 +0000
Subject: [PATCH 23/33] fix: letters and digits outside ASCII were accepted in
 names

---
 pbtools/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index 5d5fe22..456a387 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -126,7 +126,7 @@ class Parser(textparser.Parser):
     def token_specs(self):
         return [
             ('SKIP',          r'[ \r\n\t]+|//.*?\n'),
-            ('IDENT',         r'[a-zA-Z]\w*'),
+            ('IDENT',         r'[a-zA-Z][a-zA-Z0-9_]*'),
             ('INT',           r'-?(0[xX][a-fA-F0-9]+|[0-9]+)'),
             ('PROTO3',        r'"proto3"'),
             ('STRING',        r'"(\\.|[^"\\\n])*"'),
-- 
2.43.0


From ad75431e3dfc993be41b1e4d413ff41b90e062c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:50 +0000
Subject: [PATCH 24/33] fix: a line break after a backslash was accepted in
 strings

---
 pbtools/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index 456a387..8775529 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -129,7 +129,7 @@ class Parser(textparser.Parser):
             ('IDENT',         r'[a-zA-Z][a-zA-Z0-9_]*'),
             ('INT',           r'-?(0[xX][a-fA-F0-9]+|[0-9]+)'),
             ('PROTO3',        r'"proto3"'),
-            ('STRING',        r'"(\\.|[^"\\\n])*"'),
+            ('STRING',        r'"(\\[^\n]|[^"\\\n])*"'),
             ('DOT',      '.', r'\.'),
             ('COMMA',    ',', r','),
             ('EQ',       '=', r'='),
-- 
2.43.0


From da990886a374a3ed325f92abab6d6277931d7d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:49 +0000
Subject: [PATCH 25/33] fix: Buffers larger than INT_MAX can be encoded into.

---
 lib/src/pbtools.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/src/pbtools.c b/lib/src/pbtools.c
index 7df699e..ef00abd 100644
--- a/lib/src/pbtools.c
+++ b/lib/src/pbtools.c
@@ -111,6 +111,10 @@ static void encoder_init(struct pbtools_encoder_t *self_p,
                          uint8_t *buf_p,
                          size_t  size)
 {
+    if (size > INT_MAX) {
+        size = INT_MAX;
+    }
+
     self_p->buf_p = buf_p;
     self_p->size = (int)size;
     self_p->pos = (int)size;
-- 
2.43.0


From 0f94b86ab620596decb6515f5bc1ffc63db0ea54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:36 +0000
Subject: [PATCH 26/33] fix: Strings and bytes larger than INT_MAX do not fit
 in the encode buffer.

---
 lib/src/pbtools.c | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/lib/src/pbtools.c b/lib/src/pbtools.c
index ef00abd..5463a90 100644
--- a/lib/src/pbtools.c
+++ b/lib/src/pbtools.c
@@ -147,11 +147,11 @@ static void encoder_abort(struct pbtools_encoder_t *self_p,
 
 static void encoder_write(struct pbtools_encoder_t *self_p,
                           uint8_t *buf_p,
-                          int size)
+                          size_t size)
 {
-    if (self_p->pos >= size) {
-        self_p->pos -= size;
-        memcpy(&self_p->buf_p[self_p->pos], buf_p, (size_t)size);
+    if ((self_p->pos >= 0) && ((size_t)self_p->pos >= size)) {
+        self_p->pos -= (int)size;
+        memcpy(&self_p->buf_p[self_p->pos], buf_p, size);
     } else {
         encoder_abort(self_p, PBTOOLS_ENCODE_BUFFER_FULL);
     }
@@ -171,7 +171,7 @@ static void encoder_write_varint(struct pbtools_encoder_t *self_p,
     } while (value > 0);
 
     buf[pos - 1] &= 0x7f;
-    encoder_write(self_p, &buf[0], pos);
+    encoder_write(self_p, &buf[0], (size_t)pos);
 }
 
 static void encoder_write_tag(struct pbtools_encoder_t *self_p,
@@ -429,7 +429,7 @@ void pbtools_encoder_write_string(struct pbtools_encoder_t *self_p,
     length = strlen(value_p);
 
     if (length > 0) {
-        encoder_write(self_p, (uint8_t *)value_p, (int)length);
+        encoder_write(self_p, (uint8_t *)value_p, length);
         encoder_write_tagged_varint(self_p,
                                     field_number,
                                     PBTOOLS_WIRE_TYPE_LENGTH_DELIMITED,
@@ -442,7 +442,7 @@ void pbtools_encoder_write_bytes(struct pbtools_encoder_t *self_p,
                                  struct pbtools_bytes_t *value_p)
 {
     if (value_p->size > 0) {
-        encoder_write(self_p, value_p->buf_p, (int)value_p->size);
+        encoder_write(self_p, value_p->buf_p, value_p->size);
         encoder_write_tagged_varint(self_p,
                                     field_number,
                                     PBTOOLS_WIRE_TYPE_LENGTH_DELIMITED,
@@ -580,7 +580,7 @@ void pbtools_encoder_write_string_always(struct pbtools_encoder_t *self_p,
     size_t length;
 
     length = strlen(value_p);
-    encoder_write(self_p, (uint8_t *)value_p, (int)length);
+    encoder_write(self_p, (uint8_t *)value_p, length);
     encoder_write_tagged_varint_always(self_p,
                                        field_number,
                                        PBTOOLS_WIRE_TYPE_LENGTH_DELIMITED,
@@ -591,7 +591,7 @@ void pbtools_encoder_write_bytes_always(struct pbtools_encoder_t *self_p,
                                         int field_number,
                                         struct pbtools_bytes_t *value_p)
 {
-    encoder_write(self_p, value_p->buf_p, (int)value_p->size);
+    encoder_write(self_p, value_p->buf_p, value_p->size);
     encoder_write_tagged_varint_always(self_p,
                                        field_number,
                                        PBTOOLS_WIRE_TYPE_LENGTH_DELIMITED,
@@ -874,7 +874,7 @@ void pbtools_encoder_write_repeated_string(
         length = strlen(repeated_p->items_pp[i]);
         encoder_write(self_p,
                       (uint8_t *)repeated_p->items_pp[i],
-                      (int)length);
+                      length);
         encoder_write_length_delimited(self_p, field_number, length);
     }
 }
@@ -889,7 +889,7 @@ void pbtools_encoder_write_repeated_bytes(
     for (i = repeated_p->length - 1; i >= 0; i--) {
         encoder_write(self_p,
                       repeated_p->items_p[i].buf_p,
-                      (int)repeated_p->items_p[i].size);
+                      repeated_p->items_p[i].size);
         encoder_write_length_delimited(self_p,
                                        field_number,
                                        repeated_p->items_p[i].size);
-- 
2.43.0


From 0b3f257791eef50d47961a7b41069287fed2c989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:20 +0000
Subject: [PATCH 27/33] fix: Workspaces larger than INT_MAX.

---
 lib/src/pbtools.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/src/pbtools.c b/lib/src/pbtools.c
index 5463a90..3cf95e0 100644
--- a/lib/src/pbtools.c
+++ b/lib/src/pbtools.c
@@ -60,6 +60,10 @@ static struct pbtools_heap_t *heap_new(void *buf_p,
 {
     struct pbtools_heap_t *heap_p;
 
+    if (size > INT_MAX) {
+        size = INT_MAX;
+    }
+
     if (size >= sizeof(*heap_p)) {
         heap_p = (struct pbtools_heap_t *)buf_p;
         heap_p->buf_p = buf_p;
-- 
2.43.0


From e3c022572a4f465a3bd7d3edb77a9de134980274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:07 +0000
Subject: [PATCH 28/33] fix: Input larger than INT_MAX cannot be decoded.

---
 lib/src/pbtools.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/src/pbtools.c b/lib/src/pbtools.c
index 3cf95e0..1c6b941 100644
--- a/lib/src/pbtools.c
+++ b/lib/src/pbtools.c
@@ -900,6 +900,9 @@ void pbtools_encoder_write_repeated_bytes(
     }
 }
 
+static void decoder_abort(struct pbtools_decoder_t *self_p,
+                          int error);
+
 static void decoder_init(struct pbtools_decoder_t *self_p,
                          const uint8_t *buf_p,
                          size_t size,
@@ -909,6 +912,10 @@ static void decoder_init(struct pbtools_decoder_t *self_p,
     self_p->size = (int)size;
     self_p->pos = 0;
     self_p->heap_p = heap_p;
+
+    if (size > INT_MAX) {
+        decoder_abort(self_p, PBTOOLS_LENGTH_DELIMITED_OVERFLOW);
+    }
 }
 
 static int decoder_get_result(struct pbtools_decoder_t *self_p)
-- 
2.43.0


From 4e05026e5c08f137b0b618310f26a438ab1c406e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:49 +0000
Subject: [PATCH 29/33] fix: Tags that do not fit in 32 bits are not truncated.

---
 lib/src/pbtools.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/src/pbtools.c b/lib/src/pbtools.c
index 1c6b941..6bd8875 100644
--- a/lib/src/pbtools.c
+++ b/lib/src/pbtools.c
@@ -1063,10 +1063,15 @@ static uint64_t decoder_read_length_delimited(struct pbtools_decoder_t *self_p,
 int pbtools_decoder_read_tag(struct pbtools_decoder_t *self_p,
                              int *wire_type_p)
 {
-    uint32_t value;
+    uint64_t value;
     int field_number;
 
-    value = (uint32_t)decoder_read_varint(self_p);
+    value = decoder_read_varint(self_p);
+
+    if (value > UINT32_MAX) {
+        value = 0;
+    }
+
     field_number = (int)(value >> 3);
     *wire_type_p = (value & 0x7);
 
-- 
2.43.0


From 391146e251a1de06f35183085d171f671d616137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:38 +0000
Subject: [PATCH 30/33] fix: prefix the include guard of files whose names
 start with a digit

---
 pbtools/c_source/__init__.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pbtools/c_source/__init__.py b/pbtools/c_source/__init__.py
index 0790de2..9971a7c 100644
--- a/pbtools/c_source/__init__.py
+++ b/pbtools/c_source/__init__.py
@@ -1334,7 +1334,12 @@ class Generator:
         return includes
 
     def generate_include_guard(self):
-        return f'{os.path.splitext(self.header_name)[0].upper()}_H'
+        guard = f'{os.path.splitext(self.header_name)[0].upper()}_H'
+
+        if guard[0].isdigit():
+            guard = f'PBTOOLS_{guard}'
+
+        return guard
 
     def generate(self):
         header = HEADER_FMT.format(
-- 
2.43.0


From bc83554a3f84ecd361201618218630bd6410327a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:22 +0000
Subject: [PATCH 31/33] fix: the path of a parsed file is not searched for in
 the import path

---
 pbtools/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index 8775529..c70a372 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -854,5 +854,5 @@ def parse_file(filename, import_paths=None):
 
     with open(filename, 'r', encoding='utf-8') as fin:
         return Proto(Parser().parse(ignore_comments(fin.read())),
-                     find_file(filename, import_paths),
+                     os.path.abspath(filename),
                      import_paths)
-- 
2.43.0


From dfd06b1d3bb9de0fb426193e84a9052d81d5560e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:23 +0000
Subject: [PATCH 32/33] fix: a directory in the import path is not an imported
 file

---
 pbtools/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index c70a372..d0b342e 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -827,14 +827,14 @@ def find_file(filename, import_paths):
     for import_path in import_paths:
         filepath = os.path.join(import_path, filename)
 
-        if os.path.exists(filepath):
+        if os.path.isfile(filepath):
             break
     else:
         filepath = filename
 
     filepath = os.path.abspath(filepath)
 
-    if not os.path.exists(filepath):
+    if not os.path.isfile(filepath):
         raise Error(f"'{filename}' not found in import path.")
 
     return filepath
-- 
2.43.0


From 598cfa273f3107ca0448da11d4f094e4cbb22f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:14 +0000
Subject: [PATCH 33/33] fix: types named like scalar value types are generated
 as messages and enums

---
 pbtools/c_source/__init__.py | 16 ++++++++--------
 pbtools/parser.py            | 12 ++++++++++--
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/pbtools/c_source/__init__.py b/pbtools/c_source/__init__.py
index 9971a7c..9831806 100644
--- a/pbtools/c_source/__init__.py
+++ b/pbtools/c_source/__init__.py
@@ -1041,12 +1041,12 @@ class Generator:
                     fmt = DECODE_REPEATED_ENUM_FMT
                 else:
                     fmt = DECODE_REPEATED_FIELD_FMT
-            elif field.type == 'bytes':
+            elif field.is_bytes:
                 if field.optional:
                     fmt = DECODE_OPTIONAL_MEMBER_BYTES_FMT
                 else:
                     fmt = DECODE_MEMBER_BYTES_FMT
-            elif field.type == 'string':
+            elif field.is_string:
                 if field.optional:
                     fmt = DECODE_OPTIONAL_MEMBER_STRING_FMT
                 else:
@@ -1085,9 +1085,9 @@ class Generator:
                 member = f'    self_p->{name}.length = 0;'
             elif field.optional:
                 member = f'    self_p->{name}.is_present = false;'
-            elif field.type == 'bytes':
+            elif field.is_bytes:
                 member = f'    pbtools_bytes_init(&self_p->{name});'
-            elif field.type == 'string':
+            elif field.is_string:
                 member = f'    self_p->{name}_p = "";'
             elif field.type_kind == 'scalar-value-type':
                 member = f'    self_p->{name} = 0;'
@@ -1197,10 +1197,10 @@ class Generator:
                                                  oneof=oneof,
                                                  field=field))
             else:
-                if field.type == 'bytes':
+                if field.is_bytes:
                     init = (f'    pbtools_bytes_init('
                             f'&self_p->{name});')
-                elif field.type == 'string':
+                elif field.is_string:
                     init = f'    self_p->{name}_p = "";'
                 elif field.type_kind == 'scalar-value-type':
                     init = f'    self_p->{name} = 0;'
@@ -1251,9 +1251,9 @@ class Generator:
                                                               oneof=oneof,
                                                               field=field))
             else:
-                if field.type == 'bytes':
+                if field.is_bytes:
                     fmt = DECODE_ONEOF_MEMBER_BYTES_FMT
-                elif field.type == 'string':
+                elif field.is_string:
                     fmt = DECODE_ONEOF_MEMBER_STRING_FMT
                 elif field.type_kind == 'scalar-value-type':
                     fmt = DECODE_ONEOF_MEMBER_FMT
diff --git a/pbtools/parser.py b/pbtools/parser.py
index d0b342e..e2049f5 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -285,6 +285,14 @@ class Field:
     def is_scalar_value_type(self):
         return not self.absolute and self.full_type in SCALAR_VALUE_TYPES
 
+    @property
+    def is_bytes(self):
+        return self.is_scalar_value_type and self.type == 'bytes'
+
+    @property
+    def is_string(self):
+        return self.is_scalar_value_type and self.type == 'string'
+
 
 class Option:
 
@@ -481,14 +489,14 @@ class Message:
         used_types = []
 
         for field in self.fields:
-            if field.full_type in SCALAR_VALUE_TYPES:
+            if field.is_scalar_value_type:
                 continue
 
             used_types.append(field.full_type)
 
         for oneof in self.oneofs:
             for field in oneof.fields:
-                if field.full_type in SCALAR_VALUE_TYPES:
+                if field.is_scalar_value_type:
                     continue
 
                 used_types.append(field.full_type)
-- 
2.43.0

