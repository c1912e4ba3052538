From de3c68dbfeaac0e74aa01fbb073362e70013ac46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:23 +0000
Subject: [PATCH 01/77] fix: gathering copy read one length past the end of the
 piece list once all pieces were consumed (every message of a multiple of 64
 bytes)

---
 src/nx_string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_string.c b/src/nx_string.c
index a3acffc..1422c73 100644
--- a/src/nx_string.c
+++ b/src/nx_string.c
@@ -218,7 +218,7 @@ size_t nx_memncpy_multi(void *dest, int n_src, const void * const *src,
         NX_ASSERT_PTR(src_offset);
         NX_ASSERT_PTR(offset);
 
-        if (*offset > l_src[*src_offset]) {
+        if (*src_offset < n_src && *offset > l_src[*src_offset]) {
                 *offset = 0;
                 *src_offset += 1;
         }
-- 
2.43.0


From 1ff8365a6a034a825cfa7dd3065c7c7daae0c799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:04 +0000
Subject: [PATCH 02/77] fix: loading CSV with strings as factors never advanced
 to the next column (endless loop)

---
 src/nx_data_frame.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_data_frame.c b/src/nx_data_frame.c
index 7238772..9e1f6ac 100644
--- a/src/nx_data_frame.c
+++ b/src/nx_data_frame.c
@@ -636,7 +636,7 @@ struct NXDataFrame *nx_data_frame_load_csv_stream(FILE *stream,
         struct NXDataFrame *df = nx_csv_parser_parse(cp);
 
         if (strings_as_factors) {
-                for (int col_id = 0; col_id < df->columns->size; ++i) {
+                for (int col_id = 0; col_id < df->columns->size; ++col_id) {
                         if (nx_data_frame_column(df, col_id)->type == NX_DCT_STRING)
                                 nx_data_frame_make_factor(df, col_id);
                 }
-- 
2.43.0


From cc68f91d90a1593f1d7ecc48c29ba2892bc6d899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:07 +0000
Subject: [PATCH 03/77] fix: a single-column data frame with a missing cell was
 saved as CSV that could not be loaded

---
 src/nx_csv_parser.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/nx_csv_parser.c b/src/nx_csv_parser.c
index 0631856..47b0e29 100644
--- a/src/nx_csv_parser.c
+++ b/src/nx_csv_parser.c
@@ -308,7 +308,10 @@ static struct NXCSVRecord *nx_csv_parser_parse_record(struct NXCSVParser *cp, st
 {
         struct NXCSVRecord *r = nx_csv_record_new(data);
 
-        if (cp->token->type == NX_CTT_EOR) {
+        if (cp->token->type == NX_CTT_EOR && data->n_columns == 1) {
+                // a missing value in a single column table
+                nx_csv_record_add_field_from_token(r, NULL);
+        } else if (cp->token->type == NX_CTT_EOR) {
                 NX_FATAL(NX_LOG_TAG, "Empty record %d while parsing CSV", data->size);
         } else if (cp->token->type == NX_CTT_COMMA) {
                 nx_csv_record_add_field_from_token(r, NULL);
-- 
2.43.0


From 092520aa97fe89615783ec5cf30499c762c75945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:34 +0000
Subject: [PATCH 04/77] fix: the lexer took byte 0xFF for the end of the text
 and passed negative characters to isdigit

---
 src/nx_lexer.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nx_lexer.c b/src/nx_lexer.c
index 6df82be..4661758 100644
--- a/src/nx_lexer.c
+++ b/src/nx_lexer.c
@@ -143,7 +143,7 @@ int nx_lexer_consume(struct NXLexer *lex)
         if (lex->c == EOF)
                 return lex->c;
 
-        lex->c = lex->text[++lex->pos];
+        lex->c = (unsigned char)lex->text[++lex->pos];
         if (lex->c == '\0')
                 lex->c = EOF;
 
@@ -171,7 +171,7 @@ NXBool nx_lexer_match(struct NXLexer *lex, const char *s)
 
         int n = strlen(s);
         while (n--) {
-                if (lex->c == *s) {
+                if (lex->c == (unsigned char)*s) {
                         nx_lexer_consume(lex);
                 } else {
                         load_lexer_state(lex, &start_state);
-- 
2.43.0


From f233dabd068aa128f815692ff21a6b46f546ab32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:36 +0000
Subject: [PATCH 05/77] fix: subnormal doubles in a CSV file turned the whole
 column into strings

---
 src/nx_csv_parser.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/nx_csv_parser.c b/src/nx_csv_parser.c
index 47b0e29..74d8f66 100644
--- a/src/nx_csv_parser.c
+++ b/src/nx_csv_parser.c
@@ -28,6 +28,7 @@
 #include <stdlib.h>
 #include <string.h>
 #include <limits.h>
+#include <math.h>
 #include <errno.h>
 
 #include "virg/nexus/nx_alloc.h"
@@ -46,8 +47,9 @@ static inline enum NXDataColumnType nx_csv_field_type_from_token_text(const char
                 return NX_DCT_INT;
 
         errno = 0;
-        strtod(text, &endptr);
-        if (errno != ERANGE && *endptr == '\0')
+        double dv = strtod(text, &endptr);
+        NXBool overflow = errno == ERANGE && (dv == HUGE_VAL || dv == -HUGE_VAL);
+        if (!overflow && *endptr == '\0')
                 return NX_DCT_DOUBLE;
 
         return NX_DCT_STRING;
-- 
2.43.0


From 67ae70e9ecc27bd9c64c4e339e40bba5517a48c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:50 +0000
Subject: [PATCH 06/77] fix: CSV fields such as 0x10 were typed as integers but
 read as 0

---
 src/nx_csv_parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_csv_parser.c b/src/nx_csv_parser.c
index 74d8f66..3172e9b 100644
--- a/src/nx_csv_parser.c
+++ b/src/nx_csv_parser.c
@@ -42,7 +42,7 @@ static inline enum NXDataColumnType nx_csv_field_type_from_token_text(const char
                 return NX_DCT_BOOL;
 
         char *endptr;
-        long lv = strtol(text, &endptr, 0);
+        long lv = strtol(text, &endptr, 10);
         if (*endptr == '\0' && lv <= INT_MAX && lv >= INT_MIN)
                 return NX_DCT_INT;
 
-- 
2.43.0


From 3a564d22d62bae2c8ffa751157833e6d03573dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:52 +0000
Subject: [PATCH 07/77] fix: column labels with quotes, backslashes or control
 characters were written with escapes the CSV reader does not undo

---
 src/nx_data_frame.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_data_frame.c b/src/nx_data_frame.c
index 9e1f6ac..56d81a4 100644
--- a/src/nx_data_frame.c
+++ b/src/nx_data_frame.c
@@ -522,7 +522,7 @@ NXBool nx_data_frame_fprintf(const struct NXDataFrame *df, FILE *stream,
         int nc = nx_data_frame_n_columns(df);
         for (int i = 0; i < nc; ++i) {
                 const struct NXDataColumn *dc = nx_data_frame_column(df, i);
-                if (EOF == nx_fputs_readable(nx_data_column_label(dc), stream)) {
+                if (EOF == nx_fputs_double_quoted(nx_data_column_label(dc), stream)) {
                         NX_ERROR(NX_LOG_TAG, "Error printing label of data frame for column %d", i);
                         return NX_FALSE;
                 }
-- 
2.43.0


From d3fc89b41f0437b7a4c47b4478869ca86c8ad8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:22 +0000
Subject: [PATCH 08/77] fix: setting a string cell from its own current value
 read freed memory

---
 src/nx_data_frame.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nx_data_frame.c b/src/nx_data_frame.c
index 56d81a4..96b68dd 100644
--- a/src/nx_data_frame.c
+++ b/src/nx_data_frame.c
@@ -445,8 +445,9 @@ void nx_data_frame_set_string(struct NXDataFrame *df, int row_id, int col_id,
 
         struct NXDataColumn *dc = df->columns->elems[col_id];
         CHECK_DATA_COLUMN_TYPE(dc,NX_DCT_STRING);
+        char *elem_ptr = nx_strdup(value); // value may be the current element
         NA_DATA_FRAME_ELEMENT(dc,row_id);
-        dc->elems[row_id] = nx_strdup(value);
+        dc->elems[row_id] = (void *)elem_ptr;
 }
 
 void nx_data_frame_set_int(struct NXDataFrame *df, int row_id, int col_id,
-- 
2.43.0


From 6684bde894228f192644ae99de5324e2020ead3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:58 +0000
Subject: [PATCH 09/77] fix: setting a string or array element from its own
 current value read freed memory

---
 src/nx_string.c       | 7 ++-----
 src/nx_string_array.c | 3 ++-
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/nx_string.c b/src/nx_string.c
index 1422c73..a13af02 100644
--- a/src/nx_string.c
+++ b/src/nx_string.c
@@ -49,12 +49,9 @@ char *nx_strdup(const char *s)
 
 void nx_strredup(char **dest, const char *src)
 {
+        char *cpy = src == NULL ? NULL : nx_strdup(src); // src may be *dest
         nx_free(*dest);
-
-        if (src == NULL)
-                *dest = NULL;
-        else
-                *dest = nx_strdup(src);
+        *dest = cpy;
 }
 
 char *nx_fstr(const char* format, ...)
diff --git a/src/nx_string_array.c b/src/nx_string_array.c
index 68fff42..cc44748 100644
--- a/src/nx_string_array.c
+++ b/src/nx_string_array.c
@@ -139,8 +139,9 @@ void nx_string_array_vsetf(struct NXStringArray *sa, int id, const char *fmt, va
         NX_ASSERT(id >= 0 && id < sa->size);
         NX_ASSERT_PTR(fmt);
 
+        char *elem = nx_vfstr(fmt, args); // args may refer to the current element
         nx_free(sa->elems[id]);
-        sa->elems[id] = nx_vfstr(fmt, args);
+        sa->elems[id] = elem;
 }
 
 int nx_string_array_append(struct NXStringArray *sa, const char *s)
-- 
2.43.0


From aaa43a05026a2d0deac21e35667e6952376973b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:00 +0000
Subject: [PATCH 10/77] fix: searching a string array with elements not set yet
 crashed

---
 src/nx_string_array.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_string_array.c b/src/nx_string_array.c
index cc44748..ae6bd8c 100644
--- a/src/nx_string_array.c
+++ b/src/nx_string_array.c
@@ -180,7 +180,7 @@ int nx_string_array_find(const struct NXStringArray *sa, const char *s)
         NX_ASSERT_PTR(s);
 
         for (int i = 0; i < sa->size; ++i)
-                if (strcmp(s, sa->elems[i]) == 0)
+                if (sa->elems[i] != NULL && strcmp(s, sa->elems[i]) == 0)
                         return i;
 
         return -1;
-- 
2.43.0


From 5e28aa46563c58bc9c452c63d9717502d2d6ff5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:02 +0000
Subject: [PATCH 11/77] fix: the escape \\/ accepted by the JSON lexer was
 refused when decoding the string

---
 src/nx_string.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nx_string.c b/src/nx_string.c
index a13af02..e26169d 100644
--- a/src/nx_string.c
+++ b/src/nx_string.c
@@ -165,6 +165,7 @@ char *nx_xstr_from_readable(size_t size, const char *readable)
                         case 'f': *(p++) = '\f'; break;
                         case 'b': *(p++) = '\b'; break;
                         case '"': *(p++) = '"'; break;
+                        case '/': *(p++) = '/'; break;
                         default:
                                 NX_FATAL(NX_LOG_TAG, "Unexpected control character '%c' in readable string!", *readable);
                         }
-- 
2.43.0


From 733617997961381d51f150a4dbb7c27c77be20c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:04 +0000
Subject: [PATCH 12/77] fix: reading a line at the end of the file returned an
 empty line instead of -1

---
 src/nx_io.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/nx_io.c b/src/nx_io.c
index 45c6161..a07f54e 100644
--- a/src/nx_io.c
+++ b/src/nx_io.c
@@ -193,15 +193,14 @@ ssize_t nx_getline(char **line, size_t *n, FILE *stream)
                 NX_EXPAND_IF_NECESSARY_AND_APPEND_CHAR(line,n,idx,c);
         }
 
+        if (c == EOF && idx == 0)
+                return -1;
+
         if (c == '\n') {
                 NX_EXPAND_IF_NECESSARY_AND_APPEND_CHAR(line,n,idx,c);
         }
 
         NX_EXPAND_IF_NECESSARY_AND_APPEND_CHAR(line,n,idx,0);
 
-        if (idx == 0) {
-                return -1;
-        } else {
-                return idx - 1;
-        }
+        return idx - 1;
 }
-- 
2.43.0


From 11b6328fc961ca9f42d103ff5a0d5826718cef3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:07 +0000
Subject: [PATCH 13/77] fix: closing a file did not report data that could not
 be written when flushing

---
 src/nx_io.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/nx_io.c b/src/nx_io.c
index a07f54e..a87d068 100644
--- a/src/nx_io.c
+++ b/src/nx_io.c
@@ -50,7 +50,8 @@ void nx_xfclose(FILE *stream, const char *stream_label)
 
         int e = ferror(stream);
 
-        fclose(stream);
+        if (fclose(stream) != 0)
+                e = 1;
 
         if (e) {
                  NX_IO_FATAL(NX_LOG_TAG, "Error detected before closing stream %s",
@@ -78,7 +79,8 @@ NXResult nx_fclose(FILE *stream, const char *stream_label)
 
         int e = ferror(stream);
 
-        fclose(stream);
+        if (fclose(stream) != 0)
+                e = 1;
 
         if (e) {
                 NX_IO_ERROR(NX_LOG_TAG, "Error detected before closing stream %s",
-- 
2.43.0


From aeb0e85072176d0abdc58bceaab56c6ea983444d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:24 +0000
Subject: [PATCH 14/77] fix: JSON false and null became true

---
 src/nx_json_tree.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nx_json_tree.c b/src/nx_json_tree.c
index 669c302..5003dd6 100644
--- a/src/nx_json_tree.c
+++ b/src/nx_json_tree.c
@@ -186,12 +186,12 @@ struct NXJSONNode *nx_json_node_new_true()
 
 struct NXJSONNode *nx_json_node_new_false()
 {
-        return nx_json_node_new_constant(NX_JNT_TRUE);
+        return nx_json_node_new_constant(NX_JNT_FALSE);
 }
 
 struct NXJSONNode *nx_json_node_new_null()
 {
-        return nx_json_node_new_constant(NX_JNT_TRUE);
+        return nx_json_node_new_constant(NX_JNT_NULL);
 }
 
 void nx_json_tree_free(struct NXJSONNode *root)
-- 
2.43.0


From 52dc58db434ad8884641bd78555d4d9b50617c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:26 +0000
Subject: [PATCH 15/77] fix: keypoint ids beyond the int range did not survive
 bundling

---
 src/nx_json_bundle.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nx_json_bundle.c b/src/nx_json_bundle.c
index bcf151d..4a9baa0 100644
--- a/src/nx_json_bundle.c
+++ b/src/nx_json_bundle.c
@@ -126,7 +126,7 @@ struct NXJSONNode *nx_json_bundle_keypoint(const struct NXKeypoint* key)
         nx_json_object_add(jkey, "sigma", nx_json_bundle_double(key->sigma));
         nx_json_object_add(jkey, "score", nx_json_bundle_double(key->score));
         nx_json_object_add(jkey, "ori", nx_json_bundle_double(key->ori));
-        nx_json_object_add(jkey, "id", nx_json_bundle_int(key->id));
+        nx_json_object_add(jkey, "id", nx_json_bundle_size_t(key->id));
 
         return jkey;
 }
@@ -282,7 +282,7 @@ struct NXKeypoint nx_json_unbundle_keypoint(struct NXJSONNode* node)
         key.sigma = nx_json_unbundle_double(nx_json_object_fget(node, "sigma",  NX_JNT_FPNUMBER));
         key.score = nx_json_unbundle_double(nx_json_object_fget(node, "score",  NX_JNT_FPNUMBER));
         key.ori = nx_json_unbundle_double(nx_json_object_fget(node, "ori",  NX_JNT_FPNUMBER));
-        key.id = nx_json_unbundle_int(nx_json_object_fget(node, "id",  NX_JNT_INTEGER));
+        key.id = nx_json_unbundle_size_t(nx_json_object_fget(node, "id",  NX_JNT_INTEGER));
 
         return key;
 }
-- 
2.43.0


From c83e6fba13a9aa53927cc02b7e6eb11e693673e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:41 +0000
Subject: [PATCH 16/77] fix: text following a complete JSON document was
 silently ignored

---
 src/nx_json_parser.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nx_json_parser.c b/src/nx_json_parser.c
index 01eabb9..b8f5b06 100644
--- a/src/nx_json_parser.c
+++ b/src/nx_json_parser.c
@@ -225,5 +225,6 @@ struct NXJSONNode *nx_json_parser_parse(struct NXJSONParser *jp)
         jp->root = NULL;
         jp->current_node = NULL;
         nx_json_parser_parse_json(jp);
+        nx_json_parser_match(jp, NX_JTT_EOF);
         return jp->root;
 }
-- 
2.43.0


From 18603db5ade979c4c17904ce1dd68a0bb0f92ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:13 +0000
Subject: [PATCH 17/77] fix: freeing a long JSON array overflowed the stack

---
 src/nx_json_tree.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/nx_json_tree.c b/src/nx_json_tree.c
index 5003dd6..c742f71 100644
--- a/src/nx_json_tree.c
+++ b/src/nx_json_tree.c
@@ -196,11 +196,12 @@ struct NXJSONNode *nx_json_node_new_null()
 
 void nx_json_tree_free(struct NXJSONNode *root)
 {
-        if (root != NULL) {
+        while (root != NULL) {
+                struct NXJSONNode *right = root->right;
                 nx_json_tree_free(root->down);
-                nx_json_tree_free(root->right);
                 nx_free(root->text);
                 nx_free(root);
+                root = right;
         }
 }
 
-- 
2.43.0


From c2695248ac40e424cfb503ba5d8b9bbfbcede848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:30 +0000
Subject: [PATCH 18/77] fix: Python boolean options honour a true default

---
 pyvirg/virg/nexus/options.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyvirg/virg/nexus/options.py b/pyvirg/virg/nexus/options.py
index fc487aa..1e736cb 100644
--- a/pyvirg/virg/nexus/options.py
+++ b/pyvirg/virg/nexus/options.py
@@ -36,6 +36,7 @@ class OptionItem:
         names = filter(lambda x: x is not None, names)
         if self.type_of is bool:
             parser.add_argument(*names, action='store_true',
+                                default=bool(self.default_value),
                                 help=self.help_str)
         else:
             parser.add_argument(*names, type=self.type_of,
-- 
2.43.0


From 325465cdd60b911333bfd397e26828a96c4aff9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:53 +0000
Subject: [PATCH 19/77] fix: Python options saved to YAML quote strings and
 format numbers so that they load back unchanged

---
 pyvirg/virg/nexus/options.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyvirg/virg/nexus/options.py b/pyvirg/virg/nexus/options.py
index 1e736cb..af428a9 100644
--- a/pyvirg/virg/nexus/options.py
+++ b/pyvirg/virg/nexus/options.py
@@ -27,8 +27,8 @@ class OptionItem:
         self.key_name = key_name.replace('-', '_')
 
     def __str__(self):
-        return self.key_name + ': ' + \
-            (str(self.value) if self.value is not None else 'null')
+        return yaml.dump({self.key_name: self.value},
+                         default_flow_style=False)[:-1]
 
     def add_as_argument(self, parser):
         names = ['-' + self.short_name if self.short_name else None,
-- 
2.43.0


From 0b5ee86cdfd5a8a6b2581312d1c9fb8227cd73ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:46 +0000
Subject: [PATCH 20/77] fix: nx_calloc reports failure when count times size
 overflows instead of returning a short block

---
 src/nx_alloc.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/nx_alloc.c b/src/nx_alloc.c
index 19efc90..546c849 100644
--- a/src/nx_alloc.c
+++ b/src/nx_alloc.c
@@ -72,10 +72,11 @@ void *nx_malloc(size_t sz)
 
 void *nx_calloc(size_t n_memb, size_t sz)
 {
-        const size_t length = n_memb * sz;
-        void *ptr = nx_malloc(length);
-        if (ptr) {
-                memset(ptr, 0, length);
+        void *ptr = calloc(n_memb, sz);
+
+        if (n_memb != 0 && sz != 0 && !ptr) {
+                NX_ERROR(NX_LOG_TAG, "Error allocating %zd x %zd bytes, out of memory!", n_memb, sz);
+                return NULL;
         }
 
         return ptr;
-- 
2.43.0


From 0c4a51e3ff5ee6dc24b51700cd5e772318dc468c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:38 +0000
Subject: [PATCH 21/77] fix: converting float images to 8 bit clamps to 0..255
 instead of giving zero everywhere

---
 src/nx_image.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_image.c b/src/nx_image.c
index ba7cca4..6d1e470 100644
--- a/src/nx_image.c
+++ b/src/nx_image.c
@@ -410,7 +410,7 @@ static void nx_image_convert_f32_to_uc(struct NXImage* dest, const struct NXImag
                 uchar *rdest = dest->data.uc + y * dest->row_stride;
                 for (int x = 0; x < dest->width; ++x) {
                         int value = rsrc[x] * 255.0f;
-                        value = nx_min_i(0, nx_max_i(255, value));
+                        value = nx_max_i(0, nx_min_i(255, value));
                         rdest[x] = value;
                 }
         }
-- 
2.43.0


From 4b178e2906246d6df9602a8b448bd284a98243fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:31 +0000
Subject: [PATCH 22/77] fix: PGM/PPM headers with comments or other white space
 load, and attributes that cannot be stored are refused

---
 src/nx_image_io_pnm.c | 76 +++++++++++++++++++++++++------------------
 1 file changed, 44 insertions(+), 32 deletions(-)

diff --git a/src/nx_image_io_pnm.c b/src/nx_image_io_pnm.c
index b2b66ad..09c2d3d 100644
--- a/src/nx_image_io_pnm.c
+++ b/src/nx_image_io_pnm.c
@@ -26,6 +26,8 @@
 #include "virg/nexus/nx_image_io_pnm.h"
 
 #include <stdlib.h>
+#include <ctype.h>
+#include <limits.h>
 
 #include "virg/nexus/nx_log.h"
 #include "virg/nexus/nx_assert.h"
@@ -158,6 +160,44 @@ static NXResult read_pnm_data(struct NXImage *img, enum NXImageType img_type,
         return NX_OK;
 }
 
+// Reads a header field, skipping white space and comments before it.
+static NXResult read_pnm_field(FILE *pnm, int *value)
+{
+        int c = fgetc(pnm);
+        while (c == '#' || isspace(c)) {
+                if (c == '#') {
+                        while (c != '\n' && c != EOF)
+                                c = fgetc(pnm);
+                } else {
+                        c = fgetc(pnm);
+                }
+        }
+
+        if (c == EOF)
+                return NX_FAIL;
+        ungetc(c, pnm);
+
+        return fscanf(pnm, "%d", value) == 1 ? NX_OK : NX_FAIL;
+}
+
+// Reads the image attributes and the single white space before the pixels,
+// fails unless the pixels are 8-bit samples of an image that can be stored.
+static NXResult read_pnm_attributes(FILE *pnm, int *pnm_width, int *pnm_height)
+{
+        int pnm_levels;
+        if (read_pnm_field(pnm, pnm_width) != NX_OK
+            || read_pnm_field(pnm, pnm_height) != NX_OK
+            || read_pnm_field(pnm, &pnm_levels) != NX_OK
+            || !isspace(fgetc(pnm)))
+                return NX_FAIL;
+
+        if (*pnm_width <= 0 || *pnm_height <= 0
+            || *pnm_width > INT_MAX / 4 / *pnm_height)
+                return NX_FAIL;
+
+        return (pnm_levels > 0 && pnm_levels <= 255) ? NX_OK : NX_FAIL;
+}
+
 void nx_image_xload_pnm(struct NXImage *img, const char *filename,
                         enum NXImageLoadMode mode)
 {
@@ -183,28 +223,11 @@ void nx_image_xload_pnm(struct NXImage *img, const char *filename,
                 pnm_type = NX_IMAGE_RGBA;
         }
 
-        int c = fgetc(pnm);
-        while (c == ' ' || c == '\n' || c == '\t') {
-                c = fgetc(pnm);
-        }
-
-        while (c == '#') {
-                while (c != '\n') {
-                        c = fgetc(pnm);
-                        if (c == EOF)
-                                NX_IO_FATAL(NX_LOG_TAG, "%s does not contain image data", filename);
-                }
-                c = fgetc(pnm);
-        }
-        ungetc(c, pnm);
-
         int pnm_width;
         int pnm_height;
-        int pnm_levels;
-        if (fscanf(pnm, "%d %d %d", &pnm_width, &pnm_height, &pnm_levels) != 3) {
-                NX_IO_FATAL(NX_LOG_TAG, "Could not read image attributes from %s", filename);
+        if (read_pnm_attributes(pnm, &pnm_width, &pnm_height) != NX_OK) {
+                NX_FATAL(NX_LOG_TAG, "Could not read image attributes from %s", filename);
         }
-        c = fgetc(pnm);
 
         enum NXImageType img_type;
         switch (mode) {
@@ -260,23 +283,12 @@ NXResult nx_image_load_pnm(struct NXImage *img, const char *filename,
 
         int pnm_width;
         int pnm_height;
-        int pnm_levels;
-
-        if (fscanf(pnm, "%d %d %d", &pnm_width, &pnm_height, &pnm_levels) != 3) {
-                NX_IO_ERROR(NX_LOG_TAG, "Could not read image attributes from %s", filename);
+        if (read_pnm_attributes(pnm, &pnm_width, &pnm_height) != NX_OK) {
+                NX_ERROR(NX_LOG_TAG, "Could not read image attributes from %s", filename);
                 fclose(pnm);
                 return NX_FAIL;
         }
 
-        // Skip a new line
-        char buffer[256];
-        if (fgets(buffer, sizeof(buffer), pnm) == NULL) {
-                NX_IO_ERROR(NX_LOG_TAG, "Error reading from %s", filename);
-                fclose(pnm);
-                return NX_FAIL;
-        }
-
-
         enum NXImageType img_type;
         switch (mode) {
         case NX_IMAGE_LOAD_GRAYSCALE:
-- 
2.43.0


From d30d40b9e035cf318b5edee40512ac547b02fc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:16 +0000
Subject: [PATCH 23/77] fix: RGB and palette PNG files loaded as RGBA fill the
 alpha channel, and gray PNG files with a transparent value load within the
 image

---
 src/nx_image_io_png.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nx_image_io_png.c b/src/nx_image_io_png.c
index 3b25082..da1901b 100644
--- a/src/nx_image_io_png.c
+++ b/src/nx_image_io_png.c
@@ -169,12 +169,13 @@ static NXResult load_as_png(struct NXImage *img, FILE *fin,
                 if (color_type == PNG_COLOR_TYPE_GRAY ||
                     color_type == PNG_COLOR_TYPE_GA) {
                         png_set_gray_to_rgb(png_ptr);
-                        png_set_add_alpha(png_ptr, 255, PNG_FILLER_AFTER);
                 }
+                png_set_add_alpha(png_ptr, 255, PNG_FILLER_AFTER);
         } else {
                 if (color_type == PNG_COLOR_TYPE_GRAY ||
                     color_type == PNG_COLOR_TYPE_GA) {
                         output_type = NX_IMAGE_GRAYSCALE;
+                        png_set_strip_alpha(png_ptr);
                 }
 
                 if(color_type == PNG_COLOR_TYPE_RGB ||
-- 
2.43.0


From 1d742e0c3929359f437d950fdfe17b52fff6937f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:06 +0000
Subject: [PATCH 24/77] fix: row pointers of PNG files that fail to load or
 save are freed

---
 src/nx_image_io_png.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/nx_image_io_png.c b/src/nx_image_io_png.c
index da1901b..f2b7792 100644
--- a/src/nx_image_io_png.c
+++ b/src/nx_image_io_png.c
@@ -64,9 +64,11 @@ static NXResult save_as_png(const struct NXImage *img, FILE *fout)
                 return NX_FAIL;
         }
 
+        png_bytepp volatile row_pointers = NULL;
         if (setjmp(png_jmpbuf(png_ptr))) {
                 NX_ERROR(NX_LOG_TAG, "Error creating jump for PNG pointer");
                 png_destroy_write_struct(&png_ptr, &info_ptr);
+                nx_free(row_pointers);
                 return NX_FAIL;
         }
 
@@ -90,7 +92,7 @@ static NXResult save_as_png(const struct NXImage *img, FILE *fout)
 
         NX_ASSERT((unsigned int)img->height <= PNG_UINT_32_MAX/sizeof(png_bytep));
 
-        png_bytepp row_pointers = NX_NEW(img->height, png_bytep);
+        row_pointers = NX_NEW(img->height, png_bytep);
         if (!row_pointers) {
                 NX_ERROR(NX_LOG_TAG, "Error creating PNG row pointers");
                 png_destroy_write_struct(&png_ptr, &info_ptr);
@@ -132,9 +134,11 @@ static NXResult load_as_png(struct NXImage *img, FILE *fin,
                 return NX_FAIL;
         }
 
+        png_bytepp volatile row_pointers = NULL;
         if (setjmp(png_jmpbuf(png_ptr))) {
                 NX_ERROR(NX_LOG_TAG, "Could not set jump point for reading PNG file");
                 png_destroy_read_struct(&png_ptr, &info_ptr, png_infopp_NULL);
+                nx_free(row_pointers);
                 return NX_FAIL;
         }
 
@@ -192,7 +196,7 @@ static NXResult load_as_png(struct NXImage *img, FILE *fin,
                                 NX_IMAGE_UCHAR);
         }
 
-        png_bytepp row_pointers = NX_NEW(img->height, png_bytep);
+        row_pointers = NX_NEW(img->height, png_bytep);
         for (int row = 0; row < img->height; row++) {
                 row_pointers[row] = img->data.uc + row * img->row_stride;
         }
-- 
2.43.0


From 1995e16d6095d6a22f2e83e25741fbb89690f57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:26 +0000
Subject: [PATCH 25/77] fix: PNG files of a size that overflows the pixel count
 are refused instead of written past the image

---
 src/nx_image_io_png.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/nx_image_io_png.c b/src/nx_image_io_png.c
index f2b7792..5a16c4c 100644
--- a/src/nx_image_io_png.c
+++ b/src/nx_image_io_png.c
@@ -25,6 +25,8 @@
  */
 #include "virg/nexus/nx_image_io_png.h"
 
+#include <limits.h>
+
 #include <png.h>
 
 #ifndef png_jmpbuf
@@ -150,6 +152,12 @@ static NXResult load_as_png(struct NXImage *img, FILE *fin,
         png_get_IHDR(png_ptr, info_ptr, &stream_width, &stream_height, &bit_depth, &color_type,
                      &interlace_type, int_p_NULL, int_p_NULL);
 
+        if (stream_width > INT_MAX / 4 / stream_height) {
+                NX_ERROR(NX_LOG_TAG, "PNG image is too large");
+                png_destroy_read_struct(&png_ptr, &info_ptr, png_infopp_NULL);
+                return NX_FAIL;
+        }
+
         png_set_strip_16(png_ptr);
         if (color_type == PNG_COLOR_TYPE_GA) {
                 png_set_strip_alpha(png_ptr); /*(not recommended). */
-- 
2.43.0


From d0ec5ae954cf23d43d8e4a86bd2776632a2199e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:53 +0000
Subject: [PATCH 26/77] fix: JPEG files whose data are cut short are reported
 instead of loaded with made-up pixels

---
 src/nx_image_io_jpeg.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/nx_image_io_jpeg.c b/src/nx_image_io_jpeg.c
index becd4ad..a3895f1 100644
--- a/src/nx_image_io_jpeg.c
+++ b/src/nx_image_io_jpeg.c
@@ -30,6 +30,7 @@
 #include <setjmp.h>
 
 #include <jpeglib.h>
+#include <jerror.h>
 
 #include "virg/nexus/nx_alloc.h"
 #include "virg/nexus/nx_log.h"
@@ -51,6 +52,19 @@ METHODDEF(void) my_error_exit (j_common_ptr cinfo)
         longjmp(myerr->setjmp_buffer, 1);
 }
 
+// Fails on data that ends too early, other warnings are printed.
+METHODDEF(void) my_emit_message (j_common_ptr cinfo, int msg_level)
+{
+        if (msg_level < 0) {
+                if (cinfo->err->msg_code == JWRN_JPEG_EOF
+                    || cinfo->err->msg_code == JWRN_HIT_MARKER)
+                        (*cinfo->err->error_exit) (cinfo);
+
+                if (cinfo->err->num_warnings++ == 0)
+                        (*cinfo->err->output_message) (cinfo);
+        }
+}
+
 static NXResult save_as_jpeg(const struct NXImage *img, FILE *jpeg_stream)
 {
         NX_ASSERT_PTR(img);
@@ -160,6 +174,7 @@ static NXResult load_as_jpeg(struct NXImage *img, FILE *jpeg_stream,
 
         cinfo.err = jpeg_std_error(&jerr.pub);
         jerr.pub.error_exit = my_error_exit;
+        jerr.pub.emit_message = my_emit_message;
 
         if (setjmp(jerr.setjmp_buffer)) {
                 jpeg_destroy_decompress(&cinfo);
-- 
2.43.0


From a153e58842dee1142935d1c7cc46c6b6114231ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:04 +0000
Subject: [PATCH 27/77] fix: CMYK JPEG files are refused instead of overflowing
 the row buffer

---
 src/nx_image_io_jpeg.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nx_image_io_jpeg.c b/src/nx_image_io_jpeg.c
index a3895f1..ef5da09 100644
--- a/src/nx_image_io_jpeg.c
+++ b/src/nx_image_io_jpeg.c
@@ -189,7 +189,8 @@ static NXResult load_as_jpeg(struct NXImage *img, FILE *jpeg_stream,
                 cinfo.output_components = 1;
                 cinfo.out_color_components = 1;
                 cinfo.out_color_space = JCS_GRAYSCALE;
-        } else if (mode == NX_IMAGE_LOAD_RGBA) {
+        } else if (mode == NX_IMAGE_LOAD_RGBA
+                   || cinfo.out_color_space != JCS_GRAYSCALE) {
                 cinfo.output_components = 3;
                 cinfo.out_color_components = 3;
                 cinfo.out_color_space = JCS_RGB;
-- 
2.43.0


From e2f154f736204352d4e366b109389c2d9ffd7563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:29 +0000
Subject: [PATCH 28/77] fix: row buffers of JPEG files that fail to load or
 save are freed

---
 src/nx_image_io_jpeg.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/nx_image_io_jpeg.c b/src/nx_image_io_jpeg.c
index ef5da09..03d8137 100644
--- a/src/nx_image_io_jpeg.c
+++ b/src/nx_image_io_jpeg.c
@@ -78,8 +78,10 @@ static NXResult save_as_jpeg(const struct NXImage *img, FILE *jpeg_stream)
         cinfo.err = jpeg_std_error(&jerr.pub);
         jerr.pub.error_exit = my_error_exit;
 
+        uchar * volatile buffer = NULL;
         if (setjmp(jerr.setjmp_buffer)) {
                 jpeg_destroy_compress(&cinfo);
+                nx_free(buffer);
                 return NX_FAIL;
         }
 
@@ -103,7 +105,7 @@ static NXResult save_as_jpeg(const struct NXImage *img, FILE *jpeg_stream)
                 }
         } else if (img->type == NX_IMAGE_RGBA) {
                 int x;
-                uchar* buffer = NX_NEW_UC(3*img->width);
+                buffer = NX_NEW_UC(3*img->width);
                 JSAMPROW row_pointer = (JSAMPROW)(buffer);
                 while (cinfo.next_scanline < cinfo.image_height) {
                         const unsigned char* read_row = img->data.uc + cinfo.next_scanline * img->row_stride;
@@ -115,6 +117,7 @@ static NXResult save_as_jpeg(const struct NXImage *img, FILE *jpeg_stream)
                         jpeg_write_scanlines(&cinfo, &row_pointer, 1);
                 }
                 nx_free(buffer);
+                buffer = NULL;
         } else {
                 return NX_FAIL;
         }
@@ -176,8 +179,10 @@ static NXResult load_as_jpeg(struct NXImage *img, FILE *jpeg_stream,
         jerr.pub.error_exit = my_error_exit;
         jerr.pub.emit_message = my_emit_message;
 
+        uchar * volatile buffer = NULL;
         if (setjmp(jerr.setjmp_buffer)) {
                 jpeg_destroy_decompress(&cinfo);
+                nx_free(buffer);
                 return NX_FAIL;
         }
 
@@ -207,7 +212,7 @@ static NXResult load_as_jpeg(struct NXImage *img, FILE *jpeg_stream,
                 }
         } else {
                 int x;
-                uchar* buffer = NX_NEW_UC(3*img->width);
+                buffer = NX_NEW_UC(3*img->width);
                 JSAMPROW row_pointer = (JSAMPROW)(buffer);
                 while (cinfo.output_scanline < cinfo.output_height) {
                         uchar* write_row = img->data.uc + cinfo.output_scanline * img->row_stride;
@@ -220,6 +225,7 @@ static NXResult load_as_jpeg(struct NXImage *img, FILE *jpeg_stream,
                         }
                 }
                 nx_free(buffer);
+                buffer = NULL;
         }
 
         jpeg_finish_decompress(&cinfo);
-- 
2.43.0


From 804456ed3d8a1ff2d6dcc4046b01efe990025cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:59 +0000
Subject: [PATCH 29/77] fix: JPEG files of a size that overflows the pixel
 count are reported as failures

---
 src/nx_image_io_jpeg.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/nx_image_io_jpeg.c b/src/nx_image_io_jpeg.c
index 03d8137..4804ceb 100644
--- a/src/nx_image_io_jpeg.c
+++ b/src/nx_image_io_jpeg.c
@@ -28,6 +28,7 @@
 #include <stdlib.h>
 #include <stdio.h>
 #include <setjmp.h>
+#include <limits.h>
 
 #include <jpeglib.h>
 #include <jerror.h>
@@ -202,6 +203,11 @@ static NXResult load_as_jpeg(struct NXImage *img, FILE *jpeg_stream,
         }
 
         jpeg_start_decompress(&cinfo);
+        if (cinfo.output_width > INT_MAX / 4 / cinfo.output_height) {
+                NX_ERROR(NX_LOG_TAG, "JPEG image is too large");
+                jpeg_destroy_decompress(&cinfo);
+                return NX_FAIL;
+        }
         nx_image_resize(img, cinfo.output_width, cinfo.output_height,
                         NX_IMAGE_STRIDE_DEFAULT, cinfo.output_components == 1 ? NX_IMAGE_GRAYSCALE : NX_IMAGE_RGBA, img->dtype);
 
-- 
2.43.0


From 16bb206ed3697823c70db83e4a7ba120874a8b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:51 +0000
Subject: [PATCH 30/77] fix: normalising takes the maximum from images whose
 values decrease

---
 src/nx_image.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/nx_image.c b/src/nx_image.c
index 6d1e470..3af302b 100644
--- a/src/nx_image.c
+++ b/src/nx_image.c
@@ -212,11 +212,12 @@ void nx_image_normalize_to_zero_one(struct NXImage *img, NXBool symmetric_around
         for (int y = 0; y < img->height; ++y) {
                 float *row = img->data.f32 + y*img->row_stride;
                 for (int x = 0; x < img->width; ++x) {
-                        for (int c = 0; c < nc; ++c)
+                        for (int c = 0; c < nc; ++c) {
                                 if (row[nc*x+c] < vmin)
                                         vmin = row[nc*x+c];
-                                else if (row[nc*x+c] > vmax)
+                                if (row[nc*x+c] > vmax)
                                         vmax = row[nc*x+c];
+                        }
                 }
         }
         /* NX_LOG("D", "min and max values are %.12f and %.12f", vmin, vmax); */
-- 
2.43.0


From 84fb2fc0e7bb94bc39663265cc8ecdbb4e7d5219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:55 +0000
Subject: [PATCH 31/77] fix: scaling does not read past the last row and column

---
 src/nx_image.c | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/nx_image.c b/src/nx_image.c
index 3af302b..d50107a 100644
--- a/src/nx_image.c
+++ b/src/nx_image.c
@@ -553,20 +553,23 @@ void nx_image_scale_uc(struct NXImage *dest, const struct NXImage *src, float sc
                 int ypi = (int)yp;
                 float dy = yp - ypi;
 
-                const uchar *sample_row = src->data.uc + ypi * src->row_stride;
+                const uchar *row0 = src->data.uc + ypi * src->row_stride;
+                const uchar *row1 = row0;
+                if (ypi + 1 < src->height)
+                        row1 += src->row_stride;
 
                 for (int x = 0; x < dest->width; ++x) {
                         float xp = x * inv_scale;
                         int xpi = (int)xp;
                         float dx = xp - xpi;
 
-                        const uchar *sample = sample_row + xpi;
+                        int xpn = nx_min_i(xpi + 1, src->width - 1);
 
-                        float Ix0 = sample[0];
-                        float Ix1 = sample[1];
+                        float Ix0 = row0[xpi];
+                        float Ix1 = row0[xpn];
 
-                        float Iy0 = sample[src->row_stride];
-                        float Iy1 = sample[src->row_stride + 1];
+                        float Iy0 = row1[xpi];
+                        float Iy1 = row1[xpn];
 
                         short interp = (Ix0*(1.0f - dx) + Ix1*dx) * (1.0f - dy)
                                 + (Iy0*(1.0f - dx) + Iy1*dx) * dy;
@@ -639,20 +642,23 @@ void nx_image_scale_f32(struct NXImage *dest, const struct NXImage *src, float s
                 int ypi = (int)yp;
                 float dy = yp - ypi;
 
-                const float *sample_row = src->data.f32 + ypi * src->row_stride;
+                const float *row0 = src->data.f32 + ypi * src->row_stride;
+                const float *row1 = row0;
+                if (ypi + 1 < src->height)
+                        row1 += src->row_stride;
 
                 for (int x = 0; x < dest->width; ++x) {
                         float xp = x * inv_scale;
                         int xpi = (int)xp;
                         float dx = xp - xpi;
 
-                        const float *sample = sample_row + xpi;
+                        int xpn = nx_min_i(xpi + 1, src->width - 1);
 
-                        float Ix0 = sample[0];
-                        float Ix1 = sample[1];
+                        float Ix0 = row0[xpi];
+                        float Ix1 = row0[xpn];
 
-                        float Iy0 = sample[src->row_stride];
-                        float Iy1 = sample[src->row_stride + 1];
+                        float Iy0 = row1[xpi];
+                        float Iy1 = row1[xpn];
 
                         float interp = (Ix0*(1.0f - dx) + Ix1*dx) * (1.0f - dy)
                                 + (Iy0*(1.0f - dx) + Iy1*dx) * dy;
-- 
2.43.0


From 9847944c8477af62331a35ba55ef27794d1f24ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:16 +0000
Subject: [PATCH 32/77] fix: halving with smoothing does not read or write
 outside images of fewer than four pixels

---
 src/nx_image.c | 61 +++++++++++++++++++-------------------------------
 1 file changed, 23 insertions(+), 38 deletions(-)

diff --git a/src/nx_image.c b/src/nx_image.c
index d50107a..570fa17 100644
--- a/src/nx_image.c
+++ b/src/nx_image.c
@@ -823,6 +823,14 @@ void nx_image_upsample(struct NXImage *dest, const struct NXImage *src)
         }
 }
 
+// Position of i mirrored at the ends of 0..n-1, for n > 1 and -n <= i <= n
+static inline int mirror_index(int i, int n)
+{
+        if (i < 0)
+                i = -i;
+        return i < n ? i : 2*n - 2 - i;
+}
+
 #define NX_DEFINE_DOWNSAMPLE_AA_X_FUNC(F,T)                             \
         void nx_image_downsample_aa_x_##F(struct NXImage *dest, const struct NXImage *src) \
         {                                                               \
@@ -838,26 +846,16 @@ void nx_image_upsample(struct NXImage *dest, const struct NXImage *src)
                 for (int y = 0; y < dest->height; ++y) {                \
                         const T *src_row = src->data.F + y * src->row_stride; \
                         T *dest_row = dest->data.F + y * dest->row_stride; \
-                        dest_row[0] = (2*src_row[2] + 12*src_row[1]     \
-                                       + 11 * src_row[0]) * norm_f;     \
-                        for (int x = 1; x < dest->width-1; ++x) {       \
-                                float sum = src_row[2*x-2] + src_row[2*x+2] \
-                                        + 6 * (src_row[2*x-1] + src_row[2*x+1]) \
+                        for (int x = 0; x < dest->width; ++x) {         \
+                                int xm2 = mirror_index(2*x-2, src->width);\
+                                int xm1 = mirror_index(2*x-1, src->width);\
+                                int xp1 = mirror_index(2*x+1, src->width);\
+                                int xp2 = mirror_index(2*x+2, src->width);\
+                                float sum = src_row[xm2] + src_row[xp2] \
+                                        + 6 * (src_row[xm1] + src_row[xp1]) \
                                         + 11 * src_row[2*x];            \
                                 dest_row[x] = sum * norm_f;             \
                         }                                               \
-                        int twodw = 2*dest->width;                      \
-                        if (twodw == src->width)                        \
-                                dest_row[dest->width-1] = (src_row[twodw-4] \
-                                                           + 6 * (src_row[twodw-3] \
-                                                                  + src_row[twodw-1]) \
-                                                           + 12 * src_row[twodw-2]) * norm_f; \
-                        else                                            \
-                                dest_row[dest->width-1] = (src_row[twodw-4] \
-                                                           + src_row[twodw] \
-                                                           + 6 * (src_row[twodw-3] \
-                                                                  + src_row[twodw-1]) \
-                                                           + 11 * src_row[twodw-2]) * norm_f; \
                 }                                                       \
         }
 
@@ -894,29 +892,16 @@ void nx_image_downsample_aa_x(struct NXImage *dest, const struct NXImage *src)
                 for (int x = 0; x < dest->width; ++x) {                 \
                         const T *src_col = src->data.F + x;        \
                         T *dest_col = dest->data.F + x;            \
-                        dest_col[0] = (2*src_col[2*ss] + 12 * src_col[ss] \
-                                       + 11 * src_col[0]) * norm_f;     \
-                        for (int y = 1; y < dest->height-1; ++y) {      \
-                                int yds = y*dest->row_stride;           \
-                                float sum = src_col[(2*y-2)*ss] + src_col[(2*y+2)*ss] \
-                                        + 6 * (src_col[(2*y-1)*ss] + src_col[(2*y+1)*ss]) \
+                        for (int y = 0; y < dest->height; ++y) {        \
+                                int ym2 = mirror_index(2*y-2, src->height);\
+                                int ym1 = mirror_index(2*y-1, src->height);\
+                                int yp1 = mirror_index(2*y+1, src->height);\
+                                int yp2 = mirror_index(2*y+2, src->height);\
+                                float sum = src_col[ym2*ss] + src_col[yp2*ss] \
+                                        + 6 * (src_col[ym1*ss] + src_col[yp1*ss]) \
                                         + 11 * src_col[2*y*ss];         \
-                                dest_col[yds] = sum * norm_f;           \
+                                dest_col[y*ds] = sum * norm_f;          \
                         }                                               \
-                        const int dlast_col = (dest->height-1)*ds;      \
-                        int twodh = 2*dest->height;                     \
-                        if (twodh == src->height)                       \
-                                dest_col[dlast_col] = (src_col[(twodh-4)*ss] \
-                                                       + 6 * (src_col[(twodh-3)*ss] \
-                                                              + src_col[(twodh-1)*ss]) \
-                                                       + 12 * src_col[(twodh-2)*ss]) * norm_f; \
-                        else                                            \
-                                dest_col[dlast_col] = (src_col[(twodh-4)*ss] \
-                                                       + src_col[(twodh)*ss] \
-                                                       + 6 * (src_col[(twodh-3)*ss] \
-                                                              + src_col[(twodh-1)*ss]) \
-                                                       + 11 * src_col[(twodh-2)*ss]) * norm_f; \
-                                                                        \
                 }                                                       \
         }
 
-- 
2.43.0


From 074952e6c9b1ce6638a16b2a92dec34fb077220b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:20 +0000
Subject: [PATCH 33/77] fix: the y derivative of the last row follows the row
 stride of the source

---
 src/nx_image.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nx_image.c b/src/nx_image.c
index 570fa17..68aa0b2 100644
--- a/src/nx_image.c
+++ b/src/nx_image.c
@@ -1240,8 +1240,8 @@ void nx_image_deriv_x(struct NXImage *dest, const struct NXImage *src)
                         }                                               \
                 }                                                       \
                 for (int x = 0; x < dest->width; ++x) {                 \
-                        dest->data.f32[x + (src->height-1)*dest->row_stride] = 2.0f * (src->data.F[x + (src->height-1)*dest->row_stride] \
-                                                                                       - src->data.F[x + (src->height-2)*dest->row_stride])/S; \
+                        dest->data.f32[x + (src->height-1)*dest->row_stride] = 2.0f * (src->data.F[x + (src->height-1)*src->row_stride] \
+                                                                                       - src->data.F[x + (src->height-2)*src->row_stride])/S; \
                 }                                                       \
         }
 
-- 
2.43.0


From bf8b70395ba84713050f626c468d849124868854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:24 +0000
Subject: [PATCH 34/77] fix: derivatives of images one pixel wide or high do
 not read outside the image

---
 src/nx_image.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/nx_image.c b/src/nx_image.c
index 68aa0b2..a387eed 100644
--- a/src/nx_image.c
+++ b/src/nx_image.c
@@ -1186,6 +1186,10 @@ void nx_image_filter_box(struct NXImage *dest, const struct NXImage *src,
                                                                         \
                 nx_image_resize(dest, src->width, src->height, NX_IMAGE_STRIDE_DEFAULT, \
                                 src->type, NX_IMAGE_FLOAT32);           \
+                if (src->width < 2) {                                   \
+                        nx_image_set_zero(dest);                        \
+                        return;                                         \
+                }                                                       \
                                                                         \
                 for (int y = 0; y < src->height; ++y) {                 \
                         const T *src_row = src->data.F + y*src->row_stride; \
@@ -1226,6 +1230,8 @@ void nx_image_deriv_x(struct NXImage *dest, const struct NXImage *src)
                 nx_image_resize(dest, src->width, src->height, NX_IMAGE_STRIDE_DEFAULT, \
                                 src->type, NX_IMAGE_FLOAT32);           \
                 nx_image_set_zero(dest);                                \
+                if (src->height < 2)                                    \
+                        return;                                         \
                                                                         \
                 for (int x = 0; x < dest->width; ++x) {                 \
                         dest->data.f32[x] = 2.0f * (src->data.F[x + src->row_stride] \
-- 
2.43.0


From 001c8d1bc72ab7045f04151724879ed74d940cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:49 +0000
Subject: [PATCH 35/77] fix: colour maps clamp values outside 0..1 instead of
 reading outside their tables

---
 src/nx_colorspace.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/nx_colorspace.c b/src/nx_colorspace.c
index cf94c13..0484230 100644
--- a/src/nx_colorspace.c
+++ b/src/nx_colorspace.c
@@ -121,6 +121,13 @@ void nx_color_map_apply(uchar* red, uchar* green, uchar* blue,
                         float value, enum NXColorMap map)
 {
         float rgb[3];
+
+        // Values outside the map, including NaN, get its end colors
+        if (!(value > 0.0f))
+                value = 0.0f;
+        else if (value > 1.0f)
+                value = 1.0f;
+
         switch (map) {
         case NX_COLOR_MAP_VIRIDIS:
                 interpolate_color_map_data(&rgb[0], value,
-- 
2.43.0


From 98b74407670d7732643e68b05ef633ed7395218f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:53 +0000
Subject: [PATCH 36/77] fix: colours of a C++ colour map are opaque with alpha
 1

---
 include/virg/nexus/vg_color_map.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/virg/nexus/vg_color_map.hpp b/include/virg/nexus/vg_color_map.hpp
index 12a3880..8fb2bd5 100644
--- a/include/virg/nexus/vg_color_map.hpp
+++ b/include/virg/nexus/vg_color_map.hpp
@@ -40,7 +40,7 @@ public:
                 uchar v[3];
                 nx_color_map_apply(&v[0], &v[1], &v[2], value,
                                    VGColorMap::type_to_nx_type(type));
-                return VGColor(v[0]/255.0, v[1]/255.0, v[2]/255.0, 255);
+                return VGColor(v[0]/255.0, v[1]/255.0, v[2]/255.0, 1.0);
         }
 
         static inline enum NXColorMap type_to_nx_type(Type type) {
-- 
2.43.0


From 9f40ce92bfb81432be0ed277c81e4b80abbfa3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:56 +0000
Subject: [PATCH 37/77] fix: pyramid of an image with padded rows (row stride >
 width): level 0 lost its stride after the copy, scrambling every level

---
 src/nx_image_pyr.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/nx_image_pyr.c b/src/nx_image_pyr.c
index d3762bf..8abbc04 100644
--- a/src/nx_image_pyr.c
+++ b/src/nx_image_pyr.c
@@ -88,7 +88,11 @@ void nx_image_pyr_create_level(struct NXImagePyr *pyr, int level_id, int width,
 
         struct NXImagePyrLevel *level = pyr->levels + level_id;
 
-        nx_image_resize(level->img, width, height, 0, NX_IMAGE_GRAYSCALE, NX_IMAGE_UCHAR);
+        // A level that already has this geometry keeps its pixels and row stride.
+        const struct NXImage *img = level->img;
+        if (img->data.v == NULL || img->width != width || img->height != height
+            || img->type != NX_IMAGE_GRAYSCALE || img->dtype != NX_IMAGE_UCHAR)
+                nx_image_resize(level->img, width, height, 0, NX_IMAGE_GRAYSCALE, NX_IMAGE_UCHAR);
 
         level->scale = scale;
         level->sigma = sigma;
-- 
2.43.0


From e71239e34a04508f5797233d5c5b33f0fdf32982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:19 +0000
Subject: [PATCH 38/77] fix: affine warp: positions in (-1,0) extrapolated
 instead of using the border policy, mirrored border read outside the image
 beyond one reflection and divided by zero for one-pixel sides

---
 src/nx_image_warp.c | 35 +++++++++++++++++------------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/src/nx_image_warp.c b/src/nx_image_warp.c
index f33cfde..936aa2c 100644
--- a/src/nx_image_warp.c
+++ b/src/nx_image_warp.c
@@ -27,11 +27,23 @@
 
 #include <float.h>
 #include <math.h>
+#include <stdlib.h>
 
 #include "virg/nexus/nx_assert.h"
 #include "virg/nexus/nx_log.h"
 #include "virg/nexus/nx_uniform_sampler.h"
 
+// Index of the pixel at i when n pixels are repeatedly reflected at their ends
+static inline int mirror_index(int i, int n)
+{
+        if (n == 1)
+                return 0;
+
+        const int period = 2 * n - 2;
+        i = abs(i) % period;
+        return i < n ? i : period - i;
+}
+
 void nx_image_warp_affine_bilinear(int dest_w, int dest_h, uchar *dest, int dest_stride,
                                    int src_w, int src_h, const uchar *src, int src_stride,
                                    const float *t_dest2src, enum NXImageWarpBackgroundMode bg_mode)
@@ -42,8 +54,6 @@ void nx_image_warp_affine_bilinear(int dest_w, int dest_h, uchar *dest, int dest
 
         const int LAST_X = src_w - 1;
         const int LAST_Y = src_h - 1;
-        const int W2 = src_w * 2 - 2;
-        const int H2 = src_h * 2 - 2;
 
         uchar bg_fixed = 0;
         if (bg_mode == NX_IMAGE_WARP_WHITE)
@@ -62,8 +72,8 @@ void nx_image_warp_affine_bilinear(int dest_w, int dest_h, uchar *dest, int dest
                                          /* x, y, xp, yp); */
                         /* } */
 
-                        int xpi = xp;
-                        int ypi = yp;
+                        int xpi = floorf(xp);
+                        int ypi = floorf(yp);
 
                         float u = xp-xpi;
                         float v = yp-ypi;
@@ -108,20 +118,9 @@ void nx_image_warp_affine_bilinear(int dest_w, int dest_h, uchar *dest, int dest
                                 }
                                 break;
                         case NX_IMAGE_WARP_MIRROR:
-                                if (idx[0] < 0) {
-                                        if (idx[0] < 0) idx[0] =  -idx[0] - W2 * (-idx[0] / W2);
-                                        if (idx[1] < 0) idx[1] =  -idx[1] - W2 * (-idx[1] / W2);
-                                } else if (idx[0] >= LAST_X) {
-                                        if (idx[0] >= src_w) idx[0] = W2 - idx[0] - W2 * (idx[0] / W2);
-                                        if (idx[1] >= src_w) idx[1] = W2 - idx[1] - W2 * (idx[1] / W2);
-                                }
-
-                                if (idy[0] < 0) {
-                                        if (idy[0] < 0) idy[0] =  -idy[0] - H2 * (-idy[0] / H2);
-                                        if (idy[1] < 0) idy[1] =  -idy[1] - H2 * (-idy[1] / H2);
-                                } else if (idy[0] >= LAST_Y) {
-                                        if (idy[0] >= src_h) idy[0] = H2 - idy[0] - H2 * (idy[0] / H2);
-                                        if (idy[1] >= src_h) idy[1] = H2 - idy[1] - H2 * (idy[1] / H2);
+                                for (int i = 0; i < 2; ++i) {
+                                        idx[i] = mirror_index(idx[i], src_w);
+                                        idy[i] = mirror_index(idy[i], src_h);
                                 }
                                 break;
                         }
-- 
2.43.0


From c638738007c7d9d425ff9411ff0762c96f542aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:35 +0000
Subject: [PATCH 39/77] fix: 45-degree rotation: float images lost their
 fractions, positions in (-1,0) extrapolated instead of staying black

---
 src/nx_image_warp.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/nx_image_warp.c b/src/nx_image_warp.c
index 936aa2c..90d56c2 100644
--- a/src/nx_image_warp.c
+++ b/src/nx_image_warp.c
@@ -160,8 +160,8 @@ static void nx_image_rotate45_uc(struct NXImage *dest, struct NXImage *src, NXBo
                 float yp = y*SQRT2_INV + TY;
                 for (int x = 0; x < dest->width;
                      ++x, xp += SQRT2_INV, yp -= CW*SQRT2_INV) {
-                        int xpi = xp;
-                        int ypi = yp;
+                        int xpi = floorf(xp);
+                        int ypi = floorf(yp);
 
                         float u = xp-xpi;
                         float v = yp-ypi;
@@ -211,8 +211,8 @@ static void nx_image_rotate45_f32(struct NXImage *dest, struct NXImage *src, NXB
                 float yp = y*SQRT2_INV + TY;
                 for (int x = 0; x < dest->width;
                      ++x, xp += SQRT2_INV, yp -= CW*SQRT2_INV) {
-                        int xpi = xp;
-                        int ypi = yp;
+                        int xpi = floorf(xp);
+                        int ypi = floorf(yp);
 
                         float u = xp-xpi;
                         float v = yp-ypi;
@@ -229,7 +229,7 @@ static void nx_image_rotate45_f32(struct NXImage *dest, struct NXImage *src, NXB
                         }
                         const float *p0 = src->data.f32 + idy[0]*src->row_stride;
                         const float *p1 = src->data.f32 + idy[1]*src->row_stride;
-                        int I = vp*(up*p0[idx[0]] + u*p0[idx[1]])
+                        float I = vp*(up*p0[idx[0]] + u*p0[idx[1]])
                                 + v*(up*p1[idx[0]] + u*p1[idx[1]]);
 
                         drow[x] = I;
-- 
2.43.0


From 5a9d7a5258bf05a59a939b908cdbeb6ece2563ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:16 +0000
Subject: [PATCH 40/77] fix: views without tilt or post blur (sigma 0) were
 black: zero-sigma Gaussian kernel is NaN

---
 src/nx_affine_warp_processor.c | 44 ++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 20 deletions(-)

diff --git a/src/nx_affine_warp_processor.c b/src/nx_affine_warp_processor.c
index a58eb29..74518d9 100644
--- a/src/nx_affine_warp_processor.c
+++ b/src/nx_affine_warp_processor.c
@@ -672,34 +672,38 @@ static void warp_processor_blur(struct NXImage *image,
         int nk_sym = nk_max / 2 + 1;
         float *kernel = NX_NEW_S(nk_sym);
 
-        // Smooth in x-direction
-        int nk = nkx / 2 + 1;
-        nx_kernel_sym_gaussian(nk, kernel, sigma_x);
+        // Smooth in x-direction, a zero sigma leaves the image as it is
+        if (sigma_x > 0.0f) {
+                int nk = nkx / 2 + 1;
+                nx_kernel_sym_gaussian(nk, kernel, sigma_x);
 #ifdef _OPENMP
 #pragma omp parallel for schedule(dynamic, 4)
 #endif
-        for (int y = 0; y < image->height; ++y) {
-                float *buffer = buffers[omp_get_thread_num()];
-                uchar *image_row = image->data.uc + y * image->row_stride;
-                nx_filter_copy_to_buffer1_uc(image->width, buffer, image_row, nkx / 2, NX_BORDER_MIRROR);
-                nx_convolve_sym(image->width, buffer, nk, kernel);
-                for (int x = 0; x < image->width; ++x)
-                        image_row[x] = (uchar)buffer[x];
+                for (int y = 0; y < image->height; ++y) {
+                        float *buffer = buffers[omp_get_thread_num()];
+                        uchar *image_row = image->data.uc + y * image->row_stride;
+                        nx_filter_copy_to_buffer1_uc(image->width, buffer, image_row, nkx / 2, NX_BORDER_MIRROR);
+                        nx_convolve_sym(image->width, buffer, nk, kernel);
+                        for (int x = 0; x < image->width; ++x)
+                                image_row[x] = (uchar)buffer[x];
+                }
         }
 
-        // Smooth in y-direction
-        nk = nky / 2 + 1;
-        nx_kernel_sym_gaussian(nk, kernel, sigma_y);
+        // Smooth in y-direction, a zero sigma leaves the image as it is
+        if (sigma_y > 0.0f) {
+                int nk = nky / 2 + 1;
+                nx_kernel_sym_gaussian(nk, kernel, sigma_y);
 #ifdef _OPENMP
 #pragma omp parallel for schedule(dynamic, 4)
 #endif
-        for (int x = 0; x < image->width; ++x) {
-                float *buffer = buffers[omp_get_thread_num()];
-                uchar *image_col = image->data.uc + x;
-                nx_filter_copy_to_buffer_uc(image->height, buffer, image_col, image->row_stride, nky / 2, NX_BORDER_MIRROR);
-                nx_convolve_sym(image->height, buffer, nk, kernel);
-                for (int y = 0; y < image->height; ++y)
-                        image_col[y*image->row_stride] = (uchar)buffer[y];
+                for (int x = 0; x < image->width; ++x) {
+                        float *buffer = buffers[omp_get_thread_num()];
+                        uchar *image_col = image->data.uc + x;
+                        nx_filter_copy_to_buffer_uc(image->height, buffer, image_col, image->row_stride, nky / 2, NX_BORDER_MIRROR);
+                        nx_convolve_sym(image->height, buffer, nk, kernel);
+                        for (int y = 0; y < image->height; ++y)
+                                image_col[y*image->row_stride] = (uchar)buffer[y];
+                }
         }
 
         nx_free(kernel);
-- 
2.43.0


From 4f06936b56ba30b323fd888731fa8f87c6ec1e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:40 +0000
Subject: [PATCH 41/77] fix: matrix text with trailing garbage on a line (1 2
 x, 1,2) was silently accepted with the rest of the line dropped

---
 src/nx_mat.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/nx_mat.c b/src/nx_mat.c
index 31ba763..31ed874 100644
--- a/src/nx_mat.c
+++ b/src/nx_mat.c
@@ -25,6 +25,9 @@
  */
 #include "virg/nexus/nx_mat.h"
 
+#include <stdlib.h>
+#include <string.h>
+
 #include "virg/nexus/nx_alloc.h"
 #include "virg/nexus/nx_assert.h"
 #include "virg/nexus/nx_io.h"
@@ -84,6 +87,11 @@ double *nx_dmat_xread(FILE *stream, int *m, int *n)
                                 A[sz++] = d;
                         }
 
+                        if (dbegin[strspn(dbegin, " \t\n\v\f\r")] != '\0') {
+                                NX_FATAL(NX_LOG_TAG, "Reading matrix failed: Malformed element on line %d!",
+                                         *n + 1);
+                        }
+
                         if (*n == 0) {
                                 *n = 1;
                                 *m = ml;
-- 
2.43.0


From 544fc9296001d3c8fe14ac402c036db77c49fe15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:37 +0000
Subject: [PATCH 42/77] fix: nx_homography_check normalised the diagonals by
 their squared length, so acceptance depended on the size of the projected
 square

---
 src/nx_homography.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nx_homography.c b/src/nx_homography.c
index eb8d915..8491bc9 100644
--- a/src/nx_homography.c
+++ b/src/nx_homography.c
@@ -74,7 +74,7 @@ NXBool nx_homography_check(const double *h, double max_abs_cos)
         double l_AC[3];
         line_eqn_2d(&A[0], &C[0], &l_AC[0]);
 
-        double n_inv = 1.0 / (l_AC[0]*l_AC[0] + l_AC[1]*l_AC[1]);
+        double n_inv = 1.0 / sqrt(l_AC[0]*l_AC[0] + l_AC[1]*l_AC[1]);
         l_AC[0] *= n_inv;
         l_AC[1] *= n_inv;
         l_AC[2] *= n_inv;
@@ -87,7 +87,7 @@ NXBool nx_homography_check(const double *h, double max_abs_cos)
         double AC[2] = { -l_AC[1], l_AC[0] };
         double BD[2] = { B[0] - D[0], B[1] - D[1] };
 
-        n_inv = 1.0 / (BD[0]*BD[0] + BD[1]*BD[1]);
+        n_inv = 1.0 / sqrt(BD[0]*BD[0] + BD[1]*BD[1]);
         BD[0] *= n_inv;
         BD[1] *= n_inv;
 
-- 
2.43.0


From 86000f08c29f68241b154c3d74ebb41a590e8317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:10 +0000
Subject: [PATCH 43/77] fix: least-squares homography from four correspondences
 returned an uninitialised residual

---
 src/nx_homography.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nx_homography.c b/src/nx_homography.c
index 8491bc9..9eb978f 100644
--- a/src/nx_homography.c
+++ b/src/nx_homography.c
@@ -198,7 +198,8 @@ static inline void nx_homography_constraints_from_corr(double *rcons, const stru
 static inline double nx_homography_svd_solve(double *h, int n_corr, double *A)
 {
         double U[9*9];
-        double S[9];
+        // S[8] is not set by the decomposition if there are fewer than 9 constraints
+        double S[9] = { 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0 };
         nx_dsvd_us(&U[0], 9, &S[0], 9, 2*n_corr, A, 9);
 
         h[0] = U[9*8+0];
-- 
2.43.0


From 75919d374479ff2f1c8ada6b1707301c88e0a05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:40 +0000
Subject: [PATCH 44/77] fix: nx_essential_from_fundamental ignored the
 principal point and skew of the second camera

---
 src/nx_epipolar.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/nx_epipolar.c b/src/nx_epipolar.c
index 1273bb1..f503621 100644
--- a/src/nx_epipolar.c
+++ b/src/nx_epipolar.c
@@ -316,12 +316,12 @@ void nx_essential_from_fundamental(double *E, const double *F,
         E[0] = Kp[0]*Fk[0];
         E[3] = Kp[0]*Fk[3];
         E[6] = Kp[0]*Fk[6];
-        E[1] = Kp[1]*Fk[0] + Kp[4]*Fk[1];
-        E[4] = Kp[1]*Fk[3] + Kp[4]*Fk[4];
-        E[7] = Kp[1]*Fk[6] + Kp[4]*Fk[7];
-        E[2] = Kp[2]*Fk[0] + Kp[5]*Fk[1] + Fk[2];
-        E[5] = Kp[2]*Fk[3] + Kp[5]*Fk[4] + Fk[5];
-        E[8] = Kp[2]*Fk[6] + Kp[5]*Fk[7] + Fk[8];
+        E[1] = Kp[3]*Fk[0] + Kp[4]*Fk[1];
+        E[4] = Kp[3]*Fk[3] + Kp[4]*Fk[4];
+        E[7] = Kp[3]*Fk[6] + Kp[4]*Fk[7];
+        E[2] = Kp[6]*Fk[0] + Kp[7]*Fk[1] + Fk[2];
+        E[5] = Kp[6]*Fk[3] + Kp[7]*Fk[4] + Fk[5];
+        E[8] = Kp[6]*Fk[6] + Kp[7]*Fk[7] + Fk[8];
 }
 
 
-- 
2.43.0


From fb006f40caf7ec3723ba4e57fc43813097bb80ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:42 +0000
Subject: [PATCH 45/77] fix: eight-point fundamental matrix estimation returned
 an uninitialised residual

---
 src/nx_epipolar.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nx_epipolar.c b/src/nx_epipolar.c
index f503621..5fe88cd 100644
--- a/src/nx_epipolar.c
+++ b/src/nx_epipolar.c
@@ -75,7 +75,8 @@ static inline void nx_fundamental_constraints_from_corr(double *rcons, const str
 static inline double nx_fundamental_svd_solve(double *F, int n_corr, double *A)
 {
         double U[9*9];
-        double S[9];
+        // S[8] is not set by the decomposition if there are fewer than 9 constraints
+        double S[9] = { 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0 };
         nx_dsvd_us(&U[0], 9, &S[0], 9, n_corr, A, 9);
 
         F[0] = U[9*8+0];
-- 
2.43.0


From a415fecf93e15fe07b89e6b1715c3df677078df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:44 +0000
Subject: [PATCH 46/77] fix: nx_pinhole_triangulate wrote past the end of the
 caller's arrays when there were more inliers than room

---
 src/nx_pinhole.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_pinhole.c b/src/nx_pinhole.c
index 138ff35..438b32b 100644
--- a/src/nx_pinhole.c
+++ b/src/nx_pinhole.c
@@ -144,7 +144,7 @@ int nx_pinhole_triangulate(int n_pt, float *X, int *corr_ids,
         double U[16];
         double S[4];
         int pt_i = 0;
-        for (int i = 0; i < n_corr; ++i) {
+        for (int i = 0; i < n_corr && pt_i < n; ++i) {
                 if (corr_list[i].is_inlier) {
                         nx_triangulation_constraints_from_corr(&A[0],
                                                                corr_list + i,
-- 
2.43.0


From 2d5153f491ad024ecf610fbf0c60b7a6d9115f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:48 +0000
Subject: [PATCH 47/77] fix: normalising coincident or no matches divided by
 zero and destroyed their coordinates

---
 src/nx_point_match_2d_stats.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/nx_point_match_2d_stats.c b/src/nx_point_match_2d_stats.c
index 624ba6f..6da0b2e 100644
--- a/src/nx_point_match_2d_stats.c
+++ b/src/nx_point_match_2d_stats.c
@@ -56,6 +56,11 @@ void nx_point_match_2d_stats_normalize_matches(struct NXPointMatch2DStats *stats
                                                int n_corr,
                                                struct NXPointMatch2D *corr_list)
 {
+        if (n_corr <= 0) {
+                nx_point_match_2d_stats_reset(stats);
+                return;
+        }
+
         memset(stats, 0, sizeof(*stats));
 
         for (int i = 0; i < n_corr; ++i) {
@@ -85,6 +90,12 @@ void nx_point_match_2d_stats_normalize_matches(struct NXPointMatch2DStats *stats
         stats->d /= n_corr;
         stats->dp /= n_corr;
 
+        // coincident points have no spread to normalize
+        if (stats->d == 0.0)
+                stats->d = 1.0;
+        if (stats->dp == 0.0)
+                stats->dp = 1.0;
+
         for (int i = 0; i < n_corr; ++i) {
                 struct NXPointMatch2D *corr = corr_list + i;
                 corr->x[0]     /= stats->d;
-- 
2.43.0


From ca38c98729cfc990afb601e20ef3f74e15d9d72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:55:33 +0000
Subject: [PATCH 48/77] fix: minimal samples of the robust estimators could
 contain the same match twice

---
 src/nx_epipolar.c        | 2 +-
 src/nx_homography.c      | 2 +-
 src/nx_usac_homography.c | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/nx_epipolar.c b/src/nx_epipolar.c
index 5fe88cd..9d5cd57 100644
--- a/src/nx_epipolar.c
+++ b/src/nx_epipolar.c
@@ -196,7 +196,7 @@ static inline void nx_select_prosac_candidates(int n_top, int corr_ids[8])
         corr_ids[0] = (int)(NX_UNIFORM_SAMPLE_S*n_top);
         for (int i = 1; i < 8; ++i) {
                 corr_ids[i] = (int)(NX_UNIFORM_SAMPLE_S*n_top);
-                for (int j = i-1; j > 0; --j)
+                for (int j = i-1; j >= 0; --j)
                         if (corr_ids[i] == corr_ids[j]) {
                                 --i;
                                 break;
diff --git a/src/nx_homography.c b/src/nx_homography.c
index 9eb978f..e2f25f5 100644
--- a/src/nx_homography.c
+++ b/src/nx_homography.c
@@ -271,7 +271,7 @@ static inline void nx_select_prosac_candidates(int n_top, int corr_ids[4])
 
         do {
             corr_ids[3] = (int)(NX_UNIFORM_SAMPLE_S*n_top);
-        } while(corr_ids[3]==corr_ids[1] || corr_ids[3]==corr_ids[1] || corr_ids[3]==corr_ids[0]);
+        } while(corr_ids[3]==corr_ids[2] || corr_ids[3]==corr_ids[1] || corr_ids[3]==corr_ids[0]);
 }
 
 int nx_homography_estimate_ransac(double *h, int n_corr, struct NXPointMatch2D *corr_list, double inlier_tolerance, int max_n_iter)
diff --git a/src/nx_usac_homography.c b/src/nx_usac_homography.c
index 6f6f96c..b5b3f2f 100644
--- a/src/nx_usac_homography.c
+++ b/src/nx_usac_homography.c
@@ -61,7 +61,7 @@ void nx_usac_homography_sampling(int *sample_ids, void *data)
 
         do {
             sample_ids[3] = (int)(NX_UNIFORM_SAMPLE_S * hdata->n_top_hypo);
-        } while(sample_ids[3]==sample_ids[1] || sample_ids[3]==sample_ids[1] || sample_ids[3]==sample_ids[0]);
+        } while(sample_ids[3]==sample_ids[2] || sample_ids[3]==sample_ids[1] || sample_ids[3]==sample_ids[0]);
 }
 
 NXBool nx_usac_check_homography_sample(const int *sample_ids,
-- 
2.43.0


From eb5d8aa91d4868f5d46971452a3b23be653dd845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:57:26 +0000
Subject: [PATCH 49/77] fix: robust homography and fundamental matrix
 estimation used unset models when samples were degenerate or no iteration
 found inliers

---
 src/nx_epipolar.c   |  2 +-
 src/nx_homography.c | 17 ++++++++++-------
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/nx_epipolar.c b/src/nx_epipolar.c
index 9d5cd57..d037258 100644
--- a/src/nx_epipolar.c
+++ b/src/nx_epipolar.c
@@ -211,7 +211,7 @@ int nx_fundamental_estimate_ransac(double *F, int n_corr,
         NX_ASSERT_PTR(F);
         NX_ASSERT_PTR(corr_list);
 
-        double F_best[9];
+        double F_best[9] = { 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0 };
         int n_inliers_best = 0;
         int n_inliers = 0;
         int corr_ids[8];
diff --git a/src/nx_homography.c b/src/nx_homography.c
index e2f25f5..bc4beed 100644
--- a/src/nx_homography.c
+++ b/src/nx_homography.c
@@ -278,7 +278,7 @@ int nx_homography_estimate_ransac(double *h, int n_corr, struct NXPointMatch2D *
 {
         double min_angle = 15.0 * NX_PI / 180.0;
         double max_abs_cos = fabs(cos(min_angle));
-        double h_best[9];
+        double h_best[9] = { 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0 };
         int n_inliers_best = 0;
         int n_inliers = 0;
         int corr_ids[4];
@@ -308,14 +308,17 @@ int nx_homography_estimate_ransac(double *h, int n_corr, struct NXPointMatch2D *
             do {
                 nx_select_prosac_candidates(n_top_hypo, corr_ids);
                 det = nx_homography_estimate_4pt(h, corr_ids, corr_list);
-            } while ((det == 0.0) && --tries && !nx_homography_check(h, max_abs_cos));
+            } while ((det == 0.0 || !nx_homography_check(h, max_abs_cos)) && --tries);
 
-            n_inliers = nx_homography_mark_inliers(h, n_corr, corr_list, inlier_tolerance);
+            // h is only set if the sample was not degenerate
+            if (det != 0.0) {
+                n_inliers = nx_homography_mark_inliers(h, n_corr, corr_list, inlier_tolerance);
 
-            // update if we got sth. better than current best
-            if (n_inliers > n_inliers_best) {
-                memcpy(h_best, h, 9*sizeof(h[0]));
-                n_inliers_best = n_inliers;
+                // update if we got sth. better than current best
+                if (n_inliers > n_inliers_best) {
+                    memcpy(h_best, h, 9*sizeof(h[0]));
+                    n_inliers_best = n_inliers;
+                }
             }
 
             /* printf("%d ", iter); */
-- 
2.43.0


From 650805517efe1a01218a2c3d93b37a415fa75e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:57:29 +0000
Subject: [PATCH 50/77] fix: nx_uniform_sampler_sample_s could return 1.0, so
 that robust estimators indexed past the last match

---
 src/nx_uniform_sampler.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/nx_uniform_sampler.c b/src/nx_uniform_sampler.c
index fa94b8f..1f3f1c7 100644
--- a/src/nx_uniform_sampler.c
+++ b/src/nx_uniform_sampler.c
@@ -25,6 +25,7 @@
  */
 #include "virg/nexus/nx_uniform_sampler.h"
 
+#include <float.h>
 #include <stdlib.h>
 #include <time.h>
 
@@ -113,7 +114,9 @@ void nx_uniform_sampler_fill64(struct NXUniformSampler *sampler, int n, uint64_t
 
 float nx_uniform_sampler_sample_s(struct NXUniformSampler *sampler)
 {
-        return sfmt_genrand_real2(&sampler->state);
+        // rounding to single precision may take values just below one to one
+        float s = (float)sfmt_genrand_real2(&sampler->state);
+        return s < 1.0f ? s : 1.0f - FLT_EPSILON / 2.0f;
 }
 
 double nx_uniform_sampler_sample_d(struct NXUniformSampler *sampler)
-- 
2.43.0


From eb6164c4daafff6de625eaf20b635788af46ee87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:18 +0000
Subject: [PATCH 51/77] fix: nx_brief_extractor_read swapped radius and number
 of octets (wrong size, endless loop or heap overflow on reading back) and
 accepted non-positive sizes

---
 src/nx_brief_extractor.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/nx_brief_extractor.c b/src/nx_brief_extractor.c
index ed3a74b..e9bc790 100644
--- a/src/nx_brief_extractor.c
+++ b/src/nx_brief_extractor.c
@@ -373,7 +373,10 @@ NXResult nx_brief_extractor_read(struct NXBriefExtractor *be, FILE *stream)
         if (fread(&n_octets, sizeof(n_octets), 1, stream) != 1)
                 return NX_FAIL;
 
-        nx_brief_extractor_resize(be, radius, n_octets);
+        if (radius <= 0 || n_octets <= 0)
+                return NX_FAIL;
+
+        nx_brief_extractor_resize(be, n_octets, radius);
 
         int n_offsets = be->n_octets*4*8;
         if (fread(be->offsets, sizeof(*be->offsets), n_offsets, stream) != (size_t)n_offsets)
-- 
2.43.0


From 2c0b7b74d12843547a63a80848383db6e5f1e6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:20 +0000
Subject: [PATCH 52/77] fix: nx_brief_extractor_compute_pyr_at_theta read
 beyond the pyramid for keypoints whose sampling level does not exist

---
 src/nx_brief_extractor.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nx_brief_extractor.c b/src/nx_brief_extractor.c
index e9bc790..65f4015 100644
--- a/src/nx_brief_extractor.c
+++ b/src/nx_brief_extractor.c
@@ -239,6 +239,9 @@ NXBool nx_brief_extractor_compute_pyr_at_theta(struct NXBriefExtractor *be, cons
         NX_ASSERT_PTR(desc);
 
         int sample_level = level + be->pyr_level_offset;
+        if (sample_level >= pyr->n_levels)
+                return NX_FALSE;
+
         const struct NXImage *img = pyr->levels[sample_level].img;
         NX_IMAGE_ASSERT_GRAYSCALE_UCHAR(img);
 
-- 
2.43.0


From 15dfdbe82af6d4de31721bc35362785830622f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:23 +0000
Subject: [PATCH 53/77] fix: nx_brief_extractor_randomize never ended for a
 radius of 1 to 3

---
 src/nx_brief_extractor.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/nx_brief_extractor.c b/src/nx_brief_extractor.c
index 65f4015..ea31332 100644
--- a/src/nx_brief_extractor.c
+++ b/src/nx_brief_extractor.c
@@ -147,6 +147,8 @@ void nx_brief_extractor_randomize_with_seed(struct NXBriefExtractor *be, uint32_
 
         int length = be->n_octets * 8;
         int radius = be->radius;
+        // sampled offsets lie in (-radius, radius)
+        int min_d2 = nx_min_i(NX_BRIEF_TEST_PAIR_MIN_DISTANCE2, (radius-1)*(radius-1));
         for (int i = 0; i < length; ++i) {
                 int x0, y0;
                 x0 = 2*radius*(nx_uniform_sampler_sample_s(sampler) - 0.5f);
@@ -160,7 +162,7 @@ void nx_brief_extractor_randomize_with_seed(struct NXBriefExtractor *be, uint32_
                         int dx = x1 - x0;
                         int dy = y1 - y0;
                         d2 = dx*dx + dy*dy;
-                } while (d2 < NX_BRIEF_TEST_PAIR_MIN_DISTANCE2);
+                } while (d2 < min_d2);
 
                 be->offsets[4*i]   = x0;
                 be->offsets[4*i+1] = y0;
-- 
2.43.0


From 030491ce8e4cfcc825c42b1c23bc90d42c53e959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:11 +0000
Subject: [PATCH 54/77] fix: SIFT keypoint store did not grow from a capacity
 of 0 or 1 and wrote behind the arrays

---
 src/nx_sift_detector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_sift_detector.c b/src/nx_sift_detector.c
index f6e186c..78ea02b 100644
--- a/src/nx_sift_detector.c
+++ b/src/nx_sift_detector.c
@@ -151,7 +151,7 @@ struct NXSIFTKeyStore {
 int nx_sift_key_store_append(struct NXSIFTKeyStore *store)
 {
         if (store->n >= store->cap) {
-                int new_cap = (int)(store->cap * 1.6f);
+                int new_cap = nx_max_i(store->n + 1, (int)(store->cap * 1.6f));
                 store->keys = (struct NXKeypoint *)nx_xrealloc(store->keys,
                                                                new_cap*sizeof(struct NXKeypoint));
                 store->desc = (uchar *)nx_xrealloc(store->desc,
-- 
2.43.0


From 8bc5a27588890363ff38f9fff2e70a4bf5128f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:14 +0000
Subject: [PATCH 55/77] fix: nx_sift_match_brute_force without ratio check read
 keypoint -1 when there are no candidates

---
 src/nx_sift_detector.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nx_sift_detector.c b/src/nx_sift_detector.c
index 78ea02b..a5fa537 100644
--- a/src/nx_sift_detector.c
+++ b/src/nx_sift_detector.c
@@ -746,6 +746,9 @@ int nx_sift_match_brute_force(int n,  const struct NXKeypoint *keys,
 
         const float SIFT_LOCALIZATION_STD_DEV = 0.3f;
 
+        if (np <= 0) // no candidates to match
+                return 0;
+
         NXBool check_dist_ratio = dist_ratio_thr > 0.0f && dist_ratio_thr < 1.0f;
 
         if (check_dist_ratio) {
-- 
2.43.0


From f29169ff5c322282560e0eaef2335f57188ff21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:17 +0000
Subject: [PATCH 56/77] fix: nx_sift_detector_compute_with_cache hashed
 uninitialised pointers for float images

---
 src/nx_sift_detector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_sift_detector.c b/src/nx_sift_detector.c
index a5fa537..fc4d650 100644
--- a/src/nx_sift_detector.c
+++ b/src/nx_sift_detector.c
@@ -680,7 +680,7 @@ int nx_sift_detector_compute_with_cache(struct NXSIFTDetector *detector,
                 if (image->dtype == NX_IMAGE_UCHAR) {
                         msgs[i] = (uint8_t *)(image->data.uc + i * image->row_stride);
                         lmsg[i] = image->width * image->n_channels * sizeof(uchar);
-                } else if (image->dtype == NX_IMAGE_UCHAR) {
+                } else if (image->dtype == NX_IMAGE_FLOAT32) {
                         msgs[i] = (uint8_t *)(image->data.f32 + i * image->row_stride);
                         lmsg[i] = image->width * image->n_channels * sizeof(float);
                 }
-- 
2.43.0


From 95484e4ed27fe6f4a5e4902dcabaa9de860ee5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:54 +0000
Subject: [PATCH 57/77] fix: SIFT descriptor wrote before its histogram when a
 gradient has exactly the orientation of the keypoint

---
 src/nx_sift_detector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_sift_detector.c b/src/nx_sift_detector.c
index fc4d650..82eae48 100644
--- a/src/nx_sift_detector.c
+++ b/src/nx_sift_detector.c
@@ -228,7 +228,7 @@ void nx_sift_compute_fdescriptor(struct NXSIFTDetector *det,
                                 float h  = N_ORI_BINS * (sample_ori / (2.0 * NX_PI));
                                 int pxi = px > 0.0f ? (int)px : (int)(px - 1.0f); // floor
                                 int pyi = py > 0.0f ? (int)py : (int)(py - 1.0f); // floor
-                                int hi  = h  > 0.0f ? (int)h  : (int)(h  - 1.0f); // floor
+                                int hi  = (int)h; // floor, h is not negative
                                 int hi0 = (hi >= N_ORI_BINS) ? 0 : hi;
                                 int hi1 = ((hi0 + 1) >= N_ORI_BINS) ? 0 : hi0 + 1;
                                 float xeps = px - pxi;
-- 
2.43.0


From 0bb319221ecb569fc5d3fe3ca86fadda10bbf7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:56 +0000
Subject: [PATCH 58/77] fix: cached SIFT detection and matching leaked the list
 of hashed blocks on every call

---
 src/nx_sift_detector.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/nx_sift_detector.c b/src/nx_sift_detector.c
index 82eae48..51cdce0 100644
--- a/src/nx_sift_detector.c
+++ b/src/nx_sift_detector.c
@@ -725,6 +725,8 @@ int nx_sift_detector_compute_with_cache(struct NXSIFTDetector *detector,
 
         nx_free(hash_str);
         nx_free(cachefilepath);
+        nx_free(msgs);
+        nx_free(lmsg);
 
         return n_keys;
 }
@@ -885,6 +887,8 @@ int nx_sift_match_brute_force_with_cache(int n,  const struct NXKeypoint *keys,
 
         nx_free(hash_str);
         nx_free(cachefilepath);
+        nx_free(msgs);
+        nx_free(lmsg);
 
         return n_corr;
 }
-- 
2.43.0


From 7edf17fee16013ed49c99e1a965c6f9306a7424a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:58 +0000
Subject: [PATCH 59/77] fix: cached SIFT detection returned the result of
 another image with the same bytes in a different shape or type

---
 src/nx_sift_detector.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/nx_sift_detector.c b/src/nx_sift_detector.c
index 51cdce0..77b370a 100644
--- a/src/nx_sift_detector.c
+++ b/src/nx_sift_detector.c
@@ -673,7 +673,7 @@ int nx_sift_detector_compute_with_cache(struct NXSIFTDetector *detector,
                 cache_dir = NX_DEFAULT_CACHE_DIRECTORY;
 
         int n_rows = image->height;
-        int n_msgs = n_rows + 1;
+        int n_msgs = n_rows + 2;
         uint8_t **msgs = NX_NEW(n_msgs, uint8_t *);
         size_t *lmsg = NX_NEW_Z(n_msgs);
         for (int i = 0; i < n_rows; ++i) {
@@ -685,6 +685,10 @@ int nx_sift_detector_compute_with_cache(struct NXSIFTDetector *detector,
                         lmsg[i] = image->width * image->n_channels * sizeof(float);
                 }
         }
+        // images with the same bytes can have different shapes or types
+        int image_info[4] = { image->width, image->height, image->n_channels, (int)image->dtype };
+        msgs[n_msgs - 2] = (uint8_t *)(&image_info[0]);
+        lmsg[n_msgs - 2] = sizeof(image_info);
         msgs[n_msgs - 1] = (uint8_t *)(&detector->param);
         lmsg[n_msgs - 1] = sizeof(detector->param);
         uint8_t hash[32];
-- 
2.43.0


From 91fc17835e07a42205b21e7397b2ec6bf7506e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:02 +0000
Subject: [PATCH 60/77] fix: cached SIFT matching returned the result of other
 sets with the same bytes split differently

---
 src/nx_sift_detector.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/nx_sift_detector.c b/src/nx_sift_detector.c
index 77b370a..85687a2 100644
--- a/src/nx_sift_detector.c
+++ b/src/nx_sift_detector.c
@@ -845,7 +845,7 @@ int nx_sift_match_brute_force_with_cache(int n,  const struct NXKeypoint *keys,
         if (!cache_dir)
                 cache_dir = NX_DEFAULT_CACHE_DIRECTORY;
 
-        int n_msgs = 5;
+        int n_msgs = 6;
         uint8_t **msgs = NX_NEW(n_msgs, uint8_t *);
         size_t *lmsg = NX_NEW_Z(n_msgs);
         msgs[0] = (uint8_t *)(keys);
@@ -861,6 +861,11 @@ int nx_sift_match_brute_force_with_cache(int n,  const struct NXKeypoint *keys,
         msgs[4] = (uint8_t *)(&dist_ratio_thr);
         lmsg[4] = sizeof(dist_ratio_thr);
 
+        // the same bytes can be split differently into two sets
+        int set_sizes[2] = { n, np };
+        msgs[5] = (uint8_t *)(&set_sizes[0]);
+        lmsg[5] = sizeof(set_sizes);
+
         uint8_t hash[32];
         nx_sha256_multi(&hash[0], n_msgs, (const uint8_t *const *)msgs, lmsg);
 
-- 
2.43.0


From 986e33a52c7a0acaeb4639e65deb3eb8a811c278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:05 +0000
Subject: [PATCH 61/77] fix: SIFT detection looked for extrema beyond the right
 border (next row or row padding)

---
 src/nx_sift_detector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_sift_detector.c b/src/nx_sift_detector.c
index 85687a2..755db04 100644
--- a/src/nx_sift_detector.c
+++ b/src/nx_sift_detector.c
@@ -527,7 +527,7 @@ void nx_sift_process_dog(struct NXSIFTDetector *det,
                 const float *dogp_rowm  = dogp->data.f32 + (y-1) * dogp->row_stride;
                 const float *dogp_row   = dogp_rowm + dogp->row_stride;
                 const float *dogp_rowp  = dogp_row  + dogp->row_stride;
-                for (int x = B; x < dog->width + B; ++x) {
+                for (int x = B; x < dog->width - B; ++x) {
                         float dval = dog_row[x];
                         if (fabs(dval) > 0.8 * peak_thr
                             && ((dval > 0 && dval > dog_row[x-1]   && dval > dog_row[x+1]
-- 
2.43.0


From 04742aa10bf628c3930b17cfc7cc129e25df1268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:27 +0000
Subject: [PATCH 62/77] fix: SIFT descriptors subtracted the sub-pixel offset
 of the keypoint without rotating it, so that they changed when the image is
 turned

---
 src/nx_sift_detector.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/nx_sift_detector.c b/src/nx_sift_detector.c
index 755db04..ae0dd7e 100644
--- a/src/nx_sift_detector.c
+++ b/src/nx_sift_detector.c
@@ -181,8 +181,11 @@ void nx_sift_compute_fdescriptor(struct NXSIFTDetector *det,
                                   * sqrtf(2.0f) + 0.5f);
         float cori = cosf(key->ori);
         float sori = sinf(key->ori);
-        float rx_offset = key->xs - key->x;
-        float ry_offset = key->ys - key->y;
+        // sub-pixel offset of the keypoint in the rotated frame
+        float x_offset = key->xs - key->x;
+        float y_offset = key->ys - key->y;
+        float ry_offset =  cori * y_offset + sori * x_offset;
+        float rx_offset = -sori * y_offset + cori * x_offset;
 
         for (int dy = -sample_radius; dy <= +sample_radius; ++dy) {
                 int sample_y = dy + key->y;
-- 
2.43.0


From e81a922bb58ff3e5f765bcb2e7af00a7c7dcb5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:45 +0000
Subject: [PATCH 63/77] fix: SIFT orientation peaks at the cyclic border of the
 histogram were compared with a stale bin

---
 src/nx_sift_detector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_sift_detector.c b/src/nx_sift_detector.c
index ae0dd7e..bf886eb 100644
--- a/src/nx_sift_detector.c
+++ b/src/nx_sift_detector.c
@@ -350,7 +350,7 @@ float nx_sift_compute_ori_hist(float *hist, const struct NXImage *gx,
                 memcpy(&hist[1], &hist_buffer[0], NX_SIFT_N_ORI_BINS*sizeof(*hist));
         }
         // create cyclic border of length one
-        hist[0] = hist_buffer[NX_SIFT_N_ORI_BINS];
+        hist[0] = hist[NX_SIFT_N_ORI_BINS];
         hist[NX_SIFT_N_ORI_BINS+1] = hist[1];
 
         // Compute and return histogram peak
-- 
2.43.0


From ef00898a83a1d8c6e9194850491c0934015043ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:12 +0000
Subject: [PATCH 64/77] fix: nx_compare_int_incr overflowed for ints more than
 INT_MAX apart, so that sorting and integer statistics were wrong

---
 include/virg/nexus/nx_math.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/virg/nexus/nx_math.h b/include/virg/nexus/nx_math.h
index 0ff585c..cb74556 100644
--- a/include/virg/nexus/nx_math.h
+++ b/include/virg/nexus/nx_math.h
@@ -102,7 +102,7 @@ int nx_compare_int_incr(const void *i0p, const void *i1p)
         int i0 = *(int *)i0p;
         int i1 = *(int *)i1p;
 
-        return i0 - i1;
+        return (i0 > i1) - (i0 < i1);
 }
 
 __NX_END_DECL
-- 
2.43.0


From 4342dc576353832758eb7bae505a48ea9973dc43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:15 +0000
Subject: [PATCH 65/77] fix: median and quartiles of large ints overflowed

---
 src/nx_statistics.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/nx_statistics.c b/src/nx_statistics.c
index 282ade1..491aea8 100644
--- a/src/nx_statistics.c
+++ b/src/nx_statistics.c
@@ -135,17 +135,17 @@ void nx_istatistics_1d(struct NXStatistics1D *stats, int n, int *x)
                         stats->lower_quartile = x[half_half_n];
                         stats->upper_quartile = x[half_n + half_half_n + 1];
                 } else {
-                        stats->lower_quartile = (x[half_half_n - 1] + x[half_half_n]) / 2.0;
-                        stats->upper_quartile = (x[half_n + half_half_n] + x[half_n + half_half_n + 1]) / 2.0;
+                        stats->lower_quartile = ((double)x[half_half_n - 1] + x[half_half_n]) / 2.0;
+                        stats->upper_quartile = ((double)x[half_n + half_half_n] + x[half_n + half_half_n + 1]) / 2.0;
                 }
         } else {
-                stats->median = (x[half_n - 1] + x[half_n]) / 2.0;
+                stats->median = ((double)x[half_n - 1] + x[half_n]) / 2.0;
                 if (half_n & 1) {
                         stats->lower_quartile = x[half_half_n];
                         stats->upper_quartile = x[half_n + half_half_n];
                 } else {
-                        stats->lower_quartile = (x[half_half_n - 1] + x[half_half_n]) / 2.0;
-                        stats->upper_quartile = (x[half_n + half_half_n - 1] + x[half_n + half_half_n]) / 2.0;
+                        stats->lower_quartile = ((double)x[half_half_n - 1] + x[half_half_n]) / 2.0;
+                        stats->upper_quartile = ((double)x[half_n + half_half_n - 1] + x[half_n + half_half_n]) / 2.0;
                 }
         }
         stats->interquartile_range = stats->upper_quartile - stats->lower_quartile;
-- 
2.43.0


From c1204b8db328f8598013b2a95d4d18045edc9c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:18 +0000
Subject: [PATCH 66/77] fix: nx_graph_insert_adj_lst did not count the edges

---
 src/nx_graph.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/nx_graph.c b/src/nx_graph.c
index 777811d..c1b2b9a 100644
--- a/src/nx_graph.c
+++ b/src/nx_graph.c
@@ -152,8 +152,10 @@ void nx_graph_insert_adj_lst(struct NXGraphAdjLst *g,
         struct NXGraphEdge *e = nx_graph_edge_list_seach(g->edges[v], w);
         if (e)
                 e->weight = weight;
-        else
+        else {
                 g->edges[v] = nx_graph_edge_new(w, weight, g->edges[v]);
+                g->n_e++;
+        }
 
         e = nx_graph_edge_list_seach(g->edges[w], v);
         if (e)
-- 
2.43.0


From de0bd2e758e641132d2da4d67d4c35440aa9ced8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:28 +0000
Subject: [PATCH 67/77] fix: nx_kitti_slam_sequence_new dereferenced a NULL
 FILE for every sequence without ground-truth poses (KITTI test sequences
 11-21)

---
 src/nx_kitti_slam.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_kitti_slam.c b/src/nx_kitti_slam.c
index d4c840f..6b0667a 100644
--- a/src/nx_kitti_slam.c
+++ b/src/nx_kitti_slam.c
@@ -139,7 +139,7 @@ struct NXKittiSLAMSequence *nx_kitti_slam_sequence_new(struct NXKittiSLAM *datas
         char *pose_file = nx_fstr(NX_KITTI_SLAM_POSE_FILE_FORMAT,
                                   dataset->base_dir, seq_id);
         FILE *pose_in = nx_fopen(pose_file, "r");
-        seq->is_gt_available = (pose_file != NULL);
+        seq->is_gt_available = (pose_in != NULL);
         if (seq->is_gt_available) {
                 seq->poses = nx_read_poses_from_pose_file(pose_in, &seq->length);
                 nx_fclose(pose_in, "pose_in");
-- 
2.43.0


From 9f5d814420e0f57d80752c91842aff107c9e2c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:31 +0000
Subject: [PATCH 68/77] fix: KITTI poses and times readers silently truncated
 the sequence at a damaged number

---
 src/nx_kitti_slam.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/nx_kitti_slam.c b/src/nx_kitti_slam.c
index 6b0667a..a761b13 100644
--- a/src/nx_kitti_slam.c
+++ b/src/nx_kitti_slam.c
@@ -76,11 +76,12 @@ static double **nx_read_poses_from_pose_file(FILE *fp, int *length)
         double **poses = NX_NEW(cap, double *);
         size_t n = 0;
 
+        int n_read;
         double P[12];
-        while (12 == fscanf(fp, "%lf %lf %lf %lf %lf %lf %lf %lf %lf %lf %lf %lf",
-                            &P[0], &P[3], &P[6], &P[9],
-                            &P[1], &P[4], &P[7], &P[10],
-                            &P[2], &P[5], &P[8], &P[11])) {
+        while (12 == (n_read = fscanf(fp, "%lf %lf %lf %lf %lf %lf %lf %lf %lf %lf %lf %lf",
+                                      &P[0], &P[3], &P[6], &P[9],
+                                      &P[1], &P[4], &P[7], &P[10],
+                                      &P[2], &P[5], &P[8], &P[11]))) {
                 if (n >= cap) {
                         size_t new_cap = cap + 1000;
                         poses = nx_xrealloc(poses, new_cap*sizeof(*poses));
@@ -92,6 +93,9 @@ static double **nx_read_poses_from_pose_file(FILE *fp, int *length)
                 n++;
         }
 
+        if (n_read != EOF)
+                NX_FATAL(NX_LOG_TAG, "Error reading pose %d from poses file", (int)n);
+
         *length = n;
         return poses;
 }
@@ -103,8 +107,9 @@ static double *nx_read_times_from_times_file(FILE *fp, int *length)
         double *times = NX_NEW_D(cap);
         size_t n = 0;
 
+        int n_read;
         double t;
-        while (1 == fscanf(fp, "%lf", &t)) {
+        while (1 == (n_read = fscanf(fp, "%lf", &t))) {
                 if (n >= cap) {
                         size_t new_cap = cap + 1000;
                         times = nx_xrealloc(times, new_cap*sizeof(*times));
@@ -115,6 +120,9 @@ static double *nx_read_times_from_times_file(FILE *fp, int *length)
                 n++;
         }
 
+        if (n_read != EOF)
+                NX_FATAL(NX_LOG_TAG, "Error reading time %d from times file", (int)n);
+
         *length = n;
         return times;
 }
-- 
2.43.0


From 94ab35fc6541cc832ade18a7a503449734fb629d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:34 +0000
Subject: [PATCH 69/77] fix: Temple Color and VGG affine readers accepted any
 name that starts with a standard sequence name

---
 src/nx_temple_color_128.c   | 3 +--
 src/nx_vgg_affine_dataset.c | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/nx_temple_color_128.c b/src/nx_temple_color_128.c
index be1603c..cf96eef 100644
--- a/src/nx_temple_color_128.c
+++ b/src/nx_temple_color_128.c
@@ -136,8 +136,7 @@ nx_temple_color_128_sequence_new(const char *base_dir,
 
         NXBool found = NX_FALSE;
         for (int i = 0; i < NX_TEMPLE_COLOR_128_N_SEQ; ++i) {
-                size_t len = strlen(NX_TEMPLE_COLOR_128_SEQ_NAMES[i]);
-                if (0 == strncmp(seq_name, NX_TEMPLE_COLOR_128_SEQ_NAMES[i], len))
+                if (0 == strcmp(seq_name, NX_TEMPLE_COLOR_128_SEQ_NAMES[i]))
                         found = NX_TRUE;
         }
         if (!found) {
diff --git a/src/nx_vgg_affine_dataset.c b/src/nx_vgg_affine_dataset.c
index 80ab5a7..bb28e8c 100644
--- a/src/nx_vgg_affine_dataset.c
+++ b/src/nx_vgg_affine_dataset.c
@@ -87,8 +87,7 @@ nx_vgg_affine_sequence_new(const char *base_dir,
 
         NXBool found = NX_FALSE;
         for (int i = 0; i < NX_VGG_AFFINE_N_SEQ; ++i) {
-                size_t len = strlen(NX_VGG_AFFINE_SEQ_NAMES[i]);
-                if (0 == strncmp(seq_name, NX_VGG_AFFINE_SEQ_NAMES[i], len))
+                if (0 == strcmp(seq_name, NX_VGG_AFFINE_SEQ_NAMES[i]))
                         found = NX_TRUE;
         }
         if (!found) {
-- 
2.43.0


From 07b54727f994c512a52a01b63136c47b2e7fc70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:36 +0000
Subject: [PATCH 70/77] fix: Temple Color reader accepted a reversed frame
 range, giving a negative sequence length

---
 src/nx_temple_color_128.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nx_temple_color_128.c b/src/nx_temple_color_128.c
index cf96eef..b5e3859 100644
--- a/src/nx_temple_color_128.c
+++ b/src/nx_temple_color_128.c
@@ -57,6 +57,9 @@ static void nx_temple_color_128_xread_frame_range(const char *base_dir,
         if (2 != fscanf(fin, "%d,%d", start, end))
                 NX_FATAL(NX_LOG_TAG, "Error reading frame range from file %s",
                          frames_file);
+        if (*start < 0 || *end < *start)
+                NX_FATAL(NX_LOG_TAG, "Invalid frame range %d,%d in file %s",
+                         *start, *end, frames_file);
         nx_xfclose(fin, frames_file);
         nx_free(frames_file);
 }
-- 
2.43.0


From 6d3eee183e8111b664eac311a9110ee8a08e7492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:48 +0000
Subject: [PATCH 71/77] fix: curves drawn through a graphics context used the
 end point as first control point, and relative curves were absolute

---
 src/nx_gc_cairo_imp.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/nx_gc_cairo_imp.c b/src/nx_gc_cairo_imp.c
index aa4c338..bcdbe69 100644
--- a/src/nx_gc_cairo_imp.c
+++ b/src/nx_gc_cairo_imp.c
@@ -310,7 +310,7 @@ void nx_gc_curve_to(struct NXGC* gc, double x_e, double y_e,
         NX_ASSERT_PTR(gc->ctx);
         NX_ASSERT_PTR(gc->surface);
 
-        cairo_curve_to(gc->ctx, x_e, y_e, c1x, c1y, c2x, c2y);
+        cairo_curve_to(gc->ctx, c1x, c1y, c2x, c2y, x_e, y_e);
 }
 
 void nx_gc_rel_curve_to(struct NXGC* gc, double dx_e, double dy_e,
@@ -320,7 +320,7 @@ void nx_gc_rel_curve_to(struct NXGC* gc, double dx_e, double dy_e,
         NX_ASSERT_PTR(gc->ctx);
         NX_ASSERT_PTR(gc->surface);
 
-        cairo_curve_to(gc->ctx, dx_e, dy_e, c1dx, c1dy, c2dx, c2dy);
+        cairo_rel_curve_to(gc->ctx, c1dx, c1dy, c2dx, c2dy, dx_e, dy_e);
 }
 
 void nx_gc_curve(struct NXGC* gc, double x_s, double y_s, double x_e, double y_e,
@@ -331,7 +331,7 @@ void nx_gc_curve(struct NXGC* gc, double x_s, double y_s, double x_e, double y_e
         NX_ASSERT_PTR(gc->surface);
 
         cairo_move_to(gc->ctx, x_s, y_s);
-        cairo_curve_to(gc->ctx, x_e, y_e, c1x, c1y, c2x, c2y);
+        cairo_curve_to(gc->ctx, c1x, c1y, c2x, c2y, x_e, y_e);
 }
 
 void nx_gc_draw_text(struct NXGC* gc, double x, double y, const char* txt, double font_sz)
-- 
2.43.0


From 1d52948e363387096818571be5d26e510c7bbb01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:51 +0000
Subject: [PATCH 72/77] fix: A4 page constants of the C++ graphics context
 converted a size in points from millimetres again

---
 src/vg_graphics_context.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vg_graphics_context.cc b/src/vg_graphics_context.cc
index 688ebf6..1d1e0ca 100644
--- a/src/vg_graphics_context.cc
+++ b/src/vg_graphics_context.cc
@@ -31,8 +31,8 @@ using std::shared_ptr;
 namespace virg {
 namespace nexus {
 
-const double VGGraphicsContext::A4_WIDTH_IN_PTS = NX_GC_MM_TO_POINTS*NX_GC_A4_WIDTH;
-const double VGGraphicsContext::A4_HEIGHT_IN_PTS = NX_GC_MM_TO_POINTS*NX_GC_A4_HEIGHT;
+const double VGGraphicsContext::A4_WIDTH_IN_PTS = NX_GC_A4_WIDTH;
+const double VGGraphicsContext::A4_HEIGHT_IN_PTS = NX_GC_A4_HEIGHT;
 
 VGGraphicsContext::VGGraphicsContext(struct NXGC* nx_gc)
         : m_gc(nx_gc, nx_gc_free)
-- 
2.43.0


From 3ac6bd8dc90bdb3f4837c986d40f3f0869e565f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:54 +0000
Subject: [PATCH 73/77] fix: a PDF or SVG page that cannot be written, or a
 surface that cannot be created, went unnoticed

---
 src/nx_gc_cairo_imp.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/nx_gc_cairo_imp.c b/src/nx_gc_cairo_imp.c
index bcdbe69..3462ba5 100644
--- a/src/nx_gc_cairo_imp.c
+++ b/src/nx_gc_cairo_imp.c
@@ -67,7 +67,8 @@ struct NXGC* nx_gc_new(struct NXImage* img)
                                                           img->height,
                                                           img->row_stride);
 
-        if (!gc->surface) {
+        if (cairo_surface_status(gc->surface) != CAIRO_STATUS_SUCCESS) {
+                cairo_surface_destroy(gc->surface);
                 nx_free(gc);
                 NX_FATAL(NX_LOG_TAG, "Could not create Cairo surface for new GC from image.");
         }
@@ -94,7 +95,8 @@ struct NXGC* nx_gc_new_pdf(const char* filename, double width, double height)
         gc->type = NX_GC_PDF;
 
         gc->surface = cairo_pdf_surface_create(filename, width, height);
-        if (!gc->surface) {
+        if (cairo_surface_status(gc->surface) != CAIRO_STATUS_SUCCESS) {
+                cairo_surface_destroy(gc->surface);
                 nx_free(gc);
                 NX_FATAL(NX_LOG_TAG, "Could not create Cairo surface for new PDF GC for file %s.", filename);
         }
@@ -121,7 +123,8 @@ struct NXGC* nx_gc_new_svg(const char* filename, double width, double height)
         gc->type = NX_GC_SVG;
 
         gc->surface = cairo_svg_surface_create(filename, width, height);
-        if (!gc->surface) {
+        if (cairo_surface_status(gc->surface) != CAIRO_STATUS_SUCCESS) {
+                cairo_surface_destroy(gc->surface);
                 nx_free(gc);
                 NX_FATAL(NX_LOG_TAG, "Could not create Cairo surface for new SVG GC for file %s.", filename);
         }
-- 
2.43.0


From ee9fbe932829219942eb8af270464d730db1f720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:22 +0000
Subject: [PATCH 74/77] fix: axis labels sent to gnuplot replaced the title by
 a syntax error

---
 src/nx_gnuplot.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nx_gnuplot.c b/src/nx_gnuplot.c
index c26cea2..3b847c1 100644
--- a/src/nx_gnuplot.c
+++ b/src/nx_gnuplot.c
@@ -202,7 +202,7 @@ void nx_gnuplot_set_xlabel(struct NXGNUPlot *gnuplot,
         NX_ASSERT_PTR(gnuplot);
         NX_ASSERT_PTR(label);
 
-        nx_gnuplot_send_command(gnuplot, "set title xlabel \"%s\";\n", label);
+        nx_gnuplot_send_command(gnuplot, "set xlabel \"%s\";\n", label);
 }
 
 void nx_gnuplot_set_ylabel(struct NXGNUPlot *gnuplot,
@@ -211,7 +211,7 @@ void nx_gnuplot_set_ylabel(struct NXGNUPlot *gnuplot,
         NX_ASSERT_PTR(gnuplot);
         NX_ASSERT_PTR(label);
 
-        nx_gnuplot_send_command(gnuplot, "set title ylabel \"%s\";\n", label);
+        nx_gnuplot_send_command(gnuplot, "set ylabel \"%s\";\n", label);
 }
 
 void nx_gnuplot_set_title_and_labels(struct NXGNUPlot *gnuplot, const char *title,
-- 
2.43.0


From dc45f9a96f945b4345bc3dfe35529b1bda1ad6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:32 +0000
Subject: [PATCH 75/77] fix: the panorama builder read and wrote outside its
 tables when an image does not connect to the others

---
 tools/nx_panorama_builder.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tools/nx_panorama_builder.c b/tools/nx_panorama_builder.c
index 0558cb3..8dff14f 100644
--- a/tools/nx_panorama_builder.c
+++ b/tools/nx_panorama_builder.c
@@ -261,6 +261,9 @@ int *nx_panorama_builder_find_shortest_paths(int n, double* weights, int source)
                         }
                 }
 
+                if (current < 0) // remaining nodes can not be reached
+                        break;
+
                 visited[current] = NX_TRUE;
                 n_not_visited--;
 
@@ -279,6 +282,7 @@ int *nx_panorama_builder_find_shortest_paths(int n, double* weights, int source)
                 }
         }
 
+        nx_free(visited);
         nx_free(node_val);
 
         return next_node;
@@ -395,6 +399,10 @@ void nx_panorama_builder_init(struct NXPanoramaBuilder *builder)
         /* } */
 
         for (int i = 0; i < N; ++i) {
+                if (next_node[i] < 0)
+                        NX_FATAL(NX_LOG_TAG, "Could not connect panorama input %s to the other images!",
+                                 nx_string_array_get(builder->image_names, i));
+
                 nx_dmat3_eye(builder->H_to_ref[i]);
                 int node = i;
                 int next = next_node[node];
-- 
2.43.0


From 538756ccd8c9289ed31df7570d0dea57ad6945df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:19 +0000
Subject: [PATCH 76/77] fix: SIFT cache entries were written in place, so that
 an interrupted, failed or concurrent write left a truncated entry that made
 later requests end in a fatal error

---
 src/nx_sift_detector.c | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/nx_sift_detector.c b/src/nx_sift_detector.c
index bf886eb..2c996e2 100644
--- a/src/nx_sift_detector.c
+++ b/src/nx_sift_detector.c
@@ -35,6 +35,8 @@
 #include "virg/nexus/nx_sift_detector.h"
 
 #include <math.h>
+#include <stdio.h>
+#include <unistd.h>
 
 #include "virg/nexus/nx_alloc.h"
 #include "virg/nexus/nx_assert.h"
@@ -659,6 +661,21 @@ int nx_sift_detector_compute(struct NXSIFTDetector *det,
         return store.n;
 }
 
+// Cache entries are written to a file of the process first and moved into place
+// once complete, so that a reader never sees a partially written entry.
+static char *nx_sift_cache_part_path(const char *cachefilepath)
+{
+        return nx_fstr("%s.%ld.part", cachefilepath, (long)getpid());
+}
+
+static void nx_sift_cache_publish(FILE *fout, const char *partfilepath,
+                                  const char *cachefilepath)
+{
+        if (nx_fclose(fout, partfilepath) != NX_OK
+            || rename(partfilepath, cachefilepath) != 0)
+                remove(partfilepath);
+}
+
 int nx_sift_detector_compute_with_cache(struct NXSIFTDetector *detector,
                                         struct NXImage *image,
                                         int *max_n_keys,
@@ -721,11 +738,13 @@ int nx_sift_detector_compute_with_cache(struct NXSIFTDetector *detector,
 
                 // cache keys and descriptors
                 nx_ensure_dir(cache_dir);
-                FILE *fout = nx_xfopen(cachefilepath, "wb");
+                char *partfilepath = nx_sift_cache_part_path(cachefilepath);
+                FILE *fout = nx_xfopen(partfilepath, "wb");
                 nx_xfwrite(&n_keys, sizeof(n_keys), 1, fout);
                 nx_xfwrite(*keys, sizeof(struct NXKeypoint), n_keys, fout);
                 nx_xfwrite(*desc, sizeof(uchar), n_keys * NX_SIFT_DESC_DIM, fout);
-                nx_fclose(fout, cachefilepath);
+                nx_sift_cache_publish(fout, partfilepath, cachefilepath);
+                nx_free(partfilepath);
                 NX_LOG(NX_LOG_TAG, "Cached %d SIFT keypoints and descriptors to %s",
                        n_keys, cachefilepath);
         }
@@ -889,10 +908,12 @@ int nx_sift_match_brute_force_with_cache(int n,  const struct NXKeypoint *keys,
                                                    corr, dist_ratio_thr);
                 // cache keys and descriptors
                 nx_ensure_dir(cache_dir);
-                FILE *fout = nx_xfopen(cachefilepath, "wb");
+                char *partfilepath = nx_sift_cache_part_path(cachefilepath);
+                FILE *fout = nx_xfopen(partfilepath, "wb");
                 nx_xfwrite(&n_corr, sizeof(n_corr), 1, fout);
                 nx_xfwrite(corr, sizeof(struct NXPointMatch2D), n_corr, fout);
-                nx_fclose(fout, cachefilepath);
+                nx_sift_cache_publish(fout, partfilepath, cachefilepath);
+                nx_free(partfilepath);
                 NX_LOG(NX_LOG_TAG, "Cached %d SIFT matches to %s",
                        n_corr, cachefilepath);
         }
-- 
2.43.0


From 7c8fda0e00fa953861581efbc6f5cb517ffda494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:21 +0000
Subject: [PATCH 77/77] fix: nx_ensure_dir ended in a fatal error when another
 process created the directory between its check and its mkdir

---
 src/nx_filesystem.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_filesystem.c b/src/nx_filesystem.c
index 53cc81b..c8e92a2 100644
--- a/src/nx_filesystem.c
+++ b/src/nx_filesystem.c
@@ -89,7 +89,7 @@ void nx_ensure_dir(const char *path)
         if (nx_check_dir(path))
                 return;
 
-        if (0 != mkdir(path, 0700)) {
+        if (0 != mkdir(path, 0700) && !nx_check_dir(path)) { // another process may have created it
                 NX_FATAL(NX_LOG_TAG, "Could not create directory %s", path);
         }
 }
-- 
2.43.0

