From ddda4cff77d1620cb7975851d8f3c021b6b515bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:53 +0000
Subject: [PATCH 01/69] fix: reject NULL archive and NULL
 processing-instruction arguments instead of dereferencing them

---
 src/libsrcml/srcml_archive.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/libsrcml/srcml_archive.cpp b/src/libsrcml/srcml_archive.cpp
index 1e01848..295c3f8 100644
--- a/src/libsrcml/srcml_archive.cpp
+++ b/src/libsrcml/srcml_archive.cpp
@@ -107,6 +107,9 @@ const char* srcml_archive_error_string(const struct srcml_archive* archive) {
  */
 void srcml_archive_free(struct srcml_archive* archive) {
 
+    if (archive == nullptr)
+        return;
+
     if (archive->translator) {
         delete archive->translator;
         archive->translator = nullptr;
@@ -126,9 +129,6 @@ void srcml_archive_free(struct srcml_archive* archive) {
         archive->reader = nullptr;
     }
 
-    if (archive == nullptr)
-        return;
-
     delete archive;
 }
 
@@ -300,6 +300,10 @@ int srcml_archive_set_options(struct srcml_archive* archive, size_t options) {
  * @param archive a srcml_archive
  */
 int srcml_archive_is_solitary_unit(const struct srcml_archive* archive) {
+
+    if (archive == nullptr)
+        return 0;
+
     return (archive->options & SRCML_OPTION_ARCHIVE) == 0;
 }
 
@@ -308,6 +312,9 @@ int srcml_archive_is_solitary_unit(const struct srcml_archive* archive) {
  */
 int srcml_archive_has_hash(const struct srcml_archive* archive) {
 
+    if (archive == nullptr)
+        return 0;
+
     return (archive->options & SRCML_OPTION_HASH) != 0;
 }
 
@@ -504,7 +511,7 @@ int srcml_archive_register_namespace(struct srcml_archive* archive, const char*
  */
 int srcml_archive_set_processing_instruction(struct srcml_archive* archive, const char* target, const char* data) {
 
-    if (archive == nullptr)
+    if (archive == nullptr || target == nullptr || data == nullptr)
         return SRCML_STATUS_INVALID_ARGUMENT;
 
     archive->processing_instruction = std::pair<std::string,std::string>(target, data);
@@ -763,7 +770,7 @@ const char* srcml_archive_get_uri_from_prefix(const struct srcml_archive* archiv
  */
 const char* srcml_archive_get_processing_instruction_target(const struct srcml_archive* archive) {
 
-    return archive->processing_instruction ? archive->processing_instruction->first.c_str() : 0;
+    return archive && archive->processing_instruction ? archive->processing_instruction->first.c_str() : 0;
 }
 
 /**
@@ -774,7 +781,7 @@ const char* srcml_archive_get_processing_instruction_target(const struct srcml_a
  */
 const char* srcml_archive_get_processing_instruction_data(const struct srcml_archive* archive) {
 
-    return archive->processing_instruction ?  archive->processing_instruction->second.c_str() : 0;
+    return archive && archive->processing_instruction ? archive->processing_instruction->second.c_str() : 0;
 }
 
 /**
-- 
2.43.0


From c0f83e93f5a0854530db763484d99fd1dbe8fd5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:53 +0000
Subject: [PATCH 02/69] fix: srcml_transform_* accept a NULL result without
 dereferencing it

---
 src/libsrcml/srcml_transform.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/libsrcml/srcml_transform.cpp b/src/libsrcml/srcml_transform.cpp
index c416342..f677f76 100644
--- a/src/libsrcml/srcml_transform.cpp
+++ b/src/libsrcml/srcml_transform.cpp
@@ -568,7 +568,8 @@ int srcml_unit_apply_transforms(struct srcml_archive* archive, struct srcml_unit
         // if there are no results, then we can't apply further transformations
         // but there still might be results in the scalar values
         if (fullresults->nodeNr == 0) {
-            result->units.clear();
+            if (result != nullptr)
+                result->units.clear();
             break;
         }
     }
@@ -769,6 +770,9 @@ int srcml_unit_apply_transforms(struct srcml_archive* archive, struct srcml_unit
  */
 int srcml_transform_free(struct srcml_transform_result* result) {
 
+    if (result == nullptr)
+        return SRCML_STATUS_INVALID_ARGUMENT;
+
     for (auto unit : result->units) {
         srcml_unit_free(unit);
     }
@@ -784,6 +788,9 @@ int srcml_transform_free(struct srcml_transform_result* result) {
  */
 LIBSRCML_DECL int srcml_transform_get_type(struct srcml_transform_result* result) {
 
+    if (result == nullptr)
+        return SRCML_RESULT_NONE;
+
     return result->type;
 }
 
@@ -794,7 +801,7 @@ LIBSRCML_DECL int srcml_transform_get_type(struct srcml_transform_result* result
 int srcml_transform_get_unit_size(struct srcml_transform_result* result) {
 
     // make sure correct result type
-    if (result->type != SRCML_RESULT_UNITS)
+    if (result == nullptr || result->type != SRCML_RESULT_UNITS)
        return 0;
 
     return (int) result->units.size();
@@ -808,7 +815,7 @@ int srcml_transform_get_unit_size(struct srcml_transform_result* result) {
 struct srcml_unit* srcml_transform_get_unit(struct srcml_transform_result* result, int index) {
 
     // make sure correct result type
-    if (result->type != SRCML_RESULT_UNITS)
+    if (result == nullptr || result->type != SRCML_RESULT_UNITS)
         return 0;
 
     if (index >= (int) result->units.size())
@@ -824,7 +831,7 @@ struct srcml_unit* srcml_transform_get_unit(struct srcml_transform_result* resul
 const char* srcml_transform_get_string(struct srcml_transform_result* result) {
 
     // make sure correct result type
-    if (result->type != SRCML_RESULT_STRING)
+    if (result == nullptr || result->type != SRCML_RESULT_STRING)
         return 0;
 
     if (!result->stringValue)
@@ -840,7 +847,7 @@ const char* srcml_transform_get_string(struct srcml_transform_result* result) {
 double srcml_transform_get_number(struct srcml_transform_result* result) {
 
     // make sure correct result type
-    if (result->type != SRCML_RESULT_NUMBER)
+    if (result == nullptr || result->type != SRCML_RESULT_NUMBER)
         return 0;
 
     if (!result->numberValue)
@@ -856,7 +863,7 @@ double srcml_transform_get_number(struct srcml_transform_result* result) {
 int srcml_transform_get_bool(struct srcml_transform_result* result) {
 
     // make sure correct result type
-    if (result->type != SRCML_RESULT_BOOLEAN)
+    if (result == nullptr || result->type != SRCML_RESULT_BOOLEAN)
         return -1;
 
     if (!result->boolValue)
-- 
2.43.0


From d84e9dcbac4659c9b9d62c9e221c52da3bec8be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:53 +0000
Subject: [PATCH 03/69] fix: reject out-of-range positions in the namespace,
 macro and transform-result accessors

---
 src/libsrcml/srcml_archive.cpp   | 6 +++---
 src/libsrcml/srcml_transform.cpp | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/libsrcml/srcml_archive.cpp b/src/libsrcml/srcml_archive.cpp
index 295c3f8..9f7245a 100644
--- a/src/libsrcml/srcml_archive.cpp
+++ b/src/libsrcml/srcml_archive.cpp
@@ -699,7 +699,7 @@ const char* srcml_archive_get_namespace_prefix(const struct srcml_archive* archi
     if (archive == nullptr)
         return nullptr;
 
-    if (pos > archive->namespaces.size())
+    if (pos >= archive->namespaces.size())
         return nullptr;
 
     return archive->namespaces[pos].prefix.c_str();
@@ -808,7 +808,7 @@ const char* srcml_archive_get_macro_token(const struct srcml_archive* archive, s
     if (archive == nullptr)
         return 0;
 
-    if (pos * 2 >= archive->user_macro_list.size())
+    if (pos >= archive->user_macro_list.size() / 2)
         return 0;
 
     return archive->user_macro_list[pos * 2].c_str();
@@ -852,7 +852,7 @@ const char* srcml_archive_get_macro_type(const struct srcml_archive* archive, si
     if (archive == nullptr)
         return 0;
 
-    if (pos * 2 + 1 >= archive->user_macro_list.size())
+    if (pos >= archive->user_macro_list.size() / 2)
         return 0;
 
     return archive->user_macro_list[pos * 2 + 1].c_str();
diff --git a/src/libsrcml/srcml_transform.cpp b/src/libsrcml/srcml_transform.cpp
index f677f76..aaa6e30 100644
--- a/src/libsrcml/srcml_transform.cpp
+++ b/src/libsrcml/srcml_transform.cpp
@@ -818,7 +818,7 @@ struct srcml_unit* srcml_transform_get_unit(struct srcml_transform_result* resul
     if (result == nullptr || result->type != SRCML_RESULT_UNITS)
         return 0;
 
-    if (index >= (int) result->units.size())
+    if (index < 0 || index >= (int) result->units.size())
         return 0;
 
     return result->units[index];
-- 
2.43.0


From 5aa18fe394756d1c61002886e706474b63dbce61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:46 +0000
Subject: [PATCH 04/69] fix: srcml_archive_set_options keeps the internal
 options (archive, hash, declared cpp)

---
 src/libsrcml/srcml_archive.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/libsrcml/srcml_archive.cpp b/src/libsrcml/srcml_archive.cpp
index 9f7245a..dc92e4b 100644
--- a/src/libsrcml/srcml_archive.cpp
+++ b/src/libsrcml/srcml_archive.cpp
@@ -289,9 +289,10 @@ int srcml_archive_set_options(struct srcml_archive* archive, size_t options) {
         archive->options |= SRCML_OPTION_CPP_DECLARED;
     }
 
-    int modoption = options % (1<<7);
+    OPTION_TYPE modoption = options % (1<<7);
 
-    archive->options = modoption;
+    // only the public options are replaced, the internal ones (archive, hash, ...) are kept
+    archive->options = (archive->options & ~(OPTION_TYPE)((1<<7) - 1)) | modoption;
 
     return SRCML_STATUS_OK;
 }
-- 
2.43.0


From 05f8dfad9006ec1003d6f8a086da2db03859a0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:20 +0000
Subject: [PATCH 05/69] fix: handle a failed srcml_unit_create in read_unit,
 skip_unit and unit_clone

---
 src/libsrcml/srcml_archive.cpp | 5 +++++
 src/libsrcml/srcml_unit.cpp    | 3 +++
 2 files changed, 8 insertions(+)

diff --git a/src/libsrcml/srcml_archive.cpp b/src/libsrcml/srcml_archive.cpp
index dc92e4b..f90c682 100644
--- a/src/libsrcml/srcml_archive.cpp
+++ b/src/libsrcml/srcml_archive.cpp
@@ -1282,6 +1282,9 @@ struct srcml_unit* srcml_archive_read_unit(struct srcml_archive* archive) {
         return nullptr;
 
     std::unique_ptr<srcml_unit> unit(srcml_unit_create(archive));
+    if (!unit)
+        return nullptr;
+
     int not_done = 0;
     if (!unit->read_header)
         not_done = archive->reader->read_header(unit.get());
@@ -1314,6 +1317,8 @@ int srcml_archive_skip_unit(struct srcml_archive* archive) {
 
     // read the header only of a temporary unit
     std::unique_ptr<srcml_unit> unit(srcml_unit_create(archive));
+    if (!unit)
+        return 0;
 
     int not_done = archive->reader->read_header(unit.get());
     if (!not_done) {
diff --git a/src/libsrcml/srcml_unit.cpp b/src/libsrcml/srcml_unit.cpp
index d4b764d..e064a76 100644
--- a/src/libsrcml/srcml_unit.cpp
+++ b/src/libsrcml/srcml_unit.cpp
@@ -1186,6 +1186,9 @@ struct srcml_unit* srcml_unit_clone(const struct srcml_unit* unit) {
         return 0;
 
     std::unique_ptr<srcml_unit> new_unit(srcml_unit_create(unit->archive));
+    if (!new_unit)
+        return nullptr;
+
     new_unit->filename = unit->filename;
 
     new_unit->hash = unit->hash;
-- 
2.43.0


From 72a2e8c665094eeae59655fc47aac5d3f08626d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:58 +0000
Subject: [PATCH 06/69] fix: srcml_archive_close releases what was opened,
 once, so that the archive can be reopened

The translator, reader and memory buffer stayed attached after a close: a
second close wrote through the caller's pointers again, reopening leaked or
mixed in the earlier stream, and raw writes mixed with units closed the output
buffer twice.
---
 src/libsrcml/srcml_archive.cpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/libsrcml/srcml_archive.cpp b/src/libsrcml/srcml_archive.cpp
index f90c682..86bce60 100644
--- a/src/libsrcml/srcml_archive.cpp
+++ b/src/libsrcml/srcml_archive.cpp
@@ -1352,22 +1352,40 @@ void srcml_archive_close(struct srcml_archive* archive) {
         srcml_archive_write_create_translator_xml_buffer(archive);
     }
 
+    // the translator owns the output buffer and closes it
     if (archive->translator) {
         archive->translator->close();
+        delete archive->translator;
+        archive->translator = nullptr;
+        archive->output_buffer = nullptr;
     }
 
-    if (archive->rawwrites && archive->output_buffer) {
+    if (archive->output_buffer) {
         xmlOutputBufferClose(archive->output_buffer);
         archive->output_buffer = nullptr;
     }
 
     // Give the user the completed buffer if opened using srcml_archive_write_open_memory()
-    if (archive->buffer && archive->size) {
+    if (archive->buffer && archive->size && archive->xbuffer) {
 
         // record the size before the buffer is detached
         *archive->size = (size_t) archive->xbuffer->use;
         (*archive->buffer) = (char *) xmlBufferDetach(archive->xbuffer);
     }
+    archive->buffer = nullptr;
+    archive->size = nullptr;
+
+    if (archive->xbuffer) {
+        xmlBufferFree(archive->xbuffer);
+        archive->xbuffer = nullptr;
+    }
+
+    if (archive->reader) {
+        delete archive->reader;
+        archive->reader = nullptr;
+    }
 
+    // back to the state before opening, so that the archive can be reopened
+    archive->rawwrites = false;
     archive->type = SRCML_ARCHIVE_INVALID;
 }
-- 
2.43.0


From 7382897f02d4e9b790f9dfd93cd63a121ee79c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:04 +0000
Subject: [PATCH 07/69] fix: srcml_archive_write_open_* report an output that
 cannot be opened

They returned SRCML_STATUS_OK and left an archive that accepts units and
discards them.
---
 src/libsrcml/srcml_archive.cpp | 56 ++++++++++++++++++++--------------
 1 file changed, 33 insertions(+), 23 deletions(-)

diff --git a/src/libsrcml/srcml_archive.cpp b/src/libsrcml/srcml_archive.cpp
index 86bce60..a8691bf 100644
--- a/src/libsrcml/srcml_archive.cpp
+++ b/src/libsrcml/srcml_archive.cpp
@@ -910,6 +910,25 @@ static int srcml_archive_write_create_translator_xml_buffer(struct srcml_archive
     return SRCML_STATUS_OK;
 }
 
+/**
+ * srcml_archive_write_open_internal
+ * @param archive a srcml_archive
+ * @param output_buffer the output to write to, NULL if it could not be opened
+ *
+ * Function used internally by the srcml_archive_write_open_* functions.
+ * An archive whose output could not be opened is left as it was.
+ */
+static int srcml_archive_write_open_internal(struct srcml_archive* archive, xmlOutputBuffer* output_buffer) {
+
+    if (output_buffer == nullptr)
+        return SRCML_STATUS_IO_ERROR;
+
+    archive->type = SRCML_ARCHIVE_WRITE;
+    archive->output_buffer = output_buffer;
+
+    return SRCML_STATUS_OK;
+}
+
 /**
  * srcml_archive_write_open_filename
  * @param archive a srcml_archive
@@ -925,10 +944,7 @@ int srcml_archive_write_open_filename(struct srcml_archive* archive, const char*
     if (archive == nullptr || srcml_filename == nullptr)
         return SRCML_STATUS_INVALID_ARGUMENT;
 
-    archive->type = SRCML_ARCHIVE_WRITE;
-    archive->output_buffer = xmlOutputBufferCreateFilename(srcml_filename, 0, 0);
-
-    return SRCML_STATUS_OK;
+    return srcml_archive_write_open_internal(archive, xmlOutputBufferCreateFilename(srcml_filename, 0, 0));
 }
 
 /**
@@ -948,14 +964,20 @@ int srcml_archive_write_open_memory(struct srcml_archive* archive, char** buffer
     if (archive == nullptr || buffer == nullptr || size == nullptr)
         return SRCML_STATUS_INVALID_ARGUMENT;
 
-    archive->type = SRCML_ARCHIVE_WRITE;
+    xmlBuffer* xbuffer = xmlBufferCreate();
+    if (xbuffer == nullptr)
+        return SRCML_STATUS_IO_ERROR;
+
+    int status = srcml_archive_write_open_internal(archive, xmlOutputBufferCreateBuffer(xbuffer, 0));
+    if (status != SRCML_STATUS_OK) {
+        xmlBufferFree(xbuffer);
+        return status;
+    }
 
+    archive->xbuffer = xbuffer;
     archive->buffer = buffer;
     archive->size = size;
 
-    archive->xbuffer = xmlBufferCreate();
-    archive->output_buffer = xmlOutputBufferCreateBuffer(archive->xbuffer, 0);
-
     return SRCML_STATUS_OK;
 }
 
@@ -974,11 +996,7 @@ int srcml_archive_write_open_FILE(struct srcml_archive* archive, FILE* srcml_fil
     if (archive == nullptr || srcml_file == nullptr)
         return SRCML_STATUS_INVALID_ARGUMENT;
 
-    archive->type = SRCML_ARCHIVE_WRITE;
-
-    archive->output_buffer = xmlOutputBufferCreateFile(srcml_file, xmlFindCharEncodingHandler(archive->encoding ? archive->encoding->c_str() : 0));
-
-    return SRCML_STATUS_OK;
+    return srcml_archive_write_open_internal(archive, xmlOutputBufferCreateFile(srcml_file, xmlFindCharEncodingHandler(archive->encoding ? archive->encoding->c_str() : 0)));
 }
 
 /**
@@ -996,11 +1014,7 @@ int srcml_archive_write_open_fd(struct srcml_archive* archive, int srcml_fd) {
     if (archive == nullptr || srcml_fd < 0)
         return SRCML_STATUS_INVALID_ARGUMENT;
 
-    archive->type = SRCML_ARCHIVE_WRITE;
-
-    archive->output_buffer = xmlOutputBufferCreateFd(srcml_fd, xmlFindCharEncodingHandler(archive->encoding ? archive->encoding->c_str() : 0));
-
-    return SRCML_STATUS_OK;
+    return srcml_archive_write_open_internal(archive, xmlOutputBufferCreateFd(srcml_fd, xmlFindCharEncodingHandler(archive->encoding ? archive->encoding->c_str() : 0)));
 }
 
 /**
@@ -1021,11 +1035,7 @@ int srcml_archive_write_open_io(struct srcml_archive* archive, void * context, i
     if (archive == nullptr || context == nullptr || write_callback == nullptr)
         return SRCML_STATUS_INVALID_ARGUMENT;
 
-    archive->type = SRCML_ARCHIVE_WRITE;
-
-    archive->output_buffer = xmlOutputBufferCreateIO(write_callback, close_callback, context, xmlFindCharEncodingHandler(archive->encoding ? archive->encoding->c_str() : 0));
-
-    return SRCML_STATUS_OK;
+    return srcml_archive_write_open_internal(archive, xmlOutputBufferCreateIO(write_callback, close_callback, context, xmlFindCharEncodingHandler(archive->encoding ? archive->encoding->c_str() : 0)));
 }
 
 /******************************************************************************
-- 
2.43.0


From 2df14f144383e9c00358a905c42b78f64413d5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:11 +0000
Subject: [PATCH 08/69] fix: srcml_archive_write_string is refused unless the
 archive is open for writing

It returned SRCML_STATUS_OK while discarding the string, and made a later
write to the archive skip the root unit. A failed write is reported as well.
---
 src/libsrcml/srcml_archive.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/libsrcml/srcml_archive.cpp b/src/libsrcml/srcml_archive.cpp
index a8691bf..e666565 100644
--- a/src/libsrcml/srcml_archive.cpp
+++ b/src/libsrcml/srcml_archive.cpp
@@ -1264,8 +1264,11 @@ int srcml_archive_write_string(struct srcml_archive* archive, const char* s, int
     if (archive == nullptr || s == nullptr || len < 0)
         return SRCML_STATUS_INVALID_ARGUMENT;
 
-    if (archive->output_buffer)
-        xmlOutputBufferWrite(archive->output_buffer, len, s);
+    if (archive->type != SRCML_ARCHIVE_WRITE && archive->type != SRCML_ARCHIVE_RW)
+        return SRCML_STATUS_INVALID_IO_OPERATION;
+
+    if (archive->output_buffer == nullptr || xmlOutputBufferWrite(archive->output_buffer, len, s) < 0)
+        return SRCML_STATUS_IO_ERROR;
 
     archive->rawwrites = true;
 
-- 
2.43.0


From f8d57c5f0841950c69d35967a9a91764ae51b95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:36 +0000
Subject: [PATCH 09/69] fix: srcml_write_end_element is refused when no element
 is open

An unmatched call made the depth negative and closed the unit, and
srcml_write_end_unit then counted down from -1.
---
 src/libsrcml/srcml_translator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libsrcml/srcml_translator.cpp b/src/libsrcml/srcml_translator.cpp
index 2977be6..9146dda 100644
--- a/src/libsrcml/srcml_translator.cpp
+++ b/src/libsrcml/srcml_translator.cpp
@@ -348,7 +348,7 @@ bool srcml_translator::add_start_element(const char* prefix, const char* name, c
  */
 bool srcml_translator::add_end_element() {
 
-    if (!is_outputting_unit)
+    if (!is_outputting_unit || output_unit_depth <= 0)
         return false;
 
     --output_unit_depth;
-- 
2.43.0


From af57c97290d330f3a75b7d913abb15a44fceed8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:45 +0000
Subject: [PATCH 10/69] fix: srcml_write_string does not write into the
 caller's string

It replaced each quotation mark by a NUL for a moment, which crashes for a
string literal and races when the string is shared.
---
 src/libsrcml/srcml_translator.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/libsrcml/srcml_translator.cpp b/src/libsrcml/srcml_translator.cpp
index 9146dda..278cfa7 100644
--- a/src/libsrcml/srcml_translator.cpp
+++ b/src/libsrcml/srcml_translator.cpp
@@ -415,17 +415,16 @@ bool srcml_translator::add_string(const char *content) {
     if (!is_outputting_unit || content == 0)
         return false;
 
-    char* text = (char *)content;
-    for (char * pos = text; *pos; ++pos) {
+    const char* text = content;
+    for (const char* pos = text; *pos; ++pos) {
 
         if (*pos != '"')
             continue;
 
-        *pos = 0;
-        if (xmlTextWriterWriteString(out.getWriter(), BAD_CAST text) == -1)
+        const std::string piece(text, pos);
+        if (xmlTextWriterWriteString(out.getWriter(), BAD_CAST piece.c_str()) == -1)
             return false;
 
-        *pos = '\"';
         if (xmlTextWriterWriteRaw(out.getWriter(), BAD_CAST "\"") == -1)
             return false;
 
-- 
2.43.0


From c2fd864410bdd08a27d35e66a198f36fed41f50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:53 +0000
Subject: [PATCH 11/69] fix: a unit that is parsed or written again drops what
 was derived from its earlier content

srcml_unit_get_srcml_inner, srcml_unit_get_srcml_outer, the loc and unparsing
answered for the first content of the unit.
---
 src/libsrcml/srcml_unit.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/libsrcml/srcml_unit.cpp b/src/libsrcml/srcml_unit.cpp
index e064a76..ff56803 100644
--- a/src/libsrcml/srcml_unit.cpp
+++ b/src/libsrcml/srcml_unit.cpp
@@ -1006,10 +1006,15 @@ int srcml_write_end_unit(struct srcml_unit* unit) {
     free(start_tag);
     free(srcml);
 
+    // anything derived from previous content no longer applies
+    unit->srcml_revision = boost::none;
+    unit->srcml_fragment = boost::none;
+    unit->srcml_fragment_revision = boost::none;
+    unit->srcml_raw = boost::none;
+    unit->srcml_raw_revision = boost::none;
+
     // record the loc
-    if (!unit->src) {
-        unit->src = extract_src(unit->srcml);
-    }
+    unit->src = extract_src(unit->srcml);
 
     unit->loc = (int) std::count(unit->src->begin(), unit->src->end(), '\n');
     if (!unit->src->empty() && unit->src->back() != '\n')
-- 
2.43.0


From 6ad9b6b4618603b3764bb639f3ca64e2d5351706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:18 +0000
Subject: [PATCH 12/69] fix: a unit that cannot be finished or is freed
 unfinished releases its writer and buffer

srcml_write_end_unit ignored a failure to write the final start tag, and
srcml_unit_free leaked the translator when ending the unit failed. The freed
output buffer stayed attached to the unit.
---
 src/libsrcml/srcml_unit.cpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/libsrcml/srcml_unit.cpp b/src/libsrcml/srcml_unit.cpp
index ff56803..bffa9b5 100644
--- a/src/libsrcml/srcml_unit.cpp
+++ b/src/libsrcml/srcml_unit.cpp
@@ -880,7 +880,7 @@ int srcml_write_start_unit(struct srcml_unit* unit) {
     if (!output_buffer)
         return SRCML_STATUS_IO_ERROR;
 
-    xmlOutputBufferPtr obuffer = xmlOutputBufferCreateBuffer(output_buffer.get(), xmlFindCharEncodingHandler("UTF-8"));
+    std::unique_ptr<xmlOutputBuffer> obuffer(xmlOutputBufferCreateBuffer(output_buffer.get(), xmlFindCharEncodingHandler("UTF-8")));
     if (!obuffer)
         return SRCML_STATUS_IO_ERROR;
 
@@ -901,7 +901,7 @@ int srcml_write_start_unit(struct srcml_unit* unit) {
             unit->output_buffer = nullptr;
         }
         unit->unit_translator = new srcml_translator(
-            obuffer,
+            obuffer.get(),
             optional_to_c_str(unit->archive->encoding, "UTF-8"),
             options,
             *(unit->namespaces),
@@ -917,6 +917,10 @@ int srcml_write_start_unit(struct srcml_unit* unit) {
             optional_to_c_str(unit->hash, (unit->archive->options & SRCML_OPTION_HASH ? "" : 0)),
             optional_to_c_str(unit->encoding));
 
+        // the translator owns the output buffer and writes to the buffer of the unit
+        obuffer.release();
+        unit->output_buffer = output_buffer.release();
+
         unit->unit_translator->set_macro_list(unit->archive->user_macro_list);
 
     } catch(...) {
@@ -928,9 +932,6 @@ int srcml_write_start_unit(struct srcml_unit* unit) {
     if (!unit->unit_translator->add_start_unit(unit))
         return SRCML_STATUS_INVALID_INPUT;
 
-    // now that everything is ok, transfer the buffer to the unit
-    unit->output_buffer = output_buffer.release();
-
     // record start of content (after the unit start tag)
     xmlTextWriterFlush(unit->unit_translator->output_textwriter());
     unit->content_begin = unit->unit_translator->output_buffer()->written + 1;
@@ -986,7 +987,11 @@ int srcml_write_end_unit(struct srcml_unit* unit) {
     int content_end = unit->content_end;
 
     // redo the start element with the namespaces found in the document
-    srcml_write_start_unit(unit);
+    int status = srcml_write_start_unit(unit);
+    if (status != SRCML_STATUS_OK) {
+        free(srcml);
+        return status;
+    }
     char* start_tag = (char*) xmlBufferDetach(unit->output_buffer);
 
     // recreate the unit with the newly generated start tag, which
@@ -1025,6 +1030,7 @@ int srcml_write_end_unit(struct srcml_unit* unit) {
     unit->unit_translator = 0;
 
     xmlBufferFree(unit->output_buffer);
+    unit->output_buffer = nullptr;
 
     unit->read_body = true;
 
@@ -1250,6 +1256,12 @@ void srcml_unit_free(struct srcml_unit* unit) {
     if (unit->unit_translator)
         srcml_write_end_unit(unit);
 
+    // the unit could not be ended
+    if (unit->unit_translator) {
+        delete unit->unit_translator;
+        xmlBufferFree(unit->output_buffer);
+    }
+
     delete unit;
 }
 
-- 
2.43.0


From a44e243814266e01bf5ed3123a92f05da16ed2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:06 +0000
Subject: [PATCH 13/69] fix: a multibyte character split across two reads no
 longer ends the input

---
 src/parser/UTF8CharBuffer.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/parser/UTF8CharBuffer.cpp b/src/parser/UTF8CharBuffer.cpp
index c45cf68..107fe4f 100644
--- a/src/parser/UTF8CharBuffer.cpp
+++ b/src/parser/UTF8CharBuffer.cpp
@@ -391,7 +391,7 @@ ssize_t UTF8CharBuffer::readChars() {
 
         // convert from raw characters to cooked, encoded in UTF-8 characters
         size_t binsize = iconv(ic, &linbuf, &inbytesleft, &loutbuf, &outbytesleft);
-        if (binsize == (size_t) -1) {
+        if (binsize == (size_t) -1 && errno != EINVAL) {
             fprintf(stderr, "%s\n", strerror(errno));
             return 0;
         }
@@ -404,6 +404,12 @@ ssize_t UTF8CharBuffer::readChars() {
         // so just move all of them to the start of the buffer
         if (inbytesleft)
             std::move(linbuf, linbuf + inbytesleft, raw.begin());
+
+        // only part of a multibyte sequence so far, so need more
+        if (cooked.empty()) {
+            insize = 0;
+            return readChars();
+        }
     }
 
     return trivial ? raw.size() : cooked.size();
-- 
2.43.0


From 466584081c87a589c2d42310f9e1cb7706a1dbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:12 +0000
Subject: [PATCH 14/69] fix: srcml_unit_parse_io accepts a NULL close callback

---
 src/parser/UTF8CharBuffer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/UTF8CharBuffer.cpp b/src/parser/UTF8CharBuffer.cpp
index 107fe4f..7de346c 100644
--- a/src/parser/UTF8CharBuffer.cpp
+++ b/src/parser/UTF8CharBuffer.cpp
@@ -489,7 +489,7 @@ const std::string& UTF8CharBuffer::getEncoding() const {
  * place in buffer if requested.
  */
 UTF8CharBuffer::~UTF8CharBuffer() {
-    if(sio.context) {
+    if (sio.context && sio.close_callback) {
         sio.close_callback(sio.context);
     }
 
-- 
2.43.0


From 7a3ccdf4ee99a96919eba9a605bb3276a80d7c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:39 +0000
Subject: [PATCH 15/69] fix: srcml_unit_parse_filename closes the file it
 opened

---
 src/libsrcml/srcml_unit.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/libsrcml/srcml_unit.cpp b/src/libsrcml/srcml_unit.cpp
index bffa9b5..8d8b084 100644
--- a/src/libsrcml/srcml_unit.cpp
+++ b/src/libsrcml/srcml_unit.cpp
@@ -564,10 +564,14 @@ int srcml_unit_parse_filename(struct srcml_unit* unit, const char* src_filename)
         return SRCML_STATUS_IO_ERROR;
     }
 
-    return srcml_unit_parse_internal(unit, src_filename, [src_fd](const char* encoding, bool output_hash, boost::optional<std::string>& hash)-> UTF8CharBuffer* {
+    int status = srcml_unit_parse_internal(unit, src_filename, [src_fd](const char* encoding, bool output_hash, boost::optional<std::string>& hash)-> UTF8CharBuffer* {
 
         return new UTF8CharBuffer(src_fd, encoding, output_hash, hash);
     });
+
+    CLOSE(src_fd);
+
+    return status;
 }
 
 /**
-- 
2.43.0


From 40ff3cdb96bd85b6c3aa01977aa7370a46bb9dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:47 +0000
Subject: [PATCH 16/69] fix: the input of a parse is released when the unit
 cannot be started

---
 src/libsrcml/srcml_unit.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/libsrcml/srcml_unit.cpp b/src/libsrcml/srcml_unit.cpp
index 8d8b084..201e570 100644
--- a/src/libsrcml/srcml_unit.cpp
+++ b/src/libsrcml/srcml_unit.cpp
@@ -515,10 +515,10 @@ static int srcml_unit_parse_internal(struct srcml_unit* unit, const char* filena
 
     bool output_hash = !unit->hash && unit->archive->options & SRCML_OPTION_HASH;
 
-    UTF8CharBuffer* input = 0;
+    std::unique_ptr<UTF8CharBuffer> input;
     try {
 
-        input = createUTF8CharBuffer(src_encoding, output_hash, unit->hash);
+        input.reset(createUTF8CharBuffer(src_encoding, output_hash, unit->hash));
 
     } catch(...) { return SRCML_STATUS_IO_ERROR; }
 
@@ -533,7 +533,7 @@ static int srcml_unit_parse_internal(struct srcml_unit* unit, const char* filena
         return status;
 
     // parse the input
-    unit->unit_translator->translate(input);
+    unit->unit_translator->translate(input.release());
 
     // namespaces were updated during translation, may now include
     // namespaces that were optional
-- 
2.43.0


From 47e9f3e7283b7598d4a8ef3d1c77a2b7ee1b9b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:02 +0000
Subject: [PATCH 17/69] fix: the hash of a unit is that of its latest parse

---
 src/libsrcml/srcml_types.hpp | 2 ++
 src/libsrcml/srcml_unit.cpp  | 8 +++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/libsrcml/srcml_types.hpp b/src/libsrcml/srcml_types.hpp
index 2b4ecd9..899d68e 100644
--- a/src/libsrcml/srcml_types.hpp
+++ b/src/libsrcml/srcml_types.hpp
@@ -196,6 +196,8 @@ struct srcml_unit {
     boost::optional<std::string> timestamp;
     /** an attribute for a hash string */
     boost::optional<std::string> hash;
+    /** whether the hash was generated by a parse, i.e., not set by the user */
+    bool hash_generated = false;
     /** an array of name-value attribute pairs */
     std::vector<std::string> attributes;
     /** the type of eol to output with source code */
diff --git a/src/libsrcml/srcml_unit.cpp b/src/libsrcml/srcml_unit.cpp
index 201e570..f6465fd 100644
--- a/src/libsrcml/srcml_unit.cpp
+++ b/src/libsrcml/srcml_unit.cpp
@@ -151,6 +151,7 @@ int srcml_unit_set_hash(struct srcml_unit* unit, const char* hash) {
         return SRCML_STATUS_INVALID_ARGUMENT;
 
     unit->hash = hash ? std::string(hash) : decltype(unit->hash)();
+    unit->hash_generated = false;
 
     return SRCML_STATUS_OK;
 }
@@ -513,7 +514,11 @@ static int srcml_unit_parse_internal(struct srcml_unit* unit, const char* filena
         iconv_close(ic);
     }
 
-    bool output_hash = !unit->hash && unit->archive->options & SRCML_OPTION_HASH;
+    bool output_hash = (!unit->hash || unit->hash_generated) && unit->archive->options & SRCML_OPTION_HASH;
+    if (output_hash) {
+        unit->hash = boost::none;
+        unit->hash_generated = true;
+    }
 
     std::unique_ptr<UTF8CharBuffer> input;
     try {
@@ -1207,6 +1212,7 @@ struct srcml_unit* srcml_unit_clone(const struct srcml_unit* unit) {
     new_unit->filename = unit->filename;
 
     new_unit->hash = unit->hash;
+    new_unit->hash_generated = unit->hash_generated;
     new_unit->timestamp = unit->timestamp;
     new_unit->version = unit->version;
     new_unit->url = unit->url;
-- 
2.43.0


From a956f13dc48b87794f2c64d7d94631146d6e2dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:12 +0000
Subject: [PATCH 18/69] fix: position output of an archive does not depend on
 earlier archives of the thread

---
 src/parser/srcMLOutput.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parser/srcMLOutput.cpp b/src/parser/srcMLOutput.cpp
index bb97f32..50a715c 100644
--- a/src/parser/srcMLOutput.cpp
+++ b/src/parser/srcMLOutput.cpp
@@ -501,9 +501,9 @@ void srcMLOutput::addPosition(const antlr::RefToken& token) {
     if (stoken->endline < stoken->getLine() || (stoken->endline == stoken->getLine() && stoken->endcolumn < stoken->getColumn()))
             return;
 
-    thread_local const std::string& prefix = namespaces[POS].prefix;
-    thread_local const std::string startAttribute = " " + prefix + (!prefix.empty() ? ":" : "") + "start=\"";
-    thread_local const std::string endAttribute   = " " + prefix + (!prefix.empty() ? ":" : "") + "end=\"";
+    const std::string& prefix = namespaces[POS].prefix;
+    const std::string startAttribute = " " + prefix + (!prefix.empty() ? ":" : "") + "start=\"";
+    const std::string endAttribute   = " " + prefix + (!prefix.empty() ? ":" : "") + "end=\"";
 
     // highly optimized as this is output for every start tag
 
@@ -535,7 +535,7 @@ void srcMLOutput::processToken(const antlr::RefToken& token, const char* name, c
     if (name[0] == 0)
         return;
 
-    thread_local bool isposition = isoption(options, SRCML_OPTION_POSITION);
+    const bool isposition = isoption(options, SRCML_OPTION_POSITION);
 
     if (isstart(token) || isempty(token)) {
 
-- 
2.43.0


From 6c29ecc9c034e93dd1f38b71e03ca076085de590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:21 +0000
Subject: [PATCH 19/69] fix: the tabs attribute is kept until it is written

---
 src/parser/srcMLOutput.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/srcMLOutput.cpp b/src/parser/srcMLOutput.cpp
index 50a715c..c9c035b 100644
--- a/src/parser/srcMLOutput.cpp
+++ b/src/parser/srcMLOutput.cpp
@@ -336,6 +336,8 @@ void srcMLOutput::startUnit(const char* language, const char* revision,
         tabattribute += "tabs";
     }
 
+    const std::string tabs = std::to_string(tabsize);
+
     // setup for storing options in output
     std::array<std::pair<int, const char*>, 4> sep = {{
         { SRCML_OPTION_CPP_TEXT_ELSE,  "CPP_TEXT_ELSE" },
@@ -369,7 +371,7 @@ void srcMLOutput::startUnit(const char* language, const char* revision,
         { UNIT_ATTRIBUTE_VERSION, version },
 
         // position tab setting
-        { tabattribute.c_str(), isoption(options, SRCML_OPTION_POSITION) ? std::to_string(tabsize).c_str() : 0 },
+        { tabattribute.c_str(), isoption(options, SRCML_OPTION_POSITION) ? tabs.c_str() : 0 },
 
         // timestamp attribute
         { UNIT_ATTRIBUTE_TIMESTAMP, timestamp },
-- 
2.43.0


From bc79dc2aa440bdb4d5c0d30f83b9853b1ae0e7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:47 +0000
Subject: [PATCH 20/69] fix: archives that are read at the same time do not
 share dictionary entries

---
 src/libsrcml/sax2_srcsax_handler.cpp | 20 +++++++-------------
 src/libsrcml/sax2_srcsax_handler.hpp |  6 ++++++
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/libsrcml/sax2_srcsax_handler.cpp b/src/libsrcml/sax2_srcsax_handler.cpp
index e2ca856..8debf9d 100644
--- a/src/libsrcml/sax2_srcsax_handler.cpp
+++ b/src/libsrcml/sax2_srcsax_handler.cpp
@@ -48,12 +48,6 @@
     #define SRCSAX_DEBUG_END_CHARS(ch,len)
 #endif
 
-// libxml2 places elements into a dictionary
-// once initialized, can compare pointers instead of strings
-static const xmlChar* UNIT_ENTRY = nullptr;
-static const xmlChar* MACRO_LIST_ENTRY = nullptr;
-static const xmlChar* ESCAPE_ENTRY = nullptr;
-
 /**
  * factory
  *
@@ -191,9 +185,9 @@ void start_document(void* ctx) {
     SRCSAX_DEBUG_START("");
 
     // save for dictionary lookup of common elements
-    UNIT_ENTRY       = xmlDictLookup(ctxt->dict, (const xmlChar*) "unit", (int) strlen("unit"));
-    MACRO_LIST_ENTRY = xmlDictLookup(ctxt->dict, (const xmlChar*) "macro-list", (int) strlen("macro-list"));
-    ESCAPE_ENTRY     = xmlDictLookup(ctxt->dict, (const xmlChar*) "escape", (int) strlen("escape"));
+    state->UNIT_ENTRY       = xmlDictLookup(ctxt->dict, (const xmlChar*) "unit", (int) strlen("unit"));
+    state->MACRO_LIST_ENTRY = xmlDictLookup(ctxt->dict, (const xmlChar*) "macro-list", (int) strlen("macro-list"));
+    state->ESCAPE_ENTRY     = xmlDictLookup(ctxt->dict, (const xmlChar*) "escape", (int) strlen("escape"));
 
     // save the encoding from the input
     state->context->encoding = "UTF-8";
@@ -373,7 +367,7 @@ void first_start_element(void* ctx, const xmlChar* localname, const xmlChar* pre
 
     // if macros are found, then must return, process first
     // but stay in first_start_element, since this can be between root unit and nested unit
-    if (localname == MACRO_LIST_ENTRY) {
+    if (localname == state->MACRO_LIST_ENTRY) {
 
         state->context->handler->meta_tag(state->context, (const char*) localname, (const char*) prefix, (const char*) URI,
                                           nb_namespaces, namespaces, nb_attributes, attributes);
@@ -381,7 +375,7 @@ void first_start_element(void* ctx, const xmlChar* localname, const xmlChar* pre
     }
 
     // archive when the first element after the root is <unit>
-    state->context->is_archive = (localname == UNIT_ENTRY);
+    state->context->is_archive = (localname == state->UNIT_ENTRY);
 
     // turn off first_start_element() handling
     ctxt->sax->startElementNs = &start_element;
@@ -639,7 +633,7 @@ void start_element(void* ctx, const xmlChar* localname, const xmlChar* /* prefix
 
         // Special element <escape char="0x0c"/> used to embed non-XML characters
         // extract the value of the char attribute and add to the src (text)
-        if (localname == ESCAPE_ENTRY) {
+        if (localname == state->ESCAPE_ENTRY) {
 
             std::string svalue((const char *)attributes[0 * 5 + 3], attributes[0 * 5 + 4] - attributes[0 * 5 + 3]);
 
@@ -697,7 +691,7 @@ void end_element(void* ctx, const xmlChar* localname, const xmlChar* prefix, con
     SRCSAX_DEBUG_END(localname);
 
     // plain end element
-    if (localname != UNIT_ENTRY) {
+    if (localname != state->UNIT_ENTRY) {
         return;
     }
 
diff --git a/src/libsrcml/sax2_srcsax_handler.hpp b/src/libsrcml/sax2_srcsax_handler.hpp
index c515197..74b12a7 100644
--- a/src/libsrcml/sax2_srcsax_handler.hpp
+++ b/src/libsrcml/sax2_srcsax_handler.hpp
@@ -96,6 +96,12 @@ struct sax2_srcsax_handler {
     boost::optional<std::string> cpp_prefix;
 
     bool rootcalled = false;
+
+    // libxml2 places elements into a dictionary of the parser context
+    // once initialized, can compare pointers instead of strings
+    const xmlChar* UNIT_ENTRY = nullptr;
+    const xmlChar* MACRO_LIST_ENTRY = nullptr;
+    const xmlChar* ESCAPE_ENTRY = nullptr;
 };
 
 /**
-- 
2.43.0


From 08612c6b2b46c4c6790909687161954a4439903a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:51 +0000
Subject: [PATCH 21/69] fix: the source encoding is detected however the input
 is provided

---
 src/parser/UTF8CharBuffer.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/parser/UTF8CharBuffer.cpp b/src/parser/UTF8CharBuffer.cpp
index 7de346c..a5d5c64 100644
--- a/src/parser/UTF8CharBuffer.cpp
+++ b/src/parser/UTF8CharBuffer.cpp
@@ -156,6 +156,9 @@ UTF8CharBuffer::UTF8CharBuffer(const char* ifilename, const char* encoding, bool
         delete static_cast<Context<int>*>(context);
         return close(fd);
     };
+
+    // read the first part of the input, which detects the encoding
+    insize = readChars();
 }
 
 /**
@@ -212,6 +215,9 @@ UTF8CharBuffer::UTF8CharBuffer(FILE* file, const char* encoding, bool hashneeded
             return (size_t) result;
     };
     sio.close_callback = [](void*) -> int { return 0; };
+
+    // read the first part of the input, which detects the encoding
+    insize = readChars();
 }
 
 /**
@@ -237,6 +243,9 @@ UTF8CharBuffer::UTF8CharBuffer(int fd, const char* encoding, bool hashneeded, bo
         delete static_cast<Context<int>*>(context);
         return 0;
     };
+
+    // read the first part of the input, which detects the encoding
+    insize = readChars();
 }
 
 /**
@@ -258,6 +267,9 @@ UTF8CharBuffer::UTF8CharBuffer(void* context, srcml_read_callback read_callback,
     sio.context = context;
     sio.read_callback = read_callback;
     sio.close_callback = close_callback;
+
+    // read the first part of the input, which detects the encoding
+    insize = readChars();
 }
 
 /**
-- 
2.43.0


From c320aac9c17006c9cd1f11f8e1c25a4ef65d6dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:57 +0000
Subject: [PATCH 22/69] fix: a BOM is recognized when the input is delivered in
 small pieces

---
 src/parser/UTF8CharBuffer.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/parser/UTF8CharBuffer.cpp b/src/parser/UTF8CharBuffer.cpp
index a5d5c64..64beaac 100644
--- a/src/parser/UTF8CharBuffer.cpp
+++ b/src/parser/UTF8CharBuffer.cpp
@@ -299,6 +299,14 @@ ssize_t UTF8CharBuffer::readChars() {
             return 0;
         }
 
+        // the first time, enough is needed to recognize a BOM
+        while (firstRead && insize < 4) {
+            ssize_t more = sio.read_callback(sio.context, raw.data() + insize, raw.size() - insize);
+            if (more <= 0)
+                break;
+            insize += more;
+        }
+
         // new size is the number of bytes read in, plus any incomplete multibyte sequences from previous
         raw.resize(insize + inbytesleft);
     }
-- 
2.43.0


From a055bf3c3089b0c85f4610174f10ed6c98a79d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:03 +0000
Subject: [PATCH 23/69] fix: a UTF-32LE BOM is recognized

---
 src/parser/UTF8CharBuffer.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parser/UTF8CharBuffer.cpp b/src/parser/UTF8CharBuffer.cpp
index 64beaac..b94fc84 100644
--- a/src/parser/UTF8CharBuffer.cpp
+++ b/src/parser/UTF8CharBuffer.cpp
@@ -349,7 +349,8 @@ ssize_t UTF8CharBuffer::readChars() {
         // auto-detect UTF-16 based on BOM
         // both UTF-16LE and UTF-16BE are determined automatically from BOM
         // and processed as UTF-16
-        if ((data.i & 0x0000FFFF) == 0x0000FFFE || (data.i & 0x0000FFFF) == 0x0000FEFF) {
+        // note that a UTF-32LE BOM starts with a UTF-16LE BOM
+        if ((data.i & 0x0000FFFF) == 0x0000FFFE || ((data.i & 0x0000FFFF) == 0x0000FEFF && (data.i != 0x0000FEFF || raw.size() < 4))) {
 
             // no encoding specified (by user) then UTF-16, otherwise check if it is compatible with UTF-16
             if (encoding.empty()) {
@@ -362,7 +363,7 @@ ssize_t UTF8CharBuffer::readChars() {
         // auto-detect UTF-32 based on BOM
         // both UTF-32LE and UTF-32BE are determined automatically from BOM
         // and processed as UTF-32
-        if (data.i == 0xFFFE0000 || data.i == 0xFEFF0000) {
+        if (raw.size() >= 4 && (data.i == 0xFFFE0000 || data.i == 0x0000FEFF)) {
 
             // no encoding specified (by user) then UTF-32, otherwise check if it is compatible with UTF-32
             if (encoding.empty()) {
-- 
2.43.0


From bccc04d63046f6b22dc35a241f2a80df39dc0c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:55 +0000
Subject: [PATCH 24/69] fix: a parse whose input cannot be read or converted
 reports an error

---
 src/libsrcml/srcml_translator.cpp | 8 +++++++-
 src/libsrcml/srcml_translator.hpp | 2 +-
 src/libsrcml/srcml_unit.cpp       | 7 +++++--
 src/parser/UTF8CharBuffer.cpp     | 7 +++++++
 src/parser/UTF8CharBuffer.hpp     | 6 ++++++
 5 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/libsrcml/srcml_translator.cpp b/src/libsrcml/srcml_translator.cpp
index 278cfa7..1d88833 100644
--- a/src/libsrcml/srcml_translator.cpp
+++ b/src/libsrcml/srcml_translator.cpp
@@ -110,8 +110,10 @@ void srcml_translator::close() {
  * translate
  *
  * Translate a single unit and output.  No xml declaration is added.
+ *
+ * @returns if all of the input was translated
  */
-void srcml_translator::translate(UTF8CharBuffer* parser_input) {
+bool srcml_translator::translate(UTF8CharBuffer* parser_input) {
 
     first = false;
 
@@ -148,6 +150,8 @@ void srcml_translator::translate(UTF8CharBuffer* parser_input) {
         // parse and form srcML output with unit attributes
         out.consume(getLanguageString(), revision, url, filename, version, timestamp, hash, encoding);
 
+        return !parser_input->isError();
+
     } catch (const std::exception& e) {
         fprintf(stderr, "SRCML Exception: %s\n", e.what());
     }
@@ -157,6 +161,8 @@ void srcml_translator::translate(UTF8CharBuffer* parser_input) {
     catch (...) {
         fprintf(stderr, "srcML translator error\n");
     }
+
+    return false;
 }
 
 void srcml_translator::prepareOutput() {
diff --git a/src/libsrcml/srcml_translator.hpp b/src/libsrcml/srcml_translator.hpp
index df01d55..25e3b2f 100644
--- a/src/libsrcml/srcml_translator.hpp
+++ b/src/libsrcml/srcml_translator.hpp
@@ -76,7 +76,7 @@ public:
 
     void close();
 
-    void translate(UTF8CharBuffer* parser_input);
+    bool translate(UTF8CharBuffer* parser_input);
 
     bool add_unit(const srcml_unit* unit);
     bool add_start_unit(const srcml_unit* unit);
diff --git a/src/libsrcml/srcml_unit.cpp b/src/libsrcml/srcml_unit.cpp
index f6465fd..69a90de 100644
--- a/src/libsrcml/srcml_unit.cpp
+++ b/src/libsrcml/srcml_unit.cpp
@@ -538,14 +538,17 @@ static int srcml_unit_parse_internal(struct srcml_unit* unit, const char* filena
         return status;
 
     // parse the input
-    unit->unit_translator->translate(input.release());
+    bool translated = unit->unit_translator->translate(input.release());
 
     // namespaces were updated during translation, may now include
     // namespaces that were optional
     unit->namespaces = unit->unit_translator->out.getNamespaces();
 
     // create the unit end tag
-    return srcml_write_end_unit(unit);
+    status = srcml_write_end_unit(unit);
+
+    // the unit is only complete if all of the input was translated
+    return translated ? status : SRCML_STATUS_IO_ERROR;
 }
 
 /**
diff --git a/src/parser/UTF8CharBuffer.cpp b/src/parser/UTF8CharBuffer.cpp
index b94fc84..d4b2ec4 100644
--- a/src/parser/UTF8CharBuffer.cpp
+++ b/src/parser/UTF8CharBuffer.cpp
@@ -291,6 +291,7 @@ ssize_t UTF8CharBuffer::readChars() {
         ssize_t insize = sio.read_callback ? (int) sio.read_callback(sio.context, raw.data() + inbytesleft, raw.size() - inbytesleft) : 0;
         if (insize == -1) {
             fprintf(stderr, "Error reading: %s", strerror(errno));
+            error = true;
             return 0;
         }
 
@@ -302,6 +303,10 @@ ssize_t UTF8CharBuffer::readChars() {
         // the first time, enough is needed to recognize a BOM
         while (firstRead && insize < 4) {
             ssize_t more = sio.read_callback(sio.context, raw.data() + insize, raw.size() - insize);
+            if (more == -1) {
+                fprintf(stderr, "Error reading: %s", strerror(errno));
+                error = true;
+            }
             if (more <= 0)
                 break;
             insize += more;
@@ -382,6 +387,7 @@ ssize_t UTF8CharBuffer::readChars() {
         if (ic == (iconv_t) -1) {
             if (errno == EINVAL) {
                 fprintf(stderr, "srcml: Conversion from encoding '%s' not supported\n\n", encoding.c_str());
+                error = true;
                 return 0;
             }
         }
@@ -414,6 +420,7 @@ ssize_t UTF8CharBuffer::readChars() {
         size_t binsize = iconv(ic, &linbuf, &inbytesleft, &loutbuf, &outbytesleft);
         if (binsize == (size_t) -1 && errno != EINVAL) {
             fprintf(stderr, "%s\n", strerror(errno));
+            error = true;
             return 0;
         }
 
diff --git a/src/parser/UTF8CharBuffer.hpp b/src/parser/UTF8CharBuffer.hpp
index 665efa4..89630c3 100644
--- a/src/parser/UTF8CharBuffer.hpp
+++ b/src/parser/UTF8CharBuffer.hpp
@@ -122,6 +122,9 @@ public:
     // Get the used encoding
     const std::string& getEncoding() const;
 
+    // If the input could not be completely read or converted
+    bool isError() const { return error; }
+
     int getLOC() { if (lastchar == '\n') return loc; else return loc + 1; }
 
     ~UTF8CharBuffer();
@@ -131,6 +134,9 @@ private:
 
     ssize_t readChars();
 
+    /** if reading or converting the input failed */
+    bool error = false;
+
     /* position currently at in input buffer */
     size_t pos = 0;
 
-- 
2.43.0


From 48652f95d2847af89bacb57ca2f2b6fc2112840f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:03 +0000
Subject: [PATCH 25/69] fix: srcml_unit_unparse_* report failed writes

---
 src/libsrcml/srcml_unit.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/libsrcml/srcml_unit.cpp b/src/libsrcml/srcml_unit.cpp
index 69a90de..20ff7c0 100644
--- a/src/libsrcml/srcml_unit.cpp
+++ b/src/libsrcml/srcml_unit.cpp
@@ -712,7 +712,8 @@ static int srcml_unit_unparse_internal(struct srcml_unit* unit, std::function<xm
 
     // if EOL is not auto, then need to convert for
     if (unit->eol == SOURCE_OUTPUT_EOL_AUTO) {
-        xmlOutputBufferWrite(output_handler.get(), (int) unit->src->size(), unit->src->c_str());
+        if (xmlOutputBufferWrite(output_handler.get(), (int) unit->src->size(), unit->src->c_str()) < 0)
+            return SRCML_STATUS_IO_ERROR;
     } else {
 
         // convert to the given eol
@@ -737,9 +738,14 @@ static int srcml_unit_unparse_internal(struct srcml_unit* unit, std::function<xm
             }
         }
 
-        xmlOutputBufferWrite(output_handler.get(), (int) neol.size(), neol.c_str());
+        if (xmlOutputBufferWrite(output_handler.get(), (int) neol.size(), neol.c_str()) < 0)
+            return SRCML_STATUS_IO_ERROR;
     }
 
+    // flush, as what is written may be buffered
+    if (xmlOutputBufferClose(output_handler.release()) < 0)
+        return SRCML_STATUS_IO_ERROR;
+
     return SRCML_STATUS_OK;
 }
 
-- 
2.43.0


From 83b885d972defa7d7a9d469db71cfb4c33b794f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:12 +0000
Subject: [PATCH 26/69] fix: srcml_unit_unparse_memory returns the size of what
 it wrote and releases its buffer on failure

---
 src/libsrcml/srcml_unit.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/libsrcml/srcml_unit.cpp b/src/libsrcml/srcml_unit.cpp
index 20ff7c0..8de7517 100644
--- a/src/libsrcml/srcml_unit.cpp
+++ b/src/libsrcml/srcml_unit.cpp
@@ -789,21 +789,22 @@ int srcml_unit_unparse_memory(struct srcml_unit* unit, char** src_buffer, size_t
     if (unit == nullptr || src_buffer == nullptr || src_size == nullptr)
         return SRCML_STATUS_INVALID_ARGUMENT;
 
-    xmlBufferPtr buffer = nullptr;
+    std::unique_ptr<xmlBuffer> buffer(xmlBufferCreate());
+    if (!buffer)
+        return SRCML_STATUS_ERROR;
+
     int status = srcml_unit_unparse_internal(unit, [&buffer](xmlCharEncodingHandlerPtr handler) {
 
-        buffer = xmlBufferCreate();
-        return xmlOutputBufferCreateBuffer(buffer, handler);
+        return xmlOutputBufferCreateBuffer(buffer.get(), handler);
     });
     if (status != SRCML_STATUS_OK)
         return status;
 
-    (*src_buffer) = (char *) xmlBufferDetach(buffer);
+    // not strlen(), as the encoding may use null bytes
+    *src_size = (size_t) xmlBufferLength(buffer.get());
+    (*src_buffer) = (char *) xmlBufferDetach(buffer.get());
     if (!(*src_buffer))
         return SRCML_STATUS_ERROR;
-    *src_size = strlen(*src_buffer);
-
-    xmlBufferFree(buffer);
 
     return SRCML_STATUS_OK;
 }
-- 
2.43.0


From 88951f1603bae72dfd6819df3d4220582db835a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:32 +0000
Subject: [PATCH 27/69] fix: any negative result of a read callback is an error

---
 src/parser/UTF8CharBuffer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/UTF8CharBuffer.cpp b/src/parser/UTF8CharBuffer.cpp
index d4b2ec4..0740dc2 100644
--- a/src/parser/UTF8CharBuffer.cpp
+++ b/src/parser/UTF8CharBuffer.cpp
@@ -289,7 +289,7 @@ ssize_t UTF8CharBuffer::readChars() {
         // the entire input buffer may not be available because of incomplete multi-byte sequences
         // from a previous read
         ssize_t insize = sio.read_callback ? (int) sio.read_callback(sio.context, raw.data() + inbytesleft, raw.size() - inbytesleft) : 0;
-        if (insize == -1) {
+        if (insize < 0) {
             fprintf(stderr, "Error reading: %s", strerror(errno));
             error = true;
             return 0;
@@ -303,7 +303,7 @@ ssize_t UTF8CharBuffer::readChars() {
         // the first time, enough is needed to recognize a BOM
         while (firstRead && insize < 4) {
             ssize_t more = sio.read_callback(sio.context, raw.data() + insize, raw.size() - insize);
-            if (more == -1) {
+            if (more < 0) {
                 fprintf(stderr, "Error reading: %s", strerror(errno));
                 error = true;
             }
-- 
2.43.0


From a0788a366a4106feb608ff943623f66a6a219db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:53 +0000
Subject: [PATCH 28/69] fix: an encoding detected by a parse does not apply to
 later parses of the unit

---
 src/libsrcml/srcml_types.hpp | 2 ++
 src/libsrcml/srcml_unit.cpp  | 8 +++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/libsrcml/srcml_types.hpp b/src/libsrcml/srcml_types.hpp
index 899d68e..512d831 100644
--- a/src/libsrcml/srcml_types.hpp
+++ b/src/libsrcml/srcml_types.hpp
@@ -196,6 +196,8 @@ struct srcml_unit {
     boost::optional<std::string> timestamp;
     /** an attribute for a hash string */
     boost::optional<std::string> hash;
+    /** whether the encoding was found by a parse, i.e., not set by the user */
+    bool encoding_detected = false;
     /** whether the hash was generated by a parse, i.e., not set by the user */
     bool hash_generated = false;
     /** an array of name-value attribute pairs */
diff --git a/src/libsrcml/srcml_unit.cpp b/src/libsrcml/srcml_unit.cpp
index 8de7517..7c129cd 100644
--- a/src/libsrcml/srcml_unit.cpp
+++ b/src/libsrcml/srcml_unit.cpp
@@ -51,6 +51,7 @@ int srcml_unit_set_src_encoding(struct srcml_unit* unit, const char* encoding) {
         return SRCML_STATUS_INVALID_ARGUMENT;
 
     unit->encoding = encoding ? std::string(encoding) : decltype(unit->encoding)();
+    unit->encoding_detected = false;
 
     return SRCML_STATUS_OK;
 }
@@ -500,7 +501,10 @@ static int srcml_unit_parse_internal(struct srcml_unit* unit, const char* filena
 
     unit->derived_language = lang;
 
-    const char* src_encoding = optional_to_c_str(unit->encoding, optional_to_c_str(unit->archive->src_encoding));
+    // an encoding that was detected in an earlier parse is not for this source
+    const char* src_encoding = optional_to_c_str(unit->archive->src_encoding);
+    if (unit->encoding && !unit->encoding_detected)
+        src_encoding = unit->encoding->c_str();
 
     // verify encoding here instead of later, when more difficult to handle errors
     if (src_encoding) {
@@ -527,6 +531,7 @@ static int srcml_unit_parse_internal(struct srcml_unit* unit, const char* filena
 
     } catch(...) { return SRCML_STATUS_IO_ERROR; }
 
+    unit->encoding_detected = !unit->encoding || unit->encoding_detected;
     unit->encoding = input->getEncoding();
 
     // unit url is just that of the archive
@@ -1230,6 +1235,7 @@ struct srcml_unit* srcml_unit_clone(const struct srcml_unit* unit) {
     new_unit->language = unit->language;
     new_unit->revision = unit->revision;
     new_unit->encoding = unit->encoding;
+    new_unit->encoding_detected = unit->encoding_detected;
     new_unit->attributes = unit->attributes;
     new_unit->eol = unit->eol;
     new_unit->derived_language = unit->derived_language;
-- 
2.43.0


From f76901c5ee49342d5868a759355e494d5010bc29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:45 +0000
Subject: [PATCH 29/69] fix: an invalid XSLT stylesheet or RelaxNG schema is
 refused instead of terminating the process

---
 src/libsrcml/relaxngTransformation.cpp |  7 ++++---
 src/libsrcml/srcml_transform.cpp       | 16 ++++++++++++++--
 src/libsrcml/xsltTransformation.cpp    | 15 ++++++++-------
 3 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/libsrcml/relaxngTransformation.cpp b/src/libsrcml/relaxngTransformation.cpp
index fc9f286..29a3a3f 100644
--- a/src/libsrcml/relaxngTransformation.cpp
+++ b/src/libsrcml/relaxngTransformation.cpp
@@ -21,6 +21,7 @@
  */
 
 #include <relaxngTransformation.hpp>
+#include <stdexcept>
 
 /**
  * relaxngTransformation
@@ -34,15 +35,15 @@ relaxngTransformation::relaxngTransformation(/* OPTION_TYPE& options, */ xmlDocP
 
     relaxng_parser_ctxt = decltype(relaxng_parser_ctxt)(xmlRelaxNGNewDocParserCtxt(relaxng));
     if (relaxng_parser_ctxt == nullptr)
-        throw;
+        throw std::runtime_error("Unable to use RelaxNG schema");
 
     rng = decltype(rng)(xmlRelaxNGParse(relaxng_parser_ctxt.get()));
     if (rng == nullptr)
-        throw;
+        throw std::runtime_error("Unable to use RelaxNG schema");
 
     rngctx = decltype(rngctx)(xmlRelaxNGNewValidCtxt(rng.get()));
     if (rngctx == nullptr)
-        throw;
+        throw std::runtime_error("Unable to use RelaxNG schema");
 }
 
 /**
diff --git a/src/libsrcml/srcml_transform.cpp b/src/libsrcml/srcml_transform.cpp
index aaa6e30..bd79e72 100644
--- a/src/libsrcml/srcml_transform.cpp
+++ b/src/libsrcml/srcml_transform.cpp
@@ -19,6 +19,7 @@
  */
 
 #include <srcml.h>
+#include <stdexcept>
 #include <srcml_types.hpp>
 
 #ifdef _MSC_BUILD
@@ -191,7 +192,13 @@ static int srcml_append_transform_xslt_internal(srcml_archive* archive, std::uni
     if (archive == NULL || doc == 0)
         return SRCML_STATUS_INVALID_ARGUMENT;
 
-    archive->transformations.push_back(std::unique_ptr<Transformation>(new xsltTransformation(doc.release(), std::vector<std::string>())));
+    // the stylesheet takes over the document, unless it is not a valid XSLT program
+    try {
+        archive->transformations.push_back(std::unique_ptr<Transformation>(new xsltTransformation(doc.get(), std::vector<std::string>())));
+    } catch (const std::runtime_error&) {
+        return SRCML_STATUS_INVALID_ARGUMENT;
+    }
+    doc.release();
 
     return SRCML_STATUS_OK;
 }
@@ -302,7 +309,12 @@ static int srcml_append_transform_relaxng_internal(srcml_archive* archive, xmlDo
     if (archive == NULL || doc == 0)
         return SRCML_STATUS_INVALID_ARGUMENT;
 
-    archive->transformations.push_back(std::unique_ptr<Transformation>(new relaxngTransformation(doc)));
+    try {
+        archive->transformations.push_back(std::unique_ptr<Transformation>(new relaxngTransformation(doc)));
+    } catch (const std::runtime_error&) {
+        // not a valid RelaxNG schema
+        return SRCML_STATUS_INVALID_ARGUMENT;
+    }
 
     return SRCML_STATUS_OK;
 }
diff --git a/src/libsrcml/xsltTransformation.cpp b/src/libsrcml/xsltTransformation.cpp
index 02a248d..a598544 100644
--- a/src/libsrcml/xsltTransformation.cpp
+++ b/src/libsrcml/xsltTransformation.cpp
@@ -26,6 +26,7 @@
 #include <libxml/parserInternals.h>
 
 #include <srcml_sax2_utilities.hpp>
+#include <stdexcept>
 
 #ifdef DLLOAD
 #include <dlfcn.h>
@@ -57,7 +58,7 @@ xsltTransformation::xsltTransformation(/* OPTION_TYPE& options, */ xmlDocPtr xsl
     libxslt_handle = dlopen_libxslt();
     if (!libxslt_handle) {
         fprintf(stderr, "Unable to open libxslt library\n");
-        throw;
+        throw std::runtime_error("Unable to use XSLT stylesheet");
     }
 
     char* error;
@@ -67,7 +68,7 @@ xsltTransformation::xsltTransformation(/* OPTION_TYPE& options, */ xmlDocPtr xsl
     if ((error = dlerror()) != NULL) {
         dlclose(libxslt_handle);
         libxslt_handle = 0;
-        throw;
+        throw std::runtime_error("Unable to use XSLT stylesheet");
     }
 
     dlerror();
@@ -75,7 +76,7 @@ xsltTransformation::xsltTransformation(/* OPTION_TYPE& options, */ xmlDocPtr xsl
     if ((error = dlerror()) != NULL) {
         dlclose(libxslt_handle);
         libxslt_handle = 0;
-        throw;
+        throw std::runtime_error("Unable to use XSLT stylesheet");
     }
 
     dlerror();
@@ -83,7 +84,7 @@ xsltTransformation::xsltTransformation(/* OPTION_TYPE& options, */ xmlDocPtr xsl
     if ((error = dlerror()) != NULL) {
         dlclose(libxslt_handle);
         libxslt_handle = 0;
-        throw;
+        throw std::runtime_error("Unable to use XSLT stylesheet");
     }
 
     dlerror();
@@ -91,7 +92,7 @@ xsltTransformation::xsltTransformation(/* OPTION_TYPE& options, */ xmlDocPtr xsl
     if ((error = dlerror()) != NULL) {
         dlclose(libxslt_handle);
         libxslt_handle = 0;
-        throw;
+        throw std::runtime_error("Unable to use XSLT stylesheet");
     }
 
     libexslt_handle = dlopen_libexslt();
@@ -103,7 +104,7 @@ xsltTransformation::xsltTransformation(/* OPTION_TYPE& options, */ xmlDocPtr xsl
     *(void **) (&exsltRegisterAll) = dlsym(libexslt_handle, "exsltRegisterAll");
     if ((error = dlerror()) != NULL) {
         dlclose(libexslt_handle);
-        throw;
+        throw std::runtime_error("Unable to use XSLT stylesheet");
     }
 #endif
 
@@ -113,7 +114,7 @@ xsltTransformation::xsltTransformation(/* OPTION_TYPE& options, */ xmlDocPtr xsl
     // parse the stylesheet
     stylesheet = xsltParseStylesheetDoc(xslt);
     if (!stylesheet)
-        throw;
+        throw std::runtime_error("Unable to use XSLT stylesheet");
 }
 
 /**
-- 
2.43.0


From 9757b37c61b299d6da2d194503391a0a97f7780b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:27 +0000
Subject: [PATCH 30/69] fix: an XPath expression or XSLT program that cannot be
 evaluated is reported as an error

---
 src/libsrcml/Transformation.hpp      | 2 ++
 src/libsrcml/srcml_transform.cpp     | 8 ++++++++
 src/libsrcml/xpathTransformation.cpp | 8 ++++++--
 src/libsrcml/xsltTransformation.cpp  | 4 +++-
 4 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/libsrcml/Transformation.hpp b/src/libsrcml/Transformation.hpp
index 5c1385b..4b56ea8 100644
--- a/src/libsrcml/Transformation.hpp
+++ b/src/libsrcml/Transformation.hpp
@@ -42,6 +42,8 @@ struct TransformationResult {
     std::string stringValue;
     bool unitWrapped = false;
     std::shared_ptr<xmlDoc> doc;
+    /** the transformation could not be performed */
+    bool failed = false;
 };
 
 /**
diff --git a/src/libsrcml/srcml_transform.cpp b/src/libsrcml/srcml_transform.cpp
index bd79e72..ef88574 100644
--- a/src/libsrcml/srcml_transform.cpp
+++ b/src/libsrcml/srcml_transform.cpp
@@ -561,6 +561,14 @@ int srcml_unit_apply_transforms(struct srcml_archive* archive, struct srcml_unit
             xmlDocSetRootElement(curdoc.get(), pr->nodeTab[i]);
 
             lastresult = trans->apply(curdoc.get(), 0);
+            if (lastresult.failed) {
+
+                // the nodes belong to their documents
+                pr->nodeNr = 0;
+                fullresults->nodeNr = 0;
+
+                return SRCML_STATUS_ERROR;
+            }
             std::unique_ptr<xmlNodeSet> results(std::move(lastresult.nodeset));
             if (results == nullptr)
                 break;
diff --git a/src/libsrcml/xpathTransformation.cpp b/src/libsrcml/xpathTransformation.cpp
index cbaf66b..98760ef 100644
--- a/src/libsrcml/xpathTransformation.cpp
+++ b/src/libsrcml/xpathTransformation.cpp
@@ -259,7 +259,9 @@ TransformationResult xpathTransformation::apply(xmlDocPtr doc, int position) con
     std::unique_ptr<xmlXPathContext> context(createContext(doc));
     if (!context) {
         fprintf(stderr, "%s: Error in executing xpath\n", "libsrcml");
-        return TransformationResult();
+        TransformationResult failure;
+        failure.failed = true;
+        return failure;
     }
 
     // register standard prefixes for standard namespaces
@@ -285,7 +287,9 @@ TransformationResult xpathTransformation::apply(xmlDocPtr doc, int position) con
     std::unique_ptr<xmlXPathObject> result_nodes(xmlXPathCompiledEval(compiled_xpath, context.get()));
     if (!result_nodes) {
         fprintf(stderr, "%s: Error in executing xpath\n", "libsrcml");
-        return TransformationResult();
+        TransformationResult failure;
+        failure.failed = true;
+        return failure;
     }
 
     TransformationResult tresult;
diff --git a/src/libsrcml/xsltTransformation.cpp b/src/libsrcml/xsltTransformation.cpp
index a598544..ca770b5 100644
--- a/src/libsrcml/xsltTransformation.cpp
+++ b/src/libsrcml/xsltTransformation.cpp
@@ -155,7 +155,9 @@ TransformationResult xsltTransformation::apply(xmlDocPtr doc, int /* position */
     if (!res) {
         fprintf(stderr, "libsrcml:  Error in applying stylesheet\n");
 
-        return TransformationResult();
+        TransformationResult failure;
+        failure.failed = true;
+        return failure;
     }
     // empty (but valid) result
     if (!res->children) {
-- 
2.43.0


From a1a5092f76ea8a7c1ee4e39b2eed5957baf3f627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:38 +0000
Subject: [PATCH 31/69] fix: selected text and attribute values are escaped in
 the units of a transformation result

---
 src/libsrcml/srcml_transform.cpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/libsrcml/srcml_transform.cpp b/src/libsrcml/srcml_transform.cpp
index ef88574..ecc39a4 100644
--- a/src/libsrcml/srcml_transform.cpp
+++ b/src/libsrcml/srcml_transform.cpp
@@ -671,18 +671,20 @@ int srcml_unit_apply_transforms(struct srcml_archive* archive, struct srcml_unit
             nunit->srcml.append("-->");
             break;
 
-        case XML_TEXT_NODE:
-
-            nunit->srcml.append((const char*) fullresults->nodeTab[i]->content);
-            break;
-
-        case XML_ATTRIBUTE_NODE:
+        case XML_ATTRIBUTE_NODE: {
 
             nunit->srcml.append((const char*) fullresults->nodeTab[i]->name);
             nunit->srcml.append("=\"");
-            nunit->srcml.append((const char*) fullresults->nodeTab[i]->children->content);
+
+            // null for an empty value
+            xmlChar* value = xmlNodeListGetString(curdoc.get(), fullresults->nodeTab[i]->children, 0);
+            if (value != nullptr)
+                nunit->srcml.append((const char*) value);
+            xmlFree(value);
+
             nunit->srcml.append("\"");
             break;
+        }
 
         default:
 
@@ -700,6 +702,10 @@ int srcml_unit_apply_transforms(struct srcml_archive* archive, struct srcml_unit
             // also performs a free of resources
             xmlOutputBufferClose(output);
 
+            // only elements refer to namespaces
+            if (fullresults->nodeTab[i]->type != XML_ELEMENT_NODE)
+                break;
+
             // update the cpp namespace if actually used
             if (usesURI(fullresults->nodeTab[i], SRCML_CPP_NS_URI)) {
 
-- 
2.43.0


From 86f8597f59026930cc4cc1b2d71a13249d6508c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:47 +0000
Subject: [PATCH 32/69] fix: XPath results that are the document or attributes
 do not corrupt the tree

---
 src/libsrcml/xpathTransformation.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/libsrcml/xpathTransformation.cpp b/src/libsrcml/xpathTransformation.cpp
index 98760ef..9b3f857 100644
--- a/src/libsrcml/xpathTransformation.cpp
+++ b/src/libsrcml/xpathTransformation.cpp
@@ -313,6 +313,12 @@ TransformationResult xpathTransformation::apply(xmlDocPtr doc, int position) con
     if (result_nodes->type != XPATH_NODESET)
         return tresult;
 
+    // the document stands for its root element
+    for (int i = 0; result_nodes->nodesetval && i < result_nodes->nodesetval->nodeNr; ++i) {
+        if (result_nodes->nodesetval->nodeTab[i]->type == XML_DOCUMENT_NODE)
+            result_nodes->nodesetval->nodeTab[i] = xmlDocGetRootElement(doc);
+    }
+
     if (!element.empty()) {
 
         addElementXPathResults(doc, result_nodes.get());
@@ -370,6 +376,10 @@ void xpathTransformation::addElementXPathResults(xmlDocPtr doc, xmlXPathObjectPt
 
         xmlNodePtr onode = result_nodes->nodesetval->nodeTab[i];
 
+        // attributes and namespaces cannot be inside an element
+        if (onode->type == XML_ATTRIBUTE_NODE || onode->type == XML_NAMESPACE_DECL)
+            continue;
+
         // set up node to insert
         xmlNodePtr element_node = xmlNewNode(element_ns, (const xmlChar*) element.c_str());
 
-- 
2.43.0


From 3a9490f53478208bac0f6266ba4952f5fcb90164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:56 +0000
Subject: [PATCH 33/69] fix: an attribute added by XPath extends the existing
 attribute instead of duplicating it

---
 src/libsrcml/xpathTransformation.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/libsrcml/xpathTransformation.cpp b/src/libsrcml/xpathTransformation.cpp
index 9b3f857..d873217 100644
--- a/src/libsrcml/xpathTransformation.cpp
+++ b/src/libsrcml/xpathTransformation.cpp
@@ -169,7 +169,7 @@ int xpathTransformation::child_offset(xmlNodePtr root_result_node) {
 void xpathTransformation::append_attribute_to_node(xmlNodePtr node, const char* attr_prefix, const char* attr_uri) const {
 
     // grab current value
-    const char* value = (char*) xmlGetNsProp(node, BAD_CAST attr_name.c_str(), BAD_CAST attr_uri);
+    char* value = (char*) xmlGetNsProp(node, BAD_CAST attr_name.c_str(), BAD_CAST attr_uri);
     const char* newvalue = attr_value.c_str();
 
     // previous property
@@ -182,7 +182,9 @@ void xpathTransformation::append_attribute_to_node(xmlNodePtr node, const char*
         newvalue = curvalue.c_str();
     }
 
-    xmlNewNsProp(node, attr_ns, (const xmlChar *) attr_name.c_str(), (const xmlChar *) newvalue);
+    xmlSetNsProp(node, attr_ns, (const xmlChar *) attr_name.c_str(), (const xmlChar *) newvalue);
+
+    xmlFree(value);
 }
 
 xmlXPathContextPtr xpathTransformation::createContext(xmlDocPtr doc) const {
@@ -337,7 +339,7 @@ TransformationResult xpathTransformation::apply(xmlDocPtr doc, int position) con
 
                 xmlNodePtr onode = result_nodes->nodesetval->nodeTab[i];
 
-                append_attribute_to_node(onode, attr_prefix.c_str(), attr_value.c_str());
+                append_attribute_to_node(onode, attr_prefix.c_str(), attr_uri.c_str());
             }
         }
         tresult.unitWrapped = true;
-- 
2.43.0


From fe6eaccf09df2b5a8fe820ca6158a19d5d9db9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:05 +0000
Subject: [PATCH 34/69] fix: the node sets and text of XSLT results are freed
 and may be empty

---
 src/libsrcml/xsltTransformation.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/libsrcml/xsltTransformation.cpp b/src/libsrcml/xsltTransformation.cpp
index ca770b5..3ddeecb 100644
--- a/src/libsrcml/xsltTransformation.cpp
+++ b/src/libsrcml/xsltTransformation.cpp
@@ -183,14 +183,15 @@ TransformationResult xsltTransformation::apply(xmlDocPtr doc, int /* position */
         for (auto p = res->children; p; p = p->next) {
             if (p->type != 1)
                 continue;
-            xmlXPathNodeSetMerge(result.nodeset.get(), xmlXPathNodeSetCreate(p));
+            xmlXPathNodeSetAdd(result.nodeset.get(), p);
         }
     }
 
     // text result
     if (result.nodeType == SRCML_RESULT_STRING) {
         auto str = (char*) xmlNodeListGetRawString(res.get(), res->children, 0);
-        result.stringValue = str;
+        if (str != nullptr)
+            result.stringValue = str;
         xmlFree(str);
     }
     return result;
-- 
2.43.0


From 9ea7f46e7c7113ea2153bb44df782785917e9048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:54 +0000
Subject: [PATCH 35/69] fix: wrapping the contents of a unit in an element
 keeps the tree consistent

---
 src/libsrcml/xpathTransformation.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libsrcml/xpathTransformation.cpp b/src/libsrcml/xpathTransformation.cpp
index d873217..1336e8d 100644
--- a/src/libsrcml/xpathTransformation.cpp
+++ b/src/libsrcml/xpathTransformation.cpp
@@ -403,6 +403,8 @@ void xpathTransformation::addElementXPathResults(xmlDocPtr doc, xmlXPathObjectPt
             element_node->parent = onode;
             element_node->next = 0;
             element_node->prev = 0;
+            for (xmlNodePtr child = element_node->children; child; child = child->next)
+                child->parent = element_node;
             onode->children = element_node;
             onode->last = element_node;
         }
-- 
2.43.0


From 2d6b6ef2e79761d170d501f1cc1fcb9787461a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:06 +0000
Subject: [PATCH 36/69] fix: the trees of chained transformations live until
 their results are stored and are then freed

---
 src/libsrcml/srcml_transform.cpp | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/libsrcml/srcml_transform.cpp b/src/libsrcml/srcml_transform.cpp
index ecc39a4..66c720f 100644
--- a/src/libsrcml/srcml_transform.cpp
+++ b/src/libsrcml/srcml_transform.cpp
@@ -41,6 +41,7 @@
 #include <unit_utilities.hpp>
 
 #include <algorithm>
+#include <set>
 #include <vector>
 #include <boost/optional.hpp>
 
@@ -546,6 +547,18 @@ int srcml_unit_apply_transforms(struct srcml_archive* archive, struct srcml_unit
     // final result of all applied transformations
     TransformationResult lastresult;
     std::shared_ptr<xmlDoc> curdoc(doc);
+
+    // documents and detached trees that the results are part of
+    struct Trees {
+        std::vector<std::shared_ptr<xmlDoc>> docs;
+        std::set<xmlNode*> detached;
+        ~Trees() {
+            for (xmlNode* node : detached)
+                xmlFreeNode(node);
+        }
+    } trees;
+    trees.docs.push_back(doc);
+
     for (const auto& trans : archive->transformations) {
 
         // preserve the fullresults to iterate through
@@ -558,7 +571,14 @@ int srcml_unit_apply_transforms(struct srcml_archive* archive, struct srcml_unit
 
         for (int i = 0; i < pr->nodeNr; ++i) {
 
-            xmlDocSetRootElement(curdoc.get(), pr->nodeTab[i]);
+            // attributes and namespaces cannot be transformed
+            if (pr->nodeTab[i]->type == XML_ATTRIBUTE_NODE || pr->nodeTab[i]->type == XML_NAMESPACE_DECL)
+                continue;
+
+            xmlNode* previous = xmlDocSetRootElement(curdoc.get(), pr->nodeTab[i]);
+            trees.detached.erase(pr->nodeTab[i]);
+            if (previous != nullptr)
+                trees.detached.insert(previous);
 
             lastresult = trans->apply(curdoc.get(), 0);
             if (lastresult.failed) {
@@ -569,6 +589,8 @@ int srcml_unit_apply_transforms(struct srcml_archive* archive, struct srcml_unit
 
                 return SRCML_STATUS_ERROR;
             }
+            if (lastresult.doc)
+                trees.docs.push_back(lastresult.doc);
             std::unique_ptr<xmlNodeSet> results(std::move(lastresult.nodeset));
             if (results == nullptr)
                 break;
-- 
2.43.0


From ae34bacc8e23ff16e2b6122a70caac0ec68a1c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:03 +0000
Subject: [PATCH 37/69] fix: without a result parameter the transformed unit
 replaces the unit

---
 src/libsrcml/srcml_transform.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/libsrcml/srcml_transform.cpp b/src/libsrcml/srcml_transform.cpp
index 66c720f..fbbd479 100644
--- a/src/libsrcml/srcml_transform.cpp
+++ b/src/libsrcml/srcml_transform.cpp
@@ -526,6 +526,22 @@ int srcml_unit_apply_transforms(struct srcml_archive* archive, struct srcml_unit
     if (archive->transformations.empty())
         return SRCML_STATUS_OK;
 
+    // without a place for the results, a result of a single unit replaces the unit
+    if (presult == nullptr) {
+
+        srcml_transform_result* replacement = nullptr;
+        int status = srcml_unit_apply_transforms(archive, unit, &replacement);
+        if (status == SRCML_STATUS_OK) {
+            if (srcml_transform_get_unit_size(replacement) == 1)
+                std::swap(*unit, *replacement->units[0]);
+            else
+                status = SRCML_STATUS_ERROR;
+        }
+        srcml_transform_free(replacement);
+
+        return status;
+    }
+
     srcml_transform_result* result = nullptr;
     if (presult) {
         *presult = new srcml_transform_result;
-- 
2.43.0


From b14f382042690ef8018895e041f532e9946ea717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:44 +0000
Subject: [PATCH 38/69] fix: an XPath transformation can be freed when libexslt
 is not available

---
 src/libsrcml/xpathTransformation.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libsrcml/xpathTransformation.cpp b/src/libsrcml/xpathTransformation.cpp
index 1336e8d..b788108 100644
--- a/src/libsrcml/xpathTransformation.cpp
+++ b/src/libsrcml/xpathTransformation.cpp
@@ -102,7 +102,8 @@ xpathTransformation::~xpathTransformation() {
         xmlFreeNs(element_ns);
 
 #ifdef DLLOAD
-    dlclose(handle);
+    if (handle)
+        dlclose(handle);
 #endif
 }
 
-- 
2.43.0


From db3bde1e2964e83647c56e1281619d0babe93df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:51 +0000
Subject: [PATCH 39/69] fix: the libraries are closed when a stylesheet cannot
 be used

---
 src/libsrcml/xsltTransformation.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/libsrcml/xsltTransformation.cpp b/src/libsrcml/xsltTransformation.cpp
index 3ddeecb..3e88fcb 100644
--- a/src/libsrcml/xsltTransformation.cpp
+++ b/src/libsrcml/xsltTransformation.cpp
@@ -103,7 +103,9 @@ xsltTransformation::xsltTransformation(/* OPTION_TYPE& options, */ xmlDocPtr xsl
     exsltRegisterAll_t exsltRegisterAll;
     *(void **) (&exsltRegisterAll) = dlsym(libexslt_handle, "exsltRegisterAll");
     if ((error = dlerror()) != NULL) {
-        dlclose(libexslt_handle);
+        if (libexslt_handle)
+            dlclose(libexslt_handle);
+        dlclose(libxslt_handle);
         throw std::runtime_error("Unable to use XSLT stylesheet");
     }
 #endif
@@ -113,8 +115,14 @@ xsltTransformation::xsltTransformation(/* OPTION_TYPE& options, */ xmlDocPtr xsl
 
     // parse the stylesheet
     stylesheet = xsltParseStylesheetDoc(xslt);
-    if (!stylesheet)
+    if (!stylesheet) {
+#ifdef DLLOAD
+        if (libexslt_handle)
+            dlclose(libexslt_handle);
+        dlclose(libxslt_handle);
+#endif
         throw std::runtime_error("Unable to use XSLT stylesheet");
+    }
 }
 
 /**
@@ -130,7 +138,8 @@ xsltTransformation::~xsltTransformation() {
 
 #ifdef DLLOAD
     dlclose(libxslt_handle);
-    dlclose(libexslt_handle);
+    if (libexslt_handle)
+        dlclose(libexslt_handle);
 #endif
 }
 
-- 
2.43.0


From 583ad31e94d111c5ef5d68b4bfd1f38f4b5684c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:10 +0000
Subject: [PATCH 40/69] fix: the input buffer is released when no parser
 context can be created

---
 src/libsrcml/srcsax_controller.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libsrcml/srcsax_controller.cpp b/src/libsrcml/srcsax_controller.cpp
index 332c5b0..1b082f7 100644
--- a/src/libsrcml/srcsax_controller.cpp
+++ b/src/libsrcml/srcsax_controller.cpp
@@ -155,8 +155,10 @@ xmlParserCtxtPtr srcsax_create_parser_context(xmlParserInputBufferPtr buffer_inp
         return 0;
 
     xmlParserCtxtPtr ctxt = xmlNewParserCtxt();
-    if (ctxt == 0)
+    if (ctxt == 0) {
+        xmlFreeParserInputBuffer(buffer_input);
         return 0;
+    }
 
     xmlCtxtUseOptions(ctxt, XML_PARSE_COMPACT | XML_PARSE_HUGE | XML_PARSE_NODICT);
 
-- 
2.43.0


From 88d929cb324513f4a74fae073357e7b43e6430e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:09 +0000
Subject: [PATCH 41/69] fix: a node without results does not end a
 transformation of several nodes

---
 src/libsrcml/srcml_transform.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/libsrcml/srcml_transform.cpp b/src/libsrcml/srcml_transform.cpp
index fbbd479..7950d8f 100644
--- a/src/libsrcml/srcml_transform.cpp
+++ b/src/libsrcml/srcml_transform.cpp
@@ -585,6 +585,7 @@ int srcml_unit_apply_transforms(struct srcml_archive* archive, struct srcml_unit
             return SRCML_STATUS_ERROR;
         fullresults.swap(pr);
 
+        lastresult = TransformationResult();
         for (int i = 0; i < pr->nodeNr; ++i) {
 
             // attributes and namespaces cannot be transformed
@@ -596,8 +597,8 @@ int srcml_unit_apply_transforms(struct srcml_archive* archive, struct srcml_unit
             if (previous != nullptr)
                 trees.detached.insert(previous);
 
-            lastresult = trans->apply(curdoc.get(), 0);
-            if (lastresult.failed) {
+            TransformationResult curresult = trans->apply(curdoc.get(), 0);
+            if (curresult.failed) {
 
                 // the nodes belong to their documents
                 pr->nodeNr = 0;
@@ -605,8 +606,14 @@ int srcml_unit_apply_transforms(struct srcml_archive* archive, struct srcml_unit
 
                 return SRCML_STATUS_ERROR;
             }
-            if (lastresult.doc)
-                trees.docs.push_back(lastresult.doc);
+            if (curresult.doc)
+                trees.docs.push_back(curresult.doc);
+
+            // a node without any results does not affect the results of the other nodes
+            if (curresult.nodeType == SRCML_RESULT_NONE)
+                continue;
+
+            lastresult = std::move(curresult);
             std::unique_ptr<xmlNodeSet> results(std::move(lastresult.nodeset));
             if (results == nullptr)
                 break;
-- 
2.43.0


From f1170eeac57691dbcacfbfb305ecd19d8a2232b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:00 +0000
Subject: [PATCH 42/69] fix: a string parameter with a double quote is a valid
 string literal

---
 src/libsrcml/srcml_transform.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/libsrcml/srcml_transform.cpp b/src/libsrcml/srcml_transform.cpp
index 7950d8f..e97e304 100644
--- a/src/libsrcml/srcml_transform.cpp
+++ b/src/libsrcml/srcml_transform.cpp
@@ -450,11 +450,16 @@ int srcml_append_transform_stringparam(srcml_archive* archive, const char* xpath
     if (archive->transformations.size() == 0)
         return SRCML_STATUS_NO_TRANSFORMATION;
 
+    // the literal is delimited by a quote that is not in the value
+    const char* quote = strchr(xpath_param_value, '"') == nullptr ? "\"" : "'";
+    if (strchr(xpath_param_value, *quote) != nullptr)
+        return SRCML_STATUS_INVALID_ARGUMENT;
+
     archive->transformations.back()->xsl_parameters.push_back(xpath_param_name);
 
-    std::string parenvalue = "\"";
+    std::string parenvalue = quote;
     parenvalue += xpath_param_value;
-    parenvalue += "\"";
+    parenvalue += quote;
 
     archive->transformations.back()->xsl_parameters.push_back(parenvalue);
 
-- 
2.43.0


From 1e3069d43a977de343b893de68ca8864401d65b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:41 +0000
Subject: [PATCH 43/69] fix: elements of an XSLT result separated by text are
 all kept

---
 src/libsrcml/xsltTransformation.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libsrcml/xsltTransformation.cpp b/src/libsrcml/xsltTransformation.cpp
index 3e88fcb..747c093 100644
--- a/src/libsrcml/xsltTransformation.cpp
+++ b/src/libsrcml/xsltTransformation.cpp
@@ -180,7 +180,10 @@ TransformationResult xsltTransformation::apply(xmlDocPtr doc, int /* position */
 
     // transformation may produce more than one unit, but not be well-formed due to lack of root element
     // so create a nodeset of those parts, and change the type since libxml2 has this as text
-    if (res->children->next && res->children->next->type == 1) {
+    auto another = res->children->next;
+    while (another && another->type != 1)
+        another = another->next;
+    if (another) {
 
         // libxml2 types this as text since there is no root element
         result.nodeType = SRCML_RESULT_UNITS;
-- 
2.43.0


From 5a27227bb1410aa5493103b3093dfc87f18b86db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:19 +0000
Subject: [PATCH 44/69] fix: deeply nested units can be converted to source and
 transformed

---
 src/libsrcml/srcml_transform.cpp | 2 +-
 src/libsrcml/unit_utilities.cpp  | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libsrcml/srcml_transform.cpp b/src/libsrcml/srcml_transform.cpp
index e97e304..c6375ce 100644
--- a/src/libsrcml/srcml_transform.cpp
+++ b/src/libsrcml/srcml_transform.cpp
@@ -556,7 +556,7 @@ int srcml_unit_apply_transforms(struct srcml_archive* archive, struct srcml_unit
     }
 
     // create a DOM of the unit
-    std::shared_ptr<xmlDoc> doc(xmlReadMemory(unit->srcml.c_str(), (int) unit->srcml.size(), 0, 0, 0), [](xmlDoc* doc) { xmlFreeDoc(doc); });
+    std::shared_ptr<xmlDoc> doc(xmlReadMemory(unit->srcml.c_str(), (int) unit->srcml.size(), 0, 0, XML_PARSE_HUGE), [](xmlDoc* doc) { xmlFreeDoc(doc); });
     if (doc == nullptr)
         return SRCML_STATUS_ERROR;
 
diff --git a/src/libsrcml/unit_utilities.cpp b/src/libsrcml/unit_utilities.cpp
index a3ca02e..1d163f2 100644
--- a/src/libsrcml/unit_utilities.cpp
+++ b/src/libsrcml/unit_utilities.cpp
@@ -180,6 +180,7 @@ std::string extract_src(const std::string& srcml, boost::optional<int> revision)
     };
 
     xmlParserCtxtPtr context = xmlCreateMemoryParserCtxt(srcml.c_str(), (int) srcml.size());
+    xmlCtxtUseOptions(context, XML_PARSE_HUGE);
     auto save_private = context->_private;
     context->_private = &scontext;
     auto save_sax = context->sax;
-- 
2.43.0


From a6acce7120ef3f33652eb6a0517afda454867cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:29 +0000
Subject: [PATCH 45/69] fix: a unit whose srcML cannot be parsed is not
 unparsed as if it were shorter

---
 src/libsrcml/srcml_unit.cpp     | 18 +++++++++++-------
 src/libsrcml/unit_utilities.cpp | 11 ++++++++---
 src/libsrcml/unit_utilities.hpp |  2 +-
 3 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/libsrcml/srcml_unit.cpp b/src/libsrcml/srcml_unit.cpp
index 7c129cd..2ea6d6c 100644
--- a/src/libsrcml/srcml_unit.cpp
+++ b/src/libsrcml/srcml_unit.cpp
@@ -713,6 +713,8 @@ static int srcml_unit_unparse_internal(struct srcml_unit* unit, std::function<xm
     // generate this source from the srcml
     if (!unit->src) {
         unit->src = extract_src(unit->srcml);
+        if (!unit->src)
+            return SRCML_STATUS_ERROR;
     }
 
     // if EOL is not auto, then need to convert for
@@ -1042,13 +1044,6 @@ int srcml_write_end_unit(struct srcml_unit* unit) {
     unit->srcml_raw = boost::none;
     unit->srcml_raw_revision = boost::none;
 
-    // record the loc
-    unit->src = extract_src(unit->srcml);
-
-    unit->loc = (int) std::count(unit->src->begin(), unit->src->end(), '\n');
-    if (!unit->src->empty() && unit->src->back() != '\n')
-        ++unit->loc;
-
     // finished with any parsing
     delete unit->unit_translator;
     unit->unit_translator = 0;
@@ -1056,6 +1051,15 @@ int srcml_write_end_unit(struct srcml_unit* unit) {
     xmlBufferFree(unit->output_buffer);
     unit->output_buffer = nullptr;
 
+    // record the loc
+    unit->src = extract_src(unit->srcml);
+    if (!unit->src)
+        return SRCML_STATUS_INVALID_INPUT;
+
+    unit->loc = (int) std::count(unit->src->begin(), unit->src->end(), '\n');
+    if (!unit->src->empty() && unit->src->back() != '\n')
+        ++unit->loc;
+
     unit->read_body = true;
 
     return SRCML_STATUS_OK;
diff --git a/src/libsrcml/unit_utilities.cpp b/src/libsrcml/unit_utilities.cpp
index 1d163f2..596429c 100644
--- a/src/libsrcml/unit_utilities.cpp
+++ b/src/libsrcml/unit_utilities.cpp
@@ -126,8 +126,8 @@ struct extract_context {
     std::stack<int> mode;
 };
 
-// Extract source code from srcml
-std::string extract_src(const std::string& srcml, boost::optional<int> revision) {
+// Extract source code from srcml, none if the srcml is not well formed
+boost::optional<std::string> extract_src(const std::string& srcml, boost::optional<int> revision) {
 
     extract_context scontext;
     scontext.revision = revision;
@@ -180,19 +180,24 @@ std::string extract_src(const std::string& srcml, boost::optional<int> revision)
     };
 
     xmlParserCtxtPtr context = xmlCreateMemoryParserCtxt(srcml.c_str(), (int) srcml.size());
+    if (context == nullptr)
+        return boost::none;
     xmlCtxtUseOptions(context, XML_PARSE_HUGE);
     auto save_private = context->_private;
     context->_private = &scontext;
     auto save_sax = context->sax;
     context->sax = &charactersax;
 
-    xmlParseDocument(context);
+    bool parsed = xmlParseDocument(context) == 0;
 
     context->_private = save_private;
     context->sax = save_sax;
 
     xmlFreeParserCtxt(context);
 
+    if (!parsed)
+        return boost::none;
+
     return scontext.s;
 }
 
diff --git a/src/libsrcml/unit_utilities.hpp b/src/libsrcml/unit_utilities.hpp
index 31a6b6b..9d4c710 100644
--- a/src/libsrcml/unit_utilities.hpp
+++ b/src/libsrcml/unit_utilities.hpp
@@ -31,7 +31,7 @@
 void unit_update_attributes(srcml_unit* unit, int num_attributes, const xmlChar** attributes);
 
 // Extract source code from srcml
-std::string extract_src(const std::string& srcml, boost::optional<int> revision = boost::none);
+boost::optional<std::string> extract_src(const std::string& srcml, boost::optional<int> revision = boost::none);
 std::string extract_revision(const char* srcml, int size, int revision, bool text_only = false);
 std::string attribute_revision(const std::string& attribute, int revision);
 
-- 
2.43.0


From e29cdf2b7e9f269f4ca7e88ac28511cd544a3ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:15 +0000
Subject: [PATCH 46/69] fix: srcml_archive_write_unit reports output that fails

---
 src/libsrcml/srcml_archive.cpp    | 3 ++-
 src/libsrcml/srcml_translator.cpp | 6 ++----
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/libsrcml/srcml_archive.cpp b/src/libsrcml/srcml_archive.cpp
index e666565..6df621a 100644
--- a/src/libsrcml/srcml_archive.cpp
+++ b/src/libsrcml/srcml_archive.cpp
@@ -1241,7 +1241,8 @@ int srcml_archive_write_unit(struct srcml_archive* archive, struct srcml_unit* u
             return status;
     }
 
-    archive->translator->add_unit(unit);
+    if (!archive->translator->add_unit(unit))
+        return SRCML_STATUS_IO_ERROR;
 
     return SRCML_STATUS_OK;
 }
diff --git a/src/libsrcml/srcml_translator.cpp b/src/libsrcml/srcml_translator.cpp
index 1d88833..a9df188 100644
--- a/src/libsrcml/srcml_translator.cpp
+++ b/src/libsrcml/srcml_translator.cpp
@@ -254,10 +254,8 @@ bool srcml_translator::add_unit(const srcml_unit* unit) {
         xmlTextWriterWriteRawLen(out.getWriter(), BAD_CAST (unit->srcml.c_str() + unit->content_begin), size);
     }
 
-    // end the unit
-    xmlTextWriterEndElement(out.getWriter());
-
-    return true;
+    // end the unit, fails when any of the output before it has
+    return xmlTextWriterEndElement(out.getWriter()) != -1;
 }
 
 /**
-- 
2.43.0


From 50f3e8c83c92a64455f7b251b7031ae46b200ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:44 +0000
Subject: [PATCH 47/69] fix: a converter that cannot be opened is not used,
 whatever the reason

---
 src/libsrcml/srcml_unit.cpp   | 1 +
 src/parser/UTF8CharBuffer.cpp | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/libsrcml/srcml_unit.cpp b/src/libsrcml/srcml_unit.cpp
index 2ea6d6c..120e1e8 100644
--- a/src/libsrcml/srcml_unit.cpp
+++ b/src/libsrcml/srcml_unit.cpp
@@ -514,6 +514,7 @@ static int srcml_unit_parse_internal(struct srcml_unit* unit, const char* filena
                 fprintf(stderr, "srcml: Conversion from encoding '%s' not supported\n", src_encoding);
                 return SRCML_STATUS_INVALID_ARGUMENT;
             }
+            return SRCML_STATUS_ERROR;
         }
         iconv_close(ic);
     }
diff --git a/src/parser/UTF8CharBuffer.cpp b/src/parser/UTF8CharBuffer.cpp
index 0740dc2..28a4533 100644
--- a/src/parser/UTF8CharBuffer.cpp
+++ b/src/parser/UTF8CharBuffer.cpp
@@ -387,9 +387,9 @@ ssize_t UTF8CharBuffer::readChars() {
         if (ic == (iconv_t) -1) {
             if (errno == EINVAL) {
                 fprintf(stderr, "srcml: Conversion from encoding '%s' not supported\n\n", encoding.c_str());
-                error = true;
-                return 0;
             }
+            error = true;
+            return 0;
         }
 
         // see if this encoding to UTF-8 is trivial, if so we can use raw characters directly
-- 
2.43.0


From e1621b7c7f1edf425c2407d47b7d37befc0be56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:07 +0000
Subject: [PATCH 48/69] fix: srcml() reports an input without any unit

---
 src/libsrcml/libsrcml.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/libsrcml/libsrcml.cpp b/src/libsrcml/libsrcml.cpp
index 945d745..934cf44 100644
--- a/src/libsrcml/libsrcml.cpp
+++ b/src/libsrcml/libsrcml.cpp
@@ -241,8 +241,10 @@ int srcml(const char* input_filename, const char* output_filename) {
             return status;
 
         std::unique_ptr<srcml_unit> unit(srcml_archive_read_unit(archive.get()));
-        if (!unit)
-            return status;
+        if (!unit) {
+            global_archive.error_string = "Unable to read srcML unit";
+            return SRCML_STATUS_ERROR;
+        }
 
         status = srcml_unit_unparse_filename(unit.get(), output_filename);
         if (status != SRCML_STATUS_OK)
-- 
2.43.0


From 82d80e38c97c8f83c7f6b117118da640f65dc938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:14 +0000
Subject: [PATCH 49/69] fix: srcml() does not look before the start of a short
 filename

---
 src/libsrcml/libsrcml.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libsrcml/libsrcml.cpp b/src/libsrcml/libsrcml.cpp
index 934cf44..6648103 100644
--- a/src/libsrcml/libsrcml.cpp
+++ b/src/libsrcml/libsrcml.cpp
@@ -217,7 +217,7 @@ int srcml(const char* input_filename, const char* output_filename) {
         size_t len = strlen(input_filename);
         if (!((len > 4 && tolower(input_filename[len - 1]) == 'l' && tolower(input_filename[len - 2]) == 'm'
             && ((tolower(input_filename[len - 3]) == 'x' && input_filename[len - 4] == '.')
-             || (tolower(input_filename[len - 3]) == 'c' && tolower(input_filename[len - 4]) == 'r' && tolower(input_filename[len - 5]) == 's' && tolower(input_filename[len - 6]) == '.')))
+             || (len > 5 && tolower(input_filename[len - 3]) == 'c' && tolower(input_filename[len - 4]) == 'r' && tolower(input_filename[len - 5]) == 's' && tolower(input_filename[len - 6]) == '.')))
            || (global_archive.language && strcmp(global_archive.language->c_str(), "xml") == 0))) {
 
             if (global_archive.language) {
-- 
2.43.0


From 4150d271b1cc7853bb38f0f82437d4321f0f018a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:49 +0000
Subject: [PATCH 50/69] fix: source code that ends inside of a multibyte
 character is an error

---
 src/parser/UTF8CharBuffer.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/parser/UTF8CharBuffer.cpp b/src/parser/UTF8CharBuffer.cpp
index 28a4533..c3b4b90 100644
--- a/src/parser/UTF8CharBuffer.cpp
+++ b/src/parser/UTF8CharBuffer.cpp
@@ -297,6 +297,13 @@ ssize_t UTF8CharBuffer::readChars() {
 
         // EOF
         if (insize == 0) {
+
+            // the end of the input is missing part of a character
+            if (inbytesleft) {
+                fprintf(stderr, "srcml: Incomplete character at end of input\n");
+                error = true;
+                inbytesleft = 0;
+            }
             return 0;
         }
 
-- 
2.43.0


From 1e0fdee616fc44e43ce540c4573560867f6daa55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:17 +0000
Subject: [PATCH 51/69] fix: the reader never waits for a parser that has
 ended, and no wake-up is lost

---
 src/libsrcml/srcml_reader_handler.hpp | 119 ++++++++++++--------------
 src/libsrcml/srcml_sax2_reader.cpp    |   9 +-
 2 files changed, 59 insertions(+), 69 deletions(-)

diff --git a/src/libsrcml/srcml_reader_handler.hpp b/src/libsrcml/srcml_reader_handler.hpp
index 721c8b1..3373fcf 100644
--- a/src/libsrcml/srcml_reader_handler.hpp
+++ b/src/libsrcml/srcml_reader_handler.hpp
@@ -106,8 +106,8 @@ private :
     /** terminate */
     bool terminate = false;
 
-    /** indicate if we need to wait on the root */
-    bool wait_root = true;
+    /** the parser may run, otherwise it is paused and the reader may run */
+    bool parsing = true;
 
     /** skip internal unit elements */
     bool skip = false;
@@ -140,37 +140,53 @@ public :
      */
     void stop_parser() {
 
-        is_done = true;
+        {
+            std::unique_lock<std::mutex> lock(mutex);
+
+            is_done = true;
+            cond.notify_all();
+        }
+
         srcSAXHandler::stop_parser();
     }
 
     /**
      * wait
      *
-     * Allows calling thread to wait until reached
-     * end of unit.
+     * Allows calling thread to wait until the parser
+     * is paused or done.
      */
     void wait() {
 
         std::unique_lock<std::mutex> lock(mutex);
 
-        if (is_done)
-            return;
-
-        if (wait_root)
-            cond.wait(lock);
+        cond.wait(lock, [this]() { return !parsing || is_done; });
     }
 
     /**
-     * resume
+     * pause
+     *
+     * Called by the parser to let the reader continue, and
+     * wait until it is resumed.
      *
-     * Resume SAX2 execution.
+     * @returns if the parser is to continue. If not, it is stopped.
      */
-    void resume() {
+    bool pause() {
 
-        std::unique_lock<std::mutex> lock(mutex);
+        {
+            std::unique_lock<std::mutex> lock(mutex);
+
+            parsing = false;
+            cond.notify_all();
+            cond.wait(lock, [this]() { return parsing || terminate; });
+
+            if (!terminate)
+                return true;
+        }
+
+        stop_parser();
 
-        cond.notify_one();
+        return false;
     }
 
     /**
@@ -181,11 +197,13 @@ public :
     void resume_and_wait() {
 
         std::unique_lock<std::mutex> lock(mutex);
-        cond.notify_one();
+
         if (is_done)
             return;
 
-        cond.wait(lock);
+        parsing = true;
+        cond.notify_all();
+        cond.wait(lock, [this]() { return !parsing || is_done; });
     }
 
     /**
@@ -195,9 +213,14 @@ public :
      */
     void done() {
 
-        is_done = true;
+        std::unique_lock<std::mutex> lock(mutex);
+
+        // already known to the reader, which may be using it
+        if (is_done)
+            return;
 
-        cond.notify_one();
+        is_done = true;
+        cond.notify_all();
     }
 
     /**
@@ -208,13 +231,10 @@ public :
      */
     void stop() {
 
-        {
-            std::unique_lock<std::mutex> lock(mutex);
-
-            terminate = true;
-        }
+        std::unique_lock<std::mutex> lock(mutex);
 
-        resume();
+        terminate = true;
+        cond.notify_all();
     }
 
 #pragma GCC diagnostic push
@@ -348,22 +368,10 @@ public :
         // pause
         if (!read_root) {
 
-            {
-                std::unique_lock<std::mutex> lock(mutex);
-
-                if (terminate)
-                    stop_parser();
-                wait_root = false;
-                cond.notify_one();
-                cond.wait(lock);
-                read_root = true;
-            }
-
-            if (terminate) {
-
-                stop_parser();
+            if (!pause())
                 return;
-            }
+
+            read_root = true;
         }
 
         // collect attributes
@@ -377,21 +385,14 @@ public :
         if (collect_unit_header) {
 
             // pause
-            std::unique_lock<std::mutex> lock(mutex);
-            if (terminate)
-                stop_parser();
-
-            cond.notify_one();
-            cond.wait(lock);
+            if (!pause())
+                return;
         }
 
         state->loc = 0;
 
         state->collect_unit_body = collect_unit_body;
 
-        if (terminate)
-            stop_parser();
-
 #ifdef SRCSAX_DEBUG
         fprintf(stderr, "HERE: %s %s %d '%s'\n", __FILE__, __FUNCTION__, __LINE__, (const char *)localname);
 #endif
@@ -412,16 +413,7 @@ public :
         fprintf(stderr, "HERE: %s %s %d '%s'\n", __FILE__, __FUNCTION__, __LINE__, (const char *)localname);
 #endif
 
-        {
-            std::unique_lock<std::mutex> lock(mutex);
-            if (terminate)
-                stop_parser();
-            is_done = true;
-            cond.notify_one();
-        }
-
-        if (terminate)
-            stop_parser();
+        done();
 
 #ifdef SRCSAX_DEBUG
         fprintf(stderr, "HERE: %s %s %d '%s'\n", __FILE__, __FUNCTION__, __LINE__, (const char *)localname);
@@ -477,15 +469,10 @@ public :
             }
 
             // pause
-            std::unique_lock<std::mutex> lock(mutex);
-            if (terminate) stop_parser();
-            cond.notify_one();
-            cond.wait(lock);
+            if (!pause())
+                return;
         }
 
-        if (terminate)
-            stop_parser();
-
 #ifdef SRCSAX_DEBUG
         fprintf(stderr, "HERE: %s %s %d '%s'\n", __FILE__, __FUNCTION__, __LINE__, (const char *)localname);
 #endif
diff --git a/src/libsrcml/srcml_sax2_reader.cpp b/src/libsrcml/srcml_sax2_reader.cpp
index 567126d..f053d7a 100644
--- a/src/libsrcml/srcml_sax2_reader.cpp
+++ b/src/libsrcml/srcml_sax2_reader.cpp
@@ -45,13 +45,16 @@ static void* start_routine(thread_args* args) {
         if (!(error.error_code == XML_ERR_EXTRA_CONTENT || error.error_code == XML_ERR_DOCUMENT_END)) {
 
             fprintf(stderr, "Error Parsing: %s\n", error.message.c_str());
-
-            args->handler->done();
         }
 
-        // might have to release a lock here or set is_done
+    } catch(...) {
+
+        fprintf(stderr, "Error Parsing\n");
     }
 
+    // however the parsing ended, the reader must not wait for it any longer
+    args->handler->done();
+
     return 0;
 }
 
-- 
2.43.0


From bc917726f49204c9105bcbeacb5d483b403747bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:45 +0000
Subject: [PATCH 52/69] fix: a macro call without an end no longer leaves the
 parser writing to the preprocessor buffers

---
 src/parser/StreamMLParser.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser/StreamMLParser.hpp b/src/parser/StreamMLParser.hpp
index d569eab..499a7ad 100644
--- a/src/parser/StreamMLParser.hpp
+++ b/src/parser/StreamMLParser.hpp
@@ -549,7 +549,11 @@ private:
             pskiptb = &skippretb;
 
             // parse macro_call
-            srcMLParser::macro_pattern_call();
+            try {
+
+                srcMLParser::macro_pattern_call();
+
+            } catch(...) {}
 
             // flush remaining whitespace from preprocessor handling onto preprocessor buffer
             pretb.insert(pretb.end(), std::make_move_iterator(skippretb.begin()), std::make_move_iterator(skippretb.end()));
-- 
2.43.0


From 3380751ab15c894d269d57538507836b4c2883a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:59 +0000
Subject: [PATCH 53/69] fix: a delete character in source code is escaped
 instead of ending the translation

---
 src/parser/TextLexer.g | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/TextLexer.g b/src/parser/TextLexer.g
index 604d049..a4f52c4 100644
--- a/src/parser/TextLexer.g
+++ b/src/parser/TextLexer.g
@@ -217,6 +217,7 @@ CONTROL_CHAR :
     (
         '\000'..'\010' |
         '\013'..'\014' |
-        '\016'..'\037'
+        '\016'..'\037' |
+        '\177'
     )
 ;
-- 
2.43.0


From c248d2d148267e3d3e80a8c486062af673008bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:20 +0000
Subject: [PATCH 54/69] fix: control characters in the delimiter of a raw
 string are escaped

---
 src/parser/CommentTextLexer.g | 2 +-
 src/parser/TextLexer.g        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/CommentTextLexer.g b/src/parser/CommentTextLexer.g
index 36ed6ba..ee0d1f5 100644
--- a/src/parser/CommentTextLexer.g
+++ b/src/parser/CommentTextLexer.g
@@ -253,5 +253,5 @@ protected
 RSTRING_DELIMITER:
     { delimiter = ""; }
     (options { greedy = true; } : { delimiter.size() < delimiter1.size() }? { delimiter += LA(1); } 
-        ~('(' | ')' | '\\' | '\n' | ' ' | '\t' ))*
+        ~('(' | ')' | '\\' | '\n' | ' ' | '\t' | '\000'..'\010' | '\013'..'\037' ))*
 ;
diff --git a/src/parser/TextLexer.g b/src/parser/TextLexer.g
index a4f52c4..08935d4 100644
--- a/src/parser/TextLexer.g
+++ b/src/parser/TextLexer.g
@@ -97,7 +97,7 @@ RAW_STRING_START :
 protected
 RSTRING_DELIMITER:
     { delimiter = ""; }
-    (options { greedy = true; } : { delimiter += LA(1); } ~('(' | ')' | '\\' | '\n' | ' ' | '\t' ))*
+    (options { greedy = true; } : { delimiter += LA(1); } ~('(' | ')' | '\\' | '\n' | ' ' | '\t' | '\000'..'\010' | '\013'..'\037' ))*
 ;
 
 CHAR_START :
-- 
2.43.0


From f3e27dd0c6c0f0577a9002af5bf908a24a2fb9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:58 +0000
Subject: [PATCH 55/69] fix: output is paused only when the element of an
 expression statement was started

In a Java enum no element is started, so the token remembered was whatever
was queued last, or none at all.
---
 src/parser/srcMLParser.g | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/parser/srcMLParser.g b/src/parser/srcMLParser.g
index f89e6dc..6a8bb06 100644
--- a/src/parser/srcMLParser.g
+++ b/src/parser/srcMLParser.g
@@ -7151,7 +7151,7 @@ generic_selection_association_default[] { SingleElement element(this); ENTRY_DEB
 
 
 // an expression statement pre processing
-expression_statement_process[] { ENTRY_DEBUG } :
+expression_statement_process[bool pause = false] { ENTRY_DEBUG } :
     {
         bool inenumclass = (inLanguage(LANGUAGE_JAVA_FAMILY) && inTransparentMode(MODE_ENUM) && inMode(MODE_CLASS));
 
@@ -7159,19 +7159,20 @@ expression_statement_process[] { ENTRY_DEBUG } :
         startNewMode(MODE_STATEMENT | MODE_EXPRESSION | MODE_EXPECT);
 
         // start the element which will end after the terminate
-        if (!inenumclass)
+        if (!inenumclass) {
             startElement(SEXPRESSION_STATEMENT);
+
+            // only an element that was started can be replaced later
+            if (pause)
+                pauseStream();
+        }
     }
 ;
 
 // an expression statement
 expression_statement[CALL_TYPE type = NOCALL, int call_count = 1] { ENTRY_DEBUG } :
 
-        expression_statement_process
-
-        { 
-            pauseStream();
-        }
+        expression_statement_process[true]
 
         expression[type, call_count]
 ;
-- 
2.43.0


From d588bef923e01b626b537653c33d95d8b7bfe9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:38 +0000
Subject: [PATCH 56/69] fix: only the start of an element together with its own
 end is left out of the output

When the output was paused, the token queued last was compared by type only:
it could be the start itself, or the end of another element, and the start and
end tags no longer matched.
---
 src/parser/StreamMLParser.hpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/parser/StreamMLParser.hpp b/src/parser/StreamMLParser.hpp
index 499a7ad..d5ecfca 100644
--- a/src/parser/StreamMLParser.hpp
+++ b/src/parser/StreamMLParser.hpp
@@ -863,7 +863,25 @@ private:
         if (!paused)
             return;
 
-        if (pausetoken->getType() != output().back()->getType())
+        // the last token has to be the end of the element that started when paused
+        auto& tokens = output();
+        auto pos = tokens.size();
+        while (pos > 0 && &(*tokens[pos - 1]) != &(*pausetoken))
+            --pos;
+        if (pos == 0)
+            return;
+
+        int depth = 1;
+        while (pos < tokens.size() && depth > 0) {
+            if (tokens[pos]->getType() == pausetoken->getType()) {
+                if (isstart(tokens[pos]))
+                    ++depth;
+                else if (!isempty(tokens[pos]))
+                    --depth;
+            }
+            ++pos;
+        }
+        if (depth > 0 || pos < tokens.size())
             return;
 
         pausetoken->setType(SNOP);
-- 
2.43.0


From 85d26df580e0d67a141f03b522628c4804eb3fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:29 +0000
Subject: [PATCH 57/69] fix: an ampersand in an attribute is read back as an
 ampersand

---
 src/libsrcml/srcml_reader_handler.hpp |  6 +++---
 src/libsrcml/unit_utilities.cpp       | 15 ++++++++++++++-
 src/libsrcml/unit_utilities.hpp       |  3 +++
 3 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/libsrcml/srcml_reader_handler.hpp b/src/libsrcml/srcml_reader_handler.hpp
index 3373fcf..7ccc302 100644
--- a/src/libsrcml/srcml_reader_handler.hpp
+++ b/src/libsrcml/srcml_reader_handler.hpp
@@ -277,7 +277,7 @@ public :
         // collect attributes
         for (int pos = 0; pos < num_attributes; ++pos) {
             std::string attribute = (const char*) attributes[pos * 5];
-            std::string value((const char *)attributes[pos * 5 + 3], attributes[pos * 5 + 4] - attributes[pos * 5 + 3]);
+            std::string value = attribute_value(attributes[pos * 5 + 3], attributes[pos * 5 + 4]);
 
             // Note: these are ignore instead of placing in attributes.
             if (attribute == "timestamp")
@@ -503,9 +503,9 @@ public :
             for (int pos = 0; pos < num_attributes; ++pos) {
 
                 if (strcmp((const char*) attributes[ATTR_LOCALNAME(pos)], "token") == 0)
-                    token.append((const char*) attributes[ATTR_VALUE_START(pos)], attributes[ATTR_VALUE_END(pos)] - attributes[ATTR_VALUE_START(pos)]);
+                    token = attribute_value(attributes[ATTR_VALUE_START(pos)], attributes[ATTR_VALUE_END(pos)]);
                 else if (strcmp((const char*) attributes[ATTR_LOCALNAME(pos)], "type") == 0)
-                    type.append((const char*) attributes[ATTR_VALUE_START(pos)], attributes[ATTR_VALUE_END(pos)] - attributes[ATTR_VALUE_START(pos)]);
+                    type = attribute_value(attributes[ATTR_VALUE_START(pos)], attributes[ATTR_VALUE_END(pos)]);
             }
 
             if (token != "" && type != "") {
diff --git a/src/libsrcml/unit_utilities.cpp b/src/libsrcml/unit_utilities.cpp
index 596429c..aae7200 100644
--- a/src/libsrcml/unit_utilities.cpp
+++ b/src/libsrcml/unit_utilities.cpp
@@ -24,6 +24,19 @@
 #include <libxml/parserInternals.h>
 #include <stack>
 
+// Value of an xml parsed attribute
+std::string attribute_value(const xmlChar* begin, const xmlChar* end) {
+
+    std::string value((const char*) begin, end - begin);
+
+    // the parser leaves an ampersand as a character reference
+    const std::string reference = "&#38;";
+    for (auto pos = value.find(reference); pos != std::string::npos; pos = value.find(reference, pos + 1))
+        value.replace(pos, reference.size(), "&");
+
+    return value;
+}
+
 // Update unit attributes with xml parsed attributes
 void unit_update_attributes(srcml_unit* unit, int num_attributes, const xmlChar** attributes) {
 
@@ -31,7 +44,7 @@ void unit_update_attributes(srcml_unit* unit, int num_attributes, const xmlChar*
     for (int pos = 0; pos < num_attributes; ++pos) {
 
         std::string attribute = (const char*) attributes[pos * 5];
-        std::string value((const char *)attributes[pos * 5 + 3], attributes[pos * 5 + 4] - attributes[pos * 5 + 3]);
+        std::string value = attribute_value(attributes[pos * 5 + 3], attributes[pos * 5 + 4]);
 
         if (attribute == "timestamp")
             srcml_unit_set_timestamp(unit, value.c_str());
diff --git a/src/libsrcml/unit_utilities.hpp b/src/libsrcml/unit_utilities.hpp
index 9d4c710..01e32c6 100644
--- a/src/libsrcml/unit_utilities.hpp
+++ b/src/libsrcml/unit_utilities.hpp
@@ -27,6 +27,9 @@
 #include <srcml.h>
 #include <libxml/parser.h>
 
+// Value of an xml parsed attribute
+std::string attribute_value(const xmlChar* begin, const xmlChar* end);
+
 // Update unit attributes with xml parsed attributes
 void unit_update_attributes(srcml_unit* unit, int num_attributes, const xmlChar** attributes);
 
-- 
2.43.0


From 3602fe602287b571b7ad10207ccbdde0b88f2b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:34 +0000
Subject: [PATCH 58/69] fix: the default namespace of a unit may be that of cpp

---
 src/libsrcml/sax2_srcsax_handler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libsrcml/sax2_srcsax_handler.cpp b/src/libsrcml/sax2_srcsax_handler.cpp
index 8debf9d..1835886 100644
--- a/src/libsrcml/sax2_srcsax_handler.cpp
+++ b/src/libsrcml/sax2_srcsax_handler.cpp
@@ -436,7 +436,7 @@ void start_unit(void* ctx, const xmlChar* localname, const xmlChar* prefix, cons
     for (int i = 0; i < nb_namespaces; ++i) {
 
         if (std::string((const char*) namespaces[i * 2 + 1]) == SRCML_CPP_NS_URI) {
-            state->cpp_prefix = namespaces[i * 2] ? "" : (const char*) namespaces[i * 2];
+            state->cpp_prefix = namespaces[i * 2] ? (const char*) namespaces[i * 2] : "";
         }
     }
 
-- 
2.43.0


From f060d24f6f69f884de8809ecc849fbbf4544f23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:08 +0000
Subject: [PATCH 59/69] fix: the prefix a unit declares for cpp is kept when
 the unit is written

---
 src/libsrcml/sax2_srcsax_handler.cpp  | 1 +
 src/libsrcml/srcml_reader_handler.hpp | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libsrcml/sax2_srcsax_handler.cpp b/src/libsrcml/sax2_srcsax_handler.cpp
index 1835886..0ef5ced 100644
--- a/src/libsrcml/sax2_srcsax_handler.cpp
+++ b/src/libsrcml/sax2_srcsax_handler.cpp
@@ -433,6 +433,7 @@ void start_unit(void* ctx, const xmlChar* localname, const xmlChar* prefix, cons
         return;
 
     // collect cpp prefix
+    state->cpp_prefix = boost::none;
     for (int i = 0; i < nb_namespaces; ++i) {
 
         if (std::string((const char*) namespaces[i * 2 + 1]) == SRCML_CPP_NS_URI) {
diff --git a/src/libsrcml/srcml_reader_handler.hpp b/src/libsrcml/srcml_reader_handler.hpp
index 7ccc302..e16c539 100644
--- a/src/libsrcml/srcml_reader_handler.hpp
+++ b/src/libsrcml/srcml_reader_handler.hpp
@@ -462,7 +462,7 @@ public :
                 auto&& view = unit->namespaces->get<nstags::uri>();
                 auto it = view.find(SRCML_CPP_NS_URI);
                 if (it != view.end()) {
-                    view.modify(it, [](Namespace& thisns){ thisns.flags |= NS_USED; });
+                    view.modify(it, [state](Namespace& thisns){ thisns.prefix = *state->cpp_prefix; thisns.flags |= NS_USED; });
                 } else {
                     unit->namespaces->push_back({ state->cpp_prefix->c_str(), SRCML_CPP_NS_URI, NS_USED | NS_STANDARD });
                 }
-- 
2.43.0


From 342fecc4c66646ad52ddddf2f4d06150940384b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:57 +0000
Subject: [PATCH 60/69] fix: a start tag directly before a comment keeps its
 end when read

---
 src/libsrcml/sax2_srcsax_handler.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libsrcml/sax2_srcsax_handler.cpp b/src/libsrcml/sax2_srcsax_handler.cpp
index 0ef5ced..a1b7257 100644
--- a/src/libsrcml/sax2_srcsax_handler.cpp
+++ b/src/libsrcml/sax2_srcsax_handler.cpp
@@ -830,6 +830,10 @@ void comment(void* ctx, const xmlChar* value) {
 
     if (state->collect_unit_body) {
 
+        // end previous start element
+        if (state->base[0] == '>')
+            state->unitsrcml.append(1, '>');
+
         // take the value but note it could be part of inter-unit
         state->unitsrcml.append("<!--");
         state->unitsrcml.append((const char*) value);
-- 
2.43.0


From 9791f89b298fcdc7477ef6fc9e867f5be1313b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:03 +0000
Subject: [PATCH 61/69] fix: a nested unit without attributes keeps its start
 tag when read

---
 src/libsrcml/sax2_srcsax_handler.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/libsrcml/sax2_srcsax_handler.cpp b/src/libsrcml/sax2_srcsax_handler.cpp
index a1b7257..5f367dd 100644
--- a/src/libsrcml/sax2_srcsax_handler.cpp
+++ b/src/libsrcml/sax2_srcsax_handler.cpp
@@ -452,12 +452,19 @@ void start_unit(void* ctx, const xmlChar* localname, const xmlChar* prefix, cons
     if (true || state->collect_unit_body) {
 
         // find end of unit tag name, e.g., end of "<unit" or "<src:unit"
-        int pos = (int) (1 + strlen((const char*) localname) + (prefix ? strlen((const char*) prefix) + 1 : 0) + 1);
+        int pos = (int) (1 + strlen((const char*) localname) + (prefix ? strlen((const char*) prefix) + 1 : 0));
+
+        // the namespaces are put after the space that separates the attributes, if there is any
+        const bool isspace = state->base[pos] != '>' && state->base[pos] != '/';
+        if (isspace)
+            ++pos;
 
         if (pos >= 0) {
             // merge the namespaces from the root into this one
             state->unitsrcml.reserve(ctxt->input->cur - state->base + 1 + (state->context->is_archive ? state->rootnsstr.size() : 0));
             state->unitsrcml.assign((const char*) state->base, pos);
+            if (!isspace && state->context->is_archive && !state->rootnsstr.empty())
+                state->unitsrcml.append(1, ' ');
             state->insert_begin = (int) state->unitsrcml.size();
             if (state->context->is_archive) {
                 state->unitsrcml.append(state->rootnsstr);
-- 
2.43.0


From 41846ff7fff67036402ce45d6a8dac1c350e8087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:08 +0000
Subject: [PATCH 62/69] fix: an escape element without attributes is not read
 past its attributes

---
 src/libsrcml/sax2_srcsax_handler.cpp | 4 ++--
 src/libsrcml/unit_utilities.cpp      | 9 ++++++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/libsrcml/sax2_srcsax_handler.cpp b/src/libsrcml/sax2_srcsax_handler.cpp
index 5f367dd..added3a 100644
--- a/src/libsrcml/sax2_srcsax_handler.cpp
+++ b/src/libsrcml/sax2_srcsax_handler.cpp
@@ -607,7 +607,7 @@ void end_root(void* ctx, const xmlChar* localname, const xmlChar* prefix, const
  */
 void start_element(void* ctx, const xmlChar* localname, const xmlChar* /* prefix */, const xmlChar* /* URI */,
                     int /* nb_namespaces */, const xmlChar** /* namespaces */,
-                    int /* nb_attributes */, int /* nb_defaulted */, const xmlChar** attributes) {
+                    int nb_attributes, int /* nb_defaulted */, const xmlChar** attributes) {
 
     auto ctxt = (xmlParserCtxtPtr) ctx;
     if (ctxt == nullptr)
@@ -641,7 +641,7 @@ void start_element(void* ctx, const xmlChar* localname, const xmlChar* /* prefix
 
         // Special element <escape char="0x0c"/> used to embed non-XML characters
         // extract the value of the char attribute and add to the src (text)
-        if (localname == state->ESCAPE_ENTRY) {
+        if (localname == state->ESCAPE_ENTRY && nb_attributes > 0) {
 
             std::string svalue((const char *)attributes[0 * 5 + 3], attributes[0 * 5 + 4] - attributes[0 * 5 + 3]);
 
diff --git a/src/libsrcml/unit_utilities.cpp b/src/libsrcml/unit_utilities.cpp
index aae7200..3068fae 100644
--- a/src/libsrcml/unit_utilities.cpp
+++ b/src/libsrcml/unit_utilities.cpp
@@ -165,7 +165,7 @@ boost::optional<std::string> extract_src(const std::string& srcml, boost::option
 
     charactersax.startElementNs = [](void* ctx, const xmlChar* localname, const xmlChar* /* prefix */, const xmlChar* URI,
                      int /* nb_namespaces */, const xmlChar** /* namespaces */,
-                     int /* nb_attributes */, int /* nb_defaulted */, const xmlChar** attributes) {
+                     int nb_attributes, int /* nb_defaulted */, const xmlChar** attributes) {
 
         auto ctxt = (xmlParserCtxtPtr) ctx;
         if (ctxt == nullptr)
@@ -174,14 +174,17 @@ boost::optional<std::string> extract_src(const std::string& srcml, boost::option
         if (scontext == nullptr)
             return;
 
-        if (strcmp((const char*) localname, "escape") == 0 && strcmp((const char*) URI, SRCML_SRC_NS_URI) == 0) {
+        if (strcmp((const char*) localname, "escape") == 0 && URI && strcmp((const char*) URI, SRCML_SRC_NS_URI) == 0) {
+            if (nb_attributes == 0)
+                return;
+
             std::string svalue((const char *)attributes[0 * 5 + 3], attributes[0 * 5 + 4] - attributes[0 * 5 + 3]);
 
             char value = (int)strtol(svalue.c_str(), NULL, 0);
 
             scontext->s.append(1, value);
 
-        } else if (scontext->revision && strcmp((const char*) URI, SRCML_DIFF_NS_URI) == 0) {
+        } else if (scontext->revision && URI && strcmp((const char*) URI, SRCML_DIFF_NS_URI) == 0) {
 
             if (std::string((const char*) localname) == "INSERT")
                 scontext->mode.push(INSERT);
-- 
2.43.0


From 4c4d33f4af17dae24a3f431857514937ea596f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:16 +0000
Subject: [PATCH 63/69] fix: srcML with declared entities is an error instead
 of reading from the wrong buffer

---
 src/libsrcml/sax2_srcsax_handler.cpp | 18 ++++++++++++++++++
 src/libsrcml/sax2_srcsax_handler.hpp | 14 ++++++++++++++
 2 files changed, 32 insertions(+)

diff --git a/src/libsrcml/sax2_srcsax_handler.cpp b/src/libsrcml/sax2_srcsax_handler.cpp
index added3a..e9c21c3 100644
--- a/src/libsrcml/sax2_srcsax_handler.cpp
+++ b/src/libsrcml/sax2_srcsax_handler.cpp
@@ -72,6 +72,8 @@ xmlSAXHandler srcsax_sax2_factory() {
     sax.cdataBlock = &cdata_block;
     sax.processingInstruction = &processing_instruction;
 
+    sax.entityDecl = &entity_declaration;
+
     return sax;
 }
 
@@ -889,6 +891,22 @@ void cdata_block(void* ctx, const xmlChar* value, int len) {
     SRCSAX_DEBUG_END("");
 }
 
+/**
+ * entity_declaration
+ * @param ctx an xmlParserCtxtPtr
+ *
+ * SAX handler function for the declaration of an entity. The text of an entity is parsed from
+ * another buffer than the srcML is collected from, so it ends the parsing.
+ */
+void entity_declaration(void* ctx, const xmlChar* /* name */, int /* type */, const xmlChar* /* publicId */, const xmlChar* /* systemId */, xmlChar* /* content */) {
+
+    auto ctxt = (xmlParserCtxtPtr) ctx;
+    if (ctxt == nullptr)
+        return;
+
+    xmlStopParser(ctxt);
+}
+
 /**
  * processing_instruction
  * @param ctx an xmlParserCtxtPtr
diff --git a/src/libsrcml/sax2_srcsax_handler.hpp b/src/libsrcml/sax2_srcsax_handler.hpp
index 74b12a7..c1b3a96 100644
--- a/src/libsrcml/sax2_srcsax_handler.hpp
+++ b/src/libsrcml/sax2_srcsax_handler.hpp
@@ -283,6 +283,20 @@ void comment(void* ctx, const xmlChar* value);
  */
 void cdata_block(void* ctx, const xmlChar* value, int len);
 
+/**
+ * entity_declaration
+ * @param ctx an xmlParserCtxtPtr
+ * @param name the entity name
+ * @param type the entity type
+ * @param publicId the public identifier
+ * @param systemId the system identifier
+ * @param content the value of the entity
+ *
+ * SAX handler function for the declaration of an entity. The text of an entity is parsed from
+ * another buffer than the srcML is collected from, so it ends the parsing.
+ */
+void entity_declaration(void* ctx, const xmlChar* name, int type, const xmlChar* publicId, const xmlChar* systemId, xmlChar* content);
+
 /**
  * processing_instruction
  * @param ctx an xmlParserCtxtPtr
-- 
2.43.0


From f6e3d712038765e614a1537b6246b59f2e929a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:13 +0000
Subject: [PATCH 64/69] fix: the lines of a CDATA section are counted

---
 src/libsrcml/sax2_srcsax_handler.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libsrcml/sax2_srcsax_handler.cpp b/src/libsrcml/sax2_srcsax_handler.cpp
index e9c21c3..80724e0 100644
--- a/src/libsrcml/sax2_srcsax_handler.cpp
+++ b/src/libsrcml/sax2_srcsax_handler.cpp
@@ -885,6 +885,8 @@ void cdata_block(void* ctx, const xmlChar* value, int len) {
         // CDATA is character data
         state->unitsrc.append((const char*) value, len);
 
+        state->loc += (int) std::count((const char*) value, (const char*) value + len, '\n');
+
         state->base = ctxt->input->cur;
     }
 
-- 
2.43.0


From 99424511e9837d5e9b73c813c7d7ff09586f617a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:50 +0000
Subject: [PATCH 65/69] fix: the URI of a root namespace is escaped in the
 units of an archive

---
 src/libsrcml/sax2_srcsax_handler.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/libsrcml/sax2_srcsax_handler.cpp b/src/libsrcml/sax2_srcsax_handler.cpp
index 80724e0..4cabb0b 100644
--- a/src/libsrcml/sax2_srcsax_handler.cpp
+++ b/src/libsrcml/sax2_srcsax_handler.cpp
@@ -99,6 +99,19 @@ static void update_ctx(void* ctx) {
     state->prevbase = ctxt->input->base;
 }
 
+// append the value of an attribute as passed by the parser, where an ampersand is already escaped
+static void append_value(std::string& s, const xmlChar* value) {
+
+    for (auto p = (const char*) value; *p; ++p) {
+        if (*p == '<')
+            s += "&lt;";
+        else if (*p == '"')
+            s += "&quot;";
+        else
+            s += *p;
+    }
+}
+
 // unit and root delayed-start processing
 static int reparse_root(void* ctx) {
 
@@ -300,7 +313,7 @@ void start_root(void* ctx, const xmlChar* localname, const xmlChar* prefix, cons
                 state->rootnsstr += (const char*) namespaces[i];
             }
             state->rootnsstr += "=\"";
-            state->rootnsstr += (const char*) namespaces[i + 1];
+            append_value(state->rootnsstr, namespaces[i + 1]);
             state->rootnsstr += "\" ";
         }
     }
-- 
2.43.0


From ecd0a9bcf140aa5570687ee38db0d42b539252fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:56 +0000
Subject: [PATCH 66/69] fix: an ampersand in the URI of a root namespace is
 read back as an ampersand

---
 src/libsrcml/srcml_reader_handler.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libsrcml/srcml_reader_handler.hpp b/src/libsrcml/srcml_reader_handler.hpp
index e16c539..7d1b29a 100644
--- a/src/libsrcml/srcml_reader_handler.hpp
+++ b/src/libsrcml/srcml_reader_handler.hpp
@@ -332,7 +332,9 @@ public :
         for (int pos = 0; pos < num_namespaces; ++pos) {
 
             std::string prefix = (const char*) namespaces[pos * 2] ? (const char*) namespaces[pos * 2] : "";
-            std::string uri = (const char*) namespaces[pos * 2 + 1] ? (const char*) namespaces[pos * 2 + 1] : "";
+            std::string uri;
+            if (namespaces[pos * 2 + 1])
+                uri = attribute_value(namespaces[pos * 2 + 1], namespaces[pos * 2 + 1] + strlen((const char*) namespaces[pos * 2 + 1]));
 
             srcml_uri_normalize(uri);
 
-- 
2.43.0


From 041f94fffc121281aef6fa9a8add28b968ba164c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:35 +0000
Subject: [PATCH 67/69] fix: a unit read with a src-encoding attribute is not
 written with it twice

---
 src/parser/srcMLOutput.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/parser/srcMLOutput.cpp b/src/parser/srcMLOutput.cpp
index c9c035b..fe8f5e3 100644
--- a/src/parser/srcMLOutput.cpp
+++ b/src/parser/srcMLOutput.cpp
@@ -310,9 +310,13 @@ void srcMLOutput::startUnit(const char* language, const char* revision,
                             const std::vector<std::string> & attributes,
                             bool output_macrolist) {
 
-    // go with default encoding
+    // go with the encoding kept from the input, or the default encoding
     if (!encoding || encoding[0] == '\0') {
         encoding = "UTF-8";
+        for (std::vector<std::string>::size_type pos = 0; pos < attributes.size(); pos += 2) {
+            if (attributes[pos] == UNIT_ATTRIBUTE_SOURCE_ENCODING)
+                encoding = attributes[pos + 1].c_str();
+        }
     }
 
     didwrite = true;
@@ -395,6 +399,11 @@ void srcMLOutput::startUnit(const char* language, const char* revision,
     }
 
     for(std::vector<std::string>::size_type pos = 0; pos < attributes.size(); pos += 2) {
+
+        // the source encoding is already output
+        if (isoption(options, SRCML_OPTION_STORE_ENCODING) && attributes[pos] == UNIT_ATTRIBUTE_SOURCE_ENCODING)
+            continue;
+
         xmlTextWriterWriteAttribute(xout, BAD_CAST attributes[pos].c_str(), BAD_CAST attributes[pos + 1].c_str());
     }
 
-- 
2.43.0


From aec8b5d7eec151d80b61cbf60d1a5a8c6c20a3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:08:57 +0000
Subject: [PATCH 68/69] fix: keep end position of code before preprocessor
 directives and macro calls

---
 src/parser/StreamMLParser.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/parser/StreamMLParser.hpp b/src/parser/StreamMLParser.hpp
index d5ecfca..9f0d442 100644
--- a/src/parser/StreamMLParser.hpp
+++ b/src/parser/StreamMLParser.hpp
@@ -324,9 +324,16 @@ private:
         lastline = LT(1)->getLine();
         lastcolumn = LT(1)->getColumn() - 1;
 
+        // preprocessor directives and macro calls consumed as skipped tokens record their own end position
+        const auto endline = lastline;
+        const auto endcolumn = lastcolumn;
+
         // consume any skipped tokens
         while (consumeSkippedToken())
             ;
+
+        lastline = endline;
+        lastcolumn = endcolumn;
     }
 
     /**
-- 
2.43.0


From d22799953cefa1c3cdc257a5f71bb6e80f2e3680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:19:00 +0000
Subject: [PATCH 69/69] fix: tabs in comments and strings have the size asked
 for

---
 src/libsrcml/srcml_translator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libsrcml/srcml_translator.cpp b/src/libsrcml/srcml_translator.cpp
index a9df188..0c6c84a 100644
--- a/src/libsrcml/srcml_translator.cpp
+++ b/src/libsrcml/srcml_translator.cpp
@@ -135,6 +135,7 @@ bool srcml_translator::translate(UTF8CharBuffer* parser_input) {
         // pure block comment lexer
         CommentTextLexer textlexer(lexer.getInputState());
         textlexer.setSelector(&selector);
+        textlexer.setTabsize((int)tabsize);
 
         // switching between lexers
         selector.addInputStream(&lexer, "main");
-- 
2.43.0

