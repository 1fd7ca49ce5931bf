From 26003ade699440af6408fa03e13c7f4e5319054a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:01 +0000
Subject: [PATCH 01/21] fix: detect truncated extension chunks and support
 unseekable streams when skipping unknown bytes

fseek() succeeds when moving beyond the end of a file, so a truncated file
was accepted, and always fails on a pipe.
---
 src/libiff/io.c | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/libiff/io.c b/src/libiff/io.c
index 9d03487..fb0d607 100644
--- a/src/libiff/io.c
+++ b/src/libiff/io.c
@@ -210,17 +210,25 @@ IFF_Bool IFF_skipUnknownBytes(FILE *file, const IFF_ID chunkId, const IFF_Long c
 {
     if(bytesProcessed < chunkSize)
     {
-        long bytesToSkip = chunkSize - bytesProcessed;
+        IFF_Long bytesToSkip = chunkSize - bytesProcessed;
+        IFF_Long i;
 
-        if(fseek(file, bytesToSkip, SEEK_CUR) == 0)
+        /* Read the bytes rather than seeking over them, because streams may not be seekable and seeking may go beyond the end of the file */
+        for(i = 0; i < bytesToSkip; i++)
         {
-            IFF_error("Cannot skip: %d bytes in data chunk: '", bytesToSkip);
-            IFF_errorId(chunkId);
-            IFF_error("'\n");
-            return TRUE;
+            if(fgetc(file) == EOF)
+            {
+                IFF_error("Unexpected end of file, while skipping unknown bytes of '");
+                IFF_errorId(chunkId);
+                IFF_error("'\n");
+                return FALSE;
+            }
         }
-        else
-            return FALSE;
+
+        IFF_error("Cannot skip: %d bytes in data chunk: '", bytesToSkip);
+        IFF_errorId(chunkId);
+        IFF_error("'\n");
+        return TRUE;
     }
     else
         return TRUE;
-- 
2.43.0


From d5361801af1b9f5c3de4fc6c29a692b236e0f2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:01 +0000
Subject: [PATCH 02/21] fix: do not process fields beyond the end of chunks
 that are smaller than the field

The subtraction was done in unsigned arithmetic and wrapped around for chunk
sizes smaller than the field size.
---
 src/libiff/field.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libiff/field.c b/src/libiff/field.c
index 29ccfc8..9e48c4b 100644
--- a/src/libiff/field.c
+++ b/src/libiff/field.c
@@ -30,7 +30,7 @@ IFF_Bool IFF_deriveSuccess(const IFF_FieldStatus status)
 
 static IFF_Bool fieldDoesNotFitInChunk(const size_t fieldSize, const IFF_Long chunkSize, const IFF_Long bytesProcessed)
 {
-    return bytesProcessed > chunkSize - fieldSize;
+    return bytesProcessed > chunkSize - (IFF_Long)fieldSize;
 }
 
 static void increaseBytesProcessed(IFF_Long *bytesProcessed, const size_t fieldSize)
-- 
2.43.0


From 551a24529eeb23abcc82f2d6c859994b54a23c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:01 +0000
Subject: [PATCH 03/21] fix: print the amount of bytes instead of a pointer in
 the truncated group warning

---
 src/libiff/group.c | 2 +-
 src/libiff/list.c  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libiff/group.c b/src/libiff/group.c
index c180a21..1424e9c 100644
--- a/src/libiff/group.c
+++ b/src/libiff/group.c
@@ -89,7 +89,7 @@ static IFF_Bool readGroupSubChunks(FILE *file, IFF_Group *group, const IFF_Chunk
     }
 
     if(*bytesProcessed > group->chunkSize)
-        IFF_error("WARNING: truncated group chunk! The size specifies: %d but the total amount of its sub chunks is: %d bytes. The parser may get confused!\n", group->chunkSize, bytesProcessed);
+        IFF_error("WARNING: truncated group chunk! The size specifies: %d but the total amount of its sub chunks is: %d bytes. The parser may get confused!\n", group->chunkSize, *bytesProcessed);
 
     return TRUE;
 }
diff --git a/src/libiff/list.c b/src/libiff/list.c
index bcc75dd..74f7369 100644
--- a/src/libiff/list.c
+++ b/src/libiff/list.c
@@ -102,7 +102,7 @@ static IFF_Bool readListSubChunks(FILE *file, IFF_List *list, const IFF_ChunkReg
     }
 
     if(*bytesProcessed > list->chunkSize)
-        IFF_error("WARNING: truncated LIST chunk! The size specifies: %d but the total amount of its sub chunks is: %d bytes. The parser may get confused!\n", list->chunkSize, bytesProcessed);
+        IFF_error("WARNING: truncated LIST chunk! The size specifies: %d but the total amount of its sub chunks is: %d bytes. The parser may get confused!\n", list->chunkSize, *bytesProcessed);
 
     return TRUE;
 }
-- 
2.43.0


From 3d760625cef1a8ee727087690055f60566e2680b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:01 +0000
Subject: [PATCH 04/21] fix: free the intermediate form arrays while searching
 for forms

---
 src/libiff/group.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libiff/group.c b/src/libiff/group.c
index 1424e9c..4de8436 100644
--- a/src/libiff/group.c
+++ b/src/libiff/group.c
@@ -262,6 +262,7 @@ IFF_Form **IFF_searchFormsInGroup(IFF_Group *group, const IFF_ID *formTypes, con
         IFF_Form **result = IFF_searchFormsFromArray(group->chunk[i], formTypes, formTypesLength, &resultLength);
 
         forms = IFF_mergeFormArray(forms, formsLength, result, resultLength);
+        free(result);
     }
 
     return forms;
-- 
2.43.0


From 23ea68dfa0cbb196c70bd0b8538a0d888f70c93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:01 +0000
Subject: [PATCH 05/21] fix: report write errors that only occur when flushing
 or closing the output

---
 src/libiff/iff.c | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/libiff/iff.c b/src/libiff/iff.c
index d2c3942..c1b46a7 100644
--- a/src/libiff/iff.c
+++ b/src/libiff/iff.c
@@ -107,14 +107,31 @@ IFF_Bool IFF_writeFile(const char *filename, const IFF_Chunk *chunk, const IFF_C
     }
 
     status = IFF_writeFd(file, chunk, chunkRegistry);
-    fclose(file);
+
+    /* Buffered data may still have to be written, so closing the file can fail as well */
+    if(fclose(file) != 0)
+    {
+        IFF_error("ERROR: cannot close file: %s\n", filename);
+        status = FALSE;
+    }
+
     return status;
 }
 
 IFF_Bool IFF_write(const char *filename, const IFF_Chunk *chunk, const IFF_ChunkRegistry *chunkRegistry)
 {
     if(filename == NULL)
-        return IFF_writeFd(stdout, chunk, chunkRegistry);
+    {
+        IFF_Bool status = IFF_writeFd(stdout, chunk, chunkRegistry);
+
+        if(fflush(stdout) != 0)
+        {
+            IFF_error("ERROR: cannot flush the standard output!\n");
+            status = FALSE;
+        }
+
+        return status;
+    }
     else
         return IFF_writeFile(filename, chunk, chunkRegistry);
 }
-- 
2.43.0


From 469934f1239cd79966e4b0aef173e3a4e2ace194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:01 +0000
Subject: [PATCH 06/21] fix: free invalid input chunks in iffjoin

---
 src/iffjoin/join.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/iffjoin/join.c b/src/iffjoin/join.c
index 5b89281..47e4ca7 100644
--- a/src/iffjoin/join.c
+++ b/src/iffjoin/join.c
@@ -42,6 +42,9 @@ int IFF_join(char **inputFilenames, const unsigned int inputFilenamesLength, con
         /* Check whether the IFF file is valid */
         if(chunk == NULL || !IFF_check(chunk, NULL))
         {
+            if(chunk != NULL)
+                IFF_free(chunk, NULL);
+
             IFF_free((IFF_Chunk*)cat, NULL);
             return 1;
         }
-- 
2.43.0


From 13ab09fc1bf491ab16d568dda3bc5a23bfc230ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:01 +0000
Subject: [PATCH 07/21] fix: fall back to the global chunk types inside FORMs
 with their own chunk types

A group chunk inside such a FORM was parsed as a raw chunk and subsequently
used as if it was a group.
---
 src/libiff/chunkregistry.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/libiff/chunkregistry.c b/src/libiff/chunkregistry.c
index 7de22f7..7b6936f 100644
--- a/src/libiff/chunkregistry.c
+++ b/src/libiff/chunkregistry.c
@@ -90,12 +90,13 @@ IFF_ChunkType *IFF_findChunkType(const IFF_ChunkRegistry *chunkRegistry, const I
     {
         /* Search for the requested FORM chunk types */
         const IFF_FormChunkTypes *formChunkTypes = getFormChunkTypes(formType, chunkRegistry);
-        IFF_ChunkType *result;
+        IFF_ChunkType *result = NULL;
 
-        if(formChunkTypes == NULL)
-            result = getChunkType(chunkId, chunkRegistry->globalChunkTypesNode); /* Search for the chunk type that handles the a chunk with the given chunk id */
-        else
-            result = getChunkType(chunkId, formChunkTypes->chunkTypesNode); /* Search for the chunk type that handles the a chunk with the given chunk id */
+        if(formChunkTypes != NULL)
+            result = getChunkType(chunkId, formChunkTypes->chunkTypesNode); /* Search for the FORM-specific chunk type that handles a chunk with the given chunk id */
+
+        if(result == NULL)
+            result = getChunkType(chunkId, chunkRegistry->globalChunkTypesNode); /* Otherwise, search for the global chunk type that handles a chunk with the given chunk id */
 
         if(result == NULL)
             return chunkRegistry->defaultChunkType;
-- 
2.43.0


From 2a52b286c48226fab161d5f199f9620233a787bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:27 +0000
Subject: [PATCH 08/21] fix: handle the PROP chunks of a list in the same scope
 for all operations and compare their sizes

---
 src/libiff/list.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libiff/list.c b/src/libiff/list.c
index 74f7369..c370863 100644
--- a/src/libiff/list.c
+++ b/src/libiff/list.c
@@ -133,7 +133,7 @@ static IFF_Bool writeListPropChunks(FILE *file, const IFF_List *list, const IFF_
 
     for(i = 0; i < list->propLength; i++)
     {
-        if(!IFF_writeChunk(file, (IFF_Chunk*)list->prop[i], 0, chunkRegistry))
+        if(!IFF_writeChunk(file, (IFF_Chunk*)list->prop[i], list->contentsType, chunkRegistry))
         {
             IFF_error("Error writing PROP!\n");
             return FALSE;
@@ -256,7 +256,7 @@ static IFF_Bool compareListPropChunks(const IFF_List *list1, const IFF_List *lis
 
         for(i = 0; i < list1->propLength; i++)
         {
-            if(!IFF_compareProp((IFF_Chunk*)list1->prop[i], (IFF_Chunk*)list2->prop[i], chunkRegistry))
+            if(!IFF_compareChunk((IFF_Chunk*)list1->prop[i], (IFF_Chunk*)list2->prop[i], list1->contentsType, chunkRegistry))
                return FALSE;
         }
 
-- 
2.43.0


From 17c81a7c844b0d3b68e3d717be489d18fd539c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:27 +0000
Subject: [PATCH 09/21] fix: byte swap signed longs without shifting into the
 sign bit

---
 src/libiff/io.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/libiff/io.c b/src/libiff/io.c
index fb0d607..aa999f9 100644
--- a/src/libiff/io.c
+++ b/src/libiff/io.c
@@ -169,9 +169,9 @@ IFF_Bool IFF_writeULong(FILE *file, const IFF_ULong value, const IFF_ID chunkId,
 
 IFF_Bool IFF_readLong(FILE *file, IFF_Long *value, const IFF_ID chunkId, const char *attributeName)
 {
-    IFF_Long readValue;
+    IFF_ULong readValue;
 
-    if(fread(&readValue, sizeof(IFF_Long), 1, file) == 1)
+    if(fread(&readValue, sizeof(IFF_ULong), 1, file) == 1)
     {
 #if IFF_BIG_ENDIAN == 1
         *value = readValue;
@@ -193,8 +193,9 @@ IFF_Bool IFF_writeLong(FILE *file, const IFF_Long value, const IFF_ID chunkId, c
 #if IFF_BIG_ENDIAN == 1
     IFF_Long writeValue = value;
 #else
-    /* Byte swap it */
-    IFF_Long writeValue = (value & 0xff) << 24 | (value & 0xff00) << 8 | (value & 0xff0000) >> 8 | (value & 0xff000000) >> 24;
+    /* Byte swap it, using unsigned arithmetic because shifting into the sign bit is undefined */
+    IFF_ULong unsignedValue = value;
+    IFF_ULong writeValue = (unsignedValue & 0xff) << 24 | (unsignedValue & 0xff00) << 8 | (unsignedValue & 0xff0000) >> 8 | (unsignedValue & 0xff000000) >> 24;
 #endif
 
     if(fwrite(&writeValue, sizeof(IFF_Long), 1, file) == 1)
-- 
2.43.0


From faea962bfedf303d2631c59cc57d270d3fb2e642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:27 +0000
Subject: [PATCH 10/21] fix: do not pass a NULL array to bsearch() if there are
 no FORM-specific chunk types

---
 src/libiff/chunkregistry.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libiff/chunkregistry.c b/src/libiff/chunkregistry.c
index 7b6936f..32740e1 100644
--- a/src/libiff/chunkregistry.c
+++ b/src/libiff/chunkregistry.c
@@ -39,7 +39,7 @@ static int compareFormChunkTypes(const void *a, const void *b)
 
 const static IFF_FormChunkTypes *getFormChunkTypes(const IFF_ID formType, const IFF_ChunkRegistry *chunkRegistry)
 {
-    if(chunkRegistry == NULL)
+    if(chunkRegistry == NULL || chunkRegistry->formChunkTypesLength == 0)
         return NULL;
     else
     {
-- 
2.43.0


From b0bddffbc8dffd25ebf55c3d39a517b3fab3cd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:27 +0000
Subject: [PATCH 11/21] fix: reject negative chunk sizes

---
 src/libiff/chunk.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/libiff/chunk.c b/src/libiff/chunk.c
index 18d6a48..296b7e3 100644
--- a/src/libiff/chunk.c
+++ b/src/libiff/chunk.c
@@ -74,6 +74,14 @@ IFF_Chunk *IFF_readChunk(FILE *file, const IFF_ID formType, const IFF_ChunkRegis
         || !IFF_readLong(file, &chunkSize, chunkId, "chunkSize"))
         return NULL;
 
+    if(chunkSize < 0)
+    {
+        IFF_error("Negative chunk size: %d of '", chunkSize);
+        IFF_errorId(chunkId);
+        IFF_error("'\n");
+        return NULL;
+    }
+
     return readChunkBody(file, chunkId, chunkSize, formType, chunkRegistry);
 }
 
@@ -98,6 +106,13 @@ IFF_Bool IFF_checkChunk(const IFF_Chunk *chunk, const IFF_ID formType, const IFF
 {
     if(!IFF_checkId(chunk->chunkId))
         return FALSE;
+    else if(chunk->chunkSize < 0)
+    {
+        IFF_error("Negative chunk size: %d of '", chunk->chunkSize);
+        IFF_errorId(chunk->chunkId);
+        IFF_error("'\n");
+        return FALSE;
+    }
     else
     {
         IFF_ChunkType *chunkType = IFF_findChunkType(chunkRegistry, formType, chunk->chunkId);
-- 
2.43.0


From 0ebef6afe54fe2a1bdaf3aa0bfb03a35f347940e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:27 +0000
Subject: [PATCH 12/21] fix: accept filler chunks while checking

---
 src/libiff/chunk.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libiff/chunk.c b/src/libiff/chunk.c
index 296b7e3..9ea32c3 100644
--- a/src/libiff/chunk.c
+++ b/src/libiff/chunk.c
@@ -104,7 +104,8 @@ IFF_Bool IFF_writeChunk(FILE *file, const IFF_Chunk *chunk, const IFF_ID formTyp
 
 IFF_Bool IFF_checkChunk(const IFF_Chunk *chunk, const IFF_ID formType, const IFF_ChunkRegistry *chunkRegistry)
 {
-    if(!IFF_checkId(chunk->chunkId))
+    /* An ID consisting of spaces only is not a regular ID, but it is reserved for filler chunks */
+    if(chunk->chunkId != ID_EMPTY && !IFF_checkId(chunk->chunkId))
         return FALSE;
     else if(chunk->chunkSize < 0)
     {
-- 
2.43.0


From 341bdf95fdd5d015c678997af767653ffbe17ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:27 +0000
Subject: [PATCH 13/21] fix: reject all punctuation marks in form types, not
 only dots

---
 src/libiff/form.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libiff/form.c b/src/libiff/form.c
index 788d609..fc7630c 100644
--- a/src/libiff/form.c
+++ b/src/libiff/form.c
@@ -104,7 +104,9 @@ IFF_Bool IFF_checkFormType(const IFF_ID formType)
     /* A form type is not allowed to have lowercase or puntuaction marks */
     for(i = 0; i < IFF_ID_SIZE; i++)
     {
-        if((formType2[i] >= 0x61 && formType2[i] <= 0x7a) || formType2[i] == '.')
+        if((formType2[i] > 0x20 && formType2[i] < '0')
+            || (formType2[i] > '9' && formType2[i] < 'A')
+            || formType2[i] > 'Z')
         {
             IFF_error("No lowercase characters or punctuation marks allowed in a form type ID!\n");
             return FALSE;
-- 
2.43.0


From 9d73744e55d144f227bc363768121c18b91ea92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:53 +0000
Subject: [PATCH 14/21] fix: reject lists having multiple PROPs for the same
 form type

---
 src/libiff/list.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/libiff/list.c b/src/libiff/list.c
index c370863..52d0503 100644
--- a/src/libiff/list.c
+++ b/src/libiff/list.c
@@ -172,6 +172,15 @@ static IFF_Long checkListPropChunks(const IFF_List *list, const IFF_ChunkRegistr
     {
         IFF_Chunk *propChunk = (IFF_Chunk*)list->prop[i];
 
+        /* A list may have at most one PROP of a form type */
+        if(IFF_getPropFromList(list, list->prop[i]->formType) != list->prop[i])
+        {
+            IFF_error("ERROR: A LIST may have at most one PROP for form type: '");
+            IFF_errorId(list->prop[i]->formType);
+            IFF_error("'\n");
+            return -1;
+        }
+
         if(!IFF_checkChunk(propChunk, list->contentsType, chunkRegistry))
             return -1;
 
-- 
2.43.0


From 128417a530ef60057e95ccf8599a2f3bcb404e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:53 +0000
Subject: [PATCH 15/21] fix: let iffpp fail if its output cannot be written

---
 src/iffpp/pp.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/iffpp/pp.c b/src/iffpp/pp.c
index 643d28a..99b0824 100644
--- a/src/iffpp/pp.c
+++ b/src/iffpp/pp.c
@@ -42,7 +42,14 @@ int IFF_prettyPrint(const char *filename, const int options)
             /* Print the file */
             IFF_print(chunk, 0, NULL);
 
-            status = 0;
+            /* Check whether everything has actually been printed */
+            if(fflush(stdout) != 0 || ferror(stdout))
+            {
+                fprintf(stderr, "Cannot write to the standard output!\n");
+                status = 1;
+            }
+            else
+                status = 0;
         }
         else
             status = 1;
-- 
2.43.0


From 9ad65c80546bcc07902cd05c22f77944cdab10a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:53 +0000
Subject: [PATCH 16/21] fix: write zero filler bytes without allocating a
 buffer that may be NULL

---
 src/libiff/io.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/libiff/io.c b/src/libiff/io.c
index aa999f9..5aca1e1 100644
--- a/src/libiff/io.c
+++ b/src/libiff/io.c
@@ -239,22 +239,22 @@ IFF_Bool IFF_writeZeroFillerBytes(FILE *file, const IFF_ID chunkId, const IFF_Lo
 {
     if(bytesProcessed < chunkSize)
     {
-        size_t bytesToSkip = chunkSize - bytesProcessed;
-        IFF_UByte *emptyData = (IFF_UByte*)calloc(bytesToSkip, sizeof(IFF_UByte));
-        IFF_Bool status = fwrite(emptyData, sizeof(IFF_UByte), bytesToSkip, file) == bytesToSkip;
+        IFF_Long bytesToSkip = chunkSize - bytesProcessed;
+        IFF_Long i;
 
-        if(!status)
+        for(i = 0; i < bytesToSkip; i++)
         {
-            IFF_error("Cannot write: %u zero bytes in data chunk: '", bytesToSkip);
-            IFF_errorId(chunkId);
-            IFF_error("'\n");
+            if(fputc('\0', file) == EOF)
+            {
+                IFF_error("Cannot write: %d zero bytes in data chunk: '", bytesToSkip);
+                IFF_errorId(chunkId);
+                IFF_error("'\n");
+                return FALSE;
+            }
         }
-
-        free(emptyData);
-        return status;
     }
-    else
-        return TRUE;
+
+    return TRUE;
 }
 
 IFF_Bool IFF_readPaddingByte(FILE *file, const IFF_Long chunkSize, const IFF_ID chunkId)
-- 
2.43.0


From 619e25c1ccb4b5c2080ff5d0bfe19f49ba21b690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:44 +0000
Subject: [PATCH 17/21] fix: report allocation failures while setting text data

---
 src/libiff/rawchunk.c | 9 ++++++++-
 src/libiff/rawchunk.h | 3 ++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/libiff/rawchunk.c b/src/libiff/rawchunk.c
index b3d281a..b4e6842 100644
--- a/src/libiff/rawchunk.c
+++ b/src/libiff/rawchunk.c
@@ -56,13 +56,20 @@ void IFF_setRawChunkData(IFF_RawChunk *rawChunk, IFF_UByte *chunkData, IFF_Long
     rawChunk->chunkSize = chunkSize;
 }
 
-void IFF_setTextData(IFF_RawChunk *rawChunk, const char *text)
+IFF_Bool IFF_setTextData(IFF_RawChunk *rawChunk, const char *text)
 {
     size_t textLength = strlen(text);
     IFF_UByte *chunkData = (IFF_UByte*)malloc(textLength * sizeof(IFF_UByte));
 
+    if(chunkData == NULL)
+    {
+        IFF_error("Cannot allocate memory for text data!\n");
+        return FALSE;
+    }
+
     memcpy(chunkData, text, textLength);
     IFF_setRawChunkData(rawChunk, chunkData, textLength);
+    return TRUE;
 }
 
 IFF_Bool IFF_readRawChunk(FILE *file, IFF_Chunk *chunk, const IFF_ChunkRegistry *chunkRegistry, IFF_Long *bytesProcessed)
diff --git a/src/libiff/rawchunk.h b/src/libiff/rawchunk.h
index 9e9b8ab..10824ed 100644
--- a/src/libiff/rawchunk.h
+++ b/src/libiff/rawchunk.h
@@ -84,8 +84,9 @@ void IFF_setRawChunkData(IFF_RawChunk *rawChunk, IFF_UByte *chunkData, IFF_Long
  *
  * @param rawChunk A raw chunk
  * @param text Text to store in the body
+ * @return TRUE if the text has been set, or FALSE if the memory for the body can't be allocated
  */
-void IFF_setTextData(IFF_RawChunk *rawChunk, const char *text);
+IFF_Bool IFF_setTextData(IFF_RawChunk *rawChunk, const char *text);
 
 /**
  * Reads a raw chunk with the given chunk id and chunk size from a file.
-- 
2.43.0


From fd5cd874c507182a1fe086a83b7f0ef8d8cd72c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:44 +0000
Subject: [PATCH 18/21] fix: report allocation failures while adding chunks to
 groups instead of dereferencing NULL

---
 src/libiff/cat.c   | 17 +++++++++++++----
 src/libiff/cat.h   |  6 ++++--
 src/libiff/form.c  |  4 ++--
 src/libiff/form.h  |  3 ++-
 src/libiff/group.c | 27 ++++++++++++++++++++++-----
 src/libiff/group.h |  6 ++++--
 src/libiff/list.c  | 40 ++++++++++++++++++++++++++++++----------
 src/libiff/list.h  |  9 ++++++---
 src/libiff/prop.c  |  4 ++--
 src/libiff/prop.h  |  3 ++-
 10 files changed, 87 insertions(+), 32 deletions(-)

diff --git a/src/libiff/cat.c b/src/libiff/cat.c
index bb8db66..d8c567c 100644
--- a/src/libiff/cat.c
+++ b/src/libiff/cat.c
@@ -65,15 +65,24 @@ static void updateContentsType(IFF_CAT *cat, IFF_Chunk *chunk)
     }
 }
 
-void IFF_addToCAT(IFF_CAT *cat, IFF_Chunk *chunk)
+IFF_Bool IFF_addToCAT(IFF_CAT *cat, IFF_Chunk *chunk)
 {
-    IFF_addToGroup((IFF_Group*)cat, chunk);
+    return IFF_addToGroup((IFF_Group*)cat, chunk);
 }
 
-void IFF_addToCATAndUpdateContentsType(IFF_CAT *cat, IFF_Chunk *chunk)
+IFF_Bool IFF_addToCATAndUpdateContentsType(IFF_CAT *cat, IFF_Chunk *chunk)
 {
+    const IFF_ID contentsType = cat->contentsType;
+
     updateContentsType(cat, chunk);
-    IFF_addToCAT(cat, chunk);
+
+    if(!IFF_addToCAT(cat, chunk))
+    {
+        cat->contentsType = contentsType;
+        return FALSE;
+    }
+
+    return TRUE;
 }
 
 IFF_Bool IFF_readCAT(FILE *file, IFF_Chunk *chunk, const IFF_ChunkRegistry *chunkRegistry, IFF_Long *bytesProcessed)
diff --git a/src/libiff/cat.h b/src/libiff/cat.h
index 9113b3e..bc80a4d 100644
--- a/src/libiff/cat.h
+++ b/src/libiff/cat.h
@@ -110,8 +110,9 @@ IFF_Chunk *IFF_createUnparsedCAT(const IFF_ID chunkId, const IFF_Long chunkSize)
  *
  * @param cat An instance of a CAT struct
  * @param chunk A FORM, CAT or LIST chunk
+ * @return TRUE if the chunk has been added, or FALSE if the memory for the reference can't be allocated
  */
-void IFF_addToCAT(IFF_CAT *cat, IFF_Chunk *chunk);
+IFF_Bool IFF_addToCAT(IFF_CAT *cat, IFF_Chunk *chunk);
 
 /**
  * Adds a chunk to the body of the given CAT and updates the contents type.
@@ -121,8 +122,9 @@ void IFF_addToCAT(IFF_CAT *cat, IFF_Chunk *chunk);
  *
  * @param cat An instance of a CAT struct
  * @param chunk A FORM, CAT or LIST chunk
+ * @return TRUE if the chunk has been added, or FALSE if the memory for the reference can't be allocated
  */
-void IFF_addToCATAndUpdateContentsType(IFF_CAT *cat, IFF_Chunk *chunk);
+IFF_Bool IFF_addToCATAndUpdateContentsType(IFF_CAT *cat, IFF_Chunk *chunk);
 
 /**
  * Reads a concatenation chunk and its sub chunks from a file.
diff --git a/src/libiff/form.c b/src/libiff/form.c
index fc7630c..de81384 100644
--- a/src/libiff/form.c
+++ b/src/libiff/form.c
@@ -75,9 +75,9 @@ IFF_Chunk *IFF_createUnparsedForm(const IFF_ID chunkId, const IFF_Long chunkSize
     return IFF_createUnparsedGroup(chunkId, chunkSize);
 }
 
-void IFF_addToForm(IFF_Form *form, IFF_Chunk *chunk)
+IFF_Bool IFF_addToForm(IFF_Form *form, IFF_Chunk *chunk)
 {
-    IFF_addToGroup((IFF_Group*)form, chunk);
+    return IFF_addToGroup((IFF_Group*)form, chunk);
 }
 
 IFF_Bool IFF_readForm(FILE *file, IFF_Chunk *chunk, const IFF_ChunkRegistry *chunkRegistry, IFF_Long *bytesProcessed)
diff --git a/src/libiff/form.h b/src/libiff/form.h
index 74ee595..ff05533 100644
--- a/src/libiff/form.h
+++ b/src/libiff/form.h
@@ -98,8 +98,9 @@ IFF_Chunk *IFF_createUnparsedForm(const IFF_ID chunkId, const IFF_Long chunkSize
  *
  * @param form An instance of a FORM chunk
  * @param chunk An arbitrary group or data chunk
+ * @return TRUE if the chunk has been added, or FALSE if the memory for the reference can't be allocated
  */
-void IFF_addToForm(IFF_Form *form, IFF_Chunk *chunk);
+IFF_Bool IFF_addToForm(IFF_Form *form, IFF_Chunk *chunk);
 
 /**
  * Reads a form chunk and its sub chunks from a file.
diff --git a/src/libiff/group.c b/src/libiff/group.c
index 4de8436..ecd1a1e 100644
--- a/src/libiff/group.c
+++ b/src/libiff/group.c
@@ -57,18 +57,31 @@ IFF_Chunk *IFF_createUnparsedGroup(const IFF_ID chunkId, const IFF_Long chunkSiz
     return (IFF_Chunk*)IFF_createGroup(chunkId, chunkSize, 0);
 }
 
-void IFF_attachToGroup(IFF_Group *group, IFF_Chunk *chunk)
+IFF_Bool IFF_attachToGroup(IFF_Group *group, IFF_Chunk *chunk)
 {
-    group->chunk = (IFF_Chunk**)realloc(group->chunk, (group->chunkLength + 1) * sizeof(IFF_Chunk*));
+    IFF_Chunk **newChunk = (IFF_Chunk**)realloc(group->chunk, (group->chunkLength + 1) * sizeof(IFF_Chunk*));
+
+    if(newChunk == NULL)
+    {
+        IFF_error("Cannot allocate memory for a sub chunk!\n");
+        return FALSE;
+    }
+
+    group->chunk = newChunk;
     group->chunk[group->chunkLength] = chunk;
     group->chunkLength++;
     chunk->parent = group;
+
+    return TRUE;
 }
 
-void IFF_addToGroup(IFF_Group *group, IFF_Chunk *chunk)
+IFF_Bool IFF_addToGroup(IFF_Group *group, IFF_Chunk *chunk)
 {
-    IFF_attachToGroup(group, chunk);
+    if(!IFF_attachToGroup(group, chunk))
+        return FALSE;
+
     group->chunkSize = IFF_incrementChunkSize(group->chunkSize, chunk);
+    return TRUE;
 }
 
 static IFF_Bool readGroupSubChunks(FILE *file, IFF_Group *group, const IFF_ChunkRegistry *chunkRegistry, IFF_Long *bytesProcessed)
@@ -82,7 +95,11 @@ static IFF_Bool readGroupSubChunks(FILE *file, IFF_Group *group, const IFF_Chunk
             return FALSE;
 
         /* Attach chunk to the group */
-        IFF_attachToGroup(group, chunk);
+        if(!IFF_attachToGroup(group, chunk))
+        {
+            IFF_freeChunk(chunk, group->groupType, chunkRegistry);
+            return FALSE;
+        }
 
         /* Increase the bytes processed counter */
         *bytesProcessed = IFF_incrementChunkSize(*bytesProcessed, chunk);
diff --git a/src/libiff/group.h b/src/libiff/group.h
index 6490c74..688051b 100644
--- a/src/libiff/group.h
+++ b/src/libiff/group.h
@@ -103,8 +103,9 @@ IFF_Chunk *IFF_createUnparsedGroup(const IFF_ID chunkId, const IFF_Long chunkSiz
  *
  * @param group An instance of a group chunk
  * @param chunk An arbitrary group or data chunk
+ * @return TRUE if the chunk has been added, or FALSE if the memory for the reference can't be allocated
  */
-void IFF_attachToGroup(IFF_Group *group, IFF_Chunk *chunk);
+IFF_Bool IFF_attachToGroup(IFF_Group *group, IFF_Chunk *chunk);
 
 /**
  * Adds a chunk to the body of the given group. This function also increments the
@@ -112,8 +113,9 @@ void IFF_attachToGroup(IFF_Group *group, IFF_Chunk *chunk);
  *
  * @param group An instance of a group chunk
  * @param chunk An arbitrary group or data chunk
+ * @return TRUE if the chunk has been added, or FALSE if the memory for the reference can't be allocated
  */
-void IFF_addToGroup(IFF_Group *group, IFF_Chunk *chunk);
+IFF_Bool IFF_addToGroup(IFF_Group *group, IFF_Chunk *chunk);
 
 /**
  * Reads a group chunk and its sub chunks from a file.
diff --git a/src/libiff/list.c b/src/libiff/list.c
index 52d0503..197d151 100644
--- a/src/libiff/list.c
+++ b/src/libiff/list.c
@@ -57,28 +57,41 @@ IFF_Chunk *IFF_createUnparsedList(const IFF_ID chunkId, const IFF_Long chunkSize
     return (IFF_Chunk*)IFF_createList(chunkSize, 0);
 }
 
-static void addPropToList(IFF_List *list, IFF_Prop *prop)
+static IFF_Bool addPropToList(IFF_List *list, IFF_Prop *prop)
 {
-    list->prop = (IFF_Prop**)realloc(list->prop, (list->propLength + 1) * sizeof(IFF_Prop*));
+    IFF_Prop **newProp = (IFF_Prop**)realloc(list->prop, (list->propLength + 1) * sizeof(IFF_Prop*));
+
+    if(newProp == NULL)
+    {
+        IFF_error("Cannot allocate memory for a PROP chunk!\n");
+        return FALSE;
+    }
+
+    list->prop = newProp;
     list->prop[list->propLength] = prop;
     list->propLength++;
     prop->parent = (IFF_Group*)list;
+
+    return TRUE;
 }
 
-void IFF_addPropToList(IFF_List *list, IFF_Prop *prop)
+IFF_Bool IFF_addPropToList(IFF_List *list, IFF_Prop *prop)
 {
-    addPropToList(list, prop);
+    if(!addPropToList(list, prop))
+        return FALSE;
+
     list->chunkSize = IFF_incrementChunkSize(list->chunkSize, (IFF_Chunk*)prop);
+    return TRUE;
 }
 
-void IFF_addToList(IFF_List *list, IFF_Chunk *chunk)
+IFF_Bool IFF_addToList(IFF_List *list, IFF_Chunk *chunk)
 {
-    IFF_addToCAT((IFF_CAT*)list, chunk);
+    return IFF_addToCAT((IFF_CAT*)list, chunk);
 }
 
-void IFF_addToListAndUpdateContentsType(IFF_List *list, IFF_Chunk *chunk)
+IFF_Bool IFF_addToListAndUpdateContentsType(IFF_List *list, IFF_Chunk *chunk)
 {
-    IFF_addToCATAndUpdateContentsType((IFF_CAT*)list, chunk);
+    return IFF_addToCATAndUpdateContentsType((IFF_CAT*)list, chunk);
 }
 
 static IFF_Bool readListSubChunks(FILE *file, IFF_List *list, const IFF_ChunkRegistry *chunkRegistry, IFF_Long *bytesProcessed)
@@ -87,15 +100,22 @@ static IFF_Bool readListSubChunks(FILE *file, IFF_List *list, const IFF_ChunkReg
     {
         /* Read sub chunk */
         IFF_Chunk *chunk = IFF_readChunk(file, list->contentsType, chunkRegistry);
+        IFF_Bool status;
 
         if(chunk == NULL)
             return FALSE;
 
         /* Add the PROP chunk or arbitrary sub chunk */
         if(chunk->chunkId == IFF_ID_PROP)
-            addPropToList(list, (IFF_Prop*)chunk);
+            status = addPropToList(list, (IFF_Prop*)chunk);
         else
-            IFF_attachToGroup((IFF_Group*)list, chunk);
+            status = IFF_attachToGroup((IFF_Group*)list, chunk);
+
+        if(!status)
+        {
+            IFF_freeChunk(chunk, list->contentsType, chunkRegistry);
+            return FALSE;
+        }
 
         /* Increase the bytes processed counter */
         *bytesProcessed = IFF_incrementChunkSize(*bytesProcessed, chunk);
diff --git a/src/libiff/list.h b/src/libiff/list.h
index 0ed5b02..2c3a189 100644
--- a/src/libiff/list.h
+++ b/src/libiff/list.h
@@ -116,8 +116,9 @@ IFF_Chunk *IFF_createUnparsedList(const IFF_ID chunkId, const IFF_Long chunkSize
  *
  * @param list An instance of a list struct
  * @param prop A PROP chunk
+ * @return TRUE if the chunk has been added, or FALSE if the memory for the reference can't be allocated
  */
-void IFF_addPropToList(IFF_List *list, IFF_Prop *prop);
+IFF_Bool IFF_addPropToList(IFF_List *list, IFF_Prop *prop);
 
 /**
  * Adds a chunk to the body of the given list. This function also increments the
@@ -125,8 +126,9 @@ void IFF_addPropToList(IFF_List *list, IFF_Prop *prop);
  *
  * @param list An instance of a list struct
  * @param chunk A FORM, CAT or LIST chunk
+ * @return TRUE if the chunk has been added, or FALSE if the memory for the reference can't be allocated
  */
-void IFF_addToList(IFF_List *list, IFF_Chunk *chunk);
+IFF_Bool IFF_addToList(IFF_List *list, IFF_Chunk *chunk);
 
 /**
  * Adds a chunk to the body of the given list.
@@ -136,8 +138,9 @@ void IFF_addToList(IFF_List *list, IFF_Chunk *chunk);
  *
  * @param list An instance of a list struct
  * @param chunk A FORM, CAT or LIST chunk
+ * @return TRUE if the chunk has been added, or FALSE if the memory for the reference can't be allocated
  */
-void IFF_addToListAndUpdateContentsType(IFF_List *list, IFF_Chunk *chunk);
+IFF_Bool IFF_addToListAndUpdateContentsType(IFF_List *list, IFF_Chunk *chunk);
 
 /**
  * Reads a list chunk and its sub chunks from a file.
diff --git a/src/libiff/prop.c b/src/libiff/prop.c
index 87f56d2..ba964e8 100644
--- a/src/libiff/prop.c
+++ b/src/libiff/prop.c
@@ -46,9 +46,9 @@ IFF_Chunk *IFF_createUnparsedProp(const IFF_ID chunkId, const IFF_Long chunkSize
     return IFF_createUnparsedGroup(chunkId, chunkSize);
 }
 
-void IFF_addToProp(IFF_Prop *prop, IFF_Chunk *chunk)
+IFF_Bool IFF_addToProp(IFF_Prop *prop, IFF_Chunk *chunk)
 {
-    IFF_addToForm((IFF_Form*)prop, chunk);
+    return IFF_addToForm((IFF_Form*)prop, chunk);
 }
 
 IFF_Bool IFF_readProp(FILE *file, IFF_Chunk *chunk, const IFF_ChunkRegistry *chunkRegistry, IFF_Long *bytesProcessed)
diff --git a/src/libiff/prop.h b/src/libiff/prop.h
index bfd152c..abf8ffc 100644
--- a/src/libiff/prop.h
+++ b/src/libiff/prop.h
@@ -72,8 +72,9 @@ IFF_Chunk *IFF_createUnparsedProp(const IFF_ID chunkId, const IFF_Long chunkSize
  *
  * @param prop An instance of a PROP chunk
  * @param chunk A data chunk
+ * @return TRUE if the chunk has been added, or FALSE if the memory for the reference can't be allocated
  */
-void IFF_addToProp(IFF_Prop *prop, IFF_Chunk *chunk);
+IFF_Bool IFF_addToProp(IFF_Prop *prop, IFF_Chunk *chunk);
 
 /**
  * Reads a PROP chunk and its sub chunks from a file.
-- 
2.43.0


From eaad20f2aee4daf0fada3f1eca9a7b22b2615d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:44 +0000
Subject: [PATCH 19/21] fix: handle allocation failures in iffjoin

---
 src/iffjoin/join.c | 12 ++++++++----
 src/iffjoin/main.c |  6 ++++++
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/iffjoin/join.c b/src/iffjoin/join.c
index 47e4ca7..d1eb963 100644
--- a/src/iffjoin/join.c
+++ b/src/iffjoin/join.c
@@ -34,13 +34,19 @@ int IFF_join(char **inputFilenames, const unsigned int inputFilenamesLength, con
     unsigned int i;
     int status = 0;
 
+    if(cat == NULL)
+    {
+        fprintf(stderr, "Cannot allocate memory for the concatenation!\n");
+        return 1;
+    }
+
     for(i = 0; i < inputFilenamesLength; i++)
     {
         /* Open each input IFF file */
         IFF_Chunk *chunk = IFF_readFile(inputFilenames[i], NULL);
 
-        /* Check whether the IFF file is valid */
-        if(chunk == NULL || !IFF_check(chunk, NULL))
+        /* Check whether the IFF file is valid and add it to the concatenation */
+        if(chunk == NULL || !IFF_check(chunk, NULL) || !IFF_addToCATAndUpdateContentsType(cat, chunk))
         {
             if(chunk != NULL)
                 IFF_free(chunk, NULL);
@@ -48,8 +54,6 @@ int IFF_join(char **inputFilenames, const unsigned int inputFilenamesLength, con
             IFF_free((IFF_Chunk*)cat, NULL);
             return 1;
         }
-        else
-            IFF_addToCATAndUpdateContentsType(cat, chunk); /* Add the input IFF chunk to the concatenation */
     }
 
     /* Write the resulting CAT to the output file or standard output */
diff --git a/src/iffjoin/main.c b/src/iffjoin/main.c
index 63f44ae..30feed8 100644
--- a/src/iffjoin/main.c
+++ b/src/iffjoin/main.c
@@ -138,6 +138,12 @@ int main(int argc, char *argv[])
         unsigned int i;
         int status;
 
+        if(inputFilenames == NULL)
+        {
+            fprintf(stderr, "Cannot allocate memory for the input file names!\n");
+            return 1;
+        }
+
         /* Create an array of input file names */
         for(i = 0; i < inputFilenamesLength; i++)
             inputFilenames[i] = argv[optind + i];
-- 
2.43.0


From a0e99c3098cf0071af27f1b819d709053099b785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:44 +0000
Subject: [PATCH 20/21] fix: handle allocation failures while searching for
 forms and chunks

---
 src/libiff/form.c | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/src/libiff/form.c b/src/libiff/form.c
index de81384..7041630 100644
--- a/src/libiff/form.c
+++ b/src/libiff/form.c
@@ -197,8 +197,20 @@ IFF_Form **IFF_mergeFormArray(IFF_Form **target, unsigned int *targetLength, IFF
 {
     unsigned int i;
     unsigned int newLength = *targetLength + sourceLength;
+    IFF_Form **newTarget;
 
-    target = (IFF_Form**)realloc(target, newLength * sizeof(IFF_Form*));
+    if(sourceLength == 0)
+        return target;
+
+    newTarget = (IFF_Form**)realloc(target, newLength * sizeof(IFF_Form*));
+
+    if(newTarget == NULL)
+    {
+        IFF_error("Cannot allocate memory for the search results!\n");
+        return target;
+    }
+
+    target = newTarget;
 
     for(i = 0; i < sourceLength; i++)
         target[i + *targetLength] = source[i];
@@ -220,6 +232,14 @@ IFF_Form **IFF_searchFormsInForm(IFF_Form *form, const IFF_ID *formTypes, const
         if(form->formType == formType)
         {
             IFF_Form **forms = (IFF_Form**)malloc(sizeof(IFF_Form*));
+
+            if(forms == NULL)
+            {
+                IFF_error("Cannot allocate memory for the search results!\n");
+                *formsLength = 0;
+                return NULL;
+            }
+
             forms[0] = form;
             *formsLength = 1;
 
@@ -326,7 +346,17 @@ IFF_Chunk **IFF_getChunksFromForm(const IFF_Form *form, const IFF_ID chunkId, un
     {
         if(form->chunk[i]->chunkId == chunkId)
         {
-            result = (IFF_Chunk**)realloc(result, (*chunksLength + 1) * sizeof(IFF_Chunk*));
+            IFF_Chunk **newResult = (IFF_Chunk**)realloc(result, (*chunksLength + 1) * sizeof(IFF_Chunk*));
+
+            if(newResult == NULL)
+            {
+                IFF_error("Cannot allocate memory for the search results!\n");
+                free(result);
+                *chunksLength = 0;
+                return NULL;
+            }
+
+            result = newResult;
             result[*chunksLength] = form->chunk[i];
             *chunksLength = *chunksLength + 1;
         }
-- 
2.43.0


From 882c88949d18803633c6be0eb083d662d5392c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:56 +0000
Subject: [PATCH 21/21] fix: release the previous data of a chunk while setting
 text data

---
 src/libiff/rawchunk.c | 4 ++++
 src/libiff/rawchunk.h | 3 ++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/libiff/rawchunk.c b/src/libiff/rawchunk.c
index b4e6842..2dc37bb 100644
--- a/src/libiff/rawchunk.c
+++ b/src/libiff/rawchunk.c
@@ -68,6 +68,10 @@ IFF_Bool IFF_setTextData(IFF_RawChunk *rawChunk, const char *text)
     }
 
     memcpy(chunkData, text, textLength);
+
+    /* The chunk owns its data, so the data that is replaced has to be released */
+    free(rawChunk->chunkData);
+
     IFF_setRawChunkData(rawChunk, chunkData, textLength);
     return TRUE;
 }
diff --git a/src/libiff/rawchunk.h b/src/libiff/rawchunk.h
index 10824ed..aa6daa1 100644
--- a/src/libiff/rawchunk.h
+++ b/src/libiff/rawchunk.h
@@ -80,7 +80,8 @@ void IFF_setRawChunkData(IFF_RawChunk *rawChunk, IFF_UByte *chunkData, IFF_Long
 
 /**
  * Copies the given string into the data of the chunk. Additionally, it makes
- * the chunk size equal to the given string.
+ * the chunk size equal to the given string. The data that the chunk previously
+ * had is released.
  *
  * @param rawChunk A raw chunk
  * @param text Text to store in the body
-- 
2.43.0

