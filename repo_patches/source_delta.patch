From 89fe3cb199a72674c735301b70ca926009ce7bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:24 +0000
Subject: [PATCH 01/75] fix: file writes that the system refuses are no longer
 reported as successful

---
 src/vm/datatypes/files.c | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/vm/datatypes/files.c b/src/vm/datatypes/files.c
index ee6462a..b93fdbe 100644
--- a/src/vm/datatypes/files.c
+++ b/src/vm/datatypes/files.c
@@ -20,14 +20,13 @@ static Value writeFile(DictuVM *vm, int argCount, Value *args) {
         return EMPTY_VAL;
     }
 
-    int charsWrote = 0;
+    size_t length = string->length;
+    size_t charsWrote = fwrite(string->chars, sizeof(char), length, file->file);
 
-    if (strcmp(file->openType, "wb") == 0) {
-        charsWrote = fwrite(string->chars, 1, string->length, file->file);
-    } else {
-        charsWrote = fprintf(file->file, "%s", string->chars);
+    if (charsWrote != length || fflush(file->file) != 0) {
+        runtimeError(vm, "Could not write to file \"%s\".", file->path);
+        return EMPTY_VAL;
     }
-    fflush(file->file);
 
     return NUMBER_VAL(charsWrote);
 }
@@ -51,10 +50,15 @@ static Value writeLineFile(DictuVM *vm, int argCount, Value *args) {
         return EMPTY_VAL;
     }
 
-    int charsWrote = fprintf(file->file, "%s\n", string->chars);
-    fflush(file->file);
+    size_t length = string->length;
+    size_t charsWrote = fwrite(string->chars, sizeof(char), length, file->file);
 
-    return NUMBER_VAL(charsWrote);
+    if (charsWrote != length || fputc('\n', file->file) == EOF || fflush(file->file) != 0) {
+        runtimeError(vm, "Could not write to file \"%s\".", file->path);
+        return EMPTY_VAL;
+    }
+
+    return NUMBER_VAL(charsWrote + 1);
 }
 
 static Value readFullFile(DictuVM *vm, int argCount, Value *args) {
-- 
2.43.0


From 082eed03e209f5dfeeffb3ec996fe21798772d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:24 +0000
Subject: [PATCH 02/75] fix: writeLine() on a file opened with mode rb is an
 error

---
 src/vm/datatypes/files.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vm/datatypes/files.c b/src/vm/datatypes/files.c
index b93fdbe..de5a68a 100644
--- a/src/vm/datatypes/files.c
+++ b/src/vm/datatypes/files.c
@@ -45,7 +45,7 @@ static Value writeLineFile(DictuVM *vm, int argCount, Value *args) {
     ObjFile *file = AS_FILE(args[0]);
     ObjString *string = AS_STRING(args[1]);
 
-    if (strcmp(file->openType, "r") == 0) {
+    if (strcmp(file->openType, "r") == 0 || strcmp(file->openType, "rb") == 0) {
         runtimeError(vm, "File is not writable!");
         return EMPTY_VAL;
     }
-- 
2.43.0


From 5135ece78b2cb6a7a13afd09327844d0f45ce535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:36 +0000
Subject: [PATCH 03/75] fix: a script whose size cannot be determined is
 reported as unreadable

---
 src/cli/main.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/cli/main.c b/src/cli/main.c
index 857005f..f2c32f5 100644
--- a/src/cli/main.c
+++ b/src/cli/main.c
@@ -165,10 +165,17 @@ static char *readFile(const char *path) {
         return NULL;
     }
 
-    fseek(file, 0L, SEEK_END);
-    size_t fileSize = ftell(file);
-    rewind(file);
+    long fileLength = -1;
+    if (fseek(file, 0L, SEEK_END) == 0) {
+        fileLength = ftell(file);
+    }
+
+    if (fileLength < 0 || fseek(file, 0L, SEEK_SET) != 0) {
+        fprintf(stderr, "Could not read file \"%s\".\n", path);
+        exit(74);
+    }
 
+    size_t fileSize = fileLength;
     char *buffer = malloc(sizeof(char) * (fileSize + 1));
     if (buffer == NULL) {
         fprintf(stderr, "Not enough memory to read \"%s\".\n", path);
-- 
2.43.0


From 544061dcfa929433ca72e4377362f324ef32e904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:07 +0000
Subject: [PATCH 04/75] fix: a module that cannot be read completely raises an
 error in the importer instead of ending the process

---
 src/vm/util.c | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/vm/util.c b/src/vm/util.c
index aa7e9de..d05a80d 100644
--- a/src/vm/util.c
+++ b/src/vm/util.c
@@ -11,25 +11,32 @@ char *readFile(DictuVM *vm, const char *path) {
         return NULL;
     }
 
-    fseek(file, 0L, SEEK_END);
-    size_t fileSize = ftell(file);
-    rewind(file);
+    long fileLength = -1;
+    if (fseek(file, 0L, SEEK_END) == 0) {
+        fileLength = ftell(file);
+    }
 
+    if (fileLength < 0 || fseek(file, 0L, SEEK_SET) != 0) {
+        fclose(file);
+        return NULL;
+    }
+
+    size_t fileSize = fileLength;
     char *buffer = ALLOCATE(vm, char, fileSize + 1);
     if (buffer == NULL) {
-        fprintf(stderr, "Not enough memory to read \"%s\".\n", path);
-        exit(74);
+        fclose(file);
+        return NULL;
     }
 
     size_t bytesRead = fread(buffer, sizeof(char), fileSize, file);
+    fclose(file);
+
     if (bytesRead < fileSize) {
-        fprintf(stderr, "Could not read file \"%s\".\n", path);
-        exit(74);
+        FREE_ARRAY(vm, char, buffer, fileSize + 1);
+        return NULL;
     }
 
     buffer[bytesRead] = '\0';
-
-    fclose(file);
     return buffer;
 }
 
-- 
2.43.0


From 1d389b32b6baf801c317b7c035a7d60db5b20f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:30 +0000
Subject: [PATCH 05/75] fix: a file keeps its own path and mode, is closed with
 its object, and reports use after closing

---
 src/vm/datatypes/files.c | 31 +++++++++++++++++++++++++++++++
 src/vm/memory.c          | 11 +++++++++++
 src/vm/object.c          |  6 +++++-
 src/vm/vm.c              | 14 +++++++++++---
 4 files changed, 58 insertions(+), 4 deletions(-)

diff --git a/src/vm/datatypes/files.c b/src/vm/datatypes/files.c
index de5a68a..c3f7c89 100644
--- a/src/vm/datatypes/files.c
+++ b/src/vm/datatypes/files.c
@@ -1,6 +1,17 @@
 #include "files.h"
 #include "../memory.h"
 
+static bool checkFileOpen(DictuVM *vm, Value value) {
+    ObjFile *file = AS_FILE(value);
+
+    if (file->file == NULL) {
+        runtimeError(vm, "File \"%s\" is closed.", file->path);
+        return false;
+    }
+
+    return true;
+}
+
 static Value writeFile(DictuVM *vm, int argCount, Value *args) {
     if (argCount != 1) {
         runtimeError(vm, "write() takes 1 argument (%d given)", argCount);
@@ -12,6 +23,10 @@ static Value writeFile(DictuVM *vm, int argCount, Value *args) {
         return EMPTY_VAL;
     }
 
+    if (!checkFileOpen(vm, args[0])) {
+        return EMPTY_VAL;
+    }
+
     ObjFile *file = AS_FILE(args[0]);
     ObjString *string = AS_STRING(args[1]);
 
@@ -42,6 +57,10 @@ static Value writeLineFile(DictuVM *vm, int argCount, Value *args) {
         return EMPTY_VAL;
     }
 
+    if (!checkFileOpen(vm, args[0])) {
+        return EMPTY_VAL;
+    }
+
     ObjFile *file = AS_FILE(args[0]);
     ObjString *string = AS_STRING(args[1]);
 
@@ -67,6 +86,10 @@ static Value readFullFile(DictuVM *vm, int argCount, Value *args) {
         return EMPTY_VAL;
     }
 
+    if (!checkFileOpen(vm, args[0])) {
+        return EMPTY_VAL;
+    }
+
     ObjFile *file = AS_FILE(args[0]);
 
     size_t currentPosition = ftell(file->file);
@@ -103,6 +126,10 @@ static Value readLineFile(DictuVM *vm, int argCount, Value *args) {
         return EMPTY_VAL;
     }
 
+    if (!checkFileOpen(vm, args[0])) {
+        return EMPTY_VAL;
+    }
+
     int readLineBufferSize = 4096;
 
     if (argCount == 1) {
@@ -175,6 +202,10 @@ static Value seekFile(DictuVM *vm, int argCount, Value *args) {
         return EMPTY_VAL;
     }
 
+    if (!checkFileOpen(vm, args[0])) {
+        return EMPTY_VAL;
+    }
+
     int offset = AS_NUMBER(args[1]);
     ObjFile *file = AS_FILE(args[0]);
 
diff --git a/src/vm/memory.c b/src/vm/memory.c
index c682a73..24a3cb5 100644
--- a/src/vm/memory.c
+++ b/src/vm/memory.c
@@ -1,4 +1,5 @@
 #include <stdlib.h>
+#include <string.h>
 
 #include "common.h"
 #include "compiler.h"
@@ -289,6 +290,16 @@ void freeObject(DictuVM *vm, Obj *object) {
         }
 
         case OBJ_FILE: {
+            ObjFile *file = (ObjFile*)object;
+            if (file->file != NULL) {
+                fclose(file->file);
+            }
+            if (file->path != NULL) {
+                FREE_ARRAY(vm, char, file->path, strlen(file->path) + 1);
+            }
+            if (file->openType != NULL) {
+                FREE_ARRAY(vm, char, file->openType, strlen(file->openType) + 1);
+            }
             FREE(vm, ObjFile, object);
             break;
         }
diff --git a/src/vm/object.c b/src/vm/object.c
index 413b29b..da57032 100644
--- a/src/vm/object.c
+++ b/src/vm/object.c
@@ -182,7 +182,11 @@ ObjSet *newSet(DictuVM *vm) {
 }
 
 ObjFile *newFile(DictuVM *vm) {
-    return ALLOCATE_OBJ(vm, ObjFile, OBJ_FILE);
+    ObjFile *file = ALLOCATE_OBJ(vm, ObjFile, OBJ_FILE);
+    file->file = NULL;
+    file->path = NULL;
+    file->openType = NULL;
+    return file;
 }
 
 ObjAbstract *newAbstract(DictuVM *vm, AbstractFreeFn func, AbstractTypeFn type) {
diff --git a/src/vm/vm.c b/src/vm/vm.c
index 1dc07fb..afbd88a 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -2372,15 +2372,22 @@ static DictuInterpretResult run(DictuVM *vm) {
             ObjString *openTypeString = AS_STRING(openType);
             ObjString *fileNameString = AS_STRING(fileName);
 
+            // The file outlives the strings it was opened with, so it keeps its own copies.
             ObjFile *file = newFile(vm);
-            file->file = fopen(fileNameString->chars, openTypeString->chars);
-            file->path = fileNameString->chars;
-            file->openType = openTypeString->chars;
+            push(vm, OBJ_VAL(file));
+            size_t pathLength = strlen(fileNameString->chars) + 1;
+            file->path = ALLOCATE(vm, char, pathLength);
+            memcpy(file->path, fileNameString->chars, pathLength);
+            size_t openTypeLength = strlen(openTypeString->chars) + 1;
+            file->openType = ALLOCATE(vm, char, openTypeLength);
+            memcpy(file->openType, openTypeString->chars, openTypeLength);
+            file->file = fopen(file->path, file->openType);
 
             if (file->file == NULL) {
                 RUNTIME_ERROR("Unable to open file '%s'", file->path);
             }
 
+            pop(vm);
             pop(vm);
             pop(vm);
             push(vm, OBJ_VAL(file));
@@ -2392,6 +2399,7 @@ static DictuInterpretResult run(DictuVM *vm) {
             Value file = frame->slots[slot];
             ObjFile *fileObject = AS_FILE(file);
             fclose(fileObject->file);
+            fileObject->file = NULL;
 
             DISPATCH();
         }
-- 
2.43.0


From b59fdbd54ff34cfabaa9ba0aac77b708bcf46b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:09 +0000
Subject: [PATCH 06/75] fix: every with block that return, break or continue
 leaves closes its file

---
 src/vm/compiler.c | 43 +++++++++++++++++++++++++++----------------
 src/vm/compiler.h |  4 +++-
 2 files changed, 30 insertions(+), 17 deletions(-)

diff --git a/src/vm/compiler.c b/src/vm/compiler.c
index 08d0cab..74a27ad 100644
--- a/src/vm/compiler.c
+++ b/src/vm/compiler.c
@@ -162,7 +162,6 @@ static void initCompiler(Parser *parser, Compiler *compiler, Compiler *parent, F
     compiler->function = NULL;
     compiler->class = NULL;
     compiler->loop = NULL;
-    compiler->withBlock = false;
     compiler->classAnnotations = NULL;
     compiler->methodAnnotations = NULL;
     compiler->fieldAnnotations = NULL;
@@ -209,6 +208,7 @@ static void initCompiler(Parser *parser, Compiler *compiler, Compiler *parent, F
     Local *local = &compiler->locals[compiler->localCount++];
     local->depth = compiler->scopeDepth;
     local->isUpvalue = false;
+    local->isFile = false;
     if (type == TYPE_METHOD || type == TYPE_INITIALIZER) {
         // In a method, it holds the receiver, "this".
         local->name.start = "this";
@@ -388,6 +388,7 @@ static void addLocal(Compiler *compiler, LangToken name) {
     local->depth = -1;
     local->isUpvalue = false;
     local->constant = false;
+    local->isFile = false;
     compiler->localCount++;
 }
 
@@ -2398,6 +2399,18 @@ static void forStatement(Compiler *compiler) {
     endScope(compiler); // Loop variable.
 }
 
+// Close the files of the with blocks that are left when control continues outside
+// of every scope deeper than the given depth, innermost first.
+static void closeFileHandles(Compiler *compiler, int depth) {
+    for (int i = compiler->localCount - 1;
+         i >= 0 && compiler->locals[i].depth > depth;
+         i--) {
+        if (compiler->locals[i].isFile) {
+            emitBytes(compiler, OP_CLOSE_FILE, i);
+        }
+    }
+}
+
 static void breakStatement(Compiler *compiler) {
     if (compiler->loop == NULL) {
         error(compiler->parser, "Cannot utilise 'break' outside of a loop.");
@@ -2406,6 +2419,8 @@ static void breakStatement(Compiler *compiler) {
 
     consume(compiler, TOKEN_SEMICOLON, "Expected semicolon after break");
 
+    closeFileHandles(compiler, compiler->loop->scopeDepth);
+
     // Discard any locals created inside the loop.
     for (int i = compiler->localCount - 1;
          i >= 0 && compiler->locals[i].depth > compiler->loop->scopeDepth;
@@ -2426,10 +2441,13 @@ static void breakStatement(Compiler *compiler) {
 static void continueStatement(Compiler *compiler) {
     if (compiler->loop == NULL) {
         error(compiler->parser, "Cannot utilise 'continue' outside of a loop.");
+        return;
     }
 
     consume(compiler, TOKEN_SEMICOLON, "Expect ';' after 'continue'.");
 
+    closeFileHandles(compiler, compiler->loop->scopeDepth);
+
     // Discard any locals created inside the loop.
     for (int i = compiler->localCount - 1;
          i >= 0 && compiler->locals[i].depth > compiler->loop->scopeDepth;
@@ -2519,7 +2537,6 @@ static void switchStatement(Compiler *compiler) {
 }
 
 static void withStatement(Compiler *compiler) {
-    compiler->withBlock = true;
     consume(compiler, TOKEN_LEFT_PAREN, "Expect '(' after 'with'.");
     expression(compiler);
     consume(compiler, TOKEN_COMMA, "Expect comma");
@@ -2529,29 +2546,23 @@ static void withStatement(Compiler *compiler) {
 
     beginScope(compiler);
 
+    if (compiler->localCount == UINT8_COUNT) {
+        error(compiler->parser, "Too many local variables in function.");
+        return;
+    }
+
     int fileIndex = compiler->localCount;
     Local *local = &compiler->locals[compiler->localCount++];
     local->depth = compiler->scopeDepth;
     local->isUpvalue = false;
     local->name = syntheticToken("file");
     local->constant = true;
+    local->isFile = true;
 
     emitByte(compiler, OP_OPEN_FILE);
     block(compiler);
     emitBytes(compiler, OP_CLOSE_FILE, fileIndex);
     endScope(compiler);
-    compiler->withBlock = false;
-}
-
-static void checkForFileHandle(Compiler *compiler) {
-    if (compiler->withBlock) {
-        LangToken token = syntheticToken("file");
-        int local = resolveLocal(compiler, &token, true);
-
-        if (local != -1) {
-            emitBytes(compiler, OP_CLOSE_FILE, local);
-        }
-    }
 }
 
 static void returnStatement(Compiler *compiler) {
@@ -2560,7 +2571,7 @@ static void returnStatement(Compiler *compiler) {
     }
 
     if (match(compiler, TOKEN_SEMICOLON)) {
-        checkForFileHandle(compiler);
+        closeFileHandles(compiler, -1);
         emitReturn(compiler);
     } else {
         if (compiler->type == TYPE_INITIALIZER) {
@@ -2570,7 +2581,7 @@ static void returnStatement(Compiler *compiler) {
         expression(compiler);
         consume(compiler, TOKEN_SEMICOLON, "Expect ';' after return value.");
 
-        checkForFileHandle(compiler);
+        closeFileHandles(compiler, -1);
         emitByte(compiler, OP_RETURN);
     }
 }
diff --git a/src/vm/compiler.h b/src/vm/compiler.h
index 13ff573..5817ad8 100644
--- a/src/vm/compiler.h
+++ b/src/vm/compiler.h
@@ -40,6 +40,9 @@ typedef struct {
 
     // True if it's a constant value.
     bool constant;
+
+    // True if it's the file of a with block.
+    bool isFile;
 } Local;
 
 typedef struct {
@@ -100,7 +103,6 @@ typedef struct Compiler {
     Upvalue upvalues[UINT8_COUNT];
 
     int scopeDepth;
-    bool withBlock;
     ObjDict *classAnnotations;
     ObjDict *methodAnnotations;
     ObjDict *fieldAnnotations;
-- 
2.43.0


From 1966b81a4256753343d273b8c9811b173a65c1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:45 +0000
Subject: [PATCH 07/75] fix: readLine() returns whole lines exactly; failing
 reads and seeks are errors

---
 src/vm/datatypes/files.c | 82 ++++++++++++++++++++++++++++------------
 1 file changed, 57 insertions(+), 25 deletions(-)

diff --git a/src/vm/datatypes/files.c b/src/vm/datatypes/files.c
index c3f7c89..f2b751c 100644
--- a/src/vm/datatypes/files.c
+++ b/src/vm/datatypes/files.c
@@ -92,12 +92,19 @@ static Value readFullFile(DictuVM *vm, int argCount, Value *args) {
 
     ObjFile *file = AS_FILE(args[0]);
 
-    size_t currentPosition = ftell(file->file);
+    long currentPosition = ftell(file->file);
+    long endPosition = -1;
     // Calculate file size
-    fseek(file->file, 0L, SEEK_END);
-    size_t fileSize = ftell(file->file);
-    fseek(file->file, currentPosition, SEEK_SET);
+    if (currentPosition >= 0 && fseek(file->file, 0L, SEEK_END) == 0) {
+        endPosition = ftell(file->file);
+    }
+
+    if (endPosition < 0 || fseek(file->file, currentPosition, SEEK_SET) != 0) {
+        runtimeError(vm, "Could not read file \"%s\".\n", file->path);
+        return EMPTY_VAL;
+    }
 
+    size_t fileSize = endPosition;
     char *buffer = ALLOCATE(vm, char, fileSize + 1);
     if (buffer == NULL) {
         runtimeError(vm, "Not enough memory to read \"%s\".\n", file->path);
@@ -130,7 +137,8 @@ static Value readLineFile(DictuVM *vm, int argCount, Value *args) {
         return EMPTY_VAL;
     }
 
-    int readLineBufferSize = 4096;
+    // Without an argument there is no limit to the length of a line
+    double limit = -1;
 
     if (argCount == 1) {
         if (!IS_NUMBER(args[1])) {
@@ -138,31 +146,52 @@ static Value readLineFile(DictuVM *vm, int argCount, Value *args) {
             return EMPTY_VAL;
         }
 
-        readLineBufferSize = AS_NUMBER(args[1]) + 1;
-    }
+        limit = AS_NUMBER(args[1]);
 
-#ifdef _WIN32
-    char *line = ALLOCATE(vm, char, readLineBufferSize);
-#else 
-    char line[readLineBufferSize]; 
-#endif
+        if (!(limit >= 1)) {
+            runtimeError(vm, "readLine() argument must be greater than 0");
+            return EMPTY_VAL;
+        }
+    }
 
     ObjFile *file = AS_FILE(args[0]);
-    if (fgets(line, readLineBufferSize, file->file) != NULL) {
-        int lineLength = strlen(line);
-        // Remove newline char
-        if (line[lineLength - 1] == '\n') {
-            lineLength--;
-            line[lineLength] = '\0';
+
+    int capacity = 128;
+    int length = 0;
+    int c = EOF;
+    char *line = ALLOCATE(vm, char, capacity);
+
+    while (limit < 0 || length + 1 <= limit) {
+        c = fgetc(file->file);
+
+        if (c == EOF || c == '\n') {
+            break;
         }
-        return OBJ_VAL(copyString(vm, line, lineLength));
+
+        if (length + 1 == capacity) {
+            int oldCapacity = capacity;
+            capacity = GROW_CAPACITY(capacity);
+            line = GROW_ARRAY(vm, line, char, oldCapacity, capacity);
+        }
+
+        line[length++] = c;
     }
 
-#ifdef _WIN32
-    FREE(vm, char, line);
-#endif 
+    if (c == EOF && (ferror(file->file) || length == 0)) {
+        FREE_ARRAY(vm, char, line, capacity);
 
-    return NIL_VAL;
+        if (ferror(file->file)) {
+            runtimeError(vm, "Could not read file \"%s\".", file->path);
+            return EMPTY_VAL;
+        }
+
+        return NIL_VAL;
+    }
+
+    line = SHRINK_ARRAY(vm, line, char, capacity, length + 1);
+    line[length] = '\0';
+
+    return OBJ_VAL(takeString(vm, line, length));
 }
 
 static Value seekFile(DictuVM *vm, int argCount, Value *args) {
@@ -206,7 +235,7 @@ static Value seekFile(DictuVM *vm, int argCount, Value *args) {
         return EMPTY_VAL;
     }
 
-    int offset = AS_NUMBER(args[1]);
+    long offset = AS_NUMBER(args[1]);
     ObjFile *file = AS_FILE(args[0]);
 
     if (offset != 0 && !strstr(file->openType, "b")) {
@@ -214,7 +243,10 @@ static Value seekFile(DictuVM *vm, int argCount, Value *args) {
         return EMPTY_VAL;
     }
 
-    fseek(file->file, offset, seekType);
+    if (fseek(file->file, offset, seekType) != 0) {
+        runtimeError(vm, "Could not seek in file \"%s\".", file->path);
+        return EMPTY_VAL;
+    }
 
     return NIL_VAL;
 }
-- 
2.43.0


From be6cfcc6aa71a4fc644901aae4b5d3f3ad97bc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:42 +0000
Subject: [PATCH 08/75] fix: mkdirAll() takes paths of any length and creates
 only what is missing

---
 src/optionals/system.c | 42 ++++++++++++++++++++++++++++++------------
 1 file changed, 30 insertions(+), 12 deletions(-)

diff --git a/src/optionals/system.c b/src/optionals/system.c
index 9a17a8b..574446c 100644
--- a/src/optionals/system.c
+++ b/src/optionals/system.c
@@ -257,6 +257,15 @@ static Value mkdirNative(DictuVM *vm, int argCount, Value *args) {
     return newResultSuccess(vm, NIL_VAL);
 }
 
+static bool isDirectory(const char *path) {
+    int error = errno;
+    struct stat buffer;
+    bool directory = stat(path, &buffer) == 0 && (buffer.st_mode & S_IFMT) == S_IFDIR;
+
+    errno = error;
+    return directory;
+}
+
 static Value mkdirAllNative(DictuVM *vm, int argCount, Value *args) {
     if (argCount == 0 || argCount > 2) {
         runtimeError(vm, "mkdirAll() takes 1 or 2 arguments (%d given)", argCount);
@@ -281,37 +290,46 @@ static Value mkdirAllNative(DictuVM *vm, int argCount, Value *args) {
         mode = AS_NUMBER(args[1]);
     }
 
-    char tmp[256];
+    size_t len = strlen(dir);
+    char *tmp = ALLOCATE(vm, char, len + 1);
     char *p = NULL;
-    size_t len;
+    int retval = 0;
+    bool parents = true;
 
-    snprintf(tmp, sizeof(tmp), "%s", dir);
+    memcpy(tmp, dir, len + 1);
 
-    len = strlen(tmp);
-    if (tmp[len - 1] == '/' || tmp[len - 1] == '\\') {
-        tmp[len - 1] = 0;
+    for (size_t end = len; end > 1 && (tmp[end - 1] == '/' || tmp[end - 1] == '\\'); end--) {
+        tmp[end - 1] = 0;
     }
 
-    int retval;
-
-    for (p = tmp + 1; *p; p++) {
+    for (p = tmp + (len > 0); *p; p++) {
         if (*p == '/' || *p == '\\') {
             *p = 0;
 
+            // Parent directories that are already there are kept as they are
             retval = MKDIR(tmp, mode);
-            if (retval < 0) {
-                ERROR_RESULT;
+            if (retval < 0 && !isDirectory(tmp)) {
+                parents = false;
+                break;
             }
 
             *p = '/';
         }
     }
 
-    retval = MKDIR(tmp, mode);
+    if (parents) {
+        retval = MKDIR(tmp, mode);
+    }
+
     if (retval < 0) {
+        int error = errno;
+        FREE_ARRAY(vm, char, tmp, len + 1);
+        errno = error;
         ERROR_RESULT;
     }
 
+    FREE_ARRAY(vm, char, tmp, len + 1);
+
     return newResultSuccess(vm, NIL_VAL);
 }
 
-- 
2.43.0


From 4abb4331715844a6d25c38ddf4d5654c6d8534d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:42 +0000
Subject: [PATCH 09/75] fix: rename() reports why it failed

---
 src/optionals/system.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/optionals/system.c b/src/optionals/system.c
index 574446c..1fe5e8a 100644
--- a/src/optionals/system.c
+++ b/src/optionals/system.c
@@ -523,7 +523,7 @@ static Value renameNative(DictuVM *vm, int argCount, Value *args) {
     char *new = AS_CSTRING(args[1]);
 
     if (rename(old, new) != 0) {
-        return newResultError(vm, "failed to reaneme file");
+        ERROR_RESULT;
     }
 
     return newResultSuccess(vm, NIL_VAL);
-- 
2.43.0


From 75eafa93ae2490209f2838dde92dd39c630b5d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:42 +0000
Subject: [PATCH 10/75] fix: isDir() of a path that cannot be examined is false

---
 src/optionals/path.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/optionals/path.c b/src/optionals/path.c
index b7336f4..5b443cb 100644
--- a/src/optionals/path.c
+++ b/src/optionals/path.c
@@ -146,9 +146,8 @@ static Value isdirNative(DictuVM *vm, int argCount, Value *args) {
 
     char *path = AS_CSTRING(args[0]);
     struct stat path_stat;
-    stat(path, &path_stat);
 
-    if (S_ISDIR(path_stat.st_mode))
+    if (stat(path, &path_stat) == 0 && S_ISDIR(path_stat.st_mode))
         return TRUE_VAL;
 
     return FALSE_VAL;
-- 
2.43.0


From f0c46a7c87fdfea5e5d121182019ecf0c34c332a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:46 +0000
Subject: [PATCH 11/75] fix: listDir() raises an error when the directory
 cannot be read to its end

---
 src/optionals/path.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/optionals/path.c b/src/optionals/path.c
index 5b443cb..9dc0939 100644
--- a/src/optionals/path.c
+++ b/src/optionals/path.c
@@ -210,7 +210,7 @@ static Value listDirNative(DictuVM *vm, int argCount, Value *args) {
     DIR *d;
     d = opendir(path);
     if (d) {
-        while ((dir = readdir(d)) != NULL) {
+        while ((errno = 0, dir = readdir(d)) != NULL) {
             char *inode_name = dir->d_name;
             if (strcmp(inode_name, ".") == 0 || strcmp(inode_name, "..") == 0)
                 continue;
@@ -219,6 +219,14 @@ static Value listDirNative(DictuVM *vm, int argCount, Value *args) {
             writeValueArray(vm, &dir_contents->values, inode_value);
             pop(vm);
         }
+
+        if (errno != 0) {
+            char buf[MAX_ERROR_LEN];
+            getStrerror(buf, errno);
+            closedir(d);
+            runtimeError(vm, "Unable to list %s: %s", path, buf);
+            return EMPTY_VAL;
+        }
     } else {
         runtimeError(vm, "%s is not a path", path);
         return EMPTY_VAL;
-- 
2.43.0


From 11ea2e7fc912395fd53896d8d2ccba08fc2e21d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:17 +0000
Subject: [PATCH 12/75] fix: an unresolvable path is an error of that input
 instead of silently ending the process

---
 src/vm/util.c | 4 ++--
 src/vm/vm.c   | 5 +++++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/vm/util.c b/src/vm/util.c
index d05a80d..fa30f6f 100644
--- a/src/vm/util.c
+++ b/src/vm/util.c
@@ -105,8 +105,8 @@ ObjString *getDirectory(DictuVM *vm, char *source) {
 
     char res[PATH_MAX];
     if (!resolvePath(".", source, res)) {
-        runtimeError(vm, "Unable to resolve path '%s'", source);
-        exit(1);
+        // Without a script file only the working directory matters
+        return *source == '\0' ? copyString(vm, ".", 1) : NULL;
     }
 
     if (vm->repl) {
diff --git a/src/vm/vm.c b/src/vm/vm.c
index afbd88a..e0037de 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -2427,6 +2427,11 @@ DictuInterpretResult dictuInterpret(DictuVM *vm, char *moduleName, char *source)
     module->path = getDirectory(vm, moduleName);
     pop(vm);
 
+    if (module->path == NULL) {
+        fprintf(stderr, "Unable to resolve path '%s'\n", moduleName);
+        return INTERPRET_RUNTIME_ERROR;
+    }
+
     ObjFunction *function = compile(vm, module, source);
     if (function == NULL) return INTERPRET_COMPILE_ERROR;
     push(vm, OBJ_VAL(function));
-- 
2.43.0


From c9f393dd00f17f44afc3ed4ee76dbdd0583f83db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:43 +0000
Subject: [PATCH 13/75] fix: copyFile() copies everything or reports why it
 could not, and never truncates its own source

---
 src/optionals/io.c | 56 ++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 47 insertions(+), 9 deletions(-)

diff --git a/src/optionals/io.c b/src/optionals/io.c
index 1602c7d..0d1aa76 100644
--- a/src/optionals/io.c
+++ b/src/optionals/io.c
@@ -1,6 +1,7 @@
 #include <fcntl.h>
 #ifndef _WIN32
 #include <unistd.h>
+#include <sys/stat.h>
 #endif
 #if defined(__APPLE__) || defined(__FreeBSD__)
 #include <copyfile.h>
@@ -78,6 +79,17 @@ static Value copyFileIO(DictuVM *vm, int argCount, Value *args) {
 #endif
 
 #ifndef _WIN32
+static Value copyFileError(DictuVM *vm, int error, int in, int out) {
+    close(in);
+
+    if (out != -1) {
+        close(out);
+    }
+
+    errno = error;
+    ERROR_RESULT;
+}
+
 static Value copyFileIO(DictuVM *vm, int argCount, Value *args) {
     if (argCount != 2) {
         runtimeError(vm, "copyFile() takes 2 arguments (%d given)", argCount);
@@ -95,24 +107,50 @@ static Value copyFileIO(DictuVM *vm, int argCount, Value *args) {
     int in = 0;
     int out = 0;
 
+    struct stat srcInfo, dstInfo;
+
     if ((in = open(src, O_RDONLY)) == -1) {
-        return newResultError(vm, "failed to open src file");
+        ERROR_RESULT;
+    }
+    if (fstat(in, &srcInfo) == -1) {
+        return copyFileError(vm, errno, in, -1);
     }
-    if ((out = creat(dst, 0660)) == -1) {
+    if (S_ISDIR(srcInfo.st_mode)) {
+        return copyFileError(vm, EISDIR, in, -1);
+    }
+    if ((out = open(dst, O_WRONLY | O_CREAT, 0660)) == -1 || fstat(out, &dstInfo) == -1) {
+        return copyFileError(vm, errno, in, out);
+    }
+    // Only now that it is known not to be src may dst be emptied
+    if (srcInfo.st_dev == dstInfo.st_dev && srcInfo.st_ino == dstInfo.st_ino) {
         close(in);
-        return newResultError(vm, "failed to create/open dst file");
+        close(out);
+        return newResultError(vm, "src and dst are the same file");
+    }
+    if (S_ISREG(dstInfo.st_mode) && ftruncate(out, 0) == -1) {
+        return copyFileError(vm, errno, in, out);
     }
 
 #if defined(__APPLE__) || defined(__FreeBSD__)
-    fcopyfile(in, out, 0, COPYFILE_ALL);
+    if (fcopyfile(in, out, 0, COPYFILE_ALL) == -1) {
+        return copyFileError(vm, errno, in, out);
+    }
 #elif defined(__linux__)
-    off_t bytes = 0;
-    struct stat fileinfo = {0};
-    fstat(in, &fileinfo);
-    sendfile(out, in, &bytes, fileinfo.st_size);
+    // One call may transfer less than what is left
+    ssize_t copied;
+    do {
+        copied = sendfile(out, in, NULL, 0x7ffff000);
+    } while (copied > 0 || (copied == -1 && errno == EINTR));
+
+    if (copied == -1) {
+        return copyFileError(vm, errno, in, out);
+    }
 #endif
     close(in);
-    close(out);
+
+    if (close(out) == -1) {
+        ERROR_RESULT;
+    }
 
     return newResultSuccess(vm, NIL_VAL);
 }
-- 
2.43.0


From 7af5fa445884774dd120fba3b488d09d61fab368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:49 +0000
Subject: [PATCH 14/75] fix: run() reads the output before waiting and commands
 are started and reported truthfully

run(cmd, true) waited for the command before reading its output, so any command
writing more than a pipe holds never finished, and output longer than the buffer
could be written past its end. A command that could not be started returned the
wrong reason or ran the parent's exit handlers in the child (writing buffered
output twice), and death by a signal was reported as success.
---
 src/optionals/process.c | 170 ++++++++++++++++++++++++++++++++--------
 1 file changed, 136 insertions(+), 34 deletions(-)

diff --git a/src/optionals/process.c b/src/optionals/process.c
index ec7de1f..068c753 100644
--- a/src/optionals/process.c
+++ b/src/optionals/process.c
@@ -1,6 +1,10 @@
 #include <signal.h>
 #ifdef _WIN32
 #include "windowsapi.h"
+#else
+#include <errno.h>
+#include <fcntl.h>
+#include <unistd.h>
 #endif
 
 #include "process.h"
@@ -139,83 +143,167 @@ static Value executeReturnOutput(DictuVM* vm, ObjList* argList) {
     return newResultSuccess(vm, OBJ_VAL(takeString(vm, output, total)));
 }
 #else
-static Value execute(DictuVM* vm, ObjList* argList, bool wait) {
-    char** arguments = ALLOCATE(vm, char*, argList->values.count + 1);
+static char **buildArguments(DictuVM* vm, ObjList* argList) {
     for (int i = 0; i < argList->values.count; ++i) {
         if (!IS_STRING(argList->values.values[i])) {
-            return newResultError(vm, "Arguments passed must all be strings");
+            return NULL;
         }
+    }
 
+    char** arguments = ALLOCATE(vm, char*, argList->values.count + 1);
+    for (int i = 0; i < argList->values.count; ++i) {
         arguments[i] = AS_CSTRING(argList->values.values[i]);
     }
 
     arguments[argList->values.count] = NULL;
+    return arguments;
+}
+
+/* Starts a command, optionally with its output going to the given descriptor.
+ * The write end of a pipe which starting the command closes lets the child
+ * report why it could not. Returns -1 with errno set if it did not start. */
+static pid_t startProcess(char** arguments, int output) {
+    int fd[2];
+    if (pipe(fd) != 0) {
+        return -1;
+    }
+    fcntl(fd[1], F_SETFD, FD_CLOEXEC);
+
     pid_t pid = fork();
     if (pid == 0) {
-        execvp(arguments[0], arguments);
-        exit(errno);
+        close(fd[0]);
+
+        if (output == -1 || (dup2(output, 1) != -1 && dup2(output, 2) != -1)) {
+            if (output > 2) {
+                close(output);
+            }
+
+            execvp(arguments[0], arguments);
+        }
+
+        int error = errno;
+        // Not exit(), which would write out what the parent has buffered
+        _exit(write(fd[1], &error, sizeof(error)) == sizeof(error) ? 127 : 126);
     }
 
-    FREE_ARRAY(vm, char*, arguments, argList->values.count + 1);
+    int error = errno;
+    close(fd[1]);
 
-    if (wait) {
-        int status = 0;
-        waitpid(pid, &status, 0);
+    if (pid != -1) {
+        ssize_t numRead;
+        do {
+            numRead = read(fd[0], &error, sizeof(error));
+        } while (numRead == -1 && errno == EINTR);
 
-        if (WIFEXITED(status) && (status = WEXITSTATUS(status)) != 0) {
-            ERROR_RESULT;
+        if (numRead == sizeof(error)) {
+            while (waitpid(pid, NULL, 0) == -1 && errno == EINTR);
+            pid = -1;
         }
     }
 
+    close(fd[0]);
+    errno = error;
+    return pid;
+}
+
+static Value waitForProcess(DictuVM* vm, pid_t pid) {
+    int status = 0;
+    pid_t waited;
+    do {
+        waited = waitpid(pid, &status, 0);
+    } while (waited == -1 && errno == EINTR);
+
+    if (waited == -1) {
+        ERROR_RESULT;
+    }
+
+    char buf[MAX_ERROR_LEN];
+
+    if (WIFSIGNALED(status)) {
+        snprintf(buf, MAX_ERROR_LEN, "Process terminated by signal %d", WTERMSIG(status));
+        return newResultError(vm, buf);
+    }
+
+    if (WIFEXITED(status) && (status = WEXITSTATUS(status)) != 0) {
+        snprintf(buf, MAX_ERROR_LEN, "Process exited with status %d", status);
+        return newResultError(vm, buf);
+    }
+
     return newResultSuccess(vm, NIL_VAL);
 }
 
-static Value executeReturnOutput(DictuVM* vm, ObjList* argList) {
-    char** arguments = ALLOCATE(vm, char*, argList->values.count + 1);
-    for (int i = 0; i < argList->values.count; ++i) {
-        if (!IS_STRING(argList->values.values[i])) {
-            return newResultError(vm, "Arguments passed must all be strings");
-        }
+static Value execute(DictuVM* vm, ObjList* argList, bool wait) {
+    if (argList->values.count == 0) {
+        return newResultError(vm, "No command passed");
+    }
 
-        arguments[i] = AS_CSTRING(argList->values.values[i]);
+    char** arguments = buildArguments(vm, argList);
+    if (arguments == NULL) {
+        return newResultError(vm, "Arguments passed must all be strings");
     }
 
-    arguments[argList->values.count] = NULL;
+    pid_t pid = startProcess(arguments, -1);
+
+    FREE_ARRAY(vm, char*, arguments, argList->values.count + 1);
+
+    if (pid == -1) {
+        ERROR_RESULT;
+    }
+
+    if (wait) {
+        return waitForProcess(vm, pid);
+    }
+
+    return newResultSuccess(vm, NIL_VAL);
+}
+
+static Value executeReturnOutput(DictuVM* vm, ObjList* argList) {
+    if (argList->values.count == 0) {
+        return newResultError(vm, "No command passed");
+    }
+
+    char** arguments = buildArguments(vm, argList);
+    if (arguments == NULL) {
+        return newResultError(vm, "Arguments passed must all be strings");
+    }
 
     int fd[2];
     if (pipe(fd) != 0) {
+        FREE_ARRAY(vm, char*, arguments, argList->values.count + 1);
         ERROR_RESULT;
     }
-    pid_t pid = fork();
-    if (pid == 0) {
-        close(fd[0]);
-        dup2(fd[1], 1);
-        dup2(fd[1], 2);
-        close(fd[1]);
+    fcntl(fd[0], F_SETFD, FD_CLOEXEC);
 
-        execvp(arguments[0], arguments);
-        exit(errno);
-    }
+    pid_t pid = startProcess(arguments, fd[1]);
+    int error = errno;
 
     FREE_ARRAY(vm, char*, arguments, argList->values.count + 1);
 
     close(fd[1]);
 
-    int status = 0;
-    waitpid(pid, &status, 0);
-
-    if (WIFEXITED(status) && (status = WEXITSTATUS(status)) != 0) {
+    if (pid == -1) {
+        close(fd[0]);
+        errno = error;
         ERROR_RESULT;
     }
 
+    // The output is read before waiting, the process could not end while its pipe is full
     int size = 1024;
     char* output = ALLOCATE(vm, char, size);
     char buffer[1024];
     int total = 0;
-    int numRead;
+    ssize_t numRead;
 
     while ((numRead = read(fd[0], buffer, 1024)) != 0) {
-        if (total >= size) {
+        if (numRead == -1) {
+            if (errno == EINTR) {
+                continue;
+            }
+            error = errno;
+            break;
+        }
+
+        if (total + numRead >= size) {
             output = GROW_ARRAY(vm, output, char, size, size * 3);
             size *= 3;
         }
@@ -224,6 +312,20 @@ static Value executeReturnOutput(DictuVM* vm, ObjList* argList) {
         total += numRead;
     }
 
+    close(fd[0]);
+
+    Value result = waitForProcess(vm, pid);
+    if (numRead == -1 || AS_RESULT(result)->status != SUCCESS) {
+        FREE_ARRAY(vm, char, output, size);
+
+        if (numRead == -1) {
+            errno = error;
+            ERROR_RESULT;
+        }
+
+        return result;
+    }
+
     output = SHRINK_ARRAY(vm, output, char, size, total + 1);
     output[total] = '\0';
 
-- 
2.43.0


From 3b52b756ef07b3750dc63e3b32e0414fb9154b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:49 +0000
Subject: [PATCH 15/75] fix: kill() without arguments is an error

---
 src/optionals/process.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/optionals/process.c b/src/optionals/process.c
index 068c753..2ddda94 100644
--- a/src/optionals/process.c
+++ b/src/optionals/process.c
@@ -381,7 +381,7 @@ static Value runProcess(DictuVM* vm, int argCount, Value* args) {
 
 #ifdef _WIN32
 static Value killProcess(DictuVM* vm, int argCount, Value* args) {
-    if (argCount > 2) {
+    if (argCount != 1) {
         runtimeError(vm, "kill() takes 1 argument (%d given)", argCount);
         return EMPTY_VAL;
     }
@@ -403,7 +403,7 @@ static Value killProcess(DictuVM* vm, int argCount, Value* args) {
 }
 #else
 static Value killProcess(DictuVM* vm, int argCount, Value* args) {
-    if (argCount > 2) {
+    if (argCount != 1 && argCount != 2) {
         runtimeError(vm, "kill() takes 1 or 2 arguments (%d given)", argCount);
         return EMPTY_VAL;
     }
-- 
2.43.0


From 994ee76ec1fe83581d6a72a83ecd3398e711565f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:37 +0000
Subject: [PATCH 16/75] fix: writing to a socket whose peer is gone is an error
 result instead of ending the process

---
 src/optionals/socket.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/optionals/socket.c b/src/optionals/socket.c
index d7251d0..74c9d3f 100644
--- a/src/optionals/socket.c
+++ b/src/optionals/socket.c
@@ -17,13 +17,17 @@ unsigned long inet_addr_new(const char* cp) {
 #define inet_addr(cp) inet_addr_new(cp)
 #endif
 
-#define write(fd, buffer, count) _write(fd, buffer, count)
 #define close(fd) closesocket(fd)
 #else
 #include <sys/socket.h>
 #include <arpa/inet.h>
 #endif
 
+// Writing to a connection the peer has closed is an error and must not raise SIGPIPE
+#ifndef MSG_NOSIGNAL
+#define MSG_NOSIGNAL 0
+#endif
+
 typedef struct {
     int socket;
     int socketFamily;    /* Address family, e.g., AF_INET */
@@ -169,7 +173,7 @@ static Value writeSocket(DictuVM *vm, int argCount, Value *args) {
     SocketData *sock = AS_SOCKET(args[0]);
     ObjString *message = AS_STRING(args[1]);
 
-    int writeRet = write(sock->socket , message->chars, message->length);
+    int writeRet = send(sock->socket, message->chars, message->length, MSG_NOSIGNAL);
 
     if (writeRet == -1) {
         ERROR_RESULT;
-- 
2.43.0


From 8e857f0a6955a51d4a343b28e5faba859c82cb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:37 +0000
Subject: [PATCH 17/75] fix: a closed socket never acts on another descriptor
 and an unreachable one is closed

---
 src/optionals/socket.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/optionals/socket.c b/src/optionals/socket.c
index 74c9d3f..fcae971 100644
--- a/src/optionals/socket.c
+++ b/src/optionals/socket.c
@@ -258,7 +258,12 @@ static Value closeSocket(DictuVM *vm, int argCount, Value *args) {
     }
 
     SocketData *sock = AS_SOCKET(args[0]);
-    close(sock->socket);
+
+    if (sock->socket != -1) {
+        close(sock->socket);
+        // The number may be given to another file or socket from now on
+        sock->socket = -1;
+    }
 
     return NIL_VAL;
 }
@@ -286,6 +291,12 @@ static Value setSocketOpt(DictuVM *vm, int argCount, Value *args) {
 }
 
 void freeSocket(DictuVM *vm, ObjAbstract *abstract) {
+    SocketData *sock = (SocketData*)abstract->data;
+
+    if (sock->socket != -1) {
+        close(sock->socket);
+    }
+
     FREE(vm, SocketData, abstract->data);
 }
 
-- 
2.43.0


From a1f19fa2677bc09cd36c1ec0ab6eaca4d3e9ac82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:09 +0000
Subject: [PATCH 18/75] fix: a question mark inside a text or comment of a
 query is not a parameter

---
 src/optionals/sqlite.c | 26 +++++++++-----------------
 1 file changed, 9 insertions(+), 17 deletions(-)

diff --git a/src/optionals/sqlite.c b/src/optionals/sqlite.c
index 265793b..215daeb 100644
--- a/src/optionals/sqlite.c
+++ b/src/optionals/sqlite.c
@@ -14,17 +14,6 @@ typedef struct {
 
 ObjAbstract *newSqlite(DictuVM *vm);
 
-static int countParameters(char *query) {
-    int length = strlen(query);
-    int count = 0;
-
-    for (int i = 0; i < length; ++i) {
-        if (query[i] == '?') count++;
-    }
-
-    return count;
-}
-
 void bindValue(sqlite3_stmt *stmt, int index, Value value) {
     if (IS_NUMBER(value)) {
         sqlite3_bind_double(stmt, index, AS_NUMBER(value));
@@ -61,7 +50,6 @@ static Value execute(DictuVM *vm, int argCount, Value *args) {
 
     char *sql = AS_CSTRING(args[1]);
     ObjList *list = NULL;
-    int parameterCount = countParameters(sql);
     int argumentCount = 0;
 
     if (argCount == 2) {
@@ -74,11 +62,6 @@ static Value execute(DictuVM *vm, int argCount, Value *args) {
         argumentCount = list->values.count;
     }
 
-    if (parameterCount != argumentCount) {
-        runtimeError(vm, "execute() has %d parameters but %d were given", parameterCount, argumentCount);
-        return EMPTY_VAL;
-    }
-
     Result result;
 
     int err = sqlite3_prepare_v2(db->db, sql, -1, &result.stmt, NULL);
@@ -87,6 +70,15 @@ static Value execute(DictuVM *vm, int argCount, Value *args) {
         return newResultError(vm, error);
     }
 
+    // Not every ? in a query is a parameter
+    int parameterCount = sqlite3_bind_parameter_count(result.stmt);
+
+    if (parameterCount != argumentCount) {
+        sqlite3_finalize(result.stmt);
+        runtimeError(vm, "execute() has %d parameters but %d were given", parameterCount, argumentCount);
+        return EMPTY_VAL;
+    }
+
     if (parameterCount != 0 && list != NULL) {
         for (int i = 0; i < parameterCount; ++i) {
             bindValue(result.stmt, i + 1, list->values.values[i]);
-- 
2.43.0


From be3335868208318b3879ab3df18337816a6bc0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:09 +0000
Subject: [PATCH 19/75] fix: query results keep every column and the whole
 text, and are a list however the query starts

---
 src/optionals/sqlite.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/optionals/sqlite.c b/src/optionals/sqlite.c
index 215daeb..e957cde 100644
--- a/src/optionals/sqlite.c
+++ b/src/optionals/sqlite.c
@@ -93,8 +93,8 @@ static Value execute(DictuVM *vm, int argCount, Value *args) {
         err = sqlite3_step(result.stmt);
         if (err != SQLITE_ROW) {
             if (err == SQLITE_DONE) {
-                if (sql[0] == 'S' || sql[0] == 's') {
-                    // If a select statement returns no results SQLITE_ROW is not used.
+                if (sqlite3_column_count(result.stmt) > 0) {
+                    // If a statement returns no results SQLITE_ROW is not used.
                     returnValue = true;
                 }
 
@@ -125,9 +125,11 @@ static Value execute(DictuVM *vm, int argCount, Value *args) {
                     break;
                 }
 
-                case SQLITE_TEXT: {
-                    char *s = (char *)sqlite3_column_text(result.stmt, i);
-                    ObjString *string = copyString(vm, s, strlen(s));
+                case SQLITE_TEXT:
+                case SQLITE_BLOB: {
+                    char *s = (char *)sqlite3_column_blob(result.stmt, i);
+                    int length = sqlite3_column_bytes(result.stmt, i);
+                    ObjString *string = copyString(vm, s == NULL ? "" : s, length);
                     push(vm, OBJ_VAL(string));
                     writeValueArray(vm, &rowList->values, OBJ_VAL(string));
                     pop(vm);
-- 
2.43.0


From 408d362d671fa98ef7c0b2f2891104f89530b789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:10 +0000
Subject: [PATCH 20/75] fix: booleans bound to a query are stored, and values
 which cannot be are an error instead of NULL

---
 src/optionals/sqlite.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/optionals/sqlite.c b/src/optionals/sqlite.c
index e957cde..ef0cb7f 100644
--- a/src/optionals/sqlite.c
+++ b/src/optionals/sqlite.c
@@ -14,21 +14,29 @@ typedef struct {
 
 ObjAbstract *newSqlite(DictuVM *vm);
 
-void bindValue(sqlite3_stmt *stmt, int index, Value value) {
+static bool bindValue(sqlite3_stmt *stmt, int index, Value value) {
     if (IS_NUMBER(value)) {
         sqlite3_bind_double(stmt, index, AS_NUMBER(value));
-        return;
+        return true;
+    }
+
+    if (IS_BOOL(value)) {
+        sqlite3_bind_int(stmt, index, AS_BOOL(value));
+        return true;
     }
 
     if (IS_NIL(value)) {
         sqlite3_bind_null(stmt, index);
-        return;
+        return true;
     }
 
     if (IS_STRING(value)) {
         ObjString *string = AS_STRING(value);
         sqlite3_bind_text(stmt, index, string->chars, string->length, SQLITE_TRANSIENT);
+        return true;
     }
+
+    return false;
 }
 
 static Value execute(DictuVM *vm, int argCount, Value *args) {
@@ -81,7 +89,11 @@ static Value execute(DictuVM *vm, int argCount, Value *args) {
 
     if (parameterCount != 0 && list != NULL) {
         for (int i = 0; i < parameterCount; ++i) {
-            bindValue(result.stmt, i + 1, list->values.values[i]);
+            if (!bindValue(result.stmt, i + 1, list->values.values[i])) {
+                sqlite3_finalize(result.stmt);
+                runtimeError(vm, "execute() parameters must be strings, numbers, booleans or nil");
+                return EMPTY_VAL;
+            }
         }
     }
 
-- 
2.43.0


From 71bdb1824cf20ef06f4d5f343c7e1a0d1dd5855c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:10 +0000
Subject: [PATCH 21/75] fix: the error of a failed connect() is not read from a
 connection that may be freed already

---
 src/optionals/sqlite.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/optionals/sqlite.c b/src/optionals/sqlite.c
index ef0cb7f..c1c4616 100644
--- a/src/optionals/sqlite.c
+++ b/src/optionals/sqlite.c
@@ -203,6 +203,7 @@ static Value connectSqlite(DictuVM *vm, int argCount, Value *args) {
     }
 
     ObjAbstract *abstract = newSqlite(vm);
+    push(vm, OBJ_VAL(abstract));
     Database *db = abstract->data;
     char *name = AS_CSTRING(args[0]);
 
@@ -211,19 +212,23 @@ static Value connectSqlite(DictuVM *vm, int argCount, Value *args) {
     sqlite3_busy_timeout(db->db, (int)timeout);
 
     if (err) {
-        char *error = (char *)sqlite3_errmsg(db->db);
-        return newResultError(vm, error);
+        // The message belongs to the database, which has to outlive its use
+        Value error = newResultError(vm, (char *)sqlite3_errmsg(db->db));
+        pop(vm);
+        return error;
     }
 
     sqlite3_stmt *res;
     err = sqlite3_prepare_v2(db->db, "PRAGMA foreign_keys = ON;", -1, &res, 0);
 
     if (err) {
-        char *error = (char *)sqlite3_errmsg(db->db);
-        return newResultError(vm, error);
+        Value error = newResultError(vm, (char *)sqlite3_errmsg(db->db));
+        pop(vm);
+        return error;
     }
 
     sqlite3_finalize(res);
+    pop(vm);
 
     return newResultSuccess(vm, OBJ_VAL(abstract));
 }
-- 
2.43.0


From 1b27108d51c57c39deaffde4e2f4148a199c6848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:55 +0000
Subject: [PATCH 22/75] fix: a failing HTTP request releases its headers,
 partial response and handle and leaves the stack intact

---
 src/optionals/http/http.c | 83 ++++++++++++++++++++++++---------------
 1 file changed, 52 insertions(+), 31 deletions(-)

diff --git a/src/optionals/http/http.c b/src/optionals/http/http.c
index fe7963e..d4d36fe 100644
--- a/src/optionals/http/http.c
+++ b/src/optionals/http/http.c
@@ -337,7 +337,7 @@ static char *dictToPostArgs(ObjDict *dict) {
     return ret;
 }
 
-static bool setRequestHeaders(DictuVM *vm, struct curl_slist *list, CURL *curl, ObjList *headers) {
+static bool setRequestHeaders(DictuVM *vm, struct curl_slist **list, CURL *curl, ObjList *headers) {
     if (headers->values.count == 0) {
         return true;
     }
@@ -348,14 +348,29 @@ static bool setRequestHeaders(DictuVM *vm, struct curl_slist *list, CURL *curl,
             return false;
         }
 
-        list = curl_slist_append(list, AS_CSTRING(headers->values.values[i]));
+        struct curl_slist *longer = curl_slist_append(*list, AS_CSTRING(headers->values.values[i]));
+        if (longer == NULL) {
+            runtimeError(vm, "Unable to allocate the headers list");
+            return false;
+        }
+
+        *list = longer;
     }
 
-    curl_easy_setopt(curl, CURLOPT_HTTPHEADER, list);
+    curl_easy_setopt(curl, CURLOPT_HTTPHEADER, *list);
 
     return true;
 }
 
+static void discardResponse(DictuVM *vm, Response *response) {
+    if (response->res != NULL) {
+        FREE_ARRAY(vm, char, response->res, response->len + 1);
+    }
+
+    // Pop headers from createResponse
+    pop(vm);
+}
+
 static ObjInstance *endRequest(DictuVM *vm, CURL *curl, Response response, bool cleanup) {
     // Get status code
     curl_easy_getinfo(curl, CURLINFO_RESPONSE_CODE, &response.statusCode);
@@ -411,7 +426,7 @@ static ObjInstance *endRequest(DictuVM *vm, CURL *curl, Response response, bool
 }
 
 static Value get(DictuVM *vm, int argCount, Value *args) {
-    if (argCount < 0 || argCount > 3) {
+    if (argCount < 1 || argCount > 3) {
         runtimeError(vm, "get() takes between 1 and 3 arguments (%d given).", argCount);
         return EMPTY_VAL;
     }
@@ -457,8 +472,11 @@ static Value get(DictuVM *vm, int argCount, Value *args) {
         struct curl_slist *list = NULL;
 
         if (headers) {
-            if (!setRequestHeaders(vm, list, curl, headers)) {
+            if (!setRequestHeaders(vm, &list, curl, headers)) {
                 curl_slist_free_all(list);
+                curl_easy_cleanup(curl);
+                curl_global_cleanup();
+                discardResponse(vm, &response);
                 return EMPTY_VAL;
             }
         }
@@ -484,7 +502,7 @@ static Value get(DictuVM *vm, int argCount, Value *args) {
             /* always cleanup */
             curl_easy_cleanup(curl);
             curl_global_cleanup();
-            pop(vm);
+            discardResponse(vm, &response);
 
             char *errorString = (char *) curl_easy_strerror(curlResponse);
             return newResultError(vm, errorString);
@@ -494,9 +512,7 @@ static Value get(DictuVM *vm, int argCount, Value *args) {
     }
 
     /* always cleanup */
-    curl_easy_cleanup(curl);
     curl_global_cleanup();
-    pop(vm);
 
     char *errorString = (char *) curl_easy_strerror(CURLE_FAILED_INIT);
     return newResultError(vm, errorString);
@@ -564,8 +580,11 @@ static Value post(DictuVM *vm, int argCount, Value *args) {
         struct curl_slist *list = NULL;
 
         if (headers) {
-            if (!setRequestHeaders(vm, list, curl, headers)) {
+            if (!setRequestHeaders(vm, &list, curl, headers)) {
                 curl_slist_free_all(list);
+                curl_easy_cleanup(curl);
+                curl_global_cleanup();
+                discardResponse(vm, &response);
                 return EMPTY_VAL;
             }
         }
@@ -601,7 +620,7 @@ static Value post(DictuVM *vm, int argCount, Value *args) {
             /* always cleanup */
             curl_easy_cleanup(curl);
             curl_global_cleanup();
-            pop(vm);
+            discardResponse(vm, &response);
 
             char *errorString = (char *) curl_easy_strerror(curlResponse);
             return newResultError(vm, errorString);
@@ -611,9 +630,7 @@ static Value post(DictuVM *vm, int argCount, Value *args) {
     }
 
     /* always cleanup */
-    curl_easy_cleanup(curl);
     curl_global_cleanup();
-    pop(vm);
 
     char *errorString = (char *) curl_easy_strerror(CURLE_FAILED_INIT);
     return newResultError(vm, errorString);
@@ -681,8 +698,11 @@ static Value put(DictuVM *vm, int argCount, Value *args) {
         struct curl_slist *list = NULL;
 
         if (headers) {
-            if (!setRequestHeaders(vm, list, curl, headers)) {
+            if (!setRequestHeaders(vm, &list, curl, headers)) {
                 curl_slist_free_all(list);
+                curl_easy_cleanup(curl);
+                curl_global_cleanup();
+                discardResponse(vm, &response);
                 return EMPTY_VAL;
             }
         }
@@ -719,7 +739,7 @@ static Value put(DictuVM *vm, int argCount, Value *args) {
             /* always cleanup */
             curl_easy_cleanup(curl);
             curl_global_cleanup();
-            pop(vm);
+            discardResponse(vm, &response);
 
             char *errorString = (char *) curl_easy_strerror(curlResponse);
             return newResultError(vm, errorString);
@@ -729,16 +749,14 @@ static Value put(DictuVM *vm, int argCount, Value *args) {
     }
 
     /* always cleanup */
-    curl_easy_cleanup(curl);
     curl_global_cleanup();
-    pop(vm);
 
     char *errorString = (char *) curl_easy_strerror(CURLE_FAILED_INIT);
     return newResultError(vm, errorString);
 }
 
 static Value head(DictuVM *vm, int argCount, Value *args) {
-    if (argCount < 0 || argCount > 3) {
+    if (argCount < 1 || argCount > 3) {
         runtimeError(vm, "head() takes between 1 and 3 arguments (%d given).", argCount);
         return EMPTY_VAL;
     }
@@ -784,8 +802,11 @@ static Value head(DictuVM *vm, int argCount, Value *args) {
         struct curl_slist *list = NULL;
 
         if (headers) {
-            if (!setRequestHeaders(vm, list, curl, headers)) {
+            if (!setRequestHeaders(vm, &list, curl, headers)) {
                 curl_slist_free_all(list);
+                curl_easy_cleanup(curl);
+                curl_global_cleanup();
+                discardResponse(vm, &response);
                 return EMPTY_VAL;
             }
         }
@@ -810,7 +831,7 @@ static Value head(DictuVM *vm, int argCount, Value *args) {
             /* always cleanup */
             curl_easy_cleanup(curl);
             curl_global_cleanup();
-            pop(vm);
+            discardResponse(vm, &response);
 
             char *errorString = (char *) curl_easy_strerror(curlResponse);
             return newResultError(vm, errorString);
@@ -820,16 +841,14 @@ static Value head(DictuVM *vm, int argCount, Value *args) {
     }
 
     /* always cleanup */
-    curl_easy_cleanup(curl);
     curl_global_cleanup();
-    pop(vm);
 
     char *errorString = (char *) curl_easy_strerror(CURLE_FAILED_INIT);
     return newResultError(vm, errorString);
 }
 
 static Value options(DictuVM *vm, int argCount, Value *args) {
-    if (argCount < 0 || argCount > 3) {
+    if (argCount < 1 || argCount > 3) {
         runtimeError(vm, "options() takes between 1 and 3 arguments (%d given).", argCount);
         return EMPTY_VAL;
     }
@@ -875,8 +894,11 @@ static Value options(DictuVM *vm, int argCount, Value *args) {
         struct curl_slist *list = NULL;
 
         if (headers) {
-            if (!setRequestHeaders(vm, list, curl, headers)) {
+            if (!setRequestHeaders(vm, &list, curl, headers)) {
                 curl_slist_free_all(list);
+                curl_easy_cleanup(curl);
+                curl_global_cleanup();
+                discardResponse(vm, &response);
                 return EMPTY_VAL;
             }
         }
@@ -903,7 +925,7 @@ static Value options(DictuVM *vm, int argCount, Value *args) {
             /* always cleanup */
             curl_easy_cleanup(curl);
             curl_global_cleanup();
-            pop(vm);
+            discardResponse(vm, &response);
 
             char *errorString = (char *) curl_easy_strerror(curlResponse);
             return newResultError(vm, errorString);
@@ -913,9 +935,7 @@ static Value options(DictuVM *vm, int argCount, Value *args) {
     }
 
     /* always cleanup */
-    curl_easy_cleanup(curl);
     curl_global_cleanup();
-    pop(vm);
 
     char *errorString = (char *) curl_easy_strerror(CURLE_FAILED_INIT);
     return newResultError(vm, errorString);
@@ -1125,7 +1145,7 @@ static Value httpClientGet(DictuVM *vm, int argCount, Value *args) {
         curlResponse = curl_easy_perform(httpClient->curl);
 
         if (curlResponse != CURLE_OK) {
-            pop(vm);
+            discardResponse(vm, &response);
 
             char *errorString = (char *)curl_easy_strerror(curlResponse);
             return newResultError(vm, errorString);
@@ -1195,7 +1215,7 @@ static Value httpClientPost(DictuVM *vm, int argCount, Value *args) {
         }
 
         if (curlResponse != CURLE_OK) {
-            pop(vm);
+            discardResponse(vm, &response);
 
             char *errorString = (char *)curl_easy_strerror(curlResponse);
             return newResultError(vm, errorString);
@@ -1266,7 +1286,7 @@ static Value httpClientPut(DictuVM *vm, int argCount, Value *args) {
         }
 
         if (curlResponse != CURLE_OK) {
-            pop(vm);
+            discardResponse(vm, &response);
 
             char *errorString = (char *)curl_easy_strerror(curlResponse);
             return newResultError(vm, errorString);
@@ -1309,7 +1329,7 @@ static Value httpClientHead(DictuVM *vm, int argCount, Value *args) {
         curlResponse = curl_easy_perform(httpClient->curl);
 
         if (curlResponse != CURLE_OK) {
-            pop(vm);
+            discardResponse(vm, &response);
 
             char *errorString = (char *)curl_easy_strerror(curlResponse);
             return newResultError(vm, errorString);
@@ -1369,8 +1389,9 @@ static Value httpClientOptions(DictuVM *vm, int argCount, Value *args) {
         struct curl_slist *list = NULL;
 
         if (headers) {
-            if (!setRequestHeaders(vm, list, httpClient->curl, headers)) {
+            if (!setRequestHeaders(vm, &list, httpClient->curl, headers)) {
                 curl_slist_free_all(list);
+                discardResponse(vm, &response);
                 return EMPTY_VAL;
             }
         }
-- 
2.43.0


From 9c78ead9b552a3544ac1f58608745e1b94ff064e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:55 +0000
Subject: [PATCH 23/75] fix: header lines of a response lose their terminator
 and nothing else

---
 src/optionals/http/http.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/optionals/http/http.c b/src/optionals/http/http.c
index d4d36fe..6349dac 100644
--- a/src/optionals/http/http.c
+++ b/src/optionals/http/http.c
@@ -266,9 +266,13 @@ static size_t writeResponse(char *ptr, size_t size, size_t nmemb, void *data) {
 
 static size_t writeHeaders(char *ptr, size_t size, size_t nitems, void *data) {
     Response *response = (Response *) data;
-    // if nitems equals 2 its an empty header
-    if (nitems != 2) {
-        Value header = OBJ_VAL(copyString(response->vm, ptr, (nitems - 2) * size));
+    size_t length = size * nitems;
+    // The line terminator is not part of the header
+    if (length > 0 && ptr[length - 1] == '\n') length--;
+    if (length > 0 && ptr[length - 1] == '\r') length--;
+
+    if (length != 0) {
+        Value header = OBJ_VAL(copyString(response->vm, ptr, length));
         // Push to stack to avoid GC
         push(response->vm, header);
         writeValueArray(response->vm, &response->headers->values, header);
-- 
2.43.0


From 502c25a30652bbd06a3b9904c3b7223ccc44b1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:55 +0000
Subject: [PATCH 24/75] fix: form data of a request never overruns its buffer

---
 src/optionals/http/http.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/optionals/http/http.c b/src/optionals/http/http.c
index 6349dac..0d2d9ee 100644
--- a/src/optionals/http/http.c
+++ b/src/optionals/http/http.c
@@ -309,8 +309,9 @@ static char *dictToPostArgs(ObjDict *dict) {
         int keyLen = strlen(key);
         int valLen = strlen(value);
 
-        if (currentLen + keyLen + valLen > len) {
-            len = len * 2 + keyLen + valLen;
+        // Room for "=", "&" and the terminator as well
+        if (currentLen + keyLen + valLen + 3 > len) {
+            len = len * 2 + keyLen + valLen + 3;
             ret = realloc(ret, len);
 
             if (ret == NULL) {
-- 
2.43.0


From 0aec17995b4a3a1489d79fd344048635948581ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:45 +0000
Subject: [PATCH 25/75] fix: a request body containing NUL characters is sent
 whole

---
 src/optionals/http/http.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/optionals/http/http.c b/src/optionals/http/http.c
index 0d2d9ee..46076d1 100644
--- a/src/optionals/http/http.c
+++ b/src/optionals/http/http.c
@@ -581,6 +581,7 @@ static Value post(DictuVM *vm, int argCount, Value *args) {
         createResponse(vm, &response);
         char *url = AS_CSTRING(args[0]);
         char *postValue = "";
+        long postLength = -1;
 
         struct curl_slist *list = NULL;
 
@@ -598,12 +599,14 @@ static Value post(DictuVM *vm, int argCount, Value *args) {
             postValue = dictToPostArgs(postValuesDict);
         } else if (postValueString != NULL) {
             postValue = postValueString->chars;
+            postLength = postValueString->length;
         }
 
         curl_easy_setopt(curl, CURLOPT_URL, url);
         curl_easy_setopt(curl, CURLOPT_TIMEOUT, timeout);
         curl_easy_setopt(curl, CURLOPT_ACCEPT_ENCODING, "gzip");
         curl_easy_setopt(curl, CURLOPT_POSTFIELDS, postValue);
+        curl_easy_setopt(curl, CURLOPT_POSTFIELDSIZE, postLength);
         curl_easy_setopt(curl, CURLOPT_WRITEFUNCTION, writeResponse);
         curl_easy_setopt(curl, CURLOPT_WRITEDATA, &response);
         curl_easy_setopt(curl, CURLOPT_HEADERFUNCTION, writeHeaders);
@@ -699,6 +702,7 @@ static Value put(DictuVM *vm, int argCount, Value *args) {
         createResponse(vm, &response);
         char *url = AS_CSTRING(args[0]);
         char *putValue = "";
+        long putLength = -1;
 
         struct curl_slist *list = NULL;
 
@@ -716,12 +720,14 @@ static Value put(DictuVM *vm, int argCount, Value *args) {
             putValue = dictToPostArgs(putValuesDict);
         } else if (putValueString != NULL) {
             putValue = putValueString->chars;
+            putLength = putValueString->length;
         }
 
         curl_easy_setopt(curl, CURLOPT_URL, url);
         curl_easy_setopt(curl, CURLOPT_TIMEOUT, timeout);
         curl_easy_setopt(curl, CURLOPT_ACCEPT_ENCODING, "gzip");
         curl_easy_setopt(curl, CURLOPT_POSTFIELDS, putValue);
+        curl_easy_setopt(curl, CURLOPT_POSTFIELDSIZE, putLength);
         curl_easy_setopt(curl, CURLOPT_CUSTOMREQUEST, "PUT");
         curl_easy_setopt(curl, CURLOPT_WRITEFUNCTION, writeResponse);
         curl_easy_setopt(curl, CURLOPT_WRITEDATA, &response);
@@ -1199,16 +1205,19 @@ static Value httpClientPost(DictuVM *vm, int argCount, Value *args) {
         createResponse(vm, &response);
         char *url = AS_CSTRING(args[1]);
         char *postValue = "";
+        long postLength = -1;
 
         if (postValuesDict != NULL) {
             postValue = dictToPostArgs(postValuesDict);
         } else if (postValueString != NULL) {
             postValue = postValueString->chars;
+            postLength = postValueString->length;
         }
 
         curl_easy_setopt(httpClient->curl, CURLOPT_URL, url);
         curl_easy_setopt(httpClient->curl, CURLOPT_ACCEPT_ENCODING, "gzip");
         curl_easy_setopt(httpClient->curl, CURLOPT_POSTFIELDS, postValue);
+        curl_easy_setopt(httpClient->curl, CURLOPT_POSTFIELDSIZE, postLength);
         curl_easy_setopt(httpClient->curl, CURLOPT_WRITEFUNCTION, writeResponse);
         curl_easy_setopt(httpClient->curl, CURLOPT_WRITEDATA, &response);
         curl_easy_setopt(httpClient->curl, CURLOPT_HEADERDATA, &response);
@@ -1269,16 +1278,19 @@ static Value httpClientPut(DictuVM *vm, int argCount, Value *args) {
         createResponse(vm, &response);
         char *url = AS_CSTRING(args[1]);
         char *putValue = "";
+        long putLength = -1;
 
         if (putValuesDict != NULL) {
             putValue = dictToPostArgs(putValuesDict);
         } else if (putValueString != NULL) {
             putValue = putValueString->chars;
+            putLength = putValueString->length;
         }
 
         curl_easy_setopt(httpClient->curl, CURLOPT_URL, url);
         curl_easy_setopt(httpClient->curl, CURLOPT_ACCEPT_ENCODING, "gzip");
         curl_easy_setopt(httpClient->curl, CURLOPT_POSTFIELDS, putValue);
+        curl_easy_setopt(httpClient->curl, CURLOPT_POSTFIELDSIZE, putLength);
         curl_easy_setopt(httpClient->curl, CURLOPT_CUSTOMREQUEST, "PUT");
         curl_easy_setopt(httpClient->curl, CURLOPT_WRITEFUNCTION, writeResponse);
         curl_easy_setopt(httpClient->curl, CURLOPT_WRITEDATA, &response);
-- 
2.43.0


From 1a2dd6346bd3e75a6db441f6b24cd6961c4a81dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:56 +0000
Subject: [PATCH 26/75] fix: an HTTP client can be reused after any request and
 keeps its own headers

---
 src/optionals/http/http.c | 163 ++++++++++++++++++--------------------
 1 file changed, 78 insertions(+), 85 deletions(-)

diff --git a/src/optionals/http/http.c b/src/optionals/http/http.c
index 46076d1..0832808 100644
--- a/src/optionals/http/http.c
+++ b/src/optionals/http/http.c
@@ -954,16 +954,17 @@ static Value options(DictuVM *vm, int argCount, Value *args) {
 
 typedef struct {
     CURL *curl;
+    struct curl_slist *headers;
+    long timeout;
 } HttpClient;
 
 #define AS_HTTP_CLIENT(v) ((HttpClient*)AS_ABSTRACT(v)->data)
 
-struct curl_slist *headerChunk = NULL;
-
 void freeHttpClient(DictuVM *vm, ObjAbstract *abstract) {
     HttpClient *httpClient = (HttpClient*)abstract->data;
     
     curl_easy_cleanup(httpClient->curl);
+    curl_slist_free_all(httpClient->headers);
     curl_global_cleanup();
 
     FREE(vm, HttpClient, abstract->data);
@@ -977,6 +978,34 @@ char *httpClientToString(ObjAbstract *abstract) {
     return httpClientString;
 }
 
+// The handle is reused, so everything a previous request was specific about has to be undone
+static void startClientRequest(HttpClient *httpClient, char *url, Response *response) {
+    curl_easy_setopt(httpClient->curl, CURLOPT_HTTPGET, 1L);
+    curl_easy_setopt(httpClient->curl, CURLOPT_CUSTOMREQUEST, NULL);
+    curl_easy_setopt(httpClient->curl, CURLOPT_REQUEST_TARGET, NULL);
+    curl_easy_setopt(httpClient->curl, CURLOPT_URL, url);
+    curl_easy_setopt(httpClient->curl, CURLOPT_ACCEPT_ENCODING, "gzip");
+    curl_easy_setopt(httpClient->curl, CURLOPT_WRITEFUNCTION, writeResponse);
+    curl_easy_setopt(httpClient->curl, CURLOPT_WRITEDATA, response);
+    curl_easy_setopt(httpClient->curl, CURLOPT_HEADERDATA, response);
+}
+
+// Headers belong to the client they were given to
+static bool setClientHeaders(DictuVM *vm, HttpClient *httpClient, ObjList *headers) {
+    struct curl_slist *list = NULL;
+
+    if (!setRequestHeaders(vm, &list, httpClient->curl, headers)) {
+        curl_slist_free_all(list);
+        return false;
+    }
+
+    curl_easy_setopt(httpClient->curl, CURLOPT_HTTPHEADER, list);
+    curl_slist_free_all(httpClient->headers);
+    httpClient->headers = list;
+
+    return true;
+}
+
 static Value httpClientSetTimeout(DictuVM *vm, int argCount, Value *args) {
     if (argCount != 1) {
         runtimeError(vm, "setTimeout() takes 1 argument (%d given).", argCount);
@@ -990,7 +1019,8 @@ static Value httpClientSetTimeout(DictuVM *vm, int argCount, Value *args) {
 
     HttpClient *httpClient = AS_HTTP_CLIENT(args[0]);
 
-    curl_easy_setopt(httpClient->curl, CURLOPT_TIMEOUT, (long)AS_NUMBER(args[1]));
+    httpClient->timeout = (long)AS_NUMBER(args[1]);
+    curl_easy_setopt(httpClient->curl, CURLOPT_TIMEOUT, httpClient->timeout);
 
     return NIL_VAL;
 }
@@ -1060,15 +1090,9 @@ static Value httpClientSetHeaders(DictuVM *vm, int argCount, Value *args) {
 
     HttpClient *httpClient = AS_HTTP_CLIENT(args[0]);
 
-    ObjList *headers = AS_LIST(args[1]);
-
-    headerChunk = NULL;
-
-    for (int h = 0; h < headers->values.count; h++) {
-        headerChunk = curl_slist_append(headerChunk, AS_CSTRING(headers->values.values[h]));
+    if (!setClientHeaders(vm, httpClient, AS_LIST(args[1]))) {
+        return EMPTY_VAL;
     }
-    
-    curl_easy_setopt(httpClient->curl, CURLOPT_HTTPHEADER, headerChunk);
 
     return NIL_VAL;
 }
@@ -1147,11 +1171,7 @@ static Value httpClientGet(DictuVM *vm, int argCount, Value *args) {
         createResponse(vm, &response);
         char *url = AS_CSTRING(args[1]);
 
-        curl_easy_setopt(httpClient->curl, CURLOPT_URL, url);
-        curl_easy_setopt(httpClient->curl, CURLOPT_ACCEPT_ENCODING, "gzip");
-        curl_easy_setopt(httpClient->curl, CURLOPT_WRITEFUNCTION, writeResponse);
-        curl_easy_setopt(httpClient->curl, CURLOPT_WRITEDATA, &response);
-        curl_easy_setopt(httpClient->curl, CURLOPT_HEADERDATA, &response);
+        startClientRequest(httpClient, url, &response);
 
         curlResponse = curl_easy_perform(httpClient->curl);
 
@@ -1214,13 +1234,9 @@ static Value httpClientPost(DictuVM *vm, int argCount, Value *args) {
             postLength = postValueString->length;
         }
 
-        curl_easy_setopt(httpClient->curl, CURLOPT_URL, url);
-        curl_easy_setopt(httpClient->curl, CURLOPT_ACCEPT_ENCODING, "gzip");
+        startClientRequest(httpClient, url, &response);
         curl_easy_setopt(httpClient->curl, CURLOPT_POSTFIELDS, postValue);
         curl_easy_setopt(httpClient->curl, CURLOPT_POSTFIELDSIZE, postLength);
-        curl_easy_setopt(httpClient->curl, CURLOPT_WRITEFUNCTION, writeResponse);
-        curl_easy_setopt(httpClient->curl, CURLOPT_WRITEDATA, &response);
-        curl_easy_setopt(httpClient->curl, CURLOPT_HEADERDATA, &response);
 
         curlResponse = curl_easy_perform(httpClient->curl);
 
@@ -1287,14 +1303,10 @@ static Value httpClientPut(DictuVM *vm, int argCount, Value *args) {
             putLength = putValueString->length;
         }
 
-        curl_easy_setopt(httpClient->curl, CURLOPT_URL, url);
-        curl_easy_setopt(httpClient->curl, CURLOPT_ACCEPT_ENCODING, "gzip");
+        startClientRequest(httpClient, url, &response);
         curl_easy_setopt(httpClient->curl, CURLOPT_POSTFIELDS, putValue);
         curl_easy_setopt(httpClient->curl, CURLOPT_POSTFIELDSIZE, putLength);
         curl_easy_setopt(httpClient->curl, CURLOPT_CUSTOMREQUEST, "PUT");
-        curl_easy_setopt(httpClient->curl, CURLOPT_WRITEFUNCTION, writeResponse);
-        curl_easy_setopt(httpClient->curl, CURLOPT_WRITEDATA, &response);
-        curl_easy_setopt(httpClient->curl, CURLOPT_HEADERDATA, &response);
 
         curlResponse = curl_easy_perform(httpClient->curl);
 
@@ -1338,10 +1350,8 @@ static Value httpClientHead(DictuVM *vm, int argCount, Value *args) {
         createResponse(vm, &response);
         char *url = AS_CSTRING(args[1]);
 
-        curl_easy_setopt(httpClient->curl, CURLOPT_URL, url);
+        startClientRequest(httpClient, url, &response);
         curl_easy_setopt(httpClient->curl, CURLOPT_NOBODY, 1L);
-        curl_easy_setopt(httpClient->curl, CURLOPT_ACCEPT_ENCODING, "gzip");
-        curl_easy_setopt(httpClient->curl, CURLOPT_HEADERDATA, &response);
 
         curlResponse = curl_easy_perform(httpClient->curl);
 
@@ -1362,17 +1372,17 @@ static Value httpClientHead(DictuVM *vm, int argCount, Value *args) {
 }
 
 static Value httpClientOptions(DictuVM *vm, int argCount, Value *args) {
-    if (argCount < 0 || argCount > 3) {
+    if (argCount < 1 || argCount > 3) {
         runtimeError(vm, "options() takes between 1 and 3 arguments (%d given).", argCount);
         return EMPTY_VAL;
     }
 
-    long timeout = DEFAULT_REQUEST_TIMEOUT;
     ObjList *headers = NULL;
 
     HttpClient *httpClient = AS_HTTP_CLIENT(args[0]);
+    long timeout = httpClient->timeout;
 
-    if (argCount == 4) {
+    if (argCount == 3) {
         if (!IS_NUMBER(args[3])) {
             runtimeError(vm, "Timeout passed to options() must be a number.");
             return EMPTY_VAL;
@@ -1382,7 +1392,7 @@ static Value httpClientOptions(DictuVM *vm, int argCount, Value *args) {
         argCount--;
     }
 
-    if (argCount == 3) {
+    if (argCount == 2) {
         if (!IS_LIST(args[2])) {
             runtimeError(vm, "Headers passed to options() must be a list.");
             return EMPTY_VAL;
@@ -1398,59 +1408,43 @@ static Value httpClientOptions(DictuVM *vm, int argCount, Value *args) {
 
     CURLcode curlResponse;
 
-    if (httpClient) {
-        Response response;
-        createResponse(vm, &response);
-        char *url = AS_CSTRING(args[1]);
+    Response response;
+    createResponse(vm, &response);
+    char *url = AS_CSTRING(args[1]);
 
-        struct curl_slist *list = NULL;
+    struct curl_slist *list = NULL;
 
-        if (headers) {
-            if (!setRequestHeaders(vm, &list, httpClient->curl, headers)) {
-                curl_slist_free_all(list);
-                discardResponse(vm, &response);
-                return EMPTY_VAL;
-            }
+    if (headers) {
+        if (!setRequestHeaders(vm, &list, httpClient->curl, headers)) {
+            curl_slist_free_all(list);
+            discardResponse(vm, &response);
+            return EMPTY_VAL;
         }
+    }
 
-        curl_easy_setopt(httpClient->curl, CURLOPT_URL, url);
-        curl_easy_setopt(httpClient->curl, CURLOPT_NOBODY, 1L);
-        curl_easy_setopt(httpClient->curl, CURLOPT_TIMEOUT, timeout);
-        curl_easy_setopt(httpClient->curl, CURLOPT_CUSTOMREQUEST, "OPTIONS");
-        curl_easy_setopt(httpClient->curl, CURLOPT_REQUEST_TARGET, "*");
-        curl_easy_setopt(httpClient->curl, CURLOPT_ACCEPT_ENCODING, "gzip");
-        curl_easy_setopt(httpClient->curl, CURLOPT_HEADERFUNCTION, writeHeaders);
-        curl_easy_setopt(httpClient->curl, CURLOPT_HEADERDATA, &response);
-        curl_easy_setopt(httpClient->curl, CURLOPT_FOLLOWLOCATION, 1L);
+    startClientRequest(httpClient, url, &response);
+    curl_easy_setopt(httpClient->curl, CURLOPT_NOBODY, 1L);
+    curl_easy_setopt(httpClient->curl, CURLOPT_TIMEOUT, timeout);
+    curl_easy_setopt(httpClient->curl, CURLOPT_CUSTOMREQUEST, "OPTIONS");
+    curl_easy_setopt(httpClient->curl, CURLOPT_REQUEST_TARGET, "*");
 
-        /* Perform the request, res will get the return code */
-        curlResponse = curl_easy_perform(httpClient->curl);
+    /* Perform the request, res will get the return code */
+    curlResponse = curl_easy_perform(httpClient->curl);
 
-        if (headers) {
-            curl_slist_free_all(list);
-        }
+    // The headers and timeout of this request are not those of the client
+    curl_easy_setopt(httpClient->curl, CURLOPT_TIMEOUT, httpClient->timeout);
+    curl_easy_setopt(httpClient->curl, CURLOPT_HTTPHEADER, httpClient->headers);
+    curl_slist_free_all(list);
 
-        /* Check for errors */
-        if (curlResponse != CURLE_OK) {
-            /* always cleanup */
-            curl_easy_cleanup(httpClient->curl);
-            curl_global_cleanup();
-            pop(vm);
+    /* Check for errors */
+    if (curlResponse != CURLE_OK) {
+        discardResponse(vm, &response);
 
-            char *errorString = (char *) curl_easy_strerror(curlResponse);
-            return newResultError(vm, errorString);
-        }
-
-        return newResultSuccess(vm, OBJ_VAL(endRequest(vm, httpClient->curl, response, true)));
+        char *errorString = (char *) curl_easy_strerror(curlResponse);
+        return newResultError(vm, errorString);
     }
 
-    /* always cleanup */
-    curl_easy_cleanup(httpClient->curl);
-    curl_global_cleanup();
-    pop(vm);
-
-    char *errorString = (char *) curl_easy_strerror(CURLE_FAILED_INIT);
-    return newResultError(vm, errorString);
+    return newResultSuccess(vm, OBJ_VAL(endRequest(vm, httpClient->curl, response, false)));
 }
 
 Value newHttpClient(DictuVM *vm, ObjDict *opts) {
@@ -1458,7 +1452,11 @@ Value newHttpClient(DictuVM *vm, ObjDict *opts) {
     push(vm, OBJ_VAL(abstract));
 
     HttpClient *httpClient = ALLOCATE(vm, HttpClient, 1);
+    httpClient->headers = NULL;
+    httpClient->timeout = 0;
+    curl_global_init(CURL_GLOBAL_DEFAULT);
     httpClient->curl = curl_easy_init();
+    abstract->data = httpClient;
     
     curl_easy_setopt(httpClient->curl, CURLOPT_HEADERFUNCTION, writeHeaders);
     curl_easy_setopt(httpClient->curl, CURLOPT_FOLLOWLOCATION, 1L);
@@ -1489,7 +1487,8 @@ Value newHttpClient(DictuVM *vm, ObjDict *opts) {
                     return EMPTY_VAL;
                 }
 
-                curl_easy_setopt(httpClient->curl, CURLOPT_TIMEOUT, (long)AS_NUMBER(entry->value));
+                httpClient->timeout = (long)AS_NUMBER(entry->value);
+                curl_easy_setopt(httpClient->curl, CURLOPT_TIMEOUT, httpClient->timeout);
             } else if (strstr(key, "headers")) {
                 if (IS_EMPTY(entry->value)) {
                     continue;
@@ -1500,13 +1499,9 @@ Value newHttpClient(DictuVM *vm, ObjDict *opts) {
                     return EMPTY_VAL;
                 }
 
-                ObjList *headers = AS_LIST(entry->value);
-
-                for (int h = 0; h < headers->values.count; h++) {
-                    headerChunk = curl_slist_append(headerChunk, AS_CSTRING(headers->values.values[h]));
+                if (!setClientHeaders(vm, httpClient, AS_LIST(entry->value))) {
+                    return EMPTY_VAL;
                 }
-                
-                curl_easy_setopt(httpClient->curl, CURLOPT_HTTPHEADER, headerChunk);
             } else if (strstr(key, "insecure")) {
                 if (IS_EMPTY(entry->value)) {
                     continue;
@@ -1587,8 +1582,6 @@ Value newHttpClient(DictuVM *vm, ObjDict *opts) {
         }
     }
 
-    abstract->data = httpClient;
-
     /**
      * Setup HTTP object methods
      */
-- 
2.43.0


From a9230b3c9cdc804e80356a96106e9521be7ef3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:31 +0000
Subject: [PATCH 27/75] fix: a client's certificate and key password are not
 taken for its key file; newClient() needs its options

---
 src/optionals/http/http.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/optionals/http/http.c b/src/optionals/http/http.c
index 0832808..d6179af 100644
--- a/src/optionals/http/http.c
+++ b/src/optionals/http/http.c
@@ -1128,7 +1128,7 @@ static Value httpClientSetCertFile(DictuVM *vm, int argCount, Value *args) {
 
     HttpClient *httpClient = AS_HTTP_CLIENT(args[0]);
 
-    curl_easy_setopt(httpClient->curl, CURLOPT_SSLKEY, AS_CSTRING(args[1]));
+    curl_easy_setopt(httpClient->curl, CURLOPT_SSLCERT, AS_CSTRING(args[1]));
 
     return NIL_VAL;
 }
@@ -1146,7 +1146,7 @@ static Value httpClientSetKeyPass(DictuVM *vm, int argCount, Value *args) {
 
     HttpClient *httpClient = AS_HTTP_CLIENT(args[0]);
 
-    curl_easy_setopt(httpClient->curl, CURLOPT_SSLKEY, AS_CSTRING(args[1]));
+    curl_easy_setopt(httpClient->curl, CURLOPT_KEYPASSWD, AS_CSTRING(args[1]));
 
     return NIL_VAL;
 }
@@ -1603,7 +1603,7 @@ Value newHttpClient(DictuVM *vm, ObjDict *opts) {
 }
 
 static Value newClient(DictuVM *vm, int argCount, Value *args) {
-    if (argCount > 1) {
+    if (argCount != 1) {
         runtimeError(vm, "newClient() takes 1 argument (%d given)", argCount);
         return EMPTY_VAL;
     }
-- 
2.43.0


From 321479abef7ca1ab5724f50fe4e2651073950a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:50 +0000
Subject: [PATCH 28/75] fix: a failed HTTP client holds no transport and a bad
 header list leaves the stack intact

---
 src/optionals/http/http.c | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/optionals/http/http.c b/src/optionals/http/http.c
index d6179af..98c73c3 100644
--- a/src/optionals/http/http.c
+++ b/src/optionals/http/http.c
@@ -481,7 +481,6 @@ static Value get(DictuVM *vm, int argCount, Value *args) {
                 curl_slist_free_all(list);
                 curl_easy_cleanup(curl);
                 curl_global_cleanup();
-                discardResponse(vm, &response);
                 return EMPTY_VAL;
             }
         }
@@ -590,7 +589,6 @@ static Value post(DictuVM *vm, int argCount, Value *args) {
                 curl_slist_free_all(list);
                 curl_easy_cleanup(curl);
                 curl_global_cleanup();
-                discardResponse(vm, &response);
                 return EMPTY_VAL;
             }
         }
@@ -711,7 +709,6 @@ static Value put(DictuVM *vm, int argCount, Value *args) {
                 curl_slist_free_all(list);
                 curl_easy_cleanup(curl);
                 curl_global_cleanup();
-                discardResponse(vm, &response);
                 return EMPTY_VAL;
             }
         }
@@ -817,7 +814,6 @@ static Value head(DictuVM *vm, int argCount, Value *args) {
                 curl_slist_free_all(list);
                 curl_easy_cleanup(curl);
                 curl_global_cleanup();
-                discardResponse(vm, &response);
                 return EMPTY_VAL;
             }
         }
@@ -909,7 +905,6 @@ static Value options(DictuVM *vm, int argCount, Value *args) {
                 curl_slist_free_all(list);
                 curl_easy_cleanup(curl);
                 curl_global_cleanup();
-                discardResponse(vm, &response);
                 return EMPTY_VAL;
             }
         }
@@ -963,9 +958,12 @@ typedef struct {
 void freeHttpClient(DictuVM *vm, ObjAbstract *abstract) {
     HttpClient *httpClient = (HttpClient*)abstract->data;
     
-    curl_easy_cleanup(httpClient->curl);
     curl_slist_free_all(httpClient->headers);
-    curl_global_cleanup();
+
+    if (httpClient->curl != NULL) {
+        curl_easy_cleanup(httpClient->curl);
+        curl_global_cleanup();
+    }
 
     FREE(vm, HttpClient, abstract->data);
 }
@@ -1417,7 +1415,6 @@ static Value httpClientOptions(DictuVM *vm, int argCount, Value *args) {
     if (headers) {
         if (!setRequestHeaders(vm, &list, httpClient->curl, headers)) {
             curl_slist_free_all(list);
-            discardResponse(vm, &response);
             return EMPTY_VAL;
         }
     }
@@ -1454,9 +1451,16 @@ Value newHttpClient(DictuVM *vm, ObjDict *opts) {
     HttpClient *httpClient = ALLOCATE(vm, HttpClient, 1);
     httpClient->headers = NULL;
     httpClient->timeout = 0;
-    curl_global_init(CURL_GLOBAL_DEFAULT);
-    httpClient->curl = curl_easy_init();
+    httpClient->curl = NULL;
     abstract->data = httpClient;
+
+    if (curl_global_init(CURL_GLOBAL_DEFAULT) == CURLE_OK) {
+        httpClient->curl = curl_easy_init();
+
+        if (httpClient->curl == NULL) {
+            curl_global_cleanup();
+        }
+    }
     
     curl_easy_setopt(httpClient->curl, CURLOPT_HEADERFUNCTION, writeHeaders);
     curl_easy_setopt(httpClient->curl, CURLOPT_FOLLOWLOCATION, 1L);
-- 
2.43.0


From b05c311c569a12149854f122b2e64251e3df60d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:39 +0000
Subject: [PATCH 29/75] fix: printed strings are printed whole when they
 contain NUL characters

---
 src/vm/value.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/vm/value.c b/src/vm/value.c
index d06e696..2faa2c5 100644
--- a/src/vm/value.c
+++ b/src/vm/value.c
@@ -401,12 +401,24 @@ char *valueTypeToString(DictuVM *vm, Value value, int *length) {
 }
 
 void printValue(Value value) {
+    if (IS_STRING(value)) {
+        // A string may contain NUL characters
+        fwrite(AS_CSTRING(value), sizeof(char), AS_STRING(value)->length, stdout);
+        return;
+    }
+
     char *output = valueToString(value);
     printf("%s", output);
     free(output);
 }
 
 void printValueError(Value value) {
+    if (IS_STRING(value)) {
+        // A string may contain NUL characters
+        fwrite(AS_CSTRING(value), sizeof(char), AS_STRING(value)->length, stderr);
+        return;
+    }
+
     char *output = valueToString(value);
     fprintf(stderr, "%s", output);
     free(output);
-- 
2.43.0


From 2d790fc545ae8ea8541bd9f2fad521711f6d8ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:21 +0000
Subject: [PATCH 30/75] fix: an interrupted sleep carries on for the time that
 is left

---
 src/optionals/system.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/optionals/system.c b/src/optionals/system.c
index 1fe5e8a..07313df 100644
--- a/src/optionals/system.c
+++ b/src/optionals/system.c
@@ -458,7 +458,8 @@ static Value sleepNative(DictuVM *vm, int argCount, Value *args) {
     struct timespec ts;
     ts.tv_sec = stopTime;
     ts.tv_nsec = fmod(stopTime, 1) * 1000000000;
-    nanosleep(&ts, NULL);
+    // Carry on with what is left when a signal interrupts the sleep
+    while (nanosleep(&ts, &ts) == -1 && errno == EINTR);
 #else
     if (stopTime >= 1)
       sleep(stopTime);
-- 
2.43.0


From f9f61d1e63ba7b44816fe127d7893f92679ab4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:21 +0000
Subject: [PATCH 31/75] fix: log records carry the right month, the current
 prefix and exactly the line end that was asked for

---
 src/optionals/log.c | 175 +++++++++++++++++++-------------------------
 1 file changed, 76 insertions(+), 99 deletions(-)

diff --git a/src/optionals/log.c b/src/optionals/log.c
index 32b2d04..79058b1 100644
--- a/src/optionals/log.c
+++ b/src/optionals/log.c
@@ -12,81 +12,91 @@ typedef struct {
 
 #define AS_LOG(v) ((Log*)AS_ABSTRACT(v)->data)
 
-static struct tm* timeNow() {
+// One record: the time, the prefix (if there is one) and the message, written at once
+static void writeRecord(DictuVM *vm, FILE *of, const char *prefix, ObjString *msg, bool line) {
     time_t rawtime = time(NULL);
-    if (rawtime == -1) {
-        return NULL;
-    }
-    
     struct tm *ptm = localtime(&rawtime);
-    if (ptm == NULL) { 
-        return NULL;
+    char stamp[64] = "";
+
+    if (ptm != NULL) {
+        snprintf(stamp, sizeof(stamp), "%04d/%02d/%02d %02d:%02d:%02d ",
+            ptm->tm_year + 1900, ptm->tm_mon + 1, ptm->tm_mday,
+            ptm->tm_hour, ptm->tm_min, ptm->tm_sec);
+    }
+
+    size_t stampLength = strlen(stamp);
+    size_t prefixLength = prefix != NULL ? strlen(prefix) + 1 : 0;
+    size_t length = stampLength + prefixLength + msg->length + (line ? 1 : 0);
+
+    char *record = ALLOCATE(vm, char, length + 1);
+    memcpy(record, stamp, stampLength);
+
+    if (prefix != NULL) {
+        memcpy(record + stampLength, prefix, prefixLength - 1);
+        record[stampLength + prefixLength - 1] = ' ';
     }
 
-    return ptm;
+    memcpy(record + stampLength + prefixLength, msg->chars, msg->length);
+
+    if (line) {
+        record[length - 1] = '\n';
+    }
+
+    fwrite(record, sizeof(char), length, of);
+    FREE_ARRAY(vm, char, record, length + 1);
 }
 
-static Value printLog(DictuVM *vm, int argCount, Value *args) {
+static bool checkMessage(DictuVM *vm, const char *name, int argCount, Value *msg) {
     if (argCount != 1) {
-        runtimeError(vm, "print() takes 1 argument (%d given)", argCount);
-        return EMPTY_VAL;
+        runtimeError(vm, "%s() takes 1 argument (%d given)", name, argCount);
+        return false;
     }
 
-    struct tm *ptm = timeNow();
+    if (!IS_STRING(*msg)) {
+        runtimeError(vm, "%s() argument must be a string", name);
+        return false;
+    }
 
-    char *msg = AS_CSTRING(args[0]);
-    printf("%04d/%02d/%02d %02d:%02d:%02d %s", 
-        ptm->tm_year+2000-100, ptm->tm_mon, ptm->tm_mday, 
-        ptm->tm_hour, ptm->tm_min, ptm->tm_sec, msg);
+    return true;
+}
+
+static Value printLog(DictuVM *vm, int argCount, Value *args) {
+    if (!checkMessage(vm, "print", argCount, args)) {
+        return EMPTY_VAL;
+    }
+
+    writeRecord(vm, stdout, NULL, AS_STRING(args[0]), false);
 
     return NIL_VAL;
 }
 
 static Value printlnLog(DictuVM *vm, int argCount, Value *args) {
-    if (argCount != 1) {
-        runtimeError(vm, "println() takes 1 argument (%d given)", argCount);
+    if (!checkMessage(vm, "println", argCount, args)) {
         return EMPTY_VAL;
     }
-    
-    struct tm *ptm = timeNow();
 
-    char *msg = AS_CSTRING(args[0]);
-    printf("%04d/%02d/%02d %02d:%02d:%02d %s\n", 
-        ptm->tm_year+2000-100, ptm->tm_mon, ptm->tm_mday, 
-        ptm->tm_hour, ptm->tm_min, ptm->tm_sec, msg);
+    writeRecord(vm, stdout, NULL, AS_STRING(args[0]), true);
 
     return NIL_VAL;
 }
 
 static Value fatalLog(DictuVM *vm, int argCount, Value *args) {
-    if (argCount != 1) {
-        runtimeError(vm, "fatal() takes 1 argument (%d given)", argCount);
+    if (!checkMessage(vm, "fatal", argCount, args)) {
         return EMPTY_VAL;
     }
-    
-    struct tm *ptm = timeNow();
 
-    char *msg = AS_CSTRING(args[0]);
-    printf("%04d/%02d/%02d %02d:%02d:%02d %s", 
-        ptm->tm_year+2000-100, ptm->tm_mon, ptm->tm_mday, 
-        ptm->tm_hour, ptm->tm_min, ptm->tm_sec, msg);
-    
+    writeRecord(vm, stdout, NULL, AS_STRING(args[0]), false);
+
     exit(1);
 }
 
 static Value fatallnLog(DictuVM *vm, int argCount, Value *args) {
-    if (argCount != 1) {
-        runtimeError(vm, "fatalln() takes 1 argument (%d given)", argCount);
+    if (!checkMessage(vm, "fatalln", argCount, args)) {
         return EMPTY_VAL;
     }
-    
-    struct tm *ptm = timeNow();
 
-    char *msg = AS_CSTRING(args[0]);
-    printf("%04d/%02d/%02d %02d:%02d:%02d %s\n", 
-        ptm->tm_year+2000-100, ptm->tm_mon, ptm->tm_mday, 
-        ptm->tm_hour, ptm->tm_min, ptm->tm_sec, msg);
-    
+    writeRecord(vm, stdout, NULL, AS_STRING(args[0]), true);
+
     exit(1);
 }
 
@@ -106,14 +116,20 @@ static Value logObjSetPrefix(DictuVM *vm, int argCount, Value *args) {
         return EMPTY_VAL;
     }
 
+    if (!IS_STRING(args[1])) {
+        runtimeError(vm, "setPrefix() argument must be a string");
+        return EMPTY_VAL;
+    }
+
     Log *log = AS_LOG(args[0]);
     char *prefix = AS_CSTRING(args[1]);
-    
-    if (strlen(prefix) == 0) {
-        return NIL_VAL;
+
+    free(log->prefix);
+    log->prefix = NULL;
+
+    if (strlen(prefix) != 0) {
+        log->prefix = strdup(prefix);
     }
-    
-    log->prefix = strdup(prefix);
 
     return NIL_VAL;
 }
@@ -134,89 +150,45 @@ static Value logObjUnsetPrefix(DictuVM *vm, int argCount, Value *args) {
 }
 
 static Value logObjPrint(DictuVM *vm, int argCount, Value *args) {
-    if (argCount != 1) {
-        runtimeError(vm, "print() takes 1 argument (%d given)", argCount);
+    if (!checkMessage(vm, "print", argCount, args + 1)) {
         return EMPTY_VAL;
     }
 
     Log *log = AS_LOG(args[0]);
-
-    struct tm *ptm = timeNow();
-    char *msg = AS_CSTRING(args[1]);
-
-    if (log->prefix != NULL && strlen(log->prefix) != 0) {
-        fprintf(log->of, "%04d/%02d/%02d %02d:%02d:%02d %s %s", 
-            ptm->tm_year+2000-100, ptm->tm_mon, ptm->tm_mday, 
-            ptm->tm_hour, ptm->tm_min, ptm->tm_sec, log->prefix, msg);
-
-        return NIL_VAL;
-    }
-
-    fprintf(log->of, "%04d/%02d/%02d %02d:%02d:%02d %s", 
-        ptm->tm_year+2000-100, ptm->tm_mon, ptm->tm_mday, 
-        ptm->tm_hour, ptm->tm_min, ptm->tm_sec, msg);
+    writeRecord(vm, log->of, log->prefix, AS_STRING(args[1]), false);
 
     return NIL_VAL;
 }
 
 static Value logObjPrintln(DictuVM *vm, int argCount, Value *args) {
-    if (argCount != 1) {
-        runtimeError(vm, "println() takes 1 argument (%d given)", argCount);
+    if (!checkMessage(vm, "println", argCount, args + 1)) {
         return EMPTY_VAL;
     }
 
     Log *log = AS_LOG(args[0]);
-
-    struct tm *ptm = timeNow();
-    char *msg = AS_CSTRING(args[1]);
-
-    if (log->prefix != NULL && strlen(log->prefix) != 0) {
-        fprintf(log->of, "%04d/%02d/%02d %02d:%02d:%02d %s %s\n", 
-            ptm->tm_year+2000-100, ptm->tm_mon, ptm->tm_mday, 
-            ptm->tm_hour, ptm->tm_min, ptm->tm_sec, log->prefix, msg);
-
-        return NIL_VAL;
-    }
-
-    fprintf(log->of, "%04d/%02d/%02d %02d:%02d:%02d %s\n", 
-        ptm->tm_year+2000-100, ptm->tm_mon, ptm->tm_mday, 
-        ptm->tm_hour, ptm->tm_min, ptm->tm_sec, msg);
+    writeRecord(vm, log->of, log->prefix, AS_STRING(args[1]), true);
 
     return NIL_VAL;
 }
 
 static Value logObjFatal(DictuVM *vm, int argCount, Value *args) {
-    if (argCount != 1) {
-        runtimeError(vm, "fatal() takes 1 argument (%d given)", argCount);
+    if (!checkMessage(vm, "fatal", argCount, args + 1)) {
         return EMPTY_VAL;
     }
 
     Log *log = AS_LOG(args[0]);
-
-    struct tm *ptm = timeNow();
-
-    char *msg = AS_CSTRING(args[1]);
-    fprintf(log->of, "%04d/%02d/%02d %02d:%02d:%02d %s\n", 
-        ptm->tm_year+2000-100, ptm->tm_mon, ptm->tm_mday, 
-        ptm->tm_hour, ptm->tm_min, ptm->tm_sec, msg);
+    writeRecord(vm, log->of, log->prefix, AS_STRING(args[1]), false);
 
     exit(1);
 }
 
 static Value logObjFatalln(DictuVM *vm, int argCount, Value *args) {
-    if (argCount != 1) {
-        runtimeError(vm, "fatalln() takes 1 argument (%d given)", argCount);
+    if (!checkMessage(vm, "fatalln", argCount, args + 1)) {
         return EMPTY_VAL;
     }
 
     Log *log = AS_LOG(args[0]);
-
-    struct tm *ptm = timeNow();
-
-    char *msg = AS_CSTRING(args[1]);
-    fprintf(log->of, "%04d/%02d/%02d %02d:%02d:%02d %s\n", 
-        ptm->tm_year+2000-100, ptm->tm_mon, ptm->tm_mday, 
-        ptm->tm_hour, ptm->tm_min, ptm->tm_sec, msg);
+    writeRecord(vm, log->of, log->prefix, AS_STRING(args[1]), true);
 
     exit(1);
 }
@@ -260,6 +232,11 @@ static Value newLog(DictuVM *vm, int argCount, Value *args) {
         return EMPTY_VAL;
     }
 
+    if (!IS_NUMBER(args[0])) {
+        runtimeError(vm, "new() argument must be a number");
+        return EMPTY_VAL;
+    }
+
     ObjAbstract *abstract = newLogObj(vm);
     Log *log = abstract->data;
 
-- 
2.43.0


From 7420187fae1be90f628fe8f88471562cd512bf3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:15 +0000
Subject: [PATCH 32/75] fix: random ranges and selections of any size work and
 impossible ones are errors

---
 src/optionals/random.c | 53 +++++++++++++++++++++++++++++++++++++-----
 1 file changed, 47 insertions(+), 6 deletions(-)

diff --git a/src/optionals/random.c b/src/optionals/random.c
index 05afe32..720b42a 100644
--- a/src/optionals/random.c
+++ b/src/optionals/random.c
@@ -1,5 +1,29 @@
+#include <math.h>
+#include <stdint.h>
+
 #include "random.h"
 
+// Largest magnitude up to which every integer is exactly representable
+#define MAX_SAFE_INTEGER 9007199254740992.0
+
+// A number from 0 to limit - 1, each of which can occur
+static uint64_t randomBelow(uint64_t limit) {
+    uint64_t bits = 0;
+    uint64_t span = 1;
+
+    while (span < limit) {
+        bits = bits * ((uint64_t) RAND_MAX + 1) + (uint64_t) rand();
+
+        if (span > UINT64_MAX / ((uint64_t) RAND_MAX + 1)) {
+            break;
+        }
+
+        span *= (uint64_t) RAND_MAX + 1;
+    }
+
+    return bits % limit;
+}
+
 static Value randomRandom(DictuVM *vm, int argCount, Value *args) {
     UNUSED(args);
     if (argCount > 0) {
@@ -24,10 +48,23 @@ static Value randomRange(DictuVM *vm, int argCount, Value *args) {
         return EMPTY_VAL;
     }
 
-    int upper = AS_NUMBER(args[1]);
-    int lower = AS_NUMBER(args[0]);
-    int random_val = (rand() % (upper - lower + 1)) + lower;
-    return NUMBER_VAL(random_val);
+    double lower = ceil(AS_NUMBER(args[0]));
+    double upper = floor(AS_NUMBER(args[1]));
+
+    if (!(lower <= upper)) {
+        runtimeError(vm, "range() lowest must not be greater than highest");
+        return EMPTY_VAL;
+    }
+
+    if (lower < -MAX_SAFE_INTEGER || upper > MAX_SAFE_INTEGER) {
+        runtimeError(vm, "range() arguments are too large");
+        return EMPTY_VAL;
+    }
+
+    int64_t lowest = (int64_t) lower;
+    uint64_t size = (uint64_t) ((int64_t) upper - lowest) + 1;
+
+    return NUMBER_VAL((double) (lowest + (int64_t) randomBelow(size)));
 }
 
 static Value randomSelect(DictuVM *vm, int argCount, Value *args) {
@@ -45,8 +82,12 @@ static Value randomSelect(DictuVM *vm, int argCount, Value *args) {
     argCount = list->values.count;
     args = list->values.values;
 
-    int index = rand() % argCount;
-    return args[index];
+    if (argCount == 0) {
+        runtimeError(vm, "select() argument must not be an empty list");
+        return EMPTY_VAL;
+    }
+
+    return args[randomBelow(argCount)];
 }
 
 Value createRandomModule(DictuVM *vm) {
-- 
2.43.0


From 3b400767a6a2f3f612acfb98232c676b67b95af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:49 +0000
Subject: [PATCH 33/75] fix: clearing the environment cannot fail halfway,
 names and values with NUL are refused, blank lines of a file are ignored

---
 src/optionals/env/env-source.h |  1 +
 src/optionals/env/env.c        | 25 +++++++++++++++++--------
 src/optionals/env/env.du       |  1 +
 3 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/optionals/env/env-source.h b/src/optionals/env/env-source.h
index 78b80b2..936cb5b 100644
--- a/src/optionals/env/env-source.h
+++ b/src/optionals/env/env-source.h
@@ -10,6 +10,7 @@
 "        // When you reach the end of the file, nil is returned\n" \
 "        while((line = file.readLine()) != nil) {\n" \
 "            lineCount = lineCount + 1;\n" \
+"            line = line.strip();\n" \
 "            if (not line or line.startsWith(COMMENT))\n" \
 "                continue;\n" \
 "\n" \
diff --git a/src/optionals/env/env.c b/src/optionals/env/env.c
index 51aea6b..55545d4 100644
--- a/src/optionals/env/env.c
+++ b/src/optionals/env/env.c
@@ -17,6 +17,11 @@ int setenv(const char *name, const char *value, int overwrite) {
 }
 #endif
 
+// A name or value with a NUL character can not be represented in the environment
+static bool hasNul(Value string) {
+    return strlen(AS_CSTRING(string)) != (size_t) AS_STRING(string)->length;
+}
+
 static Value get(DictuVM *vm, int argCount, Value *args) {
     if (argCount != 1 && argCount != 2 ) {
         runtimeError(vm, "get() takes either 1 or 2 arguments (%d given).", argCount);
@@ -28,7 +33,11 @@ static Value get(DictuVM *vm, int argCount, Value *args) {
         return EMPTY_VAL;
     }
 
-    char *value = getenv(AS_CSTRING(args[0]));
+    char *value = NULL;
+
+    if (!hasNul(args[0]) && strchr(AS_CSTRING(args[0]), '=') == NULL) {
+        value = getenv(AS_CSTRING(args[0]));
+    }
 
     if (argCount == 2) {
         if (!IS_STRING(args[1])) {
@@ -61,6 +70,10 @@ static Value set(DictuVM *vm, int argCount, Value *args) {
         return EMPTY_VAL;
     }
 
+    if (hasNul(args[0]) || (IS_STRING(args[1]) && hasNul(args[1]))) {
+        return newResultError(vm, "Failed to set environment variable");
+    }
+
     char *key = AS_CSTRING(args[0]);
 
     int retval;
@@ -89,14 +102,10 @@ static Value clearAll(DictuVM *vm, int argCount, Value *args) {
 
     extern char **environ;
 
-    for (; *environ; ++environ) {
-        char *name = strtok(*environ, "=");
-        int ret = unsetenv(name);
-        if (ret == -1) {
-            ERROR_RESULT;
-        }
+    if (environ != NULL) {
+        *environ = NULL;
     }
-    
+
     return newResultSuccess(vm, NIL_VAL);
 }
 #endif
diff --git a/src/optionals/env/env.du b/src/optionals/env/env.du
index 433c729..33083f8 100644
--- a/src/optionals/env/env.du
+++ b/src/optionals/env/env.du
@@ -10,6 +10,7 @@ def readFile(path='.env') {
         // When you reach the end of the file, nil is returned
         while((line = file.readLine()) != nil) {
             lineCount = lineCount + 1;
+            line = line.strip();
             if (not line or line.startsWith(COMMENT))
                 continue;
 
-- 
2.43.0


From cd536a3e8a080563f7accfbfae8d05d58eb77c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:40 +0000
Subject: [PATCH 34/75] fix: importing a library module needs its whole name

---
 src/optionals/optionals.c | 2 +-
 src/vm/compiler.c         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/optionals/optionals.c b/src/optionals/optionals.c
index f2fbe81..c7b0b16 100644
--- a/src/optionals/optionals.c
+++ b/src/optionals/optionals.c
@@ -42,7 +42,7 @@ Value importBuiltinModule(DictuVM *vm, int index) {
 
 int findBuiltinModule(char *name, int length, bool *dictuSource) {
     for (int i = 0; modules[i].module != NULL; ++i) {
-        if (strncmp(modules[i].name, name, length) == 0) {
+        if ((int) strlen(modules[i].name) == length && strncmp(modules[i].name, name, length) == 0) {
             *dictuSource = modules[i].dictuSource;
 
             return i;
diff --git a/src/vm/compiler.c b/src/vm/compiler.c
index 74a27ad..bb223e0 100644
--- a/src/vm/compiler.c
+++ b/src/vm/compiler.c
@@ -2610,7 +2610,7 @@ static void importStatement(Compiler *compiler) {
 
         int index = findBuiltinModule(
             (char *) compiler->parser->previous.start,
-            compiler->parser->previous.length - compiler->parser->current.length,
+            compiler->parser->previous.length,
             &dictuSource
         );
 
-- 
2.43.0


From 394878e6d4442473ca1f3ccc0055cafdf86e6c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:40 +0000
Subject: [PATCH 35/75] fix: an import yields the imported module, and one that
 does not compile is an error in the importer

---
 src/vm/vm.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index e0037de..0c14431 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -1707,7 +1707,16 @@ static DictuInterpretResult run(DictuVM *vm) {
 
             FREE_ARRAY(vm, char, source, strlen(source) + 1);
 
-            if (function == NULL) return INTERPRET_COMPILE_ERROR;
+            if (function == NULL) {
+                // The module never ran, so importing it again has to try again
+                tableDelete(vm, &vm->modules, module->name);
+                vm->lastModule = frame->closure->function->module;
+
+                frame->ip = ip;
+                runtimeError(vm, "Could not compile module \"%s\".", fileName->chars);
+                return INTERPRET_COMPILE_ERROR;
+            }
+
             push(vm, OBJ_VAL(function));
             ObjClosure *closure = newClosure(vm, function);
             pop(vm);
@@ -2231,6 +2240,12 @@ static DictuInterpretResult run(DictuVM *vm) {
             // Close any upvalues still in scope.
             closeUpvalues(vm, frame->slots);
 
+            // The module which just finished is the one being imported,
+            // whatever was imported while it was running.
+            if (frame->closure->function->type == TYPE_TOP_LEVEL) {
+                vm->lastModule = frame->closure->function->module;
+            }
+
             vm->frameCount--;
 
             if (vm->frameCount == 0) {
-- 
2.43.0


From f04bec3cfbc0360fba3eec03ebe08f6f93b7dd70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:50 +0000
Subject: [PATCH 36/75] fix: import Argparse yields the module

---
 src/optionals/optionals.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/optionals/optionals.c b/src/optionals/optionals.c
index c7b0b16..aca00a2 100644
--- a/src/optionals/optionals.c
+++ b/src/optionals/optionals.c
@@ -2,7 +2,7 @@
 #include "ffi/ffi.h"
 
 BuiltinModules modules[] = {
-    {"Argparse", &createArgParseModule, false},
+    {"Argparse", &createArgParseModule, true},
     {"Math", &createMathsModule, false},
     {"Env", &createEnvModule, true},
     {"IO", &createIOModule, false},
-- 
2.43.0


From a99d64a2d821dcedd1ec525d83b19b579ff931cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:35 +0000
Subject: [PATCH 37/75] fix: the prompt of input() is shown whole and before
 the input is read

---
 src/vm/natives.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/vm/natives.c b/src/vm/natives.c
index 99772f6..b6b9da9 100644
--- a/src/vm/natives.c
+++ b/src/vm/natives.c
@@ -44,9 +44,12 @@ static Value inputNative(DictuVM *vm, int argCount, Value *args) {
             return EMPTY_VAL;
         }
 
-        printf("%s", AS_CSTRING(prompt));
+        fwrite(AS_CSTRING(prompt), 1, AS_STRING(prompt)->length, stdout);
     }
 
+    // Whatever was printed has to be visible before the user is asked
+    fflush(stdout);
+
     uint64_t currentSize = 128;
     char *line = ALLOCATE(vm, char, currentSize);
 
-- 
2.43.0


From 3898d2245f131950578d84b9d11d0a9f0f039e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:35 +0000
Subject: [PATCH 38/75] fix: an empty line does not end a session that reads
 from a file or pipe

---
 src/cli/linenoise/linenoise.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cli/linenoise/linenoise.c b/src/cli/linenoise/linenoise.c
index 95fd824..2720e51 100644
--- a/src/cli/linenoise/linenoise.c
+++ b/src/cli/linenoise/linenoise.c
@@ -1893,10 +1893,14 @@ static stringbuf *sb_getline(FILE *fh)
         /* ignore the effect of character count for partial utf8 sequences */
         sb_append_len(sb, &ch, 1);
     }
-    if (n == 0 || sb->data == NULL) {
+    if (n == 0) {
         sb_free(sb);
         return NULL;
     }
+    if (sb->data == NULL) {
+        /* an empty line is not the end of the input */
+        sb_append_len(sb, "", 0);
+    }
     return sb;
 }
 
-- 
2.43.0


From 3d2c0182fc6433e2ac4267bc3e2c5467707058e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:35 +0000
Subject: [PATCH 39/75] fix: the interactive session works without a home
 directory and releases an unfinished statement

---
 src/cli/main.c | 63 ++++++++++++++++++++++++++++++++------------------
 1 file changed, 41 insertions(+), 22 deletions(-)

diff --git a/src/cli/main.c b/src/cli/main.c
index f2c32f5..a499a24 100644
--- a/src/cli/main.c
+++ b/src/cli/main.c
@@ -84,52 +84,72 @@ static void memcpyAndAppendNul(char* dst, char* src, int len) {
 }
 
 // getDictuPath sets up the path to be used for saving history
-// amongst other things. The returned string needs to be freed
-// by the caller.
+// amongst other things. The returned string has room for the name
+// of a file in it and needs to be freed by the caller. It is NULL
+// when there is no place for it.
 char *getDictuPath() {
-    char *dictuPath = calloc(PATH_MAX, sizeof(char) * PATH_MAX);
-    char *tmp;
-
-    if ((tmp = getenv("DICTU_PATH")) != NULL) {
-        strncat(dictuPath, tmp, strlen(tmp));
-    } else {
-        const char *home = getenv("HOME");
-        strncpy(dictuPath, home, strlen(home));
-        strncat(dictuPath, DICTU_HOME, strlen(DICTU_HOME));
+    const char *base = getenv("DICTU_PATH");
+    const char *suffix = "";
+
+    if (base == NULL) {
+        base = getenv("HOME");
+        suffix = DICTU_HOME;
+    }
+
+    if (base == NULL) {
+        return NULL;
+    }
+
+    char *dictuPath = malloc(strlen(base) + strlen(suffix) + strlen(DICTU_HIST) + 1);
+
+    if (dictuPath != NULL) {
+        strcpy(dictuPath, base);
+        strcat(dictuPath, suffix);
     }
 
     return dictuPath;
 }
 
+static void saveHistory(const char *line, const char *dictuPath) {
+    linenoiseHistoryAdd(line);
+
+    if (dictuPath != NULL) {
+        linenoiseHistorySave(dictuPath);
+    }
+}
+
 static void repl(DictuVM *vm) {
     printf(DICTU_STRING_VERSION);
     char *line;
 
     char *dictuPath = getDictuPath();
 
-    if (mkdir(dictuPath, 0700) == -1 && errno != EEXIST) {
-        fprintf(stderr, "Cannot create directory %s - %s\n", dictuPath, strerror(errno));
-        free(dictuPath);
-        exit(75);
-    }
+    if (dictuPath != NULL) {
+        if (mkdir(dictuPath, 0700) == -1 && errno != EEXIST) {
+            fprintf(stderr, "Cannot create directory %s - %s\n", dictuPath, strerror(errno));
+            free(dictuPath);
+            exit(75);
+        }
 
-    strncat(dictuPath, DICTU_HIST, strlen(DICTU_HIST));
+        strcat(dictuPath, DICTU_HIST);
 
-    linenoiseHistoryLoad(dictuPath);
+        linenoiseHistoryLoad(dictuPath);
+    }
 
     while((line = linenoise(">>> ")) != NULL) {
         int statementLength = strlen(line);
         char *statement = malloc(sizeof(char) * (statementLength + 1));
         memcpyAndAppendNul(statement, line, statementLength);
 
-        linenoiseHistoryAdd(line);
-        linenoiseHistorySave(dictuPath);
+        saveHistory(line, dictuPath);
 
         while (!matchBraces(statement)) {
             free(line);
             line = linenoise("... ");
 
             if (line == NULL) {
+                free(statement);
+                free(dictuPath);
                 return;
             }
 
@@ -146,8 +166,7 @@ static void repl(DictuVM *vm) {
             memcpyAndAppendNul(statement + statementLength, line, lineLength);
             statementLength += lineLength;
 
-            linenoiseHistoryAdd(line);
-            linenoiseHistorySave(dictuPath);
+            saveHistory(line, dictuPath);
         }
 
         dictuInterpret(vm, "repl", statement);
-- 
2.43.0


From 0388299c57d3a623fcba8e0830bd669bd5e6a051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:21 +0000
Subject: [PATCH 40/75] fix: string methods stay inside their buffers for every
 argument

replace(), split(), format(), lower(), upper(), title(), collapseSpaces() and
wrap() measured their buffers by length but walked the text up to its first
NUL character (or the other way around), so strings holding NUL characters
left uninitialised bytes in the result or read and wrote outside it; an empty
needle hung replace() and overran count(); repeat() with a negative or huge
count overflowed, and split(), findLast() and wrap() took arguments of the
wrong type as they were.
---
 src/vm/datatypes/strings.c | 203 ++++++++++++++++++-------------------
 1 file changed, 97 insertions(+), 106 deletions(-)

diff --git a/src/vm/datatypes/strings.c b/src/vm/datatypes/strings.c
index e58ca3e..7775930 100644
--- a/src/vm/datatypes/strings.c
+++ b/src/vm/datatypes/strings.c
@@ -1,6 +1,23 @@
+#include <limits.h>
+#include <math.h>
+
 #include "strings.h"
 #include "../memory.h"
 
+// Strings may contain NUL characters, so they are searched by length
+static char *findInString(const char *string, int length, const char *needle, int needleLength) {
+    if (needleLength == 0) {
+        return (char *) string;
+    }
+
+    for (int i = 0; i + needleLength <= length; ++i) {
+        if (string[i] == needle[0] && memcmp(string + i, needle, needleLength) == 0) {
+            return (char *) string + i;
+        }
+    }
+
+    return NULL;
+}
 
 static Value lenString(DictuVM *vm, int argCount, Value *args) {
     if (argCount != 0) {
@@ -50,73 +67,52 @@ static Value formatString(DictuVM *vm, int argCount, Value *args) {
         return EMPTY_VAL;
     }
 
-    int length = 0;
-    char **replaceStrings = ALLOCATE(vm, char*, argCount);
-
-    for (int j = 1; j < argCount + 1; j++) {
-        Value value = args[j];
-        if (!IS_STRING(value))
-            replaceStrings[j - 1] = valueToString(value);
-        else {
-            ObjString *strObj = AS_STRING(value);
-            char *str = malloc(strObj->length + 1);
-            memcpy(str, strObj->chars, strObj->length + 1);
-            replaceStrings[j - 1] = str;
-        }
-
-        length += strlen(replaceStrings[j - 1]);
-    }
-
     ObjString *string = AS_STRING(args[0]);
-
-    int stringLen = string->length + 1;
-    char *tmp = ALLOCATE(vm, char, stringLen);
-    char *tmpFree = tmp;
-    memcpy(tmp, string->chars, stringLen);
+    char *tmp = string->chars;
+    char *end = tmp + string->length;
 
     int count = 0;
-    while ((tmp = strstr(tmp, "{}"))) {
+    while ((tmp = findInString(tmp, end - tmp, "{}", 2))) {
         count++;
-        tmp++;
+        tmp += 2;
     }
 
-    tmp = tmpFree;
-
     if (count != argCount) {
         runtimeError(vm, "format() placeholders do not match arguments");
+        return EMPTY_VAL;
+    }
 
-        for (int i = 0; i < argCount; ++i) {
-            free(replaceStrings[i]);
-        }
+    int length = 0;
+    char **replaceStrings = ALLOCATE(vm, char*, argCount);
+    int *replaceLengths = ALLOCATE(vm, int, argCount);
 
-        FREE_ARRAY(vm, char, tmp , stringLen);
-        FREE_ARRAY(vm, char*, replaceStrings, argCount);
-        return EMPTY_VAL;
+    for (int j = 1; j < argCount + 1; j++) {
+        replaceStrings[j - 1] = valueToString(args[j]);
+        replaceLengths[j - 1] = IS_STRING(args[j]) ? AS_STRING(args[j])->length : (int) strlen(replaceStrings[j - 1]);
+        length += replaceLengths[j - 1];
     }
 
     int fullLength = string->length - count * 2 + length + 1;
-    char *pos;
     char *newStr = ALLOCATE(vm, char, fullLength);
     int stringLength = 0;
 
+    tmp = string->chars;
+
     for (int i = 0; i < argCount; ++i) {
-        pos = strstr(tmp, "{}");
-        if (pos != NULL)
-            *pos = '\0';
+        char *pos = findInString(tmp, end - tmp, "{}", 2);
 
-        int tmpLength = strlen(tmp);
-        int replaceLength = strlen(replaceStrings[i]);
+        int tmpLength = pos - tmp;
         memcpy(newStr + stringLength, tmp, tmpLength);
-        memcpy(newStr + stringLength + tmpLength, replaceStrings[i], replaceLength);
-        stringLength += tmpLength + replaceLength;
+        memcpy(newStr + stringLength + tmpLength, replaceStrings[i], replaceLengths[i]);
+        stringLength += tmpLength + replaceLengths[i];
         tmp = pos + 2;
         free(replaceStrings[i]);
     }
 
     FREE_ARRAY(vm, char*, replaceStrings, argCount);
-    memcpy(newStr + stringLength, tmp, strlen(tmp));
+    FREE_ARRAY(vm, int, replaceLengths, argCount);
+    memcpy(newStr + stringLength, tmp, end - tmp);
     newStr[fullLength - 1] = '\0';
-    FREE_ARRAY(vm, char, tmpFree, stringLen);
 
     return OBJ_VAL(takeString(vm, newStr, fullLength - 1));
 }
@@ -133,11 +129,11 @@ static Value splitString(DictuVM *vm, int argCount, Value *args) {
     }
 
     ObjString *string = AS_STRING(args[0]);
-    char *delimiter = AS_CSTRING(args[1]);
+    ObjString *delimiter = AS_STRING(args[1]);
     int maxSplit = string->length + 1;
 
     if (argCount == 2) {
-        if (!AS_NUMBER(args[1])) {
+        if (!IS_NUMBER(args[2])) {
             runtimeError(vm, "Argument passed to split() must be a number");
             return EMPTY_VAL;
         }
@@ -147,23 +143,17 @@ static Value splitString(DictuVM *vm, int argCount, Value *args) {
         }
     }
 
-    char *tmp = ALLOCATE(vm, char, string->length + 1);
-    char *tmpFree = tmp;
-    memcpy(tmp, string->chars, string->length);
-    tmp[string->length] = '\0';
-    int delimiterLength = strlen(delimiter);
+    char *tmp = string->chars;
+    char *end = tmp + string->length;
     char *token;
 
     ObjList *list = newList(vm);
     push(vm, OBJ_VAL(list));
     int count = 0;
 
-    if (delimiterLength == 0) {
-        int tokenIndex = 0;
-        for (; tokenIndex < string->length && count < maxSplit; tokenIndex++) {
+    if (delimiter->length == 0) {
+        for (; tmp < end && count < maxSplit; tmp++) {
             count++;
-            *(tmp) = string->chars[tokenIndex];
-            *(tmp + 1) = '\0';
             Value str = OBJ_VAL(copyString(vm, tmp, 1));
             // Push to stack to avoid GC
             push(vm, str);
@@ -171,35 +161,27 @@ static Value splitString(DictuVM *vm, int argCount, Value *args) {
             pop(vm);
         }
 
-        if (tokenIndex != string->length && count >= maxSplit) {
-            tmp = (string->chars) + tokenIndex;
-        } else {
+        if (tmp == end) {
             tmp = NULL;
         }
     } else if (maxSplit > 0) {
         do {
             count++;
-            token = strstr(tmp, delimiter);
-            if (token)
-                *token = '\0';
+            token = findInString(tmp, end - tmp, delimiter->chars, delimiter->length);
 
-            Value str = OBJ_VAL(copyString(vm, tmp, strlen(tmp)));
+            Value str = OBJ_VAL(copyString(vm, tmp, (token ? token : end) - tmp));
 
             // Push to stack to avoid GC
             push(vm, str);
             writeValueArray(vm, &list->values, str);
             pop(vm);
 
-            tmp = token + delimiterLength;
+            tmp = token ? token + delimiter->length : NULL;
         } while (token != NULL && count < maxSplit);
-
-        if (token == NULL) {
-            tmp = NULL;
-        }
     }
 
     if (tmp != NULL && count >= maxSplit) {
-        Value remainingStr = OBJ_VAL(copyString(vm, tmp, strlen(tmp)));
+        Value remainingStr = OBJ_VAL(copyString(vm, tmp, end - tmp));
 
         // Push to stack to avoid GC
         push(vm, remainingStr);
@@ -209,7 +191,6 @@ static Value splitString(DictuVM *vm, int argCount, Value *args) {
 
     pop(vm);
 
-    FREE_ARRAY(vm, char, tmpFree, string->length + 1);
     return OBJ_VAL(list);
 }
 
@@ -281,6 +262,11 @@ static Value findLastString(DictuVM *vm, int argCount, Value *args) {
         return EMPTY_VAL;
     }
 
+    if (!IS_STRING(args[1])) {
+        runtimeError(vm, "Substring passed to findLast() must be a string");
+        return EMPTY_VAL;
+    }
+
     const char *str = AS_CSTRING(args[0]);
     const char *ss = AS_CSTRING(args[1]);
     const char *p = str;
@@ -338,48 +324,41 @@ static Value replaceString(DictuVM *vm, int argCount, Value *args) {
     int count = 0;
     int len = to_replace->length;
     int replaceLen = replace->length;
-    int stringLen = strlen(string) + 1;
 
-    // Make a copy of the string so we do not modify the original
-    char *tmp = ALLOCATE(vm, char, stringLen + 1);
-    char *tmpFree = tmp;
-    memcpy(tmp, string, stringLen);
-    tmp[stringLen] = '\0';
+    // There is nothing to look for
+    if (len == 0) {
+        return stringValue;
+    }
+
+    char *end = string + AS_STRING(stringValue)->length;
+    char *pos = string;
 
     // Count the occurrences of the needle so we can determine the size
     // of the string we need to allocate
-    while ((tmp = strstr(tmp, to_replace->chars)) != NULL) {
+    while ((pos = findInString(pos, end - pos, to_replace->chars, len)) != NULL) {
         count++;
-        tmp += len;
+        pos += len;
     }
 
-    // Reset the pointer
-    tmp = tmpFree;
-
     if (count == 0) {
-        FREE_ARRAY(vm, char, tmpFree, stringLen + 1);
         return stringValue;
     }
 
-    int length = strlen(tmp) - count * (len - replaceLen) + 1;
-    char *pos;
+    int length = AS_STRING(stringValue)->length - count * (len - replaceLen) + 1;
     char *newStr = ALLOCATE(vm, char, length);
     int stringLength = 0;
 
     for (int i = 0; i < count; ++i) {
-        pos = strstr(tmp, to_replace->chars);
-        if (pos != NULL)
-            *pos = '\0';
+        pos = findInString(string, end - string, to_replace->chars, len);
 
-        int tmpLength = strlen(tmp);
-        memcpy(newStr + stringLength, tmp, tmpLength);
+        int tmpLength = pos - string;
+        memcpy(newStr + stringLength, string, tmpLength);
         memcpy(newStr + stringLength + tmpLength, replace->chars, replaceLen);
         stringLength += tmpLength + replaceLen;
-        tmp = pos + len;
+        string = pos + len;
     }
 
-    memcpy(newStr + stringLength, tmp, strlen(tmp));
-    FREE_ARRAY(vm, char, tmpFree, stringLen + 1);
+    memcpy(newStr + stringLength, string, end - string);
     newStr[length - 1] = '\0';
 
     return OBJ_VAL(takeString(vm, newStr, length - 1));
@@ -394,7 +373,7 @@ static Value lowerString(DictuVM *vm, int argCount, Value *args) {
     ObjString *string = AS_STRING(args[0]);
     char *temp = ALLOCATE(vm, char, string->length + 1);
 
-    for (int i = 0; string->chars[i]; i++) {
+    for (int i = 0; i < string->length; i++) {
         temp[i] = tolower(string->chars[i]);
     }
     temp[string->length] = '\0';
@@ -411,7 +390,7 @@ static Value upperString(DictuVM *vm, int argCount, Value *args) {
     ObjString *string = AS_STRING(args[0]);
     char *temp = ALLOCATE(vm, char, string->length + 1);
 
-    for (int i = 0; string->chars[i]; i++) {
+    for (int i = 0; i < string->length; i++) {
         temp[i] = toupper(string->chars[i]);
     }
     temp[string->length] = '\0';
@@ -537,7 +516,7 @@ static Value countString(DictuVM *vm, int argCount, Value *args) {
     char *needle = AS_CSTRING(args[1]);
 
     int count = 0;
-    while ((haystack = strstr(haystack, needle))) {
+    while (*haystack != '\0' && (haystack = strstr(haystack, needle))) {
         count++;
         haystack++;
     }
@@ -582,7 +561,7 @@ static Value titleString(DictuVM *vm, int argCount, Value *args) {
 
     bool convertNext=true;
 
-    for (int i = 0; string->chars[i]; i++) {
+    for (int i = 0; i < string->length; i++) {
         if(string->chars[i]==' '){
             convertNext=true;
         }
@@ -611,16 +590,22 @@ static Value repeatString(DictuVM *vm, int argCount, Value *args) {
     }
 
     ObjString *string = AS_STRING(args[0]);
-    int count = AS_NUMBER(args[1]);
+    double count = AS_NUMBER(args[1]);
+
+    if (!(count >= 0) || string->length * floor(count) >= INT_MAX) {
+        runtimeError(vm, "repeat() count argument is out of range");
+        return EMPTY_VAL;
+    }
 
-    int tempLen = (string->length * count) + 1;
+    int tempLen = (string->length * (int) (string->length == 0 ? 0 : count)) + 1;
     char *temp = ALLOCATE(vm, char, tempLen);
 
-    strcpy(temp, string->chars);
-    while (--count > 0) {
-        strcat(temp, string->chars);
+    for (int i = 0; i < tempLen - 1; i += string->length) {
+        memcpy(temp + i, string->chars, string->length);
     }
 
+    temp[tempLen - 1] = '\0';
+
     return OBJ_VAL(takeString(vm, temp, tempLen - 1));
 }
 
@@ -676,16 +661,15 @@ static Value collapseSpacesString(DictuVM *vm, int argCount, Value *args) {
 
     ObjString *string = AS_STRING(args[0]);
     char *temp = ALLOCATE(vm, char, string->length + 1);
-    strcpy(temp, string->chars);
 
     int i, j;
-    for (i = j = 0; temp[i]; ++i) {
-        if (!isspace(temp[i]) || (i > 0 && !isspace(temp[i-1]))) {
-            temp[j++] = temp[i];
+    for (i = j = 0; i < string->length; ++i) {
+        if (!isspace(string->chars[i]) || (i > 0 && !isspace(string->chars[i-1]))) {
+            temp[j++] = string->chars[i];
         }
     }
 
-    temp[j+1] = '\0';
+    temp[j] = '\0';
 
     if (i != j) {
         temp = SHRINK_ARRAY(vm, temp, char, string->length + 1, j + 1);
@@ -700,6 +684,11 @@ static Value wrapString(DictuVM *vm, int argCount, Value *args) {
         return EMPTY_VAL;
     }
 
+    if (!IS_NUMBER(args[1])) {
+        runtimeError(vm, "wrap() argument must be a number");
+        return EMPTY_VAL;
+    }
+
     ObjString *string = AS_STRING(args[0]);
     char *temp = ALLOCATE(vm, char, string->length + 1);
     
@@ -708,7 +697,7 @@ static Value wrapString(DictuVM *vm, int argCount, Value *args) {
     int last = 0;
     int count = 0;
 
-    for (int cur = 0; string->chars[cur] != '\0'; cur++, count++) {
+    for (int cur = 0; cur < string->length; cur++, count++) {
         temp[cur] = string->chars[cur];
 
         if (isspace(temp[cur])) {
@@ -721,7 +710,9 @@ static Value wrapString(DictuVM *vm, int argCount, Value *args) {
         }
     }
 
-    return OBJ_VAL(takeString(vm, temp, strlen(temp)));
+    temp[string->length] = '\0';
+
+    return OBJ_VAL(takeString(vm, temp, string->length));
 }
 
 void declareStringMethods(DictuVM *vm) {
-- 
2.43.0


From 2d18c97159c602317084de3a010efda25a61ba91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:37 +0000
Subject: [PATCH 41/75] fix: reading a missing dictionary key no longer leaks
 the text of the key

---
 src/vm/vm.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index 0c14431..0c0734f 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -931,6 +931,15 @@ static DictuInterpretResult run(DictuVM *vm) {
             return INTERPRET_RUNTIME_ERROR;                                        \
         } while (0)
 
+    #define RUNTIME_ERROR_KEY(key)                                                 \
+        do {                                                                       \
+            STORE_FRAME;                                                           \
+            char *val = valueToString(key);                                        \
+            runtimeError(vm, "Key %s does not exist within dictionary.", val);     \
+            free(val);                                                             \
+            return INTERPRET_RUNTIME_ERROR;                                        \
+        } while (0)
+
     #ifdef COMPUTED_GOTO
 
     static void* dispatchTable[] = {
@@ -1931,14 +1940,14 @@ static DictuInterpretResult run(DictuVM *vm) {
                     }
 
                     Value v;
-                    pop(vm);
-                    pop(vm);
                     if (dictGet(dict, indexValue, &v)) {
+                        pop(vm);
+                        pop(vm);
                         push(vm, v);
                         DISPATCH();
                     }
 
-                    RUNTIME_ERROR("Key %s does not exist within dictionary.", valueToString(indexValue));
+                    RUNTIME_ERROR_KEY(indexValue);
                 }
 
                 default: {
@@ -2039,7 +2048,7 @@ static DictuInterpretResult run(DictuVM *vm) {
 
                     Value dictValue;
                     if (!dictGet(dict, indexValue, &dictValue)) {
-                        RUNTIME_ERROR("Key %s does not exist within dictionary.", valueToString(indexValue));
+                        RUNTIME_ERROR_KEY(indexValue);
                     }
 
                     vm->stackTop[-1] = dictValue;
-- 
2.43.0


From c86281d65fdfe2214c6e182cb5f017d86356c1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:15 +0000
Subject: [PATCH 42/75] fix: going back over a list, dictionary or block start
 rescans the right text

The parser went back by the lengths of some of the tokens it had read, leaving
out blanks and every other token, so a statement starting with '[' or '{' could
be compiled from the wrong place or from before the start of the source.  A
destructuring of more than 255 variables overflowed its array, and a source
ending within an escape was read past its end.
---
 src/vm/compiler.c | 52 +++++++++++++++++------------------------------
 src/vm/scanner.c  |  1 +
 2 files changed, 20 insertions(+), 33 deletions(-)

diff --git a/src/vm/compiler.c b/src/vm/compiler.c
index bb223e0..523040c 100644
--- a/src/vm/compiler.c
+++ b/src/vm/compiler.c
@@ -61,10 +61,12 @@ static void advance(Parser *parser) {
     }
 }
 
-static void recede(Parser *parser){
-    for (int i = 0; i < parser->current.length; ++i) {
-            backTrack(&parser->scanner);
-    }
+// Go back so that [token], which has already been scanned, is the current one
+static void recede(Parser *parser, LangToken token) {
+    parser->scanner.current = token.start + token.length;
+    parser->scanner.line = token.line;
+    parser->scanner.rawString = token.type == TOKEN_R;
+    parser->current = token;
 }
 
 static void consume(Compiler *compiler, LangTokenType type, const char *message) {
@@ -2771,33 +2773,26 @@ static void unpackListStatement(Compiler *compiler){
     LangToken previous=compiler->parser->previous;
     do {
         if(!check(compiler,TOKEN_IDENTIFIER)){
-            if(varCount>0){
-                recede(compiler->parser);
-            }
-            int varsAndCommas=varCount+(varCount-1);
-            for(int var=0;var<varsAndCommas;var++){
-                recede(compiler->parser);
-            }
-            recede(compiler->parser);
-            compiler->parser->current=previous;
+            recede(compiler->parser, previous);
             expressionStatement(compiler);
             return;
         }
+
+        if (varCount == 255) {
+            errorAtCurrent(compiler->parser, "Cannot have more than 255 variables.");
+            return;
+        }
+
         consume(compiler, TOKEN_IDENTIFIER, "Expect variable name.");
         variables[varCount] = compiler->parser->previous;
         varCount++;
     } while (match(compiler, TOKEN_COMMA));
 
-    consume(compiler, TOKEN_RIGHT_BRACKET, "Expect ']' after list destructure.");
+    // Anything other than "] =" after the variables is the rest of an expression
+    bool destructure = match(compiler, TOKEN_RIGHT_BRACKET);
 
-    if(!check(compiler, TOKEN_EQUAL)){
-        recede(compiler->parser);
-        int varsAndCommas=varCount+(varCount-1);
-        for(int var=0;var<varsAndCommas;var++){
-                recede(compiler->parser);
-        }
-        recede(compiler->parser);
-        compiler->parser->current=previous;
+    if (!destructure || !check(compiler, TOKEN_EQUAL)) {
+        recede(compiler->parser, previous);
         expressionStatement(compiler);
         return;
     }
@@ -2930,23 +2925,14 @@ static void statement(Compiler *compiler) {
         }
 
         if (check(compiler, TOKEN_COLON)) {
-            for (int i = 0; i < parser->current.length + parser->previous.length; ++i) {
-                backTrack(&parser->scanner);
-            }
-
-            parser->current = previous;
+            recede(parser, previous);
             expressionStatement(compiler);
             return;
         }
 
-        // Reset the scanner to the previous position
-        for (int i = 0; i < parser->current.length; ++i) {
-            backTrack(&parser->scanner);
-        }
-
         // Reset the parser
         parser->previous = previous;
-        parser->current = curtok;
+        recede(parser, curtok);
 
         beginScope(compiler);
         block(compiler);
diff --git a/src/vm/scanner.c b/src/vm/scanner.c
index 61f4048..7aec834 100644
--- a/src/vm/scanner.c
+++ b/src/vm/scanner.c
@@ -344,6 +344,7 @@ static LangToken string(Scanner *scanner, char stringToken) {
             scanner->line++;
         } else if (peek(scanner) == '\\' && !scanner->rawString) {
             scanner->current++;
+            if (isAtEnd(scanner)) break;
         }
         advance(scanner);
     }
-- 
2.43.0


From a6b8f587f0d080b8b1ec5a5d622dc8ce9baf9387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:51 +0000
Subject: [PATCH 43/75] fix: Path.join() measures what it writes for empty and
 separator-only parts

---
 src/optionals/path.c | 61 +++++++++++++++++---------------------------
 1 file changed, 23 insertions(+), 38 deletions(-)

diff --git a/src/optionals/path.c b/src/optionals/path.c
index 9dc0939..47f67d2 100644
--- a/src/optionals/path.c
+++ b/src/optionals/path.c
@@ -264,59 +264,44 @@ static Value joinNative(DictuVM *vm, int argCount, Value *args) {
         }
     }
 
-    ObjString* part;
-    // resultSize = # of dir separators that will be used + length of each string arg
-    size_t resultSize = abs(argCount - 1); // abs is needed here because of a clang bug
+    size_t resultSize = argCount;
     for (int i = 0; i < argCount; ++i) {
-        part = AS_STRING(args[i]);
-        resultSize += part->length;
-        // Account for leading DIR_SEPARATOR chars to be removed
-        for (int j = 0; j < part->length; ++j) {
-            if (part->chars[j] == DIR_SEPARATOR) --resultSize;
-            else break;
-        }
-        // Account for trailing DIR_SEPARATOR chars to be removed
-        for (int j = part->length - 1; j >= 0; --j) {
-            if (part->chars[j] == DIR_SEPARATOR) --resultSize;
-            else break;
-        }
+        resultSize += AS_STRING(args[i])->length;
     }
-    // Account for leading/trailing DIR_SEPARATOR on the first/last part respectively
-    part = AS_STRING(args[0]);
-    resultSize += part->chars[0] == DIR_SEPARATOR;
-    part = AS_STRING(args[argCount - 1]);
-    resultSize += part->chars[part->length - 1] == DIR_SEPARATOR;
 
     char* str = ALLOCATE(vm, char, resultSize + 1);
     char* dest = str;
     for (int i = 0; i < argCount; ++i) {
-        part = AS_STRING(args[i]);
+        ObjString* part = AS_STRING(args[i]);
 
         // Skip leading DIR_SEPARATOR characters on everything except for one on the first part,
         // and trailing DIR_SEPARATOR characters on everything except for one on the last part.
         // e.g. `join('///tmp///', '/abc///')` returns '/tmp/abc' instead of '///tmp////abc///'
         int start = 0;
-        while (part->chars[start++] == DIR_SEPARATOR);
-        int end = part->length - 1;
-        while (part->chars[end--] == DIR_SEPARATOR);
-
-        bool lastIteration = i == argCount - 1;
-
-        // Check if the first part starts with a DIR_SEPARATOR so that we can preserve it
-        bool firstLeadingDirSep = !i && part->chars[0] == DIR_SEPARATOR;
-
-        // Check if the last part ends with a DIR_SEPARATOR so that we can preserve it
-        bool lastTrailingDirSep = lastIteration && part->chars[part->length - 1] == DIR_SEPARATOR;
+        while (start < part->length && part->chars[start] == DIR_SEPARATOR) ++start;
+        int end = part->length;
+        while (end > start && part->chars[end - 1] == DIR_SEPARATOR) --end;
+
+        if (i == 0) {
+            // Preserve the leading DIR_SEPARATOR of the first part
+            if (start > 0) *dest++ = DIR_SEPARATOR;
+        } else if (i > 1 || dest != str + 1 || *str != DIR_SEPARATOR) {
+            // Separate the parts, unless the first one is nothing but a DIR_SEPARATOR
+            *dest++ = DIR_SEPARATOR;
+        }
 
-        // Append the part string to the end of dest
-        for (int j = start - 1 - firstLeadingDirSep; j <= end + 1 + lastTrailingDirSep; ++j)
-            *dest++ = part->chars[j];
+        memcpy(dest, part->chars + start, end - start);
+        dest += end - start;
 
-        // Append a DIR_SEPARATOR if necessary
-        if (!lastIteration && part->chars[end + 1] != DIR_SEPARATOR) *dest++ = DIR_SEPARATOR;
+        // Preserve the trailing DIR_SEPARATOR of the last part
+        if (i == argCount - 1 && start < end && end < part->length) *dest++ = DIR_SEPARATOR;
     }
 
-    return OBJ_VAL(takeString(vm, str, resultSize));
+    size_t length = dest - str;
+    str = SHRINK_ARRAY(vm, str, char, resultSize + 1, length + 1);
+    str[length] = '\0';
+
+    return OBJ_VAL(takeString(vm, str, length));
 }
 
 Value createPathModule(DictuVM *vm) {
-- 
2.43.0


From e6b6f6467879e0332edd519f73ac03900a9d819d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:51 +0000
Subject: [PATCH 44/75] fix: JSON.stringify() reports values it cannot express
 inside a list or dictionary instead of crashing

---
 src/optionals/json.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/optionals/json.c b/src/optionals/json.c
index 63c0691..2140092 100644
--- a/src/optionals/json.c
+++ b/src/optionals/json.c
@@ -120,7 +120,14 @@ json_value* stringifyJson(DictuVM *vm, Value value) {
                 json_value *json = json_array_new(list->values.count);
 
                 for (int i = 0; i < list->values.count; i++) {
-                    json_array_push(json, stringifyJson(vm, list->values.values[i]));
+                    json_value *element = stringifyJson(vm, list->values.values[i]);
+
+                    if (element == NULL) {
+                        json_builder_free(json);
+                        return NULL;
+                    }
+
+                    json_array_push(json, element);
                 }
 
                 return json;
@@ -136,6 +143,13 @@ json_value* stringifyJson(DictuVM *vm, Value value) {
                         continue;
                     }
 
+                    json_value *element = stringifyJson(vm, entry->value);
+
+                    if (element == NULL) {
+                        json_builder_free(json);
+                        return NULL;
+                    }
+
                     char *key;
 
                     if (IS_STRING(entry->key)) {
@@ -152,7 +166,7 @@ json_value* stringifyJson(DictuVM *vm, Value value) {
                     json_object_push(
                         json,
                         key,
-                        stringifyJson(vm, entry->value)
+                        element
                     );
 
                     if (!IS_STRING(entry->key)) {
-- 
2.43.0


From 1b96dcefadff153fb0794823561b5c5636038f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:37 +0000
Subject: [PATCH 45/75] fix: Class.toDict() keeps its parts alive until they
 are in the result

It took the values off the stack in the wrong order, so the list of methods
could be collected before it was stored.
---
 src/vm/object.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vm/object.c b/src/vm/object.c
index da57032..19adc15 100644
--- a/src/vm/object.c
+++ b/src/vm/object.c
@@ -601,20 +601,20 @@ ObjDict *classToDict(DictuVM *vm, Value value) {
     push(vm, OBJ_VAL(variables));
     dictSet(vm, classDict, variables, OBJ_VAL(variablesDict));
     pop(vm);
-    pop(vm); // variablesDict
 
     Value constants = OBJ_VAL(copyString(vm, "constants", 9));
     push(vm, OBJ_VAL(constants));
     dictSet(vm, classDict, constants, OBJ_VAL(constantsDict));
     pop(vm);
-    pop(vm); // constantsDict
 
     Value methods = OBJ_VAL(copyString(vm, "public_methods", 14));
     push(vm, OBJ_VAL(methods));
     dictSet(vm, classDict, methods, OBJ_VAL(methodsList));
     pop(vm);
-    pop(vm); // methodsList
 
+    pop(vm); // methodsList
+    pop(vm); // constantsDict
+    pop(vm); // variablesDict
     pop(vm); // classDict
     return classDict;
 }
-- 
2.43.0


From 9fdcbf3b3b9d2e15fd21cdf2f5ab8f802fd207f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:06 +0000
Subject: [PATCH 46/75] fix: unbounded recursion is a runtime error instead of
 a write past the value stack

---
 src/vm/vm.c | 13 ++++++++++++-
 src/vm/vm.h |  2 ++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index 0c0734f..f33cbad 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -41,7 +41,12 @@ static void resetStack(DictuVM *vm) {
             return false;                                                           \
         }                                                                           \
                                                                                     \
-        ObjList *list = AS_LIST(pop(vm));                                     \
+        ObjList *list = AS_LIST(pop(vm));                                           \
+                                                                                    \
+        if (list->values.count > STACK_MAX - STACK_RESERVE / 2 - (vm->stackTop - vm->stack)) { \
+            runtimeError(vm, "Stack overflow.");                                    \
+            return false;                                                           \
+        }                                                                           \
                                                                                     \
         for (int i = 0; i < list->values.count; ++i) {                              \
             push(vm, list->values.values[i]);                                       \
@@ -266,6 +271,12 @@ static bool call(DictuVM *vm, ObjClosure *closure, int argCount) {
         vm->stackTop -= 2;
         push(vm, OBJ_VAL(list));
     }
+
+    if (vm->stackTop - vm->stack > STACK_MAX - STACK_RESERVE) {
+        runtimeError(vm, "Stack overflow.");
+        return false;
+    }
+
     if (vm->frameCount == vm->frameCapacity) {
         int oldCapacity = vm->frameCapacity;
         vm->frameCapacity = GROW_CAPACITY(vm->frameCapacity);
diff --git a/src/vm/vm.h b/src/vm/vm.h
index 9bc63e2..ed94c5d 100644
--- a/src/vm/vm.h
+++ b/src/vm/vm.h
@@ -8,6 +8,8 @@
 
 // TODO: Work out the maximum stack size at compilation time
 #define STACK_MAX (64 * UINT8_COUNT)
+// What has to be left of the stack for a function to be called
+#define STACK_RESERVE (4 * UINT8_COUNT)
 
 typedef struct {
     ObjClosure *closure;
-- 
2.43.0


From d9b5307af98d408344a1b5f9b779290bedb8f117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:09 +0000
Subject: [PATCH 47/75] fix: a declaration that failed in the REPL does not
 leave its name constant

The names of constants were kept for the whole session even if their input did
not compile or run, were shared with the modules a session imports, and could
be collected while the table still held them.  A module whose call would
overflow the stack is reported too.
---
 src/vm/compiler.c | 29 +++++++++++++++++++++++++++--
 src/vm/memory.c   |  1 +
 src/vm/vm.c       | 14 ++++++++------
 3 files changed, 36 insertions(+), 8 deletions(-)

diff --git a/src/vm/compiler.c b/src/vm/compiler.c
index 523040c..2e85d33 100644
--- a/src/vm/compiler.c
+++ b/src/vm/compiler.c
@@ -2955,6 +2955,29 @@ ObjFunction *compile(DictuVM *vm, ObjModule *module, const char *source) {
     initScanner(&scanner, source);
     parser.scanner = scanner;
 
+    // The constants of the repl live for the entirety of the execution (unless what should
+    // have defined them failed), those of any other module while it is compiled
+    bool session = vm->repl && vm->frameCount == 0;
+    Table constants;
+    initTable(&constants);
+
+    if (session) {
+        for (int i = 0; i < vm->constants.capacity; i++) {
+            ObjString *key = vm->constants.entries[i].key;
+            Value _;
+
+            if (key != NULL && tableGet(&module->values, key, &_)) {
+                tableSet(vm, &constants, key, NIL_VAL);
+            }
+        }
+
+        freeTable(vm, &vm->constants);
+        tableAddAll(vm, &constants, &vm->constants);
+    } else {
+        constants = vm->constants;
+        initTable(&vm->constants);
+    }
+
     Compiler compiler;
     initCompiler(&parser, &compiler, NULL, TYPE_TOP_LEVEL, ACCESS_PUBLIC);
 
@@ -2968,9 +2991,11 @@ ObjFunction *compile(DictuVM *vm, ObjModule *module, const char *source) {
 
     ObjFunction *function = endCompiler(&compiler);
 
-    // If we're in the repl we need the constants to live for the entirety of the execution
-    if (!vm->repl) {
+    if (session && !parser.hadError) {
+        freeTable(vm, &constants);
+    } else {
         freeTable(vm, &vm->constants);
+        vm->constants = constants;
     }
 
     // If there was a compile error, the code is not valid, so don't
diff --git a/src/vm/memory.c b/src/vm/memory.c
index 24a3cb5..3b97c16 100644
--- a/src/vm/memory.c
+++ b/src/vm/memory.c
@@ -349,6 +349,7 @@ void collectGarbage(DictuVM *vm) {
     // Mark the global roots.
     grayTable(vm, &vm->modules);
     grayTable(vm, &vm->globals);
+    grayTable(vm, &vm->constants);
     grayTable(vm, &vm->numberMethods);
     grayTable(vm, &vm->boolMethods);
     grayTable(vm, &vm->nilMethods);
diff --git a/src/vm/vm.c b/src/vm/vm.c
index f33cbad..9ee9b32 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -159,10 +159,6 @@ DictuVM *dictuInitVM(bool repl, int argc, char **argv) {
 }
 
 void dictuFreeVM(DictuVM *vm) {
-    if (vm->repl) {
-        freeTable(vm, &vm->constants);
-    }
-
     freeTable(vm, &vm->modules);
     freeTable(vm, &vm->globals);
     freeTable(vm, &vm->constants);
@@ -1743,7 +1739,10 @@ static DictuInterpretResult run(DictuVM *vm) {
             push(vm, OBJ_VAL(closure));
 
             frame->ip = ip;
-            call(vm, closure, 0);
+            if (!call(vm, closure, 0)) {
+                return INTERPRET_RUNTIME_ERROR;
+            }
+
             frame = &vm->frames[vm->frameCount - 1];
             ip = frame->ip;
 
@@ -1772,7 +1771,10 @@ static DictuInterpretResult run(DictuVM *vm) {
 
             if (IS_CLOSURE(module)) {
                 frame->ip = ip;
-                call(vm, AS_CLOSURE(module), 0);
+                if (!call(vm, AS_CLOSURE(module), 0)) {
+                    return INTERPRET_RUNTIME_ERROR;
+                }
+
                 frame = &vm->frames[vm->frameCount - 1];
                 ip = frame->ip;
 
-- 
2.43.0


From 8cdf5b14e475779e0bff73adb960c888738b3630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:17 +0000
Subject: [PATCH 48/75] fix: the table of strings does not grow with every
 string ever made

An entry reused after a deletion was counted again, so a table whose entries
come and go doubled over and over however few of them were in use.
---
 src/vm/table.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/vm/table.c b/src/vm/table.c
index e1c0e9d..806d032 100644
--- a/src/vm/table.c
+++ b/src/vm/table.c
@@ -80,17 +80,29 @@ static void adjustCapacity(DictuVM *vm, Table *table, int capacityMask) {
 
 bool tableSet(DictuVM *vm, Table *table, ObjString *key, Value value) {
     if (table->count + 1 > table->capacity * TABLE_MAX_LOAD) {
-        int capacity = GROW_CAPACITY(table->capacity);
+        // The count includes tombstones, so only grow if the live entries need it
+        int live = 0;
+        for (int i = 0; i < table->capacity; i++) {
+            if (table->entries[i].key != NULL) live++;
+        }
+
+        int capacity = table->capacity;
+        if (live + 1 > capacity * TABLE_MAX_LOAD / 2) {
+            capacity = GROW_CAPACITY(capacity);
+        }
+
         adjustCapacity(vm, table, capacity);
     }
 
     Entry *entry = findEntry(table->entries, table->capacity, key);
     bool isNewKey = entry->key == NULL;
+
+    // A reused tombstone is already counted
+    if (isNewKey && IS_NIL(entry->value)) table->count++;
+
     entry->key = key;
     entry->value = value;
 
-    if (isNewKey) table->count++;
-
     return isNewKey;
 }
 
-- 
2.43.0


From 7377996efb433e9b0bf9dbe7c63b8d6c78a948d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:17 +0000
Subject: [PATCH 49/75] fix: removing elements from a set cannot make later
 searches endless

Removed elements stayed in the way of searches without ever being counted or
reused, so once no empty entry was left looking for a missing value hung, and
removing a value twice succeeded and miscounted.
---
 src/vm/value.c | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/vm/value.c b/src/vm/value.c
index 2faa2c5..478d52d 100644
--- a/src/vm/value.c
+++ b/src/vm/value.c
@@ -263,9 +263,24 @@ bool setDelete(DictuVM *vm, ObjSet *set, Value value) {
     SetItem *entry = findSetEntry(set->entries, set->capacityMask, value);
     if (IS_EMPTY(entry->value)) return false;
 
-    // Place a tombstone in the entry.
+    // Close the gap, so that every search still ends at an empty entry.
     set->count--;
-    entry->deleted = true;
+
+    uint32_t gap = entry - set->entries;
+    uint32_t next = (gap + 1) & set->capacityMask;
+
+    while (!IS_EMPTY(set->entries[next].value)) {
+        uint32_t home = hashValue(set->entries[next].value) & set->capacityMask;
+
+        if (((next - home) & set->capacityMask) >= ((next - gap) & set->capacityMask)) {
+            set->entries[gap] = set->entries[next];
+            gap = next;
+        }
+
+        next = (next + 1) & set->capacityMask;
+    }
+
+    set->entries[gap].value = EMPTY_VAL;
 
     if (set->count - 1 < set->capacityMask * TABLE_MIN_LOAD) {
         // Figure out the new table size.
-- 
2.43.0


From 2cbbab298aba0c2c2a85c254ace9aa155c80c580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:52 +0000
Subject: [PATCH 50/75] fix: the superclass of a class declared in a block does
 not stay on the stack

The superclass was left on the stack below the class and its local variable
never left the compiler, so a subclass declared inside a function or a loop
shifted every later local variable, could not be used by its own name and grew
the stack on each iteration past its end.  The annotations of an abstract class
were written into whatever was on the stack after the class had been stored,
and a break after an enum was looked for inside its operands.
---
 src/vm/compiler.c | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/src/vm/compiler.c b/src/vm/compiler.c
index 2e85d33..1cf0214 100644
--- a/src/vm/compiler.c
+++ b/src/vm/compiler.c
@@ -1995,7 +1995,8 @@ static void parseClassBody(Compiler *compiler) {
 static void classDeclaration(Compiler *compiler) {
     consume(compiler, TOKEN_IDENTIFIER, "Expect class name.");
     uint8_t nameConstant = identifierConstant(compiler, &compiler->parser->previous);
-    declareVariable(compiler, &compiler->parser->previous);
+    LangToken name = compiler->parser->previous;
+    int superclassSlot = 0;
 
     ClassCompiler classCompiler;
     setupClassCompiler(compiler, &classCompiler, false);
@@ -2004,13 +2005,17 @@ static void classDeclaration(Compiler *compiler) {
         expression(compiler);
         classCompiler.hasSuperclass = true;
 
-        beginScope(compiler);
-
-        // Store the superclass in a local variable named "super".
+        // Store the superclass in a local variable named "super", which stays
+        // below the class until the end of the scope.
         addLocal(compiler, syntheticToken("super"));
+        superclassSlot = compiler->localCount - 1;
+        compiler->locals[superclassSlot].depth = compiler->scopeDepth;
+        declareVariable(compiler, &name);
 
         emitBytes(compiler, OP_SUBCLASS, CLASS_DEFAULT);
     } else {
+        declareVariable(compiler, &name);
+
         emitBytes(compiler, OP_CLASS, CLASS_DEFAULT);
     }
     emitByte(compiler, nameConstant);
@@ -2022,7 +2027,8 @@ static void classDeclaration(Compiler *compiler) {
     consume(compiler, TOKEN_RIGHT_BRACE, "Expect '}' after class body.");
 
     if (classCompiler.hasSuperclass) {
-        endScope(compiler);
+        // The body is over, "super" means something else from here on
+        compiler->locals[superclassSlot].name = syntheticToken("");
 
         // If there's a super class, check abstract methods have been defined
         emitByte(compiler, OP_END_CLASS);
@@ -2037,7 +2043,8 @@ static void abstractClassDeclaration(Compiler *compiler) {
 
     consume(compiler, TOKEN_IDENTIFIER, "Expect class name after class keyword.");
     uint8_t nameConstant = identifierConstant(compiler, &compiler->parser->previous);
-    declareVariable(compiler, &compiler->parser->previous);
+    LangToken name = compiler->parser->previous;
+    int superclassSlot = 0;
 
     ClassCompiler classCompiler;
     setupClassCompiler(compiler, &classCompiler, true);
@@ -2046,13 +2053,17 @@ static void abstractClassDeclaration(Compiler *compiler) {
         expression(compiler);
         classCompiler.hasSuperclass = true;
 
-        beginScope(compiler);
-
-        // Store the superclass in a local variable named "super".
+        // Store the superclass in a local variable named "super", which stays
+        // below the class until the end of the scope.
         addLocal(compiler, syntheticToken("super"));
+        superclassSlot = compiler->localCount - 1;
+        compiler->locals[superclassSlot].depth = compiler->scopeDepth;
+        declareVariable(compiler, &name);
 
         emitBytes(compiler, OP_SUBCLASS, CLASS_ABSTRACT);
     } else {
+        declareVariable(compiler, &name);
+
         emitBytes(compiler, OP_CLASS, CLASS_ABSTRACT);
     }
     emitByte(compiler, nameConstant);
@@ -2064,11 +2075,12 @@ static void abstractClassDeclaration(Compiler *compiler) {
     consume(compiler, TOKEN_RIGHT_BRACE, "Expect '}' after class body.");
 
     if (classCompiler.hasSuperclass) {
-        endScope(compiler);
+        // The body is over, "super" means something else from here on
+        compiler->locals[superclassSlot].name = syntheticToken("");
     }
 
-    defineVariable(compiler, nameConstant, false);
     endClassCompiler(compiler, &classCompiler);
+    defineVariable(compiler, nameConstant, false);
 }
 
 static void traitDeclaration(Compiler *compiler) {
@@ -2265,6 +2277,8 @@ static int getArgCount(uint8_t *code, const ValueArray constants, int ip) {
         case OP_DEFINE_CLASS_ANNOTATIONS:
         case OP_DEFINE_METHOD_ANNOTATIONS:
         case OP_DEFINE_FIELD_ANNOTATIONS:
+        case OP_ENUM:
+        case OP_SET_ENUM_VALUE:
             return 1;
 
         case OP_DEFINE_OPTIONAL:
-- 
2.43.0


From 81f60fde5b8817c527aca6920dc48d6982731648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:23 +0000
Subject: [PATCH 51/75] fix: variables captured by closures survive a runtime
 error

The error dropped the stack without closing the upvalues that pointed into it,
so functions of an earlier input of the same session read and wrote whatever
later inputs put there.
---
 src/vm/vm.c | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index 9ee9b32..8d52e01 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -58,6 +58,21 @@ static void resetStack(DictuVM *vm) {
 
 #define INSTANCE_HAS_NO_ATTR_ERR RUNTIME_ERROR("'%s' instance has no attribute: '%s'.", instance->klass->name->chars, name->chars)
 
+static void closeUpvalues(DictuVM *vm, Value *last) {
+    while (vm->openUpvalues != NULL &&
+           vm->openUpvalues->value >= last) {
+        ObjUpvalue *upvalue = vm->openUpvalues;
+
+        // Move the value into the upvalue itself and point the upvalue to
+        // it.
+        upvalue->closed = *upvalue->value;
+        upvalue->value = &upvalue->closed;
+
+        // Pop it off the open upvalue list.
+        vm->openUpvalues = upvalue->next;
+    }
+}
+
 void runtimeError(DictuVM *vm, const char *format, ...) {
     for (int i = vm->frameCount - 1; i >= 0; i--) {
         CallFrame *frame = &vm->frames[i];
@@ -84,6 +99,8 @@ void runtimeError(DictuVM *vm, const char *format, ...) {
         va_end(args);
     }
 
+    // What closures captured outlives the stack
+    closeUpvalues(vm, vm->stack);
     resetStack(vm);
 }
 
@@ -762,21 +779,6 @@ static ObjUpvalue *captureUpvalue(DictuVM *vm, Value *local) {
     return createdUpvalue;
 }
 
-static void closeUpvalues(DictuVM *vm, Value *last) {
-    while (vm->openUpvalues != NULL &&
-           vm->openUpvalues->value >= last) {
-        ObjUpvalue *upvalue = vm->openUpvalues;
-
-        // Move the value into the upvalue itself and point the upvalue to
-        // it.
-        upvalue->closed = *upvalue->value;
-        upvalue->value = &upvalue->closed;
-
-        // Pop it off the open upvalue list.
-        vm->openUpvalues = upvalue->next;
-    }
-}
-
 static void defineMethod(DictuVM *vm, ObjString *name) {
     Value method = peek(vm, 0);
     ObjClass *klass = AS_CLASS(peek(vm, 1));
-- 
2.43.0


From 5e80d49423fcbae731421fb173aec955eda57c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:35 +0000
Subject: [PATCH 52/75] fix: the table of strings shrinks with the strings

Its size counts towards when to collect next, and it grew whenever garbage
filled it before that, so each made the other larger without bound.
---
 src/vm/table.c | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/vm/table.c b/src/vm/table.c
index 806d032..a5a06e6 100644
--- a/src/vm/table.c
+++ b/src/vm/table.c
@@ -5,6 +5,7 @@
 #include "object.h"
 #include "table.h"
 #include "value.h"
+#include "vm.h"
 
 #define TABLE_MAX_LOAD 0.75
 
@@ -54,8 +55,7 @@ bool tableGet(Table *table, ObjString *key, Value *value) {
     return true;
 }
 
-static void adjustCapacity(DictuVM *vm, Table *table, int capacityMask) {
-    Entry *entries = ALLOCATE(vm, Entry, capacityMask);
+static void rehash(DictuVM *vm, Table *table, Entry *entries, int capacityMask) {
     for (int i = 0; i < capacityMask; i++) {
         entries[i].key = NULL;
         entries[i].value = NIL_VAL;
@@ -78,6 +78,11 @@ static void adjustCapacity(DictuVM *vm, Table *table, int capacityMask) {
     table->capacity = capacityMask;
 }
 
+static void adjustCapacity(DictuVM *vm, Table *table, int capacityMask) {
+    Entry *entries = ALLOCATE(vm, Entry, capacityMask);
+    rehash(vm, table, entries, capacityMask);
+}
+
 bool tableSet(DictuVM *vm, Table *table, ObjString *key, Value value) {
     if (table->count + 1 > table->capacity * TABLE_MAX_LOAD) {
         // The count includes tombstones, so only grow if the live entries need it
@@ -156,10 +161,29 @@ ObjString *tableFindString(Table *table, const char *chars, int length,
 }
 
 void tableRemoveWhite(DictuVM *vm, Table *table) {
+    int live = 0;
     for (int i = 0; i < table->capacity; i++) {
         Entry *entry = &table->entries[i];
-        if (entry->key != NULL && !entry->key->obj.isDark) {
-            tableDelete(vm, table, entry->key);
+        if (entry->key != NULL) {
+            if (entry->key->obj.isDark) {
+                live++;
+            } else {
+                tableDelete(vm, table, entry->key);
+            }
+        }
+    }
+
+    // The size of the table counts towards when to collect next, so one that keeps the size
+    // needed by strings which are gone would only ever grow
+    int capacity = table->capacity;
+    while (capacity > 8 && live < capacity * TABLE_MAX_LOAD / 4) capacity /= 2;
+
+    if (capacity != table->capacity) {
+        // This is called by the garbage collector, so it can not be triggered again
+        Entry *entries = malloc(sizeof(Entry) * capacity);
+        if (entries != NULL) {
+            vm->bytesAllocated += sizeof(Entry) * capacity;
+            rehash(vm, table, entries, capacity);
         }
     }
 }
-- 
2.43.0


From db01292ab3cf620ae880124160d6be942e8a214f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:22 +0000
Subject: [PATCH 53/75] fix: Object.hash() is only the digits of the hash

---
 src/optionals/object/object.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/optionals/object/object.c b/src/optionals/object/object.c
index ff5553d..1f1ddd6 100644
--- a/src/optionals/object/object.c
+++ b/src/optionals/object/object.c
@@ -55,8 +55,8 @@ static Value objectHash(DictuVM *vm, int argCount, Value *args) {
     }
 
     char str[21];
-    sprintf(str, "%llu", (unsigned long long)args[0]);
-    return OBJ_VAL(copyString(vm, (char *)str, 21));
+    int length = sprintf(str, "%llu", (unsigned long long)args[0]);
+    return OBJ_VAL(copyString(vm, str, length));
 }
 
 static Value objectPrettyPrint(DictuVM *vm, int argCount, Value *args) {
-- 
2.43.0


From 3cf784eda1c76df9c42c2b712e55e2faa983b52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:22 +0000
Subject: [PATCH 54/75] fix: reading a line from a file or pipe does not look
 past the byte it read

---
 src/cli/linenoise/linenoise.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/cli/linenoise/linenoise.c b/src/cli/linenoise/linenoise.c
index 2720e51..205e7a3 100644
--- a/src/cli/linenoise/linenoise.c
+++ b/src/cli/linenoise/linenoise.c
@@ -1880,7 +1880,8 @@ static stringbuf *sb_getline(FILE *fh)
     int n = 0;
 
     while ((c = getc(fh)) != EOF) {
-        char ch;
+        /* a terminated string: counting its characters looks past the first byte of a sequence */
+        char ch[2] = {0};
         n++;
         if (c == '\r') {
             /* CRLF -> LF */
@@ -1889,9 +1890,9 @@ static stringbuf *sb_getline(FILE *fh)
         if (c == '\n' || c == '\r') {
             break;
         }
-        ch = c;
+        ch[0] = c;
         /* ignore the effect of character count for partial utf8 sequences */
-        sb_append_len(sb, &ch, 1);
+        sb_append_len(sb, ch, 1);
     }
     if (n == 0) {
         sb_free(sb);
-- 
2.43.0


From fc681addbda9ed583e973a99c53f43cf7904375a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:20 +0000
Subject: [PATCH 55/75] fix: Hashlib.hmac() with an empty key returns the
 digest for that key

---
 src/optionals/hashlib.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/optionals/hashlib.c b/src/optionals/hashlib.c
index ba8af5e..15b2222 100644
--- a/src/optionals/hashlib.c
+++ b/src/optionals/hashlib.c
@@ -64,7 +64,8 @@ static Value hmac(DictuVM *vm, int argCount, Value *args) {
 
     uint8_t digest[32];
     struct tc_hmac_state_struct h;
-    (void)tc_hmac_set_key(&h, (const uint8_t *) key->chars, key->length);
+    // An empty key and a single zero byte are padded to the same key.
+    (void)tc_hmac_set_key(&h, (const uint8_t *) key->chars, key->length > 0 ? key->length : 1);
     tc_hmac_init(&h);
     tc_hmac_update(&h, string->chars, string->length);
     tc_hmac_final(digest, TC_SHA256_DIGEST_SIZE, &h);
-- 
2.43.0


From 0637c0e63f551ca6bea6f6fe8bf8d58ef0a35f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:30 +0000
Subject: [PATCH 56/75] fix: a queue that wrapped around keeps its elements
 when it grows and when garbage is collected

---
 src/optionals/queue.c | 41 ++++++++++++++++++-----------------------
 1 file changed, 18 insertions(+), 23 deletions(-)

diff --git a/src/optionals/queue.c b/src/optionals/queue.c
index f09a76c..afe5333 100644
--- a/src/optionals/queue.c
+++ b/src/optionals/queue.c
@@ -34,26 +34,8 @@ void grayQueue(DictuVM *vm, ObjAbstract *abstract) {
 
     if (queue == NULL) return;
 
-    if (queue->count == queue->capacity) {
-        for (int i = queue->front; i < queue->capacity; ++i) {
-            grayValue(vm, queue->dq[i]);
-        }
-
-        return;
-    }
-
-    if (queue->rear + 1 < queue->front) {
-        for (int i = queue->front; i < queue->capacity; ++i) {
-            grayValue(vm, queue->dq[i]);
-        }
-
-        for (int i = 0; i < queue->rear + 1; ++i) {
-            grayValue(vm, queue->dq[i]);
-        }
-    } else {
-        for (int i = queue->front; i < queue->rear + 1; ++i) {
-            grayValue(vm, queue->dq[i]);
-        }
+    for (int i = 0; i < queue->count; ++i) {
+        grayValue(vm, queue->dq[(queue->front + i) % queue->capacity]);
     }
 }
 
@@ -110,7 +92,12 @@ static Value queuePeek(DictuVM *vm, int argCount, Value *args) {
     }
 
     Queue *queue = AS_QUEUE(args[0]);
-    
+
+    if (queue->count == 0) {
+        runtimeError(vm, "peek() called on an empty queue");
+        return EMPTY_VAL;
+    }
+
     return queue->dq[queue->front];
 }
 
@@ -124,8 +111,16 @@ static Value queuePush(DictuVM *vm, int argCount, Value *args) {
 
     if (queue->capacity < queue->count + 1) {
         int oldCapacity = queue->capacity;
-        queue->capacity = GROW_CAPACITY(oldCapacity);
-        queue->dq = GROW_ARRAY(vm, queue->dq, Value, oldCapacity, queue->capacity);
+        int newCapacity = GROW_CAPACITY(oldCapacity);
+        queue->dq = GROW_ARRAY(vm, queue->dq, Value, oldCapacity, newCapacity);
+        queue->capacity = newCapacity;
+
+        // When elements had wrapped around, those before the wrap move to the new end.
+        if (queue->front > 0) {
+            int front = queue->front + newCapacity - oldCapacity;
+            memmove(queue->dq + front, queue->dq + queue->front, (oldCapacity - queue->front) * sizeof(Value));
+            queue->front = front;
+        }
     }
 
     if (queue->rear == queue->capacity-1) {
-- 
2.43.0


From 00a955f85877742dbf50a63103be043a07f85495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:30 +0000
Subject: [PATCH 57/75] fix: the capacity of a queue or stack is a whole number

---
 src/optionals/queue.c | 8 ++++----
 src/optionals/stack.c | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/optionals/queue.c b/src/optionals/queue.c
index afe5333..cc4a3a4 100644
--- a/src/optionals/queue.c
+++ b/src/optionals/queue.c
@@ -133,7 +133,7 @@ static Value queuePush(DictuVM *vm, int argCount, Value *args) {
     return NIL_VAL;
 }
 
-Queue* createQueue(DictuVM *vm, double capacity);
+Queue* createQueue(DictuVM *vm, int capacity);
 
 static void shrinkQueue(DictuVM *vm, Queue *queue) {
     int oldCapacity = queue->capacity;
@@ -189,7 +189,7 @@ static Value queuePop(DictuVM *vm, int argCount, Value *args) {
     return data;
 }
 
-Queue* createQueue(DictuVM *vm, double capacity) {
+Queue* createQueue(DictuVM *vm, int capacity) {
     Queue *queue = ALLOCATE(vm, Queue, 1);
     queue->dq = ALLOCATE(vm, Value, capacity);
     queue->capacity = capacity;
@@ -200,7 +200,7 @@ Queue* createQueue(DictuVM *vm, double capacity) {
     return queue;
 }
 
-ObjAbstract* newQueueObj(DictuVM *vm, double capacity) {
+ObjAbstract* newQueueObj(DictuVM *vm, int capacity) {
     ObjAbstract *abstract = newAbstract(vm, freeQueue, queueToString);
     push(vm, OBJ_VAL(abstract));
 
@@ -246,7 +246,7 @@ static Value newQueueWithSize(DictuVM *vm, int argCount, Value *args) {
         return EMPTY_VAL;
     }
 
-    double capacity = AS_NUMBER(args[0]);
+    int capacity = AS_NUMBER(args[0]);
     if (capacity <= 0) {
         return newResultError(vm, "capacity must be greater than 0");
     }
diff --git a/src/optionals/stack.c b/src/optionals/stack.c
index 3916291..a1272e3 100644
--- a/src/optionals/stack.c
+++ b/src/optionals/stack.c
@@ -136,7 +136,7 @@ static Value stackPop(DictuVM *vm, int argCount, Value *args) {
     return data;
 }
 
-ObjAbstract* newStackObj(DictuVM *vm, double capacity) {
+ObjAbstract* newStackObj(DictuVM *vm, int capacity) {
     ObjAbstract *abstract = newAbstract(vm, freeStack, stackToString);
     push(vm, OBJ_VAL(abstract));
 
@@ -186,7 +186,7 @@ static Value newStackWithSize(DictuVM *vm, int argCount, Value *args) {
         return EMPTY_VAL;
     }
 
-    double capacity = AS_NUMBER(args[0]);
+    int capacity = AS_NUMBER(args[0]);
     if (capacity <= 0) {
         return newResultError(vm, "capacity must be greater than 0");
     }
-- 
2.43.0


From d0efb8b33493adfe6bd2dce373d24c3a768c0261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:30 +0000
Subject: [PATCH 58/75] fix: peek() on an empty stack is an error instead of a
 read before its memory

---
 src/optionals/stack.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/optionals/stack.c b/src/optionals/stack.c
index a1272e3..ef52170 100644
--- a/src/optionals/stack.c
+++ b/src/optionals/stack.c
@@ -90,7 +90,12 @@ static Value stackPeek(DictuVM *vm, int argCount, Value *args) {
     }
 
     Stack *stack = AS_STACK(args[0]);
-    
+
+    if (stack->top == 0) {
+        runtimeError(vm, "peek() called on an empty stack");
+        return EMPTY_VAL;
+    }
+
     return stack->ds[stack->top - 1];
 }
 
-- 
2.43.0


From b5d70cda11bd8f7b85c6fac6f67f1d2532925ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:28 +0000
Subject: [PATCH 59/75] fix: what one input of a session leaves on the stack
 goes away with it

---
 src/vm/vm.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index 8d52e01..8aba784 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -2272,12 +2272,13 @@ static DictuInterpretResult run(DictuVM *vm) {
 
             vm->frameCount--;
 
+            // Superclasses declared at the top level are still on the stack.
+            vm->stackTop = frame->slots;
+
             if (vm->frameCount == 0) {
-                pop(vm);
                 return INTERPRET_OK;
             }
 
-            vm->stackTop = frame->slots;
             push(vm, result);
 
             frame = &vm->frames[vm->frameCount - 1];
-- 
2.43.0


From 154260a812ce6512796f17f651a1f2202aad24b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:23 +0000
Subject: [PATCH 60/75] fix: Hashlib.bcrypt() reports missing entropy instead
 of crashing or reusing the previous salt

---
 src/optionals/hashlib.c               | 7 ++++++-
 src/optionals/hashlib/bcrypt/bcrypt.c | 3 ++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/optionals/hashlib.c b/src/optionals/hashlib.c
index 15b2222..8c9c1fd 100644
--- a/src/optionals/hashlib.c
+++ b/src/optionals/hashlib.c
@@ -106,7 +106,12 @@ static Value bcrypt(DictuVM *vm, int argCount, Value *args) {
     }
 
     char *salt = bcrypt_gensalt(rounds);
-    char *hash = bcrypt_pass(AS_CSTRING(args[0]), salt);
+    char *hash = salt == NULL ? NULL : bcrypt_pass(AS_CSTRING(args[0]), salt);
+
+    if (hash == NULL) {
+        runtimeError(vm, "bcrypt() failed to generate a hash.");
+        return EMPTY_VAL;
+    }
 
     return OBJ_VAL(copyString(vm, hash, strlen(hash)));
 }
diff --git a/src/optionals/hashlib/bcrypt/bcrypt.c b/src/optionals/hashlib/bcrypt/bcrypt.c
index 4f0161b..b279f5f 100644
--- a/src/optionals/hashlib/bcrypt/bcrypt.c
+++ b/src/optionals/hashlib/bcrypt/bcrypt.c
@@ -387,7 +387,8 @@ bcrypt_gensalt(u_int8_t log_rounds)
 {
     static char    gsalt[BCRYPT_SALTSPACE];
 
-    bcrypt_initsalt(log_rounds, (u_int8_t*)gsalt, sizeof(gsalt));
+    if (bcrypt_initsalt(log_rounds, (u_int8_t*)gsalt, sizeof(gsalt)) != 0)
+        return NULL;
 
     return gsalt;
 }
-- 
2.43.0


From 12bbbdd27d025d7234ff0389a3566ef6a9415093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:59 +0000
Subject: [PATCH 61/75] fix: list pop() rejects the index one past the last
 element

---
 src/vm/datatypes/lists/lists.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vm/datatypes/lists/lists.c b/src/vm/datatypes/lists/lists.c
index 7389e39..9da894b 100644
--- a/src/vm/datatypes/lists/lists.c
+++ b/src/vm/datatypes/lists/lists.c
@@ -135,7 +135,7 @@ static Value popListItem(DictuVM *vm, int argCount, Value *args) {
         if (index < 0) {
             index = list->values.count + index;
         }
-        if (index < 0 || index > list->values.count) {
+        if (index < 0 || index >= list->values.count) {
             runtimeError(vm, "Index passed to pop() is out of bounds for the list given");
             return EMPTY_VAL;
         }
-- 
2.43.0


From a003f9ffa3c7e00cf9deea6ae76b7156a59f6522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:59 +0000
Subject: [PATCH 62/75] fix: account for the whole source of a module that
 contains a NUL byte

---
 src/vm/util.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/vm/util.c b/src/vm/util.c
index fa30f6f..68662c8 100644
--- a/src/vm/util.c
+++ b/src/vm/util.c
@@ -37,6 +37,13 @@ char *readFile(DictuVM *vm, const char *path) {
     }
 
     buffer[bytesRead] = '\0';
+
+    // The text ends at its first NUL, so that is the size the caller gives back
+    size_t length = strlen(buffer);
+    if (length != fileSize) {
+        buffer = SHRINK_ARRAY(vm, buffer, char, fileSize + 1, length + 1);
+    }
+
     return buffer;
 }
 
-- 
2.43.0


From 0484640ad7bf4390fd9ace4b289f88fb9e1fa8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:56 +0000
Subject: [PATCH 63/75] fix: Buffer rejects negative, NaN and out-of-range
 offsets instead of accessing memory outside the buffer

---
 src/optionals/buffer.c | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/optionals/buffer.c b/src/optionals/buffer.c
index 1015693..b1e406c 100644
--- a/src/optionals/buffer.c
+++ b/src/optionals/buffer.c
@@ -45,21 +45,23 @@ uint8_t *swap(uint8_t *ptr, size_t len, bool bigEndian) {
     return ptr;
 }
 
-bool ensureSize(Buffer *buffer, size_t offset, size_t size) {
-    return buffer->size - offset >= size;
+bool ensureSize(Buffer *buffer, double offset, size_t size) {
+    // Compared as a double so that a negative, NaN or huge offset is rejected.
+    return offset >= 0 && offset <= buffer->size &&
+           (size_t)buffer->size - (size_t)offset >= size;
 }
 
-bool writeInternal(Buffer *buffer, size_t offset, uint8_t *data, size_t len) {
+bool writeInternal(Buffer *buffer, double offset, uint8_t *data, size_t len) {
     if (!ensureSize(buffer, offset, len))
         return false;
-    memcpy(buffer->bytes + offset, data, len);
+    memcpy(buffer->bytes + (size_t)offset, data, len);
     return true;
 }
 
-uint8_t *getReadPtr(Buffer *buffer, size_t offset, size_t len) {
+uint8_t *getReadPtr(Buffer *buffer, double offset, size_t len) {
     if (!ensureSize(buffer, offset, len))
         return NULL;
-    return buffer->bytes + offset;
+    return buffer->bytes + (size_t)offset;
 }
 
 static Value bufferResize(DictuVM *vm, int argCount, Value *args) {
@@ -74,7 +76,7 @@ static Value bufferResize(DictuVM *vm, int argCount, Value *args) {
     }
 
     double capacity = AS_NUMBER(args[1]);
-    if (capacity <= 0 || capacity >= BUFFER_SIZE_MAX) {
+    if (!(capacity >= 1) || capacity >= BUFFER_SIZE_MAX) {
         return newResultError(
             vm, "size must be greater than 0 and smaller than 2147483647");
     }
@@ -758,7 +760,7 @@ static Value bufferGet(DictuVM *vm, int argCount, Value *args) {
     }
 
     double index = AS_NUMBER(args[1]);
-    if (index < 0) {
+    if (!(index >= 0)) {
         return newResultError(vm, "index must be greater than -1");
     }
     Buffer *buffer = AS_BUFFER(args[0]);
@@ -787,7 +789,7 @@ static Value bufferSet(DictuVM *vm, int argCount, Value *args) {
 
     double index = AS_NUMBER(args[1]);
     double value = AS_NUMBER(args[2]);
-    if (index < 0) {
+    if (!(index >= 0)) {
         return newResultError(vm, "index must be greater than -1");
     }
     Buffer *buffer = AS_BUFFER(args[0]);
@@ -819,7 +821,7 @@ static Value bufferWriteString(DictuVM *vm, int argCount, Value *args) {
 
     double index = AS_NUMBER(args[1]);
     ObjString *str = AS_STRING(args[2]);
-    if (index < 0) {
+    if (!(index >= 0)) {
         return newResultError(vm, "index must be greater than -1");
     }
     Buffer *buffer = AS_BUFFER(args[0]);
@@ -827,7 +829,7 @@ static Value bufferWriteString(DictuVM *vm, int argCount, Value *args) {
         return newResultError(vm, "index must be smaller than buffer size");
     }
 
-    if (buffer->size - index < str->length) {
+    if (buffer->size - (size_t)index < (size_t)str->length) {
         return newResultError(vm,
                               "buffer is not large enough to fit the string");
     }
@@ -846,6 +848,9 @@ static Value bufferReadString(DictuVM *vm, int argCount, Value *args) {
             return EMPTY_VAL;
         }
         double startParam = AS_NUMBER(args[1]);
+        if (!(startParam >= 0)) {
+            return newResultError(vm, "start must be greater than -1");
+        }
         if (startParam >= buffer->size) {
             return newResultError(vm,
                                   "start greater or equals than buffer length");
@@ -860,6 +865,9 @@ static Value bufferReadString(DictuVM *vm, int argCount, Value *args) {
             return EMPTY_VAL;
         }
         double endParam = AS_NUMBER(args[2]);
+        if (!(endParam >= 0)) {
+            return newResultError(vm, "end must be greater than -1");
+        }
         if (endParam > buffer->size) {
             return newResultError(vm, "end greater than buffer length");
         } else {
@@ -886,6 +894,9 @@ static Value bufferSubArray(DictuVM *vm, int argCount, Value *args) {
             return EMPTY_VAL;
         }
         double startParam = AS_NUMBER(args[1]);
+        if (!(startParam >= 0)) {
+            return newResultError(vm, "start must be greater than -1");
+        }
         if (startParam >= buffer->size) {
             return newResultError(vm,
                                   "start greater or equals than buffer length");
@@ -900,6 +911,9 @@ static Value bufferSubArray(DictuVM *vm, int argCount, Value *args) {
             return EMPTY_VAL;
         }
         double endParam = AS_NUMBER(args[2]);
+        if (!(endParam >= 0)) {
+            return newResultError(vm, "end must be greater than -1");
+        }
         if (endParam > buffer->size) {
             return newResultError(vm, "end greater than buffer length");
         } else {
@@ -1002,7 +1016,7 @@ static Value newBuffer(DictuVM *vm, int argCount, Value *args) {
     }
 
     double capacity = AS_NUMBER(args[0]);
-    if (capacity <= 0 || capacity >= BUFFER_SIZE_MAX) {
+    if (!(capacity >= 1) || capacity >= BUFFER_SIZE_MAX) {
         return newResultError(
             vm, "capacity must be greater than 0 and less than 2147483647");
     }
-- 
2.43.0


From 493f2661a6d595b10972b14ebdd708b44c533b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:56 +0000
Subject: [PATCH 64/75] fix: BigInt methods stop after reporting a wrong
 argument count and clone the unwrapped value

---
 src/optionals/bigint.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/optionals/bigint.c b/src/optionals/bigint.c
index 37b3b23..bd8ad56 100644
--- a/src/optionals/bigint.c
+++ b/src/optionals/bigint.c
@@ -179,6 +179,7 @@ static Value unwrapBigInt(Value val) {
 static Value newBigInt(DictuVM *vm, int argCount, Value *args) {
     if (argCount > 1) {
         runtimeError(vm, "wrong number of arguments");
+        return EMPTY_VAL;
     }
 
     if (argCount == 0) {
@@ -194,7 +195,7 @@ static Value newBigInt(DictuVM *vm, int argCount, Value *args) {
     Value val = unwrapBigInt(args[0]);
 
     if (isBigIntValue(val)) {
-        return newBigIntValue(vm, cloneBigInt(vm, AS_ABSTRACT(args[0])->data));
+        return newBigIntValue(vm, cloneBigInt(vm, AS_ABSTRACT(val)->data));
     }
 
     return newResultError(vm, "error: invalid argument");
@@ -223,6 +224,7 @@ static Value handleLongOrUnwrapError(DictuVM *vm, bool argIsLong) {
 static Value applyOp1Arg(DictuVM *vm, int argCount, Value *args, int (*op)(const bigint*, const bigint*)) {
     if (argCount != 1) {
         runtimeError(vm, "wrong number of arguments");
+        return EMPTY_VAL;
     }
 
     bool argIsLong;
@@ -271,6 +273,7 @@ static Value applyOp0ArgToReturn(DictuVM *vm, int argCount, Value *args, bigint*
 static Value applyOp1ArgAndReturn(DictuVM *vm, int argCount, Value *args, bigint* (*op)(bigint*, const bigint*, const bigint*)) {
     if (argCount != 1) {
         runtimeError(vm, "wrong number of arguments");
+        return EMPTY_VAL;
     }
 
     bool argIsLong;
-- 
2.43.0


From 74c108917f03a520ddd632836a85cd6592360fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:08 +0000
Subject: [PATCH 65/75] fix: Math.min() and Math.max() accept an empty list and
 reject a non-number first value

---
 src/optionals/math.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/optionals/math.c b/src/optionals/math.c
index 2899cf1..222de00 100644
--- a/src/optionals/math.c
+++ b/src/optionals/math.c
@@ -95,6 +95,15 @@ static Value maxNative(DictuVM *vm, int argCount, Value *args) {
         args = list->values.values;
     }
 
+    if (argCount == 0) {
+        return NUMBER_VAL(0);
+    }
+
+    if (!IS_NUMBER(args[0])) {
+        runtimeError(vm, "A non-number value passed to max()");
+        return EMPTY_VAL;
+    }
+
     double maximum = AS_NUMBER(args[0]);
 
     for (int i = 1; i < argCount; ++i) {
@@ -123,6 +132,15 @@ static Value minNative(DictuVM *vm, int argCount, Value *args) {
         args = list->values.values;
     }
 
+    if (argCount == 0) {
+        return NUMBER_VAL(0);
+    }
+
+    if (!IS_NUMBER(args[0])) {
+        runtimeError(vm, "A non-number value passed to min()");
+        return EMPTY_VAL;
+    }
+
     double minimum = AS_NUMBER(args[0]);
 
     for (int i = 1; i < argCount; ++i) {
-- 
2.43.0


From 8dfd4fcf92335c443af5b783f5e35e1d06540651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:42 +0000
Subject: [PATCH 66/75] fix: JSON.stringify() rejects an indent it cannot
 serialise with instead of writing outside its buffer

---
 src/optionals/json.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/optionals/json.c b/src/optionals/json.c
index 2140092..536768a 100644
--- a/src/optionals/json.c
+++ b/src/optionals/json.c
@@ -200,8 +200,15 @@ Value stringify(DictuVM *vm, int argCount, Value *args) {
             return EMPTY_VAL;
         }
 
+        double requestedIndent = AS_NUMBER(args[1]);
+
+        if (!(requestedIndent >= 0 && requestedIndent <= UINT8_MAX)) {
+            runtimeError(vm, "stringify() indent must be between 0 and %d.", UINT8_MAX);
+            return EMPTY_VAL;
+        }
+
         lineType = json_serialize_mode_multiline;
-        indent = AS_NUMBER(args[1]);
+        indent = (int) requestedIndent;
     }
 
     json_value *json = stringifyJson(vm, args[0]);
-- 
2.43.0


From ca9277024d94468dcfd2ee57e4ea4e85f8d2fb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:47 +0000
Subject: [PATCH 67/75] fix: printing a set grows its buffer enough for a long
 element

---
 src/vm/object.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vm/object.c b/src/vm/object.c
index 19adc15..38744c4 100644
--- a/src/vm/object.c
+++ b/src/vm/object.c
@@ -492,7 +492,7 @@ char *setToString(Value value) {
         }
 
         if (elementSize > (size - setStringLength - 5)) {
-            if (elementSize > size * 2) {
+            if (elementSize > size) {
                 size += elementSize * 2 + 5;
             } else {
                 size = size * 2 + 5;
-- 
2.43.0


From 72601a5d10031776e02949f495fbf330a844bc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:50 +0000
Subject: [PATCH 68/75] fix: Hashlib.bcrypt() does not share its buffers
 between interpreters

---
 src/optionals/hashlib.c               | 5 ++---
 src/optionals/hashlib/bcrypt/bcrypt.c | 1 -
 src/optionals/hashlib/bcrypt/bcrypt.h | 3 +++
 3 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/optionals/hashlib.c b/src/optionals/hashlib.c
index 8c9c1fd..03f7c47 100644
--- a/src/optionals/hashlib.c
+++ b/src/optionals/hashlib.c
@@ -105,10 +105,9 @@ static Value bcrypt(DictuVM *vm, int argCount, Value *args) {
         rounds = AS_NUMBER(args[1]);
     }
 
-    char *salt = bcrypt_gensalt(rounds);
-    char *hash = salt == NULL ? NULL : bcrypt_pass(AS_CSTRING(args[0]), salt);
+    char hash[BCRYPT_HASHSPACE];
 
-    if (hash == NULL) {
+    if (bcrypt_newhash(AS_CSTRING(args[0]), (uint8_t) rounds, hash, sizeof(hash)) != 0) {
         runtimeError(vm, "bcrypt() failed to generate a hash.");
         return EMPTY_VAL;
     }
diff --git a/src/optionals/hashlib/bcrypt/bcrypt.c b/src/optionals/hashlib/bcrypt/bcrypt.c
index b279f5f..a1085f8 100644
--- a/src/optionals/hashlib/bcrypt/bcrypt.c
+++ b/src/optionals/hashlib/bcrypt/bcrypt.c
@@ -69,7 +69,6 @@
 #define BCRYPT_MINLOGROUNDS 4	/* we have log2(rounds) in salt */
 
 #define	BCRYPT_SALTSPACE	(7 + (BCRYPT_MAXSALT * 4 + 2) / 3 + 1)
-#define	BCRYPT_HASHSPACE	61
 
 char   *bcrypt_gensalt(u_int8_t);
 
diff --git a/src/optionals/hashlib/bcrypt/bcrypt.h b/src/optionals/hashlib/bcrypt/bcrypt.h
index 9b9d081..2f10437 100644
--- a/src/optionals/hashlib/bcrypt/bcrypt.h
+++ b/src/optionals/hashlib/bcrypt/bcrypt.h
@@ -29,6 +29,9 @@ typedef uint64_t u_int64_t;
 #define explicit_bzero(s,n) memset(s, 0, n)
 #define DEF_WEAK(f)
 
+#define BCRYPT_HASHSPACE 61
+
+int bcrypt_newhash(const char *pass, int log_rounds, char *hash, size_t hashlen);
 char *bcrypt_pass(const char *pass, const char *salt);
 char *bcrypt_gensalt(u_int8_t log_rounds);
 int bcrypt_checkpass(const char *pass, const char *goodhash);
-- 
2.43.0


From e71731ccf65096629cfd2d65db174c2848114b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:50 +0000
Subject: [PATCH 69/75] fix: UUID functions do not share their buffer between
 interpreters

---
 src/optionals/uuid.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/optionals/uuid.c b/src/optionals/uuid.c
index f0e3da6..c65fcde 100644
--- a/src/optionals/uuid.c
+++ b/src/optionals/uuid.c
@@ -1,8 +1,6 @@
 #include "uuid.h"
 
 #ifndef _WIN32
-static uuid_t uuid;
-
 #define UUID_STRING_LEN 37
 
 static Value uuidGenerateNative(DictuVM *vm, int argCount, Value *args) {
@@ -13,6 +11,7 @@ static Value uuidGenerateNative(DictuVM *vm, int argCount, Value *args) {
         return EMPTY_VAL;
     }
 
+    uuid_t uuid;
     uuid_clear(uuid);
 
     uuid_generate(uuid);
@@ -35,6 +34,7 @@ static Value uuidGenRandomNative(DictuVM *vm, int argCount, Value *args) {
         return EMPTY_VAL;
     }
 
+    uuid_t uuid;
     uuid_clear(uuid);
 
     uuid_generate_random(uuid);
@@ -57,6 +57,7 @@ static Value uuidGenTimeNative(DictuVM *vm, int argCount, Value *args) {
         return EMPTY_VAL;
     }
 
+    uuid_t uuid;
     uuid_clear(uuid);
 
     uuid_generate_time(uuid);
-- 
2.43.0


From 34c1a634f8b8f0464af474ac1b2cee8fecba5d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:25 +0000
Subject: [PATCH 70/75] fix: using something other than a trait in a class is
 an error

---
 src/vm/object.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vm/object.h b/src/vm/object.h
index 69ff5cc..d39572a 100644
--- a/src/vm/object.h
+++ b/src/vm/object.h
@@ -32,8 +32,8 @@
 #define IS_MODULE(value)          isObjType(value, OBJ_MODULE)
 #define IS_BOUND_METHOD(value)    isObjType(value, OBJ_BOUND_METHOD)
 #define IS_CLASS(value)           isObjType(value, OBJ_CLASS)
-#define IS_DEFAULT_CLASS(value)   isObjType(value, OBJ_CLASS) && AS_CLASS(value)->type == CLASS_DEFAULT
-#define IS_TRAIT(value)           isObjType(value, OBJ_CLASS) && AS_CLASS(value)->type == CLASS_TRAIT
+#define IS_DEFAULT_CLASS(value)   (isObjType(value, OBJ_CLASS) && AS_CLASS(value)->type == CLASS_DEFAULT)
+#define IS_TRAIT(value)           (isObjType(value, OBJ_CLASS) && AS_CLASS(value)->type == CLASS_TRAIT)
 #define IS_ENUM(value)            isObjType(value, OBJ_ENUM)
 #define IS_CLOSURE(value)         isObjType(value, OBJ_CLOSURE)
 #define IS_FUNCTION(value)        isObjType(value, OBJ_FUNCTION)
-- 
2.43.0


From ffc20ca546bb4f408c81aa6a5103c5457f10863d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:21:33 +0000
Subject: [PATCH 71/75] fix: extending a list with itself ends

---
 src/vm/datatypes/lists/lists.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/vm/datatypes/lists/lists.c b/src/vm/datatypes/lists/lists.c
index 9da894b..54308d2 100644
--- a/src/vm/datatypes/lists/lists.c
+++ b/src/vm/datatypes/lists/lists.c
@@ -50,7 +50,10 @@ static Value extendList(DictuVM *vm, int argCount, Value *args) {
     ObjList *list = AS_LIST(args[0]);
     ObjList *listArgument = AS_LIST(args[1]);
 
-    for (int i = 0; i < listArgument->values.count; i++) {
+    // A list may be extended with itself
+    int count = listArgument->values.count;
+
+    for (int i = 0; i < count; i++) {
         writeValueArray(vm, &list->values, listArgument->values.values[i]);
     }
 
-- 
2.43.0


From d31829c9a42391cfd4acca3ba8622a6656eb06ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:35:25 +0000
Subject: [PATCH 72/75] fix: Math.lcm() of numbers without a common divisor
 does not divide by zero

---
 src/optionals/math.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/optionals/math.c b/src/optionals/math.c
index 222de00..c7c6622 100644
--- a/src/optionals/math.c
+++ b/src/optionals/math.c
@@ -296,7 +296,17 @@ static Value gcdNative(DictuVM *vm, int argCount, Value *args) {
 }
 
 long long lcm(long long a, long long b) {
-    return (a * b) / gcd(a, b);
+    long long divisor = gcd(a, b);
+
+    if (divisor == 0) {
+        return 0;
+    }
+
+    if (divisor == a) {
+        return b;
+    }
+
+    return (a * b) / divisor;
 }
 
 static Value lcmNative(DictuVM *vm, int argCount, Value *args) {
-- 
2.43.0


From eb63e3da552a3ef8fd9374f3e2336312c74a9f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:35:25 +0000
Subject: [PATCH 73/75] fix: Object.prettyPrint() with wrong arguments is an
 error

---
 src/optionals/object/object.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/optionals/object/object.c b/src/optionals/object/object.c
index 1f1ddd6..b7940a8 100644
--- a/src/optionals/object/object.c
+++ b/src/optionals/object/object.c
@@ -66,6 +66,12 @@ static Value objectPrettyPrint(DictuVM *vm, int argCount, Value *args) {
     }
 
     Value out = stringify(vm, argCount, args);
+
+    // Something other than a Result is a runtime error about the arguments
+    if (!IS_RESULT(out)) {
+        return EMPTY_VAL;
+    }
+
     ObjResult *res = AS_RESULT(out);
     if (res->status == ERR) {
         runtimeError(vm, AS_CSTRING(res->value));
-- 
2.43.0


From 99310e94657cca0f2d75d001768734de8652737a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:35:26 +0000
Subject: [PATCH 74/75] fix: Datetime.strftime() of an instant without a date
 is an error

---
 src/optionals/datetime.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/optionals/datetime.c b/src/optionals/datetime.c
index 3919003..979ec2c 100644
--- a/src/optionals/datetime.c
+++ b/src/optionals/datetime.c
@@ -81,7 +81,15 @@ static Value strftimeNative(DictuVM *vm, int argCount, Value *args) {
 
     char *fmt = format->chars;
 
-    struct tm tictoc;
+    struct tm tictoc = {0};
+    gmtime_r(&t, &tictoc);
+
+    // An instant too far away has no date
+    if (tictoc.tm_mday < 1) {
+        runtimeError(vm, "strftime() optional argument is out of range");
+        return EMPTY_VAL;
+    }
+
     int len = (format->length > 128 ? format->length * 4 : 128);
 
     char *point = ALLOCATE(vm, char, len);
@@ -90,8 +98,6 @@ static Value strftimeNative(DictuVM *vm, int argCount, Value *args) {
         return EMPTY_VAL;
     }
 
-    gmtime_r(&t, &tictoc);
-
     /**
      * strtime returns 0 when it fails to write - this would be due to the buffer
      * not being large enough. In that instance we double the buffer length until
-- 
2.43.0


From e7bc7536b794dff22f60bcb7a20038b4baaeb5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:35:26 +0000
Subject: [PATCH 75/75] fix: a native method of an object is not handed out
 without its object

---
 src/vm/vm.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index 8aba784..63bd41d 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -1196,6 +1196,12 @@ static DictuInterpretResult run(DictuVM *vm) {
                     ObjString *name = READ_STRING();
                     Value value;
                     if (tableGet(&abstract->values, name, &value)) {
+                        // A native method works on its object, which a call
+                        // of the bare method would not pass
+                        if (IS_NATIVE(value) && !abstract->excludeSelf) {
+                            RUNTIME_ERROR("Method '%s' can not be used without calling it.", name->chars);
+                        }
+
                         pop(vm); // Abstract.
                         push(vm, value);
                         DISPATCH();
-- 
2.43.0

