From d63d89eae9d91dd4d2b78def3692c614f4a64ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:23 +0000
Subject: [PATCH 01/61] fix: report semantic errors instead of writing through
 an uninitialized pointer

---
 src/lib/compiler/codegen.c    | 2 +-
 src/lib/compiler/codegenctx.c | 5 +++--
 src/lib/compiler/codegenctx.h | 2 +-
 3 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/lib/compiler/codegen.c b/src/lib/compiler/codegen.c
index 586650c..f8c5471 100644
--- a/src/lib/compiler/codegen.c
+++ b/src/lib/compiler/codegen.c
@@ -768,7 +768,7 @@ Executable *codegen(AST *ast, BPAlloc *alloc, Error *error, int *error_offset)
 
 	jmp_buf env;
 
-	CodegenContext *ctx = CodegenContext_New(error, alloc);
+	CodegenContext *ctx = CodegenContext_New(error, error_offset, alloc);
 	if(ctx == NULL) {
 		*error_offset = 0;
 		Error_Report(error, ErrorType_INTERNAL, "No memory");
diff --git a/src/lib/compiler/codegenctx.c b/src/lib/compiler/codegenctx.c
index dfb3a03..c20a94d 100644
--- a/src/lib/compiler/codegenctx.c
+++ b/src/lib/compiler/codegenctx.c
@@ -74,7 +74,7 @@ void CodegenContext_SetJumpDest(CodegenContext *ctx, jmp_buf *env)
     ctx->env_set = true;
 }
 
-CodegenContext *CodegenContext_New(Error *error, BPAlloc *alloc)
+CodegenContext *CodegenContext_New(Error *error, int *error_offset, BPAlloc *alloc)
 {
     bool own_alloc;
     if(alloc == NULL) {
@@ -98,12 +98,13 @@ CodegenContext *CodegenContext_New(Error *error, BPAlloc *alloc)
 
     ExeBuilder *builder = ExeBuilder_New(alloc);
     if(builder == NULL) {
-        if(ctx->own_alloc)
+        if(own_alloc)
             BPAlloc_Free(alloc);
         return NULL;
     }
 
     ctx->error = error;
+    ctx->error_offset = error_offset;
     ctx->alloc = alloc;
     ctx->builder = builder;
     ctx->env_set = false;
diff --git a/src/lib/compiler/codegenctx.h b/src/lib/compiler/codegenctx.h
index bfd5c37..3d7b185 100644
--- a/src/lib/compiler/codegenctx.h
+++ b/src/lib/compiler/codegenctx.h
@@ -4,7 +4,7 @@
 #include "../executable.h"
 
 typedef struct CodegenContext CodegenContext;
-CodegenContext *CodegenContext_New(Error *error, BPAlloc *alloc);
+CodegenContext *CodegenContext_New(Error *error, int *error_offset, BPAlloc *alloc);
 void            CodegenContext_EmitInstr(CodegenContext *ctx, Opcode opcode, Operand *opv, int opc, int off, int len);
 void            CodegenContext_SetJumpDest(CodegenContext *ctx, jmp_buf *env);
 void            CodegenContext_Free(CodegenContext *ctx);
-- 
2.43.0


From 9aa1c317a4852dbdd167449c13e19bc03551d500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:10 +0000
Subject: [PATCH 02/61] fix: probe the same slots when growing a map as when
 looking keys up

---
 src/lib/objects/o_map.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/objects/o_map.c b/src/lib/objects/o_map.c
index a57f97c..91be46c 100644
--- a/src/lib/objects/o_map.c
+++ b/src/lib/objects/o_map.c
@@ -296,10 +296,10 @@ static _Bool grow(MapObject *map, Heap *heap, Error *error)
 		// This won't trigger an error because the key
 		// surely has a hash method since we already
 		// hashed it once.
-		int hash = Object_Hash(keys[i]);
+		unsigned int hash = Object_Hash(keys[i]);
 
-		int mask = new_mapper_size - 1;
-		int pert = hash;
+		unsigned int mask = new_mapper_size - 1;
+		unsigned int pert = hash;
 			
 		int j = hash & mask;
 
-- 
2.43.0


From f5544dc7bd153724c951a2076a1ce899b15a6cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:10 +0000
Subject: [PATCH 03/61] fix: move only the allocated bytes of a list when
 collecting garbage

---
 src/lib/objects/o_list.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/objects/o_list.c b/src/lib/objects/o_list.c
index 84af9c2..361b6bf 100644
--- a/src/lib/objects/o_list.c
+++ b/src/lib/objects/o_list.c
@@ -198,7 +198,7 @@ static void walkexts(Object *self, void (*callback)(void **referer, unsigned int
 {
 	ListObject *list = (ListObject*) self;
 	
-	callback((void**) &list->vals, sizeof(Object) * list->capacity, userp);
+	callback((void**) &list->vals, sizeof(Object*) * list->capacity, userp);
 }
 
 static Object *select_(Object *self, Object *key, Heap *heap, Error *error)
-- 
2.43.0


From 01c330914b6bf2e99401f8a7816d4e9557343b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:11 +0000
Subject: [PATCH 04/61] fix: report modulo by zero as a runtime error instead
 of crashing

---
 src/lib/run.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lib/run.c b/src/lib/run.c
index 6277149..1cdfd2f 100644
--- a/src/lib/run.c
+++ b/src/lib/run.c
@@ -641,7 +641,13 @@ static _Bool runInstruction(Runtime *runtime, Error *error)
 			long long int x, y, z;
 			y = Object_GetInt(objs[0]);
 			x = Object_GetInt(objs[1]);
-			z = x % y;
+			if (y == 0) {
+				Error_Report(error, ErrorType_RUNTIME, "Division by zero");
+				return 0;
+			}
+			// The remainder of a division by -1 is always 0, but
+			// evaluating LLONG_MIN % -1 overflows (and traps).
+			z = (y == -1) ? 0 : x % y;
 
 			Object *res = Object_FromInt(z, heap, error);
 			if(res == NULL)
-- 
2.43.0


From 3f55f060d061d59061f24b8d4d2f70f389ff8835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:11 +0000
Subject: [PATCH 05/61] fix: do not trap when dividing the smallest integer by
 -1

---
 src/lib/run.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lib/run.c b/src/lib/run.c
index 1cdfd2f..dce1a26 100644
--- a/src/lib/run.c
+++ b/src/lib/run.c
@@ -368,7 +368,12 @@ static Object *do_math_op(Object *lop, Object *rop, Opcode opcode, Heap *heap, E
 			// int + int
 			long long int raw_rop = Object_GetInt(rop);
 			long long int raw_res = 0;
-			APPLY(raw_lop, raw_rop, raw_res, id)
+			if(opcode == OPCODE_DIV && raw_rop == -1)
+				// LLONG_MIN / -1 overflows (and traps), so
+				// negate with wrap around instead.
+				raw_res = (long long int) (0ULL - (unsigned long long int) raw_lop);
+			else
+				APPLY(raw_lop, raw_rop, raw_res, id)
 			res = Object_FromInt(raw_res, heap, error);
 		}
 		else if(Object_IsFloat(rop))
-- 
2.43.0


From 546e29a034f741a28791b876b778912cd04f2bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:12 +0000
Subject: [PATCH 06/61] fix: do not call a missing hash method when using an
 unhashable key

---
 src/lib/objects/objects.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib/objects/objects.c b/src/lib/objects/objects.c
index 53bb360..d2133cb 100644
--- a/src/lib/objects/objects.c
+++ b/src/lib/objects/objects.c
@@ -109,7 +109,11 @@ int Object_Hash(Object *obj)
 {
 	ASSERT(obj != NULL);
 	const TypeObject *type = Object_GetType(obj);
-	ASSERT(type != NULL && type->hash != NULL);
+	ASSERT(type != NULL);
+	if(type->hash == NULL)
+		// The object can't be compared nor copied, so using
+		// it as a key will fail once the slot is inspected.
+		return 0;
 	return type->hash(obj);
 }
 
-- 
2.43.0


From 967f6c7017ca50724367bcd637aae73b4b3fb459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:12 +0000
Subject: [PATCH 07/61] fix: report comparisons of uncomparable objects as
 runtime errors

---
 src/lib/objects/objects.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/objects/objects.c b/src/lib/objects/objects.c
index d2133cb..cc97a5a 100644
--- a/src/lib/objects/objects.c
+++ b/src/lib/objects/objects.c
@@ -284,7 +284,7 @@ _Bool Object_Compare(Object *obj1, Object *obj2, Error *error)
 
 	if(obj1->type->op_eql == NULL)
 	{
-		Error_Report(error, 0, "Object %s doesn't implement %s", Object_GetName(obj1), __func__);
+		Error_Report(error, ErrorType_RUNTIME, "Object %s doesn't implement %s", Object_GetName(obj1), __func__);
 		return 0;
 	}
 
-- 
2.43.0


From 092706bc62aa55a13ed4b46468d6970b1cb512e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:13 +0000
Subject: [PATCH 08/61] fix: give 0.0 and -0.0 the same hash since they are
 equal

---
 src/lib/objects/o_float.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib/objects/o_float.c b/src/lib/objects/o_float.c
index 567b2a2..3d6096c 100644
--- a/src/lib/objects/o_float.c
+++ b/src/lib/objects/o_float.c
@@ -61,7 +61,11 @@ static int hash(Object *self)
 
 	FloatObject *iobj = (FloatObject*) self;
 
-	return hashbytes((unsigned char*) &iobj->val, sizeof(iobj->val));
+	// Equal values must have equal hashes, 
+	// and 0.0 is equal to -0.0.
+	double val = iobj->val == 0 ? 0 : iobj->val;
+
+	return hashbytes((unsigned char*) &val, sizeof(val));
 }
 
 static Object *copy(Object *self, Heap *heap, Error *err)
-- 
2.43.0


From 8a9d95f22a2a67002bbd28f863138f3dd2ff656b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:13 +0000
Subject: [PATCH 09/61] fix: compare strings past embedded zero characters

---
 src/lib/objects/o_string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/objects/o_string.c b/src/lib/objects/o_string.c
index d774c01..2bd7d35 100644
--- a/src/lib/objects/o_string.c
+++ b/src/lib/objects/o_string.c
@@ -212,7 +212,7 @@ static _Bool op_eql(Object *self, Object *other)
 	StringObject *s1 = (StringObject*) self;
 	StringObject *s2 = (StringObject*) other;
 
-	_Bool match = s1->bytes == s2->bytes && !strncmp(s1->body, s2->body, s1->bytes);
+	_Bool match = s1->bytes == s2->bytes && !memcmp(s1->body, s2->body, s1->bytes);
 
 	return match;
 }
-- 
2.43.0


From 55bf1f93dc32c3d58f0215828ce8a0e470e3868e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:14 +0000
Subject: [PATCH 10/61] fix: print strings past embedded zero characters

---
 src/lib/objects/o_string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/objects/o_string.c b/src/lib/objects/o_string.c
index 2bd7d35..3931efd 100644
--- a/src/lib/objects/o_string.c
+++ b/src/lib/objects/o_string.c
@@ -225,7 +225,7 @@ static void print(Object *obj, FILE *fp)
 
 	StringObject *str = (StringObject*) obj;
 
-	fprintf(fp, "%.*s", str->bytes, str->body);
+	fwrite(str->body, 1, str->bytes, fp);
 }
 
 static void walkexts(Object *self, void (*callback)(void **referer, unsigned int size, void *userp), void *userp)
-- 
2.43.0


From 45f8cdcc028140bbac12bb5ffc61d0197774d3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:14 +0000
Subject: [PATCH 11/61] fix: do not truncate list and string indices to 32 bits

---
 src/lib/objects/o_list.c   | 4 ++--
 src/lib/objects/o_string.c | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/objects/o_list.c b/src/lib/objects/o_list.c
index 361b6bf..3623091 100644
--- a/src/lib/objects/o_list.c
+++ b/src/lib/objects/o_list.c
@@ -216,7 +216,7 @@ static Object *select_(Object *self, Object *key, Heap *heap, Error *error)
 		return NULL;
 	}
 
-	int idx = Object_GetInt(key);
+	long long int idx = Object_GetInt(key);
 
 	ListObject *list = (ListObject*) self;
 
@@ -270,7 +270,7 @@ static _Bool insert(Object *self, Object *key, Object *val, Heap *heap, Error *e
 		return NULL;
 	}
 
-	int idx = Object_GetInt(key);
+	long long int idx = Object_GetInt(key);
 
 	if(idx < 0 || idx > list->count)
 	{
diff --git a/src/lib/objects/o_string.c b/src/lib/objects/o_string.c
index 3931efd..fdb0cb7 100644
--- a/src/lib/objects/o_string.c
+++ b/src/lib/objects/o_string.c
@@ -99,7 +99,7 @@ static Object *select_(Object *self, Object *key, Heap *heap, Error *error)
 		Error_Report(error, ErrorType_RUNTIME, "Non integer key");
 		return NULL;
 	}
-	int idx = Object_GetInt(key);
+	long long int idx = Object_GetInt(key);
 
 	StringObject *str = (StringObject*) self;
 
-- 
2.43.0


From 2ee6e4fd9658ef3f21db834dd8aed4058eb9e4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:27 +0000
Subject: [PATCH 12/61] fix: terminate the string and buffer builtin tables

---
 src/lib/builtins/buffer.c | 1 +
 src/lib/builtins/string.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/lib/builtins/buffer.c b/src/lib/builtins/buffer.c
index f2d1e0c..51f42fe 100644
--- a/src/lib/builtins/buffer.c
+++ b/src/lib/builtins/buffer.c
@@ -95,4 +95,5 @@ StaticMapSlot bins_buffer[] = {
     { "sliceUp", SM_FUNCT, .as_funct = bin_sliceUp, .argc = 3 },
     { "toString",   SM_FUNCT, .as_funct = bin_toString,   .argc = 1 },
     { "fromString", SM_FUNCT, .as_funct = bin_fromString, .argc = 1 },
+    { NULL, SM_END, {}, {} },
 };
diff --git a/src/lib/builtins/string.c b/src/lib/builtins/string.c
index 8f1d53d..58c044b 100644
--- a/src/lib/builtins/string.c
+++ b/src/lib/builtins/string.c
@@ -272,4 +272,5 @@ StaticMapSlot bins_string[] = {
     { "trim", SM_FUNCT, .as_funct = bin_trim, .argc = 1 },
     { "slice", SM_FUNCT, .as_funct = bin_slice, .argc = 3 },
     { "toInt", SM_FUNCT, .as_funct = bin_toInt, .argc = 1 },
+    { NULL, SM_END, {}, {} },
 };
-- 
2.43.0


From 072274d1c4d348f002c56bc61b05df6bbfa4acc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:27 +0000
Subject: [PATCH 13/61] fix: do not read past the end of a string with leading
 spaces when trimming it

---
 src/lib/builtins/string.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/builtins/string.c b/src/lib/builtins/string.c
index 58c044b..e20be83 100644
--- a/src/lib/builtins/string.c
+++ b/src/lib/builtins/string.c
@@ -220,6 +220,7 @@ static int bin_trim(Runtime *runtime, Object **argv, unsigned int argc, Object *
         // NOTE: The string doesn't contain only
         //       whitespace, so the length can't
         //       go under 1.
+        length = srclen - offset;
         while (srcstr[offset + length - 1] == ' ')
             length--;
 
-- 
2.43.0


From 133c65e12d64125d2e5b0268ea259730330b0399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:28 +0000
Subject: [PATCH 14/61] fix: do not truncate the argument of string.chr to 32
 bits

---
 src/lib/builtins/string.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lib/builtins/string.c b/src/lib/builtins/string.c
index e20be83..133d46d 100644
--- a/src/lib/builtins/string.c
+++ b/src/lib/builtins/string.c
@@ -61,9 +61,11 @@ static int bin_chr(Runtime *runtime, Object **argv, unsigned int argc, Object *r
 
     char buff[32];
     
-    int value = Object_GetInt(argv[0]);
+    long long int value = Object_GetInt(argv[0]);
     
-    int k = utf8_sequence_from_utf32_codepoint(buff,sizeof(buff),value);
+    int k = -1;
+    if(value >= 0 && value <= 0x10ffff)
+        k = utf8_sequence_from_utf32_codepoint(buff,sizeof(buff),value);
 
     if(k<0)
     {
-- 
2.43.0


From 7979fcf13227d850ca2f1fc79180f059e6777a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:28 +0000
Subject: [PATCH 15/61] fix: do not truncate the integers returned by native
 functions to 32 bits

---
 src/lib/builtins/files.c  |  4 ++--
 src/lib/builtins/net.c    | 10 +++++-----
 src/lib/builtins/random.c |  2 +-
 src/lib/builtins/string.c |  2 +-
 src/lib/builtins/utils.c  |  2 +-
 5 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/lib/builtins/files.c b/src/lib/builtins/files.c
index ff18b96..c7e9934 100644
--- a/src/lib/builtins/files.c
+++ b/src/lib/builtins/files.c
@@ -133,7 +133,7 @@ static int bin_read(Runtime *runtime, Object **argv, unsigned int argc, Object *
 
 	size_t n = fread(dstptr, 1, count, stream);
 	
-	return returnValues2(error, runtime, rets, "i", n);
+	return returnValues2(error, runtime, rets, "i", (long long int) n);
 }
 
 static int bin_write(Runtime *runtime, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *error)
@@ -169,7 +169,7 @@ static int bin_write(Runtime *runtime, Object **argv, unsigned int argc, Object
 
 	size_t n = fwrite(srcptr, 1, count, stream);
 
-	return returnValues2(error, runtime, rets, "i", n);
+	return returnValues2(error, runtime, rets, "i", (long long int) n);
 }
 
 static int bin_openDir(Runtime *runtime, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *error)
diff --git a/src/lib/builtins/net.c b/src/lib/builtins/net.c
index fbeb267..a653e53 100644
--- a/src/lib/builtins/net.c
+++ b/src/lib/builtins/net.c
@@ -30,7 +30,7 @@ static int bin_socket(Runtime *runtime, Object **argv, unsigned int argc, Object
 			return returnValues2(error, runtime, rets, "ns", strerror(errno));
 	}
 
-	return returnValues2(error, runtime, rets, "i", fd);
+	return returnValues2(error, runtime, rets, "i", (long long int) fd);
 }
 
 static int bin_bind(Runtime *runtime, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *error)
@@ -118,7 +118,7 @@ static int bin_recv(Runtime *runtime, Object **argv, unsigned int argc, Object *
 	ssize_t res = recv(fd, dstptr, count, 0);
 	if (res < 0)
 		return returnValues2(error, runtime, rets, "ns", strerror(errno));
-	return returnValues2(error, runtime, rets, "i", res);
+	return returnValues2(error, runtime, rets, "i", (long long int) res);
 }
 
 static int bin_send(Runtime *runtime, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *error)
@@ -148,7 +148,7 @@ static int bin_send(Runtime *runtime, Object **argv, unsigned int argc, Object *
 	ssize_t res = send(fd, srcptr, count, 0);
 	if (res < 0)
 		return returnValues2(error, runtime, rets, "ns", strerror(errno));
-	return returnValues2(error, runtime, rets, "i", res);
+	return returnValues2(error, runtime, rets, "i", (long long int) res);
 }
 
 static int bin_accept(Runtime *runtime, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *error)
@@ -170,7 +170,7 @@ static int bin_accept(Runtime *runtime, Object **argv, unsigned int argc, Object
 	ASSERT(new_addr.sin_family == AF_INET);
 	ASSERT(new_addr_size == sizeof(struct sockaddr_in));
 
-	return returnValues2(error, runtime, rets, "iii", new_fd, new_addr.sin_addr.s_addr, new_addr.sin_port);
+	return returnValues2(error, runtime, rets, "iii", (long long int) new_fd, (long long int) new_addr.sin_addr.s_addr, (long long int) new_addr.sin_port);
 }
 
 
@@ -185,7 +185,7 @@ static int bin_close(Runtime *runtime, Object **argv, unsigned int argc, Object
 
 	int fd = pargs[0].as_int;
 	int res = close(fd);
-	return returnValues2(error, runtime, rets, "i", res);
+	return returnValues2(error, runtime, rets, "i", (long long int) res);
 }
 
 StaticMapSlot bins_net[] = {
diff --git a/src/lib/builtins/random.c b/src/lib/builtins/random.c
index d21daf3..63910ff 100644
--- a/src/lib/builtins/random.c
+++ b/src/lib/builtins/random.c
@@ -32,7 +32,7 @@ static int bin_generate(Runtime *runtime, Object **argv, unsigned int argc, Obje
 	if (pargs[0].defined) min = pargs[0].as_int; else min = 0;
 	if (pargs[1].defined) max = pargs[1].as_int; else max = INT64_MAX;
 	int64_t value = min + (max - min) * (double) rand() / RAND_MAX;
-	return returnValues2(error, runtime, rets, "i", value);
+	return returnValues2(error, runtime, rets, "i", (long long int) value);
 }
 
 StaticMapSlot bins_random[] = {
diff --git a/src/lib/builtins/string.c b/src/lib/builtins/string.c
index 133d46d..b9f7c57 100644
--- a/src/lib/builtins/string.c
+++ b/src/lib/builtins/string.c
@@ -265,7 +265,7 @@ static int bin_toInt(Runtime *runtime, Object **argv, unsigned int argc, Object
         // be considered an integer.
         return returnValues2(error, runtime, rets, "ns", "String doesn't contain an integer");
     
-    return returnValues2(error, runtime, rets, "i", result);
+    return returnValues2(error, runtime, rets, "i", (long long int) result);
 }
 
 StaticMapSlot bins_string[] = {
diff --git a/src/lib/builtins/utils.c b/src/lib/builtins/utils.c
index 5fb3b2c..ee55258 100644
--- a/src/lib/builtins/utils.c
+++ b/src/lib/builtins/utils.c
@@ -14,7 +14,7 @@ int returnValuesVA(Error *error, Heap *heap, Object *rets[static MAX_RETS], cons
 		switch (fmt[i]) {
 			case 'o': ret = va_arg(va, Object*); break;
 			case 'n': ret = Object_NewNone(heap, error); break;
-			case 'i': ret = Object_FromInt  (va_arg(va, int),    heap, error); break;
+			case 'i': ret = Object_FromInt  (va_arg(va, long long int), heap, error); break;
 			case 'f': ret = Object_FromFloat(va_arg(va, double), heap, error); break;
 			case 's': ret = Object_FromString(va_arg(va, char*), -1, heap, error); break;
 			case 'F': ret = Object_FromStream(va_arg(va, FILE*), heap, error); break;
-- 
2.43.0


From 0b8df8739a5e476865c17acc613e2bef606ef488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:29 +0000
Subject: [PATCH 16/61] fix: math.pow takes two arguments

---
 src/lib/builtins/math.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/builtins/math.c b/src/lib/builtins/math.c
index 6385e97..d820bc1 100644
--- a/src/lib/builtins/math.c
+++ b/src/lib/builtins/math.c
@@ -156,7 +156,7 @@ StaticMapSlot bins_math[] = {
 	{ "log",   SM_FUNCT, .as_funct = bin_log, .argc = 1, },
 	{ "log10", SM_FUNCT, .as_funct = bin_log10, .argc = 1, },
 
-	{ "pow",  SM_FUNCT, .as_funct = bin_pow,  .argc = 1, },
+	{ "pow",  SM_FUNCT, .as_funct = bin_pow,  .argc = 2, },
 	{ "sqrt", SM_FUNCT, .as_funct = bin_sqrt, .argc = 1, },
 	{ NULL, SM_END, {}, {} },
 };
-- 
2.43.0


From e9ba4661230b9128582c23b781a1053b06f8d5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:29 +0000
Subject: [PATCH 17/61] fix: report unknown file modes as runtime errors

---
 src/lib/builtins/files.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/lib/builtins/files.c b/src/lib/builtins/files.c
index c7e9934..b00ed5c 100644
--- a/src/lib/builtins/files.c
+++ b/src/lib/builtins/files.c
@@ -51,7 +51,7 @@ static int bin_openFile(Runtime *runtime, Object **argv, unsigned int argc, Obje
 		return -1;
 
 	const char *path = pargs[0].as_string.data;
-	int         mode = pargs[1].as_int;
+	int64_t     mode = pargs[1].as_int;
 
 	FILE *fp;
 	{
@@ -73,9 +73,8 @@ static int bin_openFile(Runtime *runtime, Object **argv, unsigned int argc, Obje
 			break;
 
 			default:
-			UNREACHABLE;
-			mode2 = NULL;
-			break;
+			Error_Report(error, ErrorType_RUNTIME, "Invalid file mode");
+			return -1;
 		}
 
 		fp = fopen(path, mode2);
-- 
2.43.0


From cf305d1ddef274136b68adc096e298ea8bd684d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:29 +0000
Subject: [PATCH 18/61] fix: do not truncate the byte counts of file operations
 to 32 bits

---
 src/lib/builtins/files.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/builtins/files.c b/src/lib/builtins/files.c
index b00ed5c..f33957f 100644
--- a/src/lib/builtins/files.c
+++ b/src/lib/builtins/files.c
@@ -121,7 +121,7 @@ static int bin_read(Runtime *runtime, Object **argv, unsigned int argc, Object *
 	dstptr = pargs[1].as_buffer.data;
 	dstlen = pargs[1].as_buffer.size;
 	if (pargs[2].defined) {
-		int n = pargs[2].as_int;
+		int64_t n = pargs[2].as_int;
 		if (n < 0) {
 			Error_Report(error, ErrorType_RUNTIME, "Argument count must be a non-negative integer");
 			return -1;
@@ -157,7 +157,7 @@ static int bin_write(Runtime *runtime, Object **argv, unsigned int argc, Object
 	srcptr = pargs[1].as_buffer.data;
 	srclen = pargs[1].as_buffer.size;
 	if (pargs[2].defined) {
-		int n = pargs[2].as_int;
+		int64_t n = pargs[2].as_int;
 		if (n < 0) {
 			Error_Report(error, ErrorType_RUNTIME, "Argument count must be a non-negative integer");
 			return -1;
-- 
2.43.0


From d535de046d61cd90eebec7de3c7e68d8fc5c06e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:30 +0000
Subject: [PATCH 19/61] fix: report negative buffer sizes as runtime errors

---
 src/lib/builtins/buffer.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/builtins/buffer.c b/src/lib/builtins/buffer.c
index 51f42fe..f605e1d 100644
--- a/src/lib/builtins/buffer.c
+++ b/src/lib/builtins/buffer.c
@@ -17,6 +17,12 @@ static int bin_new(Runtime *runtime, Object **argv, unsigned int argc, Object *r
     
     long long int size = Object_GetInt(argv[0]);
 
+    if(size < 0)
+    {
+        Error_Report(error, ErrorType_RUNTIME, "Buffer size must be non-negative");
+        return -1;
+    }
+
     Object *temp = Object_NewBuffer(size, Runtime_GetHeap(runtime), error);
     
     if(temp == NULL)
-- 
2.43.0


From 2b273c848847efc17be3781ec77bbb49fad6f76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:30 +0000
Subject: [PATCH 20/61] fix: make slices of buffer slices relative to the slice
 and keep them inside of it

---
 src/lib/objects/o_buffer.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/lib/objects/o_buffer.c b/src/lib/objects/o_buffer.c
index 63744f8..2423ea7 100644
--- a/src/lib/objects/o_buffer.c
+++ b/src/lib/objects/o_buffer.c
@@ -138,14 +138,15 @@ Object *Object_SliceBuffer(Object *obj, size_t offset, size_t length, Heap *heap
 		return NULL;
 	}
 
-	Payload *payload = ((BufferObject*) obj)->payload;
+	BufferObject *buffer = (BufferObject*) obj;
+	Payload *payload = buffer->payload;
 
-	if(offset >= payload->size) {
+	if(offset >= buffer->length) {
 		Error_Report(error, ErrorType_RUNTIME, "Offset out of range");
 		return NULL;
 	}
 
-	if(offset + length > payload->size) {
+	if(length > buffer->length - offset) {
 		Error_Report(error, ErrorType_RUNTIME, "Length out of range");
 		return NULL;
 	}
@@ -156,7 +157,7 @@ Object *Object_SliceBuffer(Object *obj, size_t offset, size_t length, Heap *heap
 
 	payload->refs++;
 	slice->payload = payload;
-	slice->offset = offset;
+	slice->offset = buffer->offset + offset;
 	slice->length = length;
 
 	return (Object*) slice;
-- 
2.43.0


From 507611d085c1d93504a8f99ef8002b094233c05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:31 +0000
Subject: [PATCH 21/61] fix: do not truncate buffer indices to 32 bits

---
 src/lib/objects/o_buffer.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/objects/o_buffer.c b/src/lib/objects/o_buffer.c
index 2423ea7..8a9f569 100644
--- a/src/lib/objects/o_buffer.c
+++ b/src/lib/objects/o_buffer.c
@@ -192,7 +192,7 @@ static Object *buffer_select(Object *self, Object *key, Heap *heap, Error *error
 		return NULL;
 	}
 
-	int idx = Object_GetInt(key);
+	long long int idx = Object_GetInt(key);
 
 	BufferObject *buffer = (BufferObject*) self;
 
@@ -231,7 +231,7 @@ static _Bool buffer_insert(Object *self, Object *key, Object *val, Heap *heap, E
 		Error_Report(error, ErrorType_RUNTIME, "Non integer value");
 		return NULL;
 	}
-	int idx = Object_GetInt(key);
+	long long int idx = Object_GetInt(key);
 	long long int qword = Object_GetInt(val);
 	if(idx < 0 || (size_t) idx >= buffer->length)
 	{
-- 
2.43.0


From 6a56b18cf0b08525fc28c650c4234baba56c8fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:31 +0000
Subject: [PATCH 22/61] fix: stop reading a line at the end of the input and
 grow long lines correctly

---
 src/lib/builtins/basic.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/lib/builtins/basic.c b/src/lib/builtins/basic.c
index 789947f..9406831 100644
--- a/src/lib/builtins/basic.c
+++ b/src/lib/builtins/basic.c
@@ -178,15 +178,15 @@ static int bin_input(Runtime *runtime, Object **argv, unsigned int argc, Object
 
 	while(1)
 	{
-		char c = getc(Runtime_GetInputStream(runtime));
+		int c = getc(Runtime_GetInputStream(runtime));
 
-		if(c == '\n')
+		if(c == '\n' || c == EOF)
 			break;
 
 		if(size == cap)
 		{
 			int newcap = cap*2;
-			char *tmp = realloc(str, newcap + 1);
+			char *tmp = realloc(str == maybe ? NULL : str, newcap + 1);
 
 			if(tmp == NULL)
 			{
@@ -195,6 +195,9 @@ static int bin_input(Runtime *runtime, Object **argv, unsigned int argc, Object
 				return -1;
 			}
 
+			if(str == maybe)
+				memcpy(tmp, maybe, size);
+
 			str = tmp;
 			cap = newcap;
 		}
-- 
2.43.0


From ed3b0a81e166aebc8bd4532305d4c191806abb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:32 +0000
Subject: [PATCH 23/61] fix: report returning too many values instead of
 reading past the return buffer

---
 src/lib/run.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib/run.c b/src/lib/run.c
index dce1a26..1b6ada6 100644
--- a/src/lib/run.c
+++ b/src/lib/run.c
@@ -1133,7 +1133,11 @@ static int runExecutableAtIndex(Runtime *runtime, Error *error,
 
     // Get return values
     int retc = Runtime_GetFrameStackUsage(runtime);
-    for (int i = 0; i < MIN(retc, MAX_RETS); i++)
+    if (retc > MAX_RETS) {
+    	Error_Report(error, ErrorType_RUNTIME, "Return value limit of %d reached", MAX_RETS);
+    	return -1;
+    }
+    for (int i = 0; i < retc; i++)
     	rets[i] = Runtime_Top(runtime, i-retc+1);
 
     if (!Runtime_PopFrame(runtime))
-- 
2.43.0


From 6add11a81d79eab39079940a21689cba927a3332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:33 +0000
Subject: [PATCH 24/61] fix: terminate the value descriptions of type assertion
 errors

---
 src/lib/run.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/run.c b/src/lib/run.c
index 1b6ada6..43026d6 100644
--- a/src/lib/run.c
+++ b/src/lib/run.c
@@ -756,6 +756,8 @@ static _Bool runInstruction(Runtime *runtime, Error *error)
 				Object_Print(arg, provided_fp);
 				fclose(allowed_fp);
 				fclose(provided_fp);
+				allowed[sizeof(allowed)-1] = '\0';
+				provided[sizeof(provided)-1] = '\0';
 				Error_Report(error, ErrorType_RUNTIME, "Argument %d \"%s\" has an unallowed type. Was expected something with type %s but was provided %s", 
 							 arg_index+1, arg_name, allowed, provided);
 				return 0;
-- 
2.43.0


From 55ee540f65beed774bd68d12d16321aa6726c23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:33 +0000
Subject: [PATCH 25/61] fix: a list with missing items does not match a list
 type

---
 src/lib/objects/o_list.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/objects/o_list.c b/src/lib/objects/o_list.c
index 3623091..d7f65ee 100644
--- a/src/lib/objects/o_list.c
+++ b/src/lib/objects/o_list.c
@@ -76,6 +76,10 @@ istypeof(Object *self,
     if (!Object_IsList(other))
         return false;
 
+    if (((ListObject*) other)->count < list->count)
+        // There are items missing.
+        return false;
+
     for (int i = 0; i < list->count; i++) {
     	
     	Object *key = Object_FromInt(i, heap, error);
-- 
2.43.0


From 0590a146baed521fc534d4521e96d4c67d141f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:04 +0000
Subject: [PATCH 26/61] fix: report unterminated map literals instead of
 reading past the last token

---
 src/lib/compiler/parse.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lib/compiler/parse.c b/src/lib/compiler/parse.c
index 274d006..4a6d834 100644
--- a/src/lib/compiler/parse.c
+++ b/src/lib/compiler/parse.c
@@ -1013,6 +1013,13 @@ static Node *parse_map_primary_expression(Context *ctx)
 			{
 				_Bool key_is_a_single_ident;
 				{
+					if(done(ctx))
+					{
+						*ctx->error_offset = ctx->token->offset;
+						Error_Report(ctx->error, ErrorType_SYNTAX, "Source ended where a map child item's key was expected");
+						return NULL;
+					}
+
 					_Bool key_starts_with_an_ident = current(ctx) == TIDENT;
 
 					next(ctx);
-- 
2.43.0


From 519d612363b154d5ff1a452e246c8554e8663d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:04 +0000
Subject: [PATCH 27/61] fix: report unexpected tokens as syntax errors

---
 src/lib/compiler/parse.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/compiler/parse.c b/src/lib/compiler/parse.c
index 4a6d834..45d4658 100644
--- a/src/lib/compiler/parse.c
+++ b/src/lib/compiler/parse.c
@@ -1425,12 +1425,12 @@ static Node *parse_primary_expresion(Context *ctx)
 
 		case TDONE:
 		*ctx->error_offset = ctx->token->offset;
-		Error_Report(ctx->error, ErrorType_INTERNAL, "Unexpected end of source where a primary expression was expected");
+		Error_Report(ctx->error, ErrorType_SYNTAX, "Unexpected end of source where a primary expression was expected");
 		return NULL;
 
 		default:
 		*ctx->error_offset = ctx->token->offset;
-		Error_Report(ctx->error, ErrorType_INTERNAL, "Unexpected token \"%.*s\" where a primary expression was expected", ctx->token->length, ctx->src + ctx->token->offset);
+		Error_Report(ctx->error, ErrorType_SYNTAX, "Unexpected token \"%.*s\" where a primary expression was expected", ctx->token->length, ctx->src + ctx->token->offset);
 		return NULL;
 	}
 
@@ -1631,7 +1631,7 @@ static Node *parse_prefix_expression(Context *ctx)
 	{
 		case TDONE:
 		*ctx->error_offset = ctx->token->offset;
-		Error_Report(ctx->error, ErrorType_INTERNAL, "Unexpected end of source where a prefix expression was expected");
+		Error_Report(ctx->error, ErrorType_SYNTAX, "Unexpected end of source where a prefix expression was expected");
 		return NULL;
 
 		case '+':
-- 
2.43.0


From 86204bf407d87a328511fc81de84c875a1ab1f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:05 +0000
Subject: [PATCH 28/61] fix: tokenize operators that are directly followed by
 other operators

---
 src/lib/compiler/parse.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/lib/compiler/parse.c b/src/lib/compiler/parse.c
index 45d4658..fde43cd 100644
--- a/src/lib/compiler/parse.c
+++ b/src/lib/compiler/parse.c
@@ -345,14 +345,19 @@ static Token *tokenize(Source *src, BPAlloc *alloc, Error *error, int *error_off
 				{   TARW, 2, "->" },
 			};
 
+			// Get the longest operator at the start of the
+			// sequence. What's left is tokenized separately.
 			_Bool found = 0;
-			for(unsigned int i = 0; i < sizeof(optable)/sizeof(*optable); i += 1)
-				if(optable[i].size == tok->length && !strncmp(optable[i].text, str + tok->offset, tok->length))
-				{
-					found = 1;
-					tok->kind = optable[i].kind;
-					break;
-				}
+			for(int length = MIN(tok->length, 2); length > 0 && found == 0; length -= 1)
+				for(unsigned int k = 0; k < sizeof(optable)/sizeof(*optable); k += 1)
+					if(optable[k].size == length && !strncmp(optable[k].text, str + tok->offset, length))
+					{
+						found = 1;
+						tok->kind = optable[k].kind;
+						tok->length = length;
+						i = tok->offset + length;
+						break;
+					}
 
 			if(found == 0)
 			{
-- 
2.43.0


From 0b4ce030805a06f954363dd377c876256f1f8378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:06 +0000
Subject: [PATCH 29/61] fix: stringify negative and large numbers

---
 src/lib/builtins/start.noja | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/lib/builtins/start.noja b/src/lib/builtins/start.noja
index a561866..1934ebd 100644
--- a/src/lib/builtins/start.noja
+++ b/src/lib/builtins/start.noja
@@ -26,7 +26,7 @@ fun getIntegerMagnitude(n: int) {
 	powr = 1;
 	# Basically grow the power until it's
 	# bigger than the input.
-	while n >= powr * 10: {
+	while n / powr >= 10: {
 		powr = 10 * powr;
 		magn = 1 + magn;
 	}
@@ -40,9 +40,9 @@ fun stringFromInteger(n: int) {
 	
 	# Get the power of 10 with the
 	# magnitude of the input.
-	_, power = getIntegerMagnitude(n);
-
 	temp = abs(n); # Temporary copy of the input
+	_, power = getIntegerMagnitude(temp);
+
 	text = ""; # The output we're about to compute
 	
 	while power >= 1: {
@@ -64,6 +64,8 @@ fun stringFromInteger(n: int) {
 
 fun stringFromFloating(f: float, max_decimals: int = 2) {
 	# This function is just a fast hack
+	if f < 0:
+		return cat("-", stringFromFloating(-f, max_decimals));
 	epsilon = 0.00000001;
 	asint = math.floor(f);
 	text = stringFromInteger(asint);
-- 
2.43.0


From ccaf1c9e6dc2611f4edfc38893ea58af8f3e5f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:33 +0000
Subject: [PATCH 30/61] fix: reject malformed UTF-8 sequences

---
 src/lib/utils/utf8.c | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/lib/utils/utf8.c b/src/lib/utils/utf8.c
index 88fdc2d..2b1c5cd 100644
--- a/src/lib/utils/utf8.c
+++ b/src/lib/utils/utf8.c
@@ -151,6 +151,10 @@ int utf8_sequence_to_utf32_codepoint(const char *utf8_data, int nbytes, uint32_t
     {
         // May be UTF-8.
             
+        if((unsigned char) utf8_data[0] >= 0xF8)
+            // 11111xxx can't start a sequence.
+            return -1;
+
         if((unsigned char) utf8_data[0] >= 0xF0)
             {
                 // 4 bytes.
@@ -158,6 +162,12 @@ int utf8_sequence_to_utf32_codepoint(const char *utf8_data, int nbytes, uint32_t
 
                 if(nbytes < 4)
                     return -1;
+
+                if((utf8_data[1] & 0xc0) != 0x80 ||
+                   (utf8_data[2] & 0xc0) != 0x80 ||
+                   (utf8_data[3] & 0xc0) != 0x80)
+                    // Not an auxiliary byte.
+                    return -1;
                     
                 uint32_t temp 
                     = (((uint32_t) utf8_data[0] & 0x07) << 18) 
@@ -180,6 +190,11 @@ int utf8_sequence_to_utf32_codepoint(const char *utf8_data, int nbytes, uint32_t
                 if(nbytes < 3)
                     return -1;
 
+                if((utf8_data[1] & 0xc0) != 0x80 ||
+                   (utf8_data[2] & 0xc0) != 0x80)
+                    // Not an auxiliary byte.
+                    return -1;
+
                 uint32_t temp
                     = (((uint32_t) utf8_data[0] & 0x0f) << 12)
                     | (((uint32_t) utf8_data[1] & 0x3f) <<  6)
@@ -200,6 +215,10 @@ int utf8_sequence_to_utf32_codepoint(const char *utf8_data, int nbytes, uint32_t
                 if(nbytes < 2)
                     return -1;
 
+                if((utf8_data[1] & 0xc0) != 0x80)
+                    // Not an auxiliary byte.
+                    return -1;
+
                 *utf32_code 
                     = (((uint32_t) utf8_data[0] & 0x1f) << 6)
                     | (((uint32_t) utf8_data[1] & 0x3f));
@@ -210,8 +229,8 @@ int utf8_sequence_to_utf32_codepoint(const char *utf8_data, int nbytes, uint32_t
             
         // 1 byte
         // 10xxxxxx
-        *utf32_code = (uint32_t) utf8_data[0] & 0x3f;
-        return 1;
+        // An auxiliary byte with no sequence before it.
+        return -1;
     }
 
     // It's ASCII
-- 
2.43.0


From ca2fd06b71f82083f6a8296b369e809518ad5e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:35 +0000
Subject: [PATCH 31/61] fix: report the line of the failing instruction in
 stack traces

---
 src/lib/runtime.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lib/runtime.c b/src/lib/runtime.c
index 53fd5ea..063650b 100644
--- a/src/lib/runtime.c
+++ b/src/lib/runtime.c
@@ -157,7 +157,12 @@ static int getFrameOffset(Frame *frame)
 		case FrameType_NORMAL: 
 		{
 			NormalFrame *normal_frame = (NormalFrame*) frame;
-			return Executable_GetInstrOffset(normal_frame->exe, normal_frame->index);
+			// The index was already moved past the instruction
+			// that's being executed.
+			int index = normal_frame->index;
+			if(index > 0)
+				index--;
+			return Executable_GetInstrOffset(normal_frame->exe, index);
 		}
 
 		case FrameType_NATIVE: return -1;
-- 
2.43.0


From 154c5218dbeca4b7356aba97cd3a21f2f9c46562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:35 +0000
Subject: [PATCH 32/61] fix: none, true and false carried the source position
 of the token after them

---
 src/lib/compiler/parse.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/lib/compiler/parse.c b/src/lib/compiler/parse.c
index fde43cd..eb035bc 100644
--- a/src/lib/compiler/parse.c
+++ b/src/lib/compiler/parse.c
@@ -1344,8 +1344,6 @@ static Node *parse_primary_expresion(Context *ctx)
 
 		case TKWNONE:
 		{
-			next(ctx);
-
 			ExprNode *node;
 			{
 				node = BPAlloc_Malloc(ctx->alloc, sizeof(ExprNode));
@@ -1364,13 +1362,13 @@ static Node *parse_primary_expresion(Context *ctx)
 				node->kind = EXPR_NONE;
 			}
 
+			next(ctx);
+
 			return (Node*) node;
 		}
 
 		case TKWTRUE:
 		{
-			next(ctx);
-
 			ExprNode *node;
 			{
 				node = BPAlloc_Malloc(ctx->alloc, sizeof(ExprNode));
@@ -1389,13 +1387,13 @@ static Node *parse_primary_expresion(Context *ctx)
 				node->kind = EXPR_TRUE;
 			}
 
+			next(ctx);
+
 			return (Node*) node;
 		}
 
 		case TKWFALSE:
 		{
-			next(ctx);
-
 			ExprNode *node;
 			{
 				node = BPAlloc_Malloc(ctx->alloc, sizeof(ExprNode));
@@ -1413,6 +1411,8 @@ static Node *parse_primary_expresion(Context *ctx)
 				node->base.length = ctx->token->length;
 				node->kind = EXPR_FALSE;
 			}
+
+			next(ctx);
 			return (Node*) node;
 		}
 
-- 
2.43.0


From f7f77f651240e80e2292d87b5fec489cc25bdced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:55 +0000
Subject: [PATCH 33/61] fix: type assertion errors about empty strings printed
 uninitialised memory

---
 src/lib/run.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/run.c b/src/lib/run.c
index 43026d6..e7a11c8 100644
--- a/src/lib/run.c
+++ b/src/lib/run.c
@@ -747,8 +747,8 @@ static _Bool runInstruction(Runtime *runtime, Error *error)
 				return 0;
 
 			if (!Object_IsTypeOf(typ, arg, heap, error)) {
-				char provided[512];
-				char allowed[512];
+				char provided[512] = "";
+				char allowed[512] = "";
 				FILE *provided_fp = fmemopen(provided, sizeof(provided), "wb");
 				FILE  *allowed_fp = fmemopen(allowed, sizeof(allowed), "wb");
 				// TODO: Check for errors from [fmemopen]
-- 
2.43.0


From c143bdcdbb4485f8015ea9609864d5dddcf1455c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:56 +0000
Subject: [PATCH 34/61] fix: string literals carried the source position of the
 token after them

---
 src/lib/compiler/parse.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib/compiler/parse.c b/src/lib/compiler/parse.c
index eb035bc..4f97b4e 100644
--- a/src/lib/compiler/parse.c
+++ b/src/lib/compiler/parse.c
@@ -860,9 +860,11 @@ static Node *parse_string_primary_expression(Context *ctx)
 
 	temp[temp_used] = '\0';
 
+	Node *node = makeStringExprNode(ctx, temp, temp_used);
+
 	next(ctx);
 
-	return makeStringExprNode(ctx, temp, temp_used);
+	return node;
 }
 
 static Node *parse_list_primary_expression(Context *ctx)
-- 
2.43.0


From 66a04eed38d49efdc4dc923bae4c28f09371101f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:47 +0000
Subject: [PATCH 35/61] fix: a collection that ran out of heap destroyed
 objects twice

---
 src/lib/objects/heap.c | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/src/lib/objects/heap.c b/src/lib/objects/heap.c
index 77c3659..0b38116 100644
--- a/src/lib/objects/heap.c
+++ b/src/lib/objects/heap.c
@@ -357,6 +357,7 @@ _Bool Heap_StartCollection(Heap *heap, Error *error)
 
 static bool callDestructors(Heap *heap)
 {
+	bool ok = true;
 	int i = 0;
 
 	while(i < heap->pend_used)
@@ -370,15 +371,26 @@ static bool callDestructors(Heap *heap)
 		}
 		else
 		{
-			// We need to call the destructor.
+			// We need to call the destructor. The collection
+			// may have failed already, so its error is reported
+			// separately and the object leaves the list in any
+			// case: it mustn't be destroyed again later.
+
+			Error suberror;
+			Error_Init(&suberror);
+
+			heap->pend[i].destructor(obj, &suberror);
 
-			heap->pend[i].destructor(obj, heap->error);
-					
-			if(heap->error->occurred) 
-				return false; // There will be leaks.
-			
 			heap->pend[i] = heap->pend[heap->pend_used-1];
 			heap->pend_used -= 1;
+
+			if(suberror.occurred)
+			{
+				if(!heap->error->occurred)
+					Error_Report(heap->error, suberror.type, "%s", suberror.message);
+				Error_Free(&suberror);
+				ok = false;
+			}
 		}
 	}
 
@@ -394,7 +406,7 @@ static bool callDestructors(Heap *heap)
 		}
 	}
 
-	return true;
+	return ok;
 }
 
 static void freeOverflowAllocations(Heap *heap)
@@ -411,9 +423,8 @@ _Bool Heap_StopCollection(Heap *heap)
 {
 	assert(heap->collecting == 1);
 
-	if(!callDestructors(heap))
-		return false;
-	
+	bool ok = callDestructors(heap);
+
 	freeOverflowAllocations(heap);
 
 	free(heap->old_body);
@@ -421,7 +432,7 @@ _Bool Heap_StopCollection(Heap *heap)
 	heap->collecting = 0;
 	heap->objcount = heap->movedcount;
 
-	return !heap->collection_failed;
+	return ok && !heap->collection_failed;
 }
 
 void Heap_CollectExtension(void **referer, unsigned int size, void *userp)
-- 
2.43.0


From c8b19c2c9b6de81ffb9421a57f3e9a3f8bc76a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:10 +0000
Subject: [PATCH 36/61] fix: native calls don't read the function object after
 the callback may have moved it

---
 src/lib/run.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/lib/run.c b/src/lib/run.c
index e7a11c8..5013550 100644
--- a/src/lib/run.c
+++ b/src/lib/run.c
@@ -268,11 +268,15 @@ static int native_func_call(Object *self, Object **argv, unsigned int argc, Obje
 		argc2 = -1;
 	}
 
-	if (!Runtime_PushNativeFrame(func->runtime, error))
+	// The callback may move [func], so the runtime
+	// must be read before calling it.
+	Runtime *runtime = func->runtime;
+
+	if (!Runtime_PushNativeFrame(runtime, error))
     	return -1;
 
 	ASSERT(func->callback != NULL);
-	int retc = func->callback(func->runtime, argv2, argc2, rets, error);
+	int retc = func->callback(runtime, argv2, argc2, rets, error);
 		
 	// NOTE: Since the callback may have executed some bytecode, a GC
 	//       cycle may have been triggered, therefore we must assume
@@ -282,7 +286,7 @@ static int native_func_call(Object *self, Object **argv, unsigned int argc, Obje
 	if(argv2 != argv)
 		free(argv2);
 
-	if (retc >= 0 && !Runtime_PopFrame(func->runtime))
+	if (retc >= 0 && !Runtime_PopFrame(runtime))
     	return -1;
 
 	return retc;
-- 
2.43.0


From 79b2c237fabc4eefb49321081f303c06a3633e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:04 +0000
Subject: [PATCH 37/61] fix: errors of unspecified type aren't syntax errors

---
 src/lib/compiler/parse.c | 2 +-
 src/lib/run.c            | 2 +-
 src/lib/utils/error.c    | 2 +-
 src/lib/utils/error.h    | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib/compiler/parse.c b/src/lib/compiler/parse.c
index 4f97b4e..37789cc 100644
--- a/src/lib/compiler/parse.c
+++ b/src/lib/compiler/parse.c
@@ -304,7 +304,7 @@ static Token *tokenize(Source *src, BPAlloc *alloc, Error *error, int *error_off
 			if(i == len)
 			{
 				*error_offset = i;
-				Error_Report(error, 0, "Source ended inside string literal");
+				Error_Report(error, ErrorType_SYNTAX, "Source ended inside string literal");
 				return NULL;
 			}
 
diff --git a/src/lib/run.c b/src/lib/run.c
index 5013550..24511b0 100644
--- a/src/lib/run.c
+++ b/src/lib/run.c
@@ -243,7 +243,7 @@ static int native_func_call(Object *self, Object **argv, unsigned int argc, Obje
 			
 		if(argv2 == NULL)
 		{
-			Error_Report(error, 1, "No memory");
+			Error_Report(error, ErrorType_INTERNAL, "No memory");
 			return -1;
 		}
 
diff --git a/src/lib/utils/error.c b/src/lib/utils/error.c
index 4feb7f5..4dc1959 100644
--- a/src/lib/utils/error.c
+++ b/src/lib/utils/error.c
@@ -144,7 +144,7 @@ void Error_Print(Error *error, ErrorType type_if_unspecified, FILE *stream)
         type = type_if_unspecified;
 
     const char *name;
-    switch (error->type) {
+    switch (type) {
         case ErrorType_INTERNAL: name = "Internal Error"; break;
         case ErrorType_SYNTAX:   name =   "Syntax Error"; break;
         case ErrorType_SEMANTIC: name = "Semantic Error"; break;
diff --git a/src/lib/utils/error.h b/src/lib/utils/error.h
index 4a5ddaf..4d8a159 100644
--- a/src/lib/utils/error.h
+++ b/src/lib/utils/error.h
@@ -35,11 +35,11 @@
 #include <stdarg.h>
 
 typedef enum {
+	ErrorType_UNSPECIFIED = 0,
 	ErrorType_SYNTAX,
 	ErrorType_SEMANTIC,
 	ErrorType_RUNTIME,
 	ErrorType_INTERNAL,
-	ErrorType_UNSPECIFIED = 0,
 } ErrorType;
 
 typedef struct Error Error;
-- 
2.43.0


From dbed683e17805c6834c9d999289ba5dead1d8238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:00 +0000
Subject: [PATCH 38/61] fix: the assembler refuses statements that don't start
 with an identifier

After reporting the missing opcode the function went on, so that a label
starting with a digit was accepted: the program ran and then failed.
---
 src/lib/assembler/assemble.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/assembler/assemble.c b/src/lib/assembler/assemble.c
index f373e7f..e5575d6 100644
--- a/src/lib/assembler/assemble.c
+++ b/src/lib/assembler/assemble.c
@@ -59,7 +59,7 @@ static bool parseLabelAndOpcode(Context *ctx, bool *no_label,
             // ERROR: Missing opcode
             *ctx->error_offset = ctx->cur;
             Error_Report(error, ErrorType_SYNTAX, "Missing opcode");
-            #warning "should there be a return here?"
+            return false;
         }
         
         label_or_opcode.offset = ctx->cur;
-- 
2.43.0


From 6423298ff7756cf5272286f949aeab635e43fa44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:00 +0000
Subject: [PATCH 39/61] fix: the assembler refuses a second definition of a
 label

A promise can only be resolved once; depending on where it was used, the
label meant one instruction or the other.
---
 src/lib/assembler/assemble.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lib/assembler/assemble.c b/src/lib/assembler/assemble.c
index e5575d6..c4a0a03 100644
--- a/src/lib/assembler/assemble.c
+++ b/src/lib/assembler/assemble.c
@@ -425,6 +425,14 @@ Executable *assemble(Source *src, Error *error, int *error_offset)
 
         // If a label was defined, add it to the list.
         if(no_label == false) {
+            const char *label_name = ctx.str + label.offset;
+            Promise *promise = LabelList_GetLabel(list, label_name, label.length);
+            if(promise != NULL && Promise_hasResolved(promise)) {
+                *error_offset = label.offset;
+                Error_Report(error, ErrorType_SEMANTIC, "Label %.*s is already defined", (int) label.length, label_name);
+                goto done;
+            }
+
             long long int value = ExeBuilder_InstrCount(builder);
             if(!LabelList_SetLabel(list, ctx.str + label.offset, label.length, value)) {
                 *error_offset = ctx.cur;
-- 
2.43.0


From e498ec59480abd0d06c946c9c9d45731f0956701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:00 +0000
Subject: [PATCH 40/61] fix: floating point operands of the assembler are
 converted exactly

Adding up the value of each digit gives 100.12499999999999 for 100.125.
---
 src/lib/assembler/assemble.c | 53 ++++++++++++++----------------------
 1 file changed, 21 insertions(+), 32 deletions(-)

diff --git a/src/lib/assembler/assemble.c b/src/lib/assembler/assemble.c
index c4a0a03..e18b56d 100644
--- a/src/lib/assembler/assemble.c
+++ b/src/lib/assembler/assemble.c
@@ -1,5 +1,6 @@
 #include <ctype.h>
 #include <limits.h>
+#include <stdlib.h>
 #include <string.h>
 #include <assert.h>
 #include "../executable.h"
@@ -226,55 +227,43 @@ static bool parseIntegerOperand(Context *ctx, Error *error, Operand *op)
 
 static bool parseFloatingOperand(Context *ctx, Error *error, Operand *op)
 {   
-    (void) error; // At the moment this function doesn't report
-                  // any error. This may change when overflows
-                  // and underflows are detected.
-
     // It's ensured by the caller that the cursor is
     // pointing to a sequence of one or more digits
     // followed by a dot and a digit after that.
     // Also, the sequence may be preceded by a '+' or
     // '-'.
+
+    size_t offset = ctx->cur;
     
-    int sign = 1;
-    if (ctx->str[ctx->cur] == '+')
-        ctx->cur++;
-    else if (ctx->str[ctx->cur] == '-') {
-        sign = -1;
+    if (ctx->str[ctx->cur] == '+' || ctx->str[ctx->cur] == '-')
         ctx->cur++;
-    }
-
-    double buffer = 0;
-    do {
-        // Transform each digit into its integer value.
-        int d = ctx->str[ctx->cur] - '0';
-        assert(d >= 0 && d <= 9);
-
-        // Should overflow be checked?
-        buffer = buffer * 10 + d;
 
+    while(ctx->str[ctx->cur] != '.')
         ctx->cur += 1;
-    } while(ctx->str[ctx->cur] != '.');
 
-    assert(ctx->cur+1 < ctx->len && ctx->str[ctx->cur] == '.' && isdigit(ctx->str[ctx->cur+1]));
+    assert(ctx->cur+1 < ctx->len && isdigit(ctx->str[ctx->cur+1]));
 
     // Skip the dot.
     ctx->cur += 1;
 
-    double q = 1;
-    do {
-        // Transform each digit into its integer value.
-        int d = ctx->str[ctx->cur] - '0';
-        assert(d >= 0 && d <= 9);
-
-        q /= 10;
-        buffer += q * d;
-
+    while(ctx->cur < ctx->len && isdigit(ctx->str[ctx->cur]))
         ctx->cur += 1;
-    } while(ctx->cur < ctx->len && isdigit(ctx->str[ctx->cur]));
+
+    // The conversion is done by [strtod], like the compiler 
+    // does, since adding up the value of each digit doesn't
+    // give the closest representable number.
+    char buffer[1024];
+    size_t length = ctx->cur - offset;
+    if(length >= sizeof(buffer)) {
+        *ctx->error_offset = offset;
+        Error_Report(error, ErrorType_INTERNAL, "Floating is too big");
+        return false;
+    }
+    memcpy(buffer, ctx->str + offset, length);
+    buffer[length] = '\0';
     
     op->type = OPTP_FLOAT;
-    op->as_float = sign * buffer;
+    op->as_float = strtod(buffer, NULL);
     return true;
 }
 
-- 
2.43.0


From 23d5ea20a4c357e1b121805677cb877cc2c4b89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:45 +0000
Subject: [PATCH 41/61] fix: a tuple out of place is a syntax error, not an
 error of unspecified type

---
 src/lib/compiler/codegen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/compiler/codegen.c b/src/lib/compiler/codegen.c
index f8c5471..4365d84 100644
--- a/src/lib/compiler/codegen.c
+++ b/src/lib/compiler/codegen.c
@@ -392,7 +392,7 @@ static void emitInstrForExprNode(CodegenContext *ctx, ExprNode *expr,
 	{
 		case EXPR_PAIR:
 		CodegenContext_ReportErrorAndJump(
-			ctx, expr->base.offset, 0, 
+			ctx, expr->base.offset, ErrorType_SYNTAX, 
 			"Tuple outside of assignment or return statement");
 		UNREACHABLE;
 		return; // For the compiler warning.
-- 
2.43.0


From 8683eab7d22842718660be66d51e616286fde86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:48 +0000
Subject: [PATCH 42/61] fix: integers in diagrams aren't cut to 32 bits

---
 src/lib/compiler/graphviz.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/compiler/graphviz.c b/src/lib/compiler/graphviz.c
index c163c6b..ceeb3d6 100644
--- a/src/lib/compiler/graphviz.c
+++ b/src/lib/compiler/graphviz.c
@@ -301,7 +301,7 @@ static void exprToGraphViz(GraphViz *ctx, ExprNode *expr, int *count, char *name
 		case EXPR_INT:
 		{
 			IntExprNode *p = (IntExprNode*) expr;
-			GraphViz_AppendHead(ctx, "\t%s [label=\"%d\"];\n", name, p->val);
+			GraphViz_AppendHead(ctx, "\t%s [label=\"%lld\"];\n", name, (long long) p->val);
 			return;
 		}
 
-- 
2.43.0


From 680c0b1e95674cd5557e51082b2985bab3b54065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:09 +0000
Subject: [PATCH 43/61] fix: diagrams show both operands of the arrow operator

---
 src/lib/compiler/graphviz.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/compiler/graphviz.c b/src/lib/compiler/graphviz.c
index ceeb3d6..667ec29 100644
--- a/src/lib/compiler/graphviz.c
+++ b/src/lib/compiler/graphviz.c
@@ -230,7 +230,6 @@ static const char *exprkind_to_label(ExprKind kind)
 		case EXPR_AND: return "and";
 		case EXPR_OR : return "or";
 		case EXPR_ASS: return "=";
-		case EXPR_ARW: return "->";
 		default:
 		UNREACHABLE;
 		break;
@@ -281,7 +280,7 @@ static void exprToGraphViz(GraphViz *ctx, ExprNode *expr, int *count, char *name
 
 		case EXPR_NULLABLETYPE:
 		case EXPR_SUMTYPE:
-		case EXPR_ASS: case EXPR_ARW:
+		case EXPR_ASS:
 		case EXPR_NOT: case EXPR_MOD:
 		case EXPR_POS: case EXPR_NEG:
 		case EXPR_ADD: case EXPR_SUB:
@@ -402,9 +401,10 @@ static void exprToGraphViz(GraphViz *ctx, ExprNode *expr, int *count, char *name
 		return;
 
 		case EXPR_SELECT:
+		case EXPR_ARW:
 		{
 			IndexSelectionExprNode *sel = (IndexSelectionExprNode*) expr;
-			GraphViz_AppendHead(ctx, "\t%s [label=\"Select\"];\n", name);
+			GraphViz_AppendHead(ctx, "\t%s [label=\"%s\"];\n", name, expr->kind == EXPR_ARW ? "->" : "Select");
 			childToGraphViz(ctx, sel->set, count, name);
 			childToGraphViz(ctx, sel->idx, count, name);
 			return;
-- 
2.43.0


From 919f24d9e50d6293d021566b97b06e3ad0f5f159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:09 +0000
Subject: [PATCH 44/61] fix: tuples on the left of an assignment have a node in
 diagrams

---
 src/lib/compiler/graphviz.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/lib/compiler/graphviz.c b/src/lib/compiler/graphviz.c
index 667ec29..0a0245b 100644
--- a/src/lib/compiler/graphviz.c
+++ b/src/lib/compiler/graphviz.c
@@ -211,6 +211,7 @@ static const char *exprkind_to_label(ExprKind kind)
 {
 	switch(kind)
 	{
+		case EXPR_PAIR: return ",";
 		case EXPR_NULLABLETYPE: return "Nullable Type";
 		case EXPR_SUMTYPE: return "Sum Type";
 		case EXPR_NOT: return "!";
@@ -275,9 +276,6 @@ static void exprToGraphViz(GraphViz *ctx, ExprNode *expr, int *count, char *name
 	switch(expr->kind)
 	{
 		case EXPR_PAIR:
-		UNREACHABLE;
-		return; // For the compiler warning.
-
 		case EXPR_NULLABLETYPE:
 		case EXPR_SUMTYPE:
 		case EXPR_ASS:
-- 
2.43.0


From f296368531054657bcf894bcb49b5e9e828460e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:09 +0000
Subject: [PATCH 45/61] fix: diagrams of returns with more than 32 values don't
 overflow a buffer

---
 src/lib/compiler/graphviz.c | 38 ++++++++++++-------------------------
 1 file changed, 12 insertions(+), 26 deletions(-)

diff --git a/src/lib/compiler/graphviz.c b/src/lib/compiler/graphviz.c
index 0a0245b..e547a80 100644
--- a/src/lib/compiler/graphviz.c
+++ b/src/lib/compiler/graphviz.c
@@ -183,25 +183,6 @@ static char *GraphViz_Complete(GraphViz *gv, size_t *len)
 
 static void nodeToGraphViz(GraphViz *ctx, Node *node, int *count, char *name);
 
-static void flattenTupleTree(ExprNode *root, ExprNode *tuple[], int max, int *count)
-{
-	if(root->kind == EXPR_PAIR)
-	{
-		flattenTupleTree((ExprNode*) ((OperExprNode*) root)->head, tuple, max, count);
-		flattenTupleTree((ExprNode*) ((OperExprNode*) root)->head->next, tuple, max, count);
-	} 
-	else 
-	{
-
-		if(max == *count)
-		{
-			assert(0); // TODO: Do something smart instead
-		}
-
-		tuple[(*count)++] = root;
-	}
-}
-
 static void generateName(int *count, char *dst, size_t max)
 {
 	snprintf(dst, max, "node_%d", ++(*count));
@@ -247,6 +228,17 @@ static void childToGraphViz(GraphViz *ctx, Node *child, int *count, char *parent
 	GraphViz_AppendBody(ctx, "\t%s -> %s;\n", parent, name2);
 }
 
+static void tupleToGraphViz(GraphViz *ctx, ExprNode *root, int *count, char *parent)
+{
+	if(root->kind == EXPR_PAIR)
+	{
+		tupleToGraphViz(ctx, (ExprNode*) ((OperExprNode*) root)->head, count, parent);
+		tupleToGraphViz(ctx, (ExprNode*) ((OperExprNode*) root)->head->next, count, parent);
+	}
+	else
+		childToGraphViz(ctx, (Node*) root, count, parent);
+}
+
 static void funcExprToGraphViz(GraphViz *ctx, FuncExprNode *func, char *func_name, int *count, char *name)
 {
 	GraphViz_AppendHead(ctx, "\t%s [label=\"%s\"];\n", name, func_name);
@@ -495,13 +487,7 @@ static void nodeToGraphViz(GraphViz *ctx, Node *node, int *count, char *name)
 
 			GraphViz_AppendHead(ctx, "\t%s [label=\"return\"];\n", name);
 
-			ExprNode *tuple[32];
-			int return_count = 0;
-
-			flattenTupleTree((ExprNode*) ret->val, tuple, sizeof(tuple)/sizeof(tuple[0]), &return_count);
-
-			for(int i = 0; i < return_count; i += 1)
-				childToGraphViz(ctx, (Node*) tuple[i], count, name);
+			tupleToGraphViz(ctx, (ExprNode*) ret->val, count, name);
 			return;
 		}
 
-- 
2.43.0


From 42527e47d8214fbfe93e7099137bef9e916f0ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:28 +0000
Subject: [PATCH 46/61] fix: overlong forms and surrogates aren't valid UTF-8

---
 src/lib/utils/utf8.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/lib/utils/utf8.c b/src/lib/utils/utf8.c
index 2b1c5cd..888d382 100644
--- a/src/lib/utils/utf8.c
+++ b/src/lib/utils/utf8.c
@@ -78,6 +78,10 @@ int utf8_sequence_from_utf32_codepoint(char *utf8_data, int nbytes, uint32_t utf
         return 2;
     }
 
+    if(utf32_code >= 0xd800 && utf32_code <= 0xdfff)
+        // Surrogates aren't characters.
+        return -1;
+
     if(utf32_code < 65536)
     {
         if(nbytes < 3)
@@ -178,6 +182,10 @@ int utf8_sequence_to_utf32_codepoint(const char *utf8_data, int nbytes, uint32_t
                 if(temp > 0x10ffff)
                     return -1;
 
+                if(temp < 0x10000)
+                    // Fewer bytes are enough for this character.
+                    return -1;
+
                 *utf32_code = temp;
                 return 4;
             }
@@ -203,6 +211,14 @@ int utf8_sequence_to_utf32_codepoint(const char *utf8_data, int nbytes, uint32_t
                 if(temp > 0x10ffff)
                     return -1;
 
+                if(temp < 0x800)
+                    // Fewer bytes are enough for this character.
+                    return -1;
+
+                if(temp >= 0xd800 && temp <= 0xdfff)
+                    // Surrogates aren't characters.
+                    return -1;
+
                 *utf32_code = temp;
                 return 3;
             }
@@ -219,6 +235,10 @@ int utf8_sequence_to_utf32_codepoint(const char *utf8_data, int nbytes, uint32_t
                     // Not an auxiliary byte.
                     return -1;
 
+                if((unsigned char) utf8_data[0] < 0xC2)
+                    // One byte is enough for this character.
+                    return -1;
+
                 *utf32_code 
                     = (((uint32_t) utf8_data[0] & 0x1f) << 6)
                     | (((uint32_t) utf8_data[1] & 0x3f));
-- 
2.43.0


From ceed6195b5d2341ac1ebd6f576b0519fd3c1f37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:28 +0000
Subject: [PATCH 47/61] fix: toString of the smallest integer

---
 src/lib/builtins/start.noja | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib/builtins/start.noja b/src/lib/builtins/start.noja
index 1934ebd..6025530 100644
--- a/src/lib/builtins/start.noja
+++ b/src/lib/builtins/start.noja
@@ -21,12 +21,12 @@ fun stringFromDigit(digit: int) {
 # argument and the power of 10 with the same
 # magnitude.
 fun getIntegerMagnitude(n: int) {
-	assert(n >= 0);
+	# (The argument may be negative.)
 	magn = 0;
 	powr = 1;
 	# Basically grow the power until it's
 	# bigger than the input.
-	while n / powr >= 10: {
+	while n / powr >= 10 or n / powr <= -10: {
 		powr = 10 * powr;
 		magn = 1 + magn;
 	}
@@ -40,14 +40,14 @@ fun stringFromInteger(n: int) {
 	
 	# Get the power of 10 with the
 	# magnitude of the input.
-	temp = abs(n); # Temporary copy of the input
+	temp = n; # Temporary copy of the input
 	_, power = getIntegerMagnitude(temp);
 
 	text = ""; # The output we're about to compute
 	
 	while power >= 1: {
 		# Pop the leftmost digit from [temp].
-		digit = temp / power; # Get the leftmost digit
+		digit = abs(temp / power); # Get the leftmost digit
 		temp  = temp % power; # Remove it
 
 		# Add the digit to the output.
-- 
2.43.0


From 7bcabcf7527326ba0cce677d44fe1ddc61a808e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:29 +0000
Subject: [PATCH 48/61] fix: too deep a nesting is an error, not a stack
 overflow

---
 src/lib/compiler/ASTi.h       |  4 ++++
 src/lib/compiler/codegen.c    | 10 ++++++++
 src/lib/compiler/codegenctx.c | 16 +++++++++++++
 src/lib/compiler/codegenctx.h |  2 ++
 src/lib/compiler/graphviz.c   | 25 ++++++++++++++++++++
 src/lib/compiler/parse.c      | 44 ++++++++++++++++++++++++++++++++++-
 6 files changed, 100 insertions(+), 1 deletion(-)

diff --git a/src/lib/compiler/ASTi.h b/src/lib/compiler/ASTi.h
index 43fbd43..9614384 100644
--- a/src/lib/compiler/ASTi.h
+++ b/src/lib/compiler/ASTi.h
@@ -33,6 +33,10 @@
 #include "../utils/source.h"
 #include "AST.h"
 
+// Statements and expressions can't be nested more than this,
+// since they are handled by functions that call themselves.
+#define MAX_NESTING 8192
+
 typedef enum {
 	NODE_EXPR, 
 	NODE_IFELSE,
diff --git a/src/lib/compiler/codegen.c b/src/lib/compiler/codegen.c
index 4365d84..5f0c18d 100644
--- a/src/lib/compiler/codegen.c
+++ b/src/lib/compiler/codegen.c
@@ -165,6 +165,7 @@ static void emitInstr_PUSHNNETYP(CodegenContext *ctx, int off, int len)
 }
 
 static void emitInstrForNode(CodegenContext *ctx, Node *node, Label *label_break);
+static void emitInstrForNode2(CodegenContext *ctx, Node *node, Label *label_break);
 
 static Opcode exprkind_to_opcode(ExprKind kind)
 {
@@ -312,8 +313,10 @@ static void flattenTupleTree(CodegenContext *ctx, ExprNode *root, ExprNode *tupl
 {
 	if(root->kind == EXPR_PAIR)
 	{
+		CodegenContext_Enter(ctx, MAX_NESTING, root->base.offset);
 		flattenTupleTree(ctx, (ExprNode*) ((OperExprNode*) root)->head, tuple, max, count);
 		flattenTupleTree(ctx, (ExprNode*) ((OperExprNode*) root)->head->next, tuple, max, count);
+		CodegenContext_Leave(ctx);
 	} 
 	else 
 	{
@@ -672,6 +675,13 @@ static void emitInstrForDoWhileLoopNode(CodegenContext *ctx, DoWhileNode *loop,
 }
 
 static void emitInstrForNode(CodegenContext *ctx, Node *node, Label *label_break)
+{
+	CodegenContext_Enter(ctx, MAX_NESTING, node->offset);
+	emitInstrForNode2(ctx, node, label_break);
+	CodegenContext_Leave(ctx);
+}
+
+static void emitInstrForNode2(CodegenContext *ctx, Node *node, Label *label_break)
 {
 	assert(node != NULL);
 
diff --git a/src/lib/compiler/codegenctx.c b/src/lib/compiler/codegenctx.c
index c20a94d..de29895 100644
--- a/src/lib/compiler/codegenctx.c
+++ b/src/lib/compiler/codegenctx.c
@@ -10,6 +10,7 @@ struct CodegenContext {
     bool env_set;
     jmp_buf *env;
     int *error_offset;
+    int nesting;
 };
 
 Label *Label_New(CodegenContext *ctx)
@@ -108,6 +109,7 @@ CodegenContext *CodegenContext_New(Error *error, int *error_offset, BPAlloc *all
     ctx->alloc = alloc;
     ctx->builder = builder;
     ctx->env_set = false;
+    ctx->nesting = 0;
     ctx->own_alloc = own_alloc;
     return ctx;
 }
@@ -118,6 +120,20 @@ int CodegenContext_InstrCount(CodegenContext *ctx)
 }
 
 
+void CodegenContext_Enter(CodegenContext *ctx, int max_nesting, int error_offset)
+{
+    if(ctx->nesting == max_nesting) {
+        CodegenContext_ReportErrorAndJump(ctx, error_offset, ErrorType_SYNTAX, "Statements or expressions are nested too much");
+        UNREACHABLE;
+    }
+    ctx->nesting += 1;
+}
+
+void CodegenContext_Leave(CodegenContext *ctx)
+{
+    ctx->nesting -= 1;
+}
+
 void CodegenContext_Free(CodegenContext *ctx)
 {
     if(ctx->own_alloc)
diff --git a/src/lib/compiler/codegenctx.h b/src/lib/compiler/codegenctx.h
index 3d7b185..bdc1668 100644
--- a/src/lib/compiler/codegenctx.h
+++ b/src/lib/compiler/codegenctx.h
@@ -12,6 +12,8 @@ Executable     *CodegenContext_MakeExecutableAndFree(CodegenContext *ctx, Source
 void            CodegenContext_ReportErrorAndJump_(CodegenContext *ctx, const char *file, const char *func, int line, int error_offset, ErrorType type, const char *format, ...);
 #define         CodegenContext_ReportErrorAndJump(ctx, error_offset, typ, fmt, ...) CodegenContext_ReportErrorAndJump_(ctx, __FILE__, __func__, __LINE__, error_offset, typ, fmt, ## __VA_ARGS__) 
 int             CodegenContext_InstrCount(CodegenContext *ctx);
+void            CodegenContext_Enter(CodegenContext *ctx, int max_nesting, int error_offset);
+void            CodegenContext_Leave(CodegenContext *ctx);
 
 typedef struct Label Label;
 Label   *Label_New(CodegenContext *ctx);
diff --git a/src/lib/compiler/graphviz.c b/src/lib/compiler/graphviz.c
index e547a80..deab2c7 100644
--- a/src/lib/compiler/graphviz.c
+++ b/src/lib/compiler/graphviz.c
@@ -60,6 +60,7 @@ typedef struct {
 typedef struct {
 	Error *error;
 	Buffer head, body;
+	int nesting;
 } GraphViz;
 
 static void Buffer_Init(Buffer *buf)
@@ -80,6 +81,7 @@ static void GraphViz_Init(GraphViz *gv, Error *error)
 	Buffer_Init(&gv->body);
 	gv->error = error;
 	gv->error->occurred = false;
+	gv->nesting = 0;
 }
 static void GraphViz_Free(GraphViz *gv)
 {
@@ -183,6 +185,22 @@ static char *GraphViz_Complete(GraphViz *gv, size_t *len)
 
 static void nodeToGraphViz(GraphViz *ctx, Node *node, int *count, char *name);
 
+static bool enter(GraphViz *ctx)
+{
+	if (ctx->nesting == MAX_NESTING) {
+		if (!ctx->error->occurred)
+			Error_Report(ctx->error, ErrorType_SYNTAX, "Statements or expressions are nested too much");
+		return false;
+	}
+	ctx->nesting++;
+	return true;
+}
+
+static void leave(GraphViz *ctx)
+{
+	ctx->nesting--;
+}
+
 static void generateName(int *count, char *dst, size_t max)
 {
 	snprintf(dst, max, "node_%d", ++(*count));
@@ -222,18 +240,25 @@ static const char *exprkind_to_label(ExprKind kind)
 
 static void childToGraphViz(GraphViz *ctx, Node *child, int *count, char *parent)
 {
+	if (!enter(ctx))
+		return;
+
 	char name2[128];
 	generateName(count, name2, sizeof(name2));
 	nodeToGraphViz(ctx, child, count, name2);
 	GraphViz_AppendBody(ctx, "\t%s -> %s;\n", parent, name2);
+	leave(ctx);
 }
 
 static void tupleToGraphViz(GraphViz *ctx, ExprNode *root, int *count, char *parent)
 {
 	if(root->kind == EXPR_PAIR)
 	{
+		if (!enter(ctx))
+			return;
 		tupleToGraphViz(ctx, (ExprNode*) ((OperExprNode*) root)->head, count, parent);
 		tupleToGraphViz(ctx, (ExprNode*) ((OperExprNode*) root)->head->next, count, parent);
+		leave(ctx);
 	}
 	else
 		childToGraphViz(ctx, (Node*) root, count, parent);
diff --git a/src/lib/compiler/parse.c b/src/lib/compiler/parse.c
index 37789cc..bdc799d 100644
--- a/src/lib/compiler/parse.c
+++ b/src/lib/compiler/parse.c
@@ -135,9 +135,11 @@ typedef struct {
 	BPAlloc *alloc;
 	Error   *error;
 	int *error_offset;
+	int  nesting;
 } Context;
 
 static Node *parse_statement(Context *ctx);
+static Node *parse_statement_2(Context *ctx);
 static Node *parse_expression(Context *ctx, _Bool allow_toplev_tuples, _Bool allow_assignments);
 static Node *parse_expression_statement(Context *ctx);
 static Node *parse_ifelse_statement(Context *ctx);
@@ -145,6 +147,7 @@ static Node *parse_compound_statement(Context *ctx, TokenKind end);
 static FuncDeclNode *parse_function_definition(Context *ctx);
 static Node *parse_postfix_expression(Context *ctx);
 static Node *parse_prefix_expression(Context *ctx);
+static Node *parse_prefix_expression_2(Context *ctx);
 static Node *parse_while_statement(Context *ctx);
 static Node *parse_dowhile_statement(Context *ctx);
 
@@ -469,6 +472,7 @@ AST *parse(Source *src, BPAlloc *alloc, Error *error, int *error_offset)
 	ctx.alloc = alloc;
 	ctx.error = error;
 	ctx.error_offset = error_offset;
+	ctx.nesting = 0;
 	Node *root = parse_compound_statement(&ctx, TDONE);
 
 	if(root == NULL)
@@ -569,7 +573,33 @@ static inline _Bool done(Context *ctx)
 	return current(ctx) == TDONE;
 }
 
+static _Bool enter(Context *ctx)
+{
+	if(ctx->nesting == MAX_NESTING)
+	{
+		*ctx->error_offset = ctx->token->offset;
+		Error_Report(ctx->error, ErrorType_SYNTAX, "Statements or expressions are nested too much");
+		return 0;
+	}
+	ctx->nesting += 1;
+	return 1;
+}
+
+static void leave(Context *ctx)
+{
+	ctx->nesting -= 1;
+}
+
 static Node *parse_statement(Context *ctx)
+{
+	if(!enter(ctx))
+		return NULL;
+	Node *node = parse_statement_2(ctx);
+	leave(ctx);
+	return node;
+}
+
+static Node *parse_statement_2(Context *ctx)
 {
 	assert(ctx != NULL);
 
@@ -1626,6 +1656,15 @@ done:
 }
 
 static Node *parse_prefix_expression(Context *ctx)
+{
+	if(!enter(ctx))
+		return NULL;
+	Node *node = parse_prefix_expression_2(ctx);
+	leave(ctx);
+	return node;
+}
+
+static Node *parse_prefix_expression_2(Context *ctx)
 {
 	if(done(ctx))
 	{
@@ -1773,8 +1812,11 @@ static Node *parse_expression_2(Context *ctx, Node *left_expr, int min_prec, _Bo
 		while(isbinop(ctx->token) && (precedenceof(ctx->token) > precedenceof(op) || (precedenceof(ctx->token) == precedenceof(op) && isrightassoc(ctx->token))))
 		{
 			int new_prec = precedenceof(op) + (precedenceof(op) < precedenceof(ctx->token));
+			if(!enter(ctx))
+				return NULL;
 			right_expr = parse_expression_2(ctx, right_expr, new_prec, allow_toplev_tuples, allow_assignments);
-			
+			leave(ctx);
+
 			if(right_expr == NULL)
 				return NULL;				
 		
-- 
2.43.0


From c7a9da9fa94df77ec418782d9702ee4d9584d493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:55 +0000
Subject: [PATCH 49/61] fix: lists and maps that contain themselves don't crash
 the host when used as keys

---
 src/lib/objects/objects.c | 21 +++++++++++++++++++--
 src/lib/objects/objects.h |  2 ++
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/lib/objects/objects.c b/src/lib/objects/objects.c
index cc97a5a..7a7a576 100644
--- a/src/lib/objects/objects.c
+++ b/src/lib/objects/objects.c
@@ -114,7 +114,15 @@ int Object_Hash(Object *obj)
 		// The object can't be compared nor copied, so using
 		// it as a key will fail once the slot is inspected.
 		return 0;
-	return type->hash(obj);
+
+	if(obj->flags & Object_HASH)
+		// The object contains itself.
+		return 0;
+
+	obj->flags |= Object_HASH;
+	int h = type->hash(obj);
+	obj->flags &= ~Object_HASH;
+	return h;
 }
 
 Object *Object_Copy(Object *obj, Heap *heap, Error *err)
@@ -131,7 +139,16 @@ Object *Object_Copy(Object *obj, Heap *heap, Error *err)
 		return NULL;
 	}
 
-	return type->copy(obj, heap, err);
+	if(obj->flags & Object_COPY)
+	{
+		Error_Report(err, ErrorType_RUNTIME, "Object %s contains itself and can't be copied", Object_GetName(obj));
+		return NULL;
+	}
+
+	obj->flags |= Object_COPY;
+	Object *copy = type->copy(obj, heap, err);
+	obj->flags &= ~Object_COPY;
+	return copy;
 }
 
 int Object_Call(Object *obj, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Heap *heap, Error *err)
diff --git a/src/lib/objects/objects.h b/src/lib/objects/objects.h
index 8aa5126..19dc344 100644
--- a/src/lib/objects/objects.h
+++ b/src/lib/objects/objects.h
@@ -85,6 +85,8 @@ enum {
 	Object_STATIC = 1 << 0,
 	Object_MOVED  = 1 << 1,
 	Object_PRINT  = 1 << 2,
+	Object_HASH   = 1 << 3,
+	Object_COPY   = 1 << 4,
 };
 
 Heap*		 Heap_New(int size);
-- 
2.43.0


From 36a1b6ceac52d251551e552fefecc938104d4895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:55 +0000
Subject: [PATCH 50/61] fix: istypeof terminates on types and values that
 contain themselves

---
 src/lib/objects/objects.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/lib/objects/objects.c b/src/lib/objects/objects.c
index 7a7a576..5137b98 100644
--- a/src/lib/objects/objects.c
+++ b/src/lib/objects/objects.c
@@ -102,7 +102,23 @@ bool Object_IsTypeOf(Object *typ, Object *obj, Heap *heap, Error *error)
 {
 	if (typ->type->istypeof == NULL)
 		return false;
-	return typ->type->istypeof(typ, obj, heap, error);
+
+	// Both the type and the object may contain themselves, in
+	// which case a question comes back while it's being answered.
+	// It doesn't add anything to what's being checked already.
+	typedef struct Question Question;
+	struct Question { Object *typ, *obj; Question *prev; };
+	static _Thread_local Question *pending = NULL;
+
+	for (Question *q = pending; q != NULL; q = q->prev)
+		if (q->typ == typ && q->obj == obj)
+			return true;
+
+	Question question = { .typ = typ, .obj = obj, .prev = pending };
+	pending = &question;
+	bool res = typ->type->istypeof(typ, obj, heap, error);
+	pending = question.prev;
+	return res;
 }
 
 int Object_Hash(Object *obj)
-- 
2.43.0


From ede6f4066cdcce71ee352e11ba46caddee3ce6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:13 +0000
Subject: [PATCH 51/61] fix: toString rounds floats to the nearest instead of
 dropping exact decimals

---
 src/lib/builtins/start.noja | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/lib/builtins/start.noja b/src/lib/builtins/start.noja
index 6025530..266cdfb 100644
--- a/src/lib/builtins/start.noja
+++ b/src/lib/builtins/start.noja
@@ -66,20 +66,26 @@ fun stringFromFloating(f: float, max_decimals: int = 2) {
 	# This function is just a fast hack
 	if f < 0:
 		return cat("-", stringFromFloating(-f, max_decimals));
-	epsilon = 0.00000001;
-	asint = math.floor(f);
-	text = stringFromInteger(asint);
-	text = cat(text, ".");
-	magn = 1.0;
-	temp = f - asint;
+	scale = 1;
 	i = 0;
-	do {
-		magn = magn / 10;
-		digit = math.floor(temp / magn);
-		text = cat(text, stringFromDigit(digit));
-		temp = temp - magn * digit; # Remove the handled digit
+	while i < max_decimals: {
+		scale = 10 * scale;
 		i = i+1;
-	} while temp > epsilon and i < max_decimals;
+	}
+	asint = math.floor(f);
+	# The digits after the dot, rounded to
+	# the nearest.
+	digits = math.floor((f - asint) * scale + 0.5);
+	if digits == scale: {
+		asint = asint + 1;
+		digits = 0;
+	}
+	text = cat(stringFromInteger(asint), ".");
+	do {
+		scale = scale / 10;
+		text = cat(text, stringFromDigit(digits / scale));
+		digits = digits % scale; # Remove the handled digit
+	} while digits > 0;
 	return text;
 }
 
-- 
2.43.0


From 4cc28f2a991fb6c28b442a87344ea79df2cdff99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:13 +0000
Subject: [PATCH 52/61] fix: math.floor and math.ceil report results that don't
 fit in an integer

---
 src/lib/builtins/math.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/lib/builtins/math.c b/src/lib/builtins/math.c
index d820bc1..8138964 100644
--- a/src/lib/builtins/math.c
+++ b/src/lib/builtins/math.c
@@ -103,7 +103,14 @@ static int bin_ceil(Runtime *runtime, Object **argv, unsigned int argc, Object *
 	{
 		double v = Object_GetFloat(argv[0]);
 
-		rets[0] = Object_FromInt(ceil(v), Runtime_GetHeap(runtime), error);
+		double r = ceil(v);
+		if(!(r >= -9223372036854775808.0 && r < 9223372036854775808.0))
+		{
+			Error_Report(error, ErrorType_RUNTIME, "The result doesn't fit in an integer");
+			return -1;
+		}
+
+		rets[0] = Object_FromInt(r, Runtime_GetHeap(runtime), error);
 		if(rets[0] == NULL)
 			return -1;
 		return 1;
@@ -124,7 +131,14 @@ static int bin_floor(Runtime *runtime, Object **argv, unsigned int argc, Object
 	{
 		double v = Object_GetFloat(argv[0]);
 
-		rets[0] = Object_FromInt(floor(v), Runtime_GetHeap(runtime), error);
+		double r = floor(v);
+		if(!(r >= -9223372036854775808.0 && r < 9223372036854775808.0))
+		{
+			Error_Report(error, ErrorType_RUNTIME, "The result doesn't fit in an integer");
+			return -1;
+		}
+
+		rets[0] = Object_FromInt(r, Runtime_GetHeap(runtime), error);
 		if(rets[0] == NULL)
 			return -1;
 		return 1;
-- 
2.43.0


From 79f731092b783f08b2d6eeceeaf42d9fe7ca45fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:19 +0000
Subject: [PATCH 53/61] fix: terminate the body of sources made from strings

---
 src/lib/utils/source.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/utils/source.c b/src/lib/utils/source.c
index c4f3de1..13eb78a 100644
--- a/src/lib/utils/source.c
+++ b/src/lib/utils/source.c
@@ -214,5 +214,6 @@ Source *Source_FromString(const char *name, const char *body, int size, Error *e
 		s->name = NULL;
 	
 	strncpy(s->body, body, size);
+	s->body[size] = '\0';
 	return s;
 }
\ No newline at end of file
-- 
2.43.0


From 6a4ff85f8c136ca55ccb55e83f28f4482efdd5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:06 +0000
Subject: [PATCH 54/61] fix: random.generate stays within the requested range
 for all integers

---
 src/lib/builtins/random.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lib/builtins/random.c b/src/lib/builtins/random.c
index 63910ff..62b0a84 100644
--- a/src/lib/builtins/random.c
+++ b/src/lib/builtins/random.c
@@ -31,7 +31,13 @@ static int bin_generate(Runtime *runtime, Object **argv, unsigned int argc, Obje
 	int64_t min, max;
 	if (pargs[0].defined) min = pargs[0].as_int; else min = 0;
 	if (pargs[1].defined) max = pargs[1].as_int; else max = INT64_MAX;
-	int64_t value = min + (max - min) * (double) rand() / RAND_MAX;
+	// Distances between 64-bit integers only fit in an unsigned one, and a 
+	// double may round one up past the end of the range.
+	bool down = max < min;
+	uint64_t range = down ? (uint64_t) min - (uint64_t) max : (uint64_t) max - (uint64_t) min;
+	double scaled = (double) range * (double) rand() / RAND_MAX;
+	uint64_t offset = scaled < (double) range ? (uint64_t) scaled : range;
+	int64_t value = (int64_t) (down ? (uint64_t) min - offset : (uint64_t) min + offset);
 	return returnValues2(error, runtime, rets, "i", (long long int) value);
 }
 
-- 
2.43.0


From 6cd66ad8e84ba398849f83513212cd724f343066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:06 +0000
Subject: [PATCH 55/61] fix: net.send to a peer that went away ended the
 process

---
 src/lib/builtins/net.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/builtins/net.c b/src/lib/builtins/net.c
index a653e53..d50e4ea 100644
--- a/src/lib/builtins/net.c
+++ b/src/lib/builtins/net.c
@@ -145,7 +145,8 @@ static int bin_send(Runtime *runtime, Object **argv, unsigned int argc, Object *
 	} else
 		count = srclen;
 	
-	ssize_t res = send(fd, srcptr, count, 0);
+	// A peer that went away is an error of this call and not a signal.
+	ssize_t res = send(fd, srcptr, count, MSG_NOSIGNAL);
 	if (res < 0)
 		return returnValues2(error, runtime, rets, "ns", strerror(errno));
 	return returnValues2(error, runtime, rets, "i", (long long int) res);
-- 
2.43.0


From 469a174ec0db7bf04a6eac6c511c03873be70e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:07 +0000
Subject: [PATCH 56/61] fix: net took ports and counts modulo their C types

---
 src/lib/builtins/net.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lib/builtins/net.c b/src/lib/builtins/net.c
index d50e4ea..9ab5ada 100644
--- a/src/lib/builtins/net.c
+++ b/src/lib/builtins/net.c
@@ -51,6 +51,9 @@ static int bin_bind(Runtime *runtime, Object **argv, unsigned int argc, Object *
 	if (family != AF_INET)
 		return returnValues2(error, runtime, rets, "ns", "Invalid family (only AF_INET is supported at the moment)");
 
+	if (pargs[2].as_int < 0 || pargs[2].as_int > 65535)
+		return returnValues2(error, runtime, rets, "ns", "Invalid port");
+
 	int   port = pargs[2].as_int;
 	const char *addr = pargs[3].defined ? pargs[3].as_string.data : NULL;
 
@@ -108,7 +111,7 @@ static int bin_recv(Runtime *runtime, Object **argv, unsigned int argc, Object *
 
 	size_t count;
 	if (pargs[2].defined) {
-		int n = pargs[2].as_int;
+		int64_t n = pargs[2].as_int;
 		if (n < 0)
 			return returnValues2(error, runtime, rets, "ns", "Invalid negative count");
 		count = MIN((size_t) n, dstlen);
@@ -138,7 +141,7 @@ static int bin_send(Runtime *runtime, Object **argv, unsigned int argc, Object *
 
 	size_t count;
 	if (pargs[2].defined) {
-		int n = pargs[2].as_int;
+		int64_t n = pargs[2].as_int;
 		if (n < 0)
 			return returnValues2(error, runtime, rets, "ns", "Invalid negative count");
 		count = MIN((size_t) n, srclen);
-- 
2.43.0


From 05744666aad980ec7be23032e02b186d92f85d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:20 +0000
Subject: [PATCH 57/61] fix: an interruption request stopped all later runs of
 the same runtime too

---
 src/lib/run.c     | 12 ++++++++++--
 src/lib/runtime.c |  5 +++++
 src/lib/runtime.h |  1 +
 3 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/lib/run.c b/src/lib/run.c
index 24511b0..2cf3142 100644
--- a/src/lib/run.c
+++ b/src/lib/run.c
@@ -1096,19 +1096,27 @@ static _Bool runInstruction(Runtime *runtime, Error *error)
 	return 1;
 }
 
+static void forceAbortion(Runtime *runtime, Error *error)
+{
+	// The request is satisfied by stopping this run. It mustn't
+	// stop the ones that come after it in the same runtime.
+	Runtime_ClearInterrupt(runtime);
+	Error_Report(error, ErrorType_RUNTIME, "Forced abortion");
+}
+
 static bool runInstructionsUntilSomethingHappens(Runtime *runtime, Error *error)
 {
 	Heap *heap = Runtime_GetHeap(runtime);
 	RuntimeCallback callback = Runtime_GetCallback(runtime);
 
 	if(Runtime_WasInterrupted(runtime) || (callback.func != NULL && !callback.func(runtime, callback.data)))
-		Error_Report(error, ErrorType_RUNTIME, "Forced abortion");
+		forceAbortion(runtime, error);
 	else
 		while(runInstruction(runtime, error))
 		{
 			if(Runtime_WasInterrupted(runtime) || (callback.func != NULL && !callback.func(runtime, callback.data)))
 			{
-				Error_Report(error, ErrorType_RUNTIME, "Forced abortion");
+				forceAbortion(runtime, error);
 				break;
 			}
 
diff --git a/src/lib/runtime.c b/src/lib/runtime.c
index 063650b..09f10e2 100644
--- a/src/lib/runtime.c
+++ b/src/lib/runtime.c
@@ -725,6 +725,11 @@ RuntimeCallback Runtime_GetCallback(Runtime *runtime)
 	return runtime->callback;
 }
 
+void Runtime_ClearInterrupt(Runtime *runtime)
+{
+	runtime->interrupt = false;
+}
+
 bool Runtime_WasInterrupted(Runtime *runtime)
 {
 	return runtime->interrupt;
diff --git a/src/lib/runtime.h b/src/lib/runtime.h
index bac78ba..fa71501 100644
--- a/src/lib/runtime.h
+++ b/src/lib/runtime.h
@@ -88,6 +88,7 @@ RuntimeCallback Runtime_GetCallback(Runtime *runtime);
 bool Runtime_CollectGarbage(Runtime *runtime, Error *error);
 void Runtime_PrintStackTrace(Runtime *runtime, FILE *stream);
 void         Runtime_Interrupt(Runtime *runtime);
+void         Runtime_ClearInterrupt(Runtime *runtime);
 Heap*		 Runtime_GetHeap(Runtime *runtime);
 int 		 Runtime_GetCurrentIndex(Runtime *runtime);
 Executable  *Runtime_GetCurrentExecutable(Runtime *runtime);
-- 
2.43.0


From e111336e61d2409304485e4a6a72605bd402bc65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:29 +0000
Subject: [PATCH 58/61] fix: heap sizes that don't fit in an int were taken
 modulo it

---
 src/cli/main.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cli/main.c b/src/cli/main.c
index 2c60fee..3af01b0 100644
--- a/src/cli/main.c
+++ b/src/cli/main.c
@@ -28,6 +28,7 @@
 ** +--------------------------------------------------------------------------+ 
 */
 #include <stdio.h>
+#include <limits.h>
 #include <assert.h>
 #include <string.h>
 #include <stdlib.h>
@@ -124,12 +125,13 @@ int main(int argc, char **argv)
 				usage(stderr, argv[0]);
 				return -1;
 			}
-			heap = atoi(argv[++i]);
-			if (heap == 0) {
+			long size = strtol(argv[++i], NULL, 10);
+			if (size <= 0 || size > INT_MAX) {
 				fprintf(stderr, "Invalid heap size\n");
 				usage(stderr, argv[0]);
 				return -1;
 			}
+			heap = size;
 			
 		} else {
 			input = argv[i];
-- 
2.43.0


From 5d79dbe669b7a36bf0c34fc227e64777edbe7723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:50:45 +0000
Subject: [PATCH 59/61] fix: keep the whole body of a source given as a string
 when it holds null bytes

---
 src/lib/utils/source.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/utils/source.c b/src/lib/utils/source.c
index 13eb78a..e3c3d95 100644
--- a/src/lib/utils/source.c
+++ b/src/lib/utils/source.c
@@ -213,7 +213,7 @@ Source *Source_FromString(const char *name, const char *body, int size, Error *e
 	else
 		s->name = NULL;
 	
-	strncpy(s->body, body, size);
+	memcpy(s->body, body, size);
 	s->body[size] = '\0';
 	return s;
 }
\ No newline at end of file
-- 
2.43.0


From e41dab2d3538d0e2dcc75178c2aecd23632a7b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:50:45 +0000
Subject: [PATCH 60/61] fix: compare whole strings when looking up members of
 the built-in maps

---
 src/lib/o_staticmap.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib/o_staticmap.c b/src/lib/o_staticmap.c
index 8f727f0..e535bd7 100644
--- a/src/lib/o_staticmap.c
+++ b/src/lib/o_staticmap.c
@@ -117,14 +117,15 @@ static Object *select_(Object *self, Object *key, Heap *heap, Error *error)
 	if(!Object_IsString(key))
 		return NULL;
 
-	const char *name = Object_GetString(key, NULL);
+	size_t name_len;
+	const char *name = Object_GetString(key, &name_len);
 	assert(name != NULL);
 
 	if(map->slots == NULL)
 		return NULL;
 
 	for(int i = 0; map->slots[i].name != NULL; i += 1)
-		if(!strcmp(name, map->slots[i].name))
+		if(strlen(map->slots[i].name) == name_len && !memcmp(name, map->slots[i].name, name_len))
 		{
 			StaticMapSlot slot = map->slots[i];
 			Object *obj = NULL;
-- 
2.43.0


From 75080bcc365fc3bf43101b16b0d654b008b32704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:50:45 +0000
Subject: [PATCH 61/61] fix: refuse string literals with null characters
 instead of cutting them

---
 src/lib/compiler/parse.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/lib/compiler/parse.c b/src/lib/compiler/parse.c
index bdc799d..f1f869b 100644
--- a/src/lib/compiler/parse.c
+++ b/src/lib/compiler/parse.c
@@ -824,6 +824,15 @@ static Node *parse_string_primary_expression(Context *ctx)
 	assert(src[i-1] == '"' || src[i-1] == '\'');
 	assert(src[len] == '"' || src[len] == '\'');
 
+	if(memchr(src + i, '\0', len - i) != NULL)
+	{
+		// The executable stores literals as zero-terminated
+		// strings.
+		*ctx->error_offset = ctx->token->offset;
+		Error_Report(ctx->error, ErrorType_SYNTAX, "String literals can't contain null characters");
+		return NULL;
+	}
+
 	char temp[4096];
 	int  temp_used = 0;
 
-- 
2.43.0

