From 6202fd3d16b090ec0beece0c8fe364020c005ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:54 +0000
Subject: [PATCH 01/69] fix: asm backend: look through type aliases when
 selecting operand sizes and casts

---
 src/compiler/codegen/asm/asm_codegen.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index dc999d6..5b340c6 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -1252,10 +1252,10 @@ static void asm_cmp_zero(ASMCodegenData_T* cg, ASTType_T* ty)
 
 static void asm_cast(ASMCodegenData_T* cg, ASTType_T* from, ASTType_T* to) 
 {
-    if(to->kind == TY_VOID)
+    if(unpack(to)->kind == TY_VOID)
         return;
     
-    if(to->kind == TY_BOOL)
+    if(unpack(to)->kind == TY_BOOL)
     {
         asm_cmp_zero(cg, from);
         asm_println(cg, "  setne %%al");
@@ -1802,7 +1802,7 @@ static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
 
         case ND_NEG:
             asm_gen_expr(cg, node->right);
-            switch(node->data_type->kind)
+            switch(unpack(node->data_type)->kind)
             {
                 case TY_F32:
                     asm_println(cg, "  mov $1, %%rax");
@@ -2193,7 +2193,7 @@ static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
             // It looks like the most significant 48 or 56 bits in RAX may
 		    // contain garbage if a function return type is short or bool/char,
 		    // respectively. We clear the upper bits here.
-            switch(node->data_type->kind)
+            switch(unpack(node->data_type)->kind)
             {
                 case TY_BOOL:
                     asm_println(cg, "  movzx %%al, %%eax");
@@ -2251,7 +2251,7 @@ static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
                 asm_popf(cg, 1);
             }
 
-            char* sz = node->left->data_type->kind == TY_F32 ? "ss" : "sd";
+            char* sz = unpack(node->left->data_type)->kind == TY_F32 ? "ss" : "sd";
 
             switch(node->kind)
             {
@@ -2373,7 +2373,8 @@ static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
 
     char* ax, * di, * dx;
 
-    if(node->left->data_type->kind == TY_I64 || node->left->data_type->kind == TY_U64 || node->left->data_type->base)
+    ASTType_T* left_type = unpack(node->left->data_type);
+    if(left_type->kind == TY_I64 || left_type->kind == TY_U64 || left_type->base)
     {
         ax = "%rax";
         di = "%rdi";
@@ -2406,7 +2407,7 @@ static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
             }
             else
             {
-                if(node->left->data_type->size == 8)
+                if(left_type->size == 8)
                     asm_println(cg, "  cqo");
                 else
                     asm_println(cg, "  cdq");
-- 
2.43.0


From 40f2730fcd2c017f71cf55e245651c06c26a498e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:18 +0000
Subject: [PATCH 02/69] fix: asm backend: zero-extend 8 and 16 bit operands of
 unsigned divisions and comparisons

---
 src/compiler/codegen/asm/asm_codegen.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index 5b340c6..9bf446c 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -1672,6 +1672,12 @@ static void asm_gen_struct_lit(ASMCodegenData_T* cg, ASTNode_T* node)
     }
 }
 
+static inline bool is_comparison(ASTNode_T* node)
+{
+    return node->kind == ND_EQ || node->kind == ND_NE || node->kind == ND_LT ||
+           node->kind == ND_LE || node->kind == ND_GT || node->kind == ND_GE;
+}
+
 static void asm_gen_inline_strlen(ASMCodegenData_T* cg)
 {
     asm_println(cg, "  mov %%rax, %%rdi");
@@ -2387,6 +2393,14 @@ static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
         dx = "%edx";
     }
 
+    // the result of a previous 8 or 16 bit operation can exceed the range of its type;
+    // unsigned divisions and comparisons look at the whole register
+    if(unsigned_type(left_type) && left_type->size < 4 && (node->kind == ND_DIV || node->kind == ND_MOD || is_comparison(node)))
+    {
+        asm_println(cg, left_type->size == 1 ? "  movzbl %%al, %%eax" : "  movzwl %%ax, %%eax");
+        asm_println(cg, left_type->size == 1 ? "  movzbl %%dil, %%edi" : "  movzwl %%di, %%edi");
+    }
+
     switch(node->kind)
     {
         case ND_ADD:
-- 
2.43.0


From 897e6a0006f9765c209d855874d4c313ead62883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:16 +0000
Subject: [PATCH 03/69] fix: asm backend: keep the stack balanced in `else`
 expressions

---
 src/compiler/codegen/asm/asm_codegen.c | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index 9bf446c..73bfa33 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -2164,14 +2164,8 @@ static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
             u64 pc = cg->cur_count;
             u64 c = cg->cur_count = cg->max_count++;
             asm_gen_expr(cg, node->left);
-            asm_push(cg);
-            asm_push(cg);
             asm_cmp_zero(cg, node->left->data_type);
-            asm_println(cg, "  je .L.else.%ld", c);
-            asm_pop(cg, "%rax");
-            asm_println(cg, "  jmp .L.end.%ld", c);
-            asm_println(cg, ".L.else.%ld:", c);
-            asm_pop(cg, "%rax");
+            asm_println(cg, "  jne .L.end.%ld", c);
             asm_gen_expr(cg, node->right);
             asm_println(cg, ".L.end.%ld:", c);
             cg->cur_count = pc;
-- 
2.43.0


From c21d110cb2fee44f013d973b9be79f610394b84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:11 +0000
Subject: [PATCH 04/69] fix: asm backend: comparisons for (in)equality with NaN
 operands

---
 src/compiler/codegen/asm/asm_codegen.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index 73bfa33..fbcc84c 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -2278,8 +2278,8 @@ static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
                 case ND_NE:
                     asm_println(cg, "  ucomi%s %%xmm0, %%xmm1", sz);
                     asm_println(cg, "  setne %%al");
-                    asm_println(cg, "  setnp %%dl");
-                    asm_println(cg, "  and %%dl, %%al");
+                    asm_println(cg, "  setp %%dl");
+                    asm_println(cg, "  or %%dl, %%al");
                     asm_println(cg, "  and $1, %%al");
                     asm_println(cg, "  movzb %%al, %%rax");
                     return;
@@ -2333,12 +2333,16 @@ static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
                     asm_println(cg, "  fcomip");
                     asm_println(cg, "  fstp %%st(0)");
                     asm_println(cg, "  sete %%al");
+                    asm_println(cg, "  setnp %%dl");
+                    asm_println(cg, "  and %%dl, %%al");
                     asm_println(cg, "  movzb %%al, %%rax");
                     return;
                 case ND_NE:
                     asm_println(cg, "  fcomip");
                     asm_println(cg, "  fstp %%st(0)");
                     asm_println(cg, "  setne %%al");
+                    asm_println(cg, "  setp %%dl");
+                    asm_println(cg, "  or %%dl, %%al");
                     asm_println(cg, "  movzb %%al, %%rax");
                     return;
                 case ND_LT:
-- 
2.43.0


From ec4a888b2e66c58f8fb9dde45045242178f732ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:23 +0000
Subject: [PATCH 05/69] fix: asm backend: conversions between u64 and floats,
 f80 to small integers

---
 src/compiler/codegen/asm/asm_codegen.c | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index fbcc84c..5196eeb 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -91,7 +91,10 @@ static const char i64f32[] = "cvtsi2ssq %rax, %xmm0";
 static const char i64f64[] = "cvtsi2sdq %rax, %xmm0";
 static const char i64f80[] = "movq %rax, -8(%rsp); fildll -8(%rsp)";
 
-static const char u64f32[] = "cvtsi2ssq %rax, %xmm0";
+static const char u64f32[] =
+  "test %rax,%rax; js 1f; pxor %xmm0,%xmm0; cvtsi2ssq %rax,%xmm0; jmp 2f; "
+  "1: mov %rax,%rdi; and $1,%eax; pxor %xmm0,%xmm0; shr %rdi; "
+  "or %rax,%rdi; cvtsi2ssq %rdi,%xmm0; addss %xmm0,%xmm0; 2:";
 static const char u64f64[] =
   "test %rax,%rax; js 1f; pxor %xmm0,%xmm0; cvtsi2sd %rax,%xmm0; jmp 2f; "
   "1: mov %rax,%rdi; and $1,%eax; pxor %xmm0,%xmm0; shr %rdi; "
@@ -107,7 +110,10 @@ static const char f32u16[] = "cvttss2sil %xmm0, %eax; movzwl %ax, %eax";
 static const char f32i32[] = "cvttss2sil %xmm0, %eax";
 static const char f32u32[] = "cvttss2siq %xmm0, %rax";
 static const char f32i64[] = "cvttss2siq %xmm0, %rax";
-static const char f32u64[] = "cvttss2siq %xmm0, %rax";
+static const char f32u64[] =
+  "cvttss2siq %xmm0, %rcx; mov %rcx, %rdx; mov $0x5f000000, %eax; "
+  "movd %eax, %xmm1; subss %xmm1, %xmm0; cvttss2siq %xmm0, %rax; "
+  "sar $63, %rdx; and %rdx, %rax; or %rcx, %rax";
 static const char f32f64[] = "cvtss2sd %xmm0, %xmm0";
 static const char f32f80[] = "movss %xmm0, -4(%rsp); flds -4(%rsp)";
 
@@ -118,7 +124,10 @@ static const char f64u16[] = "cvttsd2sil %xmm0, %eax; movzwl %ax, %eax";
 static const char f64i32[] = "cvttsd2sil %xmm0, %eax";
 static const char f64u32[] = "cvttsd2siq %xmm0, %rax";
 static const char f64i64[] = "cvttsd2siq %xmm0, %rax";
-static const char f64u64[] = "cvttsd2siq %xmm0, %rax";
+static const char f64u64[] =
+  "cvttsd2siq %xmm0, %rcx; mov %rcx, %rdx; mov $0x43e0000000000000, %rax; "
+  "movq %rax, %xmm1; subsd %xmm1, %xmm0; cvttsd2siq %xmm0, %rax; "
+  "sar $63, %rdx; and %rdx, %rax; or %rcx, %rax";
 static const char f64f32[] = "cvtsd2ss %xmm0, %xmm0";
 static const char f64f80[] = "movsd %xmm0, -8(%rsp); fldl -8(%rsp)";
 
@@ -130,12 +139,15 @@ static const char f64f80[] = "movsd %xmm0, -8(%rsp); fldl -8(%rsp)";
 
 static const char f80i8[]  = FROM_F80_1 "fistps" FROM_F80_2 "movsbl -24(%rsp), %eax";
 static const char f80u8[]  = FROM_F80_1 "fistps" FROM_F80_2 "movzbl -24(%rsp), %eax";
-static const char f80i16[] = FROM_F80_1 "fistps" FROM_F80_2 "movzbl -24(%rsp), %eax";
-static const char f80u16[] = FROM_F80_1 "fistpl" FROM_F80_2 "movswl -24(%rsp), %eax";
+static const char f80i16[] = FROM_F80_1 "fistps" FROM_F80_2 "movswl -24(%rsp), %eax";
+static const char f80u16[] = FROM_F80_1 "fistpl" FROM_F80_2 "movzwl -24(%rsp), %eax";
 static const char f80i32[] = FROM_F80_1 "fistpl" FROM_F80_2 "mov -24(%rsp), %eax";
-static const char f80u32[] = FROM_F80_1 "fistpl" FROM_F80_2 "mov -24(%rsp), %eax";
+static const char f80u32[] = FROM_F80_1 "fistpq" FROM_F80_2 "mov -24(%rsp), %eax";
 static const char f80i64[] = FROM_F80_1 "fistpq" FROM_F80_2 "mov -24(%rsp), %rax";
-static const char f80u64[] = FROM_F80_1 "fistpq" FROM_F80_2 "mov -24(%rsp), %rax";
+static const char f80u64[] =
+  "movl $0x5f000000, -4(%rsp); flds -4(%rsp); xor %ecx, %ecx; fucomi %st(1), %st; jbe 1f; "
+  "fstp %st(0); jmp 2f; 1: fsubrp; mov $1, %ecx; shl $63, %rcx; 2: "
+  FROM_F80_1 "fistpq" FROM_F80_2 "mov -24(%rsp), %rax; xor %rcx, %rax";
 static const char f80f32[] = "fstps -8(%rsp); movss -8(%rsp), %xmm0";
 static const char f80f64[] = "fstpl -8(%rsp); movsd -8(%rsp), %xmm0";
 
-- 
2.43.0


From 7495c0d9b856e56da5b7e1aa377ef59dddc53b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:21 +0000
Subject: [PATCH 06/69] fix: typechecker: convert mixed-size operands of
 comparisons, % and bitwise operators

---
 src/compiler/parser/typechecker.c | 40 ++++++++++++++++++++++++++++++-
 1 file changed, 39 insertions(+), 1 deletion(-)

diff --git a/src/compiler/parser/typechecker.c b/src/compiler/parser/typechecker.c
index 0f8efad..e6c0247 100644
--- a/src/compiler/parser/typechecker.c
+++ b/src/compiler/parser/typechecker.c
@@ -37,6 +37,7 @@ static void typecheck_lambda_entry(ASTNode_T* lambda, va_list args);
 static void typecheck_lambda_exit(ASTNode_T* lambda, va_list args);
 static void typecheck_return(ASTNode_T* ret, va_list args);
 static void typecheck_binop(ASTNode_T* op, va_list args);
+static void typecheck_mixed_operands(ASTNode_T* op, va_list args);
 
 static void typecheck_dyn_type(ASTType_T* dyn_type, va_list args);
 
@@ -66,7 +67,17 @@ static const ASTIteratorList_T iterator = {
         [ND_ADD] = typecheck_binop,
         [ND_SUB] = typecheck_binop,
         [ND_MUL] = typecheck_binop,
-        [ND_DIV] = typecheck_binop
+        [ND_DIV] = typecheck_binop,
+        [ND_MOD] = typecheck_mixed_operands,
+        [ND_BIT_AND] = typecheck_mixed_operands,
+        [ND_BIT_OR] = typecheck_mixed_operands,
+        [ND_XOR] = typecheck_mixed_operands,
+        [ND_EQ] = typecheck_mixed_operands,
+        [ND_NE] = typecheck_mixed_operands,
+        [ND_LT] = typecheck_mixed_operands,
+        [ND_LE] = typecheck_mixed_operands,
+        [ND_GT] = typecheck_mixed_operands,
+        [ND_GE] = typecheck_mixed_operands
     },
     .type_fns = {
         [TY_DYN] = typecheck_dyn_type
@@ -467,6 +478,33 @@ patch_anon_struct:
         unpack_closure_and_casts(ret->return_val)->data_type = expected;
 }
 
+// comparisons, `%` and bitwise operators work on operands of one size: convert the narrower one
+static void typecheck_mixed_operands(ASTNode_T* op, va_list args)
+{
+    GET_TYPECHECKER(args);
+
+    ASTType_T* left = unpack(op->left->data_type);
+    ASTType_T* right = unpack(op->right->data_type);
+    if(!left || !right || !is_numeric(left) || !is_numeric(right))
+        return;
+
+    bool to_right;
+    if(is_flonum(left) != is_flonum(right))
+        to_right = is_flonum(right);
+    else if(left->size != right->size)
+        to_right = right->size > left->size;
+    else
+        return;
+
+    if(to_right)
+        op->left = implicit_cast(t, op->tok, op->left, op->right->data_type, CAST_OK);
+    else
+        op->right = implicit_cast(t, op->tok, op->right, op->left->data_type, CAST_OK);
+
+    if(op->kind == ND_MOD)
+        op->data_type = to_right ? op->right->data_type : op->left->data_type;
+}
+
 static void typecheck_binop(ASTNode_T* op, va_list args)
 {
     GET_TYPECHECKER(args);
-- 
2.43.0


From 1d7cd8aa5561b9106e1377e1345633fc785fa2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:21 +0000
Subject: [PATCH 07/69] fix: asm backend: keep the stack balanced on continue
 and break in range-based for loops

---
 src/compiler/codegen/asm/asm_codegen.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index 5196eeb..31318e4 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -2642,18 +2642,20 @@ static void asm_gen_stmt(ASMCodegenData_T* cg, ASTNode_T* node)
             
             asm_println(cg, ".L.begin.%lu:", c);
             asm_println(cg, "  cmp %%rdx, %%rdi");
-            asm_println(cg, "  jge .L.break.%lu", c);
+            asm_println(cg, "  jge .L.end.%lu", c);
 
             asm_println(cg, "  push %%rdi");
             asm_println(cg, "  push %%rdx");
             asm_gen_stmt(cg, node->body);
+
+            asm_println(cg, ".L.continue.%lu:", c);
             asm_println(cg, "  pop %%rdx");
             asm_println(cg, "  pop %%rdi");
-            
-            asm_println(cg, ".L.continue.%lu:", c);
             asm_println(cg, "  inc %%rdi");
             asm_println(cg, "  jmp .L.begin.%lu", c);
-            asm_println(cg, ".L.break.%lu:", c);
+            asm_println(cg, ".L.break.%lu:", c); // `break` leaves the counter and the limit on the stack
+            asm_println(cg, "  add $16, %%rsp");
+            asm_println(cg, ".L.end.%lu:", c);
 
             cg->cur_count = pc;
             cg->cur_brk_id = pbrk;
-- 
2.43.0


From a3714d0906c110824dcad7f0f6e1f9c02fccd4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:54 +0000
Subject: [PATCH 08/69] fix: asm backend: match without a matching case runs no
 case; unsigned matches compare unsigned

---
 src/compiler/codegen/asm/asm_codegen.c | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index 31318e4..44e7aae 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -65,6 +65,15 @@ static const char* jmp_mode[TOKEN_EOF] = {
     [ND_GE] = "jge",
 };
 
+static const char* unsigned_jmp_mode[TOKEN_EOF] = {
+    [ND_EQ] = "je",
+    [ND_NE] = "jne",
+    [ND_LT] = "jb",
+    [ND_LE] = "jbe",
+    [ND_GT] = "ja",
+    [ND_GE] = "jae",
+};
+
 static const char* argreg8[]  = {"%dil", "%sil", "%dl", "%cl", "%r8b", "%r9b"};
 static const char* argreg16[] = {"%di", "%si", "%dx", "%cx", "%r8w", "%r9w"};
 static const char* argreg32[] = {"%edi", "%esi", "%edx", "%ecx", "%r8d", "%r9d"};
@@ -2750,8 +2759,9 @@ static void asm_gen_stmt(ASMCodegenData_T* cg, ASTNode_T* node)
             u64 pc = cg->cur_count;
             u64 pbrk = cg->cur_brk_id;
             u64 c = cg->cur_count = cg->cur_brk_id = cg->max_count++;
-            char* ax = (node->condition->data_type->size == 8) ? "%rax" : "%eax";
-            char* di = (node->condition->data_type->size == 8) ? "%rdi" : "%edi";
+            ASTType_T* ty = unpack(node->condition->data_type);
+            char* ax = (ty->size == 8) ? "%rax" : "%eax";
+            char* di = (ty->size == 8) ? "%rdi" : "%edi";
             
             for(size_t i = 0; i < node->cases->size; i++)
             {
@@ -2761,10 +2771,15 @@ static void asm_gen_stmt(ASMCodegenData_T* cg, ASTNode_T* node)
                 asm_push(cg);
                 asm_gen_expr(cg, _case->condition);
                 asm_pop(cg, "%rdi");
+                if(unsigned_type(ty) && ty->size < 4)
+                {
+                    asm_println(cg, ty->size == 1 ? "  movzbl %%al, %%eax" : "  movzwl %%ax, %%eax");
+                    asm_println(cg, ty->size == 1 ? "  movzbl %%dil, %%edi" : "  movzwl %%di, %%edi");
+                }
                 asm_println(cg, "  cmp %s, %s", ax, di);
                 asm_pop(cg, "%rax");
 
-                asm_println(cg, "  %s .L.case.%ld.%lu", jmp_mode[_case->mode], i, c);
+                asm_println(cg, "  %s .L.case.%ld.%lu", (unsigned_type(ty) ? unsigned_jmp_mode : jmp_mode)[_case->mode], i, c);
             }
             
             if(node->default_case) 
@@ -2772,6 +2787,8 @@ static void asm_gen_stmt(ASMCodegenData_T* cg, ASTNode_T* node)
                 node->default_case->long_val = node->cases->size;
                 asm_println(cg, "  jmp .L.case.%lu.%lu", node->cases->size, c);
             }
+            else
+                asm_println(cg, "  jmp .L.break.%lu", c);
             
             for(size_t i = 0; i < node->cases->size; i++)
                 asm_gen_stmt(cg, node->cases->items[i]);
-- 
2.43.0


From da5371f6265e8b1c3f839bb301c04443eb6a7686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:19 +0000
Subject: [PATCH 09/69] fix: typechecker: convert match cases to the size of
 the matched value

---
 src/compiler/parser/typechecker.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/compiler/parser/typechecker.c b/src/compiler/parser/typechecker.c
index e6c0247..e5002ff 100644
--- a/src/compiler/parser/typechecker.c
+++ b/src/compiler/parser/typechecker.c
@@ -33,6 +33,7 @@ static void typecheck_struct_lit(ASTNode_T* a_lit, va_list args);
 static void typecheck_inc(ASTNode_T* inc, va_list args);
 static void typecheck_dec(ASTNode_T* dec, va_list args);
 static void typecheck_for_range(ASTNode_T* loop, va_list args);
+static void typecheck_match(ASTNode_T* match, va_list args);
 static void typecheck_lambda_entry(ASTNode_T* lambda, va_list args);
 static void typecheck_lambda_exit(ASTNode_T* lambda, va_list args);
 static void typecheck_return(ASTNode_T* ret, va_list args);
@@ -62,6 +63,7 @@ static const ASTIteratorList_T iterator = {
         [ND_INC] = typecheck_inc,
         [ND_DEC] = typecheck_dec,
         [ND_FOR_RANGE] = typecheck_for_range,
+        [ND_MATCH] = typecheck_match,
         [ND_RETURN] = typecheck_return,
         [ND_LAMBDA] = typecheck_lambda_exit,
         [ND_ADD] = typecheck_binop,
@@ -177,6 +179,24 @@ static void typecheck_for_range(ASTNode_T* loop, va_list args)
     loop->right = implicit_cast(t, loop->right->tok, loop->right, (ASTType_T*) primitives[TY_I64], CAST_OK);
 }
 
+// the cases of a match are compared with its condition: bring them to the size of its type
+static void typecheck_match(ASTNode_T* match, va_list args)
+{
+    GET_TYPECHECKER(args);
+
+    ASTType_T* expected = unpack(match->condition->data_type);
+    if(!expected || !is_integer(expected))
+        return;
+
+    for(size_t i = 0; i < match->cases->size; i++)
+    {
+        ASTNode_T* case_stmt = match->cases->items[i];
+        ASTType_T* received = unpack(case_stmt->condition->data_type);
+        if(received && is_integer(received) && received->size != expected->size)
+            case_stmt->condition = implicit_cast(t, case_stmt->tok, case_stmt->condition, match->condition->data_type, CAST_OK);
+    }
+}
+
 static void typecheck_assignment(ASTNode_T* assignment, va_list args)
 {
     GET_TYPECHECKER(args);
-- 
2.43.0


From b16274ca974415e67b00fe4227e7f139f7c470bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:04 +0000
Subject: [PATCH 10/69] fix: asm backend: caller and callee agree on where
 arguments and returned structs are passed

---
 src/compiler/codegen/asm/asm_codegen.c | 172 ++++++++++---------------
 1 file changed, 70 insertions(+), 102 deletions(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index 44e7aae..e63a44e 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -187,6 +187,7 @@ static void asm_assign_lvar_offsets(ASMCodegenData_T* cg, List_T* objs);
 static bool asm_has_flonum(ASTType_T* ty, i32 lo, i32 hi, i32 offset);
 static bool asm_has_flonum_1(ASTType_T* ty);
 static bool asm_has_flonum_2(ASTType_T* ty);
+static bool asm_pass_by_reg(ASTType_T* ty, i32* gp, i32* fp);
 static void asm_store_fp(ASMCodegenData_T* cg, i32 r, i32 offset, i32 sz);
 static void asm_store_gp(ASMCodegenData_T* cg, i32 r, i32 offset, i32 sz);
 static void asm_gen_stmt(ASMCodegenData_T* cg, ASTNode_T* node);
@@ -445,40 +446,14 @@ static void asm_assign_lvar_offsets(ASMCodegenData_T* cg, List_T* objs)
                 continue;
 
             i32 top = 16, bottom = 0;
-            i32 gp = 0, fp = 0;
+            i32 gp = obj->return_ptr ? 1 : 0, fp = 0; // the address of the return buffer takes a register
 
             // Assign offsets to pass-by-stack parameters
             for(size_t j = 0; j < obj->args->size; j++)
             {
                 ASTObj_T* var = obj->args->items[j];
-                ASTType_T* ty = unpack(var->data_type);
-                switch(ty->kind)
-                {
-                case TY_DYN:
-                case TY_STRUCT:
-                    if(ty->size <= 16)
-                    {
-                        bool fp1 = asm_has_flonum(ty, 0, 8, 0);
-                        bool fp2 = asm_has_flonum(ty, 8, 16, 8);
-                        if(fp + fp1 + fp2 < ASM_FP_MAX && gp + !fp1 + !fp2 < ASM_GP_MAX)
-                        {
-                            fp = fp + fp1 + fp2;
-                            gp = gp + !fp1 + fp2;
-                            continue;
-                        }
-                    } break;
-                
-                case TY_F32:
-                case TY_F64:
-                    if(fp++ < ASM_FP_MAX)
-                        continue;
-                    break;
-                case TY_F80:
-                    break;
-                default:
-                    if(gp++ < ASM_GP_MAX)
-                        continue;
-                }
+                if(asm_pass_by_reg(var->data_type, &gp, &fp))
+                    continue;
 
                 top = align_to(top, 8);
                 var->offset = top;
@@ -719,10 +694,7 @@ static void asm_gen_function(ASMCodegenData_T* cg, ASTObj_T* obj)
         for(size_t j = 0; j < obj->args->size; j++)
         {
             ASTObj_T* arg = obj->args->items[j];
-            if(is_flonum(unpack(arg->data_type)))
-                fp++;
-            else
-                gp++;
+            asm_pass_by_reg(arg->data_type, &gp, &fp);
         }
 
         i32 off = obj->va_area->offset;
@@ -1115,7 +1087,49 @@ static bool asm_has_flonum_1(ASTType_T* ty)
 
 static bool asm_has_flonum_2(ASTType_T* ty)
 {
-    return asm_has_flonum(ty, 0, 16, 0);
+    return asm_has_flonum(ty, 8, 16, 0);
+}
+
+// Decides if an argument is passed in registers, depending on the ones already used by the preceding arguments.
+static bool asm_pass_by_reg(ASTType_T* ty, i32* gp, i32* fp)
+{
+    i32 need_gp = 0, need_fp = 0;
+
+    ty = unpack(ty);
+    switch(ty->kind)
+    {
+        case TY_DYN:
+        case TY_STRUCT:
+            if(ty->size > 16)
+                return false;
+            if(asm_has_flonum_1(ty))
+                need_fp++;
+            else
+                need_gp++;
+            if(ty->size > 8)
+            {
+                if(asm_has_flonum_2(ty))
+                    need_fp++;
+                else
+                    need_gp++;
+            }
+            break;
+        case TY_F32:
+        case TY_F64:
+            need_fp++;
+            break;
+        case TY_F80:
+            return false;
+        default:
+            need_gp++;
+    }
+
+    if(*gp + need_gp > ASM_GP_MAX || *fp + need_fp > ASM_FP_MAX)
+        return false;
+
+    *gp += need_gp;
+    *fp += need_fp;
+    return true;
 }
 
 static void asm_push_struct(ASMCodegenData_T* cg, ASTType_T* ty)
@@ -1160,10 +1174,10 @@ static void asm_copy_struct_reg(ASMCodegenData_T* cg)
 
     if(ty->size > 8)
     {
-        if(asm_has_flonum(ty, 8, 16, 0) && ty->kind != TY_STRUCT)
+        if(asm_has_flonum_2(ty))
         {
             assert(ty->size == 12 || ty->size == 16);
-            if(ty->size == 4)
+            if(ty->size == 12)
                 asm_println(cg, "  movss 8(%%rdi), %%xmm%d", fp);
             else
                 asm_println(cg, "  movsd 8(%%rdi), %%xmm%d", fp);
@@ -1184,7 +1198,7 @@ static void asm_copy_struct_reg(ASMCodegenData_T* cg)
 
 static void asm_copy_struct_mem(ASMCodegenData_T* cg, ASTNode_T* val)
 {
-    ASTType_T* ty = cg->current_fn->return_type;
+    ASTType_T* ty = unpack(cg->current_fn->return_type);
     assert(ty != NULL);
     assert(cg->current_fn->return_ptr != NULL);
     asm_println(cg, "  mov %d(%%rbp), %%rdi", cg->current_fn->return_ptr->offset);
@@ -1496,53 +1510,16 @@ static i32 asm_push_args(ASMCodegenData_T* cg, ASTNode_T* node)
 
     // If the return type is a large struct/union, the caller passes
 	// a pointer to a buffer as if it were the first argument.
-	if (node->return_buffer && node->data_type->size > 16)
+	if (node->return_buffer && unpack(node->data_type)->size > 16)
 		gp++;
 
     for(size_t i = 0; i < node->args->size; i++)
     {
         ASTNode_T* arg = node->args->items[i];
-        ASTType_T* ty = unpack(arg->data_type);
-        switch(ty->kind)
+        if(!asm_pass_by_reg(arg->data_type, &gp, &fp))
         {
-            case TY_STRUCT:
-                if(ty->size > 16)
-                {
-                    arg->pass_by_stack = true;
-                    stack += align_to(ty->size, 8) / 8;
-                }
-                else
-                {
-                    bool fp1 = asm_has_flonum_1(ty);
-                    bool fp2 = asm_has_flonum_2(ty);
-
-                    if(fp + fp1 + fp2 < ASM_FP_MAX && gp + !fp1 + !fp2 < ASM_GP_MAX)
-                    {
-                        fp += fp1 + fp2;
-                        gp += !fp1 + !fp2;
-                    }
-                    else
-                    {
-                        arg->pass_by_stack = true;
-                        stack += align_to(ty->size, 8) / 8;
-                    }
-                } break;
-            case TY_F32:
-            case TY_F64:
-                if(fp++ >= ASM_FP_MAX)
-                {
-                    arg->pass_by_stack = true;
-                    stack++;
-                } break;
-            case TY_F80:
-                arg->pass_by_stack = true;
-                stack += 2;
-                break;
-            default:
-                if(gp++ >= ASM_GP_MAX) {
-                    arg->pass_by_stack = true;
-                    stack++;
-                }
+            arg->pass_by_stack = true;
+            stack += align_to(unpack(arg->data_type)->size, 8) / 8;
         }
     }
 
@@ -1558,7 +1535,7 @@ static i32 asm_push_args(ASMCodegenData_T* cg, ASTNode_T* node)
 
 	// If the return type is a large struct/union, the caller passes
 	// a pointer to a buffer as if it were the first argument.
-    if(node->return_buffer && node->data_type->size > 16)
+    if(node->return_buffer && unpack(node->data_type)->size > 16)
     {
         asm_println(cg, "  lea %d(%%rbp), %%rax", node->return_buffer->offset);
         asm_push(cg);
@@ -1570,47 +1547,38 @@ static i32 asm_pop_args(ASMCodegenData_T* cg, ASTNode_T* node)
 {
     i32 gp = 0, fp = 0;
 
-    if(node->data_type->kind != TY_VOID && node->data_type->size > 16)
+    if(node->return_buffer && unpack(node->data_type)->size > 16)
         asm_pop(cg, argreg64[gp++]);
     for(u64 i = 0; i < node->args->size; i++)
     {
         ASTNode_T* arg = node->args->items[i];
+        if(arg->pass_by_stack)
+            continue;
+
         ASTType_T* ty = unpack(arg->data_type);
         switch(ty->kind)
         {
             case TY_STRUCT:
             case TY_DYN:
-                if(ty->size > 16)
-                    continue;
-                
-                bool fp1 = asm_has_flonum_1(ty);
-                bool fp2 = asm_has_flonum_2(ty);
-                if(fp + fp1 + fp2 < ASM_FP_MAX && gp + !fp1 + !fp2 < ASM_GP_MAX)
+                if(asm_has_flonum_1(ty))
+                    asm_popf(cg, fp++);
+                else
+                    asm_pop(cg, argreg64[gp++]);
+
+                if(ty->size > 8)
                 {
-                    if(fp1)
+                    if(asm_has_flonum_2(ty))
                         asm_popf(cg, fp++);
                     else
                         asm_pop(cg, argreg64[gp++]);
-                    
-                    if(ty->size > 8) 
-                    {
-                        if(fp2)
-                            asm_popf(cg, fp++);
-                        else
-                            asm_pop(cg, argreg64[gp++]);    
-                    }
                 }
                 break;
             case TY_F32:
             case TY_F64:
-                if(fp < ASM_FP_MAX)
-                    asm_popf(cg, fp++);
-                break;
-            case TY_F80:
+                asm_popf(cg, fp++);
                 break;
             default:
-                if(gp < ASM_GP_MAX)
-                    asm_pop(cg, argreg64[gp++]);
+                asm_pop(cg, argreg64[gp++]);
         }
     }
 
@@ -2238,7 +2206,7 @@ static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
 
             // If the return type is a small struct, a value is returned
 		    // using up to two registers.
-            if(node->return_buffer && node->data_type->size <= 16) {
+            if(node->return_buffer && unpack(node->data_type)->size <= 16) {
                 asm_copy_ret_buffer(cg, node->return_buffer);
                 asm_println(cg, "  lea %d(%%rbp), %%rax", node->return_buffer->offset);
             }
-- 
2.43.0


From 7c88379a89335c3e0c38746d77cdfe511d3ecc0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:03 +0000
Subject: [PATCH 11/69] fix: layout: alignment of types does not depend on the
 order in which sizes are computed

---
 src/compiler/codegen/asm/asm_codegen.c |  2 +-
 src/compiler/parser/validator.c        | 40 ++++++++++++++------------
 2 files changed, 22 insertions(+), 20 deletions(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index e63a44e..44f523a 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -457,7 +457,7 @@ static void asm_assign_lvar_offsets(ASMCodegenData_T* cg, List_T* objs)
 
                 top = align_to(top, 8);
                 var->offset = top;
-                top += var->data_type->size;
+                top += unpack(var->data_type)->size;
             }
 
             // va_area
diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index 719fa7f..62b5d9e 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -2309,18 +2309,6 @@ static void iter_validate_dyn_type(ASTType_T* dyn_type, va_list args)
 //    GET_VALIDATOR(args);
 }
 
-static i32 align_type(ASTType_T* ty)
-{
-    switch(ty->kind)
-    {
-        case TY_C_ARRAY:
-        case TY_PTR:
-            return MAX(pow(2, floor(log(ty->base->size)/log(2))), 8);
-        default:
-            return MAX(pow(2, floor(log(ty->size)/log(2))), 1);
-    }
-}
-
 static void iter_validate_type(ASTType_T* type, va_list args)
 {
     GET_VALIDATOR(args);
@@ -2328,23 +2316,24 @@ static void iter_validate_type(ASTType_T* type, va_list args)
 
     if(exp->kind != TY_INTERFACE) {
         type->size = get_type_size(v, exp);
-        type->align = align_type(exp);
+        type->align = get_type_align(v, exp);
     }
     exp->align = type->align;
 }
 
 static i32 get_type_size_impl(Validator_T* v, ASTType_T* type, List_T** struct_types);
 
-static i32 get_union_size(ASTType_T* u_type)
+static i32 get_union_size(Validator_T* v, ASTType_T* u_type, List_T** struct_types)
 {
     i32 biggest = 0;
     for(size_t i = 0; i < u_type->members->size; i++)
     {
         ASTNode_T* member = u_type->members->items[i];
+        member->data_type->size = get_type_size_impl(v, member->data_type, struct_types);
         if(member->data_type->size > biggest)
             biggest = member->data_type->size;
     }
-    return biggest;
+    return align_to(biggest, get_type_align(v, u_type));
 }
 
 static i32 get_struct_size(Validator_T* v, ASTType_T* struct_type, List_T** struct_types)
@@ -2426,7 +2415,7 @@ static i32 get_type_size_impl(Validator_T* v, ASTType_T* type, List_T** struct_t
                 return get_type_size_impl(v, type->base, struct_types) * calculate_array_size(v, type) + PTR_S;
         case TY_STRUCT:
             if(type->is_union)
-                return get_union_size(type);
+                return get_union_size(v, type, struct_types);
             else
                 return get_struct_size(v, type, struct_types);
         case TY_INTERFACE:
@@ -2453,15 +2442,28 @@ static i32 get_type_size(Validator_T* v, ASTType_T* type)
 
 static i32 get_type_align(Validator_T* v, ASTType_T* type)
 {
+    type = unpack(type);
+
     switch(type->kind)
     {
         case TY_C_ARRAY:
-        case TY_PTR:
-            return MAX(pow(2, floor(log(type->base->size)/log(2))), 8);
+            return get_type_align(v, type->base);
         case TY_ARRAY:
+        case TY_PTR:
             return PTR_S;
+        case TY_STRUCT: {
+            i32 align = 1;
+            for(size_t i = 0; i < type->members->size; i++)
+            {
+                ASTNode_T* member = type->members->items[i];
+                align = MAX(align, get_type_align(v, member->data_type));
+            }
+            return align;
+        }
+        case TY_INTERFACE:
+            return 1;
         default:
-            return MAX(pow(2, floor(log(type->size)/log(2))), 1);
+            return MAX(pow(2, floor(log(get_type_size(v, type))/log(2))), 1);
     }
 }
 
-- 
2.43.0


From 769e2680e33e778a9413c41b48f7faf4b081e0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:37 +0000
Subject: [PATCH 12/69] fix: embedded structs: unnamed members are not
 registered, members get their own offsets

---
 src/compiler/parser/validator.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index 62b5d9e..e7e2c9e 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -423,7 +423,11 @@ static void enter_type_scope(ASTType_T* type, va_list args)
     case TY_STRUCT:
         begin_scope(v, NULL);
         for(size_t i = 0; i < type->members->size; i++)
-            scope_register_node(v, type->members->items[i]);
+        {
+            ASTNode_T* member = type->members->items[i];
+            if(member->kind == ND_STRUCT_MEMBER) // embedded structs don't have a name
+                scope_register_node(v, member);
+        }
         break;
     default:
         break;
@@ -2223,7 +2227,12 @@ static void resolve_struct_embeds(Validator_T* v, ASTType_T* struct_type)
 
                 resolve_struct_embeds(v, embedded_type);
                 for(size_t i = 0; i < embedded_type->members->size; i++)
-                    list_push(resolved_fields, embedded_type->members->items[i]);
+                {
+                    // the member gets a different offset in this struct
+                    ASTNode_T* copy = init_ast_node(&v->context->raw_allocator, ND_STRUCT_MEMBER, member->tok);
+                    *copy = *(ASTNode_T*) embedded_type->members->items[i];
+                    list_push(resolved_fields, copy);
+                }
             } break;
             default:
                 unreachable();
-- 
2.43.0


From 86ab1244cec4912ebe737aec55ec839c70d75cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:21 +0000
Subject: [PATCH 13/69] fix: list_insert: shift the elements behind the
 insertion point

---
 src/compiler/list.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/list.c b/src/compiler/list.c
index 114c9c5..ed177dd 100755
--- a/src/compiler/list.c
+++ b/src/compiler/list.c
@@ -74,7 +74,7 @@ void list_insert(List_T* list, void* item, size_t index)
 
     list_push(list, NULL);
 
-    for(size_t i = list->size - 1; i > index; i++)
+    for(size_t i = list->size - 1; i > index; i--)
         list->items[i] = list->items[i - 1];
     
     list->items[index] = item;
-- 
2.43.0


From b559b82c769420fd318f66805364db21a07bcbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:21 +0000
Subject: [PATCH 14/69] fix: asm backend: function pointers in structs and
 arrays can be assigned and copied

---
 src/compiler/codegen/asm/asm_codegen.c | 29 +++++++++-----------------
 1 file changed, 10 insertions(+), 19 deletions(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index 44f523a..7096b86 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -973,7 +973,7 @@ static void asm_gen_addr(ASMCodegenData_T* cg, ASTNode_T* node)
 
                 case OBJ_GLOBAL:
                 case OBJ_ENUM_MEMBER:
-                    asm_println(cg, "  %s %s(%%rip), %%rax", node->call ? "movq" : "lea", node->referenced_obj->is_extern_c ? node->id->callee : asm_gen_identifier(cg->context, node->id));
+                    asm_println(cg, "  lea %s(%%rip), %%rax", node->referenced_obj->is_extern_c ? node->id->callee : asm_gen_identifier(cg->context, node->id));
                     return;
                 
                 case OBJ_FUNCTION:
@@ -1023,8 +1023,6 @@ static void asm_gen_addr(ASMCodegenData_T* cg, ASTNode_T* node)
 
             asm_gen_addr(cg, node->left);
             asm_println(cg, "  add $%ld, %%rax", node->body->offset);
-            if(unpack(node->data_type)->kind == TY_FN)
-                asm_println(cg, "  mov (%%rax), %%rax");
         } return;
         case ND_INDEX:
             asm_gen_index(cg, node, true);
@@ -1351,7 +1349,9 @@ static void asm_load(ASMCodegenData_T* cg, ASTType_T *ty) {
         case TY_DYN:
         case TY_ARRAY:
         case TY_VLA:
+            return;
         case TY_FN:
+            asm_println(cg, "  mov (%%rax), %%rax");
             return;
         case TY_F32:
             asm_println(cg, "  movss (%%rax), %%xmm0");
@@ -1897,13 +1897,9 @@ static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
         
         case ND_ID:
             asm_gen_addr(cg, node);
-            asm_load(cg, node->data_type);
-
-            if(unpack(node->data_type)->kind == TY_FN && 
-                node->referenced_obj && 
-                (node->referenced_obj->kind == OBJ_LOCAL || node->referenced_obj->kind == OBJ_FN_ARG)
-            )
-                    asm_println(cg, "  mov (%%rax), %%rax");
+            // the value of a function is its address
+            if(node->referenced_obj->kind != OBJ_FUNCTION)
+                asm_load(cg, node->data_type);
             return;
 
         case ND_MEMBER: {
@@ -1916,10 +1912,6 @@ static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
 
             asm_gen_addr(cg, node);
             asm_load(cg, node->data_type);
-
-            if(unpack(node->data_type)->kind == TY_FN)
-                asm_println(cg, "  mov (%%rax), %%rax");
-
         } return;
         
         case ND_ARRAY:
@@ -1977,7 +1969,9 @@ static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
         
         case ND_DEREF:
             asm_gen_expr(cg, node->right);
-            asm_load(cg, node->data_type);
+            // like taking the address of a function, dereferencing it has no effect
+            if(unpack(node->data_type)->kind != TY_FN)
+                asm_load(cg, node->data_type);
             return;
         
         case ND_ASSIGN:
@@ -2165,10 +2159,7 @@ static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
             List_T* packed_args = node->args;
             node->args = unpack_call_args(cg, node);
             i32 stack_args = asm_push_args(cg, node);
-            asm_gen_addr(cg, node->expr);
-
-            if(!node->called_obj || node->called_obj->kind == OBJ_LOCAL || node->called_obj->kind == OBJ_FN_ARG)
-                asm_println(cg, "  mov (%%rax), %%rax");
+            asm_gen_expr(cg, node->expr);
 
             i32 fp = asm_pop_args(cg, node);
 
-- 
2.43.0


From c68df1b5f67afc2067772ead61f53166476e6385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:11 +0000
Subject: [PATCH 15/69] fix: pipes: keep the piped value across nested pipes
 and calls, support floats

---
 src/compiler/codegen/asm/asm_codegen.c | 24 ++++++++++++++++++++++--
 src/compiler/parser/parser.c           |  4 +++-
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index 7096b86..33e9e58 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -1787,12 +1787,32 @@ static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
         
         case ND_PIPE:
             asm_gen_expr(cg, node->left);
-            asm_println(cg, "  mov %%rax, %s", pipe_reg);
+            // nested pipes and the callers of this function need the previous value
+            asm_println(cg, "  push %s", pipe_reg);
+            cg->depth++;
+            switch(unpack(node->left->data_type)->kind)
+            {
+                case TY_F32:
+                case TY_F64:
+                    asm_println(cg, "  movq %%xmm0, %s", pipe_reg);
+                    break;
+                default:
+                    asm_println(cg, "  mov %%rax, %s", pipe_reg);
+            }
             asm_gen_expr(cg, node->right);
+            asm_pop(cg, pipe_reg);
             return;
         
         case ND_HOLE:
-            asm_println(cg, "  mov %s, %%rax", pipe_reg);
+            switch(unpack(node->data_type)->kind)
+            {
+                case TY_F32:
+                case TY_F64:
+                    asm_println(cg, "  movq %s, %%xmm0", pipe_reg);
+                    break;
+                default:
+                    asm_println(cg, "  mov %s, %%rax", pipe_reg);
+            }
             return;
 
         case ND_NEG:
diff --git a/src/compiler/parser/parser.c b/src/compiler/parser/parser.c
index c6178de..b77acf9 100644
--- a/src/compiler/parser/parser.c
+++ b/src/compiler/parser/parser.c
@@ -2392,11 +2392,13 @@ static ASTNode_T* parse_pipe(Parser_T* p, ASTNode_T* left)
     parser_consume_operator(p, "|>", "expect `|>` for pipe expression");
 
     bool outer_holes_used = p->holes_used;
+    bool outer_holes_enabled = parser_holes_enabled(p);
     p->holes_used = false;
 
     parser_enable_holes(p);
     pipe->right = parse_expr(p, PREC_PIPE, TOKEN_SEMICOLON);
-    parser_disable_holes(p);
+    if(!outer_holes_enabled)
+        parser_disable_holes(p);
 
     if(!p->holes_used && pipe->right->kind == ND_CALL)
         list_insert(pipe->right->args, init_ast_node(&p->context->raw_allocator, ND_HOLE, pipe->tok), 0);
-- 
2.43.0


From 77ed803ee9869ca3b68384de91dca8bb1f3b035d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:44 +0000
Subject: [PATCH 16/69] fix: lambdas can return values and structs; functions
 return the address of the result buffer

---
 src/compiler/codegen/asm/asm_codegen.c | 3 +++
 src/compiler/parser/parser.c           | 8 +++++++-
 src/compiler/parser/validator.c        | 5 +++++
 3 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index 33e9e58..fd21bad 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -1206,6 +1206,7 @@ static void asm_copy_struct_mem(ASMCodegenData_T* cg, ASTNode_T* val)
         asm_println(cg, "  mov %d(%%rax), %%dl", i);
         asm_println(cg, "  mov %%dl, %d(%%rdi)", i);
     }
+    asm_println(cg, "  mov %%rdi, %%rax");
 }
 
 static void asm_copy_ret_buffer(ASMCodegenData_T* cg, ASTObj_T* var)
@@ -2059,6 +2060,8 @@ static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
 
                 ASTObj_T* impl = init_ast_obj(&cg->context->raw_allocator, OBJ_LAMBDA, node->tok);
                 impl->body = node;
+                impl->return_type = node->data_type->base;
+                impl->return_ptr = node->return_ptr;
                 list_push(cg->ast->objs, impl);
             } return;
 
diff --git a/src/compiler/parser/parser.c b/src/compiler/parser/parser.c
index b77acf9..f30d2eb 100644
--- a/src/compiler/parser/parser.c
+++ b/src/compiler/parser/parser.c
@@ -33,6 +33,7 @@ typedef struct PARSER_STRUCT
     Token_T* tok;
     ASTNode_T* cur_block;
     ASTObj_T* cur_obj;
+    u64 lambda_depth;
 
     size_t cur_lambda_id;
     size_t cur_tuple_id;
@@ -1287,7 +1288,8 @@ static ASTNode_T* parse_return(Parser_T* p, bool needs_semicolon)
 
     if(!tok_is(p, TOKEN_SEMICOLON) && !tok_is(p, TOKEN_UNLESS) && !tok_is(p, TOKEN_WHILE))
     {
-        if((p->cur_obj && p->cur_obj->return_type->kind == TY_VOID))
+        // values returned from lambdas get checked by the typechecker
+        if(!p->lambda_depth && p->cur_obj && p->cur_obj->return_type->kind == TY_VOID)
             throw_error(p->context, ERR_TYPE_ERROR_UNCR, ret->tok, "cannot return value from function with type `void`, expect `;`");
         ret->return_val = parse_expr(p, PREC_LOWEST, TOKEN_SEMICOLON);
     }
@@ -2118,7 +2120,9 @@ static ASTNode_T* parse_lambda_lit(Parser_T* p)
     else
     {
         parser_consume(p, TOKEN_ARROW, "expect `=>` after definition");
+        p->lambda_depth++;
         lambda->body = parse_stmt(p, false);
+        p->lambda_depth--;
     }
 
     return lambda;
@@ -2193,7 +2197,9 @@ static ASTNode_T* parse_const_lambda(Parser_T* p)
     else
     {
         parser_consume(p, TOKEN_ARROW, "expect `=>` after definition");
+        p->lambda_depth++;
         lambda_fn->body = parse_stmt(p, false);
+        p->lambda_depth--;
     }
 
     collect_locals(lambda_fn->body, lambda_fn->objs);
diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index e7e2c9e..b71c760 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -1869,6 +1869,11 @@ static void iter_leave_lambda(ASTNode_T* lambda, va_list args)
         lambda->return_ptr->data_type->base = lambda->data_type->base;
         lambda->return_ptr->data_type->size = get_type_size(v, lambda->return_ptr->data_type);
         lambda->return_ptr->data_type->align = 8;
+
+        // lambdas use the stack frame of the function they are defined in
+        ASTObj_T* fn = in_function(v);
+        if(fn)
+            list_push(fn->objs, lambda->return_ptr);
     }
 }
 
-- 
2.43.0


From 7f0f4c2a050422d9ce1353f66f2ec6fa74d01a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:32 +0000
Subject: [PATCH 17/69] fix: variadic functions: arguments behind named stack
 arguments and f80 arguments are found

---
 src/compiler/codegen/asm/asm_codegen.c | 7 ++++---
 src/compiler/parser/validator.c        | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index fd21bad..67cd5be 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -688,13 +688,14 @@ static void asm_gen_function(ASMCodegenData_T* cg, ASTObj_T* obj)
     // save arg registers if function is variadic
     if(is_variadic(obj->data_type))
     {
-        i32 gp = 0, fp = 0;
+        i32 gp = 0, fp = 0, top = 16;
         if(obj->return_ptr)
             gp++;
         for(size_t j = 0; j < obj->args->size; j++)
         {
             ASTObj_T* arg = obj->args->items[j];
-            asm_pass_by_reg(arg->data_type, &gp, &fp);
+            if(!asm_pass_by_reg(arg->data_type, &gp, &fp))
+                top = align_to(top, 8) + unpack(arg->data_type)->size;
         }
 
         i32 off = obj->va_area->offset;
@@ -703,7 +704,7 @@ static void asm_gen_function(ASMCodegenData_T* cg, ASTObj_T* obj)
 		asm_println(cg, "  movl $%d, %d(%%rbp)", gp * 8, off);          // gp_offset
 		asm_println(cg, "  movl $%d, %d(%%rbp)", fp * 8 + 48, off + 4); // fp_offset
 		asm_println(cg, "  movq %%rbp, %d(%%rbp)", off + 8);            // overflow_arg_area
-		asm_println(cg, "  addq $16, %d(%%rbp)", off + 8);
+		asm_println(cg, "  addq $%d, %d(%%rbp)", align_to(top, 8), off + 8);
 		asm_println(cg, "  movq %%rbp, %d(%%rbp)", off + 16);           // reg_save_area
 		asm_println(cg, "  addq $%d, %d(%%rbp)", off + 24, off + 16);
             
diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index b71c760..e96cd36 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -2017,7 +2017,7 @@ static void iter_validate_type_expr(ASTNode_T* cmp, va_list args)
                 ASTType_T* expanded = unpack(cmp->r_type);
                 if(is_integer(expanded) || is_ptr(expanded))
                     cmp->int_val = 0;
-                else if(is_flonum(expanded))
+                else if(is_flonum(expanded) && expanded->kind != TY_F80) // long doubles are passed in memory
                     cmp->int_val = 1;
             } return;
         case ND_BUILTIN_IS_INT...ND_BUILTIN_IS_UNION:
-- 
2.43.0


From 58324de80ada3b2bdff331284149d32967d739ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:47 +0000
Subject: [PATCH 18/69] fix: array access: from-back indices of C arrays and
 nested arrays, pointer arithmetic scale and sign, literals that refer to the
 assigned object

---
 src/compiler/codegen/asm/asm_codegen.c | 96 +++++++++++++++-----------
 src/compiler/parser/parser.c           |  3 -
 src/compiler/parser/validator.c        |  2 +-
 3 files changed, 57 insertions(+), 44 deletions(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index 67cd5be..c842e8c 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -194,6 +194,7 @@ static void asm_gen_stmt(ASMCodegenData_T* cg, ASTNode_T* node);
 static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node);
 static void asm_gen_lambda(ASMCodegenData_T* cg, ASTObj_T* lambda);
 static void asm_load(ASMCodegenData_T* cg, ASTType_T *ty);
+static void asm_cast(ASMCodegenData_T* cg, ASTType_T* from, ASTType_T* to);
 static void asm_gen_string_literals(ASMCodegenData_T* cg);
 
 void init_asm_cg(ASMCodegenData_T* cg, Context_T* context, ASTProg_T* ast)
@@ -864,41 +865,59 @@ static void asm_gen_index(ASMCodegenData_T* cg, ASTNode_T* index, bool gen_addre
         case TY_PTR:
         case TY_FN:
             asm_gen_expr(cg, index->expr);
+            asm_cast(cg, index->expr->data_type, (ASTType_T*) primitives[TY_I64]);
             asm_pop(cg, "%rdi");
-            asm_println(cg, "  imul $%d, %%rax", index->data_type->size);
+            asm_println(cg, "  imul $%d, %%rax", unpack(index->data_type)->size);
             break;
 
         case TY_C_ARRAY:
             asm_gen_expr(cg, index->expr);
+            asm_cast(cg, index->expr->data_type, (ASTType_T*) primitives[TY_I64]);
             asm_pop(cg, "%rdi");
             if(index->from_back)
             {
-                asm_println(cg, "  imul $%d, %%rax", -index->data_type->size);
-                asm_println(cg, "  add $%d, %%rax", index->left->data_type->size + index->data_type->size);
+                asm_println(cg, "  imul $%d, %%rax", -unpack(index->data_type)->size);
+                asm_println(cg, "  add $%d, %%rax", unpack(index->left->data_type)->size);
             }
             else
-                asm_println(cg, "  imul $%d, %%rax", index->data_type->size);
+                asm_println(cg, "  imul $%d, %%rax", unpack(index->data_type)->size);
             break;
 
-        case TY_VLA:
         case TY_ARRAY:
+            // the length is part of the type; arrays inside of other objects have no length in memory
+            asm_gen_expr(cg, index->expr);
+            asm_cast(cg, index->expr->data_type, (ASTType_T*) primitives[TY_I64]);
+            asm_pop(cg, "%rdi");
+            if(index->from_back)
+            {
+                asm_println(cg, "  imul $%d, %%rax", -unpack(index->data_type)->size);
+                asm_println(cg, "  add $%d, %%rax", (i32) unpack(index->left->data_type)->num_indices * unpack(index->data_type)->size);
+            }
+            else
+                asm_println(cg, "  imul $%d, %%rax", unpack(index->data_type)->size);
+            asm_println(cg, "  add $8, %%rax");
+            break;
+
+        case TY_VLA:
             if(index->from_back)
             {                
                 asm_load(cg, (ASTType_T*) primitives[TY_U64]);
                 asm_push(cg);
                 asm_gen_expr(cg, index->expr);
+                asm_cast(cg, index->expr->data_type, (ASTType_T*) primitives[TY_I64]);
                 asm_pop(cg, "%rcx"); // length
                 asm_pop(cg, "%rdi"); // pointer
 
-                asm_println(cg, "  imul $%d, %%rax", -index->data_type->size);
-                asm_println(cg, "  imul $%d, %%rcx", index->data_type->size);
+                asm_println(cg, "  imul $%d, %%rax", -unpack(index->data_type)->size);
+                asm_println(cg, "  imul $%d, %%rcx", unpack(index->data_type)->size);
                 asm_println(cg, "  add %%rcx, %%rax");
             }
             else
             {
                 asm_gen_expr(cg, index->expr);
+                asm_cast(cg, index->expr->data_type, (ASTType_T*) primitives[TY_I64]);
                 asm_pop(cg, "%rdi");
-                asm_println(cg, "  imul $%d, %%rax", index->data_type->size);
+                asm_println(cg, "  imul $%d, %%rax", unpack(index->data_type)->size);
             }
             asm_println(cg, "  add $8, %%rax");
             break;
@@ -1617,6 +1636,24 @@ static void asm_gen_inc(ASMCodegenData_T* cg, ASTNode_T* node)
     asm_gen_expr(cg, &converted);
 }
 
+// offset -> (offset: i64) * sizeof *ptr
+static ASTNode_T* asm_scale_ptr_offset(ASMCodegenData_T* cg, ASTNode_T* ptr, ASTNode_T* offset)
+{
+    ASTNode_T* wide = init_ast_node(&cg->context->raw_allocator, ND_CAST, offset->tok);
+    wide->left = offset;
+    wide->data_type = (ASTType_T*) primitives[TY_I64];
+
+    ASTNode_T* size = init_ast_node(&cg->context->raw_allocator, ND_LONG, offset->tok);
+    size->data_type = (ASTType_T*) primitives[TY_I64];
+    size->long_val = unpack(unpack(ptr->data_type)->base)->size;
+
+    ASTNode_T* scaled = init_ast_node(&cg->context->raw_allocator, ND_MUL, offset->tok);
+    scaled->data_type = (ASTType_T*) primitives[TY_I64];
+    scaled->left = wide;
+    scaled->right = size;
+    return scaled;
+}
+
 static void asm_gen_id_ptr(ASMCodegenData_T* cg, ASTNode_T* id)
 {
     switch(id->referenced_obj->kind)
@@ -1764,10 +1801,10 @@ static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
                 switch(ty->kind)
                 {
                     case TY_C_ARRAY:
+                    case TY_ARRAY:
                         asm_println(cg, "  mov $%lu, %%rax", ty->num_indices);
                         break;
                     
-                    case TY_ARRAY:
                     case TY_VLA:
                         asm_gen_addr(cg, node->expr);
                         asm_println(cg, "  mov (%%rax), %%rax");
@@ -1854,47 +1891,24 @@ static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
         case ND_ADD:
             if(unpack(node->left->data_type)->base && unpack(node->right->data_type)->base)
                 throw_error(cg->context, ERR_SYNTAX_ERROR, node->tok, "cannot add two pointer types together");
-            if(ptr_type(node->left->data_type) && unpack(node->left->data_type)->base->size > 1)
+            if(ptr_type(node->left->data_type) && !node->bool_val)
             {
                 // if we add a number to a pointer, multiply the second argument with the base type size
                 // a + b -> a + b * sizeof *a
-                ASTNode_T new_right = {
-                    .kind = ND_MUL,
-                    .data_type = node->right->data_type,
-                    .left = node->right,
-                    .right = &(ASTNode_T) {
-                        .kind = ND_LONG,
-                        .data_type = (ASTType_T*) primitives[TY_U64],
-                        .long_val = unpack(node->left->data_type)->base->size
-                    }
-                };
-
-                node->right = &new_right;
+                node->bool_val = true;
+                node->right = asm_scale_ptr_offset(cg, node->left, node->right);
             }
             break;
         
         case ND_SUB:
-            if(ptr_type(node->left->data_type) && is_integer(node->right->data_type))
+            if(ptr_type(node->left->data_type) && is_integer(node->right->data_type) && !node->bool_val)
             {
                 // if we subtract a number from a pointer, multiply the second argument with the base type size
                 // a - b -> a - b * sizeof *a
-
                 node->bool_val = true;
-
-                ASTNode_T new_right = {
-                    .kind = ND_MUL,
-                    .data_type = node->right->data_type,
-                    .left = node->right,
-                    .right = &(ASTNode_T) {
-                        .kind = ND_LONG,
-                        .data_type = (ASTType_T*) primitives[TY_U64],
-                        .long_val = unpack(node->left->data_type)->size
-                    }
-                };
-
-                node->right = &new_right;
+                node->right = asm_scale_ptr_offset(cg, node->left, node->right);
             }
-            else if(ptr_type(node->left->data_type) && ptr_type(node->left->data_type) && !node->bool_val)
+            else if(ptr_type(node->left->data_type) && ptr_type(node->right->data_type) && !node->bool_val)
             {
                 // if both subtraction arguments are pointers, return the number of elements in between
                 // a - b -> (a - b) / sizeof *a
@@ -1908,11 +1922,12 @@ static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
                     .right = &(ASTNode_T) {
                         .kind = ND_LONG,
                         .data_type = (ASTType_T*) primitives[TY_I64],
-                        .int_val = unpack(node->left->data_type)->base->size
+                        .long_val = unpack(unpack(node->left->data_type)->base)->size
                     }
                 };
 
                 asm_gen_expr(cg, &converted);
+                node->bool_val = false;
                 return;
             }
             break;
@@ -1997,7 +2012,8 @@ static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
             return;
         
         case ND_ASSIGN:
-            switch(node->right->kind)
+            // literals assigned to an existing object may refer to it, they are built in their own buffer
+            switch(node->right->is_assigning ? node->right->kind : ND_NOOP)
             {
             case ND_ARRAY:
                 asm_gen_addr(cg, node->left);
diff --git a/src/compiler/parser/parser.c b/src/compiler/parser/parser.c
index f30d2eb..9a7d689 100644
--- a/src/compiler/parser/parser.c
+++ b/src/compiler/parser/parser.c
@@ -2296,10 +2296,7 @@ static ASTNode_T* parse_assignment(Parser_T* p, ASTNode_T* left)
 
     ASTNode_T* right = parse_expr(p, PREC_LOWEST, TOKEN_EOF);
     if(is_operator(op, "="))
-    {
         assign->right = right;
-        assign->right->is_assigning = assign->right->kind == ND_ARRAY || assign->right->kind == ND_STRUCT;
-    }
     else
     {
         Token_T* assign_op_tok = duplicate_token(&p->context->raw_allocator, op);
diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index e96cd36..614305d 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -1610,7 +1610,7 @@ static void local_initializer(Validator_T* v, ASTNode_T* assign, ASTObj_T* local
 
 static void iter_enter_assignment(ASTNode_T* assign, va_list args)
 {
-    if(assign->right->kind == ND_ARRAY || assign->right->kind == ND_STRUCT)
+    if(assign->is_initializing && (assign->right->kind == ND_ARRAY || assign->right->kind == ND_STRUCT))
         assign->right->is_assigning = true;
 }
 
-- 
2.43.0


From 4090667f618b18c2f51776b91a8fda7081e92299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:51 +0000
Subject: [PATCH 19/69] fix: arrays inside of other objects have their length
 when they are passed as run-time sized arrays

---
 src/compiler/codegen/asm/asm_codegen.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index c842e8c..62c83eb 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -2002,6 +2002,15 @@ static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
 
         case ND_REF:
             asm_gen_addr(cg, node->right);
+            if(unpack(node->data_type)->kind == TY_VLA && unpack(node->right->data_type)->kind == TY_ARRAY)
+            {
+                // arrays inside of other objects do not have their length set
+                u64 c = cg->max_count++;
+                asm_println(cg, "  cmpq $%zu, (%%rax)", unpack(node->right->data_type)->num_indices);
+                asm_println(cg, "  je .L.vla.%lu", c);
+                asm_println(cg, "  movq $%zu, (%%rax)", unpack(node->right->data_type)->num_indices);
+                asm_println(cg, ".L.vla.%lu:", c);
+            }
             return;
         
         case ND_DEREF:
-- 
2.43.0


From d49b2756a06aa8528d2f8bf8421617639ef42a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:03 +0000
Subject: [PATCH 20/69] fix: std::string: keep the allocated size, trim
 trailing space, from_char

---
 src/std/string.csp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/std/string.csp b/src/std/string.csp
index bb87245..cff46ee 100644
--- a/src/std/string.csp
+++ b/src/std/string.csp
@@ -70,7 +70,7 @@ namespace std {
             let str_data: &StringData;
 
             if value == nil {
-                str_data = memory::alloc(sizeof StringData);
+                str_data = memory::alloc(sizeof StringData + 2);
                 str_data.alloc = 1;
                 str_data.size = 0;
             }
@@ -88,14 +88,15 @@ namespace std {
         fn init_sized(size: u64): String
         {
             let str_data: &StringData = memory::alloc(sizeof StringData + size + 1);
-            str_data.alloc = size + 1;
+            str_data.alloc = size;
             <- &(str_data.buff[0]);
         }
 
         fn init_sized_with(size: u64, fill: char): String
         {
             let str_data: &StringData = memory::alloc(sizeof StringData + size + 1);
-            str_data.alloc = size + 1;
+            str_data.alloc = size;
+            str_data.size = size;
             let str_ptr = &(*str_data.buff);
             memory::set(str_ptr, fill, size);
             <- str_ptr;
@@ -135,11 +136,10 @@ namespace std {
         fn append(dest: &String, c: char)
         {
             let str_data = get_data(*dest);
-            str_data.alloc++;
             str_data.size++;
 
             if(!has_space(str_data))
-                str_data = memory::realloc(str_data, sizeof StringData + (str_data.alloc *= 2) + 1);
+                str_data = memory::realloc(str_data, sizeof StringData + (str_data.alloc = (str_data.alloc + 1) * 2) + 1);
             str_data.buff[str_data.size - 1] = c;
             str_data.buff[str_data.size] = '\0';
             *dest = &(str_data.buff[0]);
@@ -228,8 +228,8 @@ namespace std {
             while(character::isspace(*str)) str++;
 
             let back = &str[len str];
-            while(character::isspace(*back)) back--;
-            back[1] = '\0';
+            while back > str && character::isspace(back[-1]) back--;
+            *back = '\0';
 
             <- str;
         }
@@ -250,7 +250,7 @@ namespace std {
 
         fn from_char(c: char): String
         {
-            let buf: u16 = c << 8 | '\0';
+            let buf: u16 = c: u8;
             <- str!{(&buf): &char};
         }
         
-- 
2.43.0


From 0c6a893b46f80444a9cb0770e0f74904f1e7e702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:03 +0000
Subject: [PATCH 21/69] fix: std::vec: capacity of vec![T, n] and of copies

---
 src/std/vec.csp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/std/vec.csp b/src/std/vec.csp
index 57e5aed..b9f80d1 100644
--- a/src/std/vec.csp
+++ b/src/std/vec.csp
@@ -19,7 +19,7 @@ macro vec(datatype) {
 }
 
 macro vec(datatype, size) {
-    (std::vec::init((size), sizeof (datatype)): &(datatype))
+    (::std::vec::init(sizeof (datatype), (size)): &(datatype))
 }
 
 # macro to get the size of the vector
@@ -220,6 +220,7 @@ namespace std {
             let copy: &VecData = memory::alloc(alloc_size);
             
             memory::copy(copy, v_data, alloc_size);
+            copy.alloc = size;
             <- &copy.buff;
         }
 
-- 
2.43.0


From 18ef94e0d20ee9864f4e6a0f80e5fdb714490e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:03 +0000
Subject: [PATCH 22/69] fix: std::memory: failed mappings, calloc overflow,
 realloc reads only the old block

---
 src/std/memory.csp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/std/memory.csp b/src/std/memory.csp
index 7fbe03b..4ed017b 100644
--- a/src/std/memory.csp
+++ b/src/std/memory.csp
@@ -96,7 +96,7 @@ namespace std {
 
             let length = n + sizeof usize;
             let plen: &usize = syscall::mmap(nil, length, Prot::READ | Prot::WRITE, MMap::PRIVATE | MMap::ANONYMOUS, -1, 0);
-            if plen == MMAP_FAILED {
+            if plen: i64 < 0 { # the syscall returns -errno on failure
                 error::new(Errno::NOMEM, "mmap failed");
                 <- nil;
             }
@@ -108,7 +108,14 @@ namespace std {
 
         fn calloc(nmemb: usize, size: usize): &void
         {
+            if size != 0 && nmemb > u64_max! / size {
+                error::new(Errno::NOMEM, "allocation too big");
+                <- nil;
+            }
+
             let ptr = alloc(nmemb * size);
+            if ptr == nil
+                <- nil;
             zero(ptr, nmemb * size);
             <- ptr;
         }
@@ -116,7 +123,11 @@ namespace std {
         fn realloc(ptr: &void, size: usize): &void
         {
             let new = alloc(size);
-            move(new, ptr, size);
+            if new == nil || ptr == nil
+                <- new;
+
+            let old_size = (ptr: &usize)[-1] - sizeof usize;
+            move(new, ptr, if old_size < size => old_size else size);
             free(ptr);
             <- new;
             #let plen = &(ptr: &usize)[-1];
-- 
2.43.0


From 8aea207eacfd6d0a0752376de6d5279193185233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:03 +0000
Subject: [PATCH 23/69] fix: std::c_str: terminated copies, strn*, strspn,
 strsep, strchr, memchr and comparison as unsigned characters

---
 src/std/c_str.csp | 46 ++++++++++++++++++++++++++++++----------------
 1 file changed, 30 insertions(+), 16 deletions(-)

diff --git a/src/std/c_str.csp b/src/std/c_str.csp
index 1d04346..976c7bd 100644
--- a/src/std/c_str.csp
+++ b/src/std/c_str.csp
@@ -28,12 +28,18 @@ namespace std {
         }
 
         fn strlen(str: &const char): usize = len str;
-        fn strnlen(s: &const char, _n: usize): usize = strlen(s);
+        fn strnlen(s: &const char, n: usize): usize
+        {
+            let i: usize = 0;
+            while i < n && s[i] != '\0'
+                i++;
+            <- i;
+        }
 
         # similar to c_str::copy
         fn copy(dest: &char, src: &const char)
         {
-            memory::move(dest, src, strlen(src));
+            memory::move(dest, src, strlen(src) + 1);
         }
 
         fn strcpy(dest: &char, src: &const char)
@@ -57,7 +63,11 @@ namespace std {
 
         fn strncat(dest: &char, src: &const char, n: usize): &char
         {
-            strncpy(dest + strlen(dest), src, n);
+            let end = dest + strlen(dest);
+            let i: usize = 0;
+            for ; i < n && src[i] != '\0'; i++;
+                end[i] = src[i];
+            end[i] = '\0';
             <- dest;
         }
 
@@ -67,18 +77,18 @@ namespace std {
                 l++;
                 r++;
             }
-            <- *l - *r;
+            <- (*l: u8: i32) - (*r: u8: i32);
         }
 
         fn strncmp(l: &const char, r: &const char, n: usize): i32
         {
-            if !n-- ret 0;
-            while *l && *r && n && *l == *r {
+            while n && *l && *l == *r {
                 l++;
                 r++;
                 n--;
             }
-            <- *l - *r;
+            if !n ret 0;
+            <- (*l: u8: i32) - (*r: u8: i32);
         }
 
         fn strstr(str: &char, substr: &char): &char
@@ -93,6 +103,9 @@ namespace std {
                 <- *b == '\0';
             };
 
+            if *substr == '\0'
+                <- str;
+
             while *str {
                 if *str == *substr && compare(str, substr) {
                     <- str;
@@ -107,11 +120,11 @@ namespace std {
             let begin = *stringp;
             if begin == nil ret nil;
 
-            let end: &char = begin + strspn(begin, delim);
+            let end: &char = begin + strcspn(begin, delim);
 
             if (*end) != 0 {
-                (*end)++;
-                (*stringp) = end;
+                (*end) = '\0';
+                (*stringp) = end + 1;
             }
             else
                 (*stringp) = nil;
@@ -127,11 +140,11 @@ namespace std {
             let p: &char = nil;
 
             for n = 0; *s; n++; {
-                s++;
                 for p = accept; (*p) != '\0' && (*p) != *s; p++;
                     noop;
                 if ! *p
                     break;
+                s++;
             }
 
             <- n;
@@ -159,11 +172,11 @@ namespace std {
         # Find the first occurrence of C in S.
         fn strchr(s: &const char, c_in: i32): &const char
         {
-            if s == nil || c_in > 255 || c_in < 0
+            if s == nil
                 <- nil;
         
             let s_len = strlen(s);
-            for let i: usize = 0; i < s_len; i++;
+            for let i: usize = 0; i <= s_len; i++;
                 if (c_in: char) == s[i]
                     <- &s[i];
 
@@ -237,14 +250,15 @@ namespace std {
             let ch_ptr: &u8;
 
             for ch_ptr = (s: &const u8); n > 0 && (ch_ptr: u64 % sizeof LongWord) != 0; n--; {
-                ch_ptr++;
                 if (*ch_ptr) == c
                     <- ch_ptr: &void;
+                ch_ptr++;
             }
 
             let longword_ptr = ch_ptr: &LongWord;
             let repeated_one: LongWord = 0x01010101;
-            let repeated_c: LongWord = c | (c << 8);
+            let repeated_c: LongWord = c: LongWord | (c: LongWord << 8);
+            repeated_c |= repeated_c << 16;
             if 0xffffffff: u64 < (-1: LongWord) {
                 repeated_one |= repeated_one << 31 << 1;
                 repeated_c |= repeated_c << 31 << 1;
@@ -263,9 +277,9 @@ namespace std {
             ch_ptr = longword_ptr: &const u8;
 
             for ; n > 0; n--; {
-                ch_ptr++;
                 if (*ch_ptr) == c
                     <- ch_ptr: &void;
+                ch_ptr++;
             }
 
             <- nil;
-- 
2.43.0


From 6ecaad8a1f0573c731d8e1099f8235ab4dc358f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:01 +0000
Subject: [PATCH 24/69] fix: std::hashmap: keys and values whose sizes leave
 padding between them

---
 src/std/hashmap.csp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/std/hashmap.csp b/src/std/hashmap.csp
index e145971..8719f99 100644
--- a/src/std/hashmap.csp
+++ b/src/std/hashmap.csp
@@ -64,10 +64,10 @@ macro hashmap_free(map) {
 
 # add a new key-value pair to a hashmap
 macro hashmap_put(map, _key, _val) {
-    (::std::hashmap::put((map), &{
-        (_key): typeof (map).pairs.key, 
-        (_val): typeof (map).pairs.val
-    }))
+    (::std::hashmap::put((map), 
+        &{(_key): typeof (map).pairs.key}, 
+        &{(_val): typeof (map).pairs.val}
+    ))
 }
 
 # get a value from a hashmap with its key
@@ -195,13 +195,15 @@ namespace std {
             <- nil;
         }
 
-        fn put(map: &Template, pair: &u8) {
+        # the pairs are stored without padding between key and value
+        fn put(map: &Template, key: &u8, val: &u8) {
             map.data.size++;
             grow(map); # grow if needed
 
-            let addr = find_pair(map, pair, true);
+            let addr = find_pair(map, key, true);
             if addr {
-                memory::copy(addr, pair, map.data.ksize + map.data.vsize);
+                memory::copy(addr, key, map.data.ksize);
+                memory::copy(addr + (map.data.ksize: u64), val, map.data.vsize);
             }
         }
 
-- 
2.43.0


From a569b5fad47d8fe3a67157a2d0f36a995eb8f034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:01 +0000
Subject: [PATCH 25/69] fix: std::c_str: numerals of INT64_MIN, of negative
 numbers in other bases and of floating point numbers

---
 src/std/c_str.csp | 48 +++++++++++++++++++----------------------------
 1 file changed, 19 insertions(+), 29 deletions(-)

diff --git a/src/std/c_str.csp b/src/std/c_str.csp
index 976c7bd..a84c7ae 100644
--- a/src/std/c_str.csp
+++ b/src/std/c_str.csp
@@ -302,35 +302,13 @@ namespace std {
 
         fn from_int(num: i64, str: &char, base: i32): &char 
         {
-            let i: i64 = 0;
-            let is_negative: bool = false;
-
-            if num == 0 {
-                str[i++] = '0';
-                str[i] = '\0';
-                <- str;
-            }
-
             if num < 0 && base == 10 {
-                is_negative = true;
-                num = -num;
+                str[0] = '-';
+                from_uint((-num): u64, str + 1, base);
             }
+            else
+                from_uint(num: u64, str, base);
 
-            while num != 0 {
-                let rem: i64 = num % base;
-                if rem > 9 
-                    str[i++] = ((rem - 10) + 'a');
-                else
-                    str[i++] = rem + '0';
-                num = num / base;
-            }
-
-            if is_negative
-                str[i++] = '-';
-
-            str[i] = '\0';
-            reverse(str);
-            
             <- str;
         }
 
@@ -407,7 +385,12 @@ namespace std {
 
         fn from_f32(float: f32, ndigits: i32, buf: &char)
         {
-            let whole = float: i32;
+            if float < 0 {
+                *buf++ = '-';
+                float = -float;
+            }
+
+            let whole = float: i64;
             from_int(whole, buf, 10);
 
             if ndigits <= 0
@@ -416,7 +399,7 @@ namespace std {
             buf += len buf;
             buf[0] = '.';
 
-            float -= whole;
+            float -= whole: f32;
 
             let i = 1;
             for 0..ndigits {
@@ -425,10 +408,16 @@ namespace std {
                 buf[i++] = digit + '0';
                 float -= digit;
             }
+            buf[i] = '\0';
         }
 
         fn from_f64(float: f64, ndigits: i32, buf: &char)
         {
+            if float < 0 {
+                *buf++ = '-';
+                float = -float;
+            }
+
             let whole = float: i64;
             from_int(whole, buf, 10);
 
@@ -438,7 +427,7 @@ namespace std {
             buf += len buf;
             buf[0] = '.';
 
-            float -= whole;
+            float -= whole: f64;
 
             let i = 1;
             for 0..ndigits {
@@ -447,6 +436,7 @@ namespace std {
                 buf[i++] = digit + '0';
                 float -= digit;
             }
+            buf[i] = '\0';
         }
     }
 }
-- 
2.43.0


From b027b69a988cf8338e426e7158d552805d1916cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:52 +0000
Subject: [PATCH 26/69] fix: integer literals above the i64 range keep their
 value

---
 src/compiler/lexer/lexer.c   | 2 +-
 src/compiler/parser/parser.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compiler/lexer/lexer.c b/src/compiler/lexer/lexer.c
index 923ff82..15016e8 100644
--- a/src/compiler/lexer/lexer.c
+++ b/src/compiler/lexer/lexer.c
@@ -308,7 +308,7 @@ static Token_T* lexer_get_int(Lexer_T* lexer, const char* digits, i32 base)
         lexer_advance(lexer);
     }
 
-    u64 decimal = strtoll(lexer->tmp_buffer, NULL, base);
+    u64 decimal = strtoull(lexer->tmp_buffer, NULL, base);
     sprintf(lexer->tmp_buffer, "%lu", decimal);
 
     Token_T* token = init_token(&lexer->context->raw_allocator, lexer->tmp_buffer, lexer->line, lexer->pos, TOKEN_INT, lexer->file);
diff --git a/src/compiler/parser/parser.c b/src/compiler/parser/parser.c
index 9a7d689..5ce71a8 100644
--- a/src/compiler/parser/parser.c
+++ b/src/compiler/parser/parser.c
@@ -1936,7 +1936,7 @@ static ASTNode_T* parse_int_lit(Parser_T* p)
 {
     ASTNode_T* lit = init_ast_node(&p->context->raw_allocator, ND_INT, p->tok);
     parser_consume(p, TOKEN_INT, "expect integer literal (0, 1, 2, ...)");
-    i64 num = atoll(lit->tok->value);
+    u64 num = strtoull(lit->tok->value, NULL, 10);
     if(num <= INT_MAX)
     {
         lit->kind = ND_INT;
-- 
2.43.0


From babf1d4bd854746f074698e663f39c8846cc4afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:52 +0000
Subject: [PATCH 27/69] fix: assignments to a name in parentheses

---
 src/compiler/parser/validator.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index 614305d..d0ca183 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -1633,7 +1633,7 @@ static void iter_leave_assignment(ASTNode_T* assign, va_list args)
             break;
         case ND_ID: 
         {
-            ASTObj_T* assigned_obj = assign->left->referenced_obj;
+            ASTObj_T* assigned_obj = expand_closure(assign->left)->referenced_obj;
             if(!assigned_obj)
                 return;
 
-- 
2.43.0


From 155a07627cda4854d82595194e255cb556a6b308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:52 +0000
Subject: [PATCH 28/69] fix: std::math: pow of 0 and beyond i32, mod with
 negative divisor; limits i64_min and u64_min

---
 src/std/math.csp  | 10 +++++-----
 src/std/types.csp |  4 ++--
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/std/math.csp b/src/std/math.csp
index 869d5c2..697d844 100644
--- a/src/std/math.csp
+++ b/src/std/math.csp
@@ -57,10 +57,10 @@ namespace std {
         fn pow(a: i32, b: i32): i64 
         {
             match b {
-                0 => ret 0;
+                0 => ret 1;
                 1 => ret a;
-                2 => ret a²;
-                3 => ret a³;
+                2 => ret (a: i64)²;
+                3 => ret (a: i64)³;
                 _ => {
                     let c: i64 = 1;
 
@@ -88,8 +88,8 @@ namespace std {
         fn mod(num: i64, den: i64): i64
         {
             let result = num % den;
-            while result < 0
-                result += den;
+            if result < 0
+                result += if den < 0 => -den else den;
             <- result;
         }
 
diff --git a/src/std/types.csp b/src/std/types.csp
index 04db3f5..9f95d75 100644
--- a/src/std/types.csp
+++ b/src/std/types.csp
@@ -18,7 +18,7 @@ macro i16_min { (-32768: i16) }
 macro i32_max { (2147483647: i32) }
 macro i32_min { (-2147483648: i32) }
 macro i64_max { (9223372036854775807: i64) }
-macro i64_min { (-9223372036854775808: i32) }
+macro i64_min { (-9223372036854775807: i64 - 1) }
 
 # unsigned integer data type limits
 macro u8_max  { (255: u8) }
@@ -28,7 +28,7 @@ macro u16_min { (0: u16) }
 macro u32_max { (4294967295: u32) }
 macro u32_min { (0: u32) }
 macro u64_max { (18446744073709551615: u64) }
-macro u64_min { (0: u32) }
+macro u64_min { (0: u64) }
 
 # char data type limits
 macro char_min { i8_min! }
-- 
2.43.0


From e634bcc0fae62519666d3dafea221ba4107e5244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:52 +0000
Subject: [PATCH 29/69] fix: std::character: toupper

---
 src/std/character.csp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/std/character.csp b/src/std/character.csp
index ad4aa6f..076081a 100644
--- a/src/std/character.csp
+++ b/src/std/character.csp
@@ -27,7 +27,7 @@ namespace std {
         
         fn toascii(c: i32): i32 = c & 0x7f;
         fn tolower(c: i32): i32 = if isupper(c) != 0 => c | 32 else c;
-        fn toupper(c: i32): i32 = if islower(c) != 0 => c | 0x05 else c;
+        fn toupper(c: i32): i32 = if islower(c) != 0 => c & 0x5f else c;
 
         fn ismetachar(c: i32): i32 = c == 's' || c == 'S' || c == 'w' || c == 'W' || c == 'd' || c == 'D';
     }
-- 
2.43.0


From f458e7bca36a7a4c5c031c76419c0f5fff19c215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:52 +0000
Subject: [PATCH 30/69] fix: sum! of arrays that are not 32 bit; xor_swap!

---
 src/std/array.csp | 12 ++++++------
 src/std/utils.csp |  2 +-
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/std/array.csp b/src/std/array.csp
index 4eebabc..7360dd4 100644
--- a/src/std/array.csp
+++ b/src/std/array.csp
@@ -29,17 +29,17 @@ macro sum(__a) {
         else if type::((typeof (__a)[0]) == u32) =>
             ::std::array::sum_u32(&__a[0], len (__a)): i64
         else if type::((typeof (__a)[0]) == i64) =>
-            ::std::array::sum_i32(&__a[0], len (__a))
+            ::std::array::sum_i64(&__a[0], len (__a))
         else if type::((typeof (__a)[0]) == u64) =>
-            ::std::array::sum_u32(&__a[0], len (__a)): i64
+            ::std::array::sum_u64(&__a[0], len (__a)): i64
         else if type::((typeof (__a)[0]) == i16) =>
-            ::std::array::sum_i32(&__a[0], len (__a))
+            ::std::array::sum_i16(&__a[0], len (__a))
         else if type::((typeof (__a)[0]) == u16) =>
-            ::std::array::sum_u32(&__a[0], len (__a)): i64
+            ::std::array::sum_u16(&__a[0], len (__a)): i64
         else if type::((typeof (__a)[0]) == i8) =>
-            ::std::array::sum_i32(&__a[0], len (__a))
+            ::std::array::sum_i8(&__a[0], len (__a))
         else if type::((typeof (__a)[0]) == u8) =>
-            ::std::array::sum_u32(&__a[0], len (__a)): i64
+            ::std::array::sum_u8(&__a[0], len (__a)): i64
         else 0: i64
     )
     else 0: i64)
diff --git a/src/std/utils.csp b/src/std/utils.csp
index 1446a3d..4a2c2af 100644
--- a/src/std/utils.csp
+++ b/src/std/utils.csp
@@ -36,7 +36,7 @@ macro range(i, lo, hi) {
 
 # swaps two variables with each other without creating a third variable
 macro xor_swap(a, b) {
-    ((a) ^= (b) |> (b) ^= (a) |> (a) ^= (b))
+    (((a) ^= (b)) |> ((b) ^= (a)) |> ((a) ^= (b)))
 }
 
 # swaps two variables with a third buffer variable
-- 
2.43.0


From 1e607e71694c5782042b2c7e832d8445d56bb972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:52 +0000
Subject: [PATCH 31/69] fix: std::random: the default state lies in its array

---
 src/std/random.csp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/std/random.csp b/src/std/random.csp
index 292fc41..fa52650 100644
--- a/src/std/random.csp
+++ b/src/std/random.csp
@@ -117,7 +117,7 @@ namespace std {
             ];
 
             fn __init() {
-                do x = &init + 1 unless x;
+                do x = (&init[1]) unless x;
             }
         }
     }
-- 
2.43.0


From 4ad3bea09a3637a6e08ed00f08ccc391965dc3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:52 +0000
Subject: [PATCH 32/69] fix: std::time: unix seconds, delay in milliseconds;
 uuids are seeded by the time

---
 src/std/algorithm.csp | 2 +-
 src/std/time.csp      | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/std/algorithm.csp b/src/std/algorithm.csp
index 5ac5381..dfaa712 100644
--- a/src/std/algorithm.csp
+++ b/src/std/algorithm.csp
@@ -93,7 +93,7 @@ namespace std {
             using __static, __internal;
             if !seeded {
                 seeded = true;
-                random::seed(time::unix::secs().tv_usec);
+                random::seed(clock::get_time_of_day().tv_usec);
             }
 
             for let i = 0; i < 16 / 4; i++; {
diff --git a/src/std/time.csp b/src/std/time.csp
index 5d2c9e2..a3e0bcd 100644
--- a/src/std/time.csp
+++ b/src/std/time.csp
@@ -80,7 +80,7 @@ namespace std {
 
         namespace unix {
             # gets the current unix-time (time in seconds since 01.01.1970)
-            fn secs(): TimeVal = *syscall::time(nil);
+            fn secs(): TimeVal = TimeVal::{syscall::time(nil): i64, 0};
         }
     }
 
@@ -127,7 +127,7 @@ namespace std {
 
         # delay further execution by `millis` milliseconds
         fn delay(millis: i64): TimeSpec {
-            let req = TimeSpec::{millis / 1_000, (millis % 1000) * 1000};
+            let req = TimeSpec::{millis / 1_000, (millis % 1000) * 1000000};
             let rem = TimeSpec::{};
             syscall::nanosleep(&req, &rem);
             <- rem;
-- 
2.43.0


From 6e1bd634481a2a47feb7eebb14ce1ceac16be70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:12 +0000
Subject: [PATCH 33/69] fix: C backend: integer arithmetic wraps around
 (-fwrapv), pointers may alias

---
 src/compiler/codegen/transpiler/c_codegen.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/compiler/codegen/transpiler/c_codegen.c b/src/compiler/codegen/transpiler/c_codegen.c
index 39e3af8..aea2892 100644
--- a/src/compiler/codegen/transpiler/c_codegen.c
+++ b/src/compiler/codegen/transpiler/c_codegen.c
@@ -376,6 +376,8 @@ void c_gen_code(CCodegenData_T* cg, const char* target)
             cg->context->cc,
             c_source_file,
             "-std=c99",
+            "-fwrapv", // integer arithmetic wraps around
+            "-fno-strict-aliasing",
             "-o",
             target,
             "-Wno-builtin-declaration-mismatch", // disable warnings for "extern "C"" function declarations
@@ -447,6 +449,8 @@ void c_gen_code(CCodegenData_T* cg, const char* target)
             "-c",
             c_source_file,
             "-std=c99",
+            "-fwrapv", // integer arithmetic wraps around
+            "-fno-strict-aliasing",
             "-o",
             obj_file,
         };
-- 
2.43.0


From 323ec2059303aa17e19a8513ce433ae481852588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:12 +0000
Subject: [PATCH 34/69] fix: C backend: from-back indices

---
 src/compiler/codegen/transpiler/c_codegen.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/compiler/codegen/transpiler/c_codegen.c b/src/compiler/codegen/transpiler/c_codegen.c
index aea2892..957c224 100644
--- a/src/compiler/codegen/transpiler/c_codegen.c
+++ b/src/compiler/codegen/transpiler/c_codegen.c
@@ -1249,7 +1249,7 @@ static void c_gen_inline_asm(CCodegenData_T* cg, ASTNode_T* node)
     c_print(cg, "\n)");
 }
 
-static void c_gen_index2(CCodegenData_T* cg, ASTNode_T* node, ASTNode_T* index)
+static void c_gen_index2(CCodegenData_T* cg, ASTNode_T* node, ASTNode_T* index, bool from_back)
 {
     ASTTypeKind_T ty = unpack(node->data_type)->kind;
     switch(ty)
@@ -1260,6 +1260,8 @@ static void c_gen_index2(CCodegenData_T* cg, ASTNode_T* node, ASTNode_T* index)
             c_putc(cg, '(');
             c_gen_expr(cg, node, true);
             c_print(cg, ")[");
+            if(from_back)
+                c_print(cg, "%lu-", (u64) unpack(node->data_type)->num_indices);
             c_gen_expr(cg, index, true);
             c_print(cg, "]");
             break;
@@ -1269,6 +1271,14 @@ static void c_gen_index2(CCodegenData_T* cg, ASTNode_T* node, ASTNode_T* index)
             c_putc(cg, '(');
             c_gen_expr(cg, node, true);
             c_print(cg, ")%s__v[", ty == TY_ARRAY ? "." : "->");
+            if(from_back && ty == TY_ARRAY)
+                c_print(cg, "%lu-", (u64) unpack(node->data_type)->num_indices);
+            else if(from_back)
+            {
+                c_putc(cg, '(');
+                c_gen_expr(cg, node, true);
+                c_print(cg, ")->__s-");
+            }
             c_gen_expr(cg, index, true);
             c_putc(cg, ']');
             break;
@@ -1280,7 +1290,7 @@ static void c_gen_index2(CCodegenData_T* cg, ASTNode_T* node, ASTNode_T* index)
 
 static void c_gen_index(CCodegenData_T* cg, ASTNode_T* node)
 {
-    c_gen_index2(cg, node->left, node->expr);
+    c_gen_index2(cg, node->left, node->expr, node->from_back);
 }
 
 static void c_gen_unpack_arg(CCodegenData_T* cg, ASTNode_T* arg)
@@ -1299,7 +1309,7 @@ static void c_gen_unpack_arg(CCodegenData_T* cg, ASTNode_T* arg)
             c_print(cg, ")." ID_PREFIX "%s", ((ASTNode_T*)arg_type->members->items[i])->id->callee);
         }
         else
-            c_gen_index2(cg, arg, &(ASTNode_T){.kind = ND_LONG, .data_type = (ASTType_T*) primitives[TY_U64], .long_val = index});
+            c_gen_index2(cg, arg, &(ASTNode_T){.kind = ND_LONG, .data_type = (ASTType_T*) primitives[TY_U64], .long_val = index}, false);
         if(num_indices - i > 1)
             c_putc(cg, ',');
     }
-- 
2.43.0


From 2c604e67d609663cf7eca4ea005f34919cba6ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:12 +0000
Subject: [PATCH 35/69] fix: C backend: floating-point literals keep their
 value

---
 src/compiler/codegen/transpiler/c_codegen.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compiler/codegen/transpiler/c_codegen.c b/src/compiler/codegen/transpiler/c_codegen.c
index 957c224..84b8d52 100644
--- a/src/compiler/codegen/transpiler/c_codegen.c
+++ b/src/compiler/codegen/transpiler/c_codegen.c
@@ -1338,10 +1338,10 @@ static void c_gen_expr(CCodegenData_T* cg, ASTNode_T* node, bool with_casts)
     switch(node->kind)
     {
         case ND_FLOAT:
-            c_print(cg, "%ff", node->float_val);
+            c_print(cg, "%af", node->float_val);
             break;
         case ND_DOUBLE:
-            c_print(cg, "%f", node->double_val);
+            c_print(cg, "%a", node->double_val);
             break;
         case ND_INT:
             c_print(cg, "%d", node->int_val);
-- 
2.43.0


From cc9cce924cd390bbf1db38af6f29ada17462c638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:12 +0000
Subject: [PATCH 36/69] fix: C backend: pointer comparison, arithmetic and
 difference

---
 src/compiler/codegen/transpiler/c_codegen.c | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/compiler/codegen/transpiler/c_codegen.c b/src/compiler/codegen/transpiler/c_codegen.c
index 84b8d52..e75f8d2 100644
--- a/src/compiler/codegen/transpiler/c_codegen.c
+++ b/src/compiler/codegen/transpiler/c_codegen.c
@@ -1438,6 +1438,21 @@ static void c_gen_expr(CCodegenData_T* cg, ASTNode_T* node, bool with_casts)
         case ND_BIT_OR:
         case ND_BIT_AND:
             cast_to_int = is_pointer(unpack(node->left->data_type)) || is_pointer(unpack(node->right->data_type)) ;
+            // adding an integer to a pointer moves it by whole elements, just like in C
+            if((node->kind == ND_ADD || node->kind == ND_SUB) && is_pointer(unpack(node->left->data_type)) && is_integer(unpack(node->right->data_type)))
+                cast_to_int = false;
+            // the difference of two pointers is the number of elements in between
+            if(node->kind == ND_SUB && is_pointer(unpack(node->left->data_type)) && is_pointer(unpack(node->right->data_type)))
+            {
+                c_print(cg, "((");
+                c_gen_expr(cg, node->left, true);
+                c_print(cg, ")-((");
+                c_gen_type(cg, node->left->data_type, true);
+                c_print(cg, ")(");
+                c_gen_expr(cg, node->right, true);
+                c_print(cg, ")))");
+                break;
+            }
             // fall through
         case ND_ASSIGN:
             c_putc(cg, '(');
@@ -1449,10 +1464,10 @@ static void c_gen_expr(CCodegenData_T* cg, ASTNode_T* node, bool with_casts)
             }
             c_gen_expr(cg, node->left, true);
             if(cast_to_int)
-                c_print(cg, "))");
+                c_print(cg, ")");
             c_print(cg, "%s", op_symbols[node->kind]);
             if(cast_to_int)
-                c_print(cg, "((uintptr_t)(");
+                c_print(cg, "(uintptr_t)(");
             c_gen_expr(cg, node->right, true);
             if(cast_to_int)
                 c_print(cg, ")))");
-- 
2.43.0


From 61cb558ff9d8eb3db2e8f969d27407e0f6ef9330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:12 +0000
Subject: [PATCH 37/69] fix: C backend: `x else y` expressions

---
 src/compiler/codegen/transpiler/c_codegen.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/compiler/codegen/transpiler/c_codegen.c b/src/compiler/codegen/transpiler/c_codegen.c
index e75f8d2..df11a8f 100644
--- a/src/compiler/codegen/transpiler/c_codegen.c
+++ b/src/compiler/codegen/transpiler/c_codegen.c
@@ -1639,6 +1639,13 @@ static void c_gen_expr(CCodegenData_T* cg, ASTNode_T* node, bool with_casts)
             c_gen_expr(cg, node->else_branch, true);
             c_putc(cg, ')');
             break;
+        case ND_ELSE_EXPR:
+            c_print(cg, "((");
+            c_gen_expr(cg, node->left, true);
+            c_print(cg, ")?:(");
+            c_gen_expr(cg, node->right, true);
+            c_print(cg, "))");
+            break;
         case ND_PIPE:
             c_print(cg, "(" UNIQUE_ID_FMT "=(", node->long_val);
             c_gen_expr(cg, node->left, true);
-- 
2.43.0


From 2e7f319937073e12605a4bab2c341a79ed35ca2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:12 +0000
Subject: [PATCH 38/69] fix: C backend: ranges have signed bounds

---
 src/compiler/codegen/transpiler/c_codegen.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compiler/codegen/transpiler/c_codegen.c b/src/compiler/codegen/transpiler/c_codegen.c
index df11a8f..2b37589 100644
--- a/src/compiler/codegen/transpiler/c_codegen.c
+++ b/src/compiler/codegen/transpiler/c_codegen.c
@@ -1893,9 +1893,9 @@ static void c_gen_stmt(CCodegenData_T* cg, ASTNode_T* node)
     case ND_FOR_RANGE:
     {
         u64 low_id = cg->unique_id++, high_id = cg->unique_id++;
-        c_print(cg, "for(%s " UNIQUE_ID_FMT " = ", c_primitive_types[TY_U64], low_id);
+        c_print(cg, "for(%s " UNIQUE_ID_FMT " = ", c_primitive_types[TY_I64], low_id);
         c_gen_expr(cg, node->left, true);
-        c_print(cg, ", " UNIQUE_ID_FMT " = (%s)", high_id, c_primitive_types[TY_U64]);
+        c_print(cg, ", " UNIQUE_ID_FMT " = ", high_id);
         c_gen_expr(cg, node->right, true);
         c_println(cg, "; " UNIQUE_ID_FMT " < " UNIQUE_ID_FMT "; " UNIQUE_ID_FMT "++){", low_id, high_id, low_id);
         c_gen_stmt(cg, node->body);
-- 
2.43.0


From 6c531758849f9678c3e978942ee31c3b67fe5bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:12 +0000
Subject: [PATCH 39/69] fix: C backend: match: type of the subject, operand
 order, `break`, nested matches, lone default

---
 src/compiler/codegen/transpiler/c_codegen.c | 23 +++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/compiler/codegen/transpiler/c_codegen.c b/src/compiler/codegen/transpiler/c_codegen.c
index 2b37589..ca8b9f0 100644
--- a/src/compiler/codegen/transpiler/c_codegen.c
+++ b/src/compiler/codegen/transpiler/c_codegen.c
@@ -1904,29 +1904,40 @@ static void c_gen_stmt(CCodegenData_T* cg, ASTNode_T* node)
 
     case ND_MATCH:
     {
-        u64 uid = cg->unique_id;
-        c_print(cg, "{\n%s " UNIQUE_ID_FMT " =", c_primitive_types[TY_U64], uid);
+        u64 uid = cg->unique_id++;
+        char unique_name[128] = {0};
+        sprintf(unique_name, UNIQUE_ID_FMT, uid);
+
+        // `break` leaves the match statement
+        c_println(cg, "switch(0){default:{");
+        ASTType_T* match_type = unpack(node->condition->data_type);
+        if(match_type->kind == TY_I8 || match_type->kind == TY_I16)
+            match_type = (ASTType_T*) primitives[TY_I32]; // signed operands are compared at the width of the arithmetic
+        c_gen_typed_name_str(cg, unique_name, match_type);
+        c_putc(cg, '=');
         c_gen_expr(cg, node->condition, true);
         c_println(cg, ";");
         
         for(size_t i = 0; i < node->cases->size; i++)
         {
             ASTNode_T* _case = node->cases->items[i];
-            c_print(cg, "%sif((", i == 0 ? "" : "else ");
+            c_print(cg, "%sif(" UNIQUE_ID_FMT " %s (", i == 0 ? "" : "else ", uid, cmp_mode[_case->mode]);
+            c_gen_type(cg, match_type, true);
+            c_print(cg, ")(");
             c_gen_expr(cg, _case->condition, true);
-            c_println(cg, ") %s " UNIQUE_ID_FMT "){", cmp_mode[_case->mode], uid);
+            c_println(cg, ")){");
             c_gen_stmt(cg, _case->body);
             c_println(cg, "}");
         }
 
         if(node->default_case)
         {
-            c_println(cg, "else{");
+            c_println(cg, node->cases->size ? "else{" : "{");
             c_gen_stmt(cg, node->default_case->body);
             c_putc(cg, '}');
         }
 
-        c_println(cg, "}");
+        c_println(cg, "}}");
     } break;
 
     case ND_WITH:
-- 
2.43.0


From f108a4f1b144493cb9e6951e4b332bd43a2a7b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:37 +0000
Subject: [PATCH 40/69] fix: variables can be defined after a range loop

---
 src/compiler/parser/parser.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/compiler/parser/parser.c b/src/compiler/parser/parser.c
index 5ce71a8..e2289f7 100644
--- a/src/compiler/parser/parser.c
+++ b/src/compiler/parser/parser.c
@@ -1380,7 +1380,11 @@ static ASTNode_T* parse_for(Parser_T* p, bool needs_semicolon)
             loop->init_stmt = init_stmt;
 
             if(tok_is_operator(p, ".."))
-                return parse_for_range(p, loop, needs_semicolon);
+            {
+                parse_for_range(p, loop, needs_semicolon);
+                p->cur_block = prev_block;
+                return loop;
+            }
             parser_consume(p, TOKEN_SEMICOLON, "expect `;` after for-loop initializer");
         }
     } 
-- 
2.43.0


From 16c4f4c9357bd8dc744cea88b303c533055c6bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:33 +0000
Subject: [PATCH 41/69] fix: interpreter: integers are read in the width and
 signedness of their type

---
 src/compiler/interpreter/value.c | 68 ++++++++++++++++----------------
 src/compiler/interpreter/value.h |  3 +-
 2 files changed, 35 insertions(+), 36 deletions(-)

diff --git a/src/compiler/interpreter/value.c b/src/compiler/interpreter/value.c
index 3c84f0b..f14efb3 100644
--- a/src/compiler/interpreter/value.c
+++ b/src/compiler/interpreter/value.c
@@ -63,71 +63,69 @@ void interpreter_value_to_str(InterpreterValue_T* value, char* dst, size_t len)
     } 
 }
 
+static inline bool is_float_value(InterpreterValue_T* value)
+{
+    return value->type->kind == TY_F32 || value->type->kind == TY_F64 || value->type->kind == TY_F80;
+}
+
 bool interpreter_value_is_falsy(InterpreterValue_T value)
 {
     switch(value.type->kind)
     {
-        case TY_I8:
-        case TY_I16:
-        case TY_I32:
-        case TY_I64:
-            return value.value.integer.i64 == 0;
-
-        case TY_U8:
-        case TY_U16:
-        case TY_U32:
-        case TY_U64:
-            return value.value.uinteger.u64 == 0;
-
         case TY_F32:
-            return value.value.flt.f32 == 0;
-
         case TY_F64:
-            return value.value.flt.f64 == 0;
-        
         case TY_F80:
-            return value.value.flt.f80 == 0;
-        
+            return interpreter_value_f80(&value) == 0;
+
         case TY_VOID:
             return true;
-        
-        case TY_BOOL:
-            return !value.value.boolean;
-        
-        case TY_CHAR:
-            return value.value.character == '\0';
-        
-        case TY_PTR:
-            return value.value.ptr == 0;
-        
+
         default:
-            assert(false);
-            return true;
+            return interpreter_value_i64(&value) == 0;
     }
 }
 
+bool interpreter_values_equal(InterpreterValue_T a, InterpreterValue_T b)
+{
+    if(is_float_value(&a) || is_float_value(&b))
+        return interpreter_value_f80(&a) == interpreter_value_f80(&b);
+    return interpreter_value_i64(&a) == interpreter_value_i64(&b);
+}
+
 i64 interpreter_value_i64(InterpreterValue_T* value)
 {
     switch(value->type->kind)
     {
         case TY_I8:
+            return value->value.integer.i8;
         case TY_I16:
+            return value->value.integer.i16;
         case TY_I32:
+        case TY_ENUM:
+            return value->value.integer.i32;
         case TY_I64:
             return value->value.integer.i64;
 
         case TY_U8:
+            return value->value.uinteger.u8;
         case TY_U16:
+            return value->value.uinteger.u16;
         case TY_U32:
+            return value->value.uinteger.u32;
         case TY_U64:
             return (i64) value->value.uinteger.u64;
 
-        case TY_PTR:
-            return (i64) value->value.ptr;
+        case TY_BOOL:
+            return value->value.boolean;
 
         case TY_CHAR:
             return (i64) value->value.character;
 
+        case TY_PTR:
+        case TY_VLA:
+        case TY_FN:
+            return (i64) value->value.ptr;
+
         default:
             unreachable();
             return 0;
@@ -146,10 +144,12 @@ f80 interpreter_value_f80(InterpreterValue_T* value)
         
         case TY_F80:
             return value->value.flt.f80;
+
+        case TY_U64:
+            return (f80) value->value.uinteger.u64;
         
         default:
-            unreachable();
-            return 0.0L;
+            return (f80) interpreter_value_i64(value);
     }
 }
 
diff --git a/src/compiler/interpreter/value.h b/src/compiler/interpreter/value.h
index db902e5..852f1e1 100644
--- a/src/compiler/interpreter/value.h
+++ b/src/compiler/interpreter/value.h
@@ -89,13 +89,12 @@ void interpreter_value_to_str(InterpreterValue_T* value, char* dst, size_t len);
 bool interpreter_value_is_falsy(InterpreterValue_T value);
 i64 interpreter_value_i64(InterpreterValue_T* value);
 f80 interpreter_value_f80(InterpreterValue_T* value);
+bool interpreter_values_equal(InterpreterValue_T a, InterpreterValue_T b);
 
 ASTNode_T* ast_node_from_interpreter_value(Context_T* context, InterpreterValue_T* value, Token_T* tok);
 
 #define interpreter_value_is_truthy(value) (!interpreter_value_is_falsy((value)))
 
-#define interpreter_values_equal(a, b) (memcmp(&(a).value, &(b).value, sizeof(InterpreterValueUnion_T)) == 0)
-
 #define ConstInterpreterValueList_M(sz) struct { \
         size_t size;                             \
         size_t allocated;                        \
-- 
2.43.0


From 1e59b6c7b071a297656629dc5ed0ea669e058ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:36 +0000
Subject: [PATCH 42/69] fix: interpreter: operands of different types are
 converted to a common type

---
 src/compiler/interpreter/interpreter.c | 30 ++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/compiler/interpreter/interpreter.c b/src/compiler/interpreter/interpreter.c
index 421fe7e..26b56a2 100644
--- a/src/compiler/interpreter/interpreter.c
+++ b/src/compiler/interpreter/interpreter.c
@@ -89,9 +89,12 @@
 #define COMPARISON_OP_CASE(node_kind, op) case node_kind: do {      \
     InterpreterValue_T left_value = interpreter_eval_expr(ictx, expr->left);    \
     InterpreterValue_T right_value = interpreter_eval_expr(ictx, expr->right);  \
+    convert_to_common_type(ictx, &left_value, &right_value);        \
     switch(left_value.type->kind) {                                 \
         case TY_F32: case TY_F64: case TY_F80:                      \
             return BOOL_VALUE(interpreter_value_f80(&left_value) op interpreter_value_f80(&right_value)); \
+        case TY_U64:                                                \
+            return BOOL_VALUE(left_value.value.uinteger.u64 op right_value.value.uinteger.u64); \
         default:                                                    \
             return BOOL_VALUE(interpreter_value_i64(&left_value) op interpreter_value_i64(&right_value)); \
     }} while(0)
@@ -99,6 +102,7 @@
 #define INTEGER_INFIX_OP_CASE(node_kind, op) case node_kind: do {       \
         InterpreterValue_T left_value = interpreter_eval_expr(ictx, expr->left);    \
         InterpreterValue_T right_value = interpreter_eval_expr(ictx, expr->right);  \
+        convert_to_common_type(ictx, &left_value, &right_value);        \
         switch(left_value.type->kind) {                                 \
             INTLIKE_INFIX_OP_CASES(left_value, right_value, op);        \
             default: unreachable();                                     \
@@ -177,6 +181,26 @@ static InterpreterValue_T (*const type_cast_map[TY_KIND_LEN][TY_KIND_LEN])(Inter
     [TY_PTR]  = { PRIMITIVE_MAP_ENTRY(Ptr) }
 };
 
+// implicit conversion of a value to a (primitive) type
+static InterpreterValue_T convert_value(InterpreterContext_T* ictx, InterpreterValue_T value, const ASTType_T* type)
+{
+    ASTTypeKind_T from = value.type->kind, to = unpack((ASTType_T*) type)->kind;
+    if(from == to || !type_cast_map[from][to])
+        return value;
+    return type_cast_map[from][to](ictx, &value);
+}
+
+// the type a binary operation is carried out with: the larger one of its operands' types, floating point types first
+static void convert_to_common_type(InterpreterContext_T* ictx, InterpreterValue_T* left, InterpreterValue_T* right)
+{
+    bool left_float = is_flonum((ASTType_T*) left->type), right_float = is_flonum((ASTType_T*) right->type);
+    bool use_right = left_float == right_float ? right->type->size > left->type->size : right_float;
+    if(use_right)
+        *left = convert_value(ictx, *left, right->type);
+    else
+        *right = convert_value(ictx, *right, left->type);
+}
+
 static void eval_stmt(InterpreterContext_T* ictx, ASTNode_T* stmt);
 static InterpreterValue_T call_fn(InterpreterContext_T* ictx, const ASTObj_T* fn, const InterpreterValueList_T* args);
 
@@ -402,6 +426,7 @@ static inline InterpreterValue_T eval_add(InterpreterContext_T* ictx, ASTNode_T*
         return left_value;
     }
 
+    convert_to_common_type(ictx, &left_value, &right_value);
     switch(left_value.type->kind)
     {
         NUMERIC_INFIX_OP_CASES(left_value, right_value, +);
@@ -430,6 +455,7 @@ static inline InterpreterValue_T eval_sub(InterpreterContext_T* ictx, ASTNode_T*
         return left_value;
     }
 
+    convert_to_common_type(ictx, &left_value, &right_value);
     switch(left_value.type->kind)
     {
         NUMERIC_INFIX_OP_CASES(left_value, right_value, -);
@@ -569,6 +595,7 @@ InterpreterValue_T interpreter_eval_expr(InterpreterContext_T* ictx, ASTNode_T*
         {
             InterpreterValue_T left_value = interpreter_eval_expr(ictx, expr->left);
             InterpreterValue_T right_value = interpreter_eval_expr(ictx, expr->right);
+            convert_to_common_type(ictx, &left_value, &right_value);
             switch(left_value.type->kind)
             {
                 NUMERIC_INFIX_OP_CASES(left_value, right_value, *);
@@ -580,6 +607,7 @@ InterpreterValue_T interpreter_eval_expr(InterpreterContext_T* ictx, ASTNode_T*
         {
             InterpreterValue_T left_value = interpreter_eval_expr(ictx, expr->left);
             InterpreterValue_T right_value = interpreter_eval_expr(ictx, expr->right);
+            convert_to_common_type(ictx, &left_value, &right_value);
             switch(left_value.type->kind)
             {
                 NUMERIC_INFIX_OP_CASES(left_value, right_value, /);
@@ -675,12 +703,14 @@ InterpreterValue_T interpreter_eval_expr(InterpreterContext_T* ictx, ASTNode_T*
         {
             InterpreterValue_T left_value = interpreter_eval_expr(ictx, expr->left);
             InterpreterValue_T right_value = interpreter_eval_expr(ictx, expr->right);
+            convert_to_common_type(ictx, &left_value, &right_value);
             return BOOL_VALUE(interpreter_values_equal(left_value, right_value));
         }
         case ND_NE:
         {
             InterpreterValue_T left_value = interpreter_eval_expr(ictx, expr->left);
             InterpreterValue_T right_value = interpreter_eval_expr(ictx, expr->right);
+            convert_to_common_type(ictx, &left_value, &right_value);
             return BOOL_VALUE(!interpreter_values_equal(left_value, right_value));
         }
         COMPARISON_OP_CASE(ND_LT, <);
-- 
2.43.0


From 308ff3cb6c28f7ca618965064dceb05ea0b9a6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:39 +0000
Subject: [PATCH 43/69] fix: initial values of globals are emitted in the
 representation of the declared type

---
 src/compiler/codegen/asm/asm_codegen.c |   3 +-
 src/compiler/codegen/asm/relocation.c  | 116 ++++++++++++++++---------
 src/compiler/codegen/asm/relocation.h  |   2 +-
 3 files changed, 76 insertions(+), 45 deletions(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index 62c83eb..b793be6 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -525,8 +525,7 @@ static void asm_assign_lvar_offsets(ASMCodegenData_T* cg, List_T* objs)
 static void asm_gen_relocation(ASMCodegenData_T* cg, ASTObj_T* var)
 {
     ASTNode_T* value = var->value;
-    size_t target_size = var->data_type->size;
-    gen_relocation(cg, value, target_size);
+    gen_relocation(cg, value, var->data_type);
 }
 
 static void asm_gen_data(ASMCodegenData_T* cg, List_T* objs)
diff --git a/src/compiler/codegen/asm/relocation.c b/src/compiler/codegen/asm/relocation.c
index e7fbafd..b129c4c 100644
--- a/src/compiler/codegen/asm/relocation.c
+++ b/src/compiler/codegen/asm/relocation.c
@@ -72,12 +72,67 @@ u8 escape_sequence(char c, const char* str, size_t* i)
     }
 }
 
-size_t gen_relocation(ASMCodegenData_T* cg, ASTNode_T* node, size_t target_size)
+static size_t gen_float(ASMCodegenData_T* cg, ASTTypeKind_T kind, f80 value)
+{
+    union {
+        f32 f32;
+        f64 f64;
+        f80 f80;
+        u32 u32;
+        u64 u64[2];
+    } conv = {.u64 = {0, 0}};
+
+    switch(kind)
+    {
+        case TY_F32:
+            conv.f32 = value;
+            asm_println(cg, "  .4byte %u", conv.u32);
+            return F32_S;
+        case TY_F64:
+            conv.f64 = value;
+            asm_println(cg, "  .8byte %lu", conv.u64[0]);
+            return F64_S;
+        default:
+            conv.f80 = value;
+            asm_println(cg, "  .8byte %lu", conv.u64[0]);
+            asm_println(cg, "  .2byte %lu", conv.u64[1] & 0xffff);
+            return F80_S;
+    }
+}
+
+// a number, in the representation of the type it initializes
+static size_t gen_int_const(ASMCodegenData_T* cg, ASTType_T* type, u64 value, bool is_signed)
+{
+    if(is_flonum(type))
+        return gen_float(cg, type->kind, is_signed ? (f80) (i64) value : (f80) value);
+
+    if(type->kind == TY_BOOL)
+        value = value != 0;
+    else if(type->size < sizeof(u64))
+        value &= (1ul << (type->size * 8)) - 1;
+
+    size_t size_generated = asm_gen_const_data(cg, type->size);
+    asm_println(cg, "%lu", value);
+    return size_generated;
+}
+
+static size_t gen_float_const(ASMCodegenData_T* cg, ASTType_T* type, f64 value)
+{
+    if(is_flonum(type))
+        return gen_float(cg, type->kind, value);
+    if(type->kind == TY_BOOL)
+        return gen_int_const(cg, type, value != 0, false);
+    return gen_int_const(cg, type, value < 0 ? (u64) (i64) value : (u64) value, false);
+}
+
+size_t gen_relocation(ASMCodegenData_T* cg, ASTNode_T* node, ASTType_T* target_type)
 {
     if(!node)
         return 0;
     
     size_t size_generated = 0;
+    size_t target_size = target_type->size;
+    target_type = unpack(target_type);
     //memset(buffer, 0, target_size);
     
     switch(node->kind) 
@@ -95,59 +150,36 @@ size_t gen_relocation(ASMCodegenData_T* cg, ASTNode_T* node, size_t target_size)
             break;
 
         case ND_CHAR:
-            size_generated = asm_gen_const_data(cg, target_size);
-            asm_println(cg, "%u", node->int_val);
+        case ND_INT:
+            size_generated = gen_int_const(cg, target_type, (i64) node->int_val, true);
             break;
 
         case ND_BOOL:
-            size_generated = asm_gen_const_data(cg, target_size);
-            asm_println(cg, "%u", node->bool_val);
-            break;
-
-        case ND_INT:
-            size_generated = asm_gen_const_data(cg, target_size);
-            asm_println(cg, "%u", node->int_val);
+            size_generated = gen_int_const(cg, target_type, node->bool_val, false);
             break;
 
         case ND_LONG:
-            size_generated = asm_gen_const_data(cg, target_size);
-            asm_println(cg, "%zu", node->long_val);
+            size_generated = gen_int_const(cg, target_type, node->long_val, true);
             break;
 
         case ND_ULONG:
-            size_generated = asm_gen_const_data(cg, target_size);
-            asm_println(cg, "%zu", node->long_val);
+            size_generated = gen_int_const(cg, target_type, node->ulong_val, false);
             break;
 
         case ND_FLOAT:
-        {
-            union {
-                f32 in;
-                uint32_t out;
-            } conv = {.in = node->float_val};
-
-            size_generated = asm_gen_const_data(cg, target_size);
-            asm_println(cg, "%u", conv.out);
-        } break;
+            size_generated = gen_float_const(cg, target_type, node->float_val);
+            break;
 
         case ND_DOUBLE: 
-        {
-            union {
-                f64 in;
-                uint64_t out;
-            } conv = {.in = node->double_val};
-
-            size_generated = asm_gen_const_data(cg, target_size);
-            asm_println(cg, "%zu", conv.out);
-        } break;
+            size_generated = gen_float_const(cg, target_type, node->double_val);
+            break;
 
         case ND_ARRAY:
         {
             size_generated = asm_gen_const_data(cg, PTR_S);
             asm_println(cg, "%zu", node->data_type->num_indices);
-            size_t index_size = node->data_type->base->size;
             for(size_t i = 0; i < node->args->size; i++)
-                size_generated += gen_relocation(cg, node->args->items[i], index_size);
+                size_generated += gen_relocation(cg, node->args->items[i], node->data_type->base);
         } break;
 
         case ND_STRUCT:
@@ -156,25 +188,25 @@ size_t gen_relocation(ASMCodegenData_T* cg, ASTNode_T* node, size_t target_size)
             for(size_t i = 0; i < node->args->size; i++)
             {
                 ASTNode_T* arg = node->args->items[i];
-                size_t offset = ((ASTNode_T*) struct_type->members->items[i])->offset;
+                ASTNode_T* member = struct_type->members->items[i];
+                size_t offset = member->offset;
 
                 if(size_generated < offset)
+                {
                     asm_println(cg, "  .zero %zu", offset - size_generated); // pad correctly
-                size_generated += gen_relocation(cg, arg, arg->data_type->size);
+                    size_generated = offset;
+                }
+                size_generated += gen_relocation(cg, arg, member->data_type);
             }  
         } break;
         
         case ND_CLOSURE:
-            size_generated = gen_relocation(cg, node->expr, target_size);
+            size_generated = gen_relocation(cg, node->exprs->items[node->exprs->size - 1], target_type);
             break;
         
         case ND_NEG:
-            node->right->int_val = -node->right->int_val; // temporary
-            size_generated = gen_relocation(cg, node->right, target_size);
-            break;
-
         case ND_CAST:
-            size_generated = gen_relocation(cg, node->left, node->data_type->size);
+            size_generated = gen_relocation(cg, node->left, node->data_type);
             break;
         
         case ND_ID:
diff --git a/src/compiler/codegen/asm/relocation.h b/src/compiler/codegen/asm/relocation.h
index 3e14763..555091d 100644
--- a/src/compiler/codegen/asm/relocation.h
+++ b/src/compiler/codegen/asm/relocation.h
@@ -6,6 +6,6 @@
 #include "asm_codegen.h"
 
 u8 escape_sequence(char c, const char* str, size_t* i);
-size_t gen_relocation(ASMCodegenData_T* cg, ASTNode_T* node, size_t target_size);
+size_t gen_relocation(ASMCodegenData_T* cg, ASTNode_T* node, ASTType_T* target_type);
 
 #endif
-- 
2.43.0


From 832c1d3ee5574d1caaaf3a98dc998eb98cdc9c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:41 +0000
Subject: [PATCH 44/69] fix: constant expressions: elements of literals are
 evaluated, division divides

---
 src/compiler/optimizer/constexpr.c | 38 +++++++++++++++++++++++-------
 src/compiler/parser/validator.c    |  2 +-
 2 files changed, 30 insertions(+), 10 deletions(-)

diff --git a/src/compiler/optimizer/constexpr.c b/src/compiler/optimizer/constexpr.c
index 778efd2..5a4427f 100644
--- a/src/compiler/optimizer/constexpr.c
+++ b/src/compiler/optimizer/constexpr.c
@@ -1,5 +1,6 @@
 #include "constexpr.h"
 #include "ast/ast.h"
+#include "codegen/codegen_utils.h"
 #include "error/error.h"
 #include "interpreter/interpreter.h"
 #include "interpreter/value.h"
@@ -22,8 +23,6 @@ static bool skip_eval_constexpr(ASTNodeKind_T kind) {
         case ND_LONG:
         case ND_ULONG:
         case ND_FLOAT:
-        case ND_ARRAY: // FIXME
-        case ND_STRUCT: // FIXME
         case ND_CHAR:
         case ND_BOOL:
             return true;
@@ -36,6 +35,19 @@ ASTNode_T* eval_constexpr(ConstexprResolver_T* resolver, ASTNode_T* expr)
 {
     if(skip_eval_constexpr(expr->kind))
         return expr;
+
+    if(expr->kind == ND_ARRAY || expr->kind == ND_STRUCT)
+    {
+        // evaluate the numbers in aggregates; addresses (of functions, objects) stay as they are
+        for(size_t i = 0; i < expr->args->size; i++)
+        {
+            ASTNode_T* arg = expr->args->items[i];
+            if(arg->kind == ND_ARRAY || arg->kind == ND_STRUCT || (arg->data_type && is_numeric(unpack(arg->data_type))))
+                expr->args->items[i] = eval_constexpr(resolver, arg);
+        }
+        return expr;
+    }
+
     InterpreterValue_T value = interpreter_eval_expr(resolver, expr);
     return ast_node_from_interpreter_value(resolver->context, &value, expr->tok);
 }
@@ -54,9 +66,13 @@ static u64 const_u64_infix(Context_T* context, ASTNode_T* node)
         case ND_MUL:
             return a * b;
         case ND_DIV:
-            return a - b;
         case ND_MOD:
-            return a % b;
+            if(!b)
+            {
+                throw_error(context, ERR_CONSTEXPR, node->tok, "division by zero");
+                return 0;
+            }
+            return node->kind == ND_DIV ? a / b : a % b;
         case ND_EQ:
             return a == b;
         case ND_NE:
@@ -91,7 +107,7 @@ static u64 const_u64_infix(Context_T* context, ASTNode_T* node)
 
 static i64 const_i64_prefix(Context_T* context, ASTNode_T* node)
 {
-    i64 a = const_u64(context, node->right);
+    i64 a = const_i64(context, node->right);
 
     switch(node->kind)
     {
@@ -127,7 +143,7 @@ u64 const_u64(Context_T* context, ASTNode_T* node)
         case ND_BOOL:
             return node->bool_val;
         case ND_CHAR:
-            return node->str_val[0];
+            return node->int_val;
         case ND_NIL:
             return 0;
         case ND_ADD...ND_MOD:
@@ -165,9 +181,13 @@ static i64 const_i64_infix(Context_T* context, ASTNode_T* node)
         case ND_MUL:
             return a * b;
         case ND_DIV:
-            return a - b;
         case ND_MOD:
-            return a % b;
+            if(!b)
+            {
+                throw_error(context, ERR_CONSTEXPR, node->tok, "division by zero");
+                return 0;
+            }
+            return node->kind == ND_DIV ? a / b : a % b;
         case ND_EQ:
             return a == b;
         case ND_NE:
@@ -219,7 +239,7 @@ i64 const_i64(Context_T* context, ASTNode_T* node)
         case ND_BOOL:
             return node->bool_val;
         case ND_CHAR:
-            return node->str_val[0];
+            return node->int_val;
         case ND_NIL:
             return 0;
         case ND_ADD...ND_MOD:
diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index d0ca183..9e8b3e2 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -2295,7 +2295,7 @@ static void iter_validate_c_array_type(ASTType_T* ca_type, va_list args)
 {
     GET_VALIDATOR(args);
     if(ca_type->num_indices_node)
-        ca_type->num_indices = const_u64(v->context, ca_type->num_indices_node);
+        ca_type->num_indices = const_u64(v->context, eval_constexpr(&v->constexpr_resolver, ca_type->num_indices_node));
 }
 
 static void iter_validate_enum_type(ASTType_T* enum_type, va_list args)
-- 
2.43.0


From 7d970e7248ee256dca09ab4f16fc56e6834130ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:44 +0000
Subject: [PATCH 45/69] fix: character literals are decoded once, from their
 token

---
 src/compiler/parser/parser.c    |  5 -----
 src/compiler/parser/validator.c | 10 +++++-----
 2 files changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/compiler/parser/parser.c b/src/compiler/parser/parser.c
index e2289f7..2736044 100644
--- a/src/compiler/parser/parser.c
+++ b/src/compiler/parser/parser.c
@@ -2013,11 +2013,6 @@ static ASTNode_T* parse_char_lit(Parser_T* p)
 {
     ASTNode_T* char_lit = init_ast_node(&p->context->raw_allocator, ND_CHAR, p->tok);
 
-    if(strlen(p->tok->value) > 1)
-        char_lit->str_val = strdup((char[]){'\\', p->tok->value[1], '\0'});
-    else 
-        char_lit->str_val = strdup((char[]){p->tok->value[0], '\0'});
-    
     char_lit->is_constant = true; 
     char_lit->data_type = (ASTType_T*) primitives[TY_CHAR];
 
diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index 9e8b3e2..d268426 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -1919,12 +1919,13 @@ static void iter_validate_char_lit(ASTNode_T* ch, va_list args)
 {
      GET_VALIDATOR(args);
 
-    // check for invalid escape sequences and evaluate them
-    char c = ch->str_val[0];
+    // check for invalid escape sequences and evaluate them (this may happen more than once per literal)
+    const char* str = ch->tok->value;
+    char c = str[0];
 
     if(c == '\\')
     {
-        switch(ch->str_val[1])
+        switch(str[1])
         {
             case 'a':
                 c = '\a';
@@ -1960,12 +1961,11 @@ static void iter_validate_char_lit(ASTNode_T* ch, va_list args)
                 c = '\0';
                 break;
             default:
-                throw_error(v->context, ERR_SYNTAX_ERROR_UNCR, ch->tok, "invalid escape sequence `\\%c` found in char literal", ch->str_val[1]);
+                throw_error(v->context, ERR_SYNTAX_ERROR_UNCR, ch->tok, "invalid escape sequence `\\%c` found in char literal", str[1]);
                 return;
         }
     }
     
-    free(ch->str_val);
     ch->int_val = c;
 }
 
-- 
2.43.0


From 0500bb57659320c17c556cb582746aaa9bc17d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:47 +0000
Subject: [PATCH 46/69] fix: interpreter: if without else, break and continue
 leave one loop, for without condition or step

---
 src/compiler/interpreter/interpreter.c | 28 +++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/compiler/interpreter/interpreter.c b/src/compiler/interpreter/interpreter.c
index 26b56a2..0631f95 100644
--- a/src/compiler/interpreter/interpreter.c
+++ b/src/compiler/interpreter/interpreter.c
@@ -308,6 +308,13 @@ i32 interpreter_pass(Context_T* context, ASTProg_T* ast)
     return (i32) exit_code;
 }
 
+// `break` and `continue` only concern the innermost loop
+static inline void leave_loop(InterpreterContext_T* ictx)
+{
+    ictx->broken = false;
+    ictx->continued = false;
+}
+
 static void eval_stmt(InterpreterContext_T* ictx, ASTNode_T* stmt)
 {
 //    printf(">> stmt %d\n", stmt->kind);
@@ -332,7 +339,10 @@ static void eval_stmt(InterpreterContext_T* ictx, ASTNode_T* stmt)
         break;
         case ND_IF:
             if(interpreter_value_is_falsy(interpreter_eval_expr(ictx, stmt->condition)))
-                eval_stmt(ictx, stmt->else_branch);
+            {
+                if(stmt->else_branch)
+                    eval_stmt(ictx, stmt->else_branch);
+            }
             else
                 eval_stmt(ictx, stmt->if_branch);
             break;
@@ -347,6 +357,7 @@ static void eval_stmt(InterpreterContext_T* ictx, ASTNode_T* stmt)
                 ictx->continued = false;
                 eval_stmt(ictx, stmt->body);
             };
+            leave_loop(ictx);
             break;
         case ND_WHILE:
             ictx->broken = false;
@@ -355,6 +366,7 @@ static void eval_stmt(InterpreterContext_T* ictx, ASTNode_T* stmt)
                 ictx->continued = false;
                 eval_stmt(ictx, stmt->body);
             }
+            leave_loop(ictx);
             break;
         case ND_DO_WHILE:
             ictx->broken = false;
@@ -362,19 +374,22 @@ static void eval_stmt(InterpreterContext_T* ictx, ASTNode_T* stmt)
                 ictx->continued = false;
                 eval_stmt(ictx, stmt->body);
             } while(!ictx->broken && !ictx->returned && interpreter_value_is_truthy(interpreter_eval_expr(ictx, stmt->condition)));
+            leave_loop(ictx);
             break;
         case ND_FOR:
             ictx->broken = false;
             if(stmt->init_stmt)
                 eval_stmt(ictx, stmt->init_stmt);
-            while(interpreter_value_is_truthy(interpreter_eval_expr(ictx, stmt->condition)))
+            while(!stmt->condition || interpreter_value_is_truthy(interpreter_eval_expr(ictx, stmt->condition)))
             {
                 ictx->continued = false;
                 eval_stmt(ictx, stmt->body);
                 if(ictx->broken || ictx->returned)
                     break;
-                interpreter_eval_expr(ictx, stmt->expr);
+                if(stmt->expr)
+                    interpreter_eval_expr(ictx, stmt->expr);
             }
+            leave_loop(ictx);
             break;
         // TODO: ND_FOR_RANGE
         case ND_CONTINUE:
@@ -390,16 +405,19 @@ static void eval_stmt(InterpreterContext_T* ictx, ASTNode_T* stmt)
             for(size_t i = 0; i < stmt->cases->size; i++)
             {
                 ASTNode_T* case_stmt = stmt->cases->items[i];
-                InterpreterValue_T case_condition = interpreter_eval_expr(ictx, case_stmt->condition);
-                if(interpreter_values_equal(condition, case_condition))
+                InterpreterValue_T subject = condition, case_condition = interpreter_eval_expr(ictx, case_stmt->condition);
+                convert_to_common_type(ictx, &subject, &case_condition);
+                if(interpreter_values_equal(subject, case_condition))
                 {
                     eval_stmt(ictx, case_stmt->body);
+                    ictx->broken = false; // `break` leaves the match statement
                     return;
                 }
             }
 
             if(stmt->default_case)
                 eval_stmt(ictx, stmt->default_case->body);
+            ictx->broken = false;
             break;
         }
         case ND_MATCH_TYPE:
-- 
2.43.0


From 1c96aa04b53a3532bfa32123e28e63e457564c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:49 +0000
Subject: [PATCH 47/69] fix: interpreter: returned, assigned and passed values,
 recursion, string values

---
 src/compiler/interpreter/interpreter.c | 91 +++++++++++++++++++++-----
 src/compiler/interpreter/value.c       |  4 +-
 2 files changed, 77 insertions(+), 18 deletions(-)

diff --git a/src/compiler/interpreter/interpreter.c b/src/compiler/interpreter/interpreter.c
index 0631f95..7ef58e7 100644
--- a/src/compiler/interpreter/interpreter.c
+++ b/src/compiler/interpreter/interpreter.c
@@ -184,10 +184,13 @@ static InterpreterValue_T (*const type_cast_map[TY_KIND_LEN][TY_KIND_LEN])(Inter
 // implicit conversion of a value to a (primitive) type
 static InterpreterValue_T convert_value(InterpreterContext_T* ictx, InterpreterValue_T value, const ASTType_T* type)
 {
-    ASTTypeKind_T from = value.type->kind, to = unpack((ASTType_T*) type)->kind;
-    if(from == to || !type_cast_map[from][to])
+    type = unpack((ASTType_T*) type);
+    ASTTypeKind_T from = value.type->kind;
+    if(from == type->kind || !type_cast_map[from][type->kind])
         return value;
-    return type_cast_map[from][to](ictx, &value);
+    value = type_cast_map[from][type->kind](ictx, &value);
+    value.type = type;
+    return value;
 }
 
 // the type a binary operation is carried out with: the larger one of its operands' types, floating point types first
@@ -220,6 +223,8 @@ void init_interpreter_context(InterpreterContext_T* ictx, Context_T* context, AS
 
     ictx->string_literals = hashmap_init();
     ictx->broken = false;
+    ictx->continued = false;
+    ictx->returned = false;
 
     // assure that address 0 is always occupied
     u8 null_byte = 0;
@@ -308,6 +313,45 @@ i32 interpreter_pass(Context_T* context, ASTProg_T* ast)
     return (i32) exit_code;
 }
 
+static bool case_matches(InterpreterContext_T* ictx, ASTNodeKind_T mode, InterpreterValue_T subject, InterpreterValue_T value)
+{
+    convert_to_common_type(ictx, &subject, &value);
+    if(mode == 0 || mode == ND_EQ)
+        return interpreter_values_equal(subject, value);
+
+    bool less, greater;
+    if(is_flonum((ASTType_T*) subject.type))
+    {
+        less = interpreter_value_f80(&subject) < interpreter_value_f80(&value);
+        greater = interpreter_value_f80(&subject) > interpreter_value_f80(&value);
+    }
+    else if(subject.type->kind == TY_U64)
+    {
+        less = subject.value.uinteger.u64 < value.value.uinteger.u64;
+        greater = subject.value.uinteger.u64 > value.value.uinteger.u64;
+    }
+    else
+    {
+        less = interpreter_value_i64(&subject) < interpreter_value_i64(&value);
+        greater = interpreter_value_i64(&subject) > interpreter_value_i64(&value);
+    }
+
+    switch(mode)
+    {
+        case ND_LT:
+            return less;
+        case ND_LE:
+            return less || interpreter_values_equal(subject, value);
+        case ND_GT:
+            return greater;
+        case ND_GE:
+            return greater || interpreter_values_equal(subject, value);
+        default:
+            unreachable();
+            return false;
+    }
+}
+
 // `break` and `continue` only concern the innermost loop
 static inline void leave_loop(InterpreterContext_T* ictx)
 {
@@ -323,8 +367,8 @@ static void eval_stmt(InterpreterContext_T* ictx, ASTNode_T* stmt)
         case ND_NOOP:
             break;
         case ND_RETURN:
-            ictx->returned = true;
             ictx->return_value = stmt->return_val ? interpreter_eval_expr(ictx, stmt->return_val) : VOID_VALUE;
+            ictx->returned = true;
             break;
         case ND_EXPR_STMT:
             interpreter_eval_expr(ictx, stmt->expr);
@@ -405,9 +449,8 @@ static void eval_stmt(InterpreterContext_T* ictx, ASTNode_T* stmt)
             for(size_t i = 0; i < stmt->cases->size; i++)
             {
                 ASTNode_T* case_stmt = stmt->cases->items[i];
-                InterpreterValue_T subject = condition, case_condition = interpreter_eval_expr(ictx, case_stmt->condition);
-                convert_to_common_type(ictx, &subject, &case_condition);
-                if(interpreter_values_equal(subject, case_condition))
+                InterpreterValue_T case_condition = interpreter_eval_expr(ictx, case_stmt->condition);
+                if(case_matches(ictx, case_stmt->mode, condition, case_condition))
                 {
                     eval_stmt(ictx, case_stmt->body);
                     ictx->broken = false; // `break` leaves the match statement
@@ -551,9 +594,8 @@ InterpreterValue_T interpreter_eval_expr(InterpreterContext_T* ictx, ASTNode_T*
             if(offset)
                 return PTR_VALUE(offset, char_ptr_type);
 
-            InterpreterValue_T addr = push_str_lit(ictx, expr->str_val);
-            hashmap_put(ictx->string_literals, expr->str_val, (void*) addr.value.ptr);
-            return addr;
+            hashmap_put(ictx->string_literals, expr->str_val, expr->str_val);
+            return PTR_VALUE(expr->str_val, char_ptr_type);
         }
         case ND_FLOAT:
             return F32_VALUE(expr->float_val);
@@ -662,8 +704,10 @@ InterpreterValue_T interpreter_eval_expr(InterpreterContext_T* ictx, ASTNode_T*
         }
         case ND_ASSIGN:
         {
-            LValue_T dest = eval_lvalue(ictx, expr->left);
+            // evaluating a call may move the stack, so the destination comes last
             InterpreterValue_T value = interpreter_eval_expr(ictx, expr->right);
+            LValue_T dest = eval_lvalue(ictx, expr->left);
+            value = convert_value(ictx, value, dest.type);
             assign_lvalue(dest, &value);
             return value;
         }
@@ -697,7 +741,9 @@ InterpreterValue_T interpreter_eval_expr(InterpreterContext_T* ictx, ASTNode_T*
                 case NO_CAST_INT: // no cast needed
                     return value;
                 default:
-                    return cast_fn(ictx, &value);
+                    value = cast_fn(ictx, &value);
+                    value.type = to;
+                    return value;
             }
         }
         case ND_NOT:
@@ -770,17 +816,21 @@ static InterpreterValue_T call_fn(InterpreterContext_T* ictx, const ASTObj_T* fn
     //    printf(COLOR_BOLD_CYAN ">>> Entering %s(%zu)\n" COLOR_RESET, fn->id->callee, args->size);
     
     const size_t stack_size_before = ictx->stack->size;
+    // the function may be active already, its frame is restored afterwards
+    i32* caller_offsets = malloc((args->size + fn->objs->size + 1) * sizeof(i32));
     for(size_t i = 0; i < args->size; i++) {
-        const InterpreterValue_T* arg_value = &args->data[i];
         ASTObj_T* arg = fn->args->items[i];
+        const InterpreterValue_T arg_value = convert_value(ictx, args->data[i], arg->data_type);
+        caller_offsets[i] = arg->offset;
         arg->offset = ictx->stack->size;
-        interpreter_stack_push(&ictx->stack, &arg_value->value, arg->data_type->size);
+        interpreter_stack_push(&ictx->stack, &arg_value.value, arg->data_type->size);
     }
 
     size_t stack_size = ictx->stack->size;
     for(size_t i = 0; i < fn->objs->size; i++)
     {
         ASTObj_T* local = fn->objs->items[i];
+        caller_offsets[args->size + i] = local->offset;
         stack_size = align_to(stack_size, local->data_type->align);
         local->offset = stack_size;
         stack_size += local->data_type->size;
@@ -791,13 +841,19 @@ static InterpreterValue_T call_fn(InterpreterContext_T* ictx, const ASTObj_T* fn
     
     eval_stmt(ictx, fn->body);
 
+    for(size_t i = 0; i < args->size; i++)
+        ((ASTObj_T*) fn->args->items[i])->offset = caller_offsets[i];
+    for(size_t i = 0; i < fn->objs->size; i++)
+        ((ASTObj_T*) fn->objs->items[i])->offset = caller_offsets[args->size + i];
+    free(caller_offsets);
+
     interpreter_stack_shrink_to(ictx->stack, stack_size_before);
 //    printf(COLOR_BOLD_CYAN "<<<\n" COLOR_RESET);
     ictx->recursion_depth--;
 
     if(ictx->returned) {
         ictx->returned = false;     
-        return ictx->return_value;
+        return convert_value(ictx, ictx->return_value, fn->return_type);
     }
     return VOID_VALUE;
 }
@@ -873,6 +929,7 @@ static LValue_T lvalue_from_id(InterpreterContext_T* ictx, ASTObj_T* obj, ASTTyp
 
 static InterpreterValue_T load_value(LValue_T lvalue)
 { 
+    lvalue.type = unpack((ASTType_T*) lvalue.type);
     switch(lvalue.type->kind) {
         case TY_I8:
             return INT_VALUE(TY_I8, i8, *(i8*) lvalue.ptr);
@@ -896,6 +953,8 @@ static InterpreterValue_T load_value(LValue_T lvalue)
             return FLOAT_VALUE(TY_F64, f64, *(f64*) lvalue.ptr);
         case TY_F80:
             return FLOAT_VALUE(TY_F80, f80, *(f80*) lvalue.ptr);
+        case TY_ENUM:
+            return (InterpreterValue_T) {.type = lvalue.type, .value = {.integer = {.i32 = *(i32*) lvalue.ptr}}};
         case TY_BOOL:
             return BOOL_VALUE(*(bool*) lvalue.ptr);
         case TY_CHAR:
@@ -903,7 +962,7 @@ static InterpreterValue_T load_value(LValue_T lvalue)
         case TY_VOID:
             return VOID_VALUE;
         case TY_PTR:
-            return PTR_VALUE(*(void**) lvalue.ptr, lvalue.type->base);
+            return PTR_VALUE(*(void**) lvalue.ptr, lvalue.type);
         case TY_FN:
             return (InterpreterValue_T){.type = lvalue.type, .value = (InterpreterValueUnion_T){.fn_obj = lvalue.ptr} };
         default:
diff --git a/src/compiler/interpreter/value.c b/src/compiler/interpreter/value.c
index f14efb3..3779630 100644
--- a/src/compiler/interpreter/value.c
+++ b/src/compiler/interpreter/value.c
@@ -215,7 +215,7 @@ ASTNode_T* ast_node_from_interpreter_value(Context_T* context, InterpreterValue_
         case TY_PTR:
             if(unpack(node->data_type->base)->kind == TY_CHAR)
             {
-                node->kind = ND_CHAR;
+                node->kind = ND_STR;
                 node->str_val = strdup((const char*) value->value.ptr);
                 break;
             }
@@ -248,7 +248,7 @@ size_t interpreter_value_list_push(InterpreterValueList_T** list, InterpreterVal
     // cannot push to constant lists
     assert((*list)->allocated);
 
-    if((*list))
+    if((*list)->size >= (*list)->allocated)
     {
         (*list)->allocated *= 2;
         *list = realloc(*list, (*list)->allocated * sizeof(InterpreterValue_T) + sizeof(InterpreterValueList_T)); // TODO: find better allocation curve
-- 
2.43.0


From 67591f875304b816f9ccf38e9a06a715a709a9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:52 +0000
Subject: [PATCH 48/69] fix: local variables can be used in [constexpr]
 functions

---
 src/compiler/parser/validator.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index d268426..2447446 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -548,6 +548,8 @@ static void register_local_var(ASTObj_T* local, va_list args)
     GET_VALIDATOR(args);
     if(v->current_obj->kind == OBJ_FUNCTION && v->current_obj->va_area == local)
         return;
+
+    local->constexpr = v->current_obj->constexpr;
     scope_register_obj(v, local);
 }
 
-- 
2.43.0


From c8e678cd3f505cde435437ccc58987fc58ce0855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:55 +0000
Subject: [PATCH 49/69] fix: interpreter: constants refer to other constants in
 any order, and have their declared type

---
 src/compiler/interpreter/interpreter.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/compiler/interpreter/interpreter.c b/src/compiler/interpreter/interpreter.c
index 7ef58e7..a66a047 100644
--- a/src/compiler/interpreter/interpreter.c
+++ b/src/compiler/interpreter/interpreter.c
@@ -876,14 +876,18 @@ static LValue_T eval_lvalue(InterpreterContext_T* ictx, ASTNode_T* node)
 
 static void push_global(InterpreterContext_T* ictx, ASTObj_T* global)
 {
-    global->offset = interpreter_stack_align_to(&ictx->global_storage, global->data_type->align);
     if(global->value) 
     {
-        InterpreterValue_T value = interpreter_eval_expr(ictx, global->value);
+        // evaluating the value can store other globals
+        InterpreterValue_T value = convert_value(ictx, interpreter_eval_expr(ictx, global->value), global->data_type);
+        global->offset = interpreter_stack_align_to(&ictx->global_storage, global->data_type->align);
         interpreter_stack_push(&ictx->global_storage, &value.value, MIN(global->data_type->size, value.type->size));
     }
     else
+    {
+        global->offset = interpreter_stack_align_to(&ictx->global_storage, global->data_type->align);
         interpreter_stack_grow(&ictx->global_storage, global->data_type->size);
+    }
 }
 
 static LValue_T lvalue_from_id(InterpreterContext_T* ictx, ASTObj_T* obj, ASTType_T* ty, Token_T* tok)
-- 
2.43.0


From 46a3a2ebf52542a9d77b7bafc840bb5b53f7c546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:27 +0000
Subject: [PATCH 50/69] fix: C array initial values have no length in front,
 padding of nested ones is counted once

---
 src/compiler/codegen/asm/relocation.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/compiler/codegen/asm/relocation.c b/src/compiler/codegen/asm/relocation.c
index b129c4c..95f2fb6 100644
--- a/src/compiler/codegen/asm/relocation.c
+++ b/src/compiler/codegen/asm/relocation.c
@@ -176,10 +176,14 @@ size_t gen_relocation(ASMCodegenData_T* cg, ASTNode_T* node, ASTType_T* target_t
 
         case ND_ARRAY:
         {
-            size_generated = asm_gen_const_data(cg, PTR_S);
-            asm_println(cg, "%zu", node->data_type->num_indices);
+            // C arrays have no length in front of the elements
+            if(target_type->kind != TY_C_ARRAY)
+            {
+                size_generated = asm_gen_const_data(cg, PTR_S);
+                asm_println(cg, "%zu", node->data_type->num_indices);
+            }
             for(size_t i = 0; i < node->args->size; i++)
-                size_generated += gen_relocation(cg, node->args->items[i], node->data_type->base);
+                size_generated += gen_relocation(cg, node->args->items[i], target_type->base ? target_type->base : node->data_type->base);
         } break;
 
         case ND_STRUCT:
@@ -257,7 +261,10 @@ size_t gen_relocation(ASMCodegenData_T* cg, ASTNode_T* node, ASTType_T* target_t
     }
 
     if(size_generated < target_size)
+    {
         asm_println(cg, "  .zero %zu", target_size - size_generated);
+        size_generated = target_size;
+    }
 
     return size_generated;
 }
-- 
2.43.0


From 51b45f5eb2878fcbfd4c49dcc1d96bfe00c66c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:57 +0000
Subject: [PATCH 51/69] fix: interpreter: nested pipes keep the outer value

---
 src/compiler/interpreter/interpreter.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/compiler/interpreter/interpreter.c b/src/compiler/interpreter/interpreter.c
index a66a047..44b2933 100644
--- a/src/compiler/interpreter/interpreter.c
+++ b/src/compiler/interpreter/interpreter.c
@@ -225,6 +225,7 @@ void init_interpreter_context(InterpreterContext_T* ictx, Context_T* context, AS
     ictx->broken = false;
     ictx->continued = false;
     ictx->returned = false;
+    ictx->pipe_value = VOID_VALUE;
 
     // assure that address 0 is always occupied
     u8 null_byte = 0;
@@ -615,8 +616,14 @@ InterpreterValue_T interpreter_eval_expr(InterpreterContext_T* ictx, ASTNode_T*
         case ND_ALIGNOF:
             return I64_VALUE(expr->the_type->align);
         case ND_PIPE:
+        {
+            // pipes can be nested: the outer value is needed again afterwards
+            InterpreterValue_T outer_value = ictx->pipe_value;
             ictx->pipe_value = interpreter_eval_expr(ictx, expr->left);
-            return interpreter_eval_expr(ictx, expr->right);
+            InterpreterValue_T value = interpreter_eval_expr(ictx, expr->right);
+            ictx->pipe_value = outer_value;
+            return value;
+        }
         case ND_HOLE:
             return ictx->pipe_value;    
         case ND_TERNARY:
-- 
2.43.0


From 771dc5cc116bbecc576561e1c8ff88e63bb889fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:06 +0000
Subject: [PATCH 52/69] fix: interpreter: pointers to local variables stay
 valid when the stack is full

---
 src/compiler/interpreter/interpreter.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/compiler/interpreter/interpreter.c b/src/compiler/interpreter/interpreter.c
index 44b2933..1e19c34 100644
--- a/src/compiler/interpreter/interpreter.c
+++ b/src/compiler/interpreter/interpreter.c
@@ -822,6 +822,16 @@ static InterpreterValue_T call_fn(InterpreterContext_T* ictx, const ASTObj_T* fn
 
     //    printf(COLOR_BOLD_CYAN ">>> Entering %s(%zu)\n" COLOR_RESET, fn->id->callee, args->size);
     
+    // objects of the callers must not move, there may be pointers to them
+    size_t frame_size = 0;
+    for(size_t i = 0; i < args->size; i++)
+        frame_size += ((ASTObj_T*) fn->args->items[i])->data_type->size;
+    for(size_t i = 0; i < fn->objs->size; i++)
+        frame_size += ((ASTObj_T*) fn->objs->items[i])->data_type->size + ((ASTObj_T*) fn->objs->items[i])->data_type->align;
+    InterpreterStack_T* caller_stack = ictx->stack;
+    if(caller_stack->size + frame_size >= caller_stack->allocated)
+        ictx->stack = init_interpreter_stack(MAX(frame_size * 2, BUFSIZ));
+
     const size_t stack_size_before = ictx->stack->size;
     // the function may be active already, its frame is restored afterwards
     i32* caller_offsets = malloc((args->size + fn->objs->size + 1) * sizeof(i32));
@@ -842,7 +852,7 @@ static InterpreterValue_T call_fn(InterpreterContext_T* ictx, const ASTObj_T* fn
         local->offset = stack_size;
         stack_size += local->data_type->size;
     }
-    interpreter_stack_grow(&ictx->stack, stack_size - stack_size_before);
+    interpreter_stack_grow(&ictx->stack, stack_size - ictx->stack->size);
 
 //    dump_stack(ictx->stack);
     
@@ -855,6 +865,11 @@ static InterpreterValue_T call_fn(InterpreterContext_T* ictx, const ASTObj_T* fn
     free(caller_offsets);
 
     interpreter_stack_shrink_to(ictx->stack, stack_size_before);
+    if(ictx->stack != caller_stack)
+    {
+        free_interpreter_stack(ictx->stack);
+        ictx->stack = caller_stack;
+    }
 //    printf(COLOR_BOLD_CYAN "<<<\n" COLOR_RESET);
     ictx->recursion_depth--;
 
-- 
2.43.0


From 84c481ecca2df3ece769ffba8aab5423f860bccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:51 +0000
Subject: [PATCH 53/69] fix: deferred statements do not change the result of
 the function

---
 src/compiler/codegen/asm/asm_codegen.c | 30 ++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index b793be6..96fd305 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -646,17 +646,35 @@ static void asm_gen_vtables(ASMCodegenData_T* cg)
     }
 }
 
-static void asm_gen_defer(ASMCodegenData_T* cg, List_T* deferred) 
+static void asm_gen_defer(ASMCodegenData_T* cg, List_T* deferred, ASTType_T* return_type)
 {
     if(!deferred || deferred->size == 0)
         return;
-    
-    asm_push(cg);
+
+    // the deferred statements must not change the result
+    bool returns_f80 = return_type && unpack(return_type)->kind == TY_F80;
+    asm_println(cg, "  sub $48, %%rsp");
+    asm_println(cg, "  mov %%rax, (%%rsp)");
+    asm_println(cg, "  mov %%rdx, 8(%%rsp)");
+    asm_println(cg, "  movsd %%xmm0, 16(%%rsp)");
+    asm_println(cg, "  movsd %%xmm1, 24(%%rsp)");
+    if(returns_f80)
+        asm_println(cg, "  fstpt 32(%%rsp)");
+    cg->depth += 6;
+
     for(size_t i = 0; i < deferred->size; i++)
     {
         asm_gen_stmt(cg, deferred->items[i]);
     }
-    asm_pop(cg, "%rax");
+
+    if(returns_f80)
+        asm_println(cg, "  fldt 32(%%rsp)");
+    asm_println(cg, "  movsd 24(%%rsp), %%xmm1");
+    asm_println(cg, "  movsd 16(%%rsp), %%xmm0");
+    asm_println(cg, "  mov 8(%%rsp), %%rdx");
+    asm_println(cg, "  mov (%%rsp), %%rax");
+    asm_println(cg, "  add $48, %%rsp");
+    cg->depth -= 6;
 }
 
 static void asm_gen_function_signature(ASMCodegenData_T* cg, const char* fn_name)
@@ -777,7 +795,7 @@ static void asm_gen_function(ASMCodegenData_T* cg, ASTObj_T* obj)
 
     // epilogue
     asm_println(cg, ".L.return.%s:", fn_name);
-    asm_gen_defer(cg, obj->deferred);
+    asm_gen_defer(cg, obj->deferred, obj->return_type);
     asm_println(cg, "  mov %%rbp, %%rsp");
     asm_println(cg, "  pop %%rbp");
     asm_println(cg, "  ret");
@@ -2984,7 +3002,7 @@ static void asm_gen_lambda(ASMCodegenData_T* cg, ASTObj_T* lambda_obj)
     cg->current_fn = prev;
 
     asm_println(cg, ".L.return.%s:", lambda_name);
-    asm_gen_defer(cg, lambda_obj->deferred);
+    asm_gen_defer(cg, lambda_obj->deferred, lambda_obj->return_type);
     asm_println(cg, "  pop %%rbp");
     asm_println(cg, "  ret");
 
-- 
2.43.0


From 3678ac3d1c4c1e64ba035f33d3460f4855e68e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:09 +0000
Subject: [PATCH 54/69] fix: closures: parameters passed on the stack

---
 src/compiler/codegen/asm/asm_codegen.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index 96fd305..47b2c78 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -2957,6 +2957,7 @@ static void asm_gen_lambda(ASMCodegenData_T* cg, ASTObj_T* lambda_obj)
 
     // save passed-by-register arguments to the stack
     i32 gp = 0, fp = 0;
+    i32 reg_gp = lambda->return_ptr ? 1 : 0, reg_fp = 0, top = 16;
 
     if(lambda->return_ptr)
         asm_store_gp(cg, gp++, lambda->return_ptr->offset, lambda->return_ptr->data_type->size);
@@ -2964,11 +2965,21 @@ static void asm_gen_lambda(ASMCodegenData_T* cg, ASTObj_T* lambda_obj)
     for(size_t j = 0; j < lambda->args->size; j++)
     {
         ASTObj_T* arg = lambda->args->items[j];
-        if(arg->offset > 0)
-            continue;
-                        
         ASTType_T* ty = unpack(arg->data_type);
 
+        // %rbp belongs to the enclosing function, so copy passed-by-stack arguments to their local slots
+        if(!asm_pass_by_reg(arg->data_type, &reg_gp, &reg_fp))
+        {
+            top = align_to(top, 8);
+            for(i32 k = 0; k < ty->size; k++)
+            {
+                asm_println(cg, "  mov %d(%%rsp), %%al", top + k);
+                asm_println(cg, "  mov %%al, %d(%%rbp)", arg->offset + k);
+            }
+            top += ty->size;
+            continue;
+        }
+
         switch(ty->kind)
         {
             case TY_DYN:
-- 
2.43.0


From 4073f174637336ced834e4d8561b72bee7d260c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:52 +0000
Subject: [PATCH 55/69] fix: lexer: a hexadecimal, octal or binary literal at
 the end of the file ends there

---
 src/compiler/lexer/lexer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/lexer/lexer.c b/src/compiler/lexer/lexer.c
index 15016e8..d18e6ae 100644
--- a/src/compiler/lexer/lexer.c
+++ b/src/compiler/lexer/lexer.c
@@ -296,7 +296,7 @@ static Token_T* lexer_get_int(Lexer_T* lexer, const char* digits, i32 base)
 
     *lexer->tmp_buffer = '\0';
 
-    while(strchr(digits, lexer->c))
+    while(lexer->c && strchr(digits, lexer->c))
     {
         if(lexer->c == '_')
         {
-- 
2.43.0


From bfabd6cd6d6439f43bed739afbc46a03b3ec389c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:52 +0000
Subject: [PATCH 56/69] fix: lexer: string literals longer than the buffer, and
 a quote after an escaped backslash and a backslash

---
 src/compiler/lexer/lexer.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/compiler/lexer/lexer.c b/src/compiler/lexer/lexer.c
index d18e6ae..37ce571 100644
--- a/src/compiler/lexer/lexer.c
+++ b/src/compiler/lexer/lexer.c
@@ -379,12 +379,16 @@ static Token_T* lexer_get_str(Lexer_T* lexer)
 
     lexer_advance(lexer);
 
-    while(lexer->c != '"' || (lexer_peek(lexer, -1) == '\\' && lexer_peek(lexer, -2) != '\\'))
+    size_t used = 0;
+    bool escaped = false;
+    while(lexer->c != '"' || escaped)
     {
-        if(strlen(buffer) - 3 >= length)
+        if(used + 1 >= length)
             buffer = realloc(buffer, length *= 2);
 
-        strcat(buffer, (char[2]){lexer->c, '\0'});
+        escaped = !escaped && lexer->c == '\\';
+        buffer[used++] = lexer->c;
+        buffer[used] = '\0';
 
         lexer_advance(lexer);
 
-- 
2.43.0


From 8bd59309ff966dcf9e29b52edf11bc87f5f25f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:11 +0000
Subject: [PATCH 57/69] fix: lexer: identifiers, numbers and operators longer
 than the buffer

---
 src/compiler/lexer/lexer.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/compiler/lexer/lexer.c b/src/compiler/lexer/lexer.c
index 37ce571..0b2b302 100644
--- a/src/compiler/lexer/lexer.c
+++ b/src/compiler/lexer/lexer.c
@@ -165,6 +165,16 @@ static char lexer_peek(Lexer_T* lexer, int offset)
     return get_char(lexer->file, lexer->line, lexer->pos + offset);
 }
 
+static void lexer_append(Lexer_T* lexer, char c)
+{
+    size_t length = strlen(lexer->tmp_buffer);
+    if(length + 2 > lexer->tmp_buffer_size)
+        lexer->tmp_buffer = realloc(lexer->tmp_buffer, lexer->tmp_buffer_size *= 2);
+
+    lexer->tmp_buffer[length] = c;
+    lexer->tmp_buffer[length + 1] = '\0';
+}
+
 Token_T* lexer_consume(Lexer_T* lexer, Token_T* token)
 {
     lexer_advance(lexer);
@@ -270,7 +280,7 @@ static Token_T* lexer_get_id(Lexer_T* lexer)
 
     while(isalnum(lexer->c) || lexer->c == '_' || lexer->c == '?' || lexer->c == '\'')
     {
-        strcat(lexer->tmp_buffer, (char[]){lexer->c, '\0'});
+        lexer_append(lexer, lexer->c);
         lexer_advance(lexer);
     }
 
@@ -303,7 +313,7 @@ static Token_T* lexer_get_int(Lexer_T* lexer, const char* digits, i32 base)
             lexer_advance(lexer);
             continue;
         }
-        strcat(lexer->tmp_buffer, (char[2]){lexer->c, '\0'});
+        lexer_append(lexer, lexer->c);
 
         lexer_advance(lexer);
     }
@@ -328,7 +338,7 @@ static Token_T* lexer_get_decimal(Lexer_T* lexer)
             continue;
         }
 
-        strcat(lexer->tmp_buffer, (char[2]){lexer->c, '\0'});
+        lexer_append(lexer, lexer->c);
 
         if(lexer->c == '.')
         {   
@@ -482,7 +492,7 @@ static Token_T* lexer_get_operator(Lexer_T* lexer)
 
     while(is_operator_char(lexer->c))
     {
-        strcat(lexer->tmp_buffer, (char[]){lexer->c, '\0'});
+        lexer_append(lexer, lexer->c);
         lexer_advance(lexer);
     }
 
-- 
2.43.0


From a33e4504da8d2f3ba64669b441b0484ba59da983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:11 +0000
Subject: [PATCH 58/69] lexer: the size of the token buffer can be set from
 outside (-DLEXER_TMP_BUFFER_DEFAULT_SIZE)

---
 src/compiler/lexer/lexer.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/compiler/lexer/lexer.h b/src/compiler/lexer/lexer.h
index c669826..f4c5004 100644
--- a/src/compiler/lexer/lexer.h
+++ b/src/compiler/lexer/lexer.h
@@ -8,7 +8,9 @@
 #include "io/file.h"
 #include "error/error.h"
 
+#ifndef LEXER_TMP_BUFFER_DEFAULT_SIZE
 #define LEXER_TMP_BUFFER_DEFAULT_SIZE (0x2000)
+#endif
 
 typedef struct LEXER_STRUCT 
 {
-- 
2.43.0


From 05e957a976650ecb04aa4863b6b75fdacd380c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:11 +0000
Subject: [PATCH 59/69] fix: lexer: the end of a nested comment is not also the
 start of another one

---
 src/compiler/lexer/lexer.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/compiler/lexer/lexer.c b/src/compiler/lexer/lexer.c
index 0b2b302..cd121b8 100644
--- a/src/compiler/lexer/lexer.c
+++ b/src/compiler/lexer/lexer.c
@@ -222,9 +222,15 @@ static void lexer_skip_multiline_comment(Lexer_T* lexer)
     while(lexer->c != ']' || lexer_peek(lexer, 1) != '#' || depth != 1)
     {
         if(lexer->c == '#' && lexer_peek(lexer, 1) == '[')
+        {
             depth++;
+            lexer_advance(lexer);
+        }
         else if(lexer->c == ']' && lexer_peek(lexer, 1) == '#')
+        {
             depth--;
+            lexer_advance(lexer);
+        }
         else if(lexer->c == '\0')
         {   
             //end of file
-- 
2.43.0


From 7e4883bd19f60b6fdf742ba69b5d08f8dd6720e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:30 +0000
Subject: [PATCH 60/69] fix: pass the data pointer of a dynamic object as self

---
 src/compiler/codegen/asm/asm_codegen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index 47b2c78..b72ea55 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -2142,7 +2142,7 @@ static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
 
         case ND_DYNUNCAST:
             asm_gen_addr(cg, node->left);
-            //asm_println(cg, "  add $%ld, %%rax", PTR_S);
+            asm_println(cg, "  mov (%%rax), %%rax"); // load the data pointer
             return;
 
         case ND_NOT:
-- 
2.43.0


From 9375113466694aceb81d7c5cf5f0303f521c1b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:30 +0000
Subject: [PATCH 61/69] fix: assignments to variables of dynamic types

---
 src/compiler/codegen/asm/asm_codegen.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index b72ea55..1ed48db 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -1348,6 +1348,7 @@ static void asm_store(ASMCodegenData_T* cg, ASTType_T *ty) {
 
     switch (ty->kind) {
         case TY_STRUCT:
+        case TY_DYN:
         case TY_ARRAY:
         case TY_C_ARRAY:
             for(i32 i = 0; i < ty->size; i++) {
-- 
2.43.0


From 97f07e36f6b3f5b278b95ac2a888a9e5f58546e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:30 +0000
Subject: [PATCH 62/69] fix: functions returning objects of dynamic types

---
 src/compiler/parser/validator.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index 2447446..c3d2e0c 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -1261,7 +1261,7 @@ static void iter_validate_call(ASTNode_T* call, va_list args)
     }
 
     // if we compile using the assembly compiler, a buffer for the return value is needed when handling big structs
-    if(v->context->ct == CT_ASM && call->data_type && unpack(call->data_type)->kind == TY_STRUCT)
+    if(v->context->ct == CT_ASM && call->data_type && (unpack(call->data_type)->kind == TY_STRUCT || unpack(call->data_type)->kind == TY_DYN))
     {
         ASTObj_T* ret_buf = init_ast_obj(&v->context->raw_allocator, OBJ_LOCAL, call->tok);
         ret_buf->data_type = call->data_type;
-- 
2.43.0


From 162b036a2bb82f72565622a5e14e08febb53d559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:24 +0000
Subject: [PATCH 63/69] fix: concatenating identifiers in a macro leaves its
 body and arguments unchanged

---
 src/compiler/preprocessor/preprocessor.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/compiler/preprocessor/preprocessor.c b/src/compiler/preprocessor/preprocessor.c
index ad063e1..7fa0b28 100644
--- a/src/compiler/preprocessor/preprocessor.c
+++ b/src/compiler/preprocessor/preprocessor.c
@@ -486,9 +486,13 @@ static void expand_macro_call(Preprocessor_T* pp, MacroCall_T call, List_T* src_
             list_pop(dest_list);
             list_pop(dest_list);
 
-            u64 prev_size = sizeof(Token_T) + strlen(id->value) * sizeof(char);
-            dest_list->items[dest_list->size - 1] = id = allocator_realloc(&pp->context->raw_allocator, id, prev_size + (strlen(current->value) + 1) * sizeof(char));
-            strcat(id->value, current->value);
+            // the token of the macro body or argument itself may be needed again
+            char* value = malloc(strlen(id->value) + strlen(current->value) + 1);
+            sprintf(value, "%s%s", id->value, current->value);
+            Token_T* concatenated = init_token(&pp->context->raw_allocator, value, id->line, id->pos, TOKEN_ID, id->source);
+            concatenated->in_macro_expansion = id->in_macro_expansion;
+            dest_list->items[dest_list->size - 1] = concatenated;
+            free(value);
         }
     }
 }
-- 
2.43.0


From 39d7c880768d49f08120a285e6eba9b71a68c839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:45 +0000
Subject: [PATCH 64/69] fix: calls of macros in the body of a macro get its
 arguments

---
 src/compiler/preprocessor/preprocessor.c | 40 +++++++++++++++---------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/src/compiler/preprocessor/preprocessor.c b/src/compiler/preprocessor/preprocessor.c
index 7fa0b28..ab936ab 100644
--- a/src/compiler/preprocessor/preprocessor.c
+++ b/src/compiler/preprocessor/preprocessor.c
@@ -422,6 +422,8 @@ static void expand_macro_call(Preprocessor_T* pp, MacroCall_T call, List_T* src_
     if(pp->macro_call_depth++ > pp->context->max_macro_call_depth)
         throw_error(pp->context, ERR_SYNTAX_ERROR, call.tok, "too many macro calls, maximum is %d.\nIf you need a larger call depth, use --set-mmcd", pp->context->max_macro_call_depth);
     
+    // the body of the macro with the arguments in place of its parameters
+    List_T* body = init_list();
     for(size_t i = 0; i < call.macro->replacing_tokens->size; i++)
     {
         Token_T* tok = call.macro->replacing_tokens->items[i];
@@ -439,37 +441,43 @@ static void expand_macro_call(Preprocessor_T* pp, MacroCall_T call, List_T* src_
                         {
                             MacroCall_T macro_call;
                             parse_macro_call(pp, &macro_call, src_list, &j, call.args[arg_idx].end_idx);
-                            expand_macro_call(pp, macro_call, src_list, dest_list);
+                            expand_macro_call(pp, macro_call, src_list, body);
                         }
                         else
-                            list_push(dest_list, src_list->items[j]);
+                            list_push(body, src_list->items[j]);
                     }
                 else if(strcmp(tok->value, "__line__") == 0)
                 {
                     char linestr[BUFSIZ] = { '\0' };
                     sprintf(linestr, "%u", call.tok->line + 1);
-                    list_push(dest_list, init_token(&pp->context->raw_allocator, linestr, tok->line, tok->pos, TOKEN_INT, tok->source));
+                    list_push(body, init_token(&pp->context->raw_allocator, linestr, tok->line, tok->pos, TOKEN_INT, tok->source));
                 }
                 else if(strcmp(tok->value, "__file__") == 0)
-                    list_push(dest_list, init_token(&pp->context->raw_allocator, (char*) call.tok->source->path, tok->line, tok->pos, TOKEN_STRING, tok->source));
+                    list_push(body, init_token(&pp->context->raw_allocator, (char*) call.tok->source->path, tok->line, tok->pos, TOKEN_STRING, tok->source));
                 else if(strcmp(tok->value, "__func__") == 0)
-                    list_push(dest_list, init_token(&pp->context->raw_allocator, "", tok->line, tok->pos, TOKEN_CURRENT_FN, tok->source));
+                    list_push(body, init_token(&pp->context->raw_allocator, "", tok->line, tok->pos, TOKEN_CURRENT_FN, tok->source));
                 else
-                    list_push(dest_list, tok);
-            } break;
-
-            case TOKEN_MACRO_CALL:
-            {
-                // FIXME: segfaults (macro doesn't get correctly parsed?)
-                MacroCall_T macro_call;
-                parse_macro_call(pp, &macro_call, call.macro->replacing_tokens, &i, call.macro->replacing_tokens->size);
-                expand_macro_call(pp, macro_call, call.macro->replacing_tokens, dest_list);
+                    list_push(body, tok);
             } break;
 
             default:
-                list_push(dest_list, tok);
+                list_push(body, tok);
                 break;
         }
+    }
+
+    // expand the macro calls of the body
+    for(size_t i = 0; i < body->size; i++)
+    {
+        Token_T* tok = body->items[i];
+        if(tok->type == TOKEN_MACRO_CALL)
+        {
+            MacroCall_T macro_call;
+            parse_macro_call(pp, &macro_call, body, &i, body->size);
+            expand_macro_call(pp, macro_call, body, dest_list);
+        }
+        else
+            list_push(dest_list, tok);
 
         // handle situations where an identifier should be concatenated
         Token_T *at, *id;
@@ -495,6 +503,8 @@ static void expand_macro_call(Preprocessor_T* pp, MacroCall_T call, List_T* src_
             free(value);
         }
     }
+
+    free_list(body);
 }
 
 //
-- 
2.43.0


From 4bbf628ba574a624d2a679db98f3b8aed119a4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:56 +0000
Subject: [PATCH 65/69] fix: the second definition of a predefined macro is
 reported without a crash

---
 src/compiler/preprocessor/preprocessor.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/preprocessor/preprocessor.c b/src/compiler/preprocessor/preprocessor.c
index ab936ab..c61f88f 100644
--- a/src/compiler/preprocessor/preprocessor.c
+++ b/src/compiler/preprocessor/preprocessor.c
@@ -299,7 +299,7 @@ static Macro_T* parse_macro_def(Preprocessor_T* pp, size_t* i)
         throw_error(pp->context, ERR_SYNTAX_ERROR, next, "unexpected token `%s`, expect `}` to end the macro body", next->value);
 
     Macro_T* found = find_macro(pp, macro->tok->value, macro->argc);
-    if(found && found->tok)
+    if(found && found->tok->source) // predefined macros have no source
         throw_error(pp->context, ERR_REDEFINITION, macro->tok, "redefinition of macro `%s` with %d arguments\nfirst defined in `%s` at line %d", macro->tok->value, macro->argc, found->tok->source->path ? found->tok->source->path : found->tok->source->short_path, found->tok->line + 1);
     else if(found)
         throw_error(pp->context, ERR_SYNTAX_ERROR, macro->tok, "redefinition of macro `%s` with %d arguments", macro->tok->value, macro->argc);
-- 
2.43.0


From 9345548491071023fe122960a59c9ee97364a0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:56 +0000
Subject: [PATCH 66/69] fix: %u and %U of fmt::format and %% and %u of
 fmt::time do what their description says

---
 src/std/fmt.csp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/std/fmt.csp b/src/std/fmt.csp
index 103b89a..101a91c 100644
--- a/src/std/fmt.csp
+++ b/src/std/fmt.csp
@@ -131,6 +131,10 @@ namespace std {
                         concat(str, buf);
                     }
                     'u' => {
+                        c_str::from_uint(va_arg!{args, u32}, buf, 10);
+                        concat(str, buf);
+                    }
+                    'U' => {
                         c_str::from_uint(va_arg!{args, u64}, buf, 10);
                         concat(str, buf);
                     }
@@ -223,6 +227,7 @@ namespace std {
             fn fmt_time(fmt: &const char, str: &String, time: &Time) {
                 using c_str;
                 let buf: char 'c[100];
+                buf[0] = '\0';
                 match *fmt {
                     '%' => string::append(str, *fmt);
                     'Y' => from_uint(time.year, buf, 10);
@@ -231,6 +236,7 @@ namespace std {
                     'h' => uint_two_digits(time.hour, buf);
                     'm' => uint_two_digits(time.minute, buf);
                     's' => uint_two_digits(time.second, buf);
+                    'u' => from_int(time.ts.tv_sec, buf, 10);
                     _ => {}
                 }
 
-- 
2.43.0


From 88b82fe68d378ac97d9ad9dc8d485468958e240f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:52 +0000
Subject: [PATCH 67/69] fix: std::stderr is the standard error stream

---
 src/std/io.csp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/std/io.csp b/src/std/io.csp
index 7a5ea76..96b3b77 100644
--- a/src/std/io.csp
+++ b/src/std/io.csp
@@ -84,7 +84,7 @@ namespace std {
 
     const stdin: i32 = stdin!;
     const stdout: i32 = stdout!;
-    const stderr: i32 = stdout!;
+    const stderr: i32 = stderr!;
 
     namespace io {
         const O_RDONLY: i32   = 0;
-- 
2.43.0


From 4360838e29158dd508e38cd98dbf01df70144ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:07 +0000
Subject: [PATCH 68/69] fix: C backend: assignment of C arrays

---
 src/compiler/codegen/transpiler/c_codegen.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/compiler/codegen/transpiler/c_codegen.c b/src/compiler/codegen/transpiler/c_codegen.c
index ca8b9f0..47c6c4d 100644
--- a/src/compiler/codegen/transpiler/c_codegen.c
+++ b/src/compiler/codegen/transpiler/c_codegen.c
@@ -1455,6 +1455,21 @@ static void c_gen_expr(CCodegenData_T* cg, ASTNode_T* node, bool with_casts)
             }
             // fall through
         case ND_ASSIGN:
+            // C has no assignment of arrays
+            if(node->kind == ND_ASSIGN && unpack(node->left->data_type)->kind == TY_C_ARRAY)
+            {
+                c_print(cg, "(*(__typeof__(");
+                c_gen_expr(cg, node->left, true);
+                c_print(cg, ")*) __builtin_memmove((");
+                c_gen_expr(cg, node->left, true);
+                c_print(cg, "),(");
+                c_gen_expr(cg, node->right, true);
+                c_print(cg, "),sizeof(");
+                c_gen_expr(cg, node->left, true);
+                c_print(cg, ")))");
+                break;
+            }
+
             c_putc(cg, '(');
             if(cast_to_int)
             {
-- 
2.43.0


From bf75cf5d1e39dd1b62eb5cef74ac642a6205eeee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:21 +0000
Subject: [PATCH 69/69] fix: a constant does not make the type of its initial
 value constant

---
 src/compiler/parser/validator.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index c3d2e0c..2d267e8 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -1646,8 +1646,14 @@ static void iter_leave_assignment(ASTNode_T* assign, va_list args)
                 case OBJ_FN_ARG:
                     //if(assigned_obj->is_constant)
                     //    throw_error(v->context, ERR_CONST_ASSIGN, assigned_obj->tok, "cannot assign a value to constant %s `%s`", obj_kind_to_str(assigned_obj->kind), assigned_obj->id->callee);
-                    if(assigned_obj->is_constant)
-                        assigned_obj->data_type->is_constant = true;
+                    if(assigned_obj->is_constant && !assigned_obj->data_type->is_constant)
+                    {
+                        // the type may also be the one of the initial value, which does not become constant
+                        ASTType_T* constant = init_ast_type(&v->context->raw_allocator, assigned_obj->data_type->kind, assigned_obj->data_type->tok);
+                        *constant = *assigned_obj->data_type;
+                        constant->is_constant = true;
+                        assigned_obj->data_type = constant;
+                    }
                     break;
 
                 case OBJ_FUNCTION:
-- 
2.43.0

