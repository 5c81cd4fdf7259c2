From 01e3a27642f23c9fad320cb96d632a9f1a008434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:00 +0000
Subject: [PATCH 01/63] fix: cast to _Bool compares with zero instead of
 truncating

---
 src/parser/eval.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/parser/eval.c b/src/parser/eval.c
index 677bf08..13cb8f3 100644
--- a/src/parser/eval.c
+++ b/src/parser/eval.c
@@ -439,6 +439,11 @@ static struct var cast_operand(
     return eval(def, block, create_expression(IR_OP_CAST, type, var));
 }
 
+static struct expression eval_prepare_assign_bool(
+    struct definition *def,
+    struct block *block,
+    struct expression expr);
+
 INTERNAL struct expression eval_cast(
     struct definition *def,
     struct block *block,
@@ -471,6 +476,10 @@ INTERNAL struct expression eval_cast(
         return as_expr(var);
     }
 
+    if (is_bool(type)) {
+        return eval_prepare_assign_bool(def, block, as_expr(var));
+    }
+
     if (size_of(var.type) == size_of(type)
         && (is_pointer(var.type) || is_pointer(type)))
     {
-- 
2.43.0


From 81d3c88cc75827178871503158d7a79568c1e7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:25 +0000
Subject: [PATCH 02/63] fix: pop the whole x87 stack after testing a long
 double in a branch

---
 src/backend/x86_64/compile.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/backend/x86_64/compile.c b/src/backend/x86_64/compile.c
index eab39e3..38a1120 100644
--- a/src/backend/x86_64/compile.c
+++ b/src/backend/x86_64/compile.c
@@ -3253,9 +3253,9 @@ static void compile_block(
                 if (is_long_double(block->expr.type)) {
                     assert(x87_stack == 1);
                     emit_(INSTR_FLDZ);
-                    x87_stack++;
+                    xmm0 = get_x87_reg();
                     emit_r_(INSTR_FUCOMIP, reg(ax, 16));
-                    emit_r_(INSTR_FSTP, reg(ax, 16));
+                    emit_r_(INSTR_FSTP, reg(xmm0, 16));
                     x87_stack = 0;
                 } else {
                     assert(w == 4 || w == 8);
-- 
2.43.0


From 0652e76f2d613259fa8cdb55a9e1f1b916cc76da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:25 +0000
Subject: [PATCH 03/63] fix: restore the stack pointer by what was pushed when
 loading an integer to x87

---
 src/backend/x86_64/compile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backend/x86_64/compile.c b/src/backend/x86_64/compile.c
index 38a1120..e1e532e 100644
--- a/src/backend/x86_64/compile.c
+++ b/src/backend/x86_64/compile.c
@@ -944,7 +944,7 @@ static enum reg load_x87(struct var v)
         } else {
             push(v);
             emit_m_(INSTR_FILD, location(address(0, SP, 0, 0), w));
-            emit_ir(INSTR_ADD, constant(w, 8), reg(SP, 8));
+            emit_ir(INSTR_ADD, constant(8, 8), reg(SP, 8));
         }
     }
 
-- 
2.43.0


From fe9bc2481146541531e3f0668ea8d87fdbedc8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:25 +0000
Subject: [PATCH 04/63] fix: negation and constants of long double distinguish
 signed zeros and NaN

---
 src/parser/eval.c         |  5 +++++
 src/preprocessor/strtab.c | 14 ++++++++++++--
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/parser/eval.c b/src/parser/eval.c
index 13cb8f3..992edb5 100644
--- a/src/parser/eval.c
+++ b/src/parser/eval.c
@@ -1187,6 +1187,11 @@ INTERNAL struct expression eval_neg(
         return create_expression(IR_OP_NEG, var.type, var);
     }
 
+    /* Subtraction from zero would get the sign of zero wrong. */
+    if (is_long_double(var.type)) {
+        return eval_mul(def, block, var_int(-1), var);
+    }
+
     return eval_sub(def, block, var_int(0), var);
 }
 
diff --git a/src/preprocessor/strtab.c b/src/preprocessor/strtab.c
index 23d0e03..9c59382 100644
--- a/src/preprocessor/strtab.c
+++ b/src/preprocessor/strtab.c
@@ -229,6 +229,16 @@ INTERNAL String str_cat(String a, String b)
     return str_intern(catbuf, len);
 }
 
+/* Identical values; zeros of different sign are not, while NaNs are. */
+static int is_same_long_double(long double a, long double b)
+{
+    if (a != a || b != b) {
+        return a != a && b != b;
+    }
+
+    return a == b && (a != 0 || 1 / a == 1 / b);
+}
+
 INTERNAL union value put_long_double(long double ld)
 {
     int i;
@@ -237,7 +247,7 @@ INTERNAL union value put_long_double(long double ld)
 
     for (i = 0; i < array_len(&long_double_values); ++i) {
         x = array_get(&long_double_values, i);
-        if (x == ld) {
+        if (is_same_long_double(x, ld)) {
             val.ld = i;
             return val;
         }
@@ -245,7 +255,7 @@ INTERNAL union value put_long_double(long double ld)
 
     val.ld = i;
     array_push_back(&long_double_values, ld);
-    assert(get_long_double(val) == ld);
+    assert(is_same_long_double(get_long_double(val), ld));
     return val;
 }
 
-- 
2.43.0


From 26a5e6636835b3be91dff5645641669b84ba0fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:42 +0000
Subject: [PATCH 05/63] fix: encode x87 register operands by stack position in
 object code

---
 src/backend/x86_64/encoding.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/backend/x86_64/encoding.c b/src/backend/x86_64/encoding.c
index c5047cd..95ce2f0 100644
--- a/src/backend/x86_64/encoding.c
+++ b/src/backend/x86_64/encoding.c
@@ -714,7 +714,8 @@ static void encode_reg(
         assert(!enc.modrm);
         c->val[c->len - 1] |= reg3(r);
     } else {
-        c->val[c->len++] = 0xC0 | enc.modrm | reg3(r);
+        c->val[c->len++] = 0xC0 | enc.modrm
+            | (r >= ST0 ? x87_stack_pos(r) : reg3(r));
     }
 }
 
-- 
2.43.0


From 5c64961afaf4ffae3a3d4df33c9c97a9967e879f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:19 +0000
Subject: [PATCH 06/63] fix: push floating point values that live in SSE
 registers

---
 src/backend/x86_64/compile.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/backend/x86_64/compile.c b/src/backend/x86_64/compile.c
index e1e532e..22b8164 100644
--- a/src/backend/x86_64/compile.c
+++ b/src/backend/x86_64/compile.c
@@ -865,11 +865,14 @@ static void push(struct var v)
     } else if (is_scalar(v.type)) {
         if (v.kind == IMMEDIATE && is_int_constant(v)) {
             emit_i_(INSTR_PUSH, value_of(v, 8));
+        } else if (is_real(v.type) && is_register_allocated(v)) {
+            /* Not possible to push SSE registers. */
+            emit_ir(INSTR_SUB, constant(8, 8), reg(SP, 8));
+            emit_rm(INSTR_MOVS,
+                reg(allocated_register(v), size_of(v.type)),
+                location(address(0, SP, 0, 0), size_of(v.type)));
         } else {
-            /*
-             * Not possible to push SSE registers, so load as if normal
-             * integer and push that instead.
-             */
+            /* Load floating point values as if normal integer. */
             if (is_real(v.type)) {
                 v.type = (is_float(v.type))
                     ? basic_type__unsigned_int
-- 
2.43.0


From 7da9666f261a61ff333213c602abf233d667425a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:19 +0000
Subject: [PATCH 07/63] fix: load integers that live in registers to x87

---
 src/backend/x86_64/compile.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/backend/x86_64/compile.c b/src/backend/x86_64/compile.c
index 22b8164..82bfad6 100644
--- a/src/backend/x86_64/compile.c
+++ b/src/backend/x86_64/compile.c
@@ -942,7 +942,10 @@ static enum reg load_x87(struct var v)
     } else {
         assert(is_signed(v.type));
         assert(w != 1);
-        if (v.kind == DIRECT && !is_global_offset(v.value.symbol)) {
+        if (v.kind == DIRECT
+            && !is_register_allocated(v)
+            && !is_global_offset(v.value.symbol))
+        {
             emit_m_(INSTR_FILD, location_of(v, w));
         } else {
             push(v);
-- 
2.43.0


From b49c058720b9663778377364c4840aaf457adef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:19 +0000
Subject: [PATCH 08/63] fix: convert long double to unsigned short and unsigned
 long over their whole range

---
 src/backend/x86_64/compile.c | 36 ++++++++++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/src/backend/x86_64/compile.c b/src/backend/x86_64/compile.c
index 82bfad6..75ad418 100644
--- a/src/backend/x86_64/compile.c
+++ b/src/backend/x86_64/compile.c
@@ -1101,22 +1101,50 @@ static enum reg load_integer_from_long_double(
     struct var val,
     Type type)
 {
-    int w;
-    enum reg ax;
+    int w, wrap;
+    enum reg ax, cx, st;
+    union value limit;
+    struct symbol *label;
 
     assert(is_long_double(val.type));
     assert(is_integer(type));
     assert(!is_long_double(type));
+    wrap = 0;
+    cx = AX;
     if (size_of(type) < 2) {
         type = basic_type__short;
+    } else if (size_of(type) == 2 && is_unsigned(type)) {
+        type = basic_type__int;
     } else if (size_of(type) == 4 && is_unsigned(type)) {
         type = basic_type__long;
+    } else if (size_of(type) == 8 && is_unsigned(type)) {
+        wrap = 1;
     }
 
     w = size_of(type);
     load_x87(val);
     ax = get_int_reg();
 
+    /*
+     * Values not within signed long are converted by first subtracting,
+     * then adding LONG_MAX + 1.
+     */
+    if (wrap) {
+        cx = get_int_reg();
+        limit = put_long_double(9223372036854775808.L);
+        label = create_label(definition);
+        emit_ir(INSTR_MOV, constant(0, 4), reg(cx, 4));
+        st = load_x87(var_numeric(basic_type__long_double, limit));
+        emit_r_(INSTR_FUCOMIP, reg(st - 1, 16));
+        x87_stack--;
+        emit_jcc(CC_A, addr(label));
+        emit_ir(INSTR_MOV, constant(LONG_MAX + 1ul, 8), reg(cx, 8));
+        st = load_x87(var_numeric(basic_type__long_double, limit));
+        emit_r_(INSTR_FSUBRP, reg(st - 1, 16));
+        x87_stack--;
+        enter_context(label);
+    }
+
     /* Store and modify control word using magic. */
     emit_m_(INSTR_FNSTCW, location(address(-16, SP, 0, 0), 2));
     emit_mr(INSTR_MOVZX,
@@ -1135,6 +1163,10 @@ static enum reg load_integer_from_long_double(
     emit_m_(INSTR_FLDCW, location(address(-16, SP, 0, 0), 2));
     emit_mr(INSTR_MOV,
         location(address(-8, SP, 0, 0), w), reg(ax, w));
+    if (wrap) {
+        emit_rr(INSTR_XOR, reg(cx, 8), reg(ax, 8));
+    }
+
     return ax;
 }
 
-- 
2.43.0


From 93c03146f36f03c8ab8b03b6bcf22c8a946ba42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:56 +0000
Subject: [PATCH 09/63] fix: never write past the end of aggregates of 3, 5, 6
 or 7 bytes

Assigning such a struct, receiving it as parameter, return value or
through va_arg used a 4 or 8 byte store, overwriting adjacent objects.
va_arg of {float, float, float} did the same.
---
 src/backend/x86_64/compile.c | 73 +++++++++++++++++++++++++++++-------
 1 file changed, 60 insertions(+), 13 deletions(-)

diff --git a/src/backend/x86_64/compile.c b/src/backend/x86_64/compile.c
index 75ad418..034a422 100644
--- a/src/backend/x86_64/compile.c
+++ b/src/backend/x86_64/compile.c
@@ -1371,6 +1371,54 @@ static void store(enum reg r, struct var v)
     store_op(OPT_REG, operand, v);
 }
 
+/*
+ * Write the lower 3, 5, 6 or 7 bytes of an integer register to memory,
+ * clobbering the register. Used for aggregates that cannot be written
+ * by a single instruction, where bytes following the object must not be
+ * touched.
+ */
+static void store_bytes(enum reg r, struct var v, int n)
+{
+    int w;
+
+    assert(n > 0 && n < 8);
+    while (n) {
+        if (n >= 4) {
+            w = 4;
+            v.type = basic_type__unsigned_int;
+        } else if (n >= 2) {
+            w = 2;
+            v.type = basic_type__unsigned_short;
+        } else {
+            w = 1;
+            v.type = basic_type__unsigned_char;
+        }
+
+        store(r, v);
+        v.offset += w;
+        n -= w;
+        if (n) {
+            emit_ir(INSTR_SHR, constant(w * 8, 1), reg(r, 8));
+        }
+    }
+}
+
+/*
+ * Write i'th eightbyte slice of aggregate type from integer register,
+ * or from SSE register. The register can be clobbered.
+ */
+static void store_slice(enum reg r, struct var v, Type type, int i)
+{
+    int n;
+
+    n = size_of(type) - i * 8;
+    if (is_integer(v.type) && n < size_of(v.type)) {
+        store_bytes(r, v, n);
+    } else {
+        store(r, v);
+    }
+}
+
 /*
  * Determine if given parameter classification can fit in registers
  * available.
@@ -1429,7 +1477,7 @@ static void move_to_from_registers(
             if (toggle_load) {
                 load(var, r);
             } else {
-                store(r, var);
+                store_slice(r, var, type, i);
             }
             var.offset += 8;
         }
@@ -2075,30 +2123,31 @@ static void compile__builtin_va_arg(struct var res, struct var args)
          * %rax. Base of registers are stored in %rsi, first pending
          * register is at offset %rcx, and i counts number of registers
          * done. In GNU assembly it is {i*8}(%rsi, %rcx, 1).
-         *
-         * Floating arguments to vararg is always double.
          */
         while ((i = integer_regs_loaded + sse_regs_loaded) < n) {
             switch (pc.eightbyte[i]) {
             case PC_INTEGER:
                 slice.type = slice_type(res.type, pc, i);
-                i = integer_regs_loaded++;
                 w = size_of(slice.type);
                 emit_mr(INSTR_MOV,
-                    location(address(i*8, SI, CX, 1), w), reg(AX, w));
-                store(AX, slice);
+                    location(address(integer_regs_loaded*8, SI, CX, 1), w),
+                    reg(AX, w));
+                store_slice(AX, slice, res.type, i);
+                integer_regs_loaded++;
                 break;
             case PC_SSE:
-                i = sse_regs_loaded++;
-                slice.type = basic_type__double;
+                slice.type = slice_type(res.type, pc, i);
+                w = size_of(slice.type);
                 emit_mr(INSTR_MOVS,
-                    location(address(i*16, SI, DX, 1), 8), reg(XMM0, 8));
+                    location(address(sse_regs_loaded*16, SI, DX, 1), w),
+                    reg(XMM0, w));
                 store(XMM0, slice);
+                sse_regs_loaded++;
                 break;
             default: assert(0);
             }
 
-            slice.offset += size_of(slice.type);
+            slice.offset += 8;
         }
 
         /*
@@ -2886,9 +2935,7 @@ static enum reg compile_cast(
             break;
         }
         if (!is_void(target.type)) {
-            /* All variables have at least 8 byte slots. */
-            target.type = l.type;
-            store(ax, target);
+            store_bytes(ax, target, w);
         }
         return ax;
     }
-- 
2.43.0


From 309343752b3c7d8d3684df402865dab68c455695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:46 +0000
Subject: [PATCH 10/63] fix: align stack arguments of type long double to 16
 bytes

Arguments with alignment 16 were placed and read at the next multiple of
8, in calls, parameters and va_arg, disagreeing with other compilers.
---
 src/backend/x86_64/compile.c | 44 +++++++++++++++++++++++++++++++++---
 1 file changed, 41 insertions(+), 3 deletions(-)

diff --git a/src/backend/x86_64/compile.c b/src/backend/x86_64/compile.c
index 034a422..ee16df1 100644
--- a/src/backend/x86_64/compile.c
+++ b/src/backend/x86_64/compile.c
@@ -34,6 +34,9 @@ static struct {
 /* Store incoming PARAM operations before CALL. */
 static array_of(struct var) func_args;
 
+/* Offset from %rsp of arguments passed on stack. */
+static array_of(int) func_args_offset;
+
 /*
  * Use callee-saved registers %rbx, %r12, %r13, %r14 and %r15 for
  * temporary integer values.
@@ -1510,6 +1513,21 @@ static void store_object_from_registers(
     move_to_from_registers(var, pc, intregs, sseregs, 0);
 }
 
+/*
+ * Round up offset of the next argument passed on stack, which normally
+ * is a multiple of 8. Types with alignment of 16, like long double,
+ * start at an address divisible by 16.
+ */
+static int align_stack_argument(int offset, Type type)
+{
+    assert(offset % 8 == 0);
+    if (type_alignment(type) == 16 && offset % 16) {
+        offset += 8;
+    }
+
+    return offset;
+}
+
 /*
  * Push arguments from previous IR_PARAM statements, which are buffered
  * in static array. Assign parameter class to arguments; using registers
@@ -1522,7 +1540,7 @@ static void store_object_from_registers(
  */
 static int push_function_arguments(Type type, struct param_class respc)
 {
-    int i, n;
+    int i, n, pos, pad, offset;
     int next_integer_reg = 0,
         next_sse_reg = 0,
         mem_used = 0,
@@ -1551,6 +1569,8 @@ static int push_function_arguments(Type type, struct param_class respc)
             argpc[register_args].i = i;
             register_args++;
         } else {
+            mem_used = align_stack_argument(mem_used, arg.type);
+            array_push_back(&func_args_offset, mem_used);
             mem_used += 8*EIGHTBYTES(arg.type);
         }
     }
@@ -1559,26 +1579,36 @@ static int push_function_arguments(Type type, struct param_class respc)
      * Make sure stack is aligned to 16 byte after pushing all memory
      * arguments. Insert padding if necessary.
      */
+    pos = mem_used;
     if (mem_used % 16) {
         mem_used += 8;
         assert((mem_used % 16) == 0);
-        emit_ir(INSTR_SUB, constant(8, 8), reg(SP, 8));
     }
+    pad = mem_used - pos;
 
     /*
      * Pass arguments on stack from right to left. Do this before
      * populating registers, because %rdi, %rsi etc will be used to do
      * the pushing. Reverse traversal in register class list to filter
-     * out non-memory arguments.
+     * out non-memory arguments. Leave a gap between arguments where
+     * needed to have types with alignment 16 in the right place.
      */
     for (i = array_len(&func_args) - 1, n = register_args - 1; i >= 0; --i) {
         if (n >= 0 && argpc[n].i == i) {
             n--;
         } else {
             arg = array_get(&func_args, i);
+            offset = array_pop_back(&func_args_offset);
+            pad += pos - (offset + (int) (8*EIGHTBYTES(arg.type)));
+            if (pad) {
+                emit_ir(INSTR_SUB, constant(pad, 8), reg(SP, 8));
+                pad = 0;
+            }
             push(arg);
+            pos = offset;
         }
     }
+    assert(!array_len(&func_args_offset));
 
     /*
      * Rewind register counters before pushing arguments. When return
@@ -1879,6 +1909,7 @@ static void enter(struct definition *def)
             stack_offset -= n * 8;
             sym->stack_offset = stack_offset - reg_offset;
         } else {
+            mem_offset = align_stack_argument(mem_offset, sym->type);
             sym->stack_offset = mem_offset;
             mem_offset += n * 8;
         }
@@ -2185,6 +2216,12 @@ static void compile__builtin_va_arg(struct var res, struct var args)
      * do not fit in remaining registers.
      */
     load(overflow_arg_area, SI);
+    if (type_alignment(res.type) == 16) {
+        emit_ir(INSTR_ADD, constant(15, 8), reg(SI, 8));
+        emit_ir(INSTR_AND, constant(-16, 8), reg(SI, 8));
+        store(SI, overflow_arg_area);
+    }
+
     w = size_of(res.type);
     if (is_standard_register_width(w) && res.kind == DIRECT) {
         if ((ax = allocated_register(res)) != 0) {
@@ -3527,6 +3564,7 @@ INTERNAL void flush(void)
 INTERNAL void finalize(void)
 {
     array_clear(&func_args);
+    array_clear(&func_args_offset);
     if (finalize_backend) {
         finalize_backend();
     }
-- 
2.43.0


From cdf1517e39681ad791445bc22731734d5e43de41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:57 +0000
Subject: [PATCH 11/63] fix: return address of result object in %rax also when
 nothing is copied

Returning *p where p happens to point to the object provided by the
caller left %rax undefined.
---
 src/backend/x86_64/compile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backend/x86_64/compile.c b/src/backend/x86_64/compile.c
index ee16df1..198abd1 100644
--- a/src/backend/x86_64/compile.c
+++ b/src/backend/x86_64/compile.c
@@ -3251,9 +3251,9 @@ static void compile_return(Type func, struct expression expr)
         emit_rr(INSTR_CMP, reg(DI, 8), reg(SI, 8));
         emit_jcc(CC_E, addr(label));
         emit_memcpy(w);
+        enter_context(label);
         emit_mr(INSTR_MOV,
             location(address(return_address_offset, BP, 0, 0), 8), reg(AX, 8));
-        enter_context(label);
         break;
     }
 
-- 
2.43.0


From 4f7ad6b94231594b8626cbd29069c76e268c8426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:50 +0000
Subject: [PATCH 12/63] fix: variadic functions must not overwrite saved
 registers

The register save area was placed on top of the callee-saved registers
pushed on entry, corrupting them in the caller whenever the function was
called with floating point arguments.
---
 src/backend/x86_64/compile.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/backend/x86_64/compile.c b/src/backend/x86_64/compile.c
index 198abd1..0867b97 100644
--- a/src/backend/x86_64/compile.c
+++ b/src/backend/x86_64/compile.c
@@ -1874,9 +1874,6 @@ static void enter(struct definition *def)
         stack_offset = -8;
         next_integer_reg = 1;
         return_address_offset = -8 - reg_offset;
-        if (is_vararg(type)) {
-            return_address_offset = -176 - reg_offset;
-        }
     }
 
     /*
@@ -1885,10 +1882,16 @@ static void enter(struct definition *def)
      * there are 8 bytes for each of the 6 integer registers, and 16
      * bytes for each of the 8 SSE registers, for a total of 176 bytes.
      * If return type is MEMORY, the return address is automatically
-     * included in register spill area.
+     * included in register spill area. The area must be below registers
+     * already pushed, and SSE registers are stored with alignment 16.
      */
     if (is_vararg(type)) {
         stack_offset = -176;
+        if (reg_offset % 16) {
+            stack_offset -= 8;
+        }
+        return_address_offset = stack_offset - reg_offset;
+        vararg.reg_save_area_offset = return_address_offset + 176;
     }
 
     /*
@@ -1956,7 +1959,6 @@ static void enter(struct definition *def)
         vararg.gp_offset = 8*next_integer_reg;
         vararg.fp_offset = 8*MAX_INTEGER_ARGS + 16*next_sse_reg;
         vararg.overflow_arg_area_offset = mem_offset;
-        vararg.reg_save_area_offset = 0;
         emit_rr(INSTR_TEST, reg(AX, 1), reg(AX, 1));
         emit_jcc(CC_E, addr(sym));
         for (i = 0; i < MAX_SSE_ARGS; ++i) {
-- 
2.43.0


From cfd782ce675a9bd755afe36812c592b03120a6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:27 +0000
Subject: [PATCH 13/63] fix: classify structs with nested aggregate members by
 alignment

A member at an offset not divisible by its size, but properly aligned,
made the whole struct be passed in memory.
---
 src/backend/x86_64/abi.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backend/x86_64/abi.c b/src/backend/x86_64/abi.c
index cf1e57c..2d2801a 100644
--- a/src/backend/x86_64/abi.c
+++ b/src/backend/x86_64/abi.c
@@ -17,7 +17,7 @@ static int has_unaligned_fields(Type type)
     for (i = 0; i < nmembers(type); ++i) {
         mem = get_member(type, i);
         assert(size_of(mem->type));
-        if (mem->offset % size_of(mem->type)) {
+        if (!mem->field_width && mem->offset % type_alignment(mem->type)) {
             return 1;
         }
     }
-- 
2.43.0


From aacc9ba6eeaced95a34506ed440f2b0db5a91ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:34 +0000
Subject: [PATCH 14/63] fix: va_arg whose result is unused, or on a va_list
 reached through a member or pointer

va_arg as an expression statement crashed the backend, and with -O1 dead
store elimination turned an unused fetch into the same crash. Evaluate va_arg
to a new variable, keep the statement even when the value is unused, and load
the list pointer to a variable unless it is a plain address or pointer.
---
 src/backend/x86_64/compile.c |  6 ++++--
 src/optimizer/transform.c    |  2 ++
 src/parser/eval.c            | 17 ++++++++++++++++-
 3 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/backend/x86_64/compile.c b/src/backend/x86_64/compile.c
index 0867b97..af95587 100644
--- a/src/backend/x86_64/compile.c
+++ b/src/backend/x86_64/compile.c
@@ -2094,10 +2094,10 @@ static void compile__builtin_va_arg(struct var res, struct var args)
      * reference element directly.
      */
     assert(is_pointer(args.type));
-    assert(!args.offset);
     if (args.kind == ADDRESS) {
         args.kind = DIRECT;
     } else {
+        assert(!args.offset);
         assert(res.kind == DIRECT);
         args.kind = DEREF;
     }
@@ -2227,7 +2227,9 @@ static void compile__builtin_va_arg(struct var res, struct var args)
     w = size_of(res.type);
     if (is_standard_register_width(w) && res.kind == DIRECT) {
         if ((ax = allocated_register(res)) != 0) {
-            emit_mr(INSTR_MOV, location(address(0, SI, 0, 0), w), reg(ax, w));
+            emit_mr(is_real(res.type) ? INSTR_MOVS : INSTR_MOV,
+                location(address(0, SI, 0, 0), w),
+                reg(ax, w));
         } else {
             emit_mr(INSTR_MOV, location(address(0, SI, 0, 0), w), reg(AX, w));
             emit_rm(INSTR_MOV, reg(AX, w), location_of(res, w));
diff --git a/src/optimizer/transform.c b/src/optimizer/transform.c
index d937a14..04ecedd 100644
--- a/src/optimizer/transform.c
+++ b/src/optimizer/transform.c
@@ -39,6 +39,7 @@ static int can_merge(
     return s1.st == IR_ASSIGN
         && s2.st == IR_ASSIGN
         && is_identity(s2.expr)
+        && s1.expr.op != IR_OP_VA_ARG
         && var_equal(s1.t, s2.expr.l)
         && type_equal(s1.t.type, s2.t.type)
         && s1.t.kind == DIRECT
@@ -110,6 +111,7 @@ INTERNAL int dead_store_elimination(
     for (i = 0, c = 0; i < block->count; ++i) {
         st = &array_get(&def->statements, block->head + i);
         if (st->st == IR_ASSIGN
+            && st->expr.op != IR_OP_VA_ARG
             && st->t.kind == DIRECT
             && !is_live_after(st->t.value.symbol, st)
             && st->t.value.symbol->linkage == LINK_NONE)
diff --git a/src/parser/eval.c b/src/parser/eval.c
index 992edb5..4117627 100644
--- a/src/parser/eval.c
+++ b/src/parser/eval.c
@@ -1315,13 +1315,28 @@ INTERNAL struct expression eval_va_arg(
     struct var l,
     Type type)
 {
+    struct var tmp;
+
     l = rvalue(def, block, l);
     if (!is_pointer(l.type)) {
         error("Invalid argument to va_arg.");
         exit(1);
     }
 
-    return create_expression(IR_OP_VA_ARG, type, l);
+    /* Backend expects either the address of a va_list object, or a plain
+     * pointer variable. */
+    if (l.kind != ADDRESS && (l.kind != DIRECT || l.offset)) {
+        tmp = create_var(def, l.type);
+        l = eval_assign(def, block, tmp, as_expr(l));
+    }
+
+    /* Always evaluate to a new variable. The result might not be used,
+     * but the list should still advance. */
+    tmp = create_var(def, type);
+    tmp = eval_assign(def, block, tmp,
+        create_expression(IR_OP_VA_ARG, type, l));
+    tmp.lvalue = 0;
+    return as_expr(tmp);
 }
 
 INTERNAL struct expression eval_unary_plus(struct var val)
-- 
2.43.0


From f77df7f0931dc24bdb6ce75feee56c5a00d9ea0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:29 +0000
Subject: [PATCH 15/63] fix: address of a member more than 2 GB into an object

The displacement was truncated to int when taking the address of a member
through a pointer.
---
 src/backend/x86_64/compile.c | 6 +++++-
 src/parser/eval.c            | 3 ++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/backend/x86_64/compile.c b/src/backend/x86_64/compile.c
index af95587..b4892d5 100644
--- a/src/backend/x86_64/compile.c
+++ b/src/backend/x86_64/compile.c
@@ -769,7 +769,11 @@ static void load_address(struct var v, enum reg r)
     } else {
         assert(v.kind == DEREF);
         load(var_direct(v.value.symbol), r);
-        if (v.offset) {
+        if (v.offset > INT_MAX) {
+            assert(r != R11);
+            emit_ir(INSTR_MOV, constant(v.offset, 8), reg(R11, 8));
+            emit_rr(INSTR_ADD, reg(R11, 8), reg(r, 8));
+        } else if (v.offset) {
             emit_ir(INSTR_ADD, constant(v.offset, 8), reg(r, 8));
         }
     }
diff --git a/src/parser/eval.c b/src/parser/eval.c
index 4117627..bb8739a 100644
--- a/src/parser/eval.c
+++ b/src/parser/eval.c
@@ -1438,7 +1438,8 @@ INTERNAL struct var eval_addr(
                 ptr = cast_operand(def, block, tmp,
                     type_create_pointer(basic_type__char));
                 tmp = eval(def, block,
-                    eval_add(def, block, ptr, var_int(var.offset)));
+                    eval_add(def, block, ptr,
+                        imm_signed(basic_type__long, var.offset)));
             }
             tmp.type = type_create_pointer(var.type);
             var = tmp;
-- 
2.43.0


From 8f67ebb30e60a231fb310e292c7206295adda55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:23 +0000
Subject: [PATCH 16/63] fix: array member of a returned struct can be used (C99
 6.3.2.1)

f().arr[1] was rejected as taking the address of an r-value.
---
 src/parser/eval.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser/eval.c b/src/parser/eval.c
index bb8739a..c55e405 100644
--- a/src/parser/eval.c
+++ b/src/parser/eval.c
@@ -1242,6 +1242,10 @@ INTERNAL struct var rvalue(
                 var.type = type_create_pointer(type_next(var.type));
             }
         } else {
+            /* Also arrays that are not lvalues decay, f().arr[1]. */
+            if (var.kind == DIRECT) {
+                var.lvalue = 1;
+            }
             var.type = type_next(var.type);
             var = eval_addr(def, block, var);
         }
-- 
2.43.0


From 24f87d3e253179267d1e847dfdaacc5a75203b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:50 +0000
Subject: [PATCH 17/63] fix: taking the address of an array-typed expression
 that is not an lvalue is an error, not an assertion failure

---
 src/parser/eval.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/parser/eval.c b/src/parser/eval.c
index c55e405..f01507e 100644
--- a/src/parser/eval.c
+++ b/src/parser/eval.c
@@ -1415,7 +1415,6 @@ INTERNAL struct var eval_addr(
             break;
         }
     case ADDRESS:
-        assert(!var.lvalue);
         error("Cannot take address of r-value.");
         exit(1);
         break;
-- 
2.43.0


From 129db02ebbe4fac22d646e9292062ce250c75242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:17 +0000
Subject: [PATCH 18/63] fix: place bit-fields like the platform ABI, and access
 only the unit holding them

Fields following other members, or of a narrower type than the previous field,
were placed or accessed at the wrong position (struct { int a:20; short b:10; }
stored b outside its unit), members of anonymous structs lost their field width,
alignment and padding, and fields as wide as long were not supported. Compute
the position from the number of bits used so far, initialize all bytes shared
by fields as a whole, and keep the assigned value intact when storing fields.
---
 include/lacc/type.h          |   8 +-
 src/backend/x86_64/compile.c |  21 ++-
 src/parser/initializer.c     | 256 ++++++++++++-------------------
 src/parser/typetree.c        | 290 ++++++++++-------------------------
 4 files changed, 194 insertions(+), 381 deletions(-)

diff --git a/include/lacc/type.h b/include/lacc/type.h
index d33b45c..25487c1 100644
--- a/include/lacc/type.h
+++ b/include/lacc/type.h
@@ -109,13 +109,10 @@ EXTERNAL const Type
  *
  * struct {
  *     char a;        // offset = 0
- *     int  b : 5;    // offset = 4, field_width = 5, field_offset = 0
- *     int  c : 7;    // offset = 4, field_width = 7, field_offset = 5
+ *     int  b : 5;    // offset = 0, field_width = 5, field_offset = 8
+ *     short c : 7;   // offset = 2, field_width = 7, field_offset = 0
  * }
  *
- * Fields also store the number of bits in the backing type, being
- * either 8, 16, 32, or 64.
- *
  * Offset is also used for array parameters marked static, storing the
  * minimal guaranteed number of elements in the array.
  *
@@ -128,7 +125,6 @@ struct member {
     size_t offset;
     short field_width;
     short field_offset;
-    short field_backing;
     struct symbol *sym;
 };
 
diff --git a/src/backend/x86_64/compile.c b/src/backend/x86_64/compile.c
index b4892d5..5125a7c 100644
--- a/src/backend/x86_64/compile.c
+++ b/src/backend/x86_64/compile.c
@@ -655,8 +655,8 @@ static void load_field(struct var v, enum reg r, int w)
     struct registr ax;
 
     assert(is_field(v));
-    assert(v.field_width > 0 && v.field_width < 64);
-    assert(v.field_offset + v.field_width <= 64);
+    assert(v.field_width > 0);
+    assert(v.field_offset + v.field_width <= size_of(v.type) * 8);
 
     if (size_of(v.type) <= 4) {
         ax = reg(r, 4);
@@ -664,7 +664,7 @@ static void load_field(struct var v, enum reg r, int w)
         ax = reg(r, 8);
     }
 
-    emit_load(INSTR_MOV, v, ax);
+    emit_load(size_of(v.type) < 4 ? INSTR_MOVZX : INSTR_MOV, v, ax);
     bits = (ax.width * 8) - (v.field_offset + v.field_width);
     if (bits > 0) {
         emit_ir(INSTR_SHL, constant(bits, 1), ax);
@@ -1293,12 +1293,22 @@ static void store_op(
         opc = INSTR_MOVS;
         assert(optype == OPT_REG);
     } else if (is_field(target)) {
-        assert(target.field_width > 0 && target.field_width < 64);
+        assert(target.field_width > 0);
+        assert(target.field_offset + target.field_width <= w * 8);
+        if (optype == OPT_REG) {
+            /* Do not clobber the register holding the value. */
+            assert(op.width == w);
+            if (op.reg.r != DX) {
+                emit_rr(INSTR_MOV, op.reg, reg(DX, w));
+            }
+            op.reg = reg(DX, w);
+        }
         field = target;
         field.field_width = 0;
         field.field_offset = 0;
         load(field, CX);
-        mask = ((1L << target.field_width) - 1) << target.field_offset;
+        mask = (long) (~0ul >> (64 - target.field_width))
+            << target.field_offset;
         bitwise_imm_reg(INSTR_AND, constant(~mask, w), reg(CX, w));
         if (optype == OPT_IMM) {
             assert(op.imm.type == IMM_INT);
@@ -1313,7 +1323,6 @@ static void store_op(
                 emit_ir(INSTR_SHL,
                     constant(target.field_offset, 1), op.reg);
             }
-            assert(op.width == w);
             bitwise_imm_reg(INSTR_AND, constant(mask, w), op.reg);
             emit_rr(INSTR_OR, reg(CX, w), op.reg);
         }
diff --git a/src/parser/initializer.c b/src/parser/initializer.c
index 800885e..85b6b87 100644
--- a/src/parser/initializer.c
+++ b/src/parser/initializer.c
@@ -677,89 +677,6 @@ static void zero_initialize_bytes(
     }
 }
 
-/*
- * Zero initialize padding bytes between previous and next field
- * assignment.
- *
- * Previous member has offset and field offset pointing to first
- * location not yet initialized. All other properties are undefined.
- *
- * To make IR logical, first try to complete bitfield, then add bytes
- * as needed, and end with potential padding as start of new bitfield.
- */
-static void initialize_padding(
-    struct definition *def,
-    InitializerList *block,
-    struct var prev,
-    struct var next)
-{
-    size_t bytes;
-
-    assert(!prev.field_width);
-    assert(prev.offset <= next.offset);
-    assert(prev.offset * 8 + prev.field_offset
-        <= next.offset * 8 + next.field_offset);
-
-    while (1) {
-        if (prev.offset == next.offset) {
-            assert(prev.field_offset <= next.field_offset);
-            prev.field_width = next.field_offset - prev.field_offset;
-            if (prev.field_width) {
-                if (next.field_offset > 32) {
-                    assert(next.field_offset < 64);
-                    prev.type = basic_type__unsigned_long;
-                } else if (next.field_offset > 16) {
-                    prev.type = basic_type__unsigned_int;
-                } else if (next.field_offset > 8) {
-                    prev.type = basic_type__unsigned_short;
-                } else {
-                    prev.type = basic_type__unsigned_char;
-                }
-
-                zero_initialize(def, block, prev);
-            }
-
-            break;
-        }
-
-        switch (prev.field_offset) {
-        case 8:
-        case 16:
-        case 32:
-        case 64:
-            prev.offset += prev.field_offset / 8;
-            prev.field_offset = 0;
-        case 0:
-            break;
-        default:
-            if (prev.field_offset < 32) {
-                prev.type = basic_type__unsigned_int;
-            } else {
-                assert(prev.field_offset < 64);
-                prev.type = basic_type__unsigned_long;
-            }
-
-            bytes = prev.offset + size_of(prev.type);
-            prev.field_width = size_of(prev.type) * 8 - prev.field_offset;
-            if (bytes > next.offset) {
-                assert(prev.field_width * 8 > (bytes - next.offset));
-                prev.field_width -= (bytes - next.offset) * 8;
-            }
-
-            assert((prev.field_offset + prev.field_width) % 8 == 0);
-            zero_initialize(def, block, prev);
-            prev.offset += (prev.field_offset + prev.field_width) / 8;
-            prev.field_offset = 0;
-            prev.field_width = 0;
-            break;
-        }
-
-        assert(prev.offset <= next.offset);
-        zero_initialize_bytes(def, block, prev, next.offset - prev.offset);
-        prev.offset = next.offset;
-    }
-}
-
 static int is_constant_assignment(const struct statement *st)
 {
     assert(st->st == IR_ASSIGN);
@@ -768,59 +685,80 @@ static int is_constant_assignment(const struct statement *st)
         && st->expr.l.kind == IMMEDIATE;
 }
 
-static int merge_assignments(struct statement *a, const struct statement *b)
+/* Absolute position of an initialized element, in bits. */
+static size_t bit_position(struct var t)
 {
-    long m1, m2;
-
-    if (a->t.offset != b->t.offset
-        || !is_constant_assignment(a)
-        || !is_constant_assignment(b))
-    {
-        return 0;
-    }
-
-    assert(is_field(a->t) && is_field(b->t));
-
-    m1 = ((1l << a->t.field_width) - 1);
-    m2 = ((1l << b->t.field_width) - 1);
-
-    a->t.type = usual_arithmetic_conversion(a->t.type, b->t.type);
-    a->t.field_width += b->t.field_width;
-    a->expr.type = a->t.type;
-    a->expr.l.value.imm.i = ((a->expr.l.value.imm.i & m1) << a->t.field_offset)
-        | ((b->expr.l.value.imm.i & m2) << b->t.field_offset);
-    a->expr.l.type = a->t.type;
-    if (!a->t.field_offset && a->t.field_width == size_of(a->t.type) * 8) {
-        a->t.field_width = 0;
-    }
-
-    return 1;
+    return t.offset * 8 + t.field_offset;
 }
 
 /*
- * Merge adjacent field assignments with constant values.
+ * Initialize a group of consecutive field assignments that share bytes.
+ * All bytes are first assigned as a whole, with values of constant
+ * fields and zero for everything else. Other values are then assigned
+ * to their field.
  *
- * This is a required step for backend to be able to emit correct code,
- * since it can enforce more restrictions on the IR. Static or global
- * variables will always be assigned as whole bytes.
+ * No field cross the boundary of its type, so a group never extends
+ * outside an aligned eightbyte.
+ *
+ * Static or global variables only have constant values, and will always
+ * be assigned as whole bytes.
  */
-static void normalize_field_assignment(InitializerList *block)
+static size_t initialize_fields(
+    InitializerList *block,
+    const struct statement *fields,
+    int count,
+    size_t offset)
 {
     int i;
-    struct statement *a, *b;
+    size_t size, shift;
+    unsigned long image, mask;
+    struct statement st;
 
-    assert(array_len(block) > 1);
-    a = &array_get(block, 0);
+    image = 0;
+    size = 0;
+    for (i = 0; i < count; ++i) {
+        st = fields[i];
+        shift = bit_position(st.t) - offset * 8;
+        size = (shift + st.t.field_width + 7) / 8;
+        assert(size <= 8);
+        if (is_constant_assignment(&st)) {
+            mask = ~0ul >> (64 - st.t.field_width);
+            image |= (st.expr.l.value.imm.u & mask) << shift;
+        }
+    }
 
-    for (i = 1; i < array_len(block); ++i) {
-        b = &array_get(block, i);
-        if (merge_assignments(a, b)) {
-            array_erase(block, i);
-            i--;
+    st = fields[0];
+    st.t.offset = offset;
+    st.t.field_width = 0;
+    st.t.field_offset = 0;
+    while (size) {
+        if (size == 8) {
+            st.t.type = basic_type__unsigned_long;
+        } else if (size >= 4) {
+            st.t.type = basic_type__unsigned_int;
+        } else if (size >= 2) {
+            st.t.type = basic_type__unsigned_short;
         } else {
-            a = b;
+            st.t.type = basic_type__unsigned_char;
+        }
+
+        mask = ~0ul >> (64 - size_of(st.t.type) * 8);
+        st.expr = as_expr(imm_unsigned(st.t.type, image & mask));
+        array_push_back(block, st);
+        st.t.offset += size_of(st.t.type);
+        size -= size_of(st.t.type);
+        if (size) {
+            image >>= size_of(st.t.type) * 8;
         }
     }
+
+    for (i = 0; i < count; ++i) {
+        if (!is_constant_assignment(&fields[i])) {
+            array_push_back(block, fields[i]);
+        }
+    }
+
+    return st.t.offset;
 }
 
 #ifndef NDEBUG
@@ -829,15 +767,15 @@ static void normalize_field_assignment(InitializerList *block)
  * Initializer blocks should always result in a list of assignment
  * operations writing to all bits of the target object, in order.
  *
- * Some additional constrants are put on field assignments; the first
- * assignment to a field on a new offset must have field_offset 0.
+ * Fields with values that are not constant are assigned after the bytes
+ * containing it.
  */
 static size_t validate_contiguous_initialization(InitializerList *block)
 {
     int i;
     size_t bits = 0;
     struct statement st;
-    struct var field, prev;
+    struct var field;
 
     for (i = 0; i < array_len(block); ++i) {
         st = array_get(block, i);
@@ -845,16 +783,11 @@ static size_t validate_contiguous_initialization(InitializerList *block)
         field = st.t;
 
         if (field.field_width) {
-            assert(!field.field_offset
-                || (i && prev.offset == field.offset));
-            assert(field.offset * 8 + field.field_offset == bits);
-            bits += field.field_width;
+            assert(bit_position(field) + field.field_width <= bits);
         } else {
             assert(field.offset * 8 == bits);
             bits += size_of(field.type) * 8;
         }
-
-        prev = field;
     }
 
     assert(bits % 8 == 0);
@@ -875,7 +808,9 @@ static void sort_and_trim(InitializerList *values)
     code = &array_get(values, 0);
     for (i = 1; i < array_len(values); ++i) {
         j = i - 1;
-        while (j >= 0 && code[j].t.offset > code[j + 1].t.offset) {
+        while (j >= 0
+            && bit_position(code[j].t) > bit_position(code[j + 1].t))
+        {
             tmp = code[j];
             code[j] = code[j + 1];
             code[j + 1] = tmp;
@@ -886,10 +821,7 @@ static void sort_and_trim(InitializerList *values)
             }
         }
 
-        if (code[j].t.offset == code[j + 1].t.offset
-            && code[j].t.field_offset == code[j + 1].t.field_offset)
-        {
-            assert(code[j].t.field_width == code[j + 1].t.field_width);
+        if (bit_position(code[j].t) == bit_position(code[j + 1].t)) {
             array_erase(values, j);
             i -= 1;
         }
@@ -908,39 +840,51 @@ static void postprocess_object_initialization(
     InitializerList *values,
     struct var target)
 {
-    int i, has_field;
+    int i, j;
+    size_t offset, end;
     struct statement st;
-    struct var prev, next;
     InitializerList block;
 
     assert(!target.offset);
     sort_and_trim(values);
     block = get_initializer_list();
-    prev = target;
+    target.lvalue = 1;
+    offset = 0;
 
-    for (i = 0, has_field = 0; i < array_len(values); ++i) {
+    for (i = 0; i < array_len(values); i = j) {
         st = array_get(values, i);
-        next = st.t;
         assert(st.st == IR_ASSIGN);
         assert(st.expr.op != IR_OP_CALL);
-        assert(next.is_symbol && next.value.symbol == target.value.symbol);
-        initialize_padding(def, &block, prev, next);
-        array_push_back(&block, st);
-        prev.offset = next.offset;
-        prev.field_offset = next.field_offset + next.field_width;
-        if (!next.field_width) {
-            prev.offset += size_of(next.type);
+        assert(st.t.is_symbol && st.t.value.symbol == target.value.symbol);
+        end = bit_position(st.t) / 8;
+        assert(offset <= end);
+        target.offset = offset;
+        zero_initialize_bytes(def, &block, target, end - offset);
+        offset = end;
+        j = i + 1;
+        if (!st.t.field_width) {
+            array_push_back(&block, st);
+            offset += size_of(st.t.type);
         } else {
-            has_field = 1;
+            while (1) {
+                end = bit_position(st.t) + st.t.field_width;
+                if (j == array_len(values))
+                    break;
+                st = array_get(values, j);
+                if (!st.t.field_width || bit_position(st.t) / 8 * 8 >= end)
+                    break;
+                j++;
+            }
+
+            offset = initialize_fields(
+                &block, &array_get(values, i), j - i, offset);
         }
     }
 
-    next.offset = size_of(target.type);
-    next.field_offset = 0;
-    initialize_padding(def, &block, prev, next);
-    if (has_field) {
-        normalize_field_assignment(&block);
-    }
+    target.offset = offset;
+    zero_initialize_bytes(
+        def, &block, target, size_of(target.type) - offset);
+    target.offset = 0;
 
     release_initializer_block(*values);
     *values = block;
diff --git a/src/parser/typetree.c b/src/parser/typetree.c
index e150e97..f9f44a1 100644
--- a/src/parser/typetree.c
+++ b/src/parser/typetree.c
@@ -51,6 +51,12 @@ struct typetree {
      */
     size_t size;
 
+    /*
+     * Number of bits in the last byte of a struct not yet occupied,
+     * which can be used by a subsequent field member.
+     */
+    int field_bits_left;
+
     /*
      * Symbol holding size of variable length array. Type of variable is
      * always size_t (unsigned long).
@@ -206,6 +212,7 @@ static struct member *add_member(Type parent, struct member m)
     static String dots = SHORT_STRING_INIT("...");
 
     struct typetree *t;
+    size_t size;
 
     assert(is_struct_or_union(parent) || is_function(parent));
     t = get_typetree_handle(parent.ref);
@@ -243,8 +250,12 @@ static struct member *add_member(Type parent, struct member m)
             error("Object is too large.");
             exit(1);
         }
-        if (t->size < m.offset + size_of(m.type)) {
-            t->size = m.offset + size_of(m.type);
+        size = size_of(m.type);
+        if (m.field_width) {
+            size = (m.field_offset + m.field_width + 7) / 8;
+        }
+        if (t->size < m.offset + size) {
+            t->size = m.offset + size;
         }
     } else {
         t->is_incomplete = is_type_placeholder(m.type);
@@ -253,76 +264,6 @@ static struct member *add_member(Type parent, struct member m)
     return &array_back(&t->members);
 }
 
-static Type backing_type_from_bits(int backing_bits)
-{
-    switch (backing_bits) {
-    default: assert(0);
-    case 8:
-        return basic_type__char;
-    case 16:
-        return basic_type__short;
-    case 32:
-        return basic_type__int;
-    case 64:
-        return basic_type__long;
-    }
-}
-
-/*
- * Adjust alignment to next integer width after adding an unnamed zero-
- * width field member.
- *
- * Insert a new field member with the appropriate padding bits. If the
- * previous member is not a field, insert padding to align the next
- * member to integer width.
- *
- * If there are no members, nothing to do. Starting with a zero width
- * field does not put the next member at offset other than 0.
- */
-static void reset_field_alignment(Type type, Type clear)
-{
-    struct typetree *t;
-    int bits, clear_bits, mod;
-    size_t len, clear_size;
-    Type backing;
-    String name = SHORT_STRING_INIT("");
-    const struct member *m;
-
-    assert(is_struct(type));
-    t = get_typetree_handle(type.ref);
-    len = array_len(&t->members);
-    if (!len) {
-        return;
-    }
-
-    clear_size = size_of(clear);
-    clear_bits = clear_size << 3;
-    m = &array_get(&t->members, len - 1);
-    if (m->field_width) {
-        bits = m->field_offset + m->field_width;
-        backing = backing_type_from_bits(m->field_backing);
-        if (clear_bits >= m->field_backing) {
-            assert(bits <= m->field_backing);
-            if (bits != m->field_backing) {
-                type_add_field(type, name, backing, m->field_backing - bits);
-            }
-        } else if (bits > clear_bits) {
-            mod = bits % clear_bits;
-            if (mod) {
-                type_add_field(type, name, backing, mod);
-            }
-        } else {
-            type_add_field(type, name, backing, clear_bits - bits);
-        }
-    }
-
-    if (t->size < clear_size) {
-        t->size = clear_size;
-    } else if (t->size % clear_size != 0) {
-        t->size += t->size % clear_size;
-    }
-}
-
 /*
  * Add necessary padding to parent struct such that new member type can
  * be added. Union types need no padding.
@@ -333,36 +274,14 @@ static void reset_field_alignment(Type type, Type clear)
 static size_t adjust_member_alignment(Type parent, Type type)
 {
     struct typetree *t;
-    struct member *mb;
-    size_t align, bytes, offset;
-    int i;
+    size_t align;
 
     assert(is_struct_or_union(parent));
     if (!is_struct(parent))
         return 0;
 
     t = get_typetree_handle(parent.ref);
-    i = array_len(&t->members) - 1;
-    if (i >= 0) {
-        mb = &array_get(&t->members, i);
-        if (mb->field_backing) {
-            offset = mb->offset;
-            bytes = mb->field_backing - (mb->field_offset + mb->field_width);
-            bytes = bytes / 8;
-            assert(bytes >= 0);
-            if (bytes) {
-                t->size -= bytes;
-                while (mb->offset == offset) {
-                    mb->field_backing -= bytes * 8;
-                    i--;
-                    if (i < 0)
-                        break;
-                    mb = &array_get(&t->members, i);
-                }
-            }
-        }
-    }
-
+    t->field_bits_left = 0;
     align = type_alignment(type);
     if (t->size % align) {
         t->size += align - (t->size % align);
@@ -630,80 +549,33 @@ INTERNAL struct member *type_add_member(Type parent, String name, Type type)
 }
 
 /*
- * Attempt to place next field member right after the previous one.
- *
- *     struct {
- *         int a : 20;    // field_offset = 0, field_width = 20
- *         short b : 10;  // field_offset = 20, field_width = 10
- *         char c : 2;    // field_offset = 30, field_width = 2
- *     }
+ * Add struct or union field member to typetree member list, updating
+ * total size and alignment accordingly.
  *
- * Also pack if the next field can contain the previous field.
+ * Fields are placed directly after the previous member, unless that
+ * would make them cross a boundary of their type. In that case, or for
+ * fields with no width, continue from the next boundary.
  *
  *     struct {
- *         short a : 10;  // field_offset = 0, field_width = 10
- *         int b : 20;    // field_offset = 10, field_width = 20
+ *         int a : 20;    // offset = 0, field_offset = 0
+ *         short b : 10;  // offset = 2, field_offset = 4
+ *         char c : 2;    // offset = 3, field_offset = 6
  *     }
  *
- */
-static int pack_field_member(struct typetree *t, struct member *field)
-{
-    size_t len;
-    int i, bits;
-    struct member *m;
-    const struct member *last;
-
-    len = array_len(&t->members);
-    if (!len) {
-        return 0;
-    }
-
-    last = &array_get(&t->members, len - 1);
-    if (!last->field_width) {
-        return 0;
-    }
-
-    /* Check if possible to pack directly adjacent to last field. */
-    bits = last->field_offset + last->field_width + field->field_width;
-    if (bits <= last->field_backing) {
-        field->offset = last->offset;
-        field->field_offset = last->field_offset + last->field_width;
-        field->field_backing = last->field_backing;
-        return 1;
-    }
-
-    /* Update backing if new field has a bigger slot. */
-    if (bits <= field->field_backing) {
-        field->offset = last->offset;
-        field->field_offset = last->field_offset + last->field_width;
-        for (i = len - 1; i >= 0; --i) {
-            m = &array_get(&t->members, i);
-            if (m->field_width && m->offset == field->offset) {
-                m->field_backing = field->field_backing;
-            } else break;
-        }
-
-        return 1;
-    }
-
-    return 0;
-}
-
-/*
- * Add struct or union field member to typetree member list, updating
- * total size and alignment accordingly.
- *
- * Anonymous union fields are ignored, not needed for alignment.
+ * Unnamed fields have no effect other than padding, and are not added
+ * to the list of members. They do not affect alignment either.
  */
 INTERNAL void type_add_field(Type parent, String name, Type type, size_t width)
 {
     struct member m = {0};
     struct typetree *t;
+    size_t size, bytes;
 
     assert(is_struct_or_union(parent));
     assert(is_integer(type));
 
-    if (width > (size_of(type) << 3) || (is_bool(type) && width > 1)) {
+    size = size_of(type);
+    if (width > (size << 3) || (is_bool(type) && width > 1)) {
         error("Width of bit-field (%lu bits) exceeds width of type %t.",
             width, type);
         exit(1);
@@ -721,76 +593,63 @@ INTERNAL void type_add_field(Type parent, String name, Type type, size_t width)
     m.name = name;
     m.type = type;
     m.field_width = width;
-    m.field_backing = size_of(type) << 3;
     if (is_struct(parent)) {
         t = get_typetree_handle(parent.ref);
-        if (!pack_field_member(t, &m)) {
+        bytes = t->size;
+        if (t->field_bits_left) {
+            m.field_offset = 8 - t->field_bits_left;
+            bytes -= 1;
+        }
+
+        m.field_offset += (bytes % size) * 8;
+        m.offset = bytes - (bytes % size);
+        if (m.field_offset
+            && (!width || m.field_offset + width > (size << 3)))
+        {
             m.field_offset = 0;
-            m.offset = adjust_member_alignment(parent, type);
+            m.offset += size;
         }
+
+        width += m.field_offset;
+        t->size = m.offset + (width + 7) / 8;
+        t->field_bits_left = (8 - (width % 8)) % 8;
     }
 
-    if (!width) {
-        reset_field_alignment(parent, type);
-    } else {
+    if (!str_is_empty(name)) {
         add_member(parent, m);
     }
 }
 
+/*
+ * Add all members of an anonymous struct or union, relative to where an
+ * object of that type would be placed.
+ */
 INTERNAL void type_add_anonymous_member(Type parent, Type type)
 {
     int i;
-    size_t offset;
+    size_t offset, size;
     struct member m;
     struct typetree *t;
 
     assert(is_struct_or_union(parent));
     assert(is_struct_or_union(type));
-    t = get_typetree_handle(type.ref);
-    if (is_struct(parent) && is_union(type)) {
-        offset = adjust_member_alignment(parent, type);
-        for (i = 0; i < nmembers(type); ++i) {
-            m = array_get(&t->members, i);
-            m.offset += offset;
-            add_member(parent, m);
-        }
-    } else if (is_union(parent) && is_struct(type)) {
-        for (i = 0; i < nmembers(type); ++i) {
-            m = array_get(&t->members, i);
-            add_member(parent, m);
-        }
-    } else {
-        for (i = 0; i < nmembers(type); ++i) {
-            m = array_get(&t->members, i);
-            type_add_member(parent, m.name, m.type);
-        }
+    offset = adjust_member_alignment(parent, type);
+    size = size_of(type);
+    if (LONG_MAX - offset < size) {
+        error("Object is too large.");
+        exit(1);
     }
-}
 
-/*
- * Remove anonymous field members, which are only kept for alignment
- * during type construction. Return largest remaining member alignment.
- */
-static size_t remove_anonymous_fields(struct typetree *t)
-{
-    int i;
-    size_t align, maxalign;
-    struct member *m;
-
-    maxalign = 0;
-    for (i = array_len(&t->members) - 1; i >= 0; --i) {
-        m = &array_get(&t->members, i);
-        if (str_is_empty(m->name)) {
-            array_erase(&t->members, i);
-        } else {
-            align = type_alignment(m->type);
-            if (align > maxalign) {
-                maxalign = align;
-            }
-        }
+    for (i = 0; i < nmembers(type); ++i) {
+        m = *get_member(type, i);
+        m.offset += offset;
+        add_member(parent, m);
     }
 
-    return maxalign;
+    t = get_typetree_handle(parent.ref);
+    if (t->size < offset + size) {
+        t->size = offset + size;
+    }
 }
 
 /*
@@ -810,13 +669,13 @@ INTERNAL void type_seal(Type type)
         t->is_incomplete = 0;
     } else {
         assert(is_struct_or_union(type));
-        align = remove_anonymous_fields(t);
-        if (align == 0) {
+        if (!nmembers(type)) {
             error("%s has no named members.",
                 is_struct(type) ? "Struct" : "Union");
             exit(1);
         }
 
+        align = type_alignment(type);
         if (t->size % align) {
             t->size += align - (t->size % align);
         }
@@ -915,8 +774,11 @@ static int typetree_equal(const struct typetree *a, const struct typetree *b)
         if (!type_equal(ma->type, mb->type)) {
             return 0;
         } else if (a->type != T_FUNCTION) {
-            assert(ma->offset == mb->offset);
-            if (!str_eq(ma->name, mb->name)) {
+            if (!str_eq(ma->name, mb->name)
+                || ma->offset != mb->offset
+                || ma->field_offset != mb->field_offset
+                || ma->field_width != mb->field_width)
+            {
                 return 0;
             }
         }
@@ -958,8 +820,11 @@ static int typetree_equal_unqualified(
         if (!type_equal_unqualified(ma->type, mb->type)) {
             return 0;
         } else if (a->type != T_FUNCTION) {
-            assert(ma->offset == mb->offset);
-            if (!str_eq(ma->name, mb->name)) {
+            if (!str_eq(ma->name, mb->name)
+                || ma->offset != mb->offset
+                || ma->field_offset != mb->field_offset
+                || ma->field_width != mb->field_width)
+            {
                 return 0;
             }
         }
@@ -1366,9 +1231,8 @@ INTERNAL int fprinttype(FILE *stream, Type type, const struct symbol *expand)
                 n += fprintf(stream, ".%s::", str_raw(m->name));
                 n += fprinttype(stream, m->type, NULL);
                 if (m->field_width) {
-                    n += fprintf(stream, " (+%lu:%d:%d):%d",
-                        m->offset, m->field_offset, m->field_width,
-                        m->field_backing);
+                    n += fprintf(stream, " (+%lu:%d:%d)",
+                        m->offset, m->field_offset, m->field_width);
                 } else {
                     n += fprintf(stream, " (+%lu)", m->offset);
                 }
-- 
2.43.0


From 8d3569070978cf7291ea007d429f5d2bd282af0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:56 +0000
Subject: [PATCH 19/63] fix: unnamed bit-fields of a union contribute to its
 size

---
 src/parser/typetree.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parser/typetree.c b/src/parser/typetree.c
index f9f44a1..c2de3d7 100644
--- a/src/parser/typetree.c
+++ b/src/parser/typetree.c
@@ -587,6 +587,12 @@ INTERNAL void type_add_field(Type parent, String name, Type type, size_t width)
     }
 
     if (is_union(parent) && str_is_empty(name)) {
+        t = get_typetree_handle(parent.ref);
+        bytes = (width + 7) / 8;
+        if (t->size < bytes) {
+            t->size = bytes;
+        }
+
         return;
     }
 
-- 
2.43.0


From 90fb4719f1e6fdc9370e78dc5b18f15aa44ed708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:42 +0000
Subject: [PATCH 20/63] fix: bit-field operands are promoted before arithmetic;
 64-bit wide fields; pass structs with _Bool members

---
 src/backend/x86_64/abi.c |  5 +++++
 src/parser/eval.c        | 24 +++++++++++++++++++++++-
 src/parser/expression.c  |  1 +
 3 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/src/backend/x86_64/abi.c b/src/backend/x86_64/abi.c
index 2d2801a..08a829b 100644
--- a/src/backend/x86_64/abi.c
+++ b/src/backend/x86_64/abi.c
@@ -58,6 +58,7 @@ static struct param_class flatten(
             pc.eightbyte[i + 1] = combine(pc.eightbyte[i + 1], PC_X87UP);
         }
         break;
+    case T_BOOL:
     case T_CHAR:
     case T_INT:
     case T_SHORT:
@@ -89,6 +90,10 @@ static struct param_class merge(struct param_class pc, int n)
 
     for (i = 0; i < n; ++i) {
         switch (pc.eightbyte[i]) {
+        case PC_NO_CLASS:
+            /* There can be only unnamed bit-fields in this eightbyte. */
+            pc.eightbyte[i] = PC_INTEGER;
+            break;
         case PC_X87UP:
             if (i && pc.eightbyte[i - 1] == PC_X87)
                 break;
diff --git a/src/parser/eval.c b/src/parser/eval.c
index f01507e..16563f0 100644
--- a/src/parser/eval.c
+++ b/src/parser/eval.c
@@ -531,6 +531,8 @@ INTERNAL struct expression eval_mul(
         exit(1);
     }
 
+    l = rvalue(def, block, l);
+    r = rvalue(def, block, r);
     type = usual_arithmetic_conversion(l.type, r.type);
     l = cast_operand(def, block, l, type);
     r = cast_operand(def, block, r, type);
@@ -572,6 +574,8 @@ INTERNAL struct expression eval_div(
         exit(1);
     }
 
+    l = rvalue(def, block, l);
+    r = rvalue(def, block, r);
     type = usual_arithmetic_conversion(l.type, r.type);
     l = cast_operand(def, block, l, type);
     r = cast_operand(def, block, r, type);
@@ -606,6 +610,8 @@ INTERNAL struct expression eval_mod(
     Type type = basic_type__void;
 
     if (is_arithmetic(l.type) && is_arithmetic(r.type)) {
+        l = rvalue(def, block, l);
+        r = rvalue(def, block, r);
         type = usual_arithmetic_conversion(l.type, r.type);
     }
 
@@ -996,6 +1002,8 @@ INTERNAL struct expression eval_or(
         exit(1);
     }
 
+    l = rvalue(def, block, l);
+    r = rvalue(def, block, r);
     type = usual_arithmetic_conversion(l.type, r.type);
     l = cast_operand(def, block, l, type);
     r = cast_operand(def, block, r, type);
@@ -1026,6 +1034,8 @@ INTERNAL struct expression eval_xor(
         exit(1);
     }
 
+    l = rvalue(def, block, l);
+    r = rvalue(def, block, r);
     type = usual_arithmetic_conversion(l.type, r.type);
     l = cast_operand(def, block, l, type);
     r = cast_operand(def, block, r, type);
@@ -1056,6 +1066,8 @@ INTERNAL struct expression eval_and(
         exit(1);
     }
 
+    l = rvalue(def, block, l);
+    r = rvalue(def, block, r);
     type = usual_arithmetic_conversion(l.type, r.type);
     l = cast_operand(def, block, l, type);
     r = cast_operand(def, block, r, type);
@@ -1086,6 +1098,8 @@ INTERNAL struct expression eval_lshift(
         exit(1);
     }
 
+    l = rvalue(def, block, l);
+    r = rvalue(def, block, r);
     type = promote_integer(l.type);
     l = cast_operand(def, block, l, type);
     if (l.kind == IMMEDIATE && r.kind == IMMEDIATE) {
@@ -1115,6 +1129,8 @@ INTERNAL struct expression eval_rshift(
         exit(1);
     }
 
+    l = rvalue(def, block, l);
+    r = rvalue(def, block, r);
     type = promote_integer(l.type);
     l = cast_operand(def, block, l, type);
     if (l.kind == IMMEDIATE && r.kind == IMMEDIATE) {
@@ -1143,6 +1159,7 @@ INTERNAL struct expression eval_not(
         exit(1);
     }
 
+    var = rvalue(def, block, var);
     type = promote_integer(var.type);
     var = cast_operand(def, block, var, type);
     if (var.kind == IMMEDIATE) {
@@ -1641,12 +1658,17 @@ static struct var assign_field(
     }
 
     if (is_immediate(expr)) {
-        mask = (1l << target.field_width) - 1;
+        mask = (long) (~0ul >> (64 - target.field_width));
         expr.l.value.imm.i &= mask;
         if (is_signed(target.type)
             && (expr.l.value.imm.i & (1l << (target.field_width - 1))))
         {
             expr.l.value.imm.i |= ~mask;
+        } else if (is_unsigned(target.type) && target.field_width >= 32) {
+            /* Not representable in int, or the wider signed type. */
+            type = is_int(target.type)
+                ? basic_type__unsigned_int
+                : basic_type__unsigned_long;
         }
         expr.l.type = type;
         expr.type = type;
diff --git a/src/parser/expression.c b/src/parser/expression.c
index e64d32f..2471330 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -364,6 +364,7 @@ static struct block *unary_expression(
         next();
         block = cast_expression(def, block);
         value = eval(def, block, block->expr);
+        value = rvalue(def, block, value);
         block->expr = eval_unary_plus(value);
         break;
     case '-':
-- 
2.43.0


From 7975fe6c80441e5510c8e358a4db80f59cd6024b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:20 +0000
Subject: [PATCH 21/63] fix: initialize nested, anonymous and overridden
 elements of aggregates as designated

---
 include/lacc/type.h      |   6 +
 src/parser/eval.c        |   8 +
 src/parser/initializer.c | 749 +++++++++++++++++++++------------------
 src/parser/typetree.c    |   2 +
 4 files changed, 415 insertions(+), 350 deletions(-)

diff --git a/include/lacc/type.h b/include/lacc/type.h
index 25487c1..4fda4eb 100644
--- a/include/lacc/type.h
+++ b/include/lacc/type.h
@@ -118,6 +118,10 @@ EXTERNAL const Type
  *
  * Symbol is used for function parameters, pointing to the actual
  * instances registered in the definition.
+ *
+ * Members of anonymous structs or unions are added to the containing
+ * type, but keep a reference to the type and position of the anonymous
+ * member they came from.
  */
 struct member {
     String name;
@@ -126,6 +130,8 @@ struct member {
     short field_width;
     short field_offset;
     struct symbol *sym;
+    Type anonymous;
+    size_t anonymous_offset;
 };
 
 /* Get the number of struct or union members, or function parameters. */
diff --git a/src/parser/eval.c b/src/parser/eval.c
index 16563f0..8872a61 100644
--- a/src/parser/eval.c
+++ b/src/parser/eval.c
@@ -1634,6 +1634,7 @@ static struct var assign_field(
 {
     Type type;
     long mask;
+    struct var val;
 
     assert(is_field(target));
     assert(is_integer(target.type));
@@ -1657,6 +1658,13 @@ static struct var assign_field(
         break;
     }
 
+    if (is_real(expr.type) && !is_bool(target.type)) {
+        val = eval(def, block, expr);
+        expr = eval_cast(def, block, val, is_unsigned(target.type)
+            ? basic_type__unsigned_long
+            : basic_type__long);
+    }
+
     if (is_immediate(expr)) {
         mask = (long) (~0ul >> (64 - target.field_width));
         expr.l.value.imm.i &= mask;
diff --git a/src/parser/initializer.c b/src/parser/initializer.c
index 85b6b87..d483403 100644
--- a/src/parser/initializer.c
+++ b/src/parser/initializer.c
@@ -44,6 +44,25 @@ static void release_initializer_block(InitializerList list)
     array_push_back(&inititializer_lists, list);
 }
 
+/*
+ * Unions are initialized through one member only. Keep track of which
+ * one it is, to be able to discard its elements if a later designator
+ * selects another.
+ */
+struct active_member {
+    Type type;
+    size_t offset;
+    int index;
+};
+
+static array_of(struct active_member) active_members;
+
+/* State of the object being initialized. */
+static struct {
+    int active_members;     /* Number of unions in enclosing objects. */
+    size_t end;             /* Last bit that has been initialized. */
+} current_object;
+
 INTERNAL void initializer_finalize(void)
 {
     int i;
@@ -55,6 +74,7 @@ INTERNAL void initializer_finalize(void)
     }
 
     array_clear(&inititializer_lists);
+    array_clear(&active_members);
 }
 
 static struct block *initialize_member(
@@ -63,6 +83,12 @@ static struct block *initialize_member(
     InitializerList *values,
     struct var target);
 
+static void zero_initialize_bytes(
+    struct definition *def,
+    InitializerList *values,
+    struct var target,
+    size_t bytes);
+
 static int is_loadtime_constant(struct expression expr)
 {
     if (!is_identity(expr))
@@ -124,31 +150,6 @@ static struct block *read_initializer_element(
     return block;
 }
 
-enum current_object_state {
-    CURRENT,        /* Current object. */
-    DESIGNATOR,     /* In designator. */
-    MEMBER
-};
-
-static int next_element(enum current_object_state state)
-{
-    if (peek() == ',') {
-        switch (peekn(2)) {
-        case '}':
-            break;
-        case '.':
-            if (state != CURRENT) {
-                break;
-            }
-        default:
-            next();
-            return 1;
-        }
-    }
-
-    return 0;
-}
-
 static struct var access_member(
     struct var target,
     const struct member *member,
@@ -161,145 +162,197 @@ static struct var access_member(
     return target;
 }
 
-static const struct member *get_named_member(
-    Type type,
-    String name,
-    int *i)
+/* Absolute position of an initialized element, in bits. */
+static size_t bit_position(struct var t)
 {
-    const struct member *member;
+    return t.offset * 8 + t.field_offset;
+}
 
-    member = find_type_member(type, name, i);
-    if (member == NULL) {
-        error("%t has no member named %s.", type, str_raw(name));
-        exit(1);
-    }
+static size_t bit_size(struct var t)
+{
+    return t.field_width ? t.field_width : size_of(t.type) * 8;
+}
+
+/* Replace assignment of a string with one assignment per character. */
+static void split_string_initializer(InitializerList *values, int n)
+{
+    size_t i, len;
+    String str;
+    struct statement st;
 
-    return member;
+    st = array_get(values, n);
+    array_erase(values, n);
+    assert(is_array(st.t.type));
+    assert(st.expr.l.value.symbol->symtype == SYM_LITERAL);
+    len = size_of(st.t.type);
+    str = st.expr.l.value.symbol->value.string;
+    st.t.type = basic_type__unsigned_char;
+    for (i = 0; i < len; ++i) {
+        st.expr = as_expr(imm_unsigned(basic_type__unsigned_char,
+            i < str_len(str) ? str_raw(str)[i] & 0xFF : 0));
+        array_push_back(values, st);
+        st.t.offset++;
+    }
 }
 
 /*
- * Initialize the first union member, or the last member specified by a
- * designator.
- *
- * If the initialized element is not also the largest member, or if
- * there is padding, the remaining memory is undefined.
- *
- * With designators, there can be arbitrary many member initializers,
- * but only the last one should count. Evaluate each member in its own
- * block to cleanly reset.
- *
- *     union {
- *         struct { int x, y; } p;
- *         int q;
- *     } foo = {{1, 2}, .q = 3};
+ * Remove all previous initializers of elements contained in target,
+ * which is about to be initialized again.
  *
- * In the above definition, we want the value of foo.p.y to be 0, even
- * though the assignment to .q does not overwrite it.
+ * If there is an initializer for an object containing the target, then
+ * what is not explicitly assigned again must be zero.
  */
-static struct block *initialize_union(
+static void override_elements(
     struct definition *def,
-    struct block *block,
     InitializerList *values,
     struct var target,
-    enum current_object_state state)
+    int zero)
 {
-    int done;
-    size_t filled;
-    InitializerList init;
-    const struct member *member;
-    Type type;
-    String name;
+    int i;
+    size_t start, end, pos;
+    struct statement st;
 
-    done = 0;
-    filled = target.offset;
-    type = target.type;
-    init = get_initializer_list();
-    assert(is_union(type));
-    assert(nmembers(type) > 0);
+    start = bit_position(target);
+    end = start + bit_size(target);
+    if (start >= current_object.end)
+        return;
 
-    do {
-        if (try_consume('.')) {
-            consume(IDENTIFIER);
-            name = access_token(0)->d.string;
-            member = get_named_member(type, name, NULL);
-            target = access_member(target, member, filled);
-            if (peek() == '=') {
-                next();
+    for (i = array_len(values) - 1; i >= 0; --i) {
+        st = array_get(values, i);
+        pos = bit_position(st.t);
+        if (pos >= start && pos + bit_size(st.t) <= end) {
+            array_erase(values, i);
+        } else if (pos <= start && pos + bit_size(st.t) >= end) {
+            if (is_array(st.t.type)) {
+                split_string_initializer(values, i);
+                i = array_len(values);
+            } else if (zero) {
+                assert(start % 8 == 0);
+                zero = 0;
+                for (pos = start; pos < end; pos += 8) {
+                    target.offset = pos / 8;
+                    zero_initialize_bytes(def, values, target, 1);
+                }
+                break;
             }
-        } else if (!done) {
-            member = get_member(type, 0);
-            target = access_member(target, member, filled);
-        } else break;
-        array_empty(&init);
-        block = initialize_member(def, block, &init, target);
-        done = 1;
-    } while (next_element(state));
-
-    array_concat(values, &init);
-    release_initializer_block(init);
-    return block;
+        }
+    }
+}
+
+/* Make i the only member of the union having a value. */
+static void activate_union_member(
+    struct definition *def,
+    InitializerList *values,
+    struct var target,
+    int index)
+{
+    int i;
+    struct active_member *ptr, active = {0};
+
+    assert(is_union(target.type));
+    for (i = current_object.active_members; i < array_len(&active_members); ++i) {
+        ptr = &array_get(&active_members, i);
+        if (ptr->offset == target.offset
+            && type_equal(ptr->type, target.type))
+        {
+            if (ptr->index != index) {
+                ptr->index = index;
+                override_elements(def, values, target, 0);
+            }
+            return;
+        }
+    }
+
+    active.type = target.type;
+    active.offset = target.offset;
+    active.index = index;
+    array_push_back(&active_members, active);
 }
 
 /*
- * Initialize members of a struct.
+ * Find element of aggregate by index. Anonymous members are represented
+ * by all their members, but initialized as a single element.
  *
- * Members of structs can have overlapping offsets from anonymous union
- * fields. Act as if only the first element is initialized by skipping
- * all consecutive elements with the same offset.
+ * Return index of the next element.
  */
-static struct block *initialize_struct(
+static size_t access_element(
     struct definition *def,
-    struct block *block,
     InitializerList *values,
     struct var target,
-    enum current_object_state state)
+    size_t i,
+    struct var *element)
 {
-    int i, m;
-    size_t filled;
-    Type type;
-    String name;
-    const struct member *member, *prev;
+    const struct member *member;
 
-    prev = NULL;
-    target.lvalue = 1;
-    filled = target.offset;
-    type = target.type;
-    assert(is_struct(type));
-    assert(nmembers(type) > 0);
+    *element = target;
+    if (is_array(target.type)) {
+        element->type = type_next(target.type);
+        element->offset = target.offset + i * size_of(element->type);
+        return i + 1;
+    }
 
-    m = nmembers(type);
-    i = 0;
+    if (is_union(target.type)) {
+        activate_union_member(def, values, target, i);
+    }
 
-    do {
-        if (!block->has_init_value && try_consume('.')) {
-            consume(IDENTIFIER);
-            name = access_token(0)->d.string;
-            member = get_named_member(type, name, &i);
-            target = access_member(target, member, filled);
-            if (peek() == '=') {
-                next();
-            }
-            block = initialize_member(def, block, values, target);
-            prev = member;
-            i += 1;
-        } else {
-            while (1) {
-                member = get_member(type, i);
-                i += 1;
-                if (!prev
-                    || prev->offset != member->offset
-                    || prev->field_offset != member->field_offset)
-                    break;
-            }
-            prev = member;
-            target = access_member(target, member, filled);
-            block = initialize_member(def, block, values, target);
-            if (i >= m)
+    member = get_member(target.type, i);
+    if (is_struct_or_union(member->anonymous)) {
+        element->type = member->anonymous;
+        element->offset = target.offset + member->anonymous_offset;
+        i += nmembers(member->anonymous);
+    } else {
+        *element = access_member(target, member, target.offset);
+        i += 1;
+    }
+
+    return is_union(target.type) ? nmembers(target.type) : i;
+}
+
+/* Find index of named member, or of the anonymous member containing it. */
+static size_t find_element(Type type, String name)
+{
+    int i;
+    const struct member *member, *prev;
+
+    member = find_type_member(type, name, &i);
+    if (member == NULL) {
+        error("%t has no member named %s.", type, str_raw(name));
+        exit(1);
+    }
+
+    if (is_struct_or_union(member->anonymous)) {
+        while (i > 0) {
+            prev = get_member(type, i - 1);
+            if (!is_struct_or_union(prev->anonymous)
+                || !type_equal(prev->anonymous, member->anonymous))
                 break;
+            i--;
         }
-    } while (next_element(state));
+    }
 
-    return block;
+    return i;
+}
+
+static size_t read_array_index(Type type)
+{
+    struct var num;
+
+    consume('[');
+    num = constant_expression();
+    consume(']');
+    if (!is_integer(num.type)) {
+        error("Array designator must have integer value.");
+        exit(1);
+    }
+
+    if ((is_signed(num.type) && num.value.imm.i < 0)
+        || (size_of(type) && num.value.imm.u >= type_array_len(type)))
+    {
+        error("Array designator index is out of bounds.");
+        exit(1);
+    }
+
+    return num.value.imm.u;
 }
 
 /*
@@ -308,272 +361,262 @@ static struct block *initialize_struct(
  * Assignment evaluation can generate a cast statement, which needs to
  * be added to the normal block.
  */
-static struct var assign_initializer_element(
+static void assign_initializer_element(
     struct definition *def,
     struct block *block,
     InitializerList *values,
     struct var target)
 {
-    struct var t;
+    size_t end;
     struct statement st;
+
     assert(target.kind == DIRECT);
     assert(block->has_init_value);
 
-    t = eval_assign(def, block, target, block->expr);
+    target.lvalue = 1;
+    override_elements(def, values, target, is_array(target.type));
+    eval_assign(def, block, target, block->expr);
     st = array_pop_back(&def->statements);
     assert(st.st == IR_ASSIGN);
     array_push_back(values, st);
+    end = bit_position(st.t) + bit_size(st.t);
+    if (end > current_object.end) {
+        current_object.end = end;
+    }
+
     block->has_init_value = 0;
     block->count--;
-    return t;
 }
 
+static int is_string_initializer(Type type, struct expression expr)
+{
+    return is_array(type)
+        && is_char(type_next(type))
+        && is_identity(expr)
+        && is_array(expr.type)
+        && expr.l.kind == DIRECT
+        && expr.l.value.symbol->symtype == SYM_LITERAL;
+}
+
+static struct block *initialize_aggregate(
+    struct definition *def,
+    struct block *block,
+    InitializerList *values,
+    struct var target,
+    int braced,
+    int designated,
+    const String *name);
+
 /*
- * Read initializer for struct or union. Make sure to read first element
- * if possible, to catch assignments of aggregate values initializing
- * the whole object at once.
- *
- *     struct A { char c; } foo = { 'a' };
- *     struct { struct A a; } bar = { foo };
+ * Initialize element selected by a designator. Name is already known if
+ * it is found in an anonymous member.
  *
+ * Set index to the element following the one designated.
  */
-static struct block *initialize_struct_or_union(
+static struct block *initialize_designated(
     struct definition *def,
     struct block *block,
     InitializerList *values,
     struct var target,
-    enum current_object_state state)
+    const String *name,
+    size_t *index)
 {
-    assert(is_struct_or_union(target.type));
-    assert(nmembers(target.type) > 0);
-
-    if (!block->has_init_value) switch (peek()) {
-    case '.':
-    case '{':
-    case '[':
-        break;
-    default:
-        assert(target.is_symbol);
-        block = read_initializer_element(def, block, target.value.symbol);
-        break;
-    }
+    int i;
+    String str;
+    struct var element;
 
-    if (block->has_init_value
-        && is_compatible_unqualified(target.type, block->expr.type))
-    {
-        assign_initializer_element(def, block, values, target);
-    } else if (is_union(target.type)) {
-        block = initialize_union(def, block, values, target, state);
+    if (is_array(target.type)) {
+        *index = read_array_index(target.type);
+        *index = access_element(def, values, target, *index, &element);
     } else {
-        block = initialize_struct(def, block, values, target, state);
-    }
-
-    return block;
-}
+        if (!name) {
+            consume('.');
+            consume(IDENTIFIER);
+            str = access_token(0)->d.string;
+            name = &str;
+        }
 
-static int has_next_array_element(
-    enum current_object_state state,
-    int *is_designator)
-{
-    *is_designator = 0;
-    if (peek() == ',') {
-        switch (peekn(2)) {
-        case '}':
-        case '.':
-            break;
-        case '[':
-            if (state != CURRENT) {
-                break;
-            }
-            *is_designator = 1;
-        default:
-            return 1;
+        i = find_element(target.type, *name);
+        *index = access_element(def, values, target, i, &element);
+        if (is_struct_or_union(get_member(target.type, i)->anonymous)) {
+            return initialize_aggregate(
+                def, block, values, element, 0, 1, name);
         }
     }
 
-    return 0;
-}
-
-static int try_parse_index(size_t *index)
-{
-    struct var num;
-
-    if (try_consume('[')) {
-        num = constant_expression();
-        if (!is_integer(num.type)) {
-            error("Array designator must have integer value.");
+    if (peek() == '.' || peek() == '[') {
+        if (!is_aggregate(element.type)) {
+            error("Designator for element of scalar type %t.", element.type);
             exit(1);
         }
 
-        consume(']');
-        *index = num.value.imm.i;
-        return 1;
+        return initialize_aggregate(def, block, values, element, 0, 1, NULL);
     }
 
-    return 0;
+    consume('=');
+    return initialize_member(def, block, values, element);
 }
 
 /*
- * Initialize array types with brace-enclosed values, or string literal.
+ * Initialize elements of an array, struct or union, in order.
+ *
+ * Only lists enclosed in braces can have designators, except that there
+ * might be one already read, or being read, for the first element.
+ * Without braces, take no more than what is needed from the list.
  *
  *     a[] = {1, 2, 3};
- *     b[] = "Hello world"
  *     c[2][3] = {1, 2, 3, {4, 5, 6}}
+ *     struct { struct { int x, y; } p; int q; } b = {.p.x = 1, 2, 3};
  *
- * Handle special case of incomplete array type, and assignment to
- * arrays which are longer than the string itself. In that case, the
- * rest of the array is initialized to zero.
- *
- *      char foo[5] = "Hi"
- *
- * This will generates the following IR assignments, after padding is
- * added at the end:
- *
- *      foo = "Hi"
- *      foo[3] = 0
- *      foo[4] = 0
  */
-static struct block *initialize_array(
+static struct block *initialize_aggregate(
     struct definition *def,
     struct block *block,
     InitializerList *values,
     struct var target,
-    enum current_object_state state)
+    int braced,
+    int designated,
+    const String *name)
 {
-    int is_designator;
-    Type type, elem;
-    size_t initial, width, count, i, c;
-
-    assert(is_array(target.type));
-    assert(target.kind == DIRECT);
-
-    i = c = 0;
-    count = type_array_len(target.type);
-    type = target.type;
-    elem = type_next(type);
-    width = size_of(elem);
-    initial = target.offset;
-
-    /*
-     * Need to read expression to determine if element is a string
-     * constant, or an integer like "Hello"[2].
-     */
-    if (!block->has_init_value) switch (peek()) {
-    case '.':
-    case '{':
-    case '[':
-        break;
-    default:
-        block = read_initializer_element(def, block, target.value.symbol);
-        break;
+    size_t i, length, count;
+    struct var element;
+    enum token_type t;
+    int bounded;
+
+    i = length = 0;
+    bounded = 1;
+    if (is_array(target.type)) {
+        count = type_array_len(target.type);
+        bounded = size_of(target.type) != 0;
+    } else {
+        count = nmembers(target.type);
+        assert(count > 0);
     }
 
-    /* Assign string literal to initialize the whole array. */
-    if (block->has_init_value
-        && is_char(elem)
-        && is_identity(block->expr)
-        && is_array(block->expr.type)
-        && block->expr.l.kind == DIRECT
-        && block->expr.l.value.symbol->symtype == SYM_LITERAL)
-    {
-        target = assign_initializer_element(def, block, values, target);
-    } else {
-        target.type = elem;
-        while (1) {
-            if (try_parse_index(&i) && peek() == '=') {
-                next();
-            }
+    while (1) {
+        if (name || (!block->has_init_value
+            && (braced || designated)
+            && (peek() == '.' || peek() == '[')))
+        {
+            block = initialize_designated(def, block, values, target, name, &i);
+            designated = 0;
+            name = NULL;
+        } else {
+            assert(!bounded || i < count);
+            i = access_element(def, values, target, i, &element);
+            block = initialize_member(def, block, values, element);
+        }
 
-            target.offset = initial + (i * width);
-            block = initialize_member(def, block, values, target);
-            i += 1;
-            c = i > c ? i : c;
-            if (has_next_array_element(state, &is_designator)) {
-                if (!is_designator && count && c >= count)
-                    break;
-                consume(',');
-            } else break;
+        if (i > length) {
+            length = i;
         }
+
+        if (peek() != ',')
+            break;
+        t = peekn(2);
+        if (t == '}')
+            break;
+        if (t == '.' || t == '[') {
+            if (!braced)
+                break;
+        } else if (bounded && i >= count)
+            break;
+        consume(',');
     }
 
-    if (!size_of(type)) {
+    if (!bounded) {
         assert(is_array(target.value.symbol->type));
         assert(!size_of(target.value.symbol->type));
-        set_array_length(target.value.symbol->type, c);
+        set_array_length(target.value.symbol->type, length);
     }
 
     return block;
 }
 
+/*
+ * Initialize object, with value enclosed in braces, or with as many of
+ * the following values as needed.
+ *
+ * Make sure to read the first value of an aggregate, to catch strings
+ * and assignments of aggregate values initializing the whole object at
+ * once.
+ *
+ *     struct A { char c; } foo = { 'a' };
+ *     struct { struct A a; } bar = { foo };
+ *
+ * Strings can be enclosed in braces. In case of assignment to arrays
+ * which are longer than the string itself, the rest of the array is
+ * initialized to zero.
+ *
+ *      char foo[5] = "Hi"
+ *
+ * This will generate the following IR assignments, after padding is
+ * added at the end:
+ *
+ *      foo = "Hi"
+ *      foo[3] = 0
+ *      foo[4] = 0
+ */
 static struct block *initialize_member(
     struct definition *def,
     struct block *block,
     InitializerList *values,
     struct var target)
 {
+    int braced;
+
     assert(target.kind == DIRECT);
+    if (is_array(target.type) && !size_of(target.type) && target.offset) {
+        error("Invalid initialization of flexible array member.");
+        exit(1);
+    }
 
-    if (is_struct_or_union(target.type)) {
-        if (!block->has_init_value && try_consume('{')) {
-            block = initialize_struct_or_union(def, block, values, target, CURRENT);
-            try_consume(',');
-            consume('}');
-        } else {
-            block = initialize_struct_or_union(def, block, values, target, DESIGNATOR);
-        }
-    } else if (is_array(target.type)) {
-        if (!size_of(target.type)) {
-            error("Invalid initialization of flexible array member.");
-            exit(1);
-        }
-        if (!block->has_init_value && try_consume('{')) {
-            block = initialize_array(def, block, values, target, CURRENT);
-            try_consume(',');
-            consume('}');
+    braced = !block->has_init_value && try_consume('{');
+    if (!is_aggregate(target.type)) {
+        if (braced) {
+            block = initialize_member(def, block, values, target);
         } else {
-            block = initialize_array(def, block, values, target, DESIGNATOR);
+            if (!block->has_init_value) {
+                block = read_initializer_element(
+                    def, block, target.value.symbol);
+            }
+            assign_initializer_element(def, block, values, target);
         }
     } else {
-        if (!block->has_init_value) {
-            if (try_consume('{')) {
-                block = read_initializer_element(def, block, target.value.symbol);
-                consume('}');
-            } else {
-                block = read_initializer_element(def, block, target.value.symbol);
-            }
+        if (braced) {
+            override_elements(def, values, target, 1);
         }
 
-        assign_initializer_element(def, block, values, target);
-    }
-
-    return block;
-}
-
-static struct block *initialize_object(
-    struct definition *def,
-    struct block *block,
-    InitializerList *values,
-    struct var target)
-{
-    assert(target.kind == DIRECT);
-    assert(!block->has_init_value);
+        if (!block->has_init_value && (!braced || is_array(target.type))) {
+            switch (peek()) {
+            case '.':
+            case '[':
+            case '{':
+                break;
+            default:
+                block = read_initializer_element(
+                    def, block, target.value.symbol);
+                break;
+            }
+        }
 
-    if (try_consume('{')) {
-        if (is_struct_or_union(target.type)) {
-            block = initialize_struct_or_union(def, block, values, target, CURRENT);
-        } else if (is_array(target.type)) {
-            block = initialize_array(def, block, values, target, CURRENT);
+        if (block->has_init_value
+            && (is_string_initializer(target.type, block->expr)
+                || (!braced
+                    && is_struct_or_union(target.type)
+                    && is_compatible_unqualified(
+                        target.type, block->expr.type))))
+        {
+            assign_initializer_element(def, block, values, target);
         } else {
-            block = initialize_object(def, block, values, target);
+            block = initialize_aggregate(
+                def, block, values, target, braced, 0, NULL);
         }
+    }
 
+    if (braced) {
         try_consume(',');
         consume('}');
-    } else if (is_array(target.type)) {
-        block = initialize_array(def, block, values, target, MEMBER);
-    } else {
-        block = read_initializer_element(def, block, target.value.symbol);
-        assign_initializer_element(def, block, values, target);
     }
 
     return block;
@@ -685,12 +728,6 @@ static int is_constant_assignment(const struct statement *st)
         && st->expr.l.kind == IMMEDIATE;
 }
 
-/* Absolute position of an initialized element, in bits. */
-static size_t bit_position(struct var t)
-{
-    return t.offset * 8 + t.field_offset;
-}
-
 /*
  * Initialize a group of consecutive field assignments that share bytes.
  * All bytes are first assigned as a whole, with values of constant
@@ -768,7 +805,7 @@ static size_t initialize_fields(
  * operations writing to all bits of the target object, in order.
  *
  * Fields with values that are not constant are assigned after the bytes
- * containing it.
+ * containing it, and so are elements of objects assigned as a whole.
  */
 static size_t validate_contiguous_initialization(InitializerList *block)
 {
@@ -782,8 +819,8 @@ static size_t validate_contiguous_initialization(InitializerList *block)
         assert(st.st == IR_ASSIGN);
         field = st.t;
 
-        if (field.field_width) {
-            assert(bit_position(field) + field.field_width <= bits);
+        if (field.field_width || field.offset * 8 < bits) {
+            assert(bit_position(field) + bit_size(field) <= bits);
         } else {
             assert(field.offset * 8 == bits);
             bits += size_of(field.type) * 8;
@@ -797,34 +834,24 @@ static size_t validate_contiguous_initialization(InitializerList *block)
 #endif
 
 /*
- * Reorder initializer assignments to increasing offsets, and remove
- * duplicate assignments to the same element.
+ * Reorder initializer assignments to increasing offsets. An element can
+ * only be contained in another if it was assigned after.
  */
-static void sort_and_trim(InitializerList *values)
+static void sort_elements(InitializerList *values)
 {
     int i, j;
     struct statement *code, tmp;
 
     code = &array_get(values, 0);
     for (i = 1; i < array_len(values); ++i) {
-        j = i - 1;
-        while (j >= 0
-            && bit_position(code[j].t) > bit_position(code[j + 1].t))
-        {
-            tmp = code[j];
-            code[j] = code[j + 1];
-            code[j + 1] = tmp;
-            if (j == 0) {
+        tmp = code[i];
+        for (j = i; j > 0; --j) {
+            if (bit_position(code[j - 1].t) <= bit_position(tmp.t))
                 break;
-            } else {
-                j--;
-            }
+            code[j] = code[j - 1];
         }
 
-        if (bit_position(code[j].t) == bit_position(code[j + 1].t)) {
-            array_erase(values, j);
-            i -= 1;
-        }
+        code[j] = tmp;
     }
 }
 
@@ -846,7 +873,7 @@ static void postprocess_object_initialization(
     InitializerList block;
 
     assert(!target.offset);
-    sort_and_trim(values);
+    sort_elements(values);
     block = get_initializer_list();
     target.lvalue = 1;
     offset = 0;
@@ -857,7 +884,12 @@ static void postprocess_object_initialization(
         assert(st.expr.op != IR_OP_CALL);
         assert(st.t.is_symbol && st.t.value.symbol == target.value.symbol);
         end = bit_position(st.t) / 8;
-        assert(offset <= end);
+        if (end < offset) {
+            array_push_back(&block, st);
+            j = i + 1;
+            continue;
+        }
+
         target.offset = offset;
         zero_initialize_bytes(def, &block, target, end - offset);
         offset = end;
@@ -898,10 +930,27 @@ INTERNAL struct block *initializer(
 {
     InitializerList values;
     struct var target = var_direct(sym);
+    int active;
+    size_t end;
 
     if (peek() == '{' || is_array(sym->type)) {
         values = get_initializer_list();
-        block = initialize_object(def, block, &values, target);
+        active = current_object.active_members;
+        end = current_object.end;
+        current_object.active_members = array_len(&active_members);
+        current_object.end = 0;
+        if (peek() != '{') {
+            block = read_initializer_element(def, block, sym);
+            if (!is_string_initializer(sym->type, block->expr)) {
+                error("Invalid initializer for array.");
+                exit(1);
+            }
+        }
+
+        block = initialize_member(def, block, &values, target);
+        array_len(&active_members) = current_object.active_members;
+        current_object.active_members = active;
+        current_object.end = end;
         postprocess_object_initialization(def, &values, target);
         array_concat(&def->statements, &values);
         block->count += array_len(&values);
diff --git a/src/parser/typetree.c b/src/parser/typetree.c
index c2de3d7..832b9e2 100644
--- a/src/parser/typetree.c
+++ b/src/parser/typetree.c
@@ -649,6 +649,8 @@ INTERNAL void type_add_anonymous_member(Type parent, Type type)
     for (i = 0; i < nmembers(type); ++i) {
         m = *get_member(type, i);
         m.offset += offset;
+        m.anonymous = type;
+        m.anonymous_offset = offset;
         add_member(parent, m);
     }
 
-- 
2.43.0


From 71598545d2a74d6fcf28891d701eba8176bd1bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:43 +0000
Subject: [PATCH 22/63] fix: static objects of qualified _Bool type can be
 initialized

---
 src/parser/eval.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser/eval.c b/src/parser/eval.c
index 8872a61..dadd790 100644
--- a/src/parser/eval.c
+++ b/src/parser/eval.c
@@ -1750,6 +1750,10 @@ static struct expression eval_prepare_assign(
 
     if (is_bool(target)) {
         expr = eval_prepare_assign_bool(def, block, expr);
+        if (is_immediate(expr)) {
+            expr.type = target;
+            expr.l.type = target;
+        }
     } else if (is_pointer(target)) {
         expr = eval_prepare_assign_pointer(expr, target);
     } else if (is_arithmetic(target) && is_arithmetic(expr.type)) {
-- 
2.43.0


From 356f7e044809ccb5d6098fc7f389d79f2ca9744e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:57 +0000
Subject: [PATCH 23/63] fix: evaluate #if expressions with C semantics

Make ==, !=, &, ^ and | left associative chains, do not report division by
zero in operands that are not evaluated, let shifts have the type of the
left operand, give ! an int result, avoid trapping on LONG_MIN / -1, and
leave conditions that will not be evaluated alone.
---
 src/preprocessor/directive.c | 122 +++++++++++++++++++++++------------
 1 file changed, 81 insertions(+), 41 deletions(-)

diff --git a/src/preprocessor/directive.c b/src/preprocessor/directive.c
index e251c1e..b8a345f 100644
--- a/src/preprocessor/directive.c
+++ b/src/preprocessor/directive.c
@@ -93,6 +93,13 @@ INTERNAL int in_active_block(void)
     return s == BRANCH_LIVE;
 }
 
+/* A following #elif condition has to be evaluated. */
+static int in_dead_branch(void)
+{
+    return array_len(&branch_stack)
+        && array_back(&branch_stack) == BRANCH_DEAD;
+}
+
 static void expect(const struct token *list, int token)
 {
     String a, b;
@@ -104,6 +111,12 @@ static void expect(const struct token *list, int token)
     }
 }
 
+/*
+ * Operands that are not evaluated, like the right hand side of 0 && x,
+ * can contain division by zero.
+ */
+static int unevaluated;
+
 static struct number preprocess_expression(
     const struct token *list,
     const struct token **endptr);
@@ -201,11 +214,8 @@ static struct number preprocess_unary(
         return r;
     case '!':
         r = preprocess_unary(list + 1, endptr);
-        if (is_signed(r.type)) {
-            r.val.i = ! r.val.i;
-        } else {
-            r.val.u = ! r.val.u;
-        }
+        r.val.i = ! r.val.u;
+        r.type = basic_type__long;
         return r;
     default:
         return preprocess_primary(list, endptr);
@@ -250,10 +260,17 @@ static struct number preprocess_multiplicative(
         case '/':
             r = preprocess_unary(list + 1, &list);
             if (r.val.i == 0) {
-                error("Division by zero.");
-                exit(1);
+                if (!unevaluated) {
+                    error("Division by zero.");
+                    exit(1);
+                }
+                both_signed(&l, &r);
             } else if (both_signed(&l, &r)) {
-                l.val.i /= r.val.i;
+                if (r.val.i == -1) {
+                    l.val.u = - l.val.u;
+                } else {
+                    l.val.i /= r.val.i;
+                }
             } else {
                 l.val.u /= r.val.u;
             }
@@ -261,10 +278,17 @@ static struct number preprocess_multiplicative(
         case '%':
             r = preprocess_unary(list + 1, &list);
             if (r.val.i == 0) {
-                error("Modulo by zero.");
-                exit(1);
+                if (!unevaluated) {
+                    error("Modulo by zero.");
+                    exit(1);
+                }
+                both_signed(&l, &r);
             } else if (both_signed(&l, &r)) {
-                l.val.i %= r.val.i;
+                if (r.val.i == -1) {
+                    l.val.i = 0;
+                } else {
+                    l.val.i %= r.val.i;
+                }
             } else {
                 l.val.u %= r.val.u;
             }
@@ -319,7 +343,7 @@ static struct number preprocess_shift(
         switch (list->token) {
         case LSHIFT:
             r = preprocess_additive(list + 1, &list);
-            if (both_signed(&l, &r)) {
+            if (is_signed(l.type)) {
                 l.val.i <<= r.val.i;
             } else {
                 l.val.u <<= r.val.u;
@@ -327,7 +351,7 @@ static struct number preprocess_shift(
             break;
         case RSHIFT:
             r = preprocess_additive(list + 1, &list);
-            if (both_signed(&l, &r)) {
+            if (is_signed(l.type)) {
                 l.val.i >>= r.val.i;
             } else {
                 l.val.u >>= r.val.u;
@@ -391,27 +415,27 @@ static struct number preprocess_equality(
     struct number l, r;
 
     l = preprocess_relational(list, &list);
-    switch (list->token) {
-    case EQ:
-        r = preprocess_equality(list + 1, &list);
-        l.val.i = both_signed(&l, &r)
-                ? l.val.i == r.val.i
-                : l.val.u == r.val.u;
-        l.type = basic_type__long;
-        break;
-    case NEQ:
-        r = preprocess_equality(list + 1, &list);
-        l.val.i = both_signed(&l, &r)
-                ? l.val.i != r.val.i
-                : l.val.u != r.val.u;
-        l.type = basic_type__long;
-        break;
-    default:
-        break;
+    while (1) {
+        switch (list->token) {
+        case EQ:
+            r = preprocess_relational(list + 1, &list);
+            l.val.i = both_signed(&l, &r)
+                    ? l.val.i == r.val.i
+                    : l.val.u == r.val.u;
+            l.type = basic_type__long;
+            break;
+        case NEQ:
+            r = preprocess_relational(list + 1, &list);
+            l.val.i = both_signed(&l, &r)
+                    ? l.val.i != r.val.i
+                    : l.val.u != r.val.u;
+            l.type = basic_type__long;
+            break;
+        default:
+            *endptr = list;
+            return l;
+        }
     }
-
-    *endptr = list;
-    return l;
 }
 
 static struct number preprocess_and(
@@ -421,8 +445,8 @@ static struct number preprocess_and(
     struct number l, r;
 
     l = preprocess_equality(list, &list);
-    if (list->token == '&') {
-        r = preprocess_and(list + 1, &list);
+    while (list->token == '&') {
+        r = preprocess_equality(list + 1, &list);
         if (both_signed(&l, &r)) {
             l.val.i &= r.val.i;
         } else {
@@ -441,8 +465,8 @@ static struct number preprocess_exclusive_or(
     struct number l, r;
 
     l = preprocess_and(list, &list);
-    if (list->token == '^') {
-        r = preprocess_exclusive_or(list + 1, &list);
+    while (list->token == '^') {
+        r = preprocess_and(list + 1, &list);
         if (both_signed(&l, &r)) {
             l.val.i ^= r.val.i;
         } else {
@@ -461,7 +485,7 @@ static struct number preprocess_inclusive_or(
     struct number l, r;
 
     l = preprocess_exclusive_or(list, &list);
-    if (list->token == '|') {
+    while (list->token == '|') {
         r = preprocess_exclusive_or(list + 1, &list);
         if (both_signed(&l, &r)) {
             l.val.i |= r.val.i;
@@ -479,10 +503,14 @@ static struct number preprocess_logical_and(
     const struct token **endptr)
 {
     struct number l, r;
+    int skip;
 
     l = preprocess_inclusive_or(list, &list);
     if (list->token == LOGICAL_AND) {
+        skip = !l.val.u;
+        unevaluated += skip;
         r = preprocess_logical_and(list + 1, &list);
+        unevaluated -= skip;
         l.val.i = l.val.u && r.val.u;
         l.type = basic_type__long;
     }
@@ -496,10 +524,14 @@ static struct number preprocess_logical_or(
     const struct token **endptr)
 {
     struct number l, r;
+    int skip;
 
     l = preprocess_logical_and(list, &list);
     if (list->token == LOGICAL_OR) {
+        skip = l.val.u != 0;
+        unevaluated += skip;
         r = preprocess_logical_or(list + 1, &list);
+        unevaluated -= skip;
         l.val.i = l.val.u || r.val.u;
         l.type = basic_type__long;
     }
@@ -513,12 +545,19 @@ static struct number preprocess_conditional(
     const struct token **endptr)
 {
     struct number a, b, c;
+    int skip;
 
     a = preprocess_logical_or(list, &list);
     if (list->token == '?') {
+        skip = !a.val.u;
+        unevaluated += skip;
         b = preprocess_expression(list + 1, &list);
+        unevaluated -= skip;
         expect(list, ':');
+        skip = !skip;
+        unevaluated += skip;
         c = preprocess_conditional(list + 1, &list);
+        unevaluated -= skip;
         if (both_signed(&b, &c)) {
             a.val.i = a.val.u ? b.val.i : c.val.i;
             a.type = basic_type__long;
@@ -719,10 +758,11 @@ INTERNAL void preprocess_directive(TokenArray *array)
 
     /*
      * Perform macro expansion only for if, elif and line directives,
-     * before doing any expression parsing.
+     * before doing any expression parsing. Expressions that will not be
+     * evaluated are left alone.
      */
-    if (line->token == IF
-        || !tok_cmp(*line, ident__elif)
+    if ((in_active_block() && line->token == IF)
+        || (in_dead_branch() && !tok_cmp(*line, ident__elif))
         || (in_active_block() && !tok_cmp(*line, ident__line)))
     {
         expand(array);
-- 
2.43.0


From e4042ebb4591dc2226d5165ae349c487aa3b87f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:41 +0000
Subject: [PATCH 24/63] fix: macro expansion of object-like #, empty ##
 operands and split invocations

A '#' is not an operator in object-like macros, operands of '##' can be
empty on both sides, and an invocation can begin in an expansion and end
in the tokens following it.
---
 src/preprocessor/macro.c | 150 +++++++++++++++++++++++++--------------
 1 file changed, 98 insertions(+), 52 deletions(-)

diff --git a/src/preprocessor/macro.c b/src/preprocessor/macro.c
index 254a76f..129224c 100644
--- a/src/preprocessor/macro.c
+++ b/src/preprocessor/macro.c
@@ -320,6 +320,20 @@ static void array_replace_slice(
     list->length = length;
 }
 
+/* Replace # <param>, where i is the position of <param>. */
+static struct token expand_stringify(
+    const struct macro *def,
+    TokenArray *args,
+    int i)
+{
+    if (peek_token(&def->replacement, i) != PARAM) {
+        error("Stray '#' in replacement list.");
+        exit(1);
+    }
+
+    return stringify(&args[array_get(&def->replacement, i).d.val.i]);
+}
+
 /*
  * Replacing # <param> and <a> ## <b> is done in an initial scan of
  * the replacement list. This pass requires the parameters to not be
@@ -343,78 +357,79 @@ static TokenArray expand_stringify_and_paste(
     const struct macro *def,
     TokenArray *args)
 {
-    int len, d, i;
+    int len, d, i, empty;
     struct token t, s;
-    TokenArray list = get_token_array();
+    TokenArray list = get_token_array(), rhs;
 
     len = array_len(&def->replacement);
     if (len && array_get(&def->replacement, 0).token == TOKEN_PASTE) {
         error("Unexpected '##' operator at beginning of line.");
         exit(1);
-    } else if (len > 2) {
-        if (array_get(&def->replacement, len - 1).token == TOKEN_PASTE) {
-            error("Unexpected '##' operator at end of line.");
-            exit(1);
-        }
+    } else if (len && array_back(&def->replacement).token == TOKEN_PASTE) {
+        error("Unexpected '##' operator at end of line.");
+        exit(1);
     }
 
+    /* Set if the previous operand of '##' had no tokens. */
+    empty = 0;
     for (i = 0; i < len; ++i) {
         t = array_get(&def->replacement, i);
         switch (t.token) {
         case TOKEN_PASTE:
             i += 1;
-            t = array_back(&list);
             s = array_get(&def->replacement, i);
-            if (t.token == PARAM) {
-                (void) array_pop_back(&list);
-                if (!array_len(&args[t.d.val.i])) {
-                    if (s.token == PARAM) {
-                        array_concat(&list, &args[s.d.val.i]);
-                    } else {
-                        array_push_back(&list, s);
-                    }
-                    break;
+            if (s.token == PARAM
+                && def->is_vararg
+                && s.d.val.i == def->params - 1
+                && array_get(&def->replacement, i - 2).token == ',')
+            {
+                if (array_len(&args[s.d.val.i])) {
+                    i--;
                 } else {
-                    array_concat(&list, &args[t.d.val.i]);
-                    t = array_back(&list);
+                    (void) array_pop_back(&list);
+                    empty = 1;
                 }
+                break;
             }
+            rhs = get_token_array();
             if (s.token == PARAM) {
-                if (def->is_vararg
-                    && t.token == ','
-                    && s.d.val.i == def->params - 1)
-                {
-                    if (array_len(&args[s.d.val.i])) {
-                        i--;
-                    } else {
-                        (void) array_pop_back(&list);
-                    }
-                } else if (array_len(&args[s.d.val.i])) {
+                array_concat(&rhs, &args[s.d.val.i]);
+            } else if (s.token == '#' && def->type == FUNCTION_LIKE) {
+                i += 1;
+                s = expand_stringify(def, args, i);
+                array_push_back(&rhs, s);
+            } else {
+                array_push_back(&rhs, s);
+            }
+            if (array_len(&rhs)) {
+                if (!empty) {
                     t = array_pop_back(&list);
-                    d = array_len(&list);
-                    array_concat(&list, &args[s.d.val.i]);
-                    s = array_get(&args[s.d.val.i], 0);
-                    t = paste(t, s);
-                    array_get(&list, d) = t;
+                    array_get(&rhs, 0) = paste(t, array_get(&rhs, 0));
                 }
-            } else {
-                t = paste(t, s);
-                array_back(&list) = t;
+                array_concat(&list, &rhs);
+                empty = 0;
             }
+            release_token_array(rhs);
             break;
-        case '#':
-            i += 1;
-            if (peek_token(&def->replacement, i) == PARAM) {
-                d = array_get(&def->replacement, i).d.val.i;
-                t = stringify(&args[d]);
-                array_push_back(&list, t);
+        case PARAM:
+            d = t.d.val.i;
+            if (i + 1 < len
+                && array_get(&def->replacement, i + 1).token == TOKEN_PASTE)
+            {
+                empty = !array_len(&args[d]);
+                array_concat(&list, &args[d]);
             } else {
-                error("Stray '#' in replacement list.");
-                exit(1);
+                array_push_back(&list, t);
             }
             break;
+        case '#':
+            if (def->type == FUNCTION_LIKE) {
+                i += 1;
+                t = expand_stringify(def, args, i);
+            }
         default:
             array_push_back(&list, t);
+            empty = 0;
             break;
         }
     }
@@ -564,6 +579,36 @@ static TokenArray *read_args(
     return args;
 }
 
+/*
+ * Determine whether position i is the start of a complete, parenthesized
+ * argument list. An expansion can end inside of one, in which case the
+ * rest is found in the tokens that follow it.
+ */
+static int is_invocation(const TokenArray *list, int i)
+{
+    int nesting = 0;
+
+    if (peek_token(list, i) != '(') {
+        return 0;
+    }
+
+    for (; i < array_len(list); ++i) {
+        switch (array_get(list, i).token) {
+        case '(':
+            nesting++;
+            break;
+        case ')':
+            nesting--;
+            if (!nesting)
+                return 1;
+        default:
+            break;
+        }
+    }
+
+    return 0;
+}
+
 static int expand_line(ExpandStack *scope, TokenArray *list)
 {
     int size, i, n;
@@ -587,11 +632,8 @@ static int expand_line(ExpandStack *scope, TokenArray *list)
             continue;
         }
 
-        /* Only expand if next token is '(' */
-        if (def->type == FUNCTION_LIKE
-            && (i == array_len(list) - 1
-                || array_get(list, i + 1).token != '('))
-        {
+        /* Only expand if next token is '(', and all arguments follow. */
+        if (def->type == FUNCTION_LIKE && !is_invocation(list, i + 1)) {
             continue;
         }
 
@@ -606,9 +648,13 @@ static int expand_line(ExpandStack *scope, TokenArray *list)
             expn.data[0].leading_whitespace = t.leading_whitespace;
         }
 
-        /* Squeeze in expansion in list. */
+        /*
+         * Squeeze in expansion in list. Scan it again together with the
+         * tokens that follow, which can be arguments to a function-like
+         * macro at the end of the expansion.
+         */
         array_replace_slice(list, i, size, &expn);
-        i += array_len(&expn) - 1;
+        i -= 1;
         release_token_array(expn);
         n += 1;
     }
-- 
2.43.0


From 8c54cb2a76fcc1346ef20477cc4d27a80c686cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:41 +0000
Subject: [PATCH 25/63] fix: do not read past directives or lines when looking
 for macro arguments

Function-like macro names at the end of a line swallowed a following
directive or the parenthesis of unrelated tokens, directives read
arguments from the next line, and unterminated invocations or an
uninvoked macro in #if ended in an assertion.
---
 src/preprocessor/directive.c  |  7 ++-
 src/preprocessor/directive.h  |  3 ++
 src/preprocessor/preprocess.c | 80 ++++++++++++++++++++++++++---------
 3 files changed, 67 insertions(+), 23 deletions(-)

diff --git a/src/preprocessor/directive.c b/src/preprocessor/directive.c
index b8a345f..b89f1bc 100644
--- a/src/preprocessor/directive.c
+++ b/src/preprocessor/directive.c
@@ -93,8 +93,7 @@ INTERNAL int in_active_block(void)
     return s == BRANCH_LIVE;
 }
 
-/* A following #elif condition has to be evaluated. */
-static int in_dead_branch(void)
+INTERNAL int in_dead_branch(void)
 {
     return array_len(&branch_stack)
         && array_back(&branch_stack) == BRANCH_DEAD;
@@ -160,7 +159,6 @@ static struct number preprocess_primary(
             exit(1);
         }
     case IDENTIFIER:
-        assert(!macro_definition(list->d.string));
         num.type = basic_type__long;
         num.val.i = 0;
         break;
@@ -765,7 +763,8 @@ INTERNAL void preprocess_directive(TokenArray *array)
         || (in_dead_branch() && !tok_cmp(*line, ident__elif))
         || (in_active_block() && !tok_cmp(*line, ident__line)))
     {
-        expand(array);
+        while (expand(array))
+            ;
         line = array->data;
     }
 
diff --git a/src/preprocessor/directive.h b/src/preprocessor/directive.h
index 3345b18..0eee47a 100644
--- a/src/preprocessor/directive.h
+++ b/src/preprocessor/directive.h
@@ -26,4 +26,7 @@ INTERNAL void preprocess_directive(TokenArray *line);
 /* Non-zero iff currently not inside a false #if directive. */
 INTERNAL int in_active_block(void);
 
+/* Non-zero iff the condition of a following #elif has to be evaluated. */
+INTERNAL int in_dead_branch(void);
+
 #endif
diff --git a/src/preprocessor/preprocess.c b/src/preprocessor/preprocess.c
index 0478761..4a1dc34 100644
--- a/src/preprocessor/preprocess.c
+++ b/src/preprocessor/preprocess.c
@@ -112,27 +112,57 @@ static void read_Pragma_invocation(TokenArray *line)
     }
 }
 
+/*
+ * Determine whether the next token is an opening parenthesis, possibly
+ * after a number of line breaks. No tokens are consumed, in particular
+ * not a '#' that begins a directive.
+ */
+static int is_next_line_parenthesis(void)
+{
+    struct token t;
+    const char *endptr;
+
+    while (line_buffer || (line_buffer = getprepline()) != NULL) {
+        t = tokenize(line_buffer, &endptr);
+        if (t.token != END) {
+            return t.token == '(';
+        }
+
+        line_buffer = NULL;
+    }
+
+    return 0;
+}
+
 /*
  * Keep track of the nesting depth of macro arguments. For example;
  * MAX( MAX(10, 12), 20 ) should complete on the last parenthesis, which
  * makes the expression balanced. Read lines until full macro invocation
  * is included.
+ *
+ * Return the first token which is not part of the invocation.
  */
-static void read_macro_invocation(TokenArray *line, const struct macro *macro)
+static struct token read_macro_invocation(
+    TokenArray *line,
+    const struct macro *macro)
 {
     int nesting;
     struct token t;
     assert(macro->type == FUNCTION_LIKE);
 
     t = get_token();
-    array_push_back(line, t);
+    if (t.token == NEWLINE && is_next_line_parenthesis()) {
+        t = get_token();
+    }
+
     if (t.token != '(')
         /*
          * Only expand function-like macros if they appear as function
          * invocations, beginning with an open paranthesis.
          */
-        return;
+        return t;
 
+    array_push_back(line, t);
     nesting = 1;
     while (nesting) {
         t = get_token();
@@ -151,14 +181,15 @@ static void read_macro_invocation(TokenArray *line, const struct macro *macro)
              */
             continue;
         }
-        assert(t.token != END);
+        if (t.token == END) {
+            error("Unbalanced invocation of macro '%s'.",
+                str_raw(macro->name));
+            exit(1);
+        }
         array_push_back(line, t);
     }
 
-    if (nesting) {
-        error("Unbalanced invocation of macro '%s'.", str_raw(macro->name));
-        exit(1);
-    }
+    return get_token();
 }
 
 /* Replace 'defined name' and 'defined (name)' with 0 or 1 constants. */
@@ -213,7 +244,10 @@ static struct token skip_or_get_token(TokenArray *line, int i)
         do {
             t = get_token();
         } while (t.token == NEWLINE);
-        assert(t.token != END);
+        if (t.token == END) {
+            error("Unexpected end of input in macro invocation.");
+            exit(1);
+        }
         array_push_back(line, t);
     } else {
         assert(i >= 0);
@@ -228,17 +262,24 @@ static struct token skip_or_get_token(TokenArray *line, int i)
  * Make sure expanded token list contains enough tokens to do additional
  * expansions. Read more input if the provided function-like macro at
  * posistion i does not have all parameters on the current line.
+ *
+ * Return the number of tokens that are part of the invocation.
  */
 static int skip_or_read_expansion(TokenArray *line, int i)
 {
     int start = i, nest;
     struct token t;
 
-    t = skip_or_get_token(line, i++);
-    if (t.token != '(') {
-        return i - start;
+    if (i == array_len(line) || array_get(line, i).token == NEWLINE) {
+        if (!is_next_line_parenthesis()) {
+            return 0;
+        }
+    } else if (array_get(line, i).token != '(') {
+        return 0;
     }
 
+    t = skip_or_get_token(line, i++);
+    assert(t.token == '(');
     nest = 1;
     while (nest) {
         t = skip_or_get_token(line, i++);
@@ -252,7 +293,8 @@ static int skip_or_read_expansion(TokenArray *line, int i)
 /*
  * Read tokens until reaching end of line. If initial token is '#', stop
  * on first newline. Otherwise make sure _Pragma and macro invocations
- * spanning multiple lines are joined. Replace 'defined' with 0 or 1.
+ * spanning multiple lines are joined. Replace 'defined' with 0 or 1 in
+ * conditions that will be evaluated.
  *
  * Returns a buffer containing all necessary tokens to preprocess a
  * line. Always ends with a newline (\n) token, but never contains any
@@ -265,7 +307,8 @@ static int read_complete_line(TokenArray *line, struct token t, int directive)
 
     if (directive) {
         array_push_back(line, t);
-        expandable = (t.token == IF) || !tok_cmp(t, ident__elif);
+        expandable = (t.token == IF && in_active_block())
+            || (!tok_cmp(t, ident__elif) && in_dead_branch());
         t = get_token();
     }
 
@@ -281,11 +324,10 @@ static int read_complete_line(TokenArray *line, struct token t, int directive)
                 def = macro_definition(t.d.string);
                 if (def) {
                     macros += 1;
-                    if (def->type == FUNCTION_LIKE) {
-                        array_push_back(line, t);
-                        read_macro_invocation(line, def);
-                    } else {
-                        array_push_back(line, t);
+                    array_push_back(line, t);
+                    if (def->type == FUNCTION_LIKE && !directive) {
+                        t = read_macro_invocation(line, def);
+                        continue;
                     }
                 } else {
                     array_push_back(line, t);
-- 
2.43.0


From ec1d44493fb96dabbcf9380cd4ad5982d113829a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:24 +0000
Subject: [PATCH 26/63] fix: numbers without suffix in #if are signed when they
 fit in long

0x80000000 was treated as unsigned because it has type unsigned int outside
of the preprocessor.
---
 src/preprocessor/directive.c | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/preprocessor/directive.c b/src/preprocessor/directive.c
index b89f1bc..d718ab7 100644
--- a/src/preprocessor/directive.c
+++ b/src/preprocessor/directive.c
@@ -11,6 +11,7 @@
 #include <lacc/context.h>
 
 #include <assert.h>
+#include <string.h>
 
 #define IDENT(s) {IDENTIFIER, 1, 0, 0, {0}, {SHORT_STRING_INIT(s)}}
 
@@ -127,6 +128,22 @@ static struct number preprocess_expression(
  * Normalize all values to be of type long or unsigned long. Floating
  * point numbers are not permitted by the standard.
  */
+/*
+ * All integers are as wide as long, so hexadecimal and octal numbers like
+ * 0x80000000 are not unsigned without a suffix.
+ */
+static int has_unsigned_suffix(const struct token *t)
+{
+    const char *s;
+
+    if (t->token != PREP_NUMBER) {
+        return 0;
+    }
+
+    s = str_raw(t->d.string);
+    return strchr(s, 'u') != NULL || strchr(s, 'U') != NULL;
+}
+
 static struct number preprocess_primary(
     const struct token *list,
     const struct token **endptr)
@@ -134,6 +151,7 @@ static struct number preprocess_primary(
     String s;
     struct token n;
     struct number num;
+    const struct token *token = list;
 
     switch (list->token) {
     case PREP_NUMBER:
@@ -169,7 +187,7 @@ static struct number preprocess_primary(
         error("Preprocessing number must be integer.");
         exit(1);
     } else if (size_of(num.type) != 8) {
-        if (is_signed(num.type)) {
+        if (is_signed(num.type) || !has_unsigned_suffix(token)) {
             num.val = convert(num.val, num.type, basic_type__long);
             num.type = basic_type__long;
         } else {
-- 
2.43.0


From 82f5596db0e9cebcbf5e4e02e6b19462785a85c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:53 +0000
Subject: [PATCH 27/63] fix: fold && and || with constant operands, do not
 crash in constant expressions

int x = 1 && 0; was rejected as not constant. Unevaluated operands that are
not constant, and non-constant expressions in general, dereferenced a null
definition.
---
 src/parser/expression.c | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/src/parser/expression.c b/src/parser/expression.c
index 2471330..981c9a0 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -748,8 +748,13 @@ static struct block *logical_and_expression(
 
     b = immediate_bool(left->expr);
     if (b == 1) {
-        left->jump[0] = top;
-        block = right;
+        if (top == right && !top->count) {
+            block = left;
+            block->expr = right->expr;
+        } else {
+            left->jump[0] = top;
+            block = right;
+        }
         if (!is_comparison(block->expr)) {
             value = eval(def, block, block->expr);
             block->expr = eval_cmp_ne(def, block, value, var_int(0));
@@ -810,8 +815,13 @@ static struct block *logical_or_expression(
         }
         block->expr = as_expr(var_int(1));
     } else if (b == 0) {
-        left->jump[0] = top;
-        block = right;
+        if (top == right && !top->count) {
+            block = left;
+            block->expr = right->expr;
+        } else {
+            left->jump[0] = top;
+            block = right;
+        }
         if (!is_comparison(block->expr)) {
             value = eval(def, block, block->expr);
             block->expr = eval_cmp_ne(def, block, value, var_int(0));
@@ -984,19 +994,25 @@ INTERNAL struct block *assignment_expression(
     return block;
 }
 
+/*
+ * Operands that are not evaluated do not have to be constant, and need a
+ * definition to hold the result.
+ */
 INTERNAL struct var constant_expression(void)
 {
-    struct block
-        *head = cfg_block_init(NULL),
-        *tail;
+    struct definition *def = cfg_init();
+    struct block *tail;
+    struct var val;
 
-    tail = conditional_expression(NULL, head);
-    if (tail != head || !is_immediate(tail->expr)) {
+    tail = conditional_expression(def, def->body);
+    if (tail != def->body || !is_immediate(tail->expr)) {
         error("Constant expression must be computable at compile time.");
         exit(1);
     }
 
-    return eval(NULL, tail, tail->expr);
+    val = eval(def, tail, tail->expr);
+    cfg_discard(def);
+    return val;
 }
 
 INTERNAL struct block *expression(struct definition *def, struct block *block)
-- 
2.43.0


From 1d8d9e181185f1c1be64a21ee10c4cb590d79c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:13 +0000
Subject: [PATCH 28/63] fix: do not trap when folding LONG_MIN / -1

---
 src/parser/eval.c | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/parser/eval.c b/src/parser/eval.c
index dadd790..fef82ce 100644
--- a/src/parser/eval.c
+++ b/src/parser/eval.c
@@ -556,7 +556,7 @@ INTERNAL struct expression eval_mul(
 
 /*
  * Special care is taken to avoid undefined behavior from division by
- * zero.
+ * zero, and overflow from division by -1.
  *
  * Floating point division by zero is also technically undefined, but
  * useful compilers allow it according to Annex F.
@@ -592,9 +592,14 @@ INTERNAL struct expression eval_div(
         case T_LDOUBLE:
             return as_expr(eval_long_double_op(IR_OP_DIV, l.value.imm, r.value.imm));
         default:
-            return is_signed(type)
-                ? as_expr(imm_signed(type, l.value.imm.i / r.value.imm.i))
-                : as_expr(imm_unsigned(type, l.value.imm.u / r.value.imm.u));
+            if (is_unsigned(type)) {
+                l = imm_unsigned(type, l.value.imm.u / r.value.imm.u);
+            } else if (r.value.imm.i == -1) {
+                l = imm_signed(type, - l.value.imm.u);
+            } else {
+                l = imm_signed(type, l.value.imm.i / r.value.imm.i);
+            }
+            return as_expr(l);
         }
     }
 
@@ -628,9 +633,14 @@ INTERNAL struct expression eval_mod(
     {
         warning("Modulo by zero is undefined.");
     } else if (l.kind == IMMEDIATE && r.kind == IMMEDIATE) {
-        return is_signed(type)
-            ? as_expr(imm_signed(type, l.value.imm.i % r.value.imm.i))
-            : as_expr(imm_unsigned(type, l.value.imm.u % r.value.imm.u));
+        if (is_unsigned(type)) {
+            l = imm_unsigned(type, l.value.imm.u % r.value.imm.u);
+        } else if (r.value.imm.i == -1) {
+            l = imm_signed(type, 0);
+        } else {
+            l = imm_signed(type, l.value.imm.i % r.value.imm.i);
+        }
+        return as_expr(l);
     }
 
     return create_binary_expression(IR_OP_MOD, type, l, r);
-- 
2.43.0


From 2b1f3bdfd06c8378b86b6cf29d20b1e490841409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:21 +0000
Subject: [PATCH 29/63] fix: numeric literal suffixes, denormals and
 hexadecimal escapes

12f is not a valid literal, 1e-310 is, and \x0x1 is an escape followed by x1.
---
 src/preprocessor/tokenize.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/preprocessor/tokenize.c b/src/preprocessor/tokenize.c
index c65bc2b..3ca1ce5 100644
--- a/src/preprocessor/tokenize.c
+++ b/src/preprocessor/tokenize.c
@@ -253,8 +253,16 @@ INTERNAL struct token convert_preprocessing_number(struct token t)
          * get incorrect results compared to other compilers.
          */
         errno = 0;
+        if (!strpbrk(str, ".eEpP")) {
+            error("Invalid numeric literal '%s'.", str);
+            exit(1);
+        }
         tok.type = basic_type__double;
         tok.d.val.d = strtod(str, (char **) &endptr);
+        if (errno == ERANGE && tok.d.val.d < 1.0) {
+            /* Underflow is not an error, value is zero or denormal. */
+            errno = 0;
+        }
         if (endptr - str < len) {
             if (*endptr == 'f' || *endptr == 'F') {
                 tok.type = basic_type__float;
@@ -306,7 +314,12 @@ static char convert_escape_sequence(const char *in, const char **endptr)
             error("Empty hexadecimal escape sequence.");
             exit(1);
         }
-        return (char) strtol(&in[1], (char **) endptr, 16);
+        for (n = 0, i = 1; isxdigit(in[i]); ++i) {
+            n = (n << 4) & 0xFF;
+            n |= isdigit(in[i]) ? in[i] - '0' : tolower(in[i]) - 'a' + 10;
+        }
+        *endptr = in + i;
+        return (char) n;
     case '0':
     case '1':
     case '2':
-- 
2.43.0


From 08d7956a3852f789649841dbf788b6d7302e97bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:04 +0000
Subject: [PATCH 30/63] fix: discard long double result of call used as
 expression statement

---
 src/backend/x86_64/compile.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/backend/x86_64/compile.c b/src/backend/x86_64/compile.c
index 5125a7c..cd9ae96 100644
--- a/src/backend/x86_64/compile.c
+++ b/src/backend/x86_64/compile.c
@@ -78,7 +78,7 @@ INTERNAL int x87_stack_pos(enum reg r)
 {
     assert(r >= ST0);
     assert(r <= ST7);
-    assert(x87_stack > 1);
+    assert(x87_stack > 0);
 
     return (x87_stack - 1) - (r - ST0);
 }
@@ -3185,6 +3185,13 @@ static void compile_statement(struct statement stmt)
         break;
     case IR_EXPR:
         stmt.t.type = basic_type__void;
+        compile_assign(stmt.t, stmt.expr);
+        if (x87_stack) {
+            /* Discard long double result. */
+            emit_r_(INSTR_FSTP, reg(ST0, 16));
+            x87_stack--;
+        }
+        break;
     case IR_ASSIGN:
         compile_assign(stmt.t, stmt.expr);
         break;
-- 
2.43.0


From 8b33fe31203bf6876a5dfce72422505448d69381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:59 +0000
Subject: [PATCH 31/63] fix: optimizer must not drop or move stores that are
 still observable

Stores to locals whose address escaped were removed when not followed by
a read in the function itself, even if a called function reads them. A
partial store was taken as overwriting the whole object. Assignments to
volatile objects were removed, and chained assignments were merged even
if the second target is located through the first, or if the objects
involved can overlap. An endless loop with no statements would hang.
---
 src/optimizer/liveness.c  | 58 ++++++++++++---------------------------
 src/optimizer/optimize.c  | 11 +++++---
 src/optimizer/transform.c | 25 ++++++++++++++++-
 3 files changed, 48 insertions(+), 46 deletions(-)

diff --git a/src/optimizer/liveness.c b/src/optimizer/liveness.c
index b6b0af3..1fcfe34 100644
--- a/src/optimizer/liveness.c
+++ b/src/optimizer/liveness.c
@@ -21,7 +21,12 @@ static unsigned long set_def_bit(struct var var)
 {
     switch (var.kind) {
     case DIRECT:
-        if (is_scalar(var.value.symbol->type) && var.value.symbol->index) {
+        if (is_scalar(var.value.symbol->type)
+            && var.value.symbol->index
+            && !is_field(var)
+            && var.offset == 0
+            && size_of(var.type) == size_of(var.value.symbol->type))
+        {
             return 1ul << (var.value.symbol->index - 1);
         }
     default:
@@ -60,17 +65,23 @@ static unsigned long set_use_bit(struct var var)
     return 0;
 }
 
+/*
+ * A called function can read any object it has been given the address
+ * of, by this call or earlier. Assume then that anything can be used.
+ */
 static unsigned long use(const struct expression *expr)
 {
     unsigned long r = 0ul;
 
     switch (expr->op) {
+    case IR_OP_CALL:
+        r = 0xFFFFFFFFFFFFFFFFul;
+        break;
     default:
         r |= set_use_bit(expr->r);
     case IR_OP_CAST:
     case IR_OP_NOT:
     case IR_OP_NEG:
-    case IR_OP_CALL:
     case IR_OP_VA_ARG:
         r |= set_use_bit(expr->l);
         break;
@@ -79,31 +90,6 @@ static unsigned long use(const struct expression *expr)
     return r;
 }
 
-static int is_or_has_pointer(Type type)
-{
-    int i;
-    struct member *m;
-
-    if (is_pointer(type)) {
-        return 1;
-    }
-
-    if (is_struct_or_union(type)) {
-        for (i = 0; i < nmembers(type); ++i) {
-            m = get_member(type, i);
-            if (is_or_has_pointer(m->type)) {
-                return 1;
-            }
-        }
-    }
-
-    return 0;
-}
-
-/*
- * Consider special case of sending a pointer into a function. Assume
- * then that anything can be used.
- */
 static unsigned long uses(const struct statement *s)
 {
     struct var t;
@@ -111,20 +97,10 @@ static unsigned long uses(const struct statement *s)
 
     assert(s->st != IR_ASM);
     r = use(&s->expr);
-    switch (s->st) {
-    case IR_ASSIGN:
-        if (s->t.kind == DEREF && s->t.is_symbol) {
-            t = s->t;
-            t.kind = DIRECT;
-            r |= set_use_bit(t);
-        }
-        break;
-    case IR_PARAM:
-        if (is_or_has_pointer(s->expr.type)) {
-            r |= 0xFFFFFFFFFFFFFFFFul;
-        }
-    default:
-        break;
+    if (s->st == IR_ASSIGN && s->t.kind == DEREF && s->t.is_symbol) {
+        t = s->t;
+        t.kind = DIRECT;
+        r |= set_use_bit(t);
     }
 
     return r;
diff --git a/src/optimizer/optimize.c b/src/optimizer/optimize.c
index 4827ae0..0cc0644 100644
--- a/src/optimizer/optimize.c
+++ b/src/optimizer/optimize.c
@@ -153,19 +153,22 @@ static int color_white(struct definition *def, struct block *block)
     return 0;
 }
 
-/* Forward jumps through blocks with no instructions. */
+/*
+ * Forward jumps through blocks with no instructions. Limit number of
+ * steps, as empty blocks can form a cycle.
+ */
 static int skip_empty_blocks(struct definition *def, struct block *block)
 {
-    int i;
+    int i, n;
     struct block *next;
 
     for (i = 0; i < 2 && block->jump[i]; ++i) {
-        do {
+        for (n = array_len(&blocklist); n > 0; --n) {
             next = block->jump[i];
             if (!next->count && next->jump[0] && !next->jump[1]) {
                 block->jump[i] = next->jump[0];
             } else break;
-        } while (1);
+        }
     }
 
     return 0;
diff --git a/src/optimizer/transform.c b/src/optimizer/transform.c
index 04ecedd..7d5db7f 100644
--- a/src/optimizer/transform.c
+++ b/src/optimizer/transform.c
@@ -19,6 +19,18 @@ static int var_equal(struct var a, struct var b)
         && a.offset == b.offset;
 }
 
+/*
+ * Copying a struct or union can read parts of the source after having
+ * written parts of the target, so they must be different objects. The
+ * same goes for functions returning a struct.
+ */
+static int can_overlap(struct var t, struct expression expr)
+{
+    return t.kind != DIRECT
+        || expr.l.kind != DIRECT
+        || t.value.symbol == expr.l.value.symbol;
+}
+
 /*
  * Look at a pair of IR operations, and determine if they can be merged
  * to a single assignment:
@@ -30,6 +42,8 @@ static int var_equal(struct var a, struct var b)
  *
  *  s1: t2 = a + b
  *
+ * The assignment to t1 must stay if it is volatile, or if t2 is located
+ * through its value.
  */
 static int can_merge(
     const struct block *block,
@@ -44,7 +58,13 @@ static int can_merge(
         && type_equal(s1.t.type, s2.t.type)
         && s1.t.kind == DIRECT
         && s1.t.value.symbol->linkage == LINK_NONE
+        && !is_volatile(s1.t.type)
+        && !is_volatile(s1.t.value.symbol->type)
         && !is_field(s1.t)
+        && !(s2.t.kind == DEREF
+            && s2.t.is_symbol
+            && s2.t.value.symbol == s1.t.value.symbol)
+        && !(is_struct_or_union(s1.t.type) && can_overlap(s2.t, s1.expr))
         && !is_live_after(s1.t.value.symbol, &s2);
 }
 
@@ -114,7 +134,10 @@ INTERNAL int dead_store_elimination(
             && st->expr.op != IR_OP_VA_ARG
             && st->t.kind == DIRECT
             && !is_live_after(st->t.value.symbol, st)
-            && st->t.value.symbol->linkage == LINK_NONE)
+            && st->t.value.symbol->linkage == LINK_NONE
+            && !is_volatile(st->t.type)
+            && !is_volatile(st->t.value.symbol->type)
+            && !(st->expr.op == IR_OP_CALL && is_struct_or_union(st->t.type)))
         {
             c += 1;
             if (has_side_effects(st->expr)) {
-- 
2.43.0


From a1649b5068b62ef770ea47125fdf5a91b8e83138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:22 +0000
Subject: [PATCH 32/63] fix: extract bit-field operands of multiplication and
 x87 loads

---
 src/backend/x86_64/compile.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/backend/x86_64/compile.c b/src/backend/x86_64/compile.c
index cd9ae96..01f08d2 100644
--- a/src/backend/x86_64/compile.c
+++ b/src/backend/x86_64/compile.c
@@ -951,7 +951,8 @@ static enum reg load_x87(struct var v)
         assert(w != 1);
         if (v.kind == DIRECT
             && !is_register_allocated(v)
-            && !is_global_offset(v.value.symbol))
+            && !is_global_offset(v.value.symbol)
+            && !is_field(v))
         {
             emit_m_(INSTR_FILD, location_of(v, w));
         } else {
@@ -2723,7 +2724,8 @@ static enum reg compile_mul(
         assert(ax == AX);
         if (l.kind == DIRECT
             && !is_register_allocated(l)
-            && !is_global_offset(l.value.symbol))
+            && !is_global_offset(l.value.symbol)
+            && !is_field(l))
         {
             emit_m_(INSTR_MUL, location_of(l, w));
         } else {
-- 
2.43.0


From 864600dea0d49714e742ab7554b055de7b3b0dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:28 +0000
Subject: [PATCH 33/63] fix: inline assembly lines without newline, without
 operands and with named operands

---
 src/backend/x86_64/assembler.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/backend/x86_64/assembler.c b/src/backend/x86_64/assembler.c
index 1691f84..44fa25c 100644
--- a/src/backend/x86_64/assembler.c
+++ b/src/backend/x86_64/assembler.c
@@ -122,7 +122,7 @@ static struct asm_token asmtok(const char *line, const char **endptr)
                 raw = str_raw(op->alias);
                 if (len == str_len(op->alias) && !strncmp(raw, ptr, len)) {
                     t.type = ASM_OP;
-                    ptr += len + 2;
+                    ptr += len + 1;
                     line = ptr;
                     t.val = i;
                     break;
@@ -363,7 +363,7 @@ static struct instruction parse__asm__instruction(
     t = asmtok(line, &line);
     skip_whitespace(line, &line);
 
-    if (*line == '\n') {
+    if (*line == '\0') {
         instr.optype = OPT_NONE;
     } else {
         instr.optype = parse__asm__operand(line, &line, &instr.source);
@@ -412,7 +412,7 @@ INTERNAL int assemble_inline(
     struct block *target;
     const char *str, *ptr;
     size_t len, read;
-    char *buf;
+    char *buf, *text;
     int c, i;
 
     for (i = 0; i < array_len(&st.operands); ++i) {
@@ -425,8 +425,12 @@ INTERNAL int assemble_inline(
         array_push_back(&targets, target);
     }
 
+    /* The last line of the template need not end with a newline. */
     len = str_len(st.template);
-    str = str_raw(st.template);
+    text = calloc(len + 1, sizeof(*text));
+    memcpy(text, str_raw(st.template), len);
+    text[len++] = '\n';
+    str = text;
     buf = calloc(len + 2, sizeof(*buf));
 
     while ((read = read_line(str, len, buf + 1, &c)) != 0) {
@@ -447,6 +451,7 @@ INTERNAL int assemble_inline(
 
     array_clear(&operands);
     array_clear(&targets);
+    free(text);
     free(buf);
     return 0;
 }
-- 
2.43.0


From 97026b99bd0271f40ea96a0a425286922b847ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:28 +0000
Subject: [PATCH 34/63] fix: encoding of byte registers, byte immediates and
 addresses without base

---
 src/backend/x86_64/encoding.c | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/src/backend/x86_64/encoding.c b/src/backend/x86_64/encoding.c
index 95ce2f0..5de95b2 100644
--- a/src/backend/x86_64/encoding.c
+++ b/src/backend/x86_64/encoding.c
@@ -31,6 +31,13 @@
 #define X(arg) (is_64_bit_reg((arg).index) << 1)
 #define B(arg) is_64_bit_reg(arg)
 
+/*
+ * Encodings of %spl, %bpl, %sil and %dil need an otherwise empty REX
+ * prefix. Without it, the same number means %ah, %ch, %dh and %bh.
+ */
+#define is_low_byte_reg(r) \
+    ((r) == SP || (r) == BP || (r) == SI || (r) == DI)
+
 /* Hack to enable REX.W on certain SSE instructions. */
 #define is_general(op) (op <= INSTR_XOR)
 #define enable_rex_w(op) \
@@ -155,9 +162,9 @@ static struct encoding {
     {INSTR_LEAVE, {"leave"}, {0}, {0xC9}, OPX_NONE, 0x00, OPT_NONE},
 
     {INSTR_MOV, {"mov", 1}, {0}, {0x88}, OPX_DW, 0x00, OPT_REG_REG | OPT_MEM_REG | OPT_REG_MEM},
-    {INSTR_MOV, {"mov", 1}, {0}, {0xB8}, OPX_WREG, 0x00, OPT_IMM_REG, {{1 | 2 | 4}, {1 | 2 | 4}}},
+    {INSTR_MOV, {"mov", 1}, {0}, {0xB0}, OPX_WREG, 0x00, OPT_IMM_REG, {{1 | 2 | 4}, {1 | 2 | 4}}},
     {INSTR_MOV, {"mov", 1}, {0}, {0xC6}, OPX_W, 0x00, OPT_IMM_REG, {0}, 0, 1},
-    {INSTR_MOV, {"movq"}, {0}, {0xB8}, OPX_WREG, 0x00, OPT_IMM_REG, {{8}, {8}}},
+    {INSTR_MOV, {"movq"}, {0}, {0xB0}, OPX_WREG, 0x00, OPT_IMM_REG, {{8}, {8}}},
     {INSTR_MOV, {"mov", 1}, {0}, {0xC6}, OPX_W, 0x00, OPT_IMM_MEM, {0}, 0, 1},
 
     {INSTR_MOV_STR, {"movs"}, {0}, {0xA4}, OPX_W},
@@ -194,7 +201,7 @@ static struct encoding {
     {INSTR_SHR, {"shr"}, {0}, {0xC0}, OPX_W, 0xE8, OPT_IMM_REG, {1}},
     {INSTR_SHR, {"shr"}, {0}, {0xD2}, OPX_W, 0xE8, OPT_REG_REG, {1, IMPL_CX}},
 
-    {INSTR_SUB, {"sub"}, {0}, {0x28}, OPX_SW, 0x00, OPT_REG_REG | OPT_MEM_REG | OPT_REG_MEM},
+    {INSTR_SUB, {"sub"}, {0}, {0x28}, OPX_DW, 0x00, OPT_REG_REG | OPT_MEM_REG | OPT_REG_MEM},
     {INSTR_SUB, {"sub"}, {0}, {0x80}, OPX_SW, 0x28, OPT_IMM_REG | OPT_IMM_MEM, {0}, 0, 1},
 
     {INSTR_TEST, {"test"}, {0}, {0x84}, OPX_W, 0x00, OPT_REG_REG | OPT_MEM_REG | OPT_REG_MEM},
@@ -301,7 +308,6 @@ static int encode_modrm_sib_disp(
     int len = c->len;
 
     assert(!addr.sym);
-    assert(addr.base || !addr.displacement);
 
     /* Scale is 2 bits, representing 1, 2, 4 or 8. */
     assert(addr.scale == 0
@@ -320,9 +326,11 @@ static int encode_modrm_sib_disp(
 
     /* ModR/M */
     c->val[c->len++] = ((reg & 0x7) << 3) | (has_sib ? 4 : reg3(addr.base));
-    if (!in_byte_range(addr.displacement)) {
+    if (!addr.base) {
+        /* No base, always followed by 32 bit displacement. */
+    } else if (!in_byte_range(addr.displacement)) {
         c->val[c->len - 1] |= 0x80;
-    } else if (has_displacement && addr.base) {
+    } else if (has_displacement) {
         c->val[c->len - 1] |= 0x40;
     }
 
@@ -434,7 +442,10 @@ static void encode_reg_reg(
         rex |= R(a);
     }
 
-    if (rex != REX) {
+    if (rex != REX
+        || (is_low_byte_reg(a) && (enc.reverse ? w : ws) == 1)
+        || (is_low_byte_reg(b) && (enc.reverse ? ws : w) == 1))
+    {
         c->val[c->len++] = rex;
     }
 
@@ -469,7 +480,7 @@ static void encode_mem_reg(
     }
 
     assert(!enc.openc[1].implicit);
-    if (rex != REX || ((b == SI || b == DI) && w == 1)) {
+    if (rex != REX || (is_low_byte_reg(b) && w == 1)) {
         c->val[c->len++] = rex;
     }
 
@@ -553,7 +564,7 @@ static void encode_imm_reg(
     unsigned char rex;
 
     rex = REX | W(w) | B(b);
-    if (rex != REX || ((b == SI || b == DI) && w == 1)) {
+    if (rex != REX || (is_low_byte_reg(b) && w == 1)) {
         c->val[c->len++] = rex;
     }
 
@@ -637,7 +648,7 @@ static void encode_imm_mem(
     }
 
     /* If allowing sign extend of 8 bit data. */
-    s = (enc.opextra & OPX_S) == OPX_S;
+    s = (enc.opextra & OPX_S) == OPX_S && w != 1;
 
     /*
      * We need to know how many bytes will be used in this instruction
@@ -691,7 +702,7 @@ static void encode_reg(
         rex = rex | W(w);
     }
 
-    if (rex != REX) {
+    if (rex != REX || (is_low_byte_reg(r) && w == 1)) {
         c->val[c->len++] = rex;
     }
 
-- 
2.43.0


From a8cf5d332333a622fbb0920045218c69ae3c181f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:28 +0000
Subject: [PATCH 35/63] fix: inline assembly operands that are constants,
 bit-fields or floating point, clobbered registers, goto-only labels

---
 src/backend/x86_64/compile.c | 25 ++++++++++++++++++++++---
 src/parser/statement.c       |  4 ++++
 2 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/backend/x86_64/compile.c b/src/backend/x86_64/compile.c
index 01f08d2..655f94a 100644
--- a/src/backend/x86_64/compile.c
+++ b/src/backend/x86_64/compile.c
@@ -1712,7 +1712,7 @@ static void allocate_asmblock_registers(
     int *int_regs,
     int *sse_regs)
 {
-    int i;
+    int i, saved;
     String str;
     enum reg r;
     struct symbol *sym;
@@ -1756,7 +1756,7 @@ static void allocate_asmblock_registers(
         if ((str_has_chr(str, 'r') && !str_has_chr(str, 'm'))
             || op->variable.kind == DEREF)
         {
-            if (is_integer(op->variable.type) || is_pointer(op->variable.type)) {
+            if (is_integer(sym->type) || is_pointer(sym->type)) {
                 do {
                     (*int_regs)++;
                 } while (*int_regs <= TEMP_INT_REGS
@@ -1767,7 +1767,7 @@ static void allocate_asmblock_registers(
                 }
                 sym->slot = *int_regs;
             } else {
-                assert(is_float(op->variable.type));
+                assert(is_float(sym->type));
                 do {
                     (*sse_regs)++;
                 } while (*sse_regs <= TEMP_SSE_REGS
@@ -1782,6 +1782,13 @@ static void allocate_asmblock_registers(
             sym->memory = 1;
         }
     }
+
+    /* Clobbered registers must be preserved for the caller as well. */
+    for (saved = TEMP_INT_REGS; saved > *int_regs; --saved) {
+        if (clobbered[temp_int_reg[saved - 1] - 1]) {
+            *int_regs = saved;
+        }
+    }
 }
 
 /*
@@ -3503,6 +3510,9 @@ static void compile_data(struct definition *def)
 
 static void compile_function(struct definition *def)
 {
+    int i, j;
+    struct asm_statement *st;
+
     assert(is_function(def->symbol->type));
     enter_context(def->symbol);
     emit_r_(INSTR_PUSH, reg(BP, 8));
@@ -3513,6 +3523,15 @@ static void compile_function(struct definition *def)
 
     /* Recursively assemble body. */
     compile_block(def, def->body, def->symbol->type);
+
+    /* Labels might only be reachable by jumps from __asm__ goto. */
+    for (i = 0; i < array_len(&def->asm_statements); ++i) {
+        st = &array_get(&def->asm_statements, i);
+        for (j = 0; j < array_len(&st->targets); ++j) {
+            compile_block(def,
+                array_get(&st->targets, j), def->symbol->type);
+        }
+    }
 }
 
 INTERNAL void set_compile_target(FILE *stream, const char *file)
diff --git a/src/parser/statement.c b/src/parser/statement.c
index 4a26762..2593eb3 100644
--- a/src/parser/statement.c
+++ b/src/parser/statement.c
@@ -413,7 +413,11 @@ static struct asm_operand asm_operand(
         var = rvalue(def, *block, var);
     }
 
+    /* Constants, addresses and bit-fields also need an object to refer to. */
     force_register = strchr(str, 'r') && !strchr(str, 'm');
+    if (is_field(var) || (var.kind != DIRECT && var.kind != DEREF)) {
+        force_register = 1;
+    }
 
     if (force_register && (var.kind != DIRECT || !is_temporary(var.value.symbol))) {
         tmp = create_var(def, var.type);
-- 
2.43.0


From 1bfb49c0c3438c4b02c345d0b09e6a4d0a6bec3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:50 +0000
Subject: [PATCH 36/63] build: use -std=gnu89, which also accepts line comments

---
 configure | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/configure b/configure
index 0ebf56c..8c84d38 100755
--- a/configure
+++ b/configure
@@ -3,7 +3,7 @@
 prefix="/usr/local"
 
 cc=cc
-cflags="-std=c89 -g -Wall -pedantic -Wno-missing-braces"
+cflags="-std=gnu89 -g -Wall -pedantic -Wno-missing-braces"
 cppflags=""
 
 if [ ! -z "$CC" ] ; then
-- 
2.43.0


From bc6ef2c26d342b5f6fcacc2f436be935aef266fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:25 +0000
Subject: [PATCH 37/63] fix: redeclared tags in inner scopes, tentative arrays
 of unknown size, initialized extern objects

---
 src/parser/declaration.c | 7 +++++--
 src/parser/symtab.c      | 6 ++++++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index 5ff916f..7027ed0 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -487,7 +487,10 @@ static Type struct_or_union_declaration(enum token_type t)
     if (try_consume(IDENTIFIER)) {
         name = access_token(0)->d.string;
         sym = sym_lookup(&ns_tag, name);
-        if (!sym) {
+        if (!sym
+            || (sym->depth < current_scope_depth(&ns_tag)
+                && (peek() == '{' || peek() == ';')))
+        {
             type = type_create(kind);
             sym = sym_add(&ns_tag, name, type, SYM_TAG, LINK_NONE);
         } else if (is_integer(sym->type)) {
@@ -1092,7 +1095,7 @@ static struct block *init_declarator(
 
     switch (peek()) {
     case '=':
-        if (sym->symtype == SYM_DECLARATION) {
+        if (linkage == LINK_EXTERN && current_scope_depth(&ns_ident)) {
             error("Extern symbol '%s' cannot be initialized.",
                 str_raw(sym->name));
             exit(1);
diff --git a/src/parser/symtab.c b/src/parser/symtab.c
index b81334e..6516419 100644
--- a/src/parser/symtab.c
+++ b/src/parser/symtab.c
@@ -573,6 +573,12 @@ INTERNAL const struct symbol *yield_declaration(struct namespace *ns)
                 return sym;
             break;
         case SYM_TENTATIVE:
+            if (is_array(sym->type)
+                && !is_complete(sym->type)
+                && size_of(type_next(sym->type)))
+            {
+                set_array_length(sym->type, 1);
+            }
             return sym;
         default:
             break;
-- 
2.43.0


From cad412d786b2acb838af7576e87349dc8ee1ba40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:49 +0000
Subject: [PATCH 38/63] fix: macro expansion: no second expansion of tokens
 already passed, white space of arguments, tokens kept apart in preprocessed
 output

---
 src/preprocessor/directive.c  |   4 +-
 src/preprocessor/macro.c      |  73 ++++++++++++-----
 src/preprocessor/macro.h      |  12 ++-
 src/preprocessor/preprocess.c | 144 +++++++++++++++++++++++++---------
 4 files changed, 175 insertions(+), 58 deletions(-)

diff --git a/src/preprocessor/directive.c b/src/preprocessor/directive.c
index d718ab7..9e7050a 100644
--- a/src/preprocessor/directive.c
+++ b/src/preprocessor/directive.c
@@ -718,6 +718,7 @@ static struct macro preprocess_define(
             }
         }
         if (param.d.val.i != -1) {
+            param.leading_whitespace = line->leading_whitespace;
             array_push_back(&macro.replacement, param);
         } else {
             array_push_back(&macro.replacement, *line);
@@ -781,8 +782,7 @@ INTERNAL void preprocess_directive(TokenArray *array)
         || (in_dead_branch() && !tok_cmp(*line, ident__elif))
         || (in_active_block() && !tok_cmp(*line, ident__line)))
     {
-        while (expand(array))
-            ;
+        expand(array);
         line = array->data;
     }
 
diff --git a/src/preprocessor/macro.c b/src/preprocessor/macro.c
index 129224c..751340d 100644
--- a/src/preprocessor/macro.c
+++ b/src/preprocessor/macro.c
@@ -357,7 +357,7 @@ static TokenArray expand_stringify_and_paste(
     const struct macro *def,
     TokenArray *args)
 {
-    int len, d, i, empty;
+    int len, d, i, n, empty;
     struct token t, s;
     TokenArray list = get_token_array(), rhs;
 
@@ -417,7 +417,12 @@ static TokenArray expand_stringify_and_paste(
                 && array_get(&def->replacement, i + 1).token == TOKEN_PASTE)
             {
                 empty = !array_len(&args[d]);
-                array_concat(&list, &args[d]);
+                if (!empty) {
+                    array_concat(&list, &args[d]);
+                    n = array_len(&list) - array_len(&args[d]);
+                    array_get(&list, n).leading_whitespace =
+                        t.leading_whitespace;
+                }
             } else {
                 array_push_back(&list, t);
             }
@@ -425,7 +430,9 @@ static TokenArray expand_stringify_and_paste(
         case '#':
             if (def->type == FUNCTION_LIKE) {
                 i += 1;
-                t = expand_stringify(def, args, i);
+                s = expand_stringify(def, args, i);
+                s.leading_whitespace = t.leading_whitespace;
+                t = s;
             }
         default:
             array_push_back(&list, t);
@@ -437,7 +444,11 @@ static TokenArray expand_stringify_and_paste(
     return list;
 }
 
-static int expand_line(ExpandStack *scope, TokenArray *list);
+static int expand_line(
+    ExpandStack *scope,
+    TokenArray *list,
+    int i,
+    int is_partial);
 
 static TokenArray expand_macro(
     ExpandStack *scope,
@@ -453,11 +464,6 @@ static TokenArray expand_macro(
         assert(def->type == FUNCTION_LIKE);
         for (i = 0; i < def->params; ++i) {
             expand(&args[i]);
-            if (array_len(&args[i])) {
-                if (!array_get(&args[i], 0).leading_whitespace) {
-                    array_get(&args[i], 0).leading_whitespace = 1;
-                }
-            }
         }
 
         for (i = 0; i < array_len(&list); ++i) {
@@ -468,6 +474,8 @@ static TokenArray expand_macro(
                     array_erase(&list, i);
                     i--;
                 } else {
+                    array_get(&args[j], 0).leading_whitespace =
+                        t.leading_whitespace;
                     array_replace_slice(&list, i, 1, &args[j]);
                 }
             }
@@ -478,7 +486,7 @@ static TokenArray expand_macro(
         free(args);
     }
 
-    expand_line(scope, &list);
+    expand_line(scope, &list, 0, 0);
     return list;
 }
 
@@ -609,15 +617,26 @@ static int is_invocation(const TokenArray *list, int i)
     return 0;
 }
 
-static int expand_line(ExpandStack *scope, TokenArray *list)
+/*
+ * Expand macros in list, starting from position i. Tokens that are passed
+ * are not considered again.
+ *
+ * In partial mode, stop at a function-like macro at the end of the line,
+ * or one with an incomplete argument list. Return the position.
+ */
+static int expand_line(
+    ExpandStack *scope,
+    TokenArray *list,
+    int i,
+    int is_partial)
 {
-    int size, i, n;
+    int size;
     struct token t;
     const struct macro *def;
     const struct token *endptr;
     TokenArray *args, expn;
 
-    for (n = 0, i = 0; i < array_len(list); ++i) {
+    for (; i < array_len(list); ++i) {
         t = array_get(list, i);
         if (!t.is_expandable || t.disable_expand) {
             continue;
@@ -634,6 +653,16 @@ static int expand_line(ExpandStack *scope, TokenArray *list)
 
         /* Only expand if next token is '(', and all arguments follow. */
         if (def->type == FUNCTION_LIKE && !is_invocation(list, i + 1)) {
+            if (is_partial) {
+                switch (peek_token(list, i + 1)) {
+                case '(':
+                case NEWLINE:
+                case END:
+                    return i;
+                default:
+                    break;
+                }
+            }
             continue;
         }
 
@@ -656,20 +685,26 @@ static int expand_line(ExpandStack *scope, TokenArray *list)
         array_replace_slice(list, i, size, &expn);
         i -= 1;
         release_token_array(expn);
-        n += 1;
     }
 
-    return n;
+    return i;
+}
+
+INTERNAL void expand(TokenArray *list)
+{
+    ExpandStack stack = get_expand_stack();
+
+    expand_line(&stack, list, 0, 0);
+    release_expand_stack(stack);
 }
 
-INTERNAL int expand(TokenArray *list)
+INTERNAL int expand_partial(TokenArray *list, int i)
 {
-    int n;
     ExpandStack stack = get_expand_stack();
 
-    n = expand_line(&stack, list);
+    i = expand_line(&stack, list, i, 1);
     release_expand_stack(stack);
-    return n;
+    return i;
 }
 
 INTERNAL int tok_cmp(struct token a, struct token b)
diff --git a/src/preprocessor/macro.h b/src/preprocessor/macro.h
index f661ee8..acb3da2 100644
--- a/src/preprocessor/macro.h
+++ b/src/preprocessor/macro.h
@@ -71,9 +71,17 @@ INTERNAL const struct macro *macro_definition(String name);
 
 /*
  * Expand a list of tokens, replacing any macro definitions. Mutates
- * input list as necessary. Return non-zero if any macro was expanded.
+ * input list as necessary.
  */
-INTERNAL int expand(TokenArray *list);
+INTERNAL void expand(TokenArray *list);
+
+/*
+ * Expand tokens from the given position, until reaching the end of list,
+ * or a function-like macro that can have arguments on the next line.
+ *
+ * Return position of the macro, or length of the list.
+ */
+INTERNAL int expand_partial(TokenArray *list, int i);
 
 /*
  * Compare tokens for equality, returing 0 iff of same type and value.
diff --git a/src/preprocessor/preprocess.c b/src/preprocessor/preprocess.c
index 4a1dc34..f93867b 100644
--- a/src/preprocessor/preprocess.c
+++ b/src/preprocessor/preprocess.c
@@ -345,46 +345,46 @@ static int read_complete_line(TokenArray *line, struct token t, int directive)
 }
 
 /*
- * After expansion, it might be that we need to read a bit more input to
- * get argument of new expansion. Look through the array and see whether
- * there is a partial macro invocation that needs more input.
- *
- * Also handle _Pragma directives, which can span multiple lines.
- *
- * Return non-zero if there are more function-like macros that needs to
- * be expanded.
+ * Read the rest of the line, if the last token is not a newline. Return
+ * non-zero if anything was read.
  */
-static int refill_expanding_line(TokenArray *line)
+static int complete_line(TokenArray *line)
 {
-    int i, n, len;
-    struct token t;
-    const struct macro *def;
-
-    len = array_len(line);
-    if (!len) {
+    if (!array_len(line) || array_back(line).token == NEWLINE) {
         return 0;
     }
 
-    for (i = 0, n = 0; i < len; ++i) {
-        t = array_get(line, i);
-        if (t.is_expandable && !t.disable_expand) {
-            def = macro_definition(t.d.string);
-            if (def && def->type == FUNCTION_LIKE) {
-                i += skip_or_read_expansion(line, i + 1);
-                n += 1;
+    read_complete_line(line, get_token(), 0);
+    return 1;
+}
+
+/*
+ * Expand all macros in line, reading more input when the arguments of a
+ * function-like macro are found on the lines that follow.
+ *
+ * Also handle _Pragma directives, which can span multiple lines.
+ */
+static void expand_complete_line(TokenArray *line, int macros)
+{
+    int i, n;
+
+    i = macros ? 0 : array_len(line);
+    do {
+        while ((i = expand_partial(line, i)) < array_len(line)) {
+            if (!skip_or_read_expansion(line, i + 1)) {
+                i += 1;
             }
-        } else if (!tok_cmp(t, ident__Pragma)) {
-            i += skip_or_read_expansion(line, i + 1);
-        }
-    }
 
-    /* Make sure a complete line is read, to not mix directives. */
-    if (t.token != NEWLINE) {
-        t = get_token();
-        n += read_complete_line(line, t, 0);
-    }
+            /* Make sure a complete line is read, to not mix directives. */
+            complete_line(line);
+        }
 
-    return n;
+        for (n = 0; n < array_len(line); ++n) {
+            if (!tok_cmp(array_get(line, n), ident__Pragma)) {
+                n += skip_or_read_expansion(line, n + 1);
+            }
+        }
+    } while (complete_line(line));
 }
 
 static const char *stringify_token(const struct token *t)
@@ -630,9 +630,7 @@ static void preprocess_line(int n)
         } else {
             assert(in_active_block());
             i = read_complete_line(&line, t, 0);
-            while (i && expand(&line)) {
-                i = refill_expanding_line(&line);
-            }
+            expand_complete_line(&line, i);
             for (i = 0; i < array_len(&line); ++i) {
                 t = array_get(&line, i);
                 if (!tok_cmp(t, ident__Pragma)) {
@@ -733,16 +731,90 @@ INTERNAL const struct token *access_token(int n)
     return &deque_get(&lookahead, n - 1);
 }
 
+/*
+ * Determine whether two tokens printed next to each other would be read
+ * back as something else. This can happen for tokens that do not come
+ * from the same place in the source, like before and after an expanded
+ * macro.
+ */
+static int is_separator_needed(const struct token *l, const struct token *r)
+{
+    char a, b;
+    String str;
+
+    str = l->d.string;
+    if (l->token == NEWLINE || !str_len(str) || !str_len(r->d.string)) {
+        return 0;
+    }
+
+    a = str_raw(str)[str_len(str) - 1];
+    b = str_raw(r->d.string)[0];
+    switch (r->token) {
+    case PREP_CHAR:
+    case PREP_STRING:
+    case STRING:
+        return l->is_expandable;
+    case NEWLINE:
+        return 0;
+    default:
+        break;
+    }
+
+    switch (l->token) {
+    case PREP_CHAR:
+    case PREP_STRING:
+    case STRING:
+        return 0;
+    case PREP_NUMBER:
+        return isalnum(b) || b == '_' || b == '.'
+            || ((b == '+' || b == '-') && strchr("eEpP", a));
+    default:
+        break;
+    }
+
+    switch (a) {
+    case '+':
+    case '&':
+    case '|':
+    case '>':
+    case '=':
+    case '#':
+        return b == a || b == '=';
+    case '-':
+        return b == '-' || b == '=' || b == '>';
+    case '<':
+        return b == '<' || b == '=' || b == ':' || b == '%';
+    case '*':
+    case '^':
+    case '!':
+        return b == '=';
+    case '/':
+        return b == '=' || b == '/' || b == '*';
+    case '%':
+        return b == '=' || b == ':' || b == '>';
+    case ':':
+        return b == '>';
+    case '.':
+        return b == '.' || isdigit(b);
+    default:
+        return (isalnum(a) || a == '_') && (isalnum(b) || b == '_');
+    }
+}
+
 INTERNAL void preprocess(FILE *output)
 {
     const struct token *t;
+    struct token prev;
 
     output_preprocessed = 1;
+    prev = basic_token[NEWLINE];
     while (peek() != END) {
         next();
         t = access_token(0);
         if (t->leading_whitespace) {
             fprintf(output, "%*s", t->leading_whitespace, " ");
+        } else if (is_separator_needed(&prev, t)) {
+            putc(' ', output);
         }
 
         switch (t->token) {
@@ -764,5 +836,7 @@ INTERNAL void preprocess(FILE *output)
             fprintf(output, "%s", str_raw(t->d.string));
             break;
         }
+
+        prev = *t;
     }
 }
-- 
2.43.0


From 9334a3ca61320f5e2d050d3f2323ff3db9454fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:55 +0000
Subject: [PATCH 39/63] fix: do not expand macro arguments that are only
 stringified or pasted

---
 src/preprocessor/macro.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/preprocessor/macro.c b/src/preprocessor/macro.c
index 751340d..5ba2307 100644
--- a/src/preprocessor/macro.c
+++ b/src/preprocessor/macro.c
@@ -462,8 +462,15 @@ static TokenArray expand_macro(
     list = expand_stringify_and_paste(def, args);
     if (def->params > 0) {
         assert(def->type == FUNCTION_LIKE);
+        /* Arguments only stringified or pasted are never expanded. */
         for (i = 0; i < def->params; ++i) {
-            expand(&args[i]);
+            for (j = 0; j < array_len(&list); ++j) {
+                t = array_get(&list, j);
+                if (t.token == PARAM && t.d.val.i == i) {
+                    expand(&args[i]);
+                    break;
+                }
+            }
         }
 
         for (i = 0; i < array_len(&list); ++i) {
-- 
2.43.0


From 5ebd2ce864b205be181f656e1e528594571d76fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:25 +0000
Subject: [PATCH 40/63] fix: recognize digraphs in C99 and later

---
 src/preprocessor/input.c      |  5 +++--
 src/preprocessor/preprocess.c |  2 +-
 src/preprocessor/tokenize.c   | 37 ++++++++++++++++++++++++++++++++++-
 3 files changed, 40 insertions(+), 4 deletions(-)

diff --git a/src/preprocessor/input.c b/src/preprocessor/input.c
index 2bda83e..1ab3176 100644
--- a/src/preprocessor/input.c
+++ b/src/preprocessor/input.c
@@ -616,11 +616,12 @@ static char *initial_preprocess_line(struct source *fn)
 
 static int is_directive(const char *line)
 {
-    while (*line == ' ' || *line == '\t') {
+    while (isspace((unsigned char) *line)) {
         line++;
     }
 
-    return *line == '#';
+    return *line == '#'
+        || (context.standard >= STD_C99 && line[0] == '%' && line[1] == ':');
 }
 
 INTERNAL char *getprepline(void)
diff --git a/src/preprocessor/preprocess.c b/src/preprocessor/preprocess.c
index f93867b..dafabcf 100644
--- a/src/preprocessor/preprocess.c
+++ b/src/preprocessor/preprocess.c
@@ -793,7 +793,7 @@ static int is_separator_needed(const struct token *l, const struct token *r)
     case '%':
         return b == '=' || b == ':' || b == '>';
     case ':':
-        return b == '>';
+        return b == '>' || b == '%';
     case '.':
         return b == '.' || isdigit(b);
     default:
diff --git a/src/preprocessor/tokenize.c b/src/preprocessor/tokenize.c
index 3ca1ce5..b449ba7 100644
--- a/src/preprocessor/tokenize.c
+++ b/src/preprocessor/tokenize.c
@@ -556,6 +556,21 @@ static struct token strtoident(const char *in, const char **endptr)
 #define M7(a, b, c, d, e, f, g) (M6(a, b, c, d, e, f) && M(6, g))
 #define T(t, l) (*endptr = start + l, basic_token[t])
 
+/* Alternative spelling of punctuator, preserved when stringified. */
+static struct token digraph(
+    enum token_type type,
+    const char *spelling,
+    const char *in,
+    const char **endptr)
+{
+    struct token tok;
+
+    tok = basic_token[type];
+    tok.d.string = str_c(spelling);
+    *endptr = in + strlen(spelling);
+    return tok;
+}
+
 static struct token tokenize_internal(const char *in, const char **endptr)
 {
     int c;
@@ -724,6 +739,15 @@ static struct token tokenize_internal(const char *in, const char **endptr)
     case '/':
         return (*in == '=') ? T(DIV_ASSIGN, 2) : T('/', 1);
     case '%':
+        if (context.standard >= STD_C99) {
+            if (*in == ':') {
+                return (in[1] == '%' && in[2] == ':')
+                    ? digraph(TOKEN_PASTE, "%:%:", start, endptr)
+                    : digraph('#', "%:", start, endptr);
+            } else if (*in == '>') {
+                return digraph('}', "%>", start, endptr);
+            }
+        }
         return (*in == '=') ? T(MOD_ASSIGN, 2) : T('%', 1);
     case '+':
         return (*in == '+') ? T(INCREMENT, 2)
@@ -732,7 +756,19 @@ static struct token tokenize_internal(const char *in, const char **endptr)
         return (*in == '>') ? T(ARROW, 2)
             : (*in == '-') ? T(DECREMENT, 2)
             : (*in == '=') ? T(MINUS_ASSIGN, 2) : T('-', 1);
+    case ':':
+        if (*in == '>' && context.standard >= STD_C99) {
+            return digraph(']', ":>", start, endptr);
+        }
+        return T(':', 1);
     case '<':
+        if (context.standard >= STD_C99) {
+            if (*in == ':') {
+                return digraph('[', "<:", start, endptr);
+            } else if (*in == '%') {
+                return digraph('{', "<%", start, endptr);
+            }
+        }
         if (*in == '<')
             return (in[1] == '=') ? T(LSHIFT_ASSIGN, 3) : T(LSHIFT, 2);
         return (*in == '=') ? T(LEQ, 2) : T('<', 1);
@@ -762,7 +798,6 @@ static struct token tokenize_internal(const char *in, const char **endptr)
     case ']':
     case ',':
     case ';':
-    case ':':
     case '?':
     case '~':
     case '\\':
-- 
2.43.0


From fa62c02b9262ce6e5a7e104766772a13d0bd2954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:25 +0000
Subject: [PATCH 41/63] fix: trigraph for backslash in line continuations,
 question marks that do not form a trigraph

---
 src/preprocessor/input.c | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/preprocessor/input.c b/src/preprocessor/input.c
index 1ab3176..504be84 100644
--- a/src/preprocessor/input.c
+++ b/src/preprocessor/input.c
@@ -274,6 +274,21 @@ INTERNAL void set_input_file(const char *path)
     inject_include_files();
 }
 
+/*
+ * Length of line continuation, which is a backslash or the trigraph for
+ * it, followed by a newline. Return 0 if there is none.
+ */
+static size_t read_splice(const char *line)
+{
+    if (line[0] == '\\' && line[1] == '\n') {
+        return 2;
+    } else if (!strncmp(line, "?\?/\n", 4)) {
+        return 4;
+    }
+
+    return 0;
+}
+
 /*
  * Consume input until encountering end of comment. Return number of
  * characters read, or 0 if end of input reached.
@@ -284,15 +299,16 @@ INTERNAL void set_input_file(const char *path)
 static size_t read_comment(const char *line, int *linecount)
 {
     char c;
+    size_t n;
     const char *ptr;
 
     ptr = line;
     do {
         c = *ptr++;
         if (c == '*') {
-            while (*ptr == '\\' && ptr[1] == '\n') {
+            while ((n = read_splice(ptr)) != 0) {
                 *linecount += 1;
-                ptr += 2;
+                ptr += n;
             }
             if (*ptr == '/') {
                 return ptr + 1 - line;
@@ -311,14 +327,16 @@ static size_t read_comment(const char *line, int *linecount)
 static size_t read_line_comment(const char *line, int *linecount)
 {
     char c;
+    size_t n;
     const char *ptr;
 
     ptr = line;
     do {
+        n = read_splice(ptr);
         c = *ptr++;
-        if (c == '\\' && *ptr == '\n') {
+        if (n) {
             *linecount += 1;
-            ptr++;
+            ptr += n - 1;
         } else if (c == '\n') {
             return ptr - line;
         }
@@ -506,8 +524,8 @@ INTERNAL size_t read_line(
                 write[-1] = ' ';
                 i += n;
                 start = &line[i + 1];
-            } else if (c == '\\' && line[i + 1] == '\n') {
-                i += 1;
+            } else if ((n = read_splice(&line[i])) != 0) {
+                i += n - 1;
                 start = &line[i + 1];
                 lines += 1;
             } else if (c == '?' && line[i + 1] == '?') {
@@ -516,6 +534,8 @@ INTERNAL size_t read_line(
                     i += 2;
                     start = &line[i + 1];
                     *write++ = c;
+                } else {
+                    count++;
                 }
             } else if (c == '/' && write[-1] == '/') {
                 n = read_line_comment(&line[i + 1], &lines);
-- 
2.43.0


From 7b87fcd4de38d102d6b1c293c3c5dbbf75482449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:53 +0000
Subject: [PATCH 42/63] fix: conditional groups, #line and skipped text in the
 preprocessor

Reject #else/#elif after #else and conditionals not closed in their file,
parse #line digits as decimal and keep it local to the file, do not expand
directive names, and ignore the contents of skipped groups.
---
 src/preprocessor/directive.c  | 92 +++++++++++++++++++++++++++++------
 src/preprocessor/directive.h  |  3 ++
 src/preprocessor/input.c      | 35 ++++++++++++-
 src/preprocessor/input.h      |  3 ++
 src/preprocessor/preprocess.c | 25 +++++++++-
 5 files changed, 140 insertions(+), 18 deletions(-)

diff --git a/src/preprocessor/directive.c b/src/preprocessor/directive.c
index 9e7050a..9753676 100644
--- a/src/preprocessor/directive.c
+++ b/src/preprocessor/directive.c
@@ -11,6 +11,9 @@
 #include <lacc/context.h>
 
 #include <assert.h>
+#include <ctype.h>
+#include <limits.h>
+#include <stdlib.h>
 #include <string.h>
 
 #define IDENT(s) {IDENTIFIER, 1, 0, 0, {0}, {SHORT_STRING_INIT(s)}}
@@ -55,23 +58,31 @@ struct number {
     union value val;
 };
 
+struct branch {
+    enum state state;
+    int is_else;
+};
+
 /*
  * Keep stack of branch conditions for #if, #elif and #endif. Push and
  * pop according to current and parent state, and result of evaluating
  * expressions.
  */
-static array_of(enum state) branch_stack;
+static array_of(struct branch) branch_stack;
 
 static void push_state(enum state c)
 {
-    array_push_back(&branch_stack, c);
+    struct branch branch = {0};
+
+    branch.state = c;
+    array_push_back(&branch_stack, branch);
 }
 
 static enum state pop_state(void)
 {
-    enum state val;
+    struct branch val;
 
-    if (!array_len(&branch_stack)) {
+    if (array_len(&branch_stack) <= current_file_branches()) {
         error("Unmatched #endif directive.");
         exit(1);
     }
@@ -81,14 +92,30 @@ static enum state pop_state(void)
         array_clear(&branch_stack);
     }
 
-    return val;
+    return val.state;
+}
+
+/* Leave one group, to enter another in the same section. */
+static enum state pop_group(void)
+{
+    if (array_len(&branch_stack) && array_back(&branch_stack).is_else) {
+        error("Unexpected directive following #else.");
+        exit(1);
+    }
+
+    return pop_state();
+}
+
+INTERNAL int branch_depth(void)
+{
+    return array_len(&branch_stack);
 }
 
 INTERNAL int in_active_block(void)
 {
     enum state s = BRANCH_LIVE;
     if (array_len(&branch_stack)) {
-        s = array_get(&branch_stack, array_len(&branch_stack) - 1);
+        s = array_back(&branch_stack).state;
     }
 
     return s == BRANCH_LIVE;
@@ -97,7 +124,7 @@ INTERNAL int in_active_block(void)
 INTERNAL int in_dead_branch(void)
 {
     return array_len(&branch_stack)
-        && array_back(&branch_stack) == BRANCH_DEAD;
+        && array_back(&branch_stack).state == BRANCH_DEAD;
 }
 
 static void expect(const struct token *list, int token)
@@ -605,7 +632,16 @@ static struct number preprocess_constant_expression(
     const struct token *list,
     const struct token **endptr)
 {
-    return preprocess_conditional(list, endptr);
+    struct number n;
+
+    n = preprocess_conditional(list, &list);
+    if (list->token != NEWLINE) {
+        error("Unexpected token in controlling expression of directive.");
+        exit(1);
+    }
+
+    *endptr = list;
+    return n;
 }
 
 /*
@@ -742,18 +778,26 @@ static struct macro preprocess_define(
 static void preprocess_line_directive(const struct token *line)
 {
     struct token t;
+    const char *s;
+    long n = 0;
 
     t = *line++;
     if (t.token == PREP_NUMBER) {
-        t = convert_preprocessing_number(t);
+        /* The number is always decimal, also with leading zeros. */
+        for (s = str_raw(t.d.string); isdigit(*s) && n <= INT_MAX; ++s) {
+            n = n * 10 + (*s - '0');
+        }
+        if (*s != '\0') {
+            n = 0;
+        }
     }
 
-    if (t.token != NUMBER || !is_int(t.type) || t.d.val.i <= 0) {
+    if (n <= 0 || n > INT_MAX) {
         error("Expected positive integer in #line directive.");
         exit(1);
     }
 
-    current_file_line = t.d.val.i - 1;
+    current_file_line = n - 1;
     if (line->token == PREP_STRING) {
         current_file_path = line->d.string;
         line++;
@@ -765,6 +809,25 @@ static void preprocess_line_directive(const struct token *line)
     }
 }
 
+/* Expand all macros following the name of the directive. */
+static void expand_arguments(TokenArray *line)
+{
+    int i;
+    TokenArray args = get_token_array();
+
+    for (i = 1; i < array_len(line); ++i) {
+        array_push_back(&args, array_get(line, i));
+    }
+
+    expand(&args);
+    line->length = 1;
+    for (i = 0; i < array_len(&args); ++i) {
+        array_push_back(line, array_get(&args, i));
+    }
+
+    release_token_array(args);
+}
+
 INTERNAL void preprocess_directive(TokenArray *array)
 {
     struct number num;
@@ -782,7 +845,7 @@ INTERNAL void preprocess_directive(TokenArray *array)
         || (in_dead_branch() && !tok_cmp(*line, ident__elif))
         || (in_active_block() && !tok_cmp(*line, ident__line)))
     {
-        expand(array);
+        expand_arguments(array);
         line = array->data;
     }
 
@@ -798,15 +861,16 @@ INTERNAL void preprocess_directive(TokenArray *array)
             push_state(BRANCH_DISABLED);
         }
     } else if (line->token == ELSE) {
-        state = pop_state();
+        state = pop_group();
         if (in_active_block()) {
             push_state(state == BRANCH_DEAD ? BRANCH_LIVE : BRANCH_DISABLED);
         } else {
             assert(state == BRANCH_DISABLED);
             push_state(BRANCH_DISABLED);
         }
+        array_back(&branch_stack).is_else = 1;
     } else if (!tok_cmp(*line, ident__elif)) {
-        state = pop_state();
+        state = pop_group();
         if (in_active_block()) {
             if (state == BRANCH_DEAD) {
                 num = preprocess_constant_expression(line + 1, &line);
diff --git a/src/preprocessor/directive.h b/src/preprocessor/directive.h
index 0eee47a..96e0624 100644
--- a/src/preprocessor/directive.h
+++ b/src/preprocessor/directive.h
@@ -23,6 +23,9 @@ EXTERNAL struct token
  */
 INTERNAL void preprocess_directive(TokenArray *line);
 
+/* Number of #if sections that are currently open. */
+INTERNAL int branch_depth(void);
+
 /* Non-zero iff currently not inside a false #if directive. */
 INTERNAL int in_active_block(void);
 
diff --git a/src/preprocessor/input.c b/src/preprocessor/input.c
index 504be84..09ef156 100644
--- a/src/preprocessor/input.c
+++ b/src/preprocessor/input.c
@@ -43,6 +43,16 @@ struct source {
 
     /* Current line. */
     int line;
+
+    /*
+     * Path and line as seen by the program, which can be changed by
+     * #line. Stored while reading an included file.
+     */
+    String presumed_path;
+    int presumed_line;
+
+    /* Number of #if sections open at the start of the file. */
+    int branches;
 };
 
 /* Temporary buffer used to construct search paths. */
@@ -76,6 +86,12 @@ static void push_file(struct source source)
     assert(source.file);
     assert(!str_is_empty(source.path));
 
+    if (array_len(&source_stack)) {
+        array_back(&source_stack).presumed_path = current_file_path;
+        array_back(&source_stack).presumed_line = current_file_line;
+    }
+
+    source.branches = branch_depth();
     current_file_line = 0;
     current_file_path = source.path;
     source.buffer = malloc(FILE_BUFFER_SIZE);
@@ -398,6 +414,11 @@ static size_t read_literal(const char *line, char **buf, int *lines)
                 end += 1;
                 continue;
             } else {
+                if (!in_active_block()) {
+                    /* Skipped text can be anything, like apostrophes. */
+                    *buf = ptr;
+                    return end - line;
+                }
                 error("Unexpected newline in literal.");
                 exit(1);
             }
@@ -634,6 +655,12 @@ static char *initial_preprocess_line(struct source *fn)
     return rline + 1;
 }
 
+INTERNAL int current_file_branches(void)
+{
+    assert(array_len(&source_stack));
+    return array_back(&source_stack).branches;
+}
+
 static int is_directive(const char *line)
 {
     while (isspace((unsigned char) *line)) {
@@ -659,13 +686,17 @@ INTERNAL char *getprepline(void)
         source = &array_back(&source_stack);
         loc = source->line;
         if (stale) {
-            current_file_path = source->path;
-            current_file_line = source->line;
+            current_file_path = source->presumed_path;
+            current_file_line = source->presumed_line;
             stale = 0;
         }
         line = initial_preprocess_line(source);
         current_file_line += source->line - loc;
         if (!line) {
+            if (branch_depth() > source->branches) {
+                error("Unterminated conditional directive.");
+                exit(1);
+            }
             stale = 1;
             if (pop_file() == EOF) {
                 return NULL;
diff --git a/src/preprocessor/input.h b/src/preprocessor/input.h
index 56055bd..cd105df 100644
--- a/src/preprocessor/input.h
+++ b/src/preprocessor/input.h
@@ -32,6 +32,9 @@ INTERNAL int add_include_file(const char *path);
  */
 INTERNAL char *getprepline(void);
 
+/* Number of #if sections that were open at the start of current file. */
+INTERNAL int current_file_branches(void);
+
 /* Path of file and line number that was last read. */
 EXTERNAL String current_file_path;
 EXTERNAL int current_file_line;
diff --git a/src/preprocessor/preprocess.c b/src/preprocessor/preprocess.c
index dafabcf..3278e9c 100644
--- a/src/preprocessor/preprocess.c
+++ b/src/preprocessor/preprocess.c
@@ -134,6 +134,17 @@ static int is_next_line_parenthesis(void)
     return 0;
 }
 
+/* Determine whether the rest of the line starts with an identifier. */
+static int is_name_next(void)
+{
+    const char *ptr;
+
+    for (ptr = line_buffer; ptr && isspace((unsigned char) *ptr); ++ptr)
+        ;
+
+    return ptr && (isalpha((unsigned char) *ptr) || *ptr == '_');
+}
+
 /*
  * Keep track of the nesting depth of macro arguments. For example;
  * MAX( MAX(10, 12), 20 ) should complete on the last parenthesis, which
@@ -608,7 +619,9 @@ static void preprocess_line(int n)
         }
 
         line.length = 0;
-        if (t.token == '#') {
+        if (!in_active_block() && (t.token != '#' || !is_name_next())) {
+            line_buffer = NULL;
+        } else if (t.token == '#') {
             t = get_token();
             if ((t.token != NEWLINE && in_active_block())
                 || t.token == IF
@@ -618,7 +631,15 @@ static void preprocess_line(int n)
                 || !tok_cmp(t, ident__elif)
                 || !tok_cmp(t, ident__endif))
             {
-                read_complete_line(&line, t, 1);
+                if (in_active_block()
+                    || (!tok_cmp(t, ident__elif) && in_dead_branch()))
+                {
+                    read_complete_line(&line, t, 1);
+                } else {
+                    array_push_back(&line, t);
+                    array_push_back(&line, basic_token[NEWLINE]);
+                    line_buffer = NULL;
+                }
                 if (!tok_cmp(t, ident__pragma)) {
                     preprocess_pragma(&line);
                 } else {
-- 
2.43.0


From 84969cda0d838adc3924b8ddf363be1bd099f4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:15 +0000
Subject: [PATCH 43/63] fix: -Wl options, exit status on errors and linker
 failure, -dot without target

-Wl, was matched by the -W option; a translation unit with errors or a
linker killed by a signal ended with success; -dot failed an assertion.
---
 src/backend/linker.c         |  6 ++++--
 src/backend/x86_64/compile.c |  4 ++++
 src/lacc.c                   | 19 ++++++++-----------
 3 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/backend/linker.c b/src/backend/linker.c
index 6f6c732..7bcd3dc 100644
--- a/src/backend/linker.c
+++ b/src/backend/linker.c
@@ -8,6 +8,7 @@
 
 #include <sys/types.h>
 #include <sys/wait.h>
+#include <stdio.h>
 #include <stdlib.h>
 #include <limits.h>
 #include <string.h>
@@ -149,14 +150,15 @@ INTERNAL int invoke_linker(void)
     switch ((pid = fork())) {
     case 0:
         execvp(argv[0], argv);
-        _exit(0);
+        fprintf(stderr, "Failed to execute %s.\n", argv[0]);
+        _exit(127);
     case -1:
         fprintf(stderr, "%s\n", "Failed to start linker process.");
         ret = 1;
         break;
     default:
         waitpid(pid, &status, 0);
-        ret = WEXITSTATUS(status);
+        ret = WIFEXITED(status) ? WEXITSTATUS(status) : 1;
         break;
     }
 
diff --git a/src/backend/x86_64/compile.c b/src/backend/x86_64/compile.c
index 655f94a..7f86004 100644
--- a/src/backend/x86_64/compile.c
+++ b/src/backend/x86_64/compile.c
@@ -3538,6 +3538,8 @@ INTERNAL void set_compile_target(FILE *stream, const char *file)
 {
     switch (context.target) {
     default: assert(0);
+    case TARGET_IR_DOT:
+        break;
     case TARGET_ASM:
         asm_init(stream, file);
         enter_context = asm_symbol;
@@ -3566,6 +3568,8 @@ INTERNAL int compile(struct definition *def)
     definition = def;
     switch (context.target) {
     default: assert(0);
+    case TARGET_IR_DOT:
+        break;
     case TARGET_ASM:
     case TARGET_OBJ:
     case TARGET_EXE:
diff --git a/src/lacc.c b/src/lacc.c
index 5699937..7782ab6 100644
--- a/src/lacc.c
+++ b/src/lacc.c
@@ -401,17 +401,14 @@ static int add_linker_flag(const char *arg)
     if (!strcmp("-rdynamic", arg)) {
         add_linker_arg("-export-dynamic");
     } else {
-        assert(!strncmp("-Wl,", arg, 4));
-        end = strchr(arg, ',');
-        do {
+        /* Comma separated options, following -Wl, */
+        while ((end = strchr(arg, ',')) != NULL) {
+            *end = '\0';
+            add_linker_arg(arg);
             arg = end + 1;
-            end = strchr(arg, ',');
-            if (end) {
-                *end = '\0';
-            }
+        }
 
-            add_linker_arg(arg);
-        } while (end);
+        add_linker_arg(arg);
     }
 
     return 0;
@@ -479,6 +476,7 @@ static int parse_program_arguments(int argc, char *argv[])
         {"-v", &flag},
         {"-w", &flag},
         {"-g", &flag},
+        {"-Wl,<", &add_linker_flag},
         {"-W", &warn},
         {"-W<", &warn},
         {"-x:", &language},
@@ -510,7 +508,6 @@ static int parse_program_arguments(int argc, char *argv[])
         {"-pedantic", &option},
         {"-MD", &option},
         {"-MP", &option},
-        {"-Wl,", &add_linker_flag},
         {"-rdynamic", &add_linker_flag},
         {"-shared", &add_linker_arg},
         {"-static", &add_linker_arg},
@@ -670,7 +667,7 @@ static int process_file(struct input_file file)
         fclose(output);
     }
 
-    return context.errors;
+    return context.errors != 0;
 }
 
 int main(int argc, char *argv[])
-- 
2.43.0


From 559240a970ae6ba1ef7530b664550505d2412d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:39 +0000
Subject: [PATCH 44/63] fix: wide character constants in controlling
 expressions of directives

---
 src/preprocessor/directive.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/preprocessor/directive.c b/src/preprocessor/directive.c
index 9753676..c7a6bce 100644
--- a/src/preprocessor/directive.c
+++ b/src/preprocessor/directive.c
@@ -32,6 +32,7 @@ INTERNAL struct token
     ident__line = IDENT("line"),
     ident__pragma = IDENT("pragma"),
     ident__Pragma = IDENT("_" "Pragma"),
+    ident__L = IDENT("L"),
     ident__VA_ARGS__ = IDENT("__VA_ARGS__");
 
 enum state {
@@ -206,6 +207,15 @@ static struct number preprocess_primary(
     case IDENTIFIER:
         num.type = basic_type__long;
         num.val.i = 0;
+        if (list[1].token == PREP_CHAR
+            && !list[1].leading_whitespace
+            && !tok_cmp(*list, ident__L))
+        {
+            /* Wide character constant, as found in system headers. */
+            n = convert_preprocessing_char(list[1]);
+            num.val.i = n.d.val.i & 0xFF;
+            list++;
+        }
         break;
     }
 
-- 
2.43.0


From 62eb15bca214b0f6b3f32bb273be5a39ff3abded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:46 +0000
Subject: [PATCH 45/63] fix: tokenizer must not index its tables with negative
 characters or read past unterminated literals

---
 src/preprocessor/input.c    |  7 ++++---
 src/preprocessor/tokenize.c | 15 +++++++++++----
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/preprocessor/input.c b/src/preprocessor/input.c
index 09ef156..f3c61c3 100644
--- a/src/preprocessor/input.c
+++ b/src/preprocessor/input.c
@@ -602,13 +602,13 @@ static char *initial_preprocess_line(struct source *fn)
                 fn->read += fread(
                     fn->buffer + fn->read,
                     sizeof(char),
-                    fn->size - fn->read - 1,
+                    fn->size - fn->read - 2,
                     fn->file);
             } else {
                 fn->read = fread(
                     fn->buffer,
                     sizeof(char),
-                    fn->size - 1,
+                    fn->size - 2,
                     fn->file);
             }
             fn->processed = 0;
@@ -619,7 +619,8 @@ static char *initial_preprocess_line(struct source *fn)
                 }
                 if (fn->buffer[fn->read - 1] != '\n') {
                     error("Missing newline at end of file.");
-                    fn->buffer[fn->read] = '\n';
+                    fn->buffer[fn->read++] = '\n';
+                    fn->buffer[fn->read] = '\0';
                 }
             }
         }
diff --git a/src/preprocessor/tokenize.c b/src/preprocessor/tokenize.c
index b449ba7..d881507 100644
--- a/src/preprocessor/tokenize.c
+++ b/src/preprocessor/tokenize.c
@@ -438,6 +438,9 @@ static void parse_escape_sequence(const char *in, const char **endptr)
             }
         }
         break;
+    case '\0':
+        in--;
+        break;
     default:
         break;
     }
@@ -459,11 +462,11 @@ static struct token strtochar(const char *in, const char **endptr)
     start = ++in;
     if (*in == '\\') {
         parse_escape_sequence(in + 1, &in);
-    } else if (*in != '\'') {
-        in++;
-    } else {
+    } else if (*in == '\'') {
         error("Empty character constant.");
         exit(1);
+    } else if (*in) {
+        in++;
     }
 
     if (*in != '\'') {
@@ -487,6 +490,10 @@ static struct token strtostr(const char *in, const char **endptr)
     *endptr = in;
 
     while (*in != '"') {
+        if (!*in) {
+            error("Unterminated string literal.");
+            exit(1);
+        }
         if (*in == '\\') {
             parse_escape_sequence(in + 1, &in);
         } else {
@@ -504,7 +511,7 @@ static struct token strtostr(const char *in, const char **endptr)
  * Valid identifier character, except in the first position which does
  * not allow numbers.
  */
-#define isident(c) is_ident[(int) c]
+#define isident(c) is_ident[(unsigned char) (c)]
 
 static const char is_ident[256] = {
     0, 0, 0, 0, 0, 0, 0, 0,
-- 
2.43.0


From 72679d23c99ca9228d4e6406dd0f5bfc8cf841fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:46 +0000
Subject: [PATCH 46/63] fix: diagnose incomplete types, misplaced storage
 classes and initializers in declarations

---
 src/parser/declaration.c | 171 +++++++++++++++++++++++++++++++++------
 src/parser/symtab.c      |   4 +
 src/parser/typetree.c    |  22 ++++-
 3 files changed, 172 insertions(+), 25 deletions(-)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index 7027ed0..3559afe 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -14,6 +14,7 @@
 #include <lacc/token.h>
 
 #include <assert.h>
+#include <limits.h>
 
 static const Type *get_typedef(String str)
 {
@@ -27,6 +28,46 @@ static const Type *get_typedef(String str)
     return NULL;
 }
 
+/*
+ * Verify that type from a full declarator does not contain arrays of
+ * functions or incomplete types, or functions returning functions or
+ * arrays.
+ */
+static void verify_declared_type(Type type)
+{
+    Type next;
+
+    while (1) {
+        switch (type_of(type)) {
+        case T_POINTER:
+            type = type_next(type);
+            break;
+        case T_ARRAY:
+            next = type_next(type);
+            if (is_function(next) || !is_complete(next)) {
+                error("Array has invalid element type %t.", next);
+                exit(1);
+            }
+            if (size_of(next) && type_array_len(type) > LONG_MAX / size_of(next)) {
+                error("Array is too large (%lu elements).", type_array_len(type));
+                exit(1);
+            }
+            type = next;
+            break;
+        case T_FUNCTION:
+            next = type_next(type);
+            if (is_function(next) || is_array(next)) {
+                error("Function has invalid return type %t.", next);
+                exit(1);
+            }
+            type = next;
+            break;
+        default:
+            return;
+        }
+    }
+}
+
 static struct block *parameter_declarator(
     struct definition *def,
     struct block *block,
@@ -85,6 +126,7 @@ static struct block *parameter_list(
         }
 
         block = parameter_declarator(def, block, base, &base, &name, &length);
+        verify_declared_type(base);
         if (is_void(base)) {
             if (nmembers(*func)) {
                 error("Incomplete type in parameter list.");
@@ -110,7 +152,6 @@ static struct block *parameter_list(
         }
 
         if (try_consume(DOTS)) {
-            assert(!is_vararg(*func));
             type_add_member(*func, dots, basic_type__void);
             assert(is_vararg(*func));
             break;
@@ -143,7 +184,7 @@ static Type identifier_list(Type base)
             consume(IDENTIFIER);
             str = access_token(0)->d.string;
             if (get_typedef(str)) {
-                error("Unexpected type '%t' in identifier list.");
+                error("Unexpected type '%s' in identifier list.", str_raw(str));
                 exit(1);
             }
 
@@ -253,7 +294,11 @@ static struct block *array_declarator(
         if (!type_equal(val.type, basic_type__unsigned_long)) {
             val = eval(def, block,
                 eval_cast(def, block, val, basic_type__unsigned_long));
-        } else if (val.kind == DIRECT && !is_temporary(val.value.symbol)) {
+        } else if (val.kind != IMMEDIATE
+            && (val.kind != DIRECT
+                || val.offset
+                || !is_temporary(val.value.symbol)))
+        {
             val = eval_copy(def, block, val);
         }
 
@@ -275,11 +320,6 @@ static struct block *array_declarator(
         block = array_declarator(def, block, base, &base, NULL);
     }
 
-    if (!is_complete(base)) {
-        error("Array has incomplete element type.");
-        exit(1);
-    }
-
     if (static_length) {
         *static_length = length;
         *type = type_create_pointer(base);
@@ -335,7 +375,7 @@ static struct block *direct_declarator(
             || t == '*')
         {
             next();
-            block = declarator(def, block, head, &head, name);
+            block = parameter_declarator(def, block, head, &head, name, NULL);
             consume(')');
             if (!is_void(head)) {
                 length = NULL;
@@ -420,7 +460,9 @@ INTERNAL struct block *declarator(
     Type *type,
     String *name)
 {
-    return parameter_declarator(def, block, base, type, name, NULL);
+    block = parameter_declarator(def, block, base, type, name, NULL);
+    verify_declared_type(*type);
+    return block;
 }
 
 static void member_declaration_list(Type type)
@@ -474,6 +516,8 @@ static void member_declaration_list(Type type)
  * Parse and declare a new struct or union type, or retrieve type from
  * existing symbol; possibly providing a complete definition that will
  * be available for later declarations.
+ *
+ * Use value.constant as a sentinel to represent definition, like enums.
  */
 static Type struct_or_union_declaration(enum token_type t)
 {
@@ -505,9 +549,12 @@ static Type struct_or_union_declaration(enum token_type t)
         }
 
         type = sym->type;
-        if (peek() == '{' && size_of(type)) {
-            error("Redefiniton of '%s'.", str_raw(sym->name));
-            exit(1);
+        if (peek() == '{') {
+            if (sym->value.constant.i) {
+                error("Redefiniton of '%s'.", str_raw(sym->name));
+                exit(1);
+            }
+            sym->value.constant.i = 1;
         }
     }
 
@@ -517,7 +564,10 @@ static Type struct_or_union_declaration(enum token_type t)
         }
 
         member_declaration_list(type);
-        assert(size_of(type));
+        if (!size_of(type)) {
+            error("Type %t has no size.", type);
+            exit(1);
+        }
         consume('}');
     } else if (!sym) {
         error("Invalid declaration.");
@@ -893,6 +943,8 @@ static void ensure_main_returns_zero(
     assert(!sym->n);
     if (context.standard < STD_C99 || !str_eq(name, sym->name))
         return;
+    if (!type_equal_unqualified(type_next(sym->type), basic_type__int))
+        return;
 
     if (!block->has_return_value) {
         block->expr = as_expr(var_int(0));
@@ -973,6 +1025,11 @@ static struct block *make_parameters_visible(
             exit(1);
         }
 
+        if (!is_complete(param->type)) {
+            error("Parameter %s has incomplete type.", str_raw(param->name));
+            exit(1);
+        }
+
         assert(param->sym);
         assert(param->sym->depth == 1);
         assert(!is_type_placeholder(param->type));
@@ -1028,8 +1085,23 @@ static struct block *init_declarator(
         return parent;
     }
 
+    if (current_scope_depth(&ns_ident) == 1) {
+        if (symtype != SYM_DEFINITION || linkage != LINK_NONE) {
+            error("Invalid storage class of parameter %s.", str_raw(name));
+            exit(1);
+        }
+        if (is_array(type)) {
+            type = type_create_pointer(type_next(type));
+        } else if (is_function(type)) {
+            type = type_create_pointer(type);
+        }
+    }
+
     if (symtype == SYM_TYPEDEF) {
-        /* */
+        if (is_variably_modified(type) && !current_scope_depth(&ns_ident)) {
+            error("Invalid variably modified type at file scope.");
+            exit(1);
+        }
     } else if (is_function(type)) {
         symtype = SYM_DECLARATION;
         linkage = (linkage == LINK_NONE) ? LINK_EXTERN : linkage;
@@ -1049,16 +1121,34 @@ static struct block *init_declarator(
         }
     }
 
+    if (symtype != SYM_TYPEDEF
+        && !is_function(type)
+        && !is_array(type)
+        && !is_complete(type)
+        && (is_void(type) ? symtype != SYM_DECLARATION : linkage == LINK_NONE))
+    {
+        error("Object '%s' has incomplete type %t.", str_raw(name), type);
+        exit(1);
+    }
+
     if (linkage != LINK_NONE && peek() == ASM) {
         next();
         consume('(');
         consume(STRING);
         asm_name = access_token(0)->d.string;
         consume(')');
-    } else if (is_function(type) && !is_complete(type) && peek() != ';') {
-        push_scope(&ns_ident);
-        parent = parameter_declaration_list(def, parent, type);
-        pop_scope(&ns_ident);
+    } else if (symtype != SYM_TYPEDEF && is_function(type) && !is_complete(type)) {
+        if (peek() == ',' || peek() == ';' || current_scope_depth(&ns_ident)) {
+            if (nmembers(type)) {
+                error("Unexpected identifier list in declaration of '%s'.",
+                    str_raw(name));
+                exit(1);
+            }
+        } else {
+            push_scope(&ns_ident);
+            parent = parameter_declaration_list(def, parent, type);
+            pop_scope(&ns_ident);
+        }
     }
 
     sym = sym_add(&ns_ident, name, type, symtype, linkage);
@@ -1072,17 +1162,27 @@ static struct block *init_declarator(
     case 1: /* Parameters from old-style function definitions. */
         assert(def->symbol);
         param = find_type_member(def->symbol->type, name, NULL);
-        if (is_array(type)) {
-            sym->type = type_create_pointer(type_next(type));
-        }
         if (param && is_type_placeholder(param->type)) {
             ((struct member *) param)->type = sym->type;
         } else {
             error("Invalid parameter declaration of %s.", str_raw(name));
             exit(1);
         }
+        if (peek() != ',' && peek() != ';') {
+            error("Parameter %s cannot be initialized.", str_raw(name));
+            exit(1);
+        }
         break;
     default:
+        if (is_array(type)
+            && linkage == LINK_NONE
+            && symtype == SYM_DEFINITION
+            && !is_complete(type)
+            && peek() != '=')
+        {
+            error("Array '%s' has incomplete type.", str_raw(name));
+            exit(1);
+        }
         if (symtype == SYM_DEFINITION) {
             assert(linkage == LINK_NONE);
             array_push_back(&def->locals, sym);
@@ -1108,10 +1208,22 @@ static struct block *init_declarator(
             error("Variable length array cannot be initialized.");
             exit(1);
         }
+        if (sym->symtype == SYM_TYPEDEF
+            || is_function(sym->type)
+            || (!is_array(sym->type) && !is_complete(sym->type)))
+        {
+            error("'%s' of type %t cannot be initialized.",
+                str_raw(sym->name), sym->type);
+            exit(1);
+        }
         next();
         sym->symtype = SYM_DEFINITION;
         parent = initializer(def, parent, sym);
-        assert(size_of(sym->type) > 0);
+        if (!size_of(sym->type)) {
+            error("'%s' of type %t cannot be initialized.",
+                str_raw(sym->name), sym->type);
+            exit(1);
+        }
         if (sym->linkage != LINK_NONE) {
             cfg_define(def, sym);
         }
@@ -1126,6 +1238,17 @@ static struct block *init_declarator(
             exit(1);
         }
         if (is_function(sym->type)) {
+            if (peek() != '{' || current_scope_depth(&ns_ident)) {
+                error("Invalid function definition of '%s'.", sym_name(sym));
+                exit(1);
+            }
+            if (!is_void(type_next(sym->type))
+                && !is_complete(type_next(sym->type)))
+            {
+                error("Function '%s' has incomplete return type.",
+                    sym_name(sym));
+                exit(1);
+            }
             sym->symtype = SYM_DEFINITION;
             cfg_define(def, sym);
             push_scope(&ns_label);
@@ -1170,7 +1293,7 @@ static void static_assertion(void)
     }
 
     if (val.value.imm.i == 0) {
-        error(str_raw(message));
+        error("%s", str_raw(message));
         exit(1);
     }
 
diff --git a/src/parser/symtab.c b/src/parser/symtab.c
index 6516419..858cf62 100644
--- a/src/parser/symtab.c
+++ b/src/parser/symtab.c
@@ -579,6 +579,10 @@ INTERNAL const struct symbol *yield_declaration(struct namespace *ns)
             {
                 set_array_length(sym->type, 1);
             }
+            if (!is_complete(sym->type)) {
+                error("'%s' has incomplete type.", sym_name(sym));
+                exit(1);
+            }
             return sym;
         default:
             break;
diff --git a/src/parser/typetree.c b/src/parser/typetree.c
index 832b9e2..0c70bc3 100644
--- a/src/parser/typetree.c
+++ b/src/parser/typetree.c
@@ -146,6 +146,7 @@ INTERNAL Type type_create(enum type tt)
     struct typetree t = {0};
 
     t.type = tt;
+    t.is_incomplete = (tt == T_STRUCT || tt == T_UNION);
     array_push_back(&types, t);
     type.type = tt;
     type.ref = array_len(&types);
@@ -329,7 +330,7 @@ INTERNAL Type type_create_array(Type next, size_t count)
     Type type;
     struct typetree *t;
 
-    if (count * size_of(next) > LONG_MAX) {
+    if (size_of(next) && count > LONG_MAX / size_of(next)) {
         error("Array is too large (%lu elements).", count);
         exit(1);
     }
@@ -540,6 +541,14 @@ INTERNAL struct member *type_add_member(Type parent, String name, Type type)
 
     assert(is_struct_or_union(parent) || is_function(parent));
     if (!is_function(parent)) {
+        if (is_function(type)
+            || is_variably_modified(type)
+            || (!is_array(type) && !is_complete(type)))
+        {
+            error("Member '%s' has invalid type %t.", str_raw(name), type);
+            exit(1);
+        }
+
         m.offset = adjust_member_alignment(parent, type);
     }
 
@@ -639,6 +648,11 @@ INTERNAL void type_add_anonymous_member(Type parent, Type type)
 
     assert(is_struct_or_union(parent));
     assert(is_struct_or_union(type));
+    if (!is_complete(type)) {
+        error("Anonymous member has incomplete type %t.", type);
+        exit(1);
+    }
+
     offset = adjust_member_alignment(parent, type);
     size = size_of(type);
     if (LONG_MAX - offset < size) {
@@ -687,6 +701,8 @@ INTERNAL void type_seal(Type type)
         if (t->size % align) {
             t->size += align - (t->size % align);
         }
+
+        t->is_incomplete = 0;
     }
 }
 
@@ -739,8 +755,12 @@ INTERNAL int is_complete(Type type)
     struct typetree *t;
 
     switch (type_of(type)) {
+    case T_VOID:
+        return 0;
     case T_ARRAY:
     case T_FUNCTION:
+    case T_STRUCT:
+    case T_UNION:
         t = get_typetree_handle(type.ref);
         return !t->is_incomplete;
     default:
-- 
2.43.0


From 207280ea16464d08ac908ad611d89b524bf85cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:46 +0000
Subject: [PATCH 47/63] fix: diagnose invalid operands of assignment,
 conversion, member access and calls instead of asserting

---
 src/parser/eval.c       | 68 +++++++++++++++++++++++++++++++++++------
 src/parser/expression.c | 53 +++++++++++++++++++++++++++-----
 2 files changed, 104 insertions(+), 17 deletions(-)

diff --git a/src/parser/eval.c b/src/parser/eval.c
index fef82ce..8f86e26 100644
--- a/src/parser/eval.c
+++ b/src/parser/eval.c
@@ -461,8 +461,10 @@ INTERNAL struct expression eval_cast(
         exit(1);
     }
 
-    if (is_pointer(var.type) && (is_float(type) || is_double(type))) {
-        error("Cannot cast pointer to %t", type);
+    if ((is_pointer(var.type) && is_real(type))
+        || (is_real(var.type) && is_pointer(type)))
+    {
+        error("Cannot cast %t to %t.", var.type, type);
         exit(1);
     }
 
@@ -480,6 +482,11 @@ INTERNAL struct expression eval_cast(
         return eval_prepare_assign_bool(def, block, as_expr(var));
     }
 
+    /* Addresses can only be converted as a whole. */
+    if (var.kind == ADDRESS && size_of(type) < size_of(var.type)) {
+        var = eval_copy(def, block, var);
+    }
+
     if (size_of(var.type) == size_of(type)
         && (is_pointer(var.type) || is_pointer(type)))
     {
@@ -884,6 +891,10 @@ static void prepare_comparison_operands(
                 warning("Comparison between incompatible types '%t' and '%t'.",
                     l->type, r->type);
             }
+        } else if (!is_integer(r->type)) {
+            error("Illegal comparison between types '%t' and '%t'.",
+                l->type, r->type);
+            exit(1);
         } else if (!is_nullptr(*r)) {
             warning("Comparison between pointer and non-zero integer.");
         }
@@ -1236,7 +1247,13 @@ INTERNAL struct expression eval_call(
         exit(1);
     }
 
-    return create_expression(IR_OP_CALL, type_next(type_next(type)), var);
+    type = type_next(type_next(type));
+    if (!is_void(type) && !is_complete(type)) {
+        error("Calling function with incomplete return type %t.", type);
+        exit(1);
+    }
+
+    return create_expression(IR_OP_CALL, type, var);
 }
 
 /*
@@ -1354,6 +1371,11 @@ INTERNAL struct expression eval_va_arg(
         exit(1);
     }
 
+    if (!is_object(type) || is_array(type) || !is_complete(type)) {
+        error("Invalid type %t in va_arg.", type);
+        exit(1);
+    }
+
     /* Backend expects either the address of a va_list object, or a plain
      * pointer variable. */
     if (l.kind != ADDRESS && (l.kind != DIRECT || l.offset)) {
@@ -1569,15 +1591,22 @@ static struct var eval_assign_string_literal(
 {
     Type type;
 
-    assert(is_identity(expr));
     assert(is_array(target.type));
-    assert(expr.l.value.symbol->symtype == SYM_LITERAL);
+    if (!is_identity(expr)
+        || expr.l.kind != DIRECT
+        || !is_array(expr.type)
+        || expr.l.value.symbol->symtype != SYM_LITERAL)
+    {
+        error("Cannot assign to array of type %t.", target.type);
+        exit(1);
+    }
+
     if (!is_char(type_next(target.type))) {
         error("Assigning string literal to non-char array.");
         exit(1);
     }
 
-    if (!size_of(target.type)) {
+    if (!is_complete(target.type)) {
         assert(target.kind == DIRECT);
         assert(target.offset == 0);
         assert(size_of(target.value.symbol->type) == 0);
@@ -1648,6 +1677,12 @@ static struct var assign_field(
 
     assert(is_field(target));
     assert(is_integer(target.type));
+    if (!is_arithmetic(expr.type) && !is_bool(target.type)) {
+        error("Incompatible value of type %t assigned to field of type %t.",
+            expr.type, target.type);
+        exit(1);
+    }
+
     switch (type_of(target.type)) {
     case T_BOOL:
         expr = eval_prepare_assign_bool(def, block, expr);
@@ -1979,10 +2014,14 @@ INTERNAL struct expression eval_vla_size(
         } else if (size_of(base) > 1) {
             size = imm_unsigned(basic_type__unsigned_long, size_of(base));
             expr = eval_mul(def, block, var_direct(len), size);
-        } else {
-            assert(size_of(base) == 1);
+        } else if (size_of(base) == 1) {
             expr = as_expr(var_direct(len));
+        } else {
+            expr = as_expr(imm_unsigned(basic_type__unsigned_long, 0));
         }
+    } else if (!is_vla(base)) {
+        error("Size of array %t is not known.", type);
+        exit(1);
     } else {
         size = imm_unsigned(basic_type__unsigned_long, type_array_len(type));
         expr = eval_vla_size(def, block, base);
@@ -2010,8 +2049,19 @@ INTERNAL void eval__builtin_va_start(
     struct expression arg)
 {
     struct statement stmt = {IR_VA_START};
+    struct var var;
 
     assert(block);
-    stmt.expr = arg;
+    var = eval(def, block, arg);
+    if (is_pointer(var.type)) {
+        var = eval_deref(def, block, var);
+    }
+
+    if (!var.lvalue || !is_aggregate(var.type) || size_of(var.type) != 24) {
+        error("Invalid argument to va_start.");
+        exit(1);
+    }
+
+    stmt.expr = as_expr(var);
     append_statement(def, block, stmt);
 }
diff --git a/src/parser/expression.c b/src/parser/expression.c
index 981c9a0..2dd754d 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -74,7 +74,10 @@ static struct block *primary_expression(
     switch (tok->token) {
     case IDENTIFIER:
         sym = find_symbol(tok->d.string);
-        if (sym->symtype == SYM_BUILTIN) {
+        if (sym->symtype == SYM_TYPEDEF) {
+            error("Unexpected type '%s' in expression.", str_raw(sym->name));
+            exit(1);
+        } else if (sym->symtype == SYM_BUILTIN) {
             block = sym->value.handler(def, block);
         } else {
             block->expr = as_expr(var_direct(sym));
@@ -103,6 +106,26 @@ static struct block *primary_expression(
     return block;
 }
 
+/* Operand of assignment, increment and decrement operators. */
+static struct var modifiable_lvalue(struct var var)
+{
+    if (!var.lvalue || (var.kind != DIRECT && var.kind != DEREF)) {
+        error("Target of assignment must be l-value.");
+        exit(1);
+    }
+
+    if (is_function(var.type)
+        || is_array(var.type)
+        || is_const(var.type)
+        || !is_complete(var.type))
+    {
+        error("Cannot modify object of type %t.", var.type);
+        exit(1);
+    }
+
+    return var;
+}
+
 static ExprArray *push_argument_list(void)
 {
     int len;
@@ -214,6 +237,10 @@ static struct block *postfix(
             next();
             consume(IDENTIFIER);
             str = access_token(0)->d.string;
+            if (!is_struct_or_union(root.type)) {
+                error("Invalid member access to type %t.", root.type);
+                exit(1);
+            }
             mbr = find_type_member(root.type, str, NULL);
             if (!mbr) {
                 error("Invalid access, no member named '%s'.", str_raw(str));
@@ -252,7 +279,7 @@ static struct block *postfix(
             break;
         case INCREMENT:
             next();
-            value = eval(def, block, root);
+            value = modifiable_lvalue(eval(def, block, root));
             copy = eval_copy(def, block, value);
             root = eval_add(def, block, value, var_int(1));
             eval_assign(def, block, value, root);
@@ -261,7 +288,7 @@ static struct block *postfix(
             break;
         case DECREMENT:
             next();
-            value = eval(def, block, root);
+            value = modifiable_lvalue(eval(def, block, root));
             copy = eval_copy(def, block, value);
             root = eval_sub(def, block, value, var_int(1));
             eval_assign(def, block, value, root);
@@ -398,7 +425,7 @@ exprsize:   head = begin_throwaway_block(def);
             type = tail->expr.type;
             restore_block(def);
         }
-        if (is_complete(type)) {
+        if (is_complete(type) && !is_function(type)) {
             if (is_vla(type)) {
                 block->expr = eval_vla_size(def, block, type);
             } else {
@@ -419,9 +446,11 @@ exprsize:   head = begin_throwaway_block(def);
         }
         if (is_function(type)) {
             error("Cannot apply '_Alignof' to function type.");
+            exit(1);
         }
-        if (!size_of(type)) {
+        if (!is_complete(type)) {
             error("Cannot apply '_Alignof' to incomplete type.");
+            exit(1);
         }
         value = imm_unsigned(basic_type__unsigned_long, type_alignment(type));
         block->expr = as_expr(value);
@@ -430,14 +459,14 @@ exprsize:   head = begin_throwaway_block(def);
     case INCREMENT:
         next();
         block = unary_expression(def, block);
-        value = eval(def, block, block->expr);
+        value = modifiable_lvalue(eval(def, block, block->expr));
         block->expr = eval_add(def, block, value, var_int(1));
         block->expr = as_expr(eval_assign(def, block, value, block->expr));
         break;
     case DECREMENT:
         next();
         block = unary_expression(def, block);
-        value = eval(def, block, block->expr);
+        value = modifiable_lvalue(eval(def, block, block->expr));
         block->expr = eval_sub(def, block, value, var_int(1));
         block->expr = as_expr(eval_assign(def, block, value, block->expr));
         break;
@@ -457,6 +486,14 @@ static struct block *compound_literal(
     struct var var;
     struct symbol *sym;
 
+    if (is_function(type)
+        || is_vla(type)
+        || (!is_array(type) && !is_complete(type)))
+    {
+        error("Invalid compound literal of type %t.", type);
+        exit(1);
+    }
+
     sym = sym_create_unnamed(type);
     if (sym->linkage == LINK_INTERN) {
         def = cfg_init();
@@ -949,7 +986,7 @@ INTERNAL struct block *assignment_expression(
         return block;
     }
 
-    target = eval(def, block, block->expr);
+    target = modifiable_lvalue(eval(def, block, block->expr));
     block = assignment_expression(def, block);
     if (t != '=') {
         value = eval(def, block, block->expr);
-- 
2.43.0


From d7de160c0a62b9c483502ffb133b4144fb494ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:46 +0000
Subject: [PATCH 48/63] fix: diagnose static initializers and array
 initializers that cannot be represented

---
 src/parser/initializer.c | 46 ++++++++++++++++++++++++++++++++++++----
 1 file changed, 42 insertions(+), 4 deletions(-)

diff --git a/src/parser/initializer.c b/src/parser/initializer.c
index d483403..7180402 100644
--- a/src/parser/initializer.c
+++ b/src/parser/initializer.c
@@ -398,6 +398,18 @@ static int is_string_initializer(Type type, struct expression expr)
         && expr.l.value.symbol->symtype == SYM_LITERAL;
 }
 
+/* Only objects declared as array can get their size from initializer. */
+static void verify_array_target(struct var target)
+{
+    if (is_array(target.type)
+        && !size_of(target.type)
+        && (is_complete(target.type) || !is_array(target.value.symbol->type)))
+    {
+        error("Invalid initialization of flexible or empty array.");
+        exit(1);
+    }
+}
+
 static struct block *initialize_aggregate(
     struct definition *def,
     struct block *block,
@@ -486,6 +498,7 @@ static struct block *initialize_aggregate(
     i = length = 0;
     bounded = 1;
     if (is_array(target.type)) {
+        verify_array_target(target);
         count = type_array_len(target.type);
         bounded = size_of(target.type) != 0;
     } else {
@@ -566,10 +579,7 @@ static struct block *initialize_member(
     int braced;
 
     assert(target.kind == DIRECT);
-    if (is_array(target.type) && !size_of(target.type) && target.offset) {
-        error("Invalid initialization of flexible array member.");
-        exit(1);
-    }
+    verify_array_target(target);
 
     braced = !block->has_init_value && try_consume('{');
     if (!is_aggregate(target.type)) {
@@ -923,6 +933,30 @@ static void postprocess_object_initialization(
     assert(validate_contiguous_initialization(&block) == size_of(target.type));
 }
 
+/*
+ * Conversion of an initializer can require evaluation, even if the value
+ * itself is an address constant.
+ */
+static void verify_static_initializer(
+    const struct definition *def,
+    const struct block *block,
+    const struct symbol *sym)
+{
+    int i;
+    struct statement st;
+
+    for (i = block->head; i < block->head + block->count; ++i) {
+        st = array_get(&def->statements, i);
+        if (st.st != IR_ASSIGN
+            || st.t.value.symbol != sym
+            || !is_loadtime_constant(st.expr))
+        {
+            error("Initializer must be computable at load time.");
+            exit(1);
+        }
+    }
+}
+
 INTERNAL struct block *initializer(
     struct definition *def,
     struct block *block,
@@ -962,5 +996,9 @@ INTERNAL struct block *initializer(
     }
 
     assert(!block->has_init_value);
+    if (sym->linkage != LINK_NONE) {
+        verify_static_initializer(def, block, sym);
+    }
+
     return block;
 }
-- 
2.43.0


From 8b45ef9a66aa88aae30bd042f34c29417f313563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:46 +0000
Subject: [PATCH 49/63] fix: diagnose stray break and continue and assembly
 operands that fit no register

---
 src/parser/statement.c | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/parser/statement.c b/src/parser/statement.c
index 2593eb3..e78ab52 100644
--- a/src/parser/statement.c
+++ b/src/parser/statement.c
@@ -413,8 +413,15 @@ static struct asm_operand asm_operand(
         var = rvalue(def, *block, var);
     }
 
-    /* Constants, addresses and bit-fields also need an object to refer to. */
     force_register = strchr(str, 'r') && !strchr(str, 'm');
+    if (force_register && !is_integer(var.type) && !is_pointer(var.type)
+        && !is_float(var.type))
+    {
+        error("Operand of type %t can not be held in a register.", var.type);
+        exit(1);
+    }
+
+    /* Constants, addresses and bit-fields also need an object to refer to. */
     if (is_field(var) || (var.kind != DIRECT && var.kind != DEREF)) {
         force_register = 1;
     }
@@ -582,12 +589,20 @@ INTERNAL struct block *statement(
         break;
     case CONTINUE:
         next();
+        if (!continue_target) {
+            error("Stray 'continue', must be inside a loop.");
+            exit(1);
+        }
         parent->jump[0] = continue_target;
         consume(';');
         parent = cfg_block_init(def); /* Orphan, unless labeled. */
         break;
     case BREAK:
         next();
+        if (!break_target) {
+            error("Stray 'break', must be inside a loop or switch.");
+            exit(1);
+        }
         parent->jump[0] = break_target;
         consume(';');
         parent = cfg_block_init(def); /* Orphan, unless labeled. */
@@ -671,7 +686,14 @@ INTERNAL struct block *statement(
     case NUMBER:
     case STRING:
     case '*':
+    case '&':
+    case '+':
+    case '-':
+    case '~':
+    case '!':
     case '(':
+    case SIZEOF:
+    case ALIGNOF:
     case INCREMENT:
     case DECREMENT:
         parent = expression_statement(def, parent);
-- 
2.43.0


From 645c7e59f21d002ffe6cf05ea41a159b5b0ab4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:35 +0000
Subject: [PATCH 50/63] fix: negation of an ordered comparison holds when an
 operand is NaN

---
 src/parser/expression.c | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/parser/expression.c b/src/parser/expression.c
index 2dd754d..f4dedeb 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -364,17 +364,16 @@ static struct block *unary_expression(
             block->expr.op = IR_OP_EQ;
             break;
         case IR_OP_GE:
-            block->expr.op = IR_OP_GT;
-            value = block->expr.l;
-            block->expr.l = block->expr.r;
-            block->expr.r = value;
-            break;
         case IR_OP_GT:
-            block->expr.op = IR_OP_GE;
-            value = block->expr.l;
-            block->expr.l = block->expr.r;
-            block->expr.r = value;
-            break;
+            /* No ordering holds when an operand is NaN. */
+            if (!is_real(block->expr.l.type)) {
+                block->expr.op = block->expr.op == IR_OP_GE
+                    ? IR_OP_GT : IR_OP_GE;
+                value = block->expr.l;
+                block->expr.l = block->expr.r;
+                block->expr.r = value;
+                break;
+            }
         default:
             value = eval(def, block, block->expr);
             block->expr = eval_cmp_eq(def, block, var_int(0), value);
-- 
2.43.0


From 0f68b20e70b0b1890c1216a03845d6ae63de8f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:37 +0000
Subject: [PATCH 51/63] fix: accept arguments of functions declared without a
 prototype

---
 src/backend/x86_64/compile.c | 6 +++---
 src/parser/expression.c      | 6 ++++--
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/backend/x86_64/compile.c b/src/backend/x86_64/compile.c
index 7f86004..1139705 100644
--- a/src/backend/x86_64/compile.c
+++ b/src/backend/x86_64/compile.c
@@ -1645,10 +1645,10 @@ static int push_function_arguments(Type type, struct param_class respc)
     }
 
     /*
-     * For variable argument lists, %al contains the number of vector
-     * registers used.
+     * For variable argument lists, and when there is no prototype, %al
+     * contains the number of vector registers used.
      */
-    if (is_vararg(type)) {
+    if (is_vararg(type) || !is_complete(type)) {
         assert(next_sse_reg >= 0 && next_sse_reg <= MAX_SSE_ARGS);
         emit_ir(INSTR_MOV, constant(next_sse_reg, 4), reg(AX, 4));
     }
diff --git a/src/parser/expression.c b/src/parser/expression.c
index f4dedeb..768fd1d 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -215,9 +215,11 @@ static struct block *postfix(
                     consume(',');
                 }
             }
-            if (is_vararg(type)) {
+            if (is_vararg(type) || (!is_complete(type) && !nmembers(type))) {
                 while (peek() != ')') {
-                    consume(',');
+                    if (i) {
+                        consume(',');
+                    }
                     block = assignment_expression(def, block);
                     block->expr = eval_prepare_vararg(def, block, block->expr);
                     array_push_back(args, block->expr);
-- 
2.43.0


From 50bb7e0b9c08710bab8cfa2eeadcd9cde8d500dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:40 +0000
Subject: [PATCH 52/63] fix: diagnose misplaced declarations, labels and
 return, and invalid case labels

---
 src/parser/statement.c | 68 ++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 66 insertions(+), 2 deletions(-)

diff --git a/src/parser/statement.c b/src/parser/statement.c
index e78ab52..6c94870 100644
--- a/src/parser/statement.c
+++ b/src/parser/statement.c
@@ -43,6 +43,7 @@ struct switch_case {
 };
 
 struct switch_context {
+    Type type;
     struct block *default_label;
     array_of(struct switch_case) cases;
 };
@@ -56,8 +57,24 @@ static struct switch_context *switch_context;
 
 static void add_switch_case(struct block *label, struct var value)
 {
+    int i;
     struct switch_case sc;
 
+    if (!is_integer(value.type)) {
+        error("Case label must have integer type, was %t.", value.type);
+        exit(1);
+    }
+
+    value = eval(NULL, NULL,
+        eval_cast(NULL, NULL, value, switch_context->type));
+    for (i = 0; i < array_len(&switch_context->cases); ++i) {
+        sc = array_get(&switch_context->cases, i);
+        if (sc.value.value.imm.u == value.value.imm.u) {
+            error("Duplicate case label.");
+            exit(1);
+        }
+    }
+
     sc.label = label;
     sc.value = value;
     array_push_back(&switch_context->cases, sc);
@@ -244,6 +261,8 @@ static struct block *for_statement(
             break;
         }
     case FIRST(type_name):
+    case AUTO:
+    case REGISTER:
         declared = 1;
         push_scope(&ns_ident);
         parent = declaration(def, parent);
@@ -331,6 +350,7 @@ static struct block *switch_statement(
     }
 
     consume(')');
+    switch_context->type = promote_integer(type_unqualified(value.type));
     last = statement(def, body);
     last->jump[0] = next;
 
@@ -544,9 +564,48 @@ end:
     return block;
 }
 
+static struct block *block_item(
+    struct definition *def,
+    struct block *parent);
+
+/* Parse statement that can not be a declaration. */
 INTERNAL struct block *statement(
     struct definition *def,
     struct block *parent)
+{
+    const struct symbol *sym;
+
+    switch (peek()) {
+    case IDENTIFIER:
+        if (peekn(2) == ':') {
+            break;
+        }
+        sym = sym_lookup(&ns_ident, access_token(1)->d.string);
+        if (!sym || sym->symtype != SYM_TYPEDEF) {
+            break;
+        }
+    case FIRST(type_name):
+    case AUTO:
+    case REGISTER:
+    case STATIC:
+    case EXTERN:
+    case TYPEDEF:
+    case INLINE:
+    case NORETURN:
+    case STATIC_ASSERT:
+        error("Expected statement, but got declaration.");
+        exit(1);
+    default:
+        break;
+    }
+
+    return block_item(def, parent);
+}
+
+/* Parse statement or declaration. */
+static struct block *block_item(
+    struct definition *def,
+    struct block *parent)
 {
     struct symbol *sym;
     String str;
@@ -609,7 +668,12 @@ INTERNAL struct block *statement(
         break;
     case RETURN:
         next();
-        if (!is_void(type_next(def->symbol->type))) {
+        if (peek() == ';'
+            && !is_void(type_next(def->symbol->type))
+            && context.standard < STD_C99)
+        {
+            /* Value is undefined if used. */
+        } else if (!is_void(type_next(def->symbol->type))) {
             parent = expression(def, parent);
             parent->expr = eval_return(def, parent);
         }
@@ -717,7 +781,7 @@ INTERNAL struct block *block(struct definition *def, struct block *parent)
     push_scope(&ns_ident);
     push_scope(&ns_tag);
     while (!try_consume('}')) {
-        parent = statement(def, parent);
+        parent = block_item(def, parent);
     }
 
     pop_scope(&ns_tag);
-- 
2.43.0


From 6f12bd2487e508e3ddd35d42d02b32e602b0a158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:42 +0000
Subject: [PATCH 53/63] fix: types differing in signedness or parameter lists
 are not compatible

---
 src/parser/typetree.c | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/src/parser/typetree.c b/src/parser/typetree.c
index 0c70bc3..9d44458 100644
--- a/src/parser/typetree.c
+++ b/src/parser/typetree.c
@@ -972,6 +972,29 @@ INTERNAL Type usual_arithmetic_conversion(Type t1, Type t2)
     return type_unqualified(res);
 }
 
+/*
+ * A prototype is compatible with a declaration that has no parameter
+ * information only if every parameter keeps its type when promoted.
+ */
+static int has_promoted_parameters(Type type)
+{
+    int i;
+    Type t;
+
+    if (is_vararg(type)) {
+        return 0;
+    }
+
+    for (i = 0; i < nmembers(type); ++i) {
+        t = type_unqualified(get_member(type, i)->type);
+        if (!type_equal(t, default_argument_promotion(t))) {
+            return 0;
+        }
+    }
+
+    return 1;
+}
+
 INTERNAL int is_compatible(Type l, Type r)
 {
     int i;
@@ -995,7 +1018,7 @@ INTERNAL int is_compatible(Type l, Type r)
     case T_FLOAT:
     case T_DOUBLE:
     case T_LDOUBLE:
-        return 1;
+        return is_unsigned(l) == is_unsigned(r);
     case T_POINTER:
         return is_compatible(type_next(l), type_next(r));
     case T_ARRAY:
@@ -1011,9 +1034,12 @@ INTERNAL int is_compatible(Type l, Type r)
             return 0;
         }
         if (!is_complete(l) || !is_complete(r)) {
-            return 1;
+            if (!is_complete(l)) {
+                l = r;
+            }
+            return !is_complete(l) || has_promoted_parameters(l);
         }
-        if (nmembers(l) != nmembers(r)) {
+        if (nmembers(l) != nmembers(r) || is_vararg(l) != is_vararg(r)) {
             return 0;
         }
         for (i = 0; i < nmembers(l); ++i) {
-- 
2.43.0


From fe8e5a44cd9086789264a53ab4adaf3bf824756c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:43 +0000
Subject: [PATCH 54/63] fix: diagnose duplicate and conflicting declarations in
 block scope

---
 src/parser/symtab.c | 69 +++++++++++++++++++++++++++++++++++++++------
 1 file changed, 60 insertions(+), 9 deletions(-)

diff --git a/src/parser/symtab.c b/src/parser/symtab.c
index 858cf62..75e2eed 100644
--- a/src/parser/symtab.c
+++ b/src/parser/symtab.c
@@ -200,6 +200,21 @@ INTERNAL struct symbol *sym_lookup(struct namespace *ns, String name)
     return hash_lookup(&ns->globals, name);
 }
 
+/* Find symbol declared in the innermost scope. */
+static struct symbol *sym_lookup_current(struct namespace *ns, String name)
+{
+    int i, n;
+
+    n = array_len(&ns->scope.symbols) - array_back(&ns->scope.counts);
+    for (i = array_len(&ns->scope.symbols) - 1; i >= n; --i) {
+        if (str_eq(name, array_get(&ns->scope.names, i))) {
+            return array_get(&ns->scope.symbols, i);
+        }
+    }
+
+    return NULL;
+}
+
 INTERNAL const char *sym_name(const struct symbol *sym)
 {
     static char name[128];
@@ -254,11 +269,17 @@ static void sym_apply_type(struct symbol *sym, Type type)
         if (!is_complete(sym->type)) {
             assert(nmembers(sym->type) == 0);
             if (is_complete(type)) {
+                if (!is_compatible(sym->type, type)) {
+                    error("Conflicting types for function %s.", sym_name(sym));
+                    exit(1);
+                }
                 sym->type = type;
             }
-        } else if (is_complete(type)) {
+        } else {
             if (is_compatible(sym->type, type)) {
-                sym->type = type;
+                if (is_complete(type) && sym->symtype != SYM_DEFINITION) {
+                    sym->type = type;
+                }
             } else {
                 error("Conflicting types for function %s.", sym_name(sym));
                 exit(1);
@@ -317,13 +338,14 @@ static struct symbol *sym_redeclare(
         }
         break;
     case LINK_NONE:
-        if (sym->depth == current_scope_depth(ns) && sym->depth) {
-            error("Duplicate definition of '%s'.", sym_name(sym));
-            exit(1);
-        }
         break;
     }
 
+    if (sym->linkage == LINK_NONE && sym->symtype != symtype) {
+        error("Conflicting declaration of '%s'.", sym_name(sym));
+        exit(1);
+    }
+
     switch (symtype) {
     case SYM_TENTATIVE:
         if (sym->symtype == SYM_DECLARATION) {
@@ -331,7 +353,7 @@ static struct symbol *sym_redeclare(
         }
     case SYM_DECLARATION:
         if (sym->symtype == SYM_DEFINITION) {
-            if (!type_equal(sym->type, type)) {
+            if (!is_compatible(sym->type, type)) {
                 error("'%s' redeclared with different type.", sym_name(sym));
                 exit(1);
             }
@@ -346,10 +368,16 @@ static struct symbol *sym_redeclare(
     case SYM_TAG:
     case SYM_TYPEDEF:
     case SYM_CONSTANT:
-        if (sym->symtype != symtype || !type_equal(sym->type, type)) {
+        if (sym->symtype != symtype
+            || symtype == SYM_CONSTANT
+            || !type_equal(sym->type, type))
+        {
             error("Conflicting declaration of '%s'.", sym_name(sym));
             exit(1);
         }
+        if (symtype == SYM_TYPEDEF && context.standard < STD_C11) {
+            warning("Typedef '%s' redefined.", sym_name(sym));
+        }
         break;
     case SYM_LABEL:
     case SYM_LITERAL:
@@ -390,12 +418,35 @@ INTERNAL struct symbol *sym_add(
     static int n;
 
     int depth;
-    struct symbol *sym;
+    struct symbol *sym, *prev;
     assert(symtype != SYM_LABEL);
     assert(symtype != SYM_TAG || ns == &ns_tag);
 
     sym = sym_lookup(ns, name);
     depth = current_scope_depth(ns);
+    if (sym && depth && ns == &ns_ident) {
+        prev = sym_lookup_current(ns, name);
+        if (prev) {
+            if (symtype == SYM_TYPEDEF && prev->symtype == SYM_TYPEDEF) {
+                return sym_redeclare(prev, ns, type, symtype, linkage);
+            }
+            if (linkage != LINK_EXTERN
+                || prev->linkage == LINK_NONE
+                || (prev->linkage == LINK_INTERN && prev->depth))
+            {
+                error("Duplicate definition of '%s'.", sym_name(prev));
+                exit(1);
+            }
+            sym_apply_type(prev, type);
+            return prev;
+        }
+
+        /* Hide typedef or enumerator with file scope. */
+        if (linkage == LINK_EXTERN && sym->linkage == LINK_NONE) {
+            sym = NULL;
+        }
+    }
+
     if (!sym && symtype != SYM_TYPEDEF && is_function(type)) {
         assert(ns == &ns_ident);
         sym = hash_lookup(&functions, name);
-- 
2.43.0


From b51ed6097197609e4867a8818ed619fafc796b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:46 +0000
Subject: [PATCH 55/63] fix: diagnose conflicting and missing specifiers, names
 and enumerators in declarations

---
 src/parser/declaration.c | 143 +++++++++++++++++++++++++++++----------
 src/parser/declaration.h |   1 +
 2 files changed, 108 insertions(+), 36 deletions(-)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index 3559afe..5f2b976 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -272,7 +272,10 @@ static struct block *array_declarator(
                 }
             }
 
-            if (peek() != ']') {
+            if (peek() == '*' && peekn(2) == ']') {
+                next();
+                is_incomplete = 1;
+            } else if (peek() != ']') {
                 block = assignment_expression(def, block);
                 val = eval(def, block, block->expr);
             } else {
@@ -465,6 +468,32 @@ INTERNAL struct block *declarator(
     return block;
 }
 
+static void static_assertion(void)
+{
+    struct var val;
+    String message;
+
+    consume(STATIC_ASSERT);
+    consume('(');
+
+    val = constant_expression();
+    consume(',');
+    consume(STRING);
+    message = access_token(0)->d.string;
+
+    if (val.kind != IMMEDIATE || !is_integer(val.type)) {
+        error("Expression in static assertion must be an integer constant.");
+        exit(1);
+    }
+
+    if (val.value.imm.i == 0) {
+        error("%s", str_raw(message));
+        exit(1);
+    }
+
+    consume(')');
+}
+
 static void member_declaration_list(Type type)
 {
     String name;
@@ -472,6 +501,12 @@ static void member_declaration_list(Type type)
     Type decl_base, decl_type;
 
     do {
+        if (peek() == STATIC_ASSERT) {
+            static_assertion();
+            consume(';');
+            continue;
+        }
+
         decl_base = declaration_specifiers(NULL);
         while (1) {
             name = str_empty();
@@ -582,7 +617,7 @@ static void enumerator_list(void)
     String name;
     struct var val;
     struct symbol *sym;
-    int count = 0;
+    long count = 0;
 
     consume('{');
     do {
@@ -592,8 +627,17 @@ static void enumerator_list(void)
             val = constant_expression();
             if (!is_integer(val.type)) {
                 error("Implicit conversion from non-integer type in enum.");
+                exit(1);
             }
             count = val.value.imm.i;
+            if (is_unsigned(val.type) && val.value.imm.u > INT_MAX) {
+                count = (long) INT_MAX + 1;
+            }
+        }
+        if (count > INT_MAX || count < INT_MIN) {
+            error("Value of enumerator '%s' is outside the range of int.",
+                str_raw(name));
+            exit(1);
         }
         sym = sym_add(
             &ns_ident,
@@ -622,7 +666,10 @@ static void enum_declaration(void)
     if (try_consume(IDENTIFIER)) {
         name = access_token(0)->d.string;
         tag = sym_lookup(&ns_tag, name);
-        if (!tag || tag->depth < current_scope_depth(&ns_tag)) {
+        if (!tag
+            || (tag->depth < current_scope_depth(&ns_tag)
+                && (peek() == '{' || peek() == ';')))
+        {
             tag = sym_add(
                 &ns_tag,
                 name,
@@ -641,6 +688,8 @@ static void enum_declaration(void)
             }
             enumerator_list();
             tag->value.constant.i = 1;
+        } else if (!tag->value.constant.i) {
+            warning("Enum '%s' is not defined.", str_raw(tag->name));
         }
     } else {
         enumerator_list();
@@ -744,7 +793,9 @@ INTERNAL Type declaration_specifiers(struct declaration_specifier_info *info)
             base = B_INT;
             break;
         case LONG:
-            if (base || (modifier && modifier != M_LONG)) goto done;
+            if (modifier && modifier != M_LONG) goto done;
+            if (base && base != B_INT && base != B_DOUBLE) goto done;
+            if (base == B_DOUBLE && (modifier || sign)) goto done;
             next();
             if (modifier == M_LONG) {
                 modifier = M_LONG_LONG;
@@ -753,6 +804,7 @@ INTERNAL Type declaration_specifiers(struct declaration_specifier_info *info)
             }
             break;
         case SIGNED:
+            if (base && base != B_CHAR && base != B_INT) goto done;
             next();
             if (sign == S_SIGNED) {
                 error("Duplicate 'signed' specifier.");
@@ -763,6 +815,7 @@ INTERNAL Type declaration_specifiers(struct declaration_specifier_info *info)
             }
             break;
         case UNSIGNED:
+            if (base && base != B_CHAR && base != B_INT) goto done;
             next();
             if (sign == S_UNSIGNED) {
                 error("Duplicate 'unsigned' specifier.");
@@ -807,12 +860,18 @@ INTERNAL Type declaration_specifiers(struct declaration_specifier_info *info)
             next();
             type = struct_or_union_declaration(t);
             base = B_AGGREGATE;
+            if (info) {
+                info->is_tag = 1;
+            }
             break;
         case ENUM:
             if (base || modifier || sign) goto done;
             next();
             enum_declaration();
             base = B_ENUM;
+            if (info) {
+                info->is_tag = 1;
+            }
             break;
         case INLINE:
             next();
@@ -840,6 +899,8 @@ INTERNAL Type declaration_specifiers(struct declaration_specifier_info *info)
                 error("Unexpected 'register' specifier.");
             } else if (info->is_register) {
                 error("Multiple 'register' specifiers.");
+            } else if (info->storage_class) {
+                error("Multiple storage class specifiers.");
             } else {
                 info->is_register = 1;
             }
@@ -851,7 +912,7 @@ INTERNAL Type declaration_specifiers(struct declaration_specifier_info *info)
             next();
             if (!info) {
                 error("Unexpected storage class in qualifier list.");
-            } else if (info->storage_class) {
+            } else if (info->storage_class || info->is_register) {
                 error("Multiple storage class specifiers.");
             } else {
                 info->storage_class = t;
@@ -876,8 +937,11 @@ done:
         type.type = T_CHAR;
         type.is_unsigned = sign == S_UNSIGNED;
         break;
-    case B_ENUM:
     case B_NONE:
+        if (!modifier && !sign && context.standard >= STD_C99) {
+            warning("Missing type specifier, defaults to int.");
+        }
+    case B_ENUM:
     case B_INT:
         type.type = T_INT;
         type.is_unsigned = sign == S_UNSIGNED;
@@ -1068,7 +1132,8 @@ static struct block *init_declarator(
     struct block *parent,
     Type base,
     enum symtype symtype,
-    enum linkage linkage)
+    enum linkage linkage,
+    const struct declaration_specifier_info *info)
 {
     Type type;
     String name = SHORT_STRING_INIT(""), asm_name = SHORT_STRING_INIT("");
@@ -1082,7 +1147,8 @@ static struct block *init_declarator(
     }
 
     if (str_is_empty(name)) {
-        return parent;
+        error("Missing name in declarator.");
+        exit(1);
     }
 
     if (current_scope_depth(&ns_ident) == 1) {
@@ -1097,12 +1163,22 @@ static struct block *init_declarator(
         }
     }
 
+    if ((info->is_inline || info->is_noreturn)
+        && (symtype == SYM_TYPEDEF || !is_function(type)))
+    {
+        error("Function specifier on '%s', which is not a function.",
+            str_raw(name));
+    }
+
     if (symtype == SYM_TYPEDEF) {
         if (is_variably_modified(type) && !current_scope_depth(&ns_ident)) {
             error("Invalid variably modified type at file scope.");
             exit(1);
         }
     } else if (is_function(type)) {
+        if (info->is_register || info->storage_class == AUTO) {
+            error("Invalid storage class of function '%s'.", str_raw(name));
+        }
         symtype = SYM_DECLARATION;
         linkage = (linkage == LINK_NONE) ? LINK_EXTERN : linkage;
         if (linkage == LINK_INTERN && current_scope_depth(&ns_ident)) {
@@ -1151,6 +1227,14 @@ static struct block *init_declarator(
         }
     }
 
+    if (current_scope_depth(&ns_ident) == 2) {
+        sym = sym_lookup(&ns_ident, name);
+        if (sym && sym->depth == 1 && sym->symtype == SYM_DEFINITION) {
+            error("Parameter '%s' redeclared in function.", str_raw(name));
+            exit(1);
+        }
+    }
+
     sym = sym_add(&ns_ident, name, type, symtype, linkage);
     if (str_len(asm_name)) {
         sym->name = asm_name;
@@ -1249,6 +1333,10 @@ static struct block *init_declarator(
                     sym_name(sym));
                 exit(1);
             }
+            if (sym->symtype == SYM_DEFINITION) {
+                error("Redefinition of function '%s'.", sym_name(sym));
+                exit(1);
+            }
             sym->symtype = SYM_DEFINITION;
             cfg_define(def, sym);
             push_scope(&ns_label);
@@ -1274,32 +1362,6 @@ static struct block *init_declarator(
     return parent;
 }
 
-static void static_assertion(void)
-{
-    struct var val;
-    String message;
-
-    consume(STATIC_ASSERT);
-    consume('(');
-
-    val = constant_expression();
-    consume(',');
-    consume(STRING);
-    message = access_token(0)->d.string;
-
-    if (val.kind != IMMEDIATE || !is_integer(val.type)) {
-        error("Expression in static assertion must be an integer constant.");
-        exit(1);
-    }
-
-    if (val.value.imm.i == 0) {
-        error("%s", str_raw(message));
-        exit(1);
-    }
-
-    consume(')');
-}
-
 /*
  * Parse a declaration list, beginning with a base set of specifiers,
  * followed by a list of declarators.
@@ -1329,6 +1391,12 @@ INTERNAL struct block *declaration(
     }
 
     base = declaration_specifiers(&info);
+    if (!current_scope_depth(&ns_ident)
+        && (info.is_register || info.storage_class == AUTO))
+    {
+        error("Invalid storage class at file scope.");
+    }
+
     switch (info.storage_class) {
     case EXTERN:
         symtype = SYM_DECLARATION;
@@ -1360,6 +1428,9 @@ INTERNAL struct block *declaration(
         break;
     default:
         consume(';');
+        if (!info.is_tag) {
+            warning("Declaration does not declare anything.");
+        }
         return parent;
     }
 
@@ -1374,7 +1445,7 @@ INTERNAL struct block *declaration(
 
         if (linkage == LINK_INTERN || linkage == LINK_EXTERN) {
             decl = cfg_init();
-            init_declarator(decl, decl->body, type, symtype, linkage);
+            init_declarator(decl, decl->body, type, symtype, linkage, &info);
             if (!decl->symbol) {
                 cfg_discard(decl);
             } else if (is_function(decl->symbol->type)) {
@@ -1387,7 +1458,7 @@ INTERNAL struct block *declaration(
                 return parent;
             }
         } else {
-            parent = init_declarator(def, parent, type, symtype, linkage);
+            parent = init_declarator(def, parent, type, symtype, linkage, &info);
         }
 
         if (!try_consume(','))
diff --git a/src/parser/declaration.h b/src/parser/declaration.h
index 6664ff2..3a42381 100644
--- a/src/parser/declaration.h
+++ b/src/parser/declaration.h
@@ -26,6 +26,7 @@ struct declaration_specifier_info {
     unsigned int is_noreturn : 1;
     unsigned int is_register : 1;
     unsigned int from_typedef : 1;
+    unsigned int is_tag : 1;
 };
 
 INTERNAL Type declaration_specifiers(
-- 
2.43.0


From bc89704521b2117b890578f0429d61d151245ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:48 +0000
Subject: [PATCH 56/63] fix: diagnose operands that are not modifiable, not
 lvalues or have no address

---
 include/lacc/symbol.h    |  2 +-
 src/parser/declaration.c |  3 ++
 src/parser/eval.c        | 23 ++++++++++--
 src/parser/expression.c  | 79 ++++++++++++++++++++++++++++++++++++----
 4 files changed, 95 insertions(+), 12 deletions(-)

diff --git a/include/lacc/symbol.h b/include/lacc/symbol.h
index 3fdc15a..3ed6a6c 100644
--- a/include/lacc/symbol.h
+++ b/include/lacc/symbol.h
@@ -45,7 +45,7 @@ struct symbol {
     unsigned int referenced : 1; /* Mark symbol as used. */
     unsigned int memory : 1;     /* Disable register allocation. */
     unsigned int inlined : 1;    /* Inline function. */
-    unsigned int : 1;
+    unsigned int is_register : 1; /* Declared register. */
     unsigned int slot : 4;       /* Register allocation slot. */
     unsigned int index : 8;      /* Enumeration used in optimization. */
 
diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index 5f2b976..84d559a 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -1236,6 +1236,9 @@ static struct block *init_declarator(
     }
 
     sym = sym_add(&ns_ident, name, type, symtype, linkage);
+    if (info->is_register && current_scope_depth(&ns_ident)) {
+        sym->is_register = 1;
+    }
     if (str_len(asm_name)) {
         sym->name = asm_name;
         sym->n = 0;
diff --git a/src/parser/eval.c b/src/parser/eval.c
index 8f86e26..d8c8d40 100644
--- a/src/parser/eval.c
+++ b/src/parser/eval.c
@@ -835,6 +835,11 @@ INTERNAL struct expression eval_sub(
         t1 = type_deref(l.type);
         t2 = type_deref(r.type);
         size = size_of(t2);
+        if (!is_compatible_unqualified(t1, t2)) {
+            error("Subtraction of incompatible types %t and %t.",
+                l.type, r.type);
+            exit(1);
+        }
         l = cast_operand(def, block, l, basic_type__long);
         r = cast_operand(def, block, r, basic_type__long);
         expr = eval_sub(def, block, l, r);
@@ -1287,7 +1292,7 @@ INTERNAL struct var rvalue(
             }
         } else {
             /* Also arrays that are not lvalues decay, f().arr[1]. */
-            if (var.kind == DIRECT) {
+            if (var.kind == DIRECT || var.kind == DEREF) {
                 var.lvalue = 1;
             }
             var.type = type_next(var.type);
@@ -1299,6 +1304,9 @@ INTERNAL struct var rvalue(
             var = eval(def, block,
                 create_expression(IR_OP_CAST, basic_type__int, var));
         }
+    } else if (is_struct_or_union(var.type) && !is_complete(var.type)) {
+        error("Value has incomplete type %t.", var.type);
+        exit(1);
     }
 
     return var;
@@ -1366,7 +1374,10 @@ INTERNAL struct expression eval_va_arg(
     struct var tmp;
 
     l = rvalue(def, block, l);
-    if (!is_pointer(l.type)) {
+    if (!is_pointer(l.type)
+        || !is_struct(type_deref(l.type))
+        || size_of(type_deref(l.type)) != 24)
+    {
         error("Invalid argument to va_arg.");
         exit(1);
     }
@@ -1468,6 +1479,10 @@ INTERNAL struct var eval_addr(
         exit(1);
         break;
     case DEREF:
+        if (!var.lvalue) {
+            error("Cannot take address of r-value.");
+            exit(1);
+        }
         if (!var.is_symbol) {
             /*
              * Address of *(const + offset) is just the constant.
@@ -1968,8 +1983,8 @@ INTERNAL Type eval_conditional_type(
         type = t2;
     } else if (is_void(t1) && is_void(t2)) {
         type = t1;
-    } else if (is_struct_or_union(t1) && type_equal(t1, t2)) {
-        type = t1;
+    } else if (is_struct_or_union(t1) && type_equal_unqualified(t1, t2)) {
+        type = type_unqualified(t1);
     } else {
         error("Incompatible types (%t, %t) in conditional operator.", t1, t2);
         exit(1);
diff --git a/src/parser/expression.c b/src/parser/expression.c
index 768fd1d..489ed7f 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -106,6 +106,38 @@ static struct block *primary_expression(
     return block;
 }
 
+/* Result of operators that yield a value, also when stored in an object. */
+static struct expression not_lvalue(struct expression expr)
+{
+    if (is_identity(expr)
+        && (expr.l.kind == DIRECT || expr.l.kind == DEREF))
+    {
+        expr.l.lvalue = 0;
+    }
+
+    return expr;
+}
+
+static int has_const_member(Type type)
+{
+    int i;
+    Type next;
+
+    for (i = 0; i < nmembers(type); ++i) {
+        next = get_member(type, i)->type;
+        while (is_array(next)) {
+            next = type_next(next);
+        }
+        if (is_const(next)
+            || (is_struct_or_union(next) && has_const_member(next)))
+        {
+            return 1;
+        }
+    }
+
+    return 0;
+}
+
 /* Operand of assignment, increment and decrement operators. */
 static struct var modifiable_lvalue(struct var var)
 {
@@ -117,7 +149,8 @@ static struct var modifiable_lvalue(struct var var)
     if (is_function(var.type)
         || is_array(var.type)
         || is_const(var.type)
-        || !is_complete(var.type))
+        || !is_complete(var.type)
+        || (is_struct_or_union(var.type) && has_const_member(var.type)))
     {
         error("Cannot modify object of type %t.", var.type);
         exit(1);
@@ -126,6 +159,20 @@ static struct var modifiable_lvalue(struct var var)
     return var;
 }
 
+/* Members of a qualified object are also qualified. */
+static Type member_type(const struct member *mbr, Type type)
+{
+    Type next;
+
+    next = mbr->type;
+    if (!is_array(next)) {
+        if (is_const(type)) next = type_set_const(next);
+        if (is_volatile(type)) next = type_set_volatile(next);
+    }
+
+    return next;
+}
+
 static ExprArray *push_argument_list(void)
 {
     int len;
@@ -249,7 +296,7 @@ static struct block *postfix(
                 exit(1);
             }
             value = eval(def, block, root);
-            value.type = mbr->type;
+            value.type = member_type(mbr, value.type);
             value.field_width = mbr->field_width;
             value.field_offset = mbr->field_offset;
             value.offset += mbr->offset;
@@ -268,7 +315,7 @@ static struct block *postfix(
                         value.type, str_raw(str));
                     exit(1);
                 }
-                value.type = mbr->type;
+                value.type = member_type(mbr, value.type);
                 value.field_width = mbr->field_width;
                 value.field_offset = mbr->field_offset;
                 value.offset += mbr->offset;
@@ -347,6 +394,14 @@ static struct block *unary_expression(
         next();
         block = cast_expression(def, block);
         value = eval(def, block, block->expr);
+        if (value.kind == DIRECT
+            && value.is_symbol
+            && value.value.symbol->is_register)
+        {
+            error("Cannot take address of register variable '%s'.",
+                sym_name(value.value.symbol));
+            exit(1);
+        }
         block->expr = as_expr(eval_addr(def, block, value));
         break;
     case '*':
@@ -425,6 +480,10 @@ exprsize:   head = begin_throwaway_block(def);
             tail = unary_expression(def, head);
             type = tail->expr.type;
             restore_block(def);
+            if (is_identity(tail->expr) && is_field(tail->expr.l)) {
+                error("Cannot apply 'sizeof' to bit-field.");
+                exit(1);
+            }
         }
         if (is_complete(type) && !is_function(type)) {
             if (is_vla(type)) {
@@ -546,7 +605,7 @@ static struct block *cast_expression(
             } else {
                 block = cast_expression(def, block);
                 value = eval(def, block, block->expr);
-                block->expr = eval_cast(def, block, value, type);
+                block->expr = not_lvalue(eval_cast(def, block, value, type));
                 return block;
             }
         default:
@@ -924,8 +983,8 @@ INTERNAL struct block *conditional_expression(
         if (is_void(type)) {
             block->expr = as_expr(var_void());
         } else {
-            block->expr = eval_cast(def, block,
-                eval(def, block, block->expr), type);
+            block->expr = not_lvalue(eval_cast(def, block,
+                eval(def, block, block->expr), type));
         }
     } else {
         left = cfg_block_init(def);
@@ -953,7 +1012,7 @@ INTERNAL struct block *conditional_expression(
             extra->expr = as_expr(temp);
             extra->jump[0] = block;
             right->jump[0] = block;
-            block->expr = as_expr(temp);
+            block->expr = not_lvalue(as_expr(temp));
         }
     }
 
@@ -1055,6 +1114,8 @@ INTERNAL struct var constant_expression(void)
 
 INTERNAL struct block *expression(struct definition *def, struct block *block)
 {
+    struct var value;
+
     block = assignment_expression(def, block);
     while (try_consume(',')) {
         if (has_side_effects(block->expr)) {
@@ -1062,6 +1123,10 @@ INTERNAL struct block *expression(struct definition *def, struct block *block)
         }
 
         block = assignment_expression(def, block);
+        if (is_identity(block->expr)) {
+            value = rvalue(def, block, block->expr.l);
+            block->expr = not_lvalue(as_expr(value));
+        }
     }
 
     return block;
-- 
2.43.0


From d1b7d03780f81b33a396f287da7ce5ef10a0cc54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:50 +0000
Subject: [PATCH 57/63] fix: diagnose invalid parameter lists, flexible arrays
 and redeclared parameters

---
 src/parser/declaration.c | 56 ++++++++++++++++++++++++++++++++--------
 src/parser/eval.c        |  4 +++
 src/parser/expression.c  |  2 +-
 src/parser/symtab.c      | 10 +++----
 src/parser/typetree.c    | 32 +++++++++++++++++++++++
 5 files changed, 87 insertions(+), 17 deletions(-)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index 84d559a..aa831e6 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -76,6 +76,9 @@ static struct block *parameter_declarator(
     String *name,
     size_t *length);
 
+/* Set by [*], which is only for parameters of function prototypes. */
+static int is_unspecified;
+
 /*
  * Parse a function parameter list, adding symbols to scope.
  *
@@ -128,7 +131,12 @@ static struct block *parameter_list(
         block = parameter_declarator(def, block, base, &base, &name, &length);
         verify_declared_type(base);
         if (is_void(base)) {
-            if (nmembers(*func)) {
+            if (nmembers(*func)
+                || is_const(base)
+                || is_volatile(base)
+                || info.is_register
+                || !str_is_empty(name))
+            {
                 error("Incomplete type in parameter list.");
                 exit(1);
             }
@@ -145,6 +153,7 @@ static struct block *parameter_list(
         if (!str_is_empty(name)) {
             param->sym =
                 sym_add(&ns_ident, name, base, SYM_DEFINITION, LINK_NONE);
+            param->sym->is_register = info.is_register;
         }
 
         if (!try_consume(',')) {
@@ -158,6 +167,7 @@ static struct block *parameter_list(
         }
     }
 
+    is_unspecified = 0;
     if (current_scope_depth(&ns_ident) != 1) {
         restore_block(def);
     } else {
@@ -275,6 +285,7 @@ static struct block *array_declarator(
             if (peek() == '*' && peekn(2) == ']') {
                 next();
                 is_incomplete = 1;
+                is_unspecified = 1;
             } else if (peek() != ']') {
                 block = assignment_expression(def, block);
                 val = eval(def, block, block->expr);
@@ -612,6 +623,20 @@ static Type struct_or_union_declaration(enum token_type t)
     return type;
 }
 
+/* Parameters share the scope of the outermost block of a function. */
+static void verify_not_parameter(String name)
+{
+    struct symbol *sym;
+
+    if (current_scope_depth(&ns_ident) == 2) {
+        sym = sym_lookup(&ns_ident, name);
+        if (sym && sym->depth == 1 && sym->symtype == SYM_DEFINITION) {
+            error("Parameter '%s' redeclared in function.", str_raw(name));
+            exit(1);
+        }
+    }
+}
+
 static void enumerator_list(void)
 {
     String name;
@@ -639,6 +664,7 @@ static void enumerator_list(void)
                 str_raw(name));
             exit(1);
         }
+        verify_not_parameter(name);
         sym = sym_add(
             &ns_ident,
             name,
@@ -1057,6 +1083,10 @@ static struct block *parameter_declaration_list(
         if (!param->sym || param->sym->depth != 1) {
             assert(is_type_placeholder(param->type));
             param->type = basic_type__int;
+            if (context.standard >= STD_C99) {
+                warning("Missing type of parameter '%s', defaults to int.",
+                    str_raw(param->name));
+            }
             param->sym = sym_add(&ns_ident,
                 param->name,
                 param->type,
@@ -1146,6 +1176,11 @@ static struct block *init_declarator(
         parent = declarator(def, parent, base, &type, &name);
     }
 
+    if (is_unspecified && current_scope_depth(&ns_ident) != 1) {
+        error("Unspecified array length outside of function prototype.");
+        exit(1);
+    }
+
     if (str_is_empty(name)) {
         error("Missing name in declarator.");
         exit(1);
@@ -1227,14 +1262,7 @@ static struct block *init_declarator(
         }
     }
 
-    if (current_scope_depth(&ns_ident) == 2) {
-        sym = sym_lookup(&ns_ident, name);
-        if (sym && sym->depth == 1 && sym->symtype == SYM_DEFINITION) {
-            error("Parameter '%s' redeclared in function.", str_raw(name));
-            exit(1);
-        }
-    }
-
+    verify_not_parameter(name);
     sym = sym_add(&ns_ident, name, type, symtype, linkage);
     if (info->is_register && current_scope_depth(&ns_ident)) {
         sym->is_register = 1;
@@ -1262,8 +1290,8 @@ static struct block *init_declarator(
         break;
     default:
         if (is_array(type)
-            && linkage == LINK_NONE
-            && symtype == SYM_DEFINITION
+            && linkage != LINK_EXTERN
+            && symtype != SYM_TYPEDEF
             && !is_complete(type)
             && peek() != '=')
         {
@@ -1380,6 +1408,7 @@ INTERNAL struct block *declaration(
     struct definition *def,
     struct block *parent)
 {
+    int is_list = 0;
     Type base, type;
     enum symtype symtype;
     enum linkage linkage;
@@ -1452,6 +1481,9 @@ INTERNAL struct block *declaration(
             if (!decl->symbol) {
                 cfg_discard(decl);
             } else if (is_function(decl->symbol->type)) {
+                if (is_list) {
+                    error("Function definition in list of declarators.");
+                }
                 if (info.is_inline) {
                     sym = (struct symbol *) decl->symbol;
                     sym->inlined = 1;
@@ -1466,6 +1498,8 @@ INTERNAL struct block *declaration(
 
         if (!try_consume(','))
             break;
+
+        is_list = 1;
     }
 
     consume(';');
diff --git a/src/parser/eval.c b/src/parser/eval.c
index d8c8d40..fc3d21a 100644
--- a/src/parser/eval.c
+++ b/src/parser/eval.c
@@ -964,6 +964,9 @@ static Type common_compare_type(Type left, Type right)
     if (is_pointer(left) && is_pointer(right)
         && is_compatible_unqualified(type_next(left), type_next(right)))
     {
+        if (is_function(type_next(left))) {
+            warning("Relational comparison of function pointers.");
+        }
         return basic_type__unsigned_long;
     }
 
@@ -1509,6 +1512,7 @@ INTERNAL struct var eval_addr(
                         imm_signed(basic_type__long, var.offset)));
             }
             tmp.type = type_create_pointer(var.type);
+            tmp.lvalue = 0;
             var = tmp;
         }
         break;
diff --git a/src/parser/expression.c b/src/parser/expression.c
index 489ed7f..4d0eb4a 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -479,11 +479,11 @@ static struct block *unary_expression(
 exprsize:   head = begin_throwaway_block(def);
             tail = unary_expression(def, head);
             type = tail->expr.type;
-            restore_block(def);
             if (is_identity(tail->expr) && is_field(tail->expr.l)) {
                 error("Cannot apply 'sizeof' to bit-field.");
                 exit(1);
             }
+            restore_block(def);
         }
         if (is_complete(type) && !is_function(type)) {
             if (is_vla(type)) {
diff --git a/src/parser/symtab.c b/src/parser/symtab.c
index 75e2eed..e34f013 100644
--- a/src/parser/symtab.c
+++ b/src/parser/symtab.c
@@ -321,6 +321,11 @@ static struct symbol *sym_redeclare(
     enum symtype symtype,
     enum linkage linkage)
 {
+    if (sym->linkage == LINK_NONE && sym->symtype != symtype) {
+        error("Conflicting declaration of '%s'.", sym_name(sym));
+        exit(1);
+    }
+
     switch (linkage) {
     case LINK_INTERN:
         if (sym->linkage == LINK_EXTERN) {
@@ -341,11 +346,6 @@ static struct symbol *sym_redeclare(
         break;
     }
 
-    if (sym->linkage == LINK_NONE && sym->symtype != symtype) {
-        error("Conflicting declaration of '%s'.", sym_name(sym));
-        exit(1);
-    }
-
     switch (symtype) {
     case SYM_TENTATIVE:
         if (sym->symtype == SYM_DECLARATION) {
diff --git a/src/parser/typetree.c b/src/parser/typetree.c
index 9d44458..010ab84 100644
--- a/src/parser/typetree.c
+++ b/src/parser/typetree.c
@@ -214,6 +214,7 @@ static struct member *add_member(Type parent, struct member m)
 
     struct typetree *t;
     size_t size;
+    Type type;
 
     assert(is_struct_or_union(parent) || is_function(parent));
     t = get_typetree_handle(parent.ref);
@@ -230,6 +231,22 @@ static struct member *add_member(Type parent, struct member m)
         exit(1);
     }
 
+    if (!is_function(parent) && array_len(&t->members)) {
+        type = array_back(&t->members).type;
+        if (is_array(type) && !is_complete(type)) {
+            error("Member '%s' after flexible array.", str_raw(m.name));
+            exit(1);
+        }
+    }
+
+    if (is_array(m.type)
+        && !is_complete(m.type)
+        && (is_union(parent) || !array_len(&t->members)))
+    {
+        error("Invalid flexible array member '%s'.", str_raw(m.name));
+        exit(1);
+    }
+
     array_push_back(&t->members, m);
     if (is_struct_or_union(parent)) {
         if (size_of(m.type) == 0) {
@@ -653,6 +670,11 @@ INTERNAL void type_add_anonymous_member(Type parent, Type type)
         exit(1);
     }
 
+    t = get_typetree_handle(type.ref);
+    if (t->tag && t->tag->symtype == SYM_TAG) {
+        warning("Anonymous member of type %t, which has a tag.", type);
+    }
+
     offset = adjust_member_alignment(parent, type);
     size = size_of(type);
     if (LONG_MAX - offset < size) {
@@ -773,6 +795,11 @@ static int typetree_equal(const struct typetree *a, const struct typetree *b)
     int i, len;
     struct member *ma, *mb;
 
+    /* Every definition is a distinct type. */
+    if (a->type == T_STRUCT || a->type == T_UNION) {
+        return 0;
+    }
+
     if (a->type != b->type
         || a->size != b->size
         || a->is_const != b->is_const
@@ -822,6 +849,11 @@ static int typetree_equal_unqualified(
     int i, len;
     struct member *ma, *mb;
 
+    /* Every definition is a distinct type. */
+    if (a->type == T_STRUCT || a->type == T_UNION) {
+        return 0;
+    }
+
     if (a->type != b->type
         || a->size != b->size
         || a->is_unsigned != b->is_unsigned
-- 
2.43.0


From 5768de3d53d3e0c87ace3698eba11e888313af4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:52 +0000
Subject: [PATCH 58/63] fix: diagnose invalid macro definitions and stray
 tokens after directives

---
 src/preprocessor/directive.c | 91 +++++++++++++++++++++++++++++++++++-
 src/preprocessor/macro.c     |  9 +++-
 src/preprocessor/macro.h     |  3 ++
 3 files changed, 100 insertions(+), 3 deletions(-)

diff --git a/src/preprocessor/directive.c b/src/preprocessor/directive.c
index c7a6bce..d400ee5 100644
--- a/src/preprocessor/directive.c
+++ b/src/preprocessor/directive.c
@@ -704,6 +704,66 @@ static void preprocess_include(TokenArray *line)
     }
 }
 
+/* Verify that directive has nothing more on the line. */
+static void expect_end_of_line(const struct token *line)
+{
+    if (line->token != NEWLINE) {
+        warning("Stray tokens at end of preprocessor directive.");
+    }
+}
+
+/* Add name of macro parameter. */
+static void add_macro_parameter(
+    struct macro *macro,
+    TokenArray *params,
+    const struct token *t)
+{
+    int i;
+
+    for (i = 0; i < array_len(params); ++i) {
+        if (!tok_cmp(*t, array_get(params, i))) {
+            error("Duplicate macro parameter '%s'.", str_raw(t->d.string));
+            exit(1);
+        }
+    }
+
+    array_push_back(params, *t);
+    macro->names = str_cat(macro->names, str_c(","));
+    macro->names = str_cat(macro->names, t->d.string);
+}
+
+/* Verify constraints on # and ## in replacement list of macro. */
+static void verify_replacement_list(const struct macro *macro)
+{
+    int i, len;
+    struct token t;
+
+    len = array_len(&macro->replacement);
+    if (len
+        && (array_get(&macro->replacement, 0).token == TOKEN_PASTE
+            || array_back(&macro->replacement).token == TOKEN_PASTE))
+    {
+        error("Unary '##' operator in definition of '%s'.",
+            str_raw(macro->name));
+        exit(1);
+    }
+
+    for (i = 0; i < len; ++i) {
+        t = array_get(&macro->replacement, i);
+        if (t.token == '#'
+            && macro->type == FUNCTION_LIKE
+            && (i == len - 1
+                || array_get(&macro->replacement, i + 1).token != PARAM))
+        {
+            error("Operator '#' without parameter in definition of '%s'.",
+                str_raw(macro->name));
+            exit(1);
+        } else if (t.is_expandable && !tok_cmp(t, ident__VA_ARGS__)) {
+            warning("__VA_ARGS__ in macro that is not variadic.");
+        }
+    }
+}
+
 /* Function-like macro iff parenthesis immediately after identifier. */
 static struct macro preprocess_define(
     const struct token *line,
@@ -715,13 +775,17 @@ static struct macro preprocess_define(
     int i;
 
     t = *line++;
-    if (!t.is_expandable) {
+    if (!t.is_expandable
+        || !tok_cmp(t, ident__defined)
+        || !tok_cmp(t, ident__VA_ARGS__))
+    {
         error("Invalid definition of %s as a macro", str_raw(t.d.string));
         exit(1);
     }
 
     macro.name = t.d.string;
     macro.type = OBJECT_LIKE;
+    macro.names = str_empty();
     macro.replacement = get_token_array();
     if (line->token == '(' && !line->leading_whitespace) {
         macro.type = FUNCTION_LIKE;
@@ -737,7 +801,7 @@ static struct macro preprocess_define(
                 error("Invalid macro parameter, expected identifer.");
                 exit(1);
             }
-            array_push_back(&params, *line++);
+            add_macro_parameter(&macro, &params, line++);
             if (line->token == DOTS) {
                 macro.is_vararg = 1;
                 line++;
@@ -745,12 +809,23 @@ static struct macro preprocess_define(
             } else if (line->token != ',')
                 break;
             line++;
+            if (line->token == ')') {
+                error("Invalid macro parameter, expected identifer.");
+                exit(1);
+            }
         }
         expect(line, ')');
         line++;
     }
 
     macro.params = array_len(&params);
+    if (macro.type == OBJECT_LIKE
+        && line->token != NEWLINE
+        && !line->leading_whitespace)
+    {
+        warning("Missing whitespace after macro name '%s'.",
+            str_raw(macro.name));
+    }
 
     while (line->token != NEWLINE) {
         assert(line->token != END);
@@ -772,6 +847,7 @@ static struct macro preprocess_define(
         line++;
     }
 
+    verify_replacement_list(&macro);
     *endptr = line;
     release_token_array(params);
     return macro;
@@ -874,6 +950,7 @@ INTERNAL void preprocess_directive(TokenArray *array)
         state = pop_group();
         if (in_active_block()) {
             push_state(state == BRANCH_DEAD ? BRANCH_LIVE : BRANCH_DISABLED);
+            expect_end_of_line(line + 1);
         } else {
             assert(state == BRANCH_DISABLED);
             push_state(BRANCH_DISABLED);
@@ -894,6 +971,9 @@ INTERNAL void preprocess_directive(TokenArray *array)
         }
     } else if (!tok_cmp(*line, ident__endif)) {
         pop_state();
+        if (in_active_block()) {
+            expect_end_of_line(line + 1);
+        }
     } else if (!tok_cmp(*line, ident__ifndef)) {
         if (in_active_block()) {
             line++;
@@ -902,6 +982,7 @@ INTERNAL void preprocess_directive(TokenArray *array)
                 exit(1);
             }
             def = macro_definition(line->d.string) == NULL;
+            expect_end_of_line(line + 1);
             push_state(def ? BRANCH_LIVE : BRANCH_DEAD);
         } else {
             push_state(BRANCH_DISABLED);
@@ -914,6 +995,7 @@ INTERNAL void preprocess_directive(TokenArray *array)
                 exit(1);
             }
             def = macro_definition(line->d.string) != NULL;
+            expect_end_of_line(line + 1);
             push_state(def ? BRANCH_LIVE : BRANCH_DEAD);
         } else {
             push_state(BRANCH_DISABLED);
@@ -927,7 +1009,12 @@ INTERNAL void preprocess_directive(TokenArray *array)
                 error("Expected identifier in 'undef' clause.");
                 exit(1);
             }
+            if (!tok_cmp(*line, ident__defined)) {
+                error("Cannot undefine '%s'.", str_raw(line->d.string));
+                exit(1);
+            }
             undef(line->d.string);
+            expect_end_of_line(line + 1);
         } else if (!tok_cmp(*line, ident__include)) {
             preprocess_include(array);
         } else if (!tok_cmp(*line, ident__line)) {
diff --git a/src/preprocessor/macro.c b/src/preprocessor/macro.c
index 5ba2307..16478ac 100644
--- a/src/preprocessor/macro.c
+++ b/src/preprocessor/macro.c
@@ -77,7 +77,10 @@ static int macrocmp(const struct macro *a, const struct macro *b)
     if ((a->type != b->type) || (a->params != b->params))
         return 1;
 
-    if (!str_eq(a->name, b->name))
+    if (a->is_vararg != b->is_vararg)
+        return 1;
+
+    if (!str_eq(a->name, b->name) || !str_eq(a->names, b->names))
         return 1;
 
     if (array_len(&a->replacement) != array_len(&b->replacement))
@@ -88,6 +91,9 @@ static int macrocmp(const struct macro *a, const struct macro *b)
                 array_get(&a->replacement, i),
                 array_get(&b->replacement, i)))
             return 1;
+        if (i && !array_get(&a->replacement, i).leading_whitespace
+            != !array_get(&b->replacement, i).leading_whitespace)
+            return 1;
     }
 
     return 0;
@@ -877,6 +883,7 @@ static void register_macro(const char *key, const char *value)
 
     macro.type = OBJECT_LIKE;
     macro.name = str_c(key);
+    macro.names = str_empty();
     macro.replacement = parse_macro_replacement(value);
     define(macro);
 }
diff --git a/src/preprocessor/macro.h b/src/preprocessor/macro.h
index acb3da2..cf81f2f 100644
--- a/src/preprocessor/macro.h
+++ b/src/preprocessor/macro.h
@@ -24,6 +24,9 @@ struct macro {
     /* Number of parameters required for substitution. */
     int params;
 
+    /* Names of parameters, only used to compare definitions. */
+    String names;
+
     unsigned int is__line__ : 1;
     unsigned int is__file__ : 1;
     unsigned int is_vararg : 1;
-- 
2.43.0


From 3a78d1586fe067802a74fb1fb8ed699d4932e6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:50 +0000
Subject: [PATCH 59/63] fix: name the line of unterminated literals and missing
 newlines in diagnostics

---
 src/preprocessor/input.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/preprocessor/input.c b/src/preprocessor/input.c
index f3c61c3..37b1163 100644
--- a/src/preprocessor/input.c
+++ b/src/preprocessor/input.c
@@ -419,6 +419,7 @@ static size_t read_literal(const char *line, char **buf, int *lines)
                     *buf = ptr;
                     return end - line;
                 }
+                current_file_line += *lines + 1;
                 error("Unexpected newline in literal.");
                 exit(1);
             }
@@ -579,6 +580,17 @@ INTERNAL size_t read_line(
     return 0;
 }
 
+static int count_lines(const char *str)
+{
+    int n;
+
+    for (n = 0; (str = strchr(str, '\n')) != NULL; ++str) {
+        n++;
+    }
+
+    return n;
+}
+
 /*
  * Read the next line from file input, doing initial pre-preprocessing.
  */
@@ -593,6 +605,7 @@ static char *initial_preprocess_line(struct source *fn)
         if (fn->processed == fn->read || !fn->processed) {
             if (feof(fn->file)) {
                 if (fn->read > fn->processed) {
+                    current_file_line++;
                     error("Unable to process the whole input.");
                     exit(1);
                 }
@@ -618,7 +631,9 @@ static char *initial_preprocess_line(struct source *fn)
                     return NULL;
                 }
                 if (fn->buffer[fn->read - 1] != '\n') {
+                    current_file_line += count_lines(fn->buffer) + 1;
                     error("Missing newline at end of file.");
+                    current_file_line -= count_lines(fn->buffer) + 1;
                     fn->buffer[fn->read++] = '\n';
                     fn->buffer[fn->read] = '\0';
                 }
-- 
2.43.0


From 7a8fdd9514e8b5299f3ed69091040dd679711835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:47 +0000
Subject: [PATCH 60/63] fix: diagnose octal and hexadecimal escape sequences
 that are out of range

---
 src/preprocessor/tokenize.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/preprocessor/tokenize.c b/src/preprocessor/tokenize.c
index d881507..7b47a24 100644
--- a/src/preprocessor/tokenize.c
+++ b/src/preprocessor/tokenize.c
@@ -294,7 +294,7 @@ static char convert_escape_sequence(const char *in, const char **endptr)
 {
     static char buf[4];
     long n;
-    int i;
+    int i, c;
 
     *endptr = in + 1;
     switch (*in) {
@@ -314,10 +314,14 @@ static char convert_escape_sequence(const char *in, const char **endptr)
             error("Empty hexadecimal escape sequence.");
             exit(1);
         }
-        for (n = 0, i = 1; isxdigit(in[i]); ++i) {
+        for (n = 0, i = 1, c = 0; isxdigit(in[i]); ++i) {
+            c |= n > 0x0F;
             n = (n << 4) & 0xFF;
             n |= isdigit(in[i]) ? in[i] - '0' : tolower(in[i]) - 'a' + 10;
         }
+        if (c) {
+            warning("Hexadecimal escape sequence out of range.");
+        }
         *endptr = in + i;
         return (char) n;
     case '0':
@@ -333,6 +337,9 @@ static char convert_escape_sequence(const char *in, const char **endptr)
         }
         buf[i] = '\0';
         n = strtol(buf, (char **) endptr, 8);
+        if (n > 0xFF) {
+            warning("Octal escape sequence out of range.");
+        }
         *endptr = in + i;
         return (char) n;
     default:
-- 
2.43.0


From 0b018a1eb5c2996fba30575baa9201d4f04351e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:22 +0000
Subject: [PATCH 61/63] fix: keep the file name when another file follows on
 the command line

---
 src/preprocessor/input.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/preprocessor/input.c b/src/preprocessor/input.c
index 37b1163..02a9e64 100644
--- a/src/preprocessor/input.c
+++ b/src/preprocessor/input.c
@@ -713,10 +713,10 @@ INTERNAL char *getprepline(void)
                 error("Unterminated conditional directive.");
                 exit(1);
             }
-            stale = 1;
             if (pop_file() == EOF) {
                 return NULL;
             }
+            stale = 1;
         }
         if (!in_active_block() && !is_directive(line)) {
             line = NULL;
-- 
2.43.0


From fb4e4885f2ee8919a213e569e25ec1c977213b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:22 +0000
Subject: [PATCH 62/63] fix: remove assertion that failed for the second of
 several object files

---
 src/backend/x86_64/elf.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/backend/x86_64/elf.c b/src/backend/x86_64/elf.c
index b105867..a1fca99 100644
--- a/src/backend/x86_64/elf.c
+++ b/src/backend/x86_64/elf.c
@@ -126,7 +126,6 @@ INTERNAL size_t elf_section_write(int shid, const void *data, size_t n)
                 scap[shid] = 10 * n;
                 sbuf[shid].data = malloc(scap[shid]);
             } else {
-                assert(offset);
                 assert(sbuf[shid].data);
                 scap[shid] = 2 * scap[shid] + n;
                 sbuf[shid].data = realloc(sbuf[shid].data, scap[shid]);
-- 
2.43.0


From ddf544e582a2a9b86bdc6ff00b390d7e5a133f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:22 +0000
Subject: [PATCH 63/63] fix: restart numbering of local symbols for each
 translation unit

---
 src/parser/symtab.c | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/src/parser/symtab.c b/src/parser/symtab.c
index e34f013..0c6fc24 100644
--- a/src/parser/symtab.c
+++ b/src/parser/symtab.c
@@ -32,6 +32,20 @@ static String
  */
 static SymbolArray temporaries;
 
+/*
+ * Numbers that make names of symbols without linkage unique. Restarted
+ * for each translation unit, to not let the output depend on what other
+ * files are compiled in the same invocation.
+ */
+static struct {
+    int local_static;
+    int temporary;
+    int unnamed;
+    int label;
+    int constant;
+    int string;
+} counters;
+
 static struct symbol *alloc_sym(void)
 {
     struct symbol *sym;
@@ -138,6 +152,7 @@ INTERNAL void symtab_clear(void)
 
     array_empty(&string_types);
     hash_clear(&functions, NULL);
+    memset(&counters, 0, sizeof(counters));
 }
 
 INTERNAL void symtab_finalize(void)
@@ -415,8 +430,6 @@ INTERNAL struct symbol *sym_add(
     enum symtype symtype,
     enum linkage linkage)
 {
-    static int n;
-
     int depth;
     struct symbol *sym, *prev;
     assert(symtype != SYM_LABEL);
@@ -469,7 +482,7 @@ INTERNAL struct symbol *sym_add(
     sym->symtype = symtype;
     sym->linkage = linkage;
     if (linkage == LINK_INTERN && sym->depth) {
-        sym->n = ++n;
+        sym->n = ++counters.local_static;
     }
 
     if (sym->symtype == SYM_TAG || sym->symtype == SYM_TYPEDEF) {
@@ -504,7 +517,6 @@ INTERNAL struct symbol *sym_add(
 
 INTERNAL struct symbol *sym_create_temporary(Type type)
 {
-    static int n;
     struct symbol *sym;
 
     sym = alloc_sym();
@@ -512,13 +524,12 @@ INTERNAL struct symbol *sym_create_temporary(Type type)
     sym->linkage = LINK_NONE;
     sym->name = prefix_temporary;
     sym->type = type;
-    sym->n = ++n;
+    sym->n = ++counters.temporary;
     return sym;
 }
 
 INTERNAL struct symbol *sym_create_unnamed(Type type)
 {
-    static int n;
     struct symbol *sym;
 
     sym = alloc_sym();
@@ -531,13 +542,12 @@ INTERNAL struct symbol *sym_create_unnamed(Type type)
     sym->symtype = SYM_DEFINITION;
     sym->name = prefix_unnamed;
     sym->type = type;
-    sym->n = ++n;
+    sym->n = ++counters.unnamed;
     return sym;
 }
 
 INTERNAL struct symbol *sym_create_label(void)
 {
-    static int n;
     struct symbol *sym;
 
     sym = alloc_sym();
@@ -545,13 +555,12 @@ INTERNAL struct symbol *sym_create_label(void)
     sym->symtype = SYM_LABEL;
     sym->linkage = LINK_INTERN;
     sym->name = prefix_label;
-    sym->n = ++n;
+    sym->n = ++counters.label;
     return sym;
 }
 
 INTERNAL struct symbol *sym_create_constant(Type type, union value val)
 {
-    static int n;
     struct symbol *sym;
 
     sym = alloc_sym();
@@ -560,7 +569,7 @@ INTERNAL struct symbol *sym_create_constant(Type type, union value val)
     sym->symtype = SYM_CONSTANT;
     sym->linkage = LINK_INTERN;
     sym->name = prefix_constant;
-    sym->n = ++n;
+    sym->n = ++counters.constant;
     array_push_back(&ns_ident.symbols, sym);
     return sym;
 }
@@ -572,7 +581,6 @@ INTERNAL struct symbol *sym_create_constant(Type type, union value val)
  */
 INTERNAL struct symbol *sym_create_string(String str)
 {
-    static int n;
     struct symbol *sym;
     size_t len;
 
@@ -583,7 +591,7 @@ INTERNAL struct symbol *sym_create_string(String str)
     sym->symtype = SYM_LITERAL;
     sym->linkage = LINK_INTERN;
     sym->name = prefix_string;
-    sym->n = ++n;
+    sym->n = ++counters.string;
     array_push_back(&ns_ident.symbols, sym);
     return sym;
 }
-- 
2.43.0

