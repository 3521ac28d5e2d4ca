From 25722c62cb5a857e6b3c4620b34d15c1ed8aca08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:21 +0000
Subject: [PATCH 001/158] fix: keep every 32-bit unsigned value sign-extended
 in registers

unsigned int was loaded zero-extended but computed sign-extended, and the
conversions to and from 64-bit types assumed a different form each, so
widening, comparing or switching on the same value gave different results.
---
 codegen.c | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/codegen.c b/codegen.c
index eabf11d..ca4484f 100644
--- a/codegen.c
+++ b/codegen.c
@@ -405,16 +405,16 @@ static void load(struct Type *ty)
 	char *suffix = ty->is_unsigned ? "u" : "";
 
 	// When we load a char or a short value to a register, we always
-	// extend them to the size of int, so we can assume the lower half of
-	// a register always contains a valid value. The upper half of a
-	// register for char, short and int may contain garbage. When we load
-	// a long value to a register, it simply occupies the entire register.
+	// extend them to the size of int. A 32-bit value, signed or unsigned,
+	// is always kept sign-extended in a register, as the psABI and the
+	// "w" instructions do. When we load a long value to a register, it
+	// simply occupies the entire register.
 	if (ty->size == sizeof(char))
 		println("\tlb%s a0, (a0)", suffix);
 	else if (ty->size == sizeof(short))
 		println("\tlh%s a0, (a0)", suffix);
 	else if (ty->size == sizeof(int))
-		println("\tlw%s a0, (a0)", suffix);
+		println("\tlw a0, (a0)");
 	else
 		println("\tld a0, (a0)");
 }
@@ -554,7 +554,7 @@ static int getTypeId(struct Type *ty)
 
 #define F128U8  combine("\tcall __fixunstfsi@plt", TOU8)
 #define F128U16 combine("\tcall __fixunstfsi@plt", TOU16)
-#define F128U32 combine("\tcall __fixunstfsi@plt", TOU32)
+#define F128U32 combine("\tcall __fixunstfsi@plt", TOI32)
 #define F128U64 "\tcall __fixunstfdi@plt"
 
 #define F32F64  "\tfcvt.d.s fa0, fa0"
@@ -570,15 +570,15 @@ static int getTypeId(struct Type *ty)
 static const char *cast_matrix[CAST_MAX_TYPE][CAST_MAX_TYPE] = {
 	// to
 	// i8      i16      i32      i64      u8      u16      u32      u64      f32      f64      f128            from
-	{  NULL,   NULL,    NULL,    NULL,    TOU8,   TOU16,   TOU32,   NULL,    I32F32,  I32F64,  I32F128, },  // i8
-	{  TOI8,   NULL,    NULL,    NULL,    TOU8,   TOU16,   TOU32,   NULL,    I32F32,  I32F64,  I32F128, },  // i16
-	{  TOI8,   TOI16,   NULL,    NULL,    TOU8,   TOU16,   TOU32,   NULL,    I32F32,  I32F64,  I32F128, },  // i32
-	{  TOI8,   TOI16,   TOI32,   NULL,    TOU8,   TOU16,   TOU32,   NULL,    I64F32,  I64F64,  I64F128, },  // i64
+	{  NULL,   NULL,    NULL,    NULL,    TOU8,   TOU16,   NULL,    NULL,    I32F32,  I32F64,  I32F128, },  // i8
+	{  TOI8,   NULL,    NULL,    NULL,    TOU8,   TOU16,   NULL,    NULL,    I32F32,  I32F64,  I32F128, },  // i16
+	{  TOI8,   TOI16,   NULL,    NULL,    TOU8,   TOU16,   NULL,    NULL,    I32F32,  I32F64,  I32F128, },  // i32
+	{  TOI8,   TOI16,   TOI32,   NULL,    TOU8,   TOU16,   TOI32,   NULL,    I64F32,  I64F64,  I64F128, },  // i64
 
 	{  NULL,   NULL,    NULL,    NULL,    NULL,   NULL,    NULL,    NULL,    U32F32,  U32F64,  U32F128, },  // u8
 	{  TOI8,   NULL,    NULL,    NULL,    TOU8,   NULL,    NULL,    NULL,    U32F32,  U32F64,  U32F128, },  // u16
-	{  TOI8,   TOI16,   NULL,    NULL,    TOU8,   TOU16,   NULL,    NULL,    U32F32,  U32F64,  U32F128, },  // u32
-	{  TOI8,   TOI16,   TOI32,   NULL,    TOU8,   TOU16,   TOU32,   NULL,    U64F32,  U64F64,  U64F128, },  // u64
+	{  TOI8,   TOI16,   NULL,    TOU32,   TOU8,   TOU16,   NULL,    TOU32,   U32F32,  U32F64,  U32F128, },  // u32
+	{  TOI8,   TOI16,   TOI32,   NULL,    TOU8,   TOU16,   TOI32,   NULL,    U64F32,  U64F64,  U64F128, },  // u64
 
 	{  F32I8,  F32I16,  F32I32,  F32I64,  F32U8,  F32U16,  F32U32,  F32U64,  NULL,    F32F64,  F32F128, },  // f32
 	{  F64I8,  F64I16,  F64I32,  F64I64,  F64U8,  F64U16,  F64U32,  F64U64,  F64F32,  NULL,    F64F128, },  // f64
@@ -1010,7 +1010,8 @@ static void gen_expr(struct Node *node)
 			return;
 
 		default:
-			println("\tli a0, %ld", node->val);
+			println("\tli a0, %ld", node->ty->size == sizeof(int) ?
+						(long)(int)node->val : node->val);
 			return;
 		}
 
@@ -1060,6 +1061,9 @@ static void gen_expr(struct Node *node)
 				println("\tsrli a0, a0, %d", 64 - mem->bit_width);
 			else
 				println("\tsrai a0, a0, %d", 64 - mem->bit_width);
+			// 32-bit values are kept sign-extended
+			if (mem->bit_width == 32 && mem->ty->size == sizeof(int))
+				println("\tsext.w a0, a0");
 		}
 		return;
 
-- 
2.43.0


From 7dbe6d3d73a496e24d04c188a8f36ee1e31c2c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:21 +0000
Subject: [PATCH 002/158] fix: sign-extend when converting unsigned char/short
 to the signed type of the same size

---
 codegen.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/codegen.c b/codegen.c
index ca4484f..3250139 100644
--- a/codegen.c
+++ b/codegen.c
@@ -575,8 +575,8 @@ static const char *cast_matrix[CAST_MAX_TYPE][CAST_MAX_TYPE] = {
 	{  TOI8,   TOI16,   NULL,    NULL,    TOU8,   TOU16,   NULL,    NULL,    I32F32,  I32F64,  I32F128, },  // i32
 	{  TOI8,   TOI16,   TOI32,   NULL,    TOU8,   TOU16,   TOI32,   NULL,    I64F32,  I64F64,  I64F128, },  // i64
 
-	{  NULL,   NULL,    NULL,    NULL,    NULL,   NULL,    NULL,    NULL,    U32F32,  U32F64,  U32F128, },  // u8
-	{  TOI8,   NULL,    NULL,    NULL,    TOU8,   NULL,    NULL,    NULL,    U32F32,  U32F64,  U32F128, },  // u16
+	{  TOI8,   NULL,    NULL,    NULL,    NULL,   NULL,    NULL,    NULL,    U32F32,  U32F64,  U32F128, },  // u8
+	{  TOI8,   TOI16,   NULL,    NULL,    TOU8,   NULL,    NULL,    NULL,    U32F32,  U32F64,  U32F128, },  // u16
 	{  TOI8,   TOI16,   NULL,    TOU32,   TOU8,   TOU16,   NULL,    TOU32,   U32F32,  U32F64,  U32F128, },  // u32
 	{  TOI8,   TOI16,   TOI32,   NULL,    TOU8,   TOU16,   TOI32,   NULL,    U64F32,  U64F64,  U64F128, },  // u64
 
-- 
2.43.0


From 0128a4995f4a3369f51da4a0f4d020fce894fc20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:21 +0000
Subject: [PATCH 003/158] fix: compare unsigned operands of <= and >= as
 unsigned

---
 codegen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codegen.c b/codegen.c
index 3250139..44a7ee1 100644
--- a/codegen.c
+++ b/codegen.c
@@ -1565,7 +1565,7 @@ static void gen_expr(struct Node *node)
 			println("\tslt a0, a0, a1");
 		break;
 	case ND_LE:
-		if (node->ty->is_unsigned)
+		if (node->lhs->ty->is_unsigned)
 			println("\tsltu a0, a1, a0");
 		else
 			println("\tslt a0, a1, a0");
-- 
2.43.0


From d79f7b09da1c65a9c2ed9f40ded8cc53280aa382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:21 +0000
Subject: [PATCH 004/158] fix: test the right operand of && with its own type

---
 codegen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codegen.c b/codegen.c
index 44a7ee1..0949e31 100644
--- a/codegen.c
+++ b/codegen.c
@@ -1186,7 +1186,7 @@ static void gen_expr(struct Node *node)
 		cmp_zero(node->lhs->ty);
 		println("\tbnez a0, .L.false.%d", c);
 		gen_expr(node->rhs);
-		cmp_zero(node->lhs->ty);
+		cmp_zero(node->rhs->ty);
 		println("\tbnez a0, .L.false.%d", c);
 		println("\tli a0, 1");
 		println("\tj .L.end.%d", c);
-- 
2.43.0


From e5f9e33377194c865570452bbc0cc752ee012e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:13 +0000
Subject: [PATCH 005/158] fix: apply the integer promotions to the operands of
 ~, << and >> and unary +

---
 parser/parser.c |  9 ++++++---
 type.c          | 16 ++++++++++++++--
 type.h          |  1 +
 3 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/parser/parser.c b/parser/parser.c
index ceb23a5..a4c67bd 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -761,9 +761,12 @@ static struct Node *labels;
 // 	 | postfix
 static struct Node *unary(struct Token **rest, struct Token *tok)
 {
-	if (equal(tok, "+"))
-		// ignore
-		return cast(rest, tok->next);
+	if (equal(tok, "+")) {
+		struct Node *node = cast(rest, tok->next);
+
+		add_type(node);
+		return new_cast(node, promoted_type(node));
+	}
 
 	if (equal(tok, "-"))
 		// depth--
diff --git a/type.c b/type.c
index ac61f5e..2ee0fbf 100644
--- a/type.c
+++ b/type.c
@@ -322,6 +322,15 @@ static struct Type *get_common_type(struct Type *ty1, struct Type *ty2)
 	return ty1;
 }
 
+// The type of an operand after the integer promotions.
+struct Type *promoted_type(struct Node *node)
+{
+	if (is_integer(node->ty) && node->ty->size < 4)
+		return p_ty_int();
+
+	return node->ty;
+}
+
 // For many binary operators, we implicitly promote operands so that
 // both operands have the same type. Any integral type smaller than
 // int is always promoted to int. If the type of one operand is larger
@@ -407,9 +416,12 @@ void add_type(struct Node *node)
 
 	case ND_BITNOT:
 	case ND_SHL:
-	case ND_SHR:
-		node->ty = node->lhs->ty;
+	case ND_SHR: {
+		struct Type *ty = promoted_type(node->lhs);
+		node->lhs = new_cast(node->lhs, ty);
+		node->ty = ty;
 		break;
+	}
 
 	case ND_VAR:
 	case ND_VLA_PTR:
diff --git a/type.h b/type.h
index 5c99573..163b179 100644
--- a/type.h
+++ b/type.h
@@ -58,6 +58,7 @@ bool is_struct_union(struct Type *ty);
 bool is_numeric(struct Type *ty);
 bool is_compatible(struct Type *t1, struct Type *t2);
 struct Type *copy_type(struct Type *ty);
+struct Type *promoted_type(struct Node *node);
 struct Type *pointer_to(struct Type *base);
 struct Type *func_type(struct Type *return_ty);
 struct Type *array_of(struct Type *base, int size);
-- 
2.43.0


From 4baf486dd0fbd5cdca5411dd5941b3e0ee1157c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:14 +0000
Subject: [PATCH 006/158] fix: convert enum and _Bool values as the integer
 types they are

Both were treated as unsigned long: a long was not truncated when converted
to an enum and a negative enum became a huge floating-point number.
---
 codegen.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/codegen.c b/codegen.c
index 0949e31..b8485b2 100644
--- a/codegen.c
+++ b/codegen.c
@@ -480,10 +480,13 @@ enum {
 static int getTypeId(struct Type *ty)
 {
 	switch (ty->kind) {
+	case TY_BOOL:
+		return U8;
 	case TY_CHAR:
 		return ty->is_unsigned ? U8 : I8;
 	case TY_SHORT:
 		return ty->is_unsigned ? U16 : I16;
+	case TY_ENUM:
 	case TY_INT:
 		return ty->is_unsigned ? U32 : I32;
 	case TY_LONG:
-- 
2.43.0


From 793f10e338ba36396321d7cbfd1e7d51870fc3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:14 +0000
Subject: [PATCH 007/158] fix: convert floating-point values to _Bool by
 comparing them with zero

---
 codegen.c | 53 +++++++++++++++++++++++++++--------------------------
 1 file changed, 27 insertions(+), 26 deletions(-)

diff --git a/codegen.c b/codegen.c
index b8485b2..dc2cd00 100644
--- a/codegen.c
+++ b/codegen.c
@@ -588,32 +588,6 @@ static const char *cast_matrix[CAST_MAX_TYPE][CAST_MAX_TYPE] = {
 	{  F128I8, F128I16, F128I32, F128I64, F128U8, F128U16, F128U32, F128U64, F128F32, F128F64, NULL,    },  // f128
 };
 
-static void cast(struct Type *from, struct Type *to)
-{
-	if (to->kind == TY_VOID)
-		return;
-
-	if (to->kind == TY_BOOL) {
-		println("\tsnez a0, a0");
-		return;
-	}
-
-	int t1 = getTypeId(from);
-	int t2 = getTypeId(to);
-
-	if (cast_matrix[t1][t2]) {
-		debug("cast t1 %d t2 %d", t1, t2);
-
-		if (t1 == F128)
-			pop_ld();
-		println("%s", cast_matrix[t1][t2]);
-		if (t2 == F128)
-			push_ld();
-
-		debug("end cast");
-	}
-}
-
 static void cmp_zero(struct Type *ty)
 {
 	switch (ty->kind) {
@@ -642,6 +616,33 @@ static void cmp_zero(struct Type *ty)
 	return;
 }
 
+static void cast(struct Type *from, struct Type *to)
+{
+	if (to->kind == TY_VOID)
+		return;
+
+	if (to->kind == TY_BOOL) {
+		cmp_zero(from);
+		println("\tseqz a0, a0");
+		return;
+	}
+
+	int t1 = getTypeId(from);
+	int t2 = getTypeId(to);
+
+	if (cast_matrix[t1][t2]) {
+		debug("cast t1 %d t2 %d", t1, t2);
+
+		if (t1 == F128)
+			pop_ld();
+		println("%s", cast_matrix[t1][t2]);
+		if (t2 == F128)
+			push_ld();
+
+		debug("end cast");
+	}
+}
+
 // Structs or unions equal or smaller than 16 bytes are passed
 // using up to two registers.
 // When structs or unions larger than 16 bytes, save the struct
-- 
2.43.0


From 6e14ab0227af84ae0d1feca10eb9523951ceacf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:39 +0000
Subject: [PATCH 008/158] fix: postfix ++ and -- yield the old value for _Bool
 and floating-point operands

---
 parser/parser.c | 52 ++++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 47 insertions(+), 5 deletions(-)

diff --git a/parser/parser.c b/parser/parser.c
index a4c67bd..f34007d 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -499,16 +499,58 @@ static struct Node *to_assign(struct Node *binary)
 	return new_binary(ND_COMMA, expr1, expr2, tok);
 }
 
-// Convert A++ to `(typeof A)((A += 1) - 1)`
+// Convert A++ to `tmp = &A, old = *tmp, *tmp = old + 1, old`,
+// and an atomic A++ to `(typeof A)((A += 1) - 1)`.
 static struct Node *new_inc_dec(struct Node *node, struct Token *tok, int addend)
 {
 	add_type(node);
 
-	struct Node *node_add = new_add(node, new_num(addend, tok), tok);
-	struct Node *node_to_assign = to_assign(node_add);
-	struct Node *node_minus = new_add(node_to_assign, new_num(-addend, tok), tok);
+	if (node->ty->is_atomic) {
+		struct Node *node_add = new_add(node, new_num(addend, tok), tok);
+		struct Node *node_to_assign = to_assign(node_add);
+		struct Node *node_minus = new_add(node_to_assign, new_num(-addend, tok), tok);
 
-	return new_cast(node_minus, node->ty);
+		return new_cast(node_minus, node->ty);
+	}
+
+	// A bit-field has no address, so take the one of its struct.
+	bool is_bitfield = node->kind == ND_MEMBER && node->member->is_bitfield;
+	struct Node *base = is_bitfield ? node->lhs : node;
+
+	struct Obj *tmp = new_lvar("", pointer_to(base->ty));
+	struct Obj *old = new_lvar("", node->ty);
+
+	// tmp = &A
+	struct Node *expr1 = new_binary(ND_ASSIGN, new_var_node(tmp, tok),
+					new_unary(ND_ADDR, base, tok), tok);
+
+	// *tmp
+	struct Node *src = new_unary(ND_DEREF, new_var_node(tmp, tok), tok);
+	struct Node *dst = new_unary(ND_DEREF, new_var_node(tmp, tok), tok);
+	if (is_bitfield) {
+		src = new_unary(ND_MEMBER, src, tok);
+		src->member = node->member;
+		dst = new_unary(ND_MEMBER, dst, tok);
+		dst->member = node->member;
+	}
+
+	// old = *tmp
+	struct Node *expr2 = new_binary(ND_ASSIGN, new_var_node(old, tok), src, tok);
+
+	// *tmp = old + addend
+	struct Node *expr3 = new_binary(ND_ASSIGN, dst,
+					new_add(new_var_node(old, tok),
+						new_num(addend, tok), tok),
+					tok);
+
+	// expr1, expr2, expr3, (typeof A)old
+	return new_binary(ND_COMMA, expr1,
+			  new_binary(ND_COMMA, expr2,
+				     new_binary(ND_COMMA, expr3,
+						new_cast(new_var_node(old, tok), node->ty),
+						tok),
+				     tok),
+			  tok);
 }
 
 // postfix = "(" type-name ")" "{" initializer-list "}"
-- 
2.43.0


From cce4a76b83c6b818cabb3764f18d3b643f527d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:53 +0000
Subject: [PATCH 009/158] fix: wrap constant expressions to the range of their
 type

~0u, 0u - 1, 1u << 31 and the like were folded as 64-bit numbers.
---
 parser/common.c | 44 ++++++++++++++++++++++++++++----------------
 1 file changed, 28 insertions(+), 16 deletions(-)

diff --git a/parser/common.c b/parser/common.c
index 9f91de0..452016e 100644
--- a/parser/common.c
+++ b/parser/common.c
@@ -40,6 +40,29 @@ static int64_t eval_rval(struct Node *node, const char ***label)
 	}
 }
 
+// Wrap a value around to the range of a given integer type.
+static int64_t wrap_to_type(int64_t val, struct Type *ty)
+{
+	if (!is_integer(ty))
+		return val;
+
+	switch (ty->size) {
+	case 1:
+		return ty->is_unsigned ? (uint8_t)val : (int8_t)val;
+	case 2:
+		return ty->is_unsigned ? (uint16_t)val : (int16_t)val;
+	case 4:
+		if (ty->is_unsigned)
+			return (uint32_t)val;
+		else
+			return (int32_t)val;
+	default:
+		return val;
+	}
+}
+
+static int64_t eval3(struct Node *node, const char ***label);
+
 // Evaluate a given node as a constant expression.
 // A constant expression is either just a number or ptr+n
 // where ptr is a pointer to a global variable and
@@ -53,6 +76,11 @@ int64_t eval2(struct Node *node, const char ***label)
 	if (is_float(node->ty))
 		return eval_double(node);
 
+	return wrap_to_type(eval3(node, label), node->ty);
+}
+
+static int64_t eval3(struct Node *node, const char ***label)
+{
 	int64_t val;
 
 	switch (node->kind) {
@@ -132,22 +160,6 @@ int64_t eval2(struct Node *node, const char ***label)
 
 	case ND_CAST:
 		val = eval2(node->lhs, label);
-
-		if (is_integer(node->ty)) {
-			switch (node->ty->size) {
-			case 1:
-				return node->ty->is_unsigned ? (uint8_t)val : (int8_t)val;
-			case 2:
-				return node->ty->is_unsigned ? (uint16_t)val : (int16_t)val;
-			case 4:
-				if (node->ty->is_unsigned)
-					return (uint32_t)val;
-				else
-					return (int32_t)val;
-			default:
-				break;
-			}
-		}
 		return val;
 
 	case ND_ADDR:
-- 
2.43.0


From 95db3f51e275e71cd9f5fbfe9decdd6979a90708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:53 +0000
Subject: [PATCH 010/158] fix: do not truncate floating-point operands in
 constant comparisons and conditions

---
 parser/common.c | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/parser/common.c b/parser/common.c
index 452016e..79eb7fb 100644
--- a/parser/common.c
+++ b/parser/common.c
@@ -63,6 +63,17 @@ static int64_t wrap_to_type(int64_t val, struct Type *ty)
 
 static int64_t eval3(struct Node *node, const char ***label);
 
+// Evaluate a given scalar as a truth value.
+static bool eval_bool(struct Node *node)
+{
+	add_type(node);
+
+	if (is_float(node->ty))
+		return eval_double(node) != 0;
+
+	return eval(node) != 0;
+}
+
 // Evaluate a given node as a constant expression.
 // A constant expression is either just a number or ptr+n
 // where ptr is a pointer to a global variable and
@@ -124,39 +135,47 @@ static int64_t eval3(struct Node *node, const char ***label)
 		return eval(node->lhs) >> eval(node->rhs);
 
 	case ND_EQ:
+		if (is_float(node->lhs->ty))
+			return eval_double(node->lhs) == eval_double(node->rhs);
 		return eval(node->lhs) == eval(node->rhs);
 
 	case ND_NE:
+		if (is_float(node->lhs->ty))
+			return eval_double(node->lhs) != eval_double(node->rhs);
 		return eval(node->lhs) != eval(node->rhs);
 
 	case ND_LT:
+		if (is_float(node->lhs->ty))
+			return eval_double(node->lhs) < eval_double(node->rhs);
 		if (node->lhs->ty->is_unsigned)
 			return (uint64_t)eval(node->lhs) < (uint64_t)eval(node->rhs);
 		return eval(node->lhs) < eval(node->rhs);
 
 	case ND_LE:
+		if (is_float(node->lhs->ty))
+			return eval_double(node->lhs) <= eval_double(node->rhs);
 		if (node->lhs->ty->is_unsigned)
 			return (uint64_t)eval(node->lhs) <= (uint64_t)eval(node->rhs);
 		return eval(node->lhs) <= eval(node->rhs);
 
 	case ND_COND:
-		return eval(node->cond) ?
+		return eval_bool(node->cond) ?
 		       eval2(node->then, label) : eval2(node->els, label);
 
 	case ND_COMMA:
 		return eval2(node->rhs, label);
 
 	case ND_NOT:
-		return !eval(node->lhs);
+		return !eval_bool(node->lhs);
 
 	case ND_BITNOT:
 		return ~eval(node->lhs);
 
 	case ND_LOGAND:
-		return eval(node->lhs) && eval(node->rhs);
+		return eval_bool(node->lhs) && eval_bool(node->rhs);
 
 	case ND_LOGOR:
-		return eval(node->lhs) || eval(node->rhs);
+		return eval_bool(node->lhs) || eval_bool(node->rhs);
 
 	case ND_CAST:
 		val = eval2(node->lhs, label);
@@ -231,7 +250,7 @@ double eval_double(struct Node *node)
 		return -eval_double(node->lhs);
 
 	case ND_COND:
-		return eval_double(node->cond) ?
+		return eval_bool(node->cond) ?
 			eval_double(node->then) : eval_double(node->els);
 
 	case ND_COMMA:
-- 
2.43.0


From 2ae371a2de3422c88c5532f01193b10941b7e101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:30 +0000
Subject: [PATCH 011/158] fix: convert constants to _Bool and from floating
 point as the run-time conversion does

Constant casts to _Bool kept the low byte, and static initializers stored
the value of the initializer without converting it to the type of the object.
---
 parser/common.c      | 12 ++++++++++++
 parser/initializer.c |  4 ++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/parser/common.c b/parser/common.c
index 79eb7fb..601b806 100644
--- a/parser/common.c
+++ b/parser/common.c
@@ -178,7 +178,19 @@ static int64_t eval3(struct Node *node, const char ***label)
 		return eval_bool(node->lhs) || eval_bool(node->rhs);
 
 	case ND_CAST:
+		if (is_float(node->lhs->ty)) {
+			double fval = eval_double(node->lhs);
+
+			if (node->ty->kind == TY_BOOL)
+				return fval != 0;
+			if (node->ty->is_unsigned && node->ty->size == 8)
+				return (uint64_t)fval;
+			return fval;
+		}
+
 		val = eval2(node->lhs, label);
+		if (node->ty->kind == TY_BOOL && !(label && *label))
+			return val != 0;
 		return val;
 
 	case ND_ADDR:
diff --git a/parser/initializer.c b/parser/initializer.c
index ddf1c6e..6c33e13 100644
--- a/parser/initializer.c
+++ b/parser/initializer.c
@@ -669,7 +669,7 @@ static struct Relocation *write_gvar_data(struct Relocation *cur,
 				char *loc = buf + offset + mem->offset;
 
 				uint64_t oldval = read_buf(loc, mem->ty->size);
-				uint64_t newval = eval(expr);
+				uint64_t newval = eval(new_cast(expr, mem->ty));
 				uint64_t mask = (1L << mem->bit_width) - 1;
 				uint64_t combined = oldval | ((newval & mask) << mem->bit_offset);
 
@@ -704,7 +704,7 @@ static struct Relocation *write_gvar_data(struct Relocation *cur,
 	}
 
 	const char **label = NULL;
-	uint64_t val = eval2(init->expr, &label);
+	uint64_t val = eval2(new_cast(init->expr, ty), &label);
 
 	if (!label) {
 		write_buf(buf + offset, val, ty->size);
-- 
2.43.0


From 1af40742348c2cc05d4d3be134ae16309b486121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:45 +0000
Subject: [PATCH 012/158] fix: fold float constants in float precision and
 unsigned ones as unsigned

---
 parser/common.c | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/parser/common.c b/parser/common.c
index 601b806..ed4d0fb 100644
--- a/parser/common.c
+++ b/parser/common.c
@@ -234,7 +234,17 @@ int64_t eval(struct Node *node)
 	return eval2(node, NULL);
 }
 
+static double eval_double2(struct Node *node);
+
 double eval_double(struct Node *node)
+{
+	double val = eval_double2(node);
+
+	// a float has no more precision than a float
+	return node->ty->kind == TY_FLOAT ? (float)val : val;
+}
+
+static double eval_double2(struct Node *node)
 {
 	add_type(node);
 
@@ -269,9 +279,13 @@ double eval_double(struct Node *node)
 		return eval_double(node->rhs);
 
 	case ND_CAST:
-		if (is_float(node->lhs->ty))
-			return eval_double(node->lhs);
-		return eval(node->lhs);
+		if (node->ty->kind == TY_FLOAT && is_integer(node->lhs->ty)) {
+			// round only once
+			if (node->lhs->ty->is_unsigned)
+				return (float)(uint64_t)eval(node->lhs);
+			return (float)eval(node->lhs);
+		}
+		return eval_double(node->lhs);
 
 	case ND_NUM:
 		return node->fval;
-- 
2.43.0


From d484a5776495cb7a19043a8c9b87c819ceb3617b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:06 +0000
Subject: [PATCH 013/158] fix: diagnose division by zero and addresses in
 integer constant expressions

The compiler was killed by SIGFPE or SIGSEGV instead.
---
 parser/common.c | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/parser/common.c b/parser/common.c
index ed4d0fb..9e7a227 100644
--- a/parser/common.c
+++ b/parser/common.c
@@ -20,7 +20,7 @@ static int64_t eval_rval(struct Node *node, const char ***label)
 {
 	switch (node->kind) {
 		case ND_VAR:
-			if (node->var->is_local)
+			if (node->var->is_local || !label)
 				error_tok(node->tok, "not a compile-time constant");
 
 			// return variable name
@@ -105,17 +105,29 @@ static int64_t eval3(struct Node *node, const char ***label)
 		return eval(node->lhs) * eval(node->rhs);
 
 	case ND_DIV:
+		val = eval(node->rhs);
+		if (!val)
+			error_tok(node->tok, "division by zero in a constant expression");
 		if (node->ty->is_unsigned)
-			return (uint64_t)eval(node->lhs) / eval(node->rhs);
-		return eval(node->lhs) / eval(node->rhs);
+			return (uint64_t)eval(node->lhs) / val;
+		if (val == -1)
+			// the host traps on the minimum value
+			return -eval(node->lhs);
+		return eval(node->lhs) / val;
 
 	case ND_NEG:
 		return -eval(node->lhs);
 
 	case ND_MOD:
+		val = eval(node->rhs);
+		if (!val)
+			error_tok(node->tok, "division by zero in a constant expression");
 		if (node->ty->is_unsigned)
-			return (uint64_t)eval(node->lhs) % eval(node->rhs);
-		return eval(node->lhs) % eval(node->rhs);
+			return (uint64_t)eval(node->lhs) % val;
+		if (val == -1)
+			// the host traps on the minimum value
+			return 0;
+		return eval(node->lhs) % val;
 
 	case ND_BITAND:
 		return eval(node->lhs) & eval(node->rhs);
@@ -198,6 +210,8 @@ static int64_t eval3(struct Node *node, const char ***label)
 		return eval_rval(node->lhs, label);
 
 	case ND_LABEL_VAL:
+		if (!label)
+			error_tok(node->tok, "not a compile-time constant");
 		*label = &node->unique_label;
 		return 0;
 
-- 
2.43.0


From 9115f5d152a259f9b59b792da7accc9f13ca8aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:21 +0000
Subject: [PATCH 014/158] fix: an array dimension using % or offsetof is a
 constant, not a VLA length

---
 parser/declarator.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/parser/declarator.c b/parser/declarator.c
index 7c325b4..08eac53 100644
--- a/parser/declarator.c
+++ b/parser/declarator.c
@@ -726,6 +726,7 @@ static bool is_const_expr(struct Node *node)
 	case ND_SUB:
 	case ND_MUL:
 	case ND_DIV:
+	case ND_MOD:
 	case ND_BITAND:
 	case ND_BITOR:
 	case ND_BITXOR:
@@ -757,6 +758,13 @@ static bool is_const_expr(struct Node *node)
 	case ND_NUM:
 		return true;
 
+	case ND_ADDR:
+		// offsetof
+		node = node->lhs;
+		while (node->kind == ND_MEMBER)
+			node = node->lhs;
+		return node->kind == ND_DEREF && is_const_expr(node->lhs);
+
 	default:
 		break;
 	}
-- 
2.43.0


From 62cb2f52759659fd5ee9a7a75ef408e68a7a3107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:47 +0000
Subject: [PATCH 015/158] fix: evaluate #if expressions in intmax_t and
 uintmax_t

---
 preprocessor/preprocess.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/preprocessor/preprocess.c b/preprocessor/preprocess.c
index ebad4a3..1b1f309 100644
--- a/preprocessor/preprocess.c
+++ b/preprocessor/preprocess.c
@@ -197,6 +197,12 @@ static long eval_const_expr(struct Token **rest, struct Token *tok)
 	// Convert pp-numbers to regular numbers
 	convert_pp_tokens(expr);
 
+	// All integers are intmax_t or uintmax_t in the preprocessor.
+	// Reference: [https://www.sigbus.info/n1570#6.10.1p4]
+	for (struct Token *t = expr; t->kind != TK_EOF; t = t->next)
+		if (t->kind == TK_NUM && is_integer(t->ty))
+			t->ty = t->ty->is_unsigned ? p_ty_ulong() : p_ty_long();
+
 	struct Token *rest2;
 	long val = const_expr(&rest2, expr);
 
-- 
2.43.0


From 088b7f364f9c38bc6ee3829b2d03f9160c26e3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:23 +0000
Subject: [PATCH 016/158] fix: convert case labels to the promoted type of the
 controlling expression

Labels were truncated to int, so long labels collided and labels of an
unsigned switch with the high bit set never matched.
---
 codegen.c       |  6 ++++--
 parser/parser.c | 21 +++++++++++++++++----
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/codegen.c b/codegen.c
index dc2cd00..ec7cbf2 100644
--- a/codegen.c
+++ b/codegen.c
@@ -1727,9 +1727,11 @@ static void gen_stmt(struct Node *node)
 			println("\tmv t1, a0");
 			println("\tli t0, %ld", n->begin);
 			// t1 = val - begin
-			println("\tsub t1, t1, t0");
+			const char *w = node->cond->ty->size == sizeof(int) ? "w" : "";
+			println("\tsub%s t1, t1, t0", w);
 			// t2 = end - begin
-			println("\tli t2, %ld", n->end - n->begin);
+			println("\tli t2, %ld", n->end);
+			println("\tsub%s t2, t2, t0", w);
 
 			// If 0 <= val - begin <= end - begin,
 			// then jump into the case label.
diff --git a/parser/parser.c b/parser/parser.c
index f34007d..882b568 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -1166,6 +1166,15 @@ static struct Node *asm_stmt(struct Token **rest, struct Token *tok)
 	return node;
 }
 
+// A case label is converted to the promoted type of the controlling
+// expression. 32-bit values are kept sign-extended as in registers.
+static long case_value(struct Token **rest, struct Token *tok)
+{
+	long val = const_expr(rest, tok);
+
+	return current_switch->cond->ty->size == 8 ? val : (int)val;
+}
+
 // stmt = "return" expr? ";"
 // 	| "if" "(" expr ")" stmt ("else" stmt)?
 //	| "switch" "(" expr ")" stmt
@@ -1221,6 +1230,8 @@ static struct Node *stmt(struct Token **rest, struct Token *tok)
 
 		tok = skip(tok->next, "(");
 		n->cond = expr(&tok, tok);
+		add_type(n->cond);
+		n->cond = new_cast(n->cond, promoted_type(n->cond));
 		tok = skip(tok, ")");
 
 		struct Node *sw_prev = current_switch;
@@ -1242,13 +1253,15 @@ static struct Node *stmt(struct Token **rest, struct Token *tok)
 			error_tok(tok, "stray case");
 
 		struct Node *n = new_node(ND_CASE, tok);
-		int begin = const_expr(&tok, tok->next);
-		int end;
+		long begin = case_value(&tok, tok->next);
+		long end;
 
 		if (equal(tok, "...")) {
 			// [GNU] Case ranges, e.g. "case 1 ... 5:"
-			end = const_expr(&tok, tok->next);
-			if (end < begin)
+			end = case_value(&tok, tok->next);
+			if (current_switch->cond->ty->is_unsigned ?
+			    (unsigned long)end < (unsigned long)begin :
+			    end < begin)
 				error_tok(tok, "empty case range specified");
 		} else {
 			end = begin;
-- 
2.43.0


From b47cbbb4e928283341fba02fa64b6c9bae8ef361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:42 +0000
Subject: [PATCH 017/158] fix: accept an element of a multi-dimensional array
 as an address constant

---
 parser/common.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parser/common.c b/parser/common.c
index 9e7a227..45bebe1 100644
--- a/parser/common.c
+++ b/parser/common.c
@@ -224,6 +224,12 @@ static int64_t eval3(struct Node *node, const char ***label)
 		// return address
 		return eval_rval(node->lhs, label) + node->member->offset;
 
+	case ND_DEREF:
+		// an element that is itself an array decays to its address
+		if (node->ty->kind != TY_ARRAY)
+			error_tok(node->tok, "not a compile-time constant");
+		return eval2(node->lhs, label);
+
 	case ND_VAR:
 		if (!label)
 			error_tok(node->tok, "not a compile-time constant");
-- 
2.43.0


From b646f5e3d1f6dd21440c6155b5e6cb3cfd7a5675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:42 +0000
Subject: [PATCH 018/158] fix: zero the parts of a static object that have no
 initializer

The buffer was malloc'ed, so they held whatever the heap held.
---
 parser/initializer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/initializer.c b/parser/initializer.c
index 6c33e13..00eceb1 100644
--- a/parser/initializer.c
+++ b/parser/initializer.c
@@ -729,7 +729,7 @@ void gvar_initializer(struct Token **rest, struct Token *tok,
 {
 	struct Initializer *init = initializer(rest, tok, var->ty, &var->ty);
 	struct Relocation head = {};
-	char *buf = malloc(var->ty->size);
+	char *buf = calloc(1, var->ty->size);
 
 	write_gvar_data(&head, init, var->ty, buf, 0);
 	var->init_data = buf;
-- 
2.43.0


From 21e02f3c1bdc6e84d3de8f2355a755a7e5a0cdea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:42 +0000
Subject: [PATCH 019/158] fix: round an integer initializer of a float object
 only once

---
 parser/initializer.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/initializer.c b/parser/initializer.c
index 00eceb1..52b04ce 100644
--- a/parser/initializer.c
+++ b/parser/initializer.c
@@ -694,12 +694,12 @@ static struct Relocation *write_gvar_data(struct Relocation *cur,
 		return cur;
 
 	if (ty->kind == TY_FLOAT) {
-		*(float *)(buf + offset) = eval_double(init->expr);
+		*(float *)(buf + offset) = eval_double(new_cast(init->expr, ty));
 		return cur;
 	}
 
 	if (ty->kind == TY_DOUBLE) {
-		*(double *)(buf + offset) = eval_double(init->expr);
+		*(double *)(buf + offset) = eval_double(new_cast(init->expr, ty));
 		return cur;
 	}
 
-- 
2.43.0


From cb0fb7952f31fdc1ef020dc34c01e43255ab12f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:16 +0000
Subject: [PATCH 020/158] fix: a hexadecimal or octal number in #if is signed
 when it fits in intmax_t

---
 preprocessor/preprocess.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/preprocessor/preprocess.c b/preprocessor/preprocess.c
index 1b1f309..6e4a642 100644
--- a/preprocessor/preprocess.c
+++ b/preprocessor/preprocess.c
@@ -199,9 +199,19 @@ static long eval_const_expr(struct Token **rest, struct Token *tok)
 
 	// All integers are intmax_t or uintmax_t in the preprocessor.
 	// Reference: [https://www.sigbus.info/n1570#6.10.1p4]
-	for (struct Token *t = expr; t->kind != TK_EOF; t = t->next)
-		if (t->kind == TK_NUM && is_integer(t->ty))
-			t->ty = t->ty->is_unsigned ? p_ty_ulong() : p_ty_long();
+	for (struct Token *t = expr; t->kind != TK_EOF; t = t->next) {
+		if (t->kind != TK_NUM || !is_integer(t->ty))
+			continue;
+
+		bool is_unsigned = t->ty->is_unsigned;
+
+		// An octal or hexadecimal number that fits in intmax_t
+		// is unsigned only if its suffix says so.
+		if (isdigit(*t->loc) && t->val >= 0)
+			is_unsigned = strpbrk(strndup(t->loc, t->len), "uU");
+
+		t->ty = is_unsigned ? p_ty_ulong() : p_ty_long();
+	}
 
 	struct Token *rest2;
 	long val = const_expr(&rest2, expr);
-- 
2.43.0


From 4f1fd5b401a6054d7730ee8364fd7ed73e708c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:49 +0000
Subject: [PATCH 021/158] fix: allow postfix operators directly after a
 compound literal

---
 parser/parser.c | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/parser/parser.c b/parser/parser.c
index 882b568..fef8699 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -565,6 +565,8 @@ static struct Node *new_inc_dec(struct Node *node, struct Token *tok, int addend
 //              | "--"
 static struct Node *postfix(struct Token **rest, struct Token *tok)
 {
+	struct Node *node;
+
 	if (equal(tok, "(") && is_typename(tok->next)) {
 		// Compound literal
 		struct Token *start = tok;
@@ -574,19 +576,19 @@ static struct Node *postfix(struct Token **rest, struct Token *tok)
 		if (is_global_scope()) {
 			// never enter scope, so allocate global var
 			struct Obj *var = new_anon_gvar(ty);
-			gvar_initializer(rest, tok, var);
-			return new_var_node(var, start);
+			gvar_initializer(&tok, tok, var);
+			node = new_var_node(var, start);
+		} else {
+			struct Obj *var = new_lvar("", ty);
+			struct Node *lhs = lvar_initializer(&tok, tok, var);
+			// refer to var self under dereference case
+			struct Node *rhs = new_var_node(var, tok);
+			node = new_binary(ND_COMMA, lhs, rhs, start);
 		}
-
-		struct Obj *var = new_lvar("", ty);
-		struct Node *lhs = lvar_initializer(rest, tok, var);
-		// refer to var self under dereference case
-		struct Node *rhs = new_var_node(var, tok);
-		return new_binary(ND_COMMA, lhs, rhs, start);
+	} else {
+		node = primary(&tok, tok);
 	}
 
-	struct Node *node = primary(&tok, tok);
-
 	while (1) {
 		if (equal(tok, "(")) {
 			node = funcall(&tok, tok->next, node);
-- 
2.43.0


From 01f14b0f0f5243f9e3121a72a576b10112ac9faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:48 +0000
Subject: [PATCH 022/158] fix: give conditional expressions with pointer, array
 or struct operands their C type

---
 type.c | 34 +++++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/type.c b/type.c
index 2ee0fbf..14b4960 100644
--- a/type.c
+++ b/type.c
@@ -294,9 +294,10 @@ static struct Type *get_common_type(struct Type *ty1, struct Type *ty2)
 {
 	if (ty1->base)
 		return pointer_to(ty1->base);
-
 	if (ty1->kind == TY_FUNC)
 		return pointer_to(ty1);
+	if (ty2->base)
+		return pointer_to(ty2->base);
 	if (ty2->kind == TY_FUNC)
 		return pointer_to(ty2);
 
@@ -346,6 +347,30 @@ static void usual_arith_conv(struct Node **lhs, struct Node **rhs)
 	*rhs = new_cast(*rhs, ty);
 }
 
+static bool is_void_ptr(struct Type *ty)
+{
+	return ty->kind == TY_PTR && ty->base->kind == TY_VOID;
+}
+
+static bool is_null_ptr_const(struct Node *node)
+{
+	if (node->kind == ND_CAST && is_void_ptr(node->ty))
+		node = node->lhs;
+
+	return node->kind == ND_NUM && is_integer(node->ty) && node->val == 0;
+}
+
+// The type of `then : els`, neither of which is void or a struct.
+static struct Type *get_cond_type(struct Node *then, struct Node *els)
+{
+	// a null pointer constant takes the type of the other operand,
+	// any other void pointer makes the result a void pointer
+	if (is_null_ptr_const(then) ||
+	    (is_void_ptr(els->ty) && !is_null_ptr_const(els)))
+		return get_common_type(els->ty, then->ty);
+
+	return get_common_type(then->ty, els->ty);
+}
 
 void add_type(struct Node *node)
 {
@@ -431,9 +456,12 @@ void add_type(struct Node *node)
 	case ND_COND:
 		if (node->then->ty->kind == TY_VOID || node->els->ty->kind == TY_VOID) {
 			node->ty = p_ty_void();
-		} else {
-			usual_arith_conv(&node->then, &node->els);
+		} else if (is_struct_union(node->then->ty)) {
 			node->ty = node->then->ty;
+		} else {
+			node->ty = get_cond_type(node->then, node->els);
+			node->then = new_cast(node->then, node->ty);
+			node->els = new_cast(node->els, node->ty);
 		}
 		break;
 
-- 
2.43.0


From dc90e782a53596149a5b9995d2ad4bf2ca4e6730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:46 +0000
Subject: [PATCH 023/158] fix: an array or function decays to a pointer as the
 right operand of a comma

---
 parser/parser.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/parser/parser.c b/parser/parser.c
index fef8699..bf672ec 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -1109,8 +1109,18 @@ struct Node *expr(struct Token **rest, struct Token *tok)
 {
 	struct Node *n = assign(&tok, tok);
 
-	if (equal(tok, ","))
-		return new_binary(ND_COMMA, n, expr(rest, tok->next), tok);
+	if (equal(tok, ",")) {
+		struct Node *rhs = expr(rest, tok->next);
+
+		add_type(rhs);
+		// an array or a function decays to a pointer
+		if (rhs->ty->kind == TY_ARRAY)
+			rhs = new_cast(rhs, pointer_to(rhs->ty->base));
+		else if (rhs->ty->kind == TY_FUNC)
+			rhs = new_cast(rhs, pointer_to(rhs->ty));
+
+		return new_binary(ND_COMMA, n, rhs, tok);
+	}
 
 	*rest = tok;
 	return n;
-- 
2.43.0


From 95fd6941fe87be743890e33d5dabe8a458ec0592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:12 +0000
Subject: [PATCH 024/158] fix: unnamed bit-fields do not align their struct and
 may precede a member that is accessed

---
 parser/declarator.c | 14 +++++++++++++-
 parser/parser.c     |  4 ++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/parser/declarator.c b/parser/declarator.c
index 08eac53..6ed46a0 100644
--- a/parser/declarator.c
+++ b/parser/declarator.c
@@ -212,7 +212,10 @@ static struct Type *struct_decl(struct Token **rest, struct Token *tok)
 			bits += mem->ty->size * 8;
 		}
 
-		// align of struct is max among each member's alignment
+		// align of struct is max among each member's alignment,
+		// to which an unnamed bitfield does not contribute
+		if (mem->is_bitfield && !mem->name)
+			continue;
 		if (!ty->is_packed && ty->align < mem->align)
 			ty->align = mem->align;
 	}
@@ -234,6 +237,15 @@ static struct Type *union_decl(struct Token **rest, struct Token *tok)
 	// are already initialized to 0.
 	// We need to compute the alignment and the size though.
 	for (struct Member *mem = ty->members; mem; mem = mem->next) {
+		// An unnamed bitfield only takes up its own bits.
+		if (mem->is_bitfield && !mem->name) {
+			int sz = align_to(mem->bit_width, 8) / 8;
+
+			if (ty->size < sz)
+				ty->size = sz;
+			continue;
+		}
+
 		if (ty->align < mem->align)
 			ty->align = mem->align;
 		if (ty->size < mem->ty->size)
diff --git a/parser/parser.c b/parser/parser.c
index bf672ec..725486c 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -314,8 +314,8 @@ struct Member *get_struct_member(struct Type *ty, struct Token *tok)
 			continue;
 		}
 
-		// Regular struct member
-		if (mem->name->len == tok->len &&
+		// Regular struct member, or an unnamed bitfield
+		if (mem->name && mem->name->len == tok->len &&
 		   !strncmp(mem->name->loc, tok->loc, tok->len))
 			return mem;
 	}
-- 
2.43.0


From bd76b531a87dadc481d14e2a75200bf399a9d596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:22 +0000
Subject: [PATCH 025/158] fix: read, write and yield the value of 64-bit wide
 and _Bool bit-fields correctly

---
 codegen.c | 39 +++++++++++++++++++++++----------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/codegen.c b/codegen.c
index ec7cbf2..ed7da5d 100644
--- a/codegen.c
+++ b/codegen.c
@@ -964,6 +964,21 @@ static void builtin_alloca(void)
 	println("\tsd a0, (t5)");
 }
 
+// Extract the value of a bitfield whose lowest bit is bit `offset` of a0.
+static void extract_bitfield(struct Member *mem, int offset)
+{
+	// Clear unused high bits of field member variables
+	println("\tslli a0, a0, %d", 64 - mem->bit_width - offset);
+	// Clear unused low bits of field member variables
+	if (mem->ty->is_unsigned || mem->ty->kind == TY_BOOL)
+		println("\tsrli a0, a0, %d", 64 - mem->bit_width);
+	else
+		println("\tsrai a0, a0, %d", 64 - mem->bit_width);
+	// 32-bit values are kept sign-extended
+	if (mem->bit_width == 32 && mem->ty->size == sizeof(int))
+		println("\tsext.w a0, a0");
+}
+
 // Generate code for a given node.
 static void gen_expr(struct Node *node)
 {
@@ -1057,18 +1072,8 @@ static void gen_expr(struct Node *node)
 		load(node->ty);
 
 		struct Member *mem = node->member;
-		if (mem->is_bitfield) {
-			// Clear unused high bits of field member variables
-			println("\tslli a0, a0, %d", 64 - mem->bit_width - mem->bit_offset);
-			// Clear unused low bits of field member variables
-			if (mem->ty->is_unsigned)
-				println("\tsrli a0, a0, %d", 64 - mem->bit_width);
-			else
-				println("\tsrai a0, a0, %d", 64 - mem->bit_width);
-			// 32-bit values are kept sign-extended
-			if (mem->bit_width == 32 && mem->ty->size == sizeof(int))
-				println("\tsext.w a0, a0");
-		}
+		if (mem->is_bitfield)
+			extract_bitfield(mem, mem->bit_offset);
 		return;
 
 	case ND_DEREF:
@@ -1099,11 +1104,12 @@ static void gen_expr(struct Node *node)
 			// the current value from memory and merge it
 			// with a new value.
 			struct Member *mem = node->lhs->member;
+			unsigned long mask = ~0UL >> (64 - mem->bit_width);
 
 			debug("merge new value into bit_field");
 
 			println("\tmv t0, a0");
-			println("\tli t1, %ld", (1L << mem->bit_width) - 1);
+			println("\tli t1, %ld", mask);
 			println("\tand t0, t0, t1");
 
 			println("\tslli t0, t0, %d", mem->bit_offset);
@@ -1112,8 +1118,7 @@ static void gen_expr(struct Node *node)
 			println("\tld a0, (sp)");
 			load(mem->ty);
 
-			long mask = ((1L << mem->bit_width) - 1) << mem->bit_offset;
-			println("\tli t1, %ld", ~mask);
+			println("\tli t1, %ld", ~(mask << mem->bit_offset));
 
 			println("\tand a0, a0, t1");
 			println("\tor a0, a0, t0");
@@ -1121,8 +1126,10 @@ static void gen_expr(struct Node *node)
 
 			debug("merge new value into bit_field end");
 
-			// restore value of the bitfield
+			// The value of the assignment is that of the
+			// bitfield after the assignment.
 			println("\tmv a0, t2");
+			extract_bitfield(mem, 0);
 			debug("end ND_ASSIGN var");
 			return;
 		}
-- 
2.43.0


From b43648cf101f7b2c7411c2e5b0609515730a7282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:46 +0000
Subject: [PATCH 026/158] fix: promote bit-fields that fit in an int to int

---
 type.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/type.c b/type.c
index 14b4960..8708231 100644
--- a/type.c
+++ b/type.c
@@ -329,6 +329,11 @@ struct Type *promoted_type(struct Node *node)
 	if (is_integer(node->ty) && node->ty->size < 4)
 		return p_ty_int();
 
+	// a bitfield all of whose values an int can represent
+	if (node->kind == ND_MEMBER && node->member->is_bitfield &&
+	    node->member->bit_width < 32 + !node->ty->is_unsigned)
+		return p_ty_int();
+
 	return node->ty;
 }
 
@@ -341,7 +346,7 @@ struct Type *promoted_type(struct Node *node)
 // This operation is called the "usual arithmetic conversion".
 static void usual_arith_conv(struct Node **lhs, struct Node **rhs)
 {
-	struct Type *ty = get_common_type((*lhs)->ty, (*rhs)->ty);
+	struct Type *ty = get_common_type(promoted_type(*lhs), promoted_type(*rhs));
 
 	*lhs = new_cast(*lhs, ty);
 	*rhs = new_cast(*rhs, ty);
@@ -367,9 +372,9 @@ static struct Type *get_cond_type(struct Node *then, struct Node *els)
 	// any other void pointer makes the result a void pointer
 	if (is_null_ptr_const(then) ||
 	    (is_void_ptr(els->ty) && !is_null_ptr_const(els)))
-		return get_common_type(els->ty, then->ty);
+		return get_common_type(promoted_type(els), promoted_type(then));
 
-	return get_common_type(then->ty, els->ty);
+	return get_common_type(promoted_type(then), promoted_type(els));
 }
 
 void add_type(struct Node *node)
@@ -408,7 +413,7 @@ void add_type(struct Node *node)
 		break;
 
 	case ND_NEG: {
-		struct Type *ty = get_common_type(p_ty_int(), node->lhs->ty);
+		struct Type *ty = get_common_type(p_ty_int(), promoted_type(node->lhs));
 		node->lhs = new_cast(node->lhs, ty);
 		node->ty = ty;
 		break;
-- 
2.43.0


From 325cbeeddaa3a62c824d0c8de07447d48e3eb430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:15 +0000
Subject: [PATCH 027/158] fix: initialize bit-fields after an omitted one, in
 unions and next to unnamed ones

---
 parser/initializer.c | 59 +++++++++++++++++++++++++++++---------------
 1 file changed, 39 insertions(+), 20 deletions(-)

diff --git a/parser/initializer.c b/parser/initializer.c
index 52b04ce..5517164 100644
--- a/parser/initializer.c
+++ b/parser/initializer.c
@@ -150,8 +150,8 @@ static struct Member *struct_designator(struct Token **rest,
 		error_tok(tok, "expected a field designator");
 
 	for (struct Member *mem = ty->members; mem; mem = mem->next) {
-		// Anonymous struct member
-		if (mem->ty->kind == TY_STRUCT && !mem->name) {
+		// Anonymous struct or union member
+		if (is_struct_union(mem->ty) && !mem->name) {
 			// search the member's children
 			if (get_struct_member(mem->ty, tok)) {
 				*rest = start;
@@ -161,8 +161,8 @@ static struct Member *struct_designator(struct Token **rest,
 			continue;
 		}
 
-		// Regular struct member
-		if (mem->name->len == tok->len &&
+		// Regular struct member, or an unnamed bitfield
+		if (mem->name && mem->name->len == tok->len &&
 		   !strncmp(mem->name->loc, tok->loc, tok->len)) {
 			*rest = tok->next;
 			return mem;
@@ -172,6 +172,15 @@ static struct Member *struct_designator(struct Token **rest,
 	error_tok(tok, "struct has no such member");
 }
 
+// Unnamed bitfields take no part in initialization.
+static struct Member *skip_unnamed_bitfield(struct Member *mem)
+{
+	while (mem && mem->is_bitfield && !mem->name)
+		mem = mem->next;
+
+	return mem;
+}
+
 static void array_initializer2(struct Token **rest, struct Token *tok,
 				struct Initializer *init, int i);
 static void struct_initializer2(struct Token **rest, struct Token *tok,
@@ -356,6 +365,7 @@ static void struct_initializer1(struct Token **rest, struct Token *tok,
 			continue;
 		}
 
+		mem = skip_unnamed_bitfield(mem);
 		if (mem) {
 			initializer2(&tok, tok, init->children[mem->idx]);
 			mem = mem->next;
@@ -372,7 +382,8 @@ static void struct_initializer2(struct Token **rest, struct Token *tok,
 {
 	bool first = true;
 
-	for (; mem && !is_end(tok); mem = mem->next) {
+	mem = skip_unnamed_bitfield(mem);
+	for (; mem && !is_end(tok); mem = skip_unnamed_bitfield(mem->next)) {
 		struct Token *start = tok;
 
 		if (!first)
@@ -409,13 +420,13 @@ static void union_initializer(struct Token **rest, struct Token *tok,
 		return;
 	}
 
-	// set initializer's first member in default
-	init->mem = init->ty->members;
+	// set initializer's first named member in default
+	init->mem = skip_unnamed_bitfield(init->ty->members);
 
 	if (parentheses)
 		tok = tok->next;
 
-	initializer2(&tok, tok, init->children[0]);
+	initializer2(&tok, tok, init->children[init->mem->idx]);
 
 	if (parentheses) {
 		consume(&tok, tok, ",");
@@ -646,6 +657,21 @@ static uint64_t read_buf(const char *buf, int sz)
 	unreachable();
 }
 
+static void write_bitfield(struct Initializer *init, struct Member *mem, char *buf)
+{
+	if (!init->expr)
+		return;
+
+	char *loc = buf + mem->offset;
+
+	uint64_t oldval = read_buf(loc, mem->ty->size);
+	uint64_t newval = eval(new_cast(init->expr, mem->ty));
+	uint64_t mask = ~0UL >> (64 - mem->bit_width);
+	uint64_t combined = oldval | ((newval & mask) << mem->bit_offset);
+
+	write_buf(loc, combined, mem->ty->size);
+}
+
 static struct Relocation *write_gvar_data(struct Relocation *cur,
 					  struct Initializer *init,
 					  struct Type *ty, char *buf,
@@ -662,18 +688,7 @@ static struct Relocation *write_gvar_data(struct Relocation *cur,
 	if (ty->kind == TY_STRUCT) {
 		for (struct Member *mem = ty->members; mem; mem = mem->next) {
 			if (mem->is_bitfield) {
-				struct Node *expr = init->children[mem->idx]->expr;
-				if (!expr)
-					break;
-
-				char *loc = buf + offset + mem->offset;
-
-				uint64_t oldval = read_buf(loc, mem->ty->size);
-				uint64_t newval = eval(new_cast(expr, mem->ty));
-				uint64_t mask = (1L << mem->bit_width) - 1;
-				uint64_t combined = oldval | ((newval & mask) << mem->bit_offset);
-
-				write_buf(loc, combined, mem->ty->size);
+				write_bitfield(init->children[mem->idx], mem, buf + offset);
 			} else {
 				cur = write_gvar_data(cur, init->children[mem->idx],
 						mem->ty, buf, offset + mem->offset);
@@ -686,6 +701,10 @@ static struct Relocation *write_gvar_data(struct Relocation *cur,
 		// no handle and just leave it to caller
 		if (!init->mem)
 			return cur;
+		if (init->mem->is_bitfield) {
+			write_bitfield(init->children[init->mem->idx], init->mem, buf + offset);
+			return cur;
+		}
 		return write_gvar_data(cur, init->children[init->mem->idx],
 					init->mem->ty, buf, offset);
 	}
-- 
2.43.0


From 938dc51766bd635be23a04417345867a63b5f7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:41 +0000
Subject: [PATCH 028/158] fix: continue an initializer list after a nested
 member designator

---
 parser/initializer.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/initializer.c b/parser/initializer.c
index 5517164..f12f4c0 100644
--- a/parser/initializer.c
+++ b/parser/initializer.c
@@ -380,7 +380,8 @@ static void struct_initializer1(struct Token **rest, struct Token *tok,
 static void struct_initializer2(struct Token **rest, struct Token *tok,
 				struct Initializer *init, struct Member *mem)
 {
-	bool first = true;
+	// The list goes on after a preceding member.
+	bool first = mem == init->ty->members;
 
 	mem = skip_unnamed_bitfield(mem);
 	for (; mem && !is_end(tok); mem = skip_unnamed_bitfield(mem->next)) {
-- 
2.43.0


From efe2184a4e5b82ba6f4aac10632f1fa9cb20316e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:55 +0000
Subject: [PATCH 029/158] fix: accept a string literal in braces for a char
 array, and without braces for an array of pointers

---
 parser/initializer.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/parser/initializer.c b/parser/initializer.c
index f12f4c0..da2eddf 100644
--- a/parser/initializer.c
+++ b/parser/initializer.c
@@ -443,9 +443,20 @@ static void union_initializer(struct Token **rest, struct Token *tok,
 static void initializer2(struct Token **rest, struct Token *tok,
 			 struct Initializer *init)
 {
-	if (init->ty->kind == TY_ARRAY && tok->kind == TK_STR) {
-		string_initializer(rest, tok, init);
-		return;
+	if (init->ty->kind == TY_ARRAY && is_integer(init->ty->base)) {
+		if (tok->kind == TK_STR) {
+			string_initializer(rest, tok, init);
+			return;
+		}
+
+		// A string literal can be surrounded by braces.
+		if (equal(tok, "{") && tok->next->kind == TK_STR &&
+		    is_end(tok->next->next)) {
+			string_initializer(&tok, tok->next, init);
+			consume(&tok, tok, ",");
+			*rest = skip(tok, "}");
+			return;
+		}
 	}
 
 	if (init->ty->kind == TY_ARRAY) {
-- 
2.43.0


From 9f47d2b8a0d237cfaa2d6876cdd36d10b3d66acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:13 +0000
Subject: [PATCH 030/158] fix: initialize a union from an expression of union
 type and by several designators

---
 parser/initializer.c | 70 +++++++++++++++++++++++++++++++-------------
 1 file changed, 50 insertions(+), 20 deletions(-)

diff --git a/parser/initializer.c b/parser/initializer.c
index da2eddf..bc092d9 100644
--- a/parser/initializer.c
+++ b/parser/initializer.c
@@ -45,6 +45,24 @@ static struct Initializer *new_initializer(struct Type *ty, bool is_flexible)
 	return init;
 }
 
+// Forget what has been assigned to an object so far.
+static void reset_initializer(struct Initializer *init)
+{
+	init->expr = NULL;
+	init->mem = NULL;
+
+	if (!init->children)
+		return;
+
+	if (init->ty->kind == TY_ARRAY)
+		for (int i = 0; i < init->ty->array_len; i++)
+			reset_initializer(init->children[i]);
+
+	if (is_struct_union(init->ty))
+		for (struct Member *mem = init->ty->members; mem; mem = mem->next)
+			reset_initializer(init->children[mem->idx]);
+}
+
 static struct Token *skip_excess_element(struct Token *tok)
 {
 	if (equal(tok, "{")) {
@@ -220,6 +238,10 @@ static void designation(struct Token **rest, struct Token *tok, struct Initializ
 
 	if (equal(tok, ".") && init->ty->kind == TY_UNION) {
 		struct Member *mem = struct_designator(&tok, tok, init->ty);
+
+		// only the last member that is initialized counts
+		if (init->mem != mem || init->expr)
+			reset_initializer(init);
 		init->mem = mem;
 
 		designation(rest, tok, init->children[mem->idx]);
@@ -410,31 +432,39 @@ static void struct_initializer2(struct Token **rest, struct Token *tok,
 static void union_initializer(struct Token **rest, struct Token *tok,
 			      struct Initializer *init)
 {
-	bool parentheses = equal(tok, "{");
+	if (equal(tok, "{")) {
+		bool first = true;
 
-	if (parentheses && equal(tok->next, ".")) {
-		struct Member *mem = struct_designator(&tok, tok->next, init->ty);
-		init->mem = mem;
+		tok = tok->next;
+		while (!consume_end(rest, tok)) {
+			if (!first)
+				tok = skip(tok, ",");
+
+			if (equal(tok, ".")) {
+				designation(&tok, tok, init);
+			} else if (first) {
+				// set initializer's first named member in default
+				init->mem = skip_unnamed_bitfield(init->ty->members);
+				initializer2(&tok, tok, init->children[init->mem->idx]);
+			} else {
+				// ignore excess elements
+				tok = skip_excess_element(tok);
+			}
+			first = false;
+		}
+		return;
+	}
 
-		designation(&tok, tok, init->children[mem->idx]);
-		*rest = skip(tok, "}");
+	// A union can be initialized with another union.
+	struct Node *expr = assign(rest, tok);
+	add_type(expr);
+	if (expr->ty->kind == TY_UNION) {
+		init->expr = expr;
 		return;
 	}
 
-	// set initializer's first named member in default
 	init->mem = skip_unnamed_bitfield(init->ty->members);
-
-	if (parentheses)
-		tok = tok->next;
-
-	initializer2(&tok, tok, init->children[init->mem->idx]);
-
-	if (parentheses) {
-		consume(&tok, tok, ",");
-		*rest = skip(tok, "}");
-	} else {
-		*rest = tok;
-	}
+	initializer2(rest, tok, init->children[init->mem->idx]);
 }
 
 // initializer = string-initializer | array-initializer |
@@ -597,7 +627,7 @@ static struct Node *create_lvar_init(struct Initializer *init, struct Type *ty,
 		return node;
 	}
 
-	if (ty->kind == TY_UNION) {
+	if (ty->kind == TY_UNION && !init->expr) {
 		// set initializer's first member in default
 		struct Member *mem = init->mem ? init->mem : ty->members;
 		struct InitDesg desg2 = { desg, 0, mem, NULL };
-- 
2.43.0


From 52ad638ebb717e9ab7bed9902f7348d6ba431161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:44 +0000
Subject: [PATCH 031/158] fix: accept a trailing comma in a braced scalar
 initializer

---
 parser/initializer.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/initializer.c b/parser/initializer.c
index bc092d9..c7ac5a4 100644
--- a/parser/initializer.c
+++ b/parser/initializer.c
@@ -527,6 +527,7 @@ static void initializer2(struct Token **rest, struct Token *tok,
 		// braces.
 		// E.g. `int x = {3};`. Handle that case.
 		initializer2(&tok, tok->next, init);
+		consume(&tok, tok, ",");
 		*rest = skip(tok, "}");
 		return;
 	}
-- 
2.43.0


From f6ffebcff00230ca637ee2e6cb95740ec2bcaa44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:10 +0000
Subject: [PATCH 032/158] fix: compute the size of a variable length array
 typedef once, where it is declared

---
 parser/declarator.c | 15 +++++++++++++--
 parser/declarator.h |  3 ++-
 parser/parser.c     |  4 ++--
 3 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/parser/declarator.c b/parser/declarator.c
index 6ed46a0..e6c6ac3 100644
--- a/parser/declarator.c
+++ b/parser/declarator.c
@@ -873,7 +873,9 @@ struct Node *compute_vla_size(struct Type *ty, struct Token *tok)
 		node = new_binary(ND_COMMA, node,
 				compute_vla_size(ty->base, tok), tok);
 
-	if (ty->kind != TY_VLA)
+	// The size of a typedef'ed type is computed only once, where
+	// the typedef is.
+	if (ty->kind != TY_VLA || ty->vla_size)
 		return node;
 
 	struct Node *base_sz;
@@ -989,7 +991,10 @@ struct Node *declaration(struct Token **rest, struct Token *tok,
 	return node;
 }
 
-struct Token *parse_typedef(struct Token *tok, struct Type *basety)
+// Parse a typedef. In a block, the code for computing the sizes of
+// variably modified types is appended to `cur`.
+struct Token *parse_typedef(struct Token *tok, struct Type *basety,
+			    struct Node **cur)
 {
 	bool first = true;
 
@@ -1003,6 +1008,12 @@ struct Token *parse_typedef(struct Token *tok, struct Type *basety)
 			error_tok(ty->name_pos, "typedef name omitted");
 
 		push_scope(get_ident(ty->name))->type_def = ty;
+
+		if (cur) {
+			*cur = (*cur)->next =
+				new_unary(ND_EXPR_STMT, compute_vla_size(ty, tok), tok);
+			add_type(*cur);
+		}
 	}
 
 	return tok;
diff --git a/parser/declarator.h b/parser/declarator.h
index c67944a..7a3dbd4 100644
--- a/parser/declarator.h
+++ b/parser/declarator.h
@@ -16,7 +16,8 @@ struct Type *declspec(struct Token **rest, struct Token *tok,
 struct Type *declarator(struct Token **rest, struct Token *tok, struct Type *ty);
 struct Node *declaration(struct Token **rest, struct Token *tok,
 			 struct Type *basety, struct VarAttr *attr);
-struct Token *parse_typedef(struct Token *tok, struct Type *basety);
+struct Token *parse_typedef(struct Token *tok, struct Type *basety,
+			    struct Node **cur);
 void declare_builtin_functions(void);
 struct Node *compute_vla_size(struct Type *ty, struct Token *tok);
 
diff --git a/parser/parser.c b/parser/parser.c
index 725486c..15de6d1 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -1629,7 +1629,7 @@ static struct Node *compound_stmt(struct Token **rest, struct Token *tok)
 			struct Type *basety = declspec(&tok, tok, &attr);
 
 			if (attr.is_typedef) {
-				tok = parse_typedef(tok, basety);
+				tok = parse_typedef(tok, basety, &cur);
 				continue;
 			}
 
@@ -1671,7 +1671,7 @@ struct Obj *parser(struct Token *tok)
 
 		// typedef
 		if (attr.is_typedef) {
-			tok = parse_typedef(tok, basety);
+			tok = parse_typedef(tok, basety, NULL);
 			continue;
 		}
 
-- 
2.43.0


From 5c070a1007f9205048d600fcacd6f0f95977f1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:54 +0000
Subject: [PATCH 033/158] fix: keep long double values in a register pair and
 represent their constants in 128 bits

---
 codegen.c            | 191 ++++++++++++++-----------------------------
 parser/common.c      |  93 +++++++++++++--------
 parser/initializer.c |  10 ++-
 parser/parser.h      |   2 +-
 toycc.h              |   1 +
 5 files changed, 128 insertions(+), 169 deletions(-)

diff --git a/codegen.c b/codegen.c
index ed7da5d..af547f3 100644
--- a/codegen.c
+++ b/codegen.c
@@ -7,13 +7,6 @@
 #define debug(...)
 #endif
 
-// #define LDSP_DEBUG
-#ifdef LDSP_DEBUG
-#define ldsp_debug printf
-#else
-#define ldsp_debug(...)
-#endif
-
 static FILE *output_file;
 
 __attribute__((format(printf, 1, 2)))
@@ -58,20 +51,8 @@ static const char * const argflt[] = {
 	"fa7",
 };
 
-#define push(x) do {				\
-	__push(x);				\
-	ldsp_debug("push depth %d at %s:%d\n",	\
-		depth, __FILE__, __LINE__);	\
-} while (0)
-
-#define pop(x) do {				\
-	__pop(x);				\
-	ldsp_debug("pop depth %d at %s:%d\n",	\
-		depth, __FILE__, __LINE__);	\
-} while (0)
-
 // push reg into 0(sp)
-static void __push(const char *reg)
+static void push(const char *reg)
 {
 	const char *prefix;
 
@@ -86,7 +67,7 @@ static void __push(const char *reg)
 }
 
 // pop 0(sp) to reg
-static void __pop(const char *reg)
+static void pop(const char *reg)
 {
 	const char *prefix;
 
@@ -100,78 +81,46 @@ static void __pop(const char *reg)
 	depth--;
 }
 
-// let the (fs0-fs11) registers be the stack for long double
-static int ld_sp;
-
-#define push_ld() do {				\
-	__push_ld();				\
-	ldsp_debug("push_ld ld_sp %d at %s:%d\n",	\
-		ld_sp, __FILE__, __LINE__);	\
-} while (0)
-
-#define pop_ld() do {				\
-	__pop_ld();				\
-	ldsp_debug("pop_ld ld_sp %d at %s:%d\n",	\
-		ld_sp, __FILE__, __LINE__);	\
-} while (0)
-
-static void __push_ld(void)
+// The stack pointer is aligned to 16 bytes at every call.
+static void align_stack(void)
 {
-	println("\tfmv.d.x fs%d, a0", ld_sp);
-	println("\tfmv.d.x fs%d, a1", ld_sp + 1);
-	ld_sp += 2;
-
-	if (ld_sp >= 12)
-		error("ld_sp can't be larger than 12");
+	if (depth % 2)
+		println("\taddi sp, sp, -8");
 }
 
-static void __pop_ld(void)
+static void restore_stack(void)
 {
-	if (ld_sp < 2)
-		error("ld_sp can't be less than 2");
-
-	println("\tfmv.x.d a%d, fs%d", ld_sp - 1, ld_sp - 1);
-	println("\tfmv.x.d a%d, fs%d", ld_sp - 2, ld_sp - 2);
-	ld_sp -= 2;
+	if (depth % 2)
+		println("\taddi sp, sp, 8");
 }
 
-#define load_ld() do {				\
-	__load_ld();				\
-	ldsp_debug("load_ld ld_sp %d at %s:%d\n",	\
-		ld_sp, __FILE__, __LINE__);	\
-} while (0)
-
-#define store_ld(x) do {			\
-	__store_ld(x);				\
-	ldsp_debug("store_ld ld_sp %d at %s:%d\n",	\
-		ld_sp, __FILE__, __LINE__);	\
-} while (0)
-
-static void __load_ld(void)
+// Round up `n` to the nearest multiple of `align`. For instance,
+// align_to(5, 8) returns 8 and align_to(11, 8) returns 16.
+int align_to(int n, int align)
 {
-	println("\tfld fs%d, 0(a0)", ld_sp);
-	println("\tfld fs%d, 8(a0)", ld_sp + 1);
-	ld_sp += 2;
-
-	if (ld_sp >= 12)
-		error("ld_sp can't be larger than 12");
+	return (n + align - 1) / align * align;
 }
 
-static void __store_ld(void)
+// Represent `val` in the long double format of the target, which
+// has 128 bits.
+void ldouble_bits(long double val, uint64_t bits[2])
 {
-	if (ld_sp < 2)
-		error("ld_sp can't be less than 2");
+	bits[0] = bits[1] = 0;
 
-	println("\tfsd fs%d, 8(a1)", ld_sp - 1);
-	println("\tfsd fs%d, 0(a1)", ld_sp - 2);
-	ld_sp -= 2;
-}
+#if defined(__x86_64__) || defined(__i386__)
+	uint64_t mant = 0;
+	uint16_t exp = 0;
 
-// Round up `n` to the nearest multiple of `align`. For instance,
-// align_to(5, 8) returns 8 and align_to(11, 8) returns 16.
-int align_to(int n, int align)
-{
-	return (n + align - 1) / align * align;
+	// The 80-bit format has the same exponent, and
+	// an explicit integer bit followed by 63 bits of fraction.
+	memcpy(&mant, &val, sizeof(mant));
+	memcpy(&exp, (char *)&val + sizeof(mant), sizeof(exp));
+
+	bits[0] = mant << 49;
+	bits[1] = (mant & ~(1UL << 63)) >> 15 | (uint64_t)exp << 48;
+#else
+	memcpy(bits, &val, sizeof(val));
+#endif
 }
 
 static bool beyond_instruction_offset(int offset)
@@ -395,7 +344,9 @@ static void load(struct Type *ty)
 		println("\tfld fa0, (a0)");
 		return;
 	case TY_LDOUBLE:
-		load_ld();
+		// a long double value resides in the pair of a0 and a1
+		println("\tld a1, 8(a0)");
+		println("\tld a0, 0(a0)");
 		return;
 
 	default:
@@ -422,6 +373,13 @@ static void load(struct Type *ty)
 // Store a0 to an address that the stack top is pointing to.
 static void store(struct Type *ty)
 {
+	if (ty->kind == TY_LDOUBLE) {
+		pop("a2");
+		println("\tsd a0, 0(a2)");
+		println("\tsd a1, 8(a2)");
+		return;
+	}
+
 	pop("a1");
 
 	switch (ty->kind) {
@@ -452,10 +410,6 @@ static void store(struct Type *ty)
 		println("\tfsd fa0, (a1)");
 		return;
 
-	case TY_LDOUBLE:
-		store_ld();
-		return;
-
 	default:
 		break;
 	}
@@ -602,10 +556,11 @@ static void cmp_zero(struct Type *ty)
 		break;
 
 	case TY_LDOUBLE:
-		pop_ld();
 		println("\tli a2, 0");
 		println("\tli a3, 0");
+		align_stack();
 		println("\tcall __netf2@plt");
+		restore_stack();
 		println("\tseqz a0, a0");
 		break;
 
@@ -633,11 +588,12 @@ static void cast(struct Type *from, struct Type *to)
 	if (cast_matrix[t1][t2]) {
 		debug("cast t1 %d t2 %d", t1, t2);
 
-		if (t1 == F128)
-			pop_ld();
+		// conversions of long double are library calls
+		if (t1 == F128 || t2 == F128)
+			align_stack();
 		println("%s", cast_matrix[t1][t2]);
-		if (t2 == F128)
-			push_ld();
+		if (t1 == F128 || t2 == F128)
+			restore_stack();
 
 		debug("end cast");
 	}
@@ -702,13 +658,8 @@ static void push_args2(struct Node *args, bool first_pass)
 		break;
 
 	case TY_LDOUBLE:
-		println("\taddi sp, sp, -16");
-		println("\tfsd fs%d, 8(sp)", ld_sp - 1);
-		println("\tfsd fs%d, 0(sp)", ld_sp - 2);
-		depth += 2;
-		ld_sp -= 2;
-		ldsp_debug("pop_ld_stack ld_sp %d depth %d at %s:%d\n",
-			ld_sp, depth, __FILE__, __LINE__);
+		push("a1");
+		push("a0");
 		break;
 
 	default:
@@ -990,9 +941,6 @@ static void gen_expr(struct Node *node)
 		double f64;
 		uint64_t u64;
 
-		// Notion: With x86_64's cross-compiler toolchain,
-		// there is a loss of accuracy (128 to 80 bits) here.
-		long double ld;
 		uint64_t u64x2[2];
 	} u;
 
@@ -1021,11 +969,10 @@ static void gen_expr(struct Node *node)
 			return;
 
 		case TY_LDOUBLE:
-			u.ld = node->fval;
+			ldouble_bits(node->fval, u.u64x2);
 			println("\tli a0, 0x%016lx  # long double %Lf",
-				u.u64x2[0], u.ld);
+				u.u64x2[0], node->fval);
 			println("\tli a1, 0x%016lx", u.u64x2[1]);
-			push_ld();
 			return;
 
 		default:
@@ -1049,8 +996,7 @@ static void gen_expr(struct Node *node)
 		case TY_LDOUBLE:
 			println("\tli t0, -1");
 			println("\tslli t0, t0, 63");
-			debug("negative the value of the long double stack top");
-			println("\txor a%d, a%d, t0", ld_sp + 1, ld_sp + 1);
+			println("\txor a1, a1, t0");
 			return;
 
 		default:
@@ -1309,9 +1255,6 @@ static void gen_expr(struct Node *node)
 		// call function
 		println("\tjalr t0");
 
-		if (node->ty->kind == TY_LDOUBLE)
-			push_ld();
-
 		if (stack_args) {
 			println("\taddi sp, sp, %ld", stack_args * sizeof(long));
 			depth -= stack_args;
@@ -1467,30 +1410,26 @@ static void gen_expr(struct Node *node)
 		return;
 
 	} else if (node->lhs->ty->kind == TY_LDOUBLE) {
-		gen_expr(node->lhs);
 		gen_expr(node->rhs);
-		// Cautions:
-		// Save long double results in fsx registers,
-		// in case ax registers are corrupted.
-		pop_ld();
-		pop_ld();
+		push("a1");
+		push("a0");
+		gen_expr(node->lhs);
+		pop("a2");
+		pop("a3");
+		align_stack();
 
 		switch (node->kind) {
 		case ND_ADD:
 			println("\tcall __addtf3@plt");
-			push_ld();
 			break;
 		case ND_SUB:
 			println("\tcall __subtf3@plt");
-			push_ld();
 			break;
 		case ND_MUL:
 			println("\tcall __multf3@plt");
-			push_ld();
 			break;
 		case ND_DIV:
 			println("\tcall __divtf3@plt");
-			push_ld();
 			break;
 		case ND_EQ:
 			println("\tcall __eqtf2@plt");
@@ -1512,6 +1451,7 @@ static void gen_expr(struct Node *node)
 			error_tok(node->tok, "invalid expression");
 			break;
 		}
+		restore_stack();
 		return;
 	}
 
@@ -1790,9 +1730,6 @@ static void gen_stmt(struct Node *node)
 					copy_struct_reg();
 				else
 					copy_struct_mem();
-
-			} else if (ty->kind == TY_LDOUBLE) {
-				pop_ld();
 			}
 		}
 		println("\tj return.%s", current_fn->name);
@@ -2087,10 +2024,6 @@ static void emit_text(struct Obj *prog)
 		push("fp");
 		println("\tmv fp, sp");
 
-		debug("save all fs0~fs11 registers");
-		for (int i = 0; i < 12; i++)
-			println("\tfsgnj.d ft%d, fs%d, fs%d", i, i, i);
-
 		debug("Prologue end");
 
 		// Save passed-by-register arguments to the stack
@@ -2170,7 +2103,7 @@ static void emit_text(struct Obj *prog)
 			printf("pre_depth: %d != depth: %d\n",
 				pre_depth, depth);
 
-		assert(depth == pre_depth && ld_sp == 0);
+		assert(depth == pre_depth);
 
 		// [https://www.sigbus.info/n1570#5.1.2.2.3p1]
 		// The C spec defines a special rule for the main function.
@@ -2184,10 +2117,6 @@ static void emit_text(struct Obj *prog)
 		debug("epilogue");
 		println("return.%s:", fn->name);
 
-		debug("restore all fs0~fs11 registers");
-		for (int i = 0; i < 12; i++)
-			println("\tfsgnj.d fs%d, ft%d, ft%d", i, i, i);
-
 		// restore sp register
 		println("\tmv sp, fp");
 		// restore fp register
diff --git a/parser/common.c b/parser/common.c
index 45bebe1..3c35842 100644
--- a/parser/common.c
+++ b/parser/common.c
@@ -69,7 +69,7 @@ static bool eval_bool(struct Node *node)
 	add_type(node);
 
 	if (is_float(node->ty))
-		return eval_double(node) != 0;
+		return eval_ldouble(node) != 0;
 
 	return eval(node) != 0;
 }
@@ -85,7 +85,7 @@ int64_t eval2(struct Node *node, const char ***label)
 	add_type(node);
 
 	if (is_float(node->ty))
-		return eval_double(node);
+		return eval_ldouble(node);
 
 	return wrap_to_type(eval3(node, label), node->ty);
 }
@@ -148,24 +148,24 @@ static int64_t eval3(struct Node *node, const char ***label)
 
 	case ND_EQ:
 		if (is_float(node->lhs->ty))
-			return eval_double(node->lhs) == eval_double(node->rhs);
+			return eval_ldouble(node->lhs) == eval_ldouble(node->rhs);
 		return eval(node->lhs) == eval(node->rhs);
 
 	case ND_NE:
 		if (is_float(node->lhs->ty))
-			return eval_double(node->lhs) != eval_double(node->rhs);
+			return eval_ldouble(node->lhs) != eval_ldouble(node->rhs);
 		return eval(node->lhs) != eval(node->rhs);
 
 	case ND_LT:
 		if (is_float(node->lhs->ty))
-			return eval_double(node->lhs) < eval_double(node->rhs);
+			return eval_ldouble(node->lhs) < eval_ldouble(node->rhs);
 		if (node->lhs->ty->is_unsigned)
 			return (uint64_t)eval(node->lhs) < (uint64_t)eval(node->rhs);
 		return eval(node->lhs) < eval(node->rhs);
 
 	case ND_LE:
 		if (is_float(node->lhs->ty))
-			return eval_double(node->lhs) <= eval_double(node->rhs);
+			return eval_ldouble(node->lhs) <= eval_ldouble(node->rhs);
 		if (node->lhs->ty->is_unsigned)
 			return (uint64_t)eval(node->lhs) <= (uint64_t)eval(node->rhs);
 		return eval(node->lhs) <= eval(node->rhs);
@@ -191,7 +191,7 @@ static int64_t eval3(struct Node *node, const char ***label)
 
 	case ND_CAST:
 		if (is_float(node->lhs->ty)) {
-			double fval = eval_double(node->lhs);
+			long double fval = eval_ldouble(node->lhs);
 
 			if (node->ty->kind == TY_BOOL)
 				return fval != 0;
@@ -254,18 +254,40 @@ int64_t eval(struct Node *node)
 	return eval2(node, NULL);
 }
 
-static double eval_double2(struct Node *node);
-
-double eval_double(struct Node *node)
+static long double fold_ldouble(enum NodeKind kind, long double lhs, long double rhs)
 {
-	double val = eval_double2(node);
+	switch (kind) {
+	case ND_ADD:
+		return lhs + rhs;
+	case ND_SUB:
+		return lhs - rhs;
+	case ND_MUL:
+		return lhs * rhs;
+	default:
+		return lhs / rhs;
+	}
+}
 
-	// a float has no more precision than a float
-	return node->ty->kind == TY_FLOAT ? (float)val : val;
+static double fold_double(enum NodeKind kind, double lhs, double rhs)
+{
+	switch (kind) {
+	case ND_ADD:
+		return lhs + rhs;
+	case ND_SUB:
+		return lhs - rhs;
+	case ND_MUL:
+		return lhs * rhs;
+	default:
+		return lhs / rhs;
+	}
 }
 
-static double eval_double2(struct Node *node)
+// Evaluate a given node as a floating constant expression, with
+// the precision of its type.
+long double eval_ldouble(struct Node *node)
 {
+	long double lhs, rhs, val;
+
 	add_type(node);
 
 	if (is_integer(node->ty)) {
@@ -277,44 +299,45 @@ static double eval_double2(struct Node *node)
 
 	switch (node->kind) {
 	case ND_ADD:
-		return eval_double(node->lhs) + eval_double(node->rhs);
-
 	case ND_SUB:
-		return eval_double(node->lhs) - eval_double(node->rhs);
-
 	case ND_MUL:
-		return eval_double(node->lhs) * eval_double(node->rhs);
-
 	case ND_DIV:
-		return eval_double(node->lhs) / eval_double(node->rhs);
+		lhs = eval_ldouble(node->lhs);
+		rhs = eval_ldouble(node->rhs);
+
+		val = node->ty->kind == TY_LDOUBLE ?
+			fold_ldouble(node->kind, lhs, rhs) :
+			fold_double(node->kind, lhs, rhs);
+		break;
 
 	case ND_NEG:
-		return -eval_double(node->lhs);
+		return -eval_ldouble(node->lhs);
 
 	case ND_COND:
-		return eval_bool(node->cond) ?
-			eval_double(node->then) : eval_double(node->els);
+		val = eval_bool(node->cond) ?
+			eval_ldouble(node->then) : eval_ldouble(node->els);
+		break;
 
 	case ND_COMMA:
-		return eval_double(node->rhs);
+		return eval_ldouble(node->rhs);
 
 	case ND_CAST:
-		if (node->ty->kind == TY_FLOAT && is_integer(node->lhs->ty)) {
-			// round only once
-			if (node->lhs->ty->is_unsigned)
-				return (float)(uint64_t)eval(node->lhs);
-			return (float)eval(node->lhs);
-		}
-		return eval_double(node->lhs);
+		val = eval_ldouble(node->lhs);
+		break;
 
 	case ND_NUM:
-		return node->fval;
+		val = node->fval;
+		break;
 
 	default:
-		break;
+		error_tok(node->tok, "not a compile-time constant");
 	}
 
-	error_tok(node->tok, "not a compile-time constant");
+	if (node->ty->kind == TY_FLOAT)
+		return (float)val;
+	if (node->ty->kind == TY_DOUBLE)
+		return (double)val;
+	return val;
 }
 
 struct Node *new_node(enum NodeKind kind, struct Token *tok)
diff --git a/parser/initializer.c b/parser/initializer.c
index c7ac5a4..cc832ab 100644
--- a/parser/initializer.c
+++ b/parser/initializer.c
@@ -756,12 +756,18 @@ static struct Relocation *write_gvar_data(struct Relocation *cur,
 		return cur;
 
 	if (ty->kind == TY_FLOAT) {
-		*(float *)(buf + offset) = eval_double(new_cast(init->expr, ty));
+		*(float *)(buf + offset) = eval_ldouble(new_cast(init->expr, ty));
 		return cur;
 	}
 
 	if (ty->kind == TY_DOUBLE) {
-		*(double *)(buf + offset) = eval_double(new_cast(init->expr, ty));
+		*(double *)(buf + offset) = eval_ldouble(new_cast(init->expr, ty));
+		return cur;
+	}
+
+	if (ty->kind == TY_LDOUBLE) {
+		ldouble_bits(eval_ldouble(new_cast(init->expr, ty)),
+			     (uint64_t *)(buf + offset));
 		return cur;
 	}
 
diff --git a/parser/parser.h b/parser/parser.h
index 5463b7a..989cdfc 100644
--- a/parser/parser.h
+++ b/parser/parser.h
@@ -8,7 +8,7 @@ bool consume_end(struct Token **rest, struct Token *tok);
 
 int64_t eval(struct Node *node);
 int64_t eval2(struct Node *node, const char ***label);
-double eval_double(struct Node *node);
+long double eval_ldouble(struct Node *node);
 
 struct Node *new_node(enum NodeKind kind, struct Token *tok);
 struct Node *new_num(int64_t val, struct Token *tok);
diff --git a/toycc.h b/toycc.h
index 8bf53b8..a28a1bd 100644
--- a/toycc.h
+++ b/toycc.h
@@ -317,6 +317,7 @@ struct Obj *parser(struct Token *tok);
 // codegen.c
 void codegen(struct Obj *prog, FILE *out);
 int align_to(int n, int align);
+void ldouble_bits(long double val, uint64_t bits[2]);
 
 // utils.c
 bool equal(struct Token *tok, const char *op);
-- 
2.43.0


From 1c37933cd3f257759832a788495da8472f663365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:47 +0000
Subject: [PATCH 034/158] fix: pass arguments and return values as the psABI
 specifies

---
 codegen.c       | 951 +++++++++++++++++++++---------------------------
 parser/parser.c |   5 +
 toycc.h         |   2 +-
 3 files changed, 427 insertions(+), 531 deletions(-)

diff --git a/codegen.c b/codegen.c
index af547f3..c63aff0 100644
--- a/codegen.c
+++ b/codegen.c
@@ -370,6 +370,90 @@ static void load(struct Type *ty)
 		println("\tld a0, (a0)");
 }
 
+// Copy `size` bytes from (src) to (dst), using t0 and t2.
+static void copy_bytes(const char *dst, const char *src, int size)
+{
+	for (int i = 0; i < size; i++) {
+		// load & store byte by byte
+		if (beyond_instruction_offset(i)) {
+			println("\tli t0, %d", i);
+			println("\tadd t0, %s, t0", src);
+			println("\tlb t2, (t0)");
+
+			println("\tli t0, %d", i);
+			println("\tadd t0, %s, t0", dst);
+			println("\tsb t2, (t0)");
+		} else {
+			println("\tlb t0, %d(%s)", i, src);
+			println("\tsb t0, %d(%s)", i, dst);
+		}
+	}
+}
+
+// reg = base + offset, using t1 for a large offset
+static void add_offset(const char *reg, const char *base, int offset)
+{
+	if (beyond_instruction_offset(offset)) {
+		println("\tli t1, %d", offset);
+		println("\tadd %s, %s, t1", reg, base);
+	} else {
+		println("\taddi %s, %s, %d", reg, base, offset);
+	}
+}
+
+// Load `size` bytes, at most 8, from offset(base) to reg, using t2.
+static void load_bytes(const char *reg, const char *base, int offset, int size)
+{
+	switch (size) {
+	case 1:
+		println("\tlb %s, %d(%s)", reg, offset, base);
+		return;
+	case 2:
+		println("\tlh %s, %d(%s)", reg, offset, base);
+		return;
+	case 4:
+		println("\tlw %s, %d(%s)", reg, offset, base);
+		return;
+	case 8:
+		println("\tld %s, %d(%s)", reg, offset, base);
+		return;
+	default:
+		// never read beyond the object
+		println("\tlb %s, %d(%s)", reg, offset + size - 1, base);
+		for (int i = size - 2; i >= 0; i--) {
+			println("\tslli %s, %s, 8", reg, reg);
+			println("\tlbu t2, %d(%s)", offset + i, base);
+			println("\tor %s, %s, t2", reg, reg);
+		}
+		return;
+	}
+}
+
+// Store the low `size` bytes, at most 8, of reg to offset(base).
+static void store_bytes(const char *reg, const char *base, int offset, int size)
+{
+	switch (size) {
+	case 1:
+		println("\tsb %s, %d(%s)", reg, offset, base);
+		return;
+	case 2:
+		println("\tsh %s, %d(%s)", reg, offset, base);
+		return;
+	case 4:
+		println("\tsw %s, %d(%s)", reg, offset, base);
+		return;
+	case 8:
+		println("\tsd %s, %d(%s)", reg, offset, base);
+		return;
+	default:
+		for (int i = 0; i < size; i++) {
+			println("\tsb %s, %d(%s)", reg, offset + i, base);
+			println("\tsrli %s, %s, 8", reg, reg);
+		}
+		return;
+	}
+}
+
 // Store a0 to an address that the stack top is pointing to.
 static void store(struct Type *ty)
 {
@@ -385,21 +469,7 @@ static void store(struct Type *ty)
 	switch (ty->kind) {
 	case TY_STRUCT:
 	case TY_UNION:
-		for (int i = 0; i < ty->size; i++) {
-			// load & store byte by byte
-			if (beyond_instruction_offset(i)) {
-				println("\tli t0, %d", i);
-				println("\tadd t0, a0, t0");
-				println("\tlb t1, (t0)");
-
-				println("\tli t0, %d", i);
-				println("\tadd t0, a1, t0");
-				println("\tsb t1, (t0)");
-			} else {
-				println("\tlb t0, %d(a0)", i);
-				println("\tsb t0, %d(a1)", i);
-			}
-		}
+		copy_bytes("a1", "a0", ty->size);
 		return;
 
 	case TY_FLOAT:
@@ -599,127 +669,60 @@ static void cast(struct Type *from, struct Type *to)
 	}
 }
 
-// Structs or unions equal or smaller than 16 bytes are passed
-// using up to two registers.
-// When structs or unions larger than 16 bytes, save the struct
-// in caller's stack, and transmit the pointer to callee by one
-// register.
-static void push_struct(struct Type *ty)
-{
-	int i;
-	int sz = align_to(ty->size, sizeof(long));
-	int n = sz / sizeof(long);
-
-	// transmission by registers
-	if (n <= 2) {
-		while (n--) {
-			println("\tld t0, %ld(a0)", n * sizeof(long));
-			push("t0");
-		}
-		return;
-	}
+// A part of an argument or a return value, which is passed by
+// one register or by one slot of the stack.
+enum { PART_GENERIC, PART_FLOAT, PART_STACK };
 
-	// transmission by stack pointer
-	println("\tadd t1, t1, %d", -sz);
+struct ArgPart {
+	int kind;
+	int idx;	// index of the register or the slot
+	int offset;	// offset in the value
+	int size;	// size in bytes, 8 at most
+};
 
-	for (i = 0; i < n; i++) {
-		// push struct content into stack
-		println("\tld t0, %ld(a0)", i * sizeof(long));
-		println("\tsd t0, %ld(t1)", i * sizeof(long));
-	}
-	depth += n;
+struct ArgLoc {
+	int nparts;
+	struct ArgPart part[2];
+	bool by_ref;	// the address of a copy is passed
+};
 
-	push("t1");
-}
+// registers and slots of the stack which are in use
+struct ArgState {
+	int g_arg;
+	int f_arg;
+	int stack;
+};
 
-static void push_args2(struct Node *args, bool first_pass)
+// List the scalars which a type consists of. Returns the number of
+// them, or -1 if registers for float can't be used for the type.
+static int flatten(struct Type *ty, int offset, struct ArgPart *part, int n)
 {
-	if (!args)
-		return;
-
-	// in the right-to-left order
-	push_args2(args->next, first_pass);
-
-	if ((first_pass && !args->pass_by_stack) ||
-	   (!first_pass && args->pass_by_stack))
-		return;
-
-	gen_expr(args);
-
-	switch (args->ty->kind) {
+	switch (ty->kind) {
 	case TY_STRUCT:
-	case TY_UNION:
-		push_struct(args->ty);
-		break;
+		for (struct Member *mem = ty->members; mem && n >= 0; mem = mem->next)
+			n = flatten(mem->ty, offset + mem->offset, part, n);
+		return n;
 
-	case TY_FLOAT:
-	case TY_DOUBLE:
-		push("fa0");
-		break;
+	case TY_ARRAY:
+		for (int i = 0; i < ty->array_len && n >= 0; i++)
+			n = flatten(ty->base, offset + i * ty->base->size, part, n);
+		return n;
 
+	case TY_UNION:
 	case TY_LDOUBLE:
-		push("a1");
-		push("a0");
-		break;
+		return -1;
 
 	default:
-		push("a0");
-		break;
+		if (n >= 2)
+			return -1;
+		part[n].kind = is_float_arg(ty) ? PART_FLOAT : PART_GENERIC;
+		part[n].offset = offset;
+		part[n].size = ty->size;
+		return n + 1;
 	}
 }
 
-#define USED_GENERIC_REG 1
-#define USED_FLOAT_REG 2
-#define MIXED_REG 3
-
-static void check_struct_mixed(struct Type *ty, int *mixed, int *idx)
-{
-	if (ty->kind == TY_STRUCT) {
-		for (struct Member *mem = ty->members; mem; mem = mem->next)
-			check_struct_mixed(mem->ty, mixed, idx);
-		return;
-	}
-
-	if (ty->kind == TY_ARRAY) {
-		for (int i = 0; i < ty->array_len; i++)
-			check_struct_mixed(ty->base, mixed, idx);
-		return;
-	}
-
-	if (is_float_arg(ty)) {
-		*mixed |= USED_FLOAT_REG;
-		(*idx)++;
-		return;
-	}
-
-	*mixed |= USED_GENERIC_REG;
-	(*idx)++;
-}
-
-static void check_struct_contain_float(struct Token *tok,
-				       struct Type *ty, size_t g_arg)
-{
-	int n = align_to(ty->size, sizeof(long)) / sizeof(long);
-	if (n > 2)
-		return;
-
-	int mixed = 0, idx = 0;
-	check_struct_mixed(ty, &mixed, &idx);
-	if (mixed != USED_GENERIC_REG && idx == 2) {
-		if (g_arg < MAX_ARG_REGS) {
-			// transmit by register
-			if ((g_arg + 1) == MAX_ARG_REGS && n == 1)
-				// pass as the last argument by generic register
-				return;
-
-			error_tok(tok, "Not support transmit struct arguments's float member by float register");
-		}
-	}
-}
-
-// Load function call arguments. Arguments are already evaluated and
-// stored to the stack as local variables. What we need to do in this
-// function is to load them to registers or push them to the stack.
+// Decide where an argument of the type is passed.
 // https://github.com/riscv-non-isa/riscv-elf-psabi-doc/releases
 //
 // Here is what the spec says:
@@ -727,11 +730,18 @@ static void check_struct_contain_float(struct Token *tok,
 //
 // - Up to 8 arguments of floating-point type are passed using fa0-fa7.
 //
+// - A struct of one or two floating-point members, or of one and an
+//   integer, is passed as if its members were separate arguments, if
+//   there are enough registers for all of them.
+//
 // - Values are passed in floating-point registers whenever possible,
 //   whether or not the integer registers have been exhausted.
 //
 // - Variadic arguments are passed according to the integer calling
-//   convention.
+//   convention. The one aligned to 16 bytes begins with an even register.
+//
+// - Other values of up to 16 bytes are passed using up to two registers,
+//   and bigger ones by the address of a copy in the caller's stack.
 //
 // - If all registers of an appropriate type are already used, push an
 //   argument to the stack in the right-to-left order.
@@ -739,130 +749,227 @@ static void check_struct_contain_float(struct Token *tok,
 //
 // - Each argument passed on the stack takes 8 bytes, and the end of
 //   the argument area must be aligned to a 16 byte boundary.
-//
-// +---------------------------------------+
-// |       struct or union in stack        |
-// |---------------------------------------|<--- t1 <---+
-// |                  ...                  |            |
-// |      other args passed by stack       |            |
-// |                  ...                  |            |
-// |---------------------------------------|            |
-// | arg-pointers forwards struct or union |------------+
-// +---------------------------------------+ <--- sp
-static size_t push_args(struct Node *node)
+static void assign_arg(struct Type *ty, bool is_variadic,
+		       struct ArgState *st, struct ArgLoc *loc)
 {
-	size_t stack = 0, struct_stack = 0, g_arg = 0, f_arg = 0;
-	struct Type *cur_params = node->func_ty->params;
+	int i, n, nfloat = 0;
 
-	// If the return type is a large struct/union, the caller passes
-	// a pointer to a buffer as if it were the first argument.
-	if (node->ret_buffer && node->ty->size > 2 * (int)sizeof(long))
-		g_arg++;
+	loc->by_ref = false;
 
-	// Load as many arguments to the registers as possible.
-	for (struct Node *arg = node->args; arg; arg = arg->next) {
-		if (node->func_ty->is_variadic && cur_params == NULL) {
-			// this parameter is variadic
-			if (g_arg < MAX_ARG_REGS) {
-				g_arg++;
+	if (!is_variadic && ty->kind != TY_ARRAY) {
+		n = flatten(ty, 0, loc->part, 0);
+		for (i = 0; i < n; i++)
+			nfloat += loc->part[i].kind == PART_FLOAT;
 
-			} else {
-				arg->pass_by_stack = true;
-				stack++;
-			}
-			continue;
+		if (nfloat && st->f_arg + nfloat <= (int)MAX_ARG_REGS &&
+		    st->g_arg + n - nfloat <= (int)MAX_ARG_REGS) {
+			for (i = 0; i < n; i++)
+				loc->part[i].idx = loc->part[i].kind == PART_FLOAT ?
+						st->f_arg++ : st->g_arg++;
+			loc->nparts = n;
+			return;
 		}
+	}
 
-		cur_params = cur_params->next;
+	int size = sizeof(long), align = sizeof(long);
 
-		if (is_struct_union(arg->ty)) {
-			check_struct_contain_float(arg->tok, arg->ty, g_arg);
+	if (is_struct_union(ty) || ty->kind == TY_LDOUBLE) {
+		size = ty->size;
+		align = ty->align;
+	} else if (is_numeric(ty)) {
+		size = ty->size;
+	}
 
-			int n = align_to(arg->ty->size, sizeof(long)) / sizeof(long);
-			if (n <= 2) {
-				// transmission struct by stack or register(s)
-				while (n--) {
-					if (g_arg < MAX_ARG_REGS)
-						g_arg++;
-					else
-						stack++;
-				}
-			} else {
-				// reserve stack space for the struct
-				struct_stack += n;
-				stack += n;
+	if (size > 2 * (int)sizeof(long)) {
+		loc->by_ref = true;
+		size = align = sizeof(long);
+	}
 
-				// push stack pointer
-				if (g_arg < MAX_ARG_REGS)
-					g_arg++;
-				else
-					stack++;
-			}
-			continue;
-		}
+	n = align_to(size, sizeof(long)) / sizeof(long);
 
-		if (is_float_arg(arg->ty) && (f_arg < MAX_ARG_REGS)) {
-			f_arg++;
+	if (n && align > (int)sizeof(long)) {
+		if (is_variadic)
+			st->g_arg = align_to(st->g_arg, 2);
+		if (st->g_arg >= (int)MAX_ARG_REGS)
+			st->stack = align_to(st->stack, 2);
+	}
 
-		} else if (arg->ty->kind == TY_LDOUBLE) {
-			for (int i = 1; i <= 2; i++) {
-				if (g_arg < MAX_ARG_REGS)
-					g_arg++;
-				else
-					stack++;
-			}
+	for (i = 0; i < n; i++) {
+		struct ArgPart *part = &loc->part[i];
 
-		} else if (g_arg < MAX_ARG_REGS) {
-			g_arg++;
+		part->offset = i * sizeof(long);
+		part->size = MIN((int)sizeof(long), size - part->offset);
 
+		if (st->g_arg < (int)MAX_ARG_REGS) {
+			part->kind = PART_GENERIC;
+			part->idx = st->g_arg++;
 		} else {
-			arg->pass_by_stack = true;
-			stack++;
+			part->kind = PART_STACK;
+			part->idx = st->stack++;
 		}
 	}
+	loc->nparts = n;
+}
 
-	if ((depth + stack) % 2 == 1) {
-		println("\taddi sp, sp, -8");
-		depth++;
-		stack++;
+// Large structs and unions are returned by memory.
+static bool is_returned_by_memory(struct Type *ty)
+{
+	return is_struct_union(ty) && ty->size > 2 * (int)sizeof(long);
+}
+
+// Evaluate arguments in the right-to-left order, and push all parts of
+// them, so that the first part of the first argument is on the top.
+static void push_args(struct Node *arg, struct ArgLoc *loc)
+{
+	if (!arg)
+		return;
+
+	push_args(arg->next, loc + 1);
+	gen_expr(arg);
+
+	if (loc->by_ref) {
+		add_offset("t1", "fp", arg->arg_buffer->offset);
+		copy_bytes("t1", "a0", arg->ty->size);
+		push("t1");
+		return;
+	}
+
+	switch (arg->ty->kind) {
+	case TY_STRUCT:
+	case TY_UNION:
+		for (int i = loc->nparts - 1; i >= 0; i--) {
+			load_bytes("t0", "a0", loc->part[i].offset, loc->part[i].size);
+			push("t0");
+		}
+		break;
+
+	case TY_FLOAT:
+	case TY_DOUBLE:
+		push("fa0");
+		break;
+
+	case TY_LDOUBLE:
+		push("a1");
+		push("a0");
+		break;
+
+	default:
+		push("a0");
+		break;
 	}
+}
+
+// +---------------------------------------+
+// |  temporaries of evaluated arguments   |
+// |---------------------------------------|
+// |      arguments passed by stack        |
+// +---------------------------------------+ <--- sp
+static void gen_funcall(struct Node *node)
+{
+	struct ArgState st = {};
+	int nargs = 0, nparts = 0, i = 0;
 
-	// expand space for struct or union in stack
-	println("\tmv t1, sp");
-	println("\tadd sp, sp, -%ld", struct_stack * sizeof(long));
+	for (struct Node *arg = node->args; arg; arg = arg->next)
+		nargs++;
 
-	// push stack arguments
-	push_args2(node->args, true);
-	// push register arguments
-	push_args2(node->args, false);
+	struct ArgLoc *locs = calloc(nargs + 1, sizeof(struct ArgLoc));
+	struct Type *param = node->func_ty->params;
 
 	// If the return type is a large struct/union, the caller passes
 	// a pointer to a buffer as if it were the first argument.
-	if (node->ret_buffer && node->ty->size > 2 * (int)sizeof(long)) {
-		println("\tadd a0, fp, %d", node->ret_buffer->offset);
-		push("a0");
+	if (is_returned_by_memory(node->ty))
+		st.g_arg++;
+
+	for (struct Node *arg = node->args; arg; arg = arg->next) {
+		assign_arg(arg->ty, !param, &st, &locs[i]);
+		nparts += locs[i++].nparts;
+		if (param)
+			param = param->next;
 	}
 
-	return stack;
+	// evaluate all arguments first
+	push_args(node->args, locs);
+
+	// fetch function address
+	gen_expr(node->lhs);
+	println("\tmv t0, a0");
+
+	// The stack pointer is aligned to 16 bytes at the call.
+	int area = st.stack + (depth + st.stack) % 2;
+	int tmp = area * sizeof(long);
+	if (area)
+		add_offset("sp", "sp", -tmp);
+
+	for (i = 0; i < nargs; i++) {
+		for (int j = 0; j < locs[i].nparts; j++, tmp += sizeof(long)) {
+			struct ArgPart *part = &locs[i].part[j];
+			const char *base = "sp";
+			int offset = tmp;
+
+			if (beyond_instruction_offset(offset)) {
+				add_offset("t1", "sp", offset);
+				base = "t1";
+				offset = 0;
+			}
+
+			switch (part->kind) {
+			case PART_GENERIC:
+				println("\tld %s, %d(%s)", argreg[part->idx], offset, base);
+				break;
+
+			case PART_FLOAT:
+				println("\tfl%s %s, %d(%s)", part->size == sizeof(float) ? "w" : "d",
+					argflt[part->idx], offset, base);
+				break;
+
+			default:
+				println("\tld t2, %d(%s)", offset, base);
+				offset = part->idx * sizeof(long);
+				if (beyond_instruction_offset(offset)) {
+					add_offset("t1", "sp", offset);
+					println("\tsd t2, (t1)");
+				} else {
+					println("\tsd t2, %d(sp)", offset);
+				}
+				break;
+			}
+		}
+	}
+
+	if (is_returned_by_memory(node->ty))
+		add_offset("a0", "fp", node->ret_buffer->offset);
+
+	// call function
+	println("\tjalr t0");
+
+	if (area + nparts)
+		add_offset("sp", "sp", (area + nparts) * sizeof(long));
+	depth -= nparts;
+	free(locs);
 }
 
+// If the return type is a small struct, a value is returned
+// using up to two registers.
 static void copy_ret_buffer(struct Obj *var)
 {
-	struct Type *ty = var->ty;
+	struct ArgState st = {};
+	struct ArgLoc loc;
 
-	debug("copy_ret_buffer size %d", ty->size);
+	debug("copy_ret_buffer size %d", var->ty->size);
 
-	for (int i = 0; i < MIN((int)sizeof(long), ty->size); i++) {
-		println("\tsb a0, %d(fp)", var->offset + i);
-		println("\tsrl a0, a0, 8");
-	}
+	assign_arg(var->ty, false, &st, &loc);
+	add_offset("t0", "fp", var->offset);
 
-	if (ty->size > (int)sizeof(long)) {
-		for (int i = 8; i < MIN(16, ty->size); i++) {
-			println("\tsb a1, %d(fp)", var->offset + i);
-			println("\tsrl a1, a1, 8");
-		}
+	for (int i = 0; i < loc.nparts; i++) {
+		struct ArgPart *part = &loc.part[i];
+
+		if (part->kind == PART_FLOAT)
+			println("\tfs%s %s, %d(t0)", part->size == sizeof(float) ? "w" : "d",
+				argflt[part->idx], part->offset);
+		else
+			store_bytes(argreg[part->idx], "t0", part->offset, part->size);
 	}
+	println("\tmv a0, t0");
 
 	debug("copy_ret_buffer end");
 }
@@ -878,41 +985,40 @@ static void builtin_alloca(void)
 	// ============================= alloca_bottom, t1
 	//      allocate t0 size
 	// ----------------------------- new alloca_bottom, return a0 as ptr
-	//
-	//             ....              memmove size t4 (t1 - t2)
-	//
-	// ============================= current sp, t2
-	//           - t0 size
+	//      align to 16 bytes
+	// -----------------------------
+	//             ....              memmove size t4
 	// ============================= new sp, t3
 
-	// t2 = current sp
-	println("\tmv t2, sp");
-	// t3 = new sp
-	println("\tsub sp, sp, t0");
-	println("\tmv t3, sp");
-
-	// Shift the temporary area
 	println("\tli t5, %d", current_fn->alloca_bottom->offset);
 	println("\tadd t5, t5, fp");
 	println("\tld t1, (t5)");
 
-	// t4 = old_sp - new_sp, size of local variables
-	println("\tsub t4, t1, t2");
+	// Move alloca_bottom pointer.
+	println("\tsub a0, t1, t0");
+	println("\tsd a0, (t5)");
 
+	// t2 = current sp
+	println("\tmv t2, sp");
+	// t4 = size of the temporary area
+	println("\tand t4, t1, -16");
+	println("\tsub t4, t4, t2");
+	// t3 = new sp
+	println("\tand t3, a0, -16");
+	println("\tsub t3, t3, t4");
+	println("\tmv sp, t3");
+
+	// Shift the temporary area
 	// memmove alloca-area from t2 to t3, size is t4
 	println("1:");
 	println("\tbeqz t4, 2f");
-	println("\tlb a0, 0(t2)");
-	println("\tsb a0, 0(t3)");
+	println("\tlb t6, 0(t2)");
+	println("\tsb t6, 0(t3)");
 	println("\taddi t2, t2, 1");
 	println("\taddi t3, t3, 1");
 	println("\taddi t4, t4, -1");
 	println("\tj 1b");
 	println("2:");
-
-	// Move alloca_bottom pointer.
-	println("\tsub a0, t1, t0");
-	println("\tsd a0, (t5)");
 }
 
 // Extract the value of a bitfield whose lowest bit is bit `offset` of a0.
@@ -1178,87 +1284,7 @@ static void gen_expr(struct Node *node)
 			return;
 		}
 
-		// push arguments into stack first
-		int stack_args = push_args(node);
-
-		// fetch function address
-		gen_expr(node->lhs);
-		println("\tmv t0, a0");
-
-		struct Type *cur_params = node->func_ty->params;
-		size_t g_arg = 0, f_arg = 0;
-
-		// If the return type is a large struct/union, the caller passes
-		// a pointer to a buffer as if it were the first argument.
-		if (node->ret_buffer && node->ty->size > (int)sizeof(long) * 2) {
-			debug("pop struct's pointer to a0");
-			pop(argreg[g_arg++]);
-		}
-
-		// then pop arguments from stack
-		for (struct Node *arg = node->args; arg; arg = arg->next) {
-			debug("%sarg %.*s",
-			      node->func_ty->is_variadic ? "variadic " : "",
-			      (int)arg->tok->len, arg->tok->loc);
-
-			// transfer args to variadic function with generic registers
-			if (node->func_ty->is_variadic && cur_params == NULL) {
-				if (g_arg < MAX_ARG_REGS) {
-					if (arg->ty->kind == TY_LDOUBLE) {
-						// In the context of variadic arguments,
-						// ld's first register must be even index,
-						// like a0, a2, a4, a6.
-						if (g_arg % 2 == 1)
-							g_arg++;
-
-						for (int i = 0; i < 2; i++) {
-							if (g_arg < MAX_ARG_REGS)
-								pop(argreg[g_arg++]);
-						}
-					} else {
-						pop(argreg[g_arg++]);
-					}
-
-				}
-				continue;
-			}
-
-			cur_params = cur_params->next;
-
-			if (is_struct_union(arg->ty)) {
-				int n = align_to(arg->ty->size, sizeof(long)) / sizeof(long);
-
-				// transmission by register(s) or stack
-				if (n <= 2) {
-					while (n--) {
-						if (g_arg >= MAX_ARG_REGS)
-							break;
-						pop(argreg[g_arg++]);
-					}
-					continue;
-				}
-			}
-
-			if (is_float_arg(arg->ty) && (f_arg < MAX_ARG_REGS))
-				pop(argflt[f_arg++]);
-
-			else if (arg->ty->kind == TY_LDOUBLE) {
-				for (int i = 0; i < 2; i++) {
-					if (g_arg < MAX_ARG_REGS)
-						pop(argreg[g_arg++]);
-				}
-
-			} else if (g_arg < MAX_ARG_REGS)
-				pop(argreg[g_arg++]);
-		}
-
-		// call function
-		println("\tjalr t0");
-
-		if (stack_args) {
-			println("\taddi sp, sp, %ld", stack_args * sizeof(long));
-			depth -= stack_args;
-		}
+		gen_funcall(node);
 
 		// It looks like the most significant 48 or 56 bits in a0 may
 		// contain garbage if a function return type is short or bool/char,
@@ -1285,13 +1311,8 @@ static void gen_expr(struct Node *node)
 			break;
 		}
 
-		// If the return type is a small struct, a value is returned
-		// using up to two registers.
-		if (node->ret_buffer && node->ty->size <= 2 * (int)sizeof(long)) {
+		if (is_struct_union(node->ty) && !is_returned_by_memory(node->ty))
 			copy_ret_buffer(node->ret_buffer);
-			debug("mv struct's pointer to a0");
-			println("\tadd a0, fp, %d", node->ret_buffer->offset);
-		}
 
 		debug("end ND_FUNCALL");
 		return;
@@ -1539,35 +1560,22 @@ static void gen_expr(struct Node *node)
 
 static void copy_struct_reg(void)
 {
-	int i, pos, sz;
-	struct Type *ty = current_fn->ty->return_ty;
+	struct ArgState st = {};
+	struct ArgLoc loc;
 
 	debug("copy_struct_reg");
 
+	assign_arg(current_fn->ty->return_ty, false, &st, &loc);
 	println("\tmv t0, a0");
-	// load instruction(like lb, lh, lw) would clear invalid high bits
-	for (i = 0, pos = 0; pos < ty->size; i++, pos += sz) {
-		sz = MIN((int)sizeof(long), ty->size);
-
-		println("\tli a%d, 0", i);
-		switch (sz) {
-		case 1:
-			println("\tlb a%d, %d(t0)", i, pos);
-			break;
 
-		case 2:
-			println("\tlh a%d, %d(t0)", i, pos);
-			break;
+	for (int i = 0; i < loc.nparts; i++) {
+		struct ArgPart *part = &loc.part[i];
 
-		case 3:
-		case 4:
-			println("\tlw a%d, %d(t0)", i, pos);
-			break;
-
-		default:
-			println("\tld a%d, %d(t0)", i, pos);
-			break;
-		}
+		if (part->kind == PART_FLOAT)
+			println("\tfl%s %s, %d(t0)", part->size == sizeof(float) ? "w" : "d",
+				argflt[part->idx], part->offset);
+		else
+			load_bytes(argreg[part->idx], "t0", part->offset, part->size);
 	}
 
 	debug("copy_struct_reg end");
@@ -1581,12 +1589,10 @@ static void copy_struct_mem(void)
 	debug("copy_struct_mem");
 
 	debug("get struct's pointer passed by caller");
-	println("\tld a1, %d(fp)", var->offset);
+	add_offset("t0", "fp", var->offset);
+	println("\tld a1, (t0)");
 
-	for (int i = 0; i < ty->size; i++) {
-		println("\tlb t0, %d(a0)", i);
-		println("\tsb t0, %d(a1)", i);
-	}
+	copy_bytes("a1", "a0", ty->size);
 
 	debug("return struct's pointer by a0");
 	println("\tmv a0, a1");
@@ -1726,10 +1732,10 @@ static void gen_stmt(struct Node *node)
 
 			struct Type *ty = node->lhs->ty;
 			if (is_struct_union(ty)) {
-				if (ty->size <= (int)sizeof(long) * 2)
-					copy_struct_reg();
-				else
+				if (is_returned_by_memory(ty))
 					copy_struct_mem();
+				else
+					copy_struct_reg();
 			}
 		}
 		println("\tj return.%s", current_fn->name);
@@ -1759,71 +1765,36 @@ static void assign_lvar_offsets(struct Obj *prog)
 		// If a function has many parameters, some parameters are
 		// inevitably passed by stack rather than by register.
 		// The first passed-by-stack parameter resides at fp+16.
+		// A variadic function saves the rest of the registers next
+		// to the parameters passed by stack.
 		// +----------------+
+		// |   stack args   | (NR*8)			[caller]
+		// +----------------+ --> sp
 		// |    va_area?    |
 		// +----------------+
-		// |   stack args   | (NR*8)			[caller]
-		// +----------------+ top: stack's first arg (fp+16) --> sp
 		// |       ra       |
 		// |       fp       |				[callee]
 		// +----------------+ bottom (fp)
 		// |   local vars   |
 		// +----------------+
-		int top = 16;
+		struct ArgState st = {};
 
-		size_t g_arg = 0, f_arg = 0;
 		// initialize pass-by-stack parameters' offset
 		for (struct Obj *var = fn->params; var; var = var->next) {
-			if (is_struct_union(var->ty)) {
-				int sz = align_to(var->ty->size, sizeof(long));
-				int n = sz / sizeof(long);
-
-				if (n <= 2) {
-					if ((g_arg + n) <= MAX_ARG_REGS) {
-						g_arg += n;
-						continue;
-					} else if (g_arg + 1 == MAX_ARG_REGS) {
-						error_tok(var->ty->name_pos,
-							"Not support transmit struct parameter half by register and half by stack");
-					}
-				} else {
-					// Passed by caller stack, so just skip the register.
-					if (g_arg < MAX_ARG_REGS)
-						g_arg++;
-				}
-			} else if (is_float_arg(var->ty)) {
-				if (f_arg < MAX_ARG_REGS) {
-					f_arg++;
-					continue;
-
-				} else if (g_arg < MAX_ARG_REGS) {
-					g_arg++;
-					continue;
-				}
-			} else if (var->ty->kind == TY_LDOUBLE) {
-				if (g_arg + 2 <= MAX_ARG_REGS) {
-					g_arg += 2;
-					continue;
-				} else if (g_arg + 1 == MAX_ARG_REGS) {
-					error_tok(var->ty->name_pos, "Not support transmit half of long double by stack");
-				}
-			} else {
-				if (g_arg < MAX_ARG_REGS) {
-					g_arg++;
-					continue;
-				}
-			}
+			struct ArgLoc loc;
 
-			top = align_to(top, sizeof(long));
-			var->offset = top;
-			debug("%s's parameter %s offset %d",
-				fn->name, var->name, var->offset);
-			top += var->ty->size;
+			assign_arg(var->ty, false, &st, &loc);
+			if (!loc.by_ref && loc.nparts && loc.part[0].kind == PART_STACK) {
+				var->offset = 16 + loc.part[0].idx * sizeof(long);
+				debug("%s's parameter %s offset %d",
+					fn->name, var->name, var->offset);
+			}
 		}
 
 		if (fn->va_area) {
-			top = align_to(top, sizeof(long));
-			fn->va_area->offset = top;
+			int saved = MAX_ARG_REGS - st.g_arg;
+
+			fn->va_area->offset = 16 + (saved % 2 + st.stack) * sizeof(long);
 		}
 
 		int bottom = 0;
@@ -1838,7 +1809,7 @@ static void assign_lvar_offsets(struct Obj *prog)
 			var->offset = -bottom;
 		}
 		// initialize stack size
-		fn->stack_size = align_to(bottom, sizeof(long));
+		fn->stack_size = align_to(bottom, 16);
 	}
 }
 
@@ -1905,59 +1876,51 @@ static void emit_data(struct Obj *prog)
 	}
 }
 
-static void store_args(int r, int offset, int sz)
+// Save parameters which are not in the stack yet, and registers of
+// variadic arguments.
+static void store_params(struct Obj *fn)
 {
-	const char *rs = "sp";
+	struct ArgState st = {};
 
-	if (beyond_instruction_offset(offset)) {
-		println("\tli t0, %d", offset);
-		println("\tadd t0, sp, t0");
-		rs = "t0";
-		offset = 0;
-	}
+	for (struct Obj *var = fn->params; var; var = var->next) {
+		struct ArgLoc loc;
 
-	switch (sz) {
-	case sizeof(char):
-		println("\tsb %s, %d(%s)", argreg[r], offset, rs);
-		break;
+		assign_arg(var->ty, false, &st, &loc);
 
-	case sizeof(short):
-		println("\tsh %s, %d(%s)", argreg[r], offset, rs);
-		break;
+		// pass-by-stack parameters are already in stack now
+		if (var->offset > 0)
+			continue;
 
-	case sizeof(int):
-		println("\tsw %s, %d(%s)", argreg[r], offset, rs);
-		break;
+		for (int i = 0; i < loc.nparts; i++) {
+			struct ArgPart *part = &loc.part[i];
+			const char *reg = "t3";
 
-	case sizeof(long):
-		println("\tsd %s, %d(%s)", argreg[r], offset, rs);
-		break;
+			if (part->kind == PART_STACK) {
+				add_offset("t3", "fp", 16 + part->idx * sizeof(long));
+				println("\tld t3, (t3)");
+			} else if (part->kind == PART_GENERIC) {
+				reg = argreg[part->idx];
+			}
 
-	default:
-		for (int i = 0; i < sz; i++) {
-			println("\tsb %s, %d(%s)", argreg[r], offset + i, rs);
-			println("\tsrli %s, %s, 8", argreg[r], argreg[r]);
+			add_offset("t1", "fp", var->offset);
+
+			if (part->kind == PART_FLOAT)
+				println("\tfs%s %s, %d(t1)", part->size == sizeof(float) ? "w" : "d",
+					argflt[part->idx], part->offset);
+			else if (loc.by_ref)
+				copy_bytes("t1", reg, var->ty->size);
+			else
+				store_bytes(reg, "t1", part->offset, part->size);
 		}
-		break;
 	}
-}
 
-static void store_fltargs(size_t r, int offset, int sz)
-{
-	assert(r < MAX_ARG_REGS);
+	if (fn->va_area) {
+		int offset = fn->va_area->offset;
 
-	switch (sz) {
-	case sizeof(float):
-		println("\tfsw %s, %d(sp)", argflt[r], offset);
-		break;
-
-	case sizeof(double):
-		println("\tfsd %s, %d(sp)", argflt[r], offset);
-		break;
-
-	default:
-		unreachable();
-		break;
+		for (int i = st.g_arg; i < (int)MAX_ARG_REGS; i++) {
+			println("\tsd %s, %d(fp)", argreg[i], offset);
+			offset += sizeof(long);
+		}
 	}
 }
 
@@ -1987,36 +1950,18 @@ static void emit_text(struct Obj *prog)
 
 		int va_size = 0;
 		if (fn->va_area) {
-			size_t va_gp = 0, va_fp = 0;
-
-			for (struct Obj *var = fn->params; var; var = var->next) {
-				// count all used registers by all type parameters
-				struct Type *ty = var->ty;
-
-				switch (ty->kind) {
-				case TY_STRUCT:
-				case TY_UNION:
-					error_tok(var->ty->name_pos,
-						 "Not support transmit struct or union parameter in variadic function");
-					break;
-
-				case TY_FLOAT:
-				case TY_DOUBLE:
-					va_fp < MAX_ARG_REGS ? va_fp++ : va_gp++;
-					break;
-
-				default:
-					va_gp++;
-					break;
-				}
-			}
+			struct ArgState st = {};
+			struct ArgLoc loc;
+
+			for (struct Obj *var = fn->params; var; var = var->next)
+				assign_arg(var->ty, false, &st, &loc);
 
 			// Expand the space only when variadic parameters
 			// are transmitted by registers.
-			if (va_gp < MAX_ARG_REGS) {
-				va_size = (MAX_ARG_REGS - va_gp) * sizeof(long);
+			va_size = align_to((MAX_ARG_REGS - st.g_arg) * sizeof(long), 16);
+			if (va_size) {
 				debug("va_area's size is %d", va_size);
-				println("\tadd sp, sp, -%d", va_size);
+				println("\taddi sp, sp, -%d", va_size);
 			}
 		}
 
@@ -2024,69 +1969,15 @@ static void emit_text(struct Obj *prog)
 		push("fp");
 		println("\tmv fp, sp");
 
+		if (fn->stack_size)
+			add_offset("sp", "sp", -fn->stack_size);
+
 		debug("Prologue end");
 
 		// Save passed-by-register arguments to the stack
 		debug("'%s' save args into stack", fn->name);
 
-		size_t g_arg = 0, f_arg = 0;
-		for (struct Obj *var = fn->params; var; var = var->next) {
-			// pass-by-stack parameters are already in stack now
-			if (var->offset > 0) {
-				if (g_arg < MAX_ARG_REGS) {
-					// Skip the argument register,
-					// only when struct's size > (2 * sizeof(long))
-					assert(is_struct_union(var->ty));
-					g_arg++;
-				}
-
-			} else if (is_struct_union(var->ty)) {
-				store_args(g_arg++, var->offset,
-					   MIN(var->ty->size, (int)sizeof(long)));
-
-				if (var->ty->size > (int)sizeof(long))
-					store_args(g_arg++, var->offset + sizeof(long),
-							    var->ty->size - sizeof(long));
-
-			} else if (is_float_arg(var->ty) && (f_arg < MAX_ARG_REGS)) {
-				store_fltargs(f_arg++, var->offset, var->ty->size);
-
-			} else if (var->ty->kind == TY_LDOUBLE) {
-				if ((g_arg + 1) < MAX_ARG_REGS) {
-					store_args(g_arg++, var->offset, 8);
-					store_args(g_arg++, var->offset + 8, 8);
-				}
-
-			} else if (g_arg < MAX_ARG_REGS) {
-				store_args(g_arg++, var->offset, var->ty->size);
-			}
-		}
-
-		// Save arg registers if function is variadic
-		if (fn->va_area) {
-			debug("'%s' save variadic args into stack",
-				fn->va_area->name);
-
-			// store "__va_area__"(local variable) into stack
-			int off = fn->va_area->offset;
-			debug("va_area->offset %d", fn->va_area->offset);
-
-			while (g_arg < MAX_ARG_REGS) {
-				store_args(g_arg++, off, sizeof(long));
-				off += sizeof(long);
-			}
-
-			debug("end '%s' save variadic args into stack",
-				fn->va_area->name);
-		}
-
-		if (beyond_instruction_offset(-fn->stack_size)) {
-			println("\tli t0, -%d", fn->stack_size);
-			println("\tadd sp, sp, t0");
-		} else {
-			println("\tadd sp, sp, -%d", fn->stack_size);
-		}
-
+		store_params(fn);
 		debug("'%s' save args end", fn->name);
 
 		// record the bottom of alloca area
@@ -2127,7 +2018,7 @@ static void emit_text(struct Obj *prog)
 		// return the space reserved for va_area
 		if (fn->va_area && va_size) {
 			debug("return va_area's size is %d", va_size);
-			println("add sp, sp, %d", va_size);
+			println("\taddi sp, sp, %d", va_size);
 		}
 
 		// mv ra to pc
diff --git a/parser/parser.c b/parser/parser.c
index 15de6d1..cb30bcb 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -57,6 +57,11 @@ static struct Node *funcall(struct Token **rest, struct Token *tok, struct Node
 			arg = new_cast(arg, p_ty_double());
 		}
 
+		// A large struct is passed by the address of its copy,
+		// the caller allocates a space for it.
+		if (is_struct_union(arg->ty) && arg->ty->size > 2 * (int)sizeof(long))
+			arg->arg_buffer = new_lvar("", arg->ty);
+
 		cur->next = arg;
 		cur = cur->next;
 	}
diff --git a/toycc.h b/toycc.h
index a28a1bd..0208abe 100644
--- a/toycc.h
+++ b/toycc.h
@@ -224,8 +224,8 @@ struct Node {
 	// function call
 	struct Type *func_ty;
 	struct Node *args;
-	bool pass_by_stack;
 	struct Obj *ret_buffer;
+	struct Obj *arg_buffer;	// copy of a large struct argument
 
 	// Goto or labeled statement, or labels-as-values
 	const char *label;
-- 
2.43.0


From 0c42dc5f128d91345519824cf107c87e97d1c671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:25 +0000
Subject: [PATCH 035/158] fix: let va_arg fetch structs and long doubles

---
 include/stdarg.h | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/include/stdarg.h b/include/stdarg.h
index b68385e..813026e 100644
--- a/include/stdarg.h
+++ b/include/stdarg.h
@@ -10,11 +10,18 @@ do {				\
 
 #define va_end(ap)
 
-#define va_arg(ap, type)		\
-({					\
-	ap += sizeof(long);		\
-	*(type *)(ap - sizeof(long));	\
-})
+// An argument larger than 16 bytes is passed by its address, the
+// others take as many slots of 8 bytes as they need, and begin
+// with an even slot if they are aligned to 16 bytes.
+#define va_arg(ap, type)						\
+(*(type *)({								\
+	va_list *__ap = &(ap);						\
+	if (_Alignof(type) > 8 && sizeof(type) <= 16)			\
+		*__ap = (void *)(((unsigned long)*__ap + 15) / 16 * 16);\
+	char *__arg = *__ap;						\
+	*__ap = __arg + (sizeof(type) > 16 ? 8 : (sizeof(type) + 7) / 8 * 8);\
+	sizeof(type) > 16 ? *(char **)__arg : __arg;			\
+}))
 
 #define __GNUC_VA_LIST 1
 typedef va_list __gnuc_va_list;
-- 
2.43.0


From c1fb5dbd1defde75695cdb5c4681cad201e57135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:41 +0000
Subject: [PATCH 036/158] fix: do not access struct arguments with misaligned
 loads and stores

---
 codegen.c | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/codegen.c b/codegen.c
index c63aff0..332e5fc 100644
--- a/codegen.c
+++ b/codegen.c
@@ -402,9 +402,10 @@ static void add_offset(const char *reg, const char *base, int offset)
 }
 
 // Load `size` bytes, at most 8, from offset(base) to reg, using t2.
-static void load_bytes(const char *reg, const char *base, int offset, int size)
+static void load_bytes(const char *reg, const char *base, int offset, int size, int align)
 {
-	switch (size) {
+	// no misaligned access
+	switch (size > align ? 0 : size) {
 	case 1:
 		println("\tlb %s, %d(%s)", reg, offset, base);
 		return;
@@ -430,9 +431,10 @@ static void load_bytes(const char *reg, const char *base, int offset, int size)
 }
 
 // Store the low `size` bytes, at most 8, of reg to offset(base).
-static void store_bytes(const char *reg, const char *base, int offset, int size)
+static void store_bytes(const char *reg, const char *base, int offset, int size, int align)
 {
-	switch (size) {
+	// no misaligned access
+	switch (size > align ? 0 : size) {
 	case 1:
 		println("\tsb %s, %d(%s)", reg, offset, base);
 		return;
@@ -838,7 +840,8 @@ static void push_args(struct Node *arg, struct ArgLoc *loc)
 	case TY_STRUCT:
 	case TY_UNION:
 		for (int i = loc->nparts - 1; i >= 0; i--) {
-			load_bytes("t0", "a0", loc->part[i].offset, loc->part[i].size);
+			load_bytes("t0", "a0", loc->part[i].offset,
+				   loc->part[i].size, arg->ty->align);
 			push("t0");
 		}
 		break;
@@ -967,7 +970,8 @@ static void copy_ret_buffer(struct Obj *var)
 			println("\tfs%s %s, %d(t0)", part->size == sizeof(float) ? "w" : "d",
 				argflt[part->idx], part->offset);
 		else
-			store_bytes(argreg[part->idx], "t0", part->offset, part->size);
+			store_bytes(argreg[part->idx], "t0", part->offset,
+				    part->size, var->ty->align);
 	}
 	println("\tmv a0, t0");
 
@@ -1575,7 +1579,8 @@ static void copy_struct_reg(void)
 			println("\tfl%s %s, %d(t0)", part->size == sizeof(float) ? "w" : "d",
 				argflt[part->idx], part->offset);
 		else
-			load_bytes(argreg[part->idx], "t0", part->offset, part->size);
+			load_bytes(argreg[part->idx], "t0", part->offset,
+				   part->size, current_fn->ty->return_ty->align);
 	}
 
 	debug("copy_struct_reg end");
@@ -1910,7 +1915,7 @@ static void store_params(struct Obj *fn)
 			else if (loc.by_ref)
 				copy_bytes("t1", reg, var->ty->size);
 			else
-				store_bytes(reg, "t1", part->offset, part->size);
+				store_bytes(reg, "t1", part->offset, part->size, var->align);
 		}
 	}
 
-- 
2.43.0


From cc33794799db8e80f1fa438c0e03e51ab53a07db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:56 +0000
Subject: [PATCH 037/158] fix: drop pending temporaries at the target of a jump
 out of a statement expression

---
 codegen.c       | 23 ++++++++++++++++++++++-
 parser/parser.c |  2 ++
 toycc.h         |  1 +
 3 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/codegen.c b/codegen.c
index 332e5fc..990160b 100644
--- a/codegen.c
+++ b/codegen.c
@@ -29,6 +29,8 @@ static int count(void)
 
 // code generator
 static int depth = 0;
+// depth where the body of the current function begins
+static int body_depth;
 static const char * const argreg[] = {
 	"a0",
 	"a1",
@@ -1040,6 +1042,19 @@ static void extract_bitfield(struct Member *mem, int offset)
 		println("\tsext.w a0, a0");
 }
 
+// A jump out of a statement expression leaves the temporaries of the
+// enclosing expression on the stack, so drop them at the jump's target.
+static void reset_sp(void)
+{
+	if (!current_fn->has_stmt_expr)
+		return;
+
+	add_offset("t0", "fp", current_fn->alloca_bottom->offset);
+	println("\tld t0, (t0)");
+	println("\tandi t0, t0, -16");
+	add_offset("sp", "t0", -8 * (depth - body_depth));
+}
+
 // Generate code for a given node.
 static void gen_expr(struct Node *node)
 {
@@ -1648,11 +1663,13 @@ static void gen_stmt(struct Node *node)
 		}
 		gen_stmt(node->then);
 		println("%s:", node->cont_label);
+		reset_sp();
 		if (node->inc)
 			gen_expr(node->inc);
 		println("\tj begin.%d", c);
 
 		println("%s:", node->brk_label);
+		reset_sp();
 		debug("end ND_FOR");
 		return;
 
@@ -1662,12 +1679,14 @@ static void gen_stmt(struct Node *node)
 		println("begin.%d:", c);
 		gen_stmt(node->then);
 		println("%s:", node->cont_label);
+		reset_sp();
 
 		gen_expr(node->cond);
 		cmp_zero(node->cond->ty);
 		println("\tbeqz a0, begin.%d", c);
 
 		println("%s:", node->brk_label);
+		reset_sp();
 		return;
 
 	case ND_SWITCH:
@@ -1705,6 +1724,7 @@ static void gen_stmt(struct Node *node)
 		println("\tj %s", node->brk_label);
 		gen_stmt(node->then);
 		println("%s:", node->brk_label);
+		reset_sp();
 		return;
 
 	case ND_CASE:
@@ -1728,6 +1748,7 @@ static void gen_stmt(struct Node *node)
 
 	case ND_LABEL:
 		println("%s:", node->unique_label);
+		reset_sp();
 		gen_stmt(node->lhs);
 		return;
 
@@ -1990,7 +2011,7 @@ static void emit_text(struct Obj *prog)
 		println("\tadd t0, t0, fp");
 		println("\tsd sp, (t0)");
 
-		int pre_depth = depth;
+		int pre_depth = body_depth = depth;
 
 		// Emit code
 		gen_stmt(fn->body);
diff --git a/parser/parser.c b/parser/parser.c
index cb30bcb..bc315bf 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -158,6 +158,8 @@ static struct Node *primary(struct Token **rest, struct Token *tok)
 		// This is a GNU statement expression.
 		struct Node *n = new_node(ND_STMT_EXPR, tok);
 
+		if (current_fn)
+			current_fn->has_stmt_expr = true;
 		n->body = compound_stmt(&tok, tok->next->next)->body;
 		*rest = skip(tok, ")");
 		return n;
diff --git a/toycc.h b/toycc.h
index 0208abe..16fc796 100644
--- a/toycc.h
+++ b/toycc.h
@@ -302,6 +302,7 @@ struct Obj {
 	struct Obj *locals;
 	struct Obj *va_area;
 	struct Obj *alloca_bottom;
+	bool has_stmt_expr;
 	int stack_size;
 
 	// for static inline function
-- 
2.43.0


From 256953a09e1631ac8813c8593358d519c1a1b9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:34 +0000
Subject: [PATCH 038/158] fix: make atomic operations work for objects of every
 size and sequentially consistent

---
 codegen.c | 221 +++++++++++++++++++++++++++++++++++++++++-------------
 type.c    |   4 +-
 2 files changed, 172 insertions(+), 53 deletions(-)

diff --git a/codegen.c b/codegen.c
index 990160b..5776f07 100644
--- a/codegen.c
+++ b/codegen.c
@@ -321,7 +321,7 @@ static void gen_addr(struct Node *node)
 static struct Obj *current_fn;
 
 // Load a value from where a0 is pointing to.
-static void load(struct Type *ty)
+static void load_value(struct Type *ty)
 {
 	// If it is an array, do not attempt to load a value
 	// to the register because in general we can't load
@@ -372,6 +372,16 @@ static void load(struct Type *ty)
 		println("\tld a0, (a0)");
 }
 
+static void load(struct Type *ty)
+{
+	// An access to an atomic object is sequentially consistent.
+	if (ty->is_atomic)
+		println("\tfence rw, rw");
+	load_value(ty);
+	if (ty->is_atomic)
+		println("\tfence r, rw");
+}
+
 // Copy `size` bytes from (src) to (dst), using t0 and t2.
 static void copy_bytes(const char *dst, const char *src, int size)
 {
@@ -461,6 +471,9 @@ static void store_bytes(const char *reg, const char *base, int offset, int size,
 // Store a0 to an address that the stack top is pointing to.
 static void store(struct Type *ty)
 {
+	if (ty->is_atomic)
+		println("\tfence rw, w");
+
 	if (ty->kind == TY_LDOUBLE) {
 		pop("a2");
 		println("\tsd a0, 0(a2)");
@@ -1055,6 +1068,159 @@ static void reset_sp(void)
 	add_offset("sp", "t0", -8 * (depth - body_depth));
 }
 
+// Evaluate the new value of an atomic operation on an object of type ty
+// to a0, as an integer.
+static void gen_atomic_val(struct Node *node, struct Type *ty)
+{
+	switch (ty->size) {
+	case 1:
+	case 2:
+	case 4:
+	case 8:
+		if (is_numeric(ty) || ty->kind == TY_PTR)
+			break;
+		// fallthrough
+	default:
+		error_tok(node->tok, "unsupported atomic type");
+	}
+
+	gen_expr(node);
+	if (is_float(ty))
+		println("\tfmv.x.%s a0, fa0", ty->size == sizeof(float) ? "w" : "d");
+}
+
+// There are atomic instructions for words only, so a byte or halfword is
+// accessed as a part of the word around it.
+// t0: address of the object -> address of the word
+// t5: bit offset of the object in the word, t6: mask of the object
+static void gen_atomic_part(int size)
+{
+	println("\tandi t5, t0, 3");
+	println("\tslli t5, t5, 3");
+	println("\tandi t0, t0, -4");
+	println("\tli t6, %d", size == 1 ? 0xff : 0xffff);
+	println("\tsllw t6, t6, t5");
+	println("\tsllw a0, a0, t5");
+	println("\tand a0, a0, t6");
+}
+
+// if (*A == *B)
+//	*A = C, return true
+// else
+//	*B = *A, return false
+static void gen_cas(struct Node *node)
+{
+	struct Type *ty = node->cas_addr->ty->base;
+	int c = count();
+
+	gen_expr(node->cas_addr);
+	push("a0");
+	gen_expr(node->cas_old);
+	push("a0");
+	// a0: C value
+	gen_atomic_val(node->cas_new, ty);
+	// t1: B addr
+	pop("t1");
+	// t0: A addr
+	pop("t0");
+
+	// lr(Load-Reserved):
+	// Load and Reserved control of the memory address.
+	//
+	// sc(Store-Conditional):
+	// Writes a value from a register to a specified memory
+	// address, the write operation takes effect only if the
+	// memory address is still reserved by the processor.
+	//
+	// aq(acquisition):
+	// If the AQ bit is set, any memory operations in this
+	// hardware thread that occur after an atomic memory
+	// operation(AMO) will not occur before the AMO.
+	//
+	// rl(release):
+	// If the RL bit is set, any memory operations in this
+	// hardware thread that occur before an atomic memory
+	// operation(AMO) will not occur after the AMO.
+	if (ty->size < (int)sizeof(int)) {
+		const char *sz = ty->size == 1 ? "b" : "h";
+
+		// t2: B value
+		println("\tl%su t2, (t1)", sz);
+		gen_atomic_part(ty->size);
+		println("\tsllw t2, t2, t5");
+
+		println(".L.cas_retry.%d:", c);
+		println("\tlr.w.aqrl t4, (t0)");
+		// a1: A value
+		println("\tand a1, t4, t6");
+		println("\tbne a1, t2, .L.cas_fail.%d", c);
+		println("\tsub t4, t4, a1");
+		println("\tor t4, t4, a0");
+		println("\tsc.w.rl t3, t4, (t0)");
+		println("\tbnez t3, .L.cas_retry.%d", c);
+		println("\tli a0, 1");
+		println("\tj .L.cas_end.%d", c);
+
+		println(".L.cas_fail.%d:", c);
+		println("\tsrlw a1, a1, t5");
+		println("\ts%s a1, (t1)", sz);
+	} else {
+		const char *sz = ty->size == sizeof(int) ? "w" : "d";
+
+		// t2: B value
+		println("\tl%s t2, (t1)", sz);
+
+		println(".L.cas_retry.%d:", c);
+		// a1: A value
+		println("\tlr.%s.aqrl a1, (t0)", sz);
+		println("\tbne a1, t2, .L.cas_fail.%d", c);
+		println("\tsc.%s.rl t3, a0, (t0)", sz);
+		println("\tbnez t3, .L.cas_retry.%d", c);
+		println("\tli a0, 1");
+		println("\tj .L.cas_end.%d", c);
+
+		// if not equals, write B addr with A value
+		println(".L.cas_fail.%d:", c);
+		println("\ts%s a1, (t1)", sz);
+	}
+	println("\tli a0, 0");
+	println(".L.cas_end.%d:", c);
+}
+
+static void gen_exch(struct Node *node)
+{
+	struct Type *ty = node->lhs->ty->base;
+	int c = count();
+
+	gen_expr(node->lhs);
+	push("a0");
+	gen_atomic_val(node->rhs, ty);
+	pop("t0");
+
+	if (ty->size >= (int)sizeof(int)) {
+		println("\tamoswap.%s.aqrl a0, a0, (t0)",
+			ty->size == sizeof(int) ? "w" : "d");
+	} else {
+		gen_atomic_part(ty->size);
+		println(".L.exch_retry.%d:", c);
+		println("\tlr.w.aqrl t4, (t0)");
+		println("\tand a1, t4, t6");
+		println("\tsub t4, t4, a1");
+		println("\tor t4, t4, a0");
+		println("\tsc.w.rl t3, t4, (t0)");
+		println("\tbnez t3, .L.exch_retry.%d", c);
+		println("\tsrlw a0, a1, t5");
+
+		int shift = 64 - ty->size * 8;
+		println("\tslli a0, a0, %d", shift);
+		println("\tsr%si a0, a0, %d",
+			ty->is_unsigned || ty->kind == TY_BOOL ? "l" : "a", shift);
+	}
+
+	if (is_float(ty))
+		println("\tfmv.%s.x fa0, a0", ty->size == sizeof(float) ? "w" : "d");
+}
+
 // Generate code for a given node.
 static void gen_expr(struct Node *node)
 {
@@ -1341,60 +1507,11 @@ static void gen_expr(struct Node *node)
 		return;
 
 	case ND_CAS:
-		// t0: A addr
-		gen_expr(node->cas_addr);
-		println("\tmv t0, a0");
-		// t1: B addr
-		gen_expr(node->cas_old);
-		println("\tmv t1, a0");
-		// t2: B value
-		load(node->cas_old->ty->base);
-		println("\tmv t2, a0");
-		// t3: C value
-		gen_expr(node->cas_new);
-		println("\tmv t3, a0");
-
-		c = count();
-		println(".L.cas_retry.%d:", c);
-
-		// lr(Load-Reserved):
-		// Load and Reserved control of the memory address.
-		//
-		// aq(acquisition):
-		// If the AQ bit is set, any memory operations in this
-		// hardware thread that occur after an atomic memory
-		// operation(AMO) will not occur before the AMO.
-
-		// t4: A value
-		println("\tlr.w.aq t4, (t0)");
-		println("\tbne t4, t2, .L.cas_return.%d", c);
-
-		// sc(Store-Conditional):
-		// Writes a value from a register to a specified memory
-		// address, the write operation takes effect only if the
-		// memory address is still reserved by the processor.
-		println("\tsc.w.aq a0, t3, (t0)");
-		println("\tbnez a0, .L.cas_retry.%d", c);
-
-		println(".L.cas_return.%d:", c);
-		// compare A value and B value
-		println("\tsubw t2, t4, t2");
-		println("\tseqz a0, t2");
-		println("\tbeqz t2, .L.cas_end.%d", c);
-
-		// if not equals, write B addr with A value
-		println("\tsw t4, (t1)");
-		println(".L.cas_end.%d:", c);
+		gen_cas(node);
 		return;
 
 	case ND_EXCH:
-		gen_expr(node->lhs);
-		push("a0");
-		gen_expr(node->rhs);
-		pop("a1");
-
-		size_t sz = node->lhs->ty->base->size;
-		println("amoswap.%s.aq a0, a0, (a1)", sz <= sizeof(int) ? "w" : "d");
+		gen_exch(node);
 		return;
 
 	default:
diff --git a/type.c b/type.c
index 8708231..f3fc0d5 100644
--- a/type.c
+++ b/type.c
@@ -527,13 +527,15 @@ void add_type(struct Node *node)
 		if (node->cas_old->ty->kind != TY_PTR)
 			error_tok(node->cas_old->tok, "pointer expected");
 
+		node->cas_new = new_cast(node->cas_new, node->cas_addr->ty->base);
 		node->ty = p_ty_bool();
 		break;
 
 	case ND_EXCH:
 		if (node->lhs->ty->kind != TY_PTR)
-			error_tok(node->cas_addr->tok, "pointer expected");
+			error_tok(node->lhs->tok, "pointer expected");
 
+		node->rhs = new_cast(node->rhs, node->lhs->ty->base);
 		node->ty = node->lhs->ty->base;
 		break;
 
-- 
2.43.0


From 58965d6a06afaf123079e29d03c73ff806bf3036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:34 +0000
Subject: [PATCH 039/158] fix: make compound assignment to an atomic struct
 member atomic

---
 parser/parser.c | 172 +++++++++++++++++++++++++-----------------------
 1 file changed, 91 insertions(+), 81 deletions(-)

diff --git a/parser/parser.c b/parser/parser.c
index bc315bf..2a4da1f 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -367,6 +367,92 @@ static struct Node *struct_ref(struct Node *node, struct Token *tok)
 	return node;
 }
 
+// If A is an atomic type, convert `A op= B` to
+// ({
+//	T1 *addr = &A;
+//	T2 val = B;
+//	T1 old = *addr;
+//	T1 new;
+//
+//	do {
+//		new = old op val;
+//	} while (!atomic_compare_exchange_strong(addr, &old, new));
+//
+//	new;
+// })
+//
+// The value of a postfix operator is `old` instead.
+static struct Node *to_atomic_assign(struct Node *binary, bool is_postfix)
+{
+	struct Token *tok = binary->tok;
+	struct Node head = {};
+	struct Node *cur = &head;
+
+	struct Type *ty = copy_type(binary->lhs->ty);
+	ty->is_atomic = false;
+
+	struct Obj *addr = new_lvar("", pointer_to(binary->lhs->ty));
+	struct Obj *val = new_lvar("", binary->rhs->ty);
+	struct Obj *old = new_lvar("", ty);
+	struct Obj *new = new_lvar("", ty);
+
+	// addr = &A
+	cur = cur->next =
+		new_unary(ND_EXPR_STMT,
+			  new_binary(ND_ASSIGN, new_var_node(addr, tok),
+				     new_unary(ND_ADDR, binary->lhs, tok),
+				     tok),
+			  tok);
+
+	// val = B
+	cur = cur->next =
+		new_unary(ND_EXPR_STMT,
+			  new_binary(ND_ASSIGN, new_var_node(val, tok),
+				     binary->rhs, tok),
+			  tok);
+
+	// old = *addr
+	cur = cur->next =
+		new_unary(ND_EXPR_STMT,
+			  new_binary(ND_ASSIGN, new_var_node(old, tok),
+				     new_unary(ND_DEREF, new_var_node(addr, tok), tok),
+				     tok),
+			  tok);
+
+	// loop: do { then: body } while(cond)
+	struct Node *loop = new_node(ND_DO, tok);
+
+	loop->brk_label = new_unique_name();
+	loop->cont_label = new_unique_name();
+
+	// new = old op val
+	struct Node *body = new_binary(ND_ASSIGN,
+				       new_var_node(new, tok),
+				       new_binary(binary->kind,
+						  new_var_node(old, tok),
+						  new_var_node(val, tok), tok),
+				       tok);
+
+	loop->then = new_node(ND_BLOCK, tok);
+	loop->then->body = new_unary(ND_EXPR_STMT, body, tok);
+
+	struct Node *cas = new_node(ND_CAS, tok);
+	cas->cas_addr = new_var_node(addr, tok);
+	cas->cas_old = new_unary(ND_ADDR, new_var_node(old, tok), tok);
+	cas->cas_new = new_var_node(new, tok);
+	loop->cond = new_unary(ND_NOT, cas, tok);
+
+	cur = cur->next = loop;
+	// return new or old
+	cur = cur->next = new_unary(ND_EXPR_STMT,
+			      new_var_node(is_postfix ? old : new, tok), tok);
+
+	//  ({ ... })
+	struct Node *node = new_node(ND_STMT_EXPR, tok);
+	node->body = head.next;
+	return node;
+}
+
 // Convert op= operators to expressions containing an assignment.
 //
 // In general, `A op= C` is converted to ``tmp = &A, *tmp = *tmp op B`.
@@ -380,6 +466,9 @@ static struct Node *to_assign(struct Node *binary)
 
 	struct Token *tok = binary->tok;
 
+	if (binary->lhs->ty->is_atomic)
+		return to_atomic_assign(binary, false);
+
 	// Convert `A.x op= C` to `tmp = &A, (*tmp).x = (*tmp).x op C`.
 	if (binary->lhs->kind == ND_MEMBER) {
 		// var tmp
@@ -410,84 +499,6 @@ static struct Node *to_assign(struct Node *binary)
 		return new_binary(ND_COMMA, expr1, expr4, tok);
 	}
 
-	// If A is an atomic type, Convert `A op= B` to
-	// ({
-	//	T1 *addr = &A;
-	//	T2 val = B;
-	//	T1 old = *addr;
-	//	T1 new;
-	//
-	//	do {
-	//		new = old op val;
-	//	} while (!atomic_compare_exchange_strong(addr, &old, new));
-	//
-	//	new;
-	// })
-	if (binary->lhs->ty->is_atomic) {
-		struct Node head = {};
-		struct Node *cur = &head;
-
-		struct Obj *addr = new_lvar("", pointer_to(binary->lhs->ty));
-		struct Obj *val = new_lvar("", binary->rhs->ty);
-		struct Obj *old = new_lvar("", binary->lhs->ty);
-		struct Obj *new = new_lvar("", binary->lhs->ty);
-
-		// addr = &A
-		cur = cur->next =
-			new_unary(ND_EXPR_STMT,
-				  new_binary(ND_ASSIGN, new_var_node(addr, tok),
-					     new_unary(ND_ADDR, binary->lhs, tok),
-					     tok),
-				  tok);
-
-		// val = B
-		cur = cur->next =
-			new_unary(ND_EXPR_STMT,
-				  new_binary(ND_ASSIGN, new_var_node(val, tok),
-					     binary->rhs, tok),
-				  tok);
-
-		// old = *addr
-		cur = cur->next =
-			new_unary(ND_EXPR_STMT,
-				  new_binary(ND_ASSIGN, new_var_node(old, tok),
-					     new_unary(ND_DEREF, new_var_node(addr, tok), tok),
-					     tok),
-				  tok);
-
-		// loop: do { then: body } while(cond)
-		struct Node *loop = new_node(ND_DO, tok);
-
-		loop->brk_label = new_unique_name();
-		loop->cont_label = new_unique_name();
-
-		// new = old op val
-		struct Node *body = new_binary(ND_ASSIGN,
-					       new_var_node(new, tok),
-					       new_binary(binary->kind,
-							  new_var_node(old, tok),
-							  new_var_node(val, tok), tok),
-					       tok);
-
-		loop->then = new_node(ND_BLOCK, tok);
-		loop->then->body = new_unary(ND_EXPR_STMT, body, tok);
-
-		struct Node *cas = new_node(ND_CAS, tok);
-		cas->cas_addr = new_var_node(addr, tok);
-		cas->cas_old = new_unary(ND_ADDR, new_var_node(old, tok), tok);
-		cas->cas_new = new_var_node(new, tok);
-		loop->cond = new_unary(ND_NOT, cas, tok);
-
-		cur = cur->next = loop;
-		// return new
-		cur = cur->next = new_unary(ND_EXPR_STMT, new_var_node(new, tok), tok);
-
-		//  ({ ... })
-		struct Node *node = new_node(ND_STMT_EXPR, tok);
-		node->body = head.next;
-		return node;
-	}
-
 	// Convert `A op= C` to `tmp = &A, *tmp = *tmp op B`.
 	// var tmp
 	struct Obj *var = new_lvar("", pointer_to(binary->lhs->ty));
@@ -514,10 +525,9 @@ static struct Node *new_inc_dec(struct Node *node, struct Token *tok, int addend
 
 	if (node->ty->is_atomic) {
 		struct Node *node_add = new_add(node, new_num(addend, tok), tok);
-		struct Node *node_to_assign = to_assign(node_add);
-		struct Node *node_minus = new_add(node_to_assign, new_num(-addend, tok), tok);
 
-		return new_cast(node_minus, node->ty);
+		add_type(node_add->rhs);
+		return to_atomic_assign(node_add, true);
 	}
 
 	// A bit-field has no address, so take the one of its struct.
-- 
2.43.0


From d220554e8598dadffae3ad1dd5d72a31ce95107e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:34 +0000
Subject: [PATCH 040/158] fix: accept _Atomic as a pointer qualifier

---
 parser/declarator.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/parser/declarator.c b/parser/declarator.c
index e6c6ac3..f9ac3d1 100644
--- a/parser/declarator.c
+++ b/parser/declarator.c
@@ -319,8 +319,11 @@ static struct Type *pointers(struct Token **rest, struct Token *tok,
 		       equal(tok, "volatile") ||
 		       equal(tok, "restrict") ||
 		       equal(tok, "__restrict") ||
-		       equal(tok, "__restrict__")) {
-			// ignore
+		       equal(tok, "__restrict__") ||
+		       equal(tok, "_Atomic")) {
+			// ignore all but _Atomic
+			if (equal(tok, "_Atomic"))
+				ty->is_atomic = true;
 			tok = tok->next;
 		}
 	}
@@ -525,6 +528,7 @@ struct Type *declspec(struct Token **rest, struct Token *tok,
 			if (equal(tok , "(")) {
 				ty = typename(&tok, tok->next);
 				tok = skip(tok, ")");
+				counter += OTHER;
 			}
 			is_atomic = true;
 			continue;
-- 
2.43.0


From 8a372b7a55699eb5d80d03ef1d0c8f8195cdf7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:34 +0000
Subject: [PATCH 041/158] fix: let stdatomic.h return old values and provide
 the missing names

---
 include/stdatomic.h | 45 +++++++++++++++++++++++++++++++--------------
 1 file changed, 31 insertions(+), 14 deletions(-)

diff --git a/include/stdatomic.h b/include/stdatomic.h
index 22da14f..a2e720a 100644
--- a/include/stdatomic.h
+++ b/include/stdatomic.h
@@ -12,19 +12,21 @@
 #define ATOMIC_LLONG_LOCK_FREE 1
 #define ATOMIC_POINTER_LOCK_FREE 1
 
-enum memory_order {
+typedef enum memory_order {
 	memory_order_relaxed,
 	memory_order_consume,
 	memory_order_acquire,
 	memory_order_release,
 	memory_order_acq_rel,
 	memory_order_seq_cst,
-};
+} memory_order;
 
-#define ATOMIC_FLAG_INIT(x) (x)
+#define ATOMIC_FLAG_INIT 0
+#define ATOMIC_VAR_INIT(x) (x)
 #define atomic_init(addr, val) (*(addr) = (val))
 #define kill_dependency(x) (x)
-#define atomic_thread_fence(order)
+#define atomic_thread_fence(order) \
+	((void)({ (void)(order); asm("fence rw, rw"); 0; }))
 #define atomic_signal_fence(order)
 #define atomic_is_lock_free(x) 1
 
@@ -34,17 +36,28 @@ enum memory_order {
 #define atomic_load_explicit(addr, order) (*(addr))
 #define atomic_store_explicit(addr, val, order) (*(addr) = (val))
 
-#define atomic_fetch_add(obj, val) (*(obj) += (val))
-#define atomic_fetch_sub(obj, val) (*(obj) -= (val))
-#define atomic_fetch_or(obj, val) (*(obj) |= (val))
-#define atomic_fetch_xor(obj, val) (*(obj) ^= (val))
-#define atomic_fetch_and(obj, val) (*(obj) &= (val))
+// The value is the one *obj had before the operation.
+#define __atomic_fetch_op(obj, op, val)						\
+	({									\
+		typeof(*(obj)) *__obj = (obj);					\
+		typeof(val) __val = (val);					\
+		typeof(*(obj)) __old = *__obj;					\
+		while (!__builtin_compare_and_swap(__obj, &__old, __old op __val)) \
+			;							\
+		__old;								\
+	})
 
-#define atomic_fetch_add_explicit(obj, val, order) (*(obj) += (val))
-#define atomic_fetch_sub_explicit(obj, val, order) (*(obj) -= (val))
-#define atomic_fetch_or_explicit(obj, val, order) (*(obj) |= (val))
-#define atomic_fetch_xor_explicit(obj, val, order) (*(obj) ^= (val))
-#define atomic_fetch_and_explicit(obj, val, order) (*(obj) &= (val))
+#define atomic_fetch_add(obj, val) __atomic_fetch_op(obj, +, val)
+#define atomic_fetch_sub(obj, val) __atomic_fetch_op(obj, -, val)
+#define atomic_fetch_or(obj, val) __atomic_fetch_op(obj, |, val)
+#define atomic_fetch_xor(obj, val) __atomic_fetch_op(obj, ^, val)
+#define atomic_fetch_and(obj, val) __atomic_fetch_op(obj, &, val)
+
+#define atomic_fetch_add_explicit(obj, val, order) __atomic_fetch_op(obj, +, val)
+#define atomic_fetch_sub_explicit(obj, val, order) __atomic_fetch_op(obj, -, val)
+#define atomic_fetch_or_explicit(obj, val, order) __atomic_fetch_op(obj, |, val)
+#define atomic_fetch_xor_explicit(obj, val, order) __atomic_fetch_op(obj, ^, val)
+#define atomic_fetch_and_explicit(obj, val, order) __atomic_fetch_op(obj, &, val)
 
 // __builtin_compare_and_swap(pa, pb, c_val)
 // if (*pa == *pb) then *pa = c_val, return true
@@ -53,6 +66,10 @@ enum memory_order {
 	__builtin_compare_and_swap((p), (old), (new))
 #define atomic_compare_exchange_strong(p, old, new) \
 	__builtin_compare_and_swap((p), (old), (new))
+#define atomic_compare_exchange_weak_explicit(p, old, new, succ, fail) \
+	__builtin_compare_and_swap((p), (old), (new))
+#define atomic_compare_exchange_strong_explicit(p, old, new, succ, fail) \
+	__builtin_compare_and_swap((p), (old), (new))
 
 #define atomic_exchange(obj, val) \
 	__builtin_atomic_exchange((obj), (val))
-- 
2.43.0


From eee1b8a72b8c64791497b3a713c668c5fc453ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:30 +0000
Subject: [PATCH 042/158] fix: keep directives after a macro with an empty
 expansion and never take one from an expansion

An object- or function-like macro that expands to nothing overwrote the next
token's line-start flag, so a directive on the following line was lost and a
# after such a macro became a directive.
---
 preprocessor/preprocess.c | 44 ++++++++++++++++++++++++---------------
 1 file changed, 27 insertions(+), 17 deletions(-)

diff --git a/preprocessor/preprocess.c b/preprocessor/preprocess.c
index 6e4a642..6504df1 100644
--- a/preprocessor/preprocess.c
+++ b/preprocessor/preprocess.c
@@ -54,9 +54,10 @@ static struct CondIncl *cond_incl;
 static struct HashMap pragma_once;
 static int include_next_idx;
 
+// A "#" that comes from a macro expansion doesn't start a directive.
 static bool is_hash(struct Token *tok)
 {
-	return tok->at_bol && equal(tok, "#");
+	return tok->at_bol && !tok->origin && equal(tok, "#");
 }
 
 // Some preprocessor directives such as #include allow extraneous
@@ -550,6 +551,28 @@ static bool has_varargs(struct MacroArg *args)
 	return false;
 }
 
+// Splice the expansion of the macro invocation that starts with `macro_token`
+// into the token list in front of `rest`. The first token takes over the
+// spacing of the invocation. If there is none, `rest` stays on its line,
+// where it now follows white space.
+static struct Token *splice_expansion(struct Token *macro_token,
+				      struct Token *body, struct Token *rest)
+{
+	if (body->kind == TK_EOF) {
+		if (macro_token->has_space || macro_token->at_bol)
+			rest->has_space = true;
+		return rest;
+	}
+
+	for (struct Token *t = body; t->kind != TK_EOF; t = t->next)
+		t->origin = macro_token;
+
+	rest = append(body, rest);
+	rest->at_bol = macro_token->at_bol;
+	rest->has_space = macro_token->has_space;
+	return rest;
+}
+
 // Replace func-like macro parameters with given arguments.
 static struct Token *subst(struct Token *tok, struct MacroArg *args)
 {
@@ -710,8 +733,7 @@ static bool expand_macro(struct Token **rest, struct Token *tok)
 
 	// Built-in dynamic macro application such as __FILE__ & __LINE__
 	if (m->handler) {
-		*rest = m->handler(tok);
-		(*rest)->next = tok->next;
+		*rest = splice_expansion(tok, m->handler(tok), tok->next);
 		return true;
 	}
 
@@ -721,13 +743,7 @@ static bool expand_macro(struct Token **rest, struct Token *tok)
 		struct Hideset *hs = hideset_union(tok->hideset, new_hideset(m->name));
 		struct Token *body = add_hideset(m->body, hs);
 
-		for (struct Token *t = body; t->kind != TK_EOF; t = t->next)
-			t->origin = tok;
-
-		*rest = append(body, tok->next);
-		(*rest)->at_bol = tok->at_bol;
-		(*rest)->has_space = tok->has_space;
-
+		*rest = splice_expansion(tok, body, tok->next);
 		return true;
 	}
 
@@ -756,13 +772,7 @@ static bool expand_macro(struct Token **rest, struct Token *tok)
 	struct Token *body = subst(m->body, args);
 	body = add_hideset(body, hs);
 
-	for (struct Token *t = body; t->kind != TK_EOF; t = t->next)
-		t->origin = macro_token;
-
-	*rest = append(body, tok->next);
-	(*rest)->at_bol = macro_token->at_bol;
-	(*rest)->has_space = macro_token->has_space;
-
+	*rest = splice_expansion(macro_token, body, tok->next);
 	return true;
 }
 
-- 
2.43.0


From ca5f8c04135156aa7c18d347285402f59902ae44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:24 +0000
Subject: [PATCH 043/158] fix: do not run past the end of a text that ends in a
 line comment

---
 tokenize.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tokenize.c b/tokenize.c
index 8f8ea23..47b6cb6 100644
--- a/tokenize.c
+++ b/tokenize.c
@@ -564,7 +564,7 @@ struct Token *tokenize(struct File *file)
 		// Skip line comments
 		if (startwith(p, "//")) {
 			p += 2;
-			while (*p != '\n')
+			while (*p && *p != '\n')
 				p++;
 
 			has_space = true;
-- 
2.43.0


From f290912efda05e09d3349ca4b624c520181c2735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:24 +0000
Subject: [PATCH 044/158] fix: evaluate # and ## in macro bodies as the
 standard requires

## was ignored in object-like macros, empty operands were not treated as
placemarkers in chains, expanding an argument changed what # saw, # escaped
characters outside of literals and lost newlines between tokens, parameters
inside __VA_OPT__ were not replaced and a named variadic parameter was not
looked at by it.
---
 preprocessor/preprocess.c | 291 ++++++++++++++++++++++----------------
 1 file changed, 171 insertions(+), 120 deletions(-)

diff --git a/preprocessor/preprocess.c b/preprocessor/preprocess.c
index 6504df1..b1b92d8 100644
--- a/preprocessor/preprocess.c
+++ b/preprocessor/preprocess.c
@@ -516,11 +516,32 @@ struct Token *new_str_token(const char *str, struct Token *tmpl)
 // This function is used for the stringizing operator (#).
 static struct Token *stringize(struct Token *hash, struct Token *arg)
 {
+	char *buf;
+	size_t buflen;
+	FILE *fp = open_memstream(&buf, &buflen);
+
+	fputc('"', fp);
+	for (struct Token *t = arg; t->kind != TK_EOF; t = t->next) {
+		// String and character literals are spelled so that
+		// the result contains them verbatim.
+		bool is_literal = t->kind == TK_STR || t->kind == TK_NUM;
+
+		if (t != arg && (t->has_space || t->at_bol))
+			fputc(' ', fp);
+
+		for (size_t i = 0; i < t->len; i++) {
+			if (is_literal && (t->loc[i] == '\\' || t->loc[i] == '"'))
+				fputc('\\', fp);
+			fputc(t->loc[i], fp);
+		}
+	}
+	fputs("\"", fp);
+	fclose(fp);
+
 	// Create a new string token. We need to set some value to its
 	// source location for error reporting function, so we use a macro
 	// name token as a template.
-	const char *s = join_tokens(arg, NULL);
-	return new_str_token(s, hash);
+	return tokenize(new_file(hash->file->name, hash->file->file_no, buf));
 }
 
 // Concatenate two tokens to create a new token.
@@ -533,24 +554,12 @@ static struct Token *paste(struct Token *lhs, struct Token *rhs)
 
 	// Tokenize the resulting string.
 	struct Token *tok = tokenize(new_file(lhs->file->name, lhs->file->file_no, buf));
-	if (tok->next->kind != TK_EOF)
+	if (tok->kind == TK_EOF || tok->next->kind != TK_EOF)
 		error_tok(lhs, "pasting forms '%s', an invalid token", buf);
 
 	return tok;
 }
 
-// check macro's arguments for __VA_ARGS__
-static bool has_varargs(struct MacroArg *args)
-{
-	for (struct MacroArg *ap = args; ap; ap = ap->next) {
-		if (!strcmp(ap->name, "__VA_ARGS__")) {
-			// check the first argument
-			return ap->tok->kind != TK_EOF;
-		}
-	}
-	return false;
-}
-
 // Splice the expansion of the macro invocation that starts with `macro_token`
 // into the token list in front of `rest`. The first token takes over the
 // spacing of the invocation. If there is none, `rest` stays on its line,
@@ -573,45 +582,84 @@ static struct Token *splice_expansion(struct Token *macro_token,
 	return rest;
 }
 
-// Replace func-like macro parameters with given arguments.
-static struct Token *subst(struct Token *tok, struct MacroArg *args)
+// Copy the tokens of `tok`, which ends with an EOF token.
+static struct Token *copy_tokens(struct Token *tok)
 {
 	struct Token head = {};
 	struct Token *cur = &head;
 
-	while (tok->kind != TK_EOF) {
-		// "#" followed by a parameter is replaced with stringized actuals.
-		if (equal(tok, "#")) {
-			struct MacroArg *arg = find_arg(args, tok->next);
-			if (!arg)
-				error_tok(tok->next, "'#' is not followed by a macro parameter");
-
-			cur = cur->next = stringize(tok, arg->tok);
-			// skip '#arg'
-			tok = tok->next->next;
-			continue;
-		}
+	for (; tok; tok = tok->next)
+		cur = cur->next = copy_token(tok);
 
-		// [GNU] If __VA_ARG__ is empty, `,##__VA_ARGS__` is expanded
-		// to the empty token list.
-		// Otherwise, it's expanded to `,` and __VA_ARGS__.
-		if (equal(tok, ",") && equal(tok->next, "##")) {
-			struct MacroArg *arg = find_arg(args, tok->next->next);
+	return head.next;
+}
 
-			if (arg && arg->is_va_args) {
-				// macro's arguments
-				if (arg->tok->kind == TK_EOF) {
-					// just ignore
-					tok = tok->next->next->next;
+// An operand of `##` that has no tokens is represented by a placemarker,
+// an empty token that vanishes once all `##` have been evaluated.
+static bool is_placemarker(struct Token *tok)
+{
+	return tok->kind != TK_EOF && tok->len == 0;
+}
 
-				} else {
-					// point to __VA_ARGS__
-					cur = cur->next = copy_token(tok);
-					tok = tok->next->next;
-				}
-				continue;
-			}
-		}
+static struct Token *new_placemarker(struct Token *tmpl, struct Token *eof)
+{
+	struct Token *tok = copy_token(tmpl);
+
+	tok->kind = TK_PUNCT;
+	tok->len = 0;
+	tok->next = eof;
+	return tok;
+}
+
+// Returns true if the variable arguments contain tokens.
+static bool has_varargs(struct MacroArg *args)
+{
+	for (struct MacroArg *ap = args; ap; ap = ap->next)
+		if (ap->is_va_args)
+			return preprocess2(copy_tokens(ap->tok))->kind != TK_EOF;
+
+	return false;
+}
+
+// Read `__VA_OPT__ ( x )`. It is replaced with x if there are
+// variable arguments, and with nothing otherwise.
+static struct Token *subst(struct Token *tok, struct MacroArg *args, bool is_objlike);
+static struct Token *subst_va_opt(struct Token **rest, struct Token *tok,
+				  struct MacroArg *args)
+{
+	struct MacroArg *x = read_macro_arg_one(&tok, tok->next->next, true);
+
+	*rest = skip(tok, ")");
+
+	if (has_varargs(args))
+		return subst(x->tok, args, false);
+	return new_eof(tok);
+}
+
+static bool is_va_opt(struct Token *tok, struct MacroArg *args)
+{
+	if (!equal(tok, "__VA_OPT__") || !equal(tok->next, "("))
+		return false;
+
+	for (struct MacroArg *ap = args; ap; ap = ap->next)
+		if (ap->is_va_args)
+			return true;
+
+	return false;
+}
+
+// Replace macro parameters with given arguments
+// and evaluate the operators `#` and `##`.
+static struct Token *subst(struct Token *tok, struct MacroArg *args, bool is_objlike)
+{
+	struct Token head = {};
+	struct Token *cur = &head;
+	// the token before `cur`
+	struct Token *prev = &head;
+	bool is_rhs = false;
+
+	while (tok->kind != TK_EOF) {
+		struct Token *start = tok;
 
 		if (equal(tok, "##")) {
 			if (cur == &head)
@@ -620,100 +668,103 @@ static struct Token *subst(struct Token *tok, struct MacroArg *args)
 			if (tok->next->kind == TK_EOF)
 				error_tok(tok, "'##' cannot appear at end of macro expansion");
 
-			struct MacroArg *arg = find_arg(args, tok->next);
-			// Handle a macro token.
-			if (arg) {
-				if (arg->tok->kind != TK_EOF) {
-					// only paste the arg's first token
-					*cur = *paste(cur, arg->tok);
+			tok = tok->next;
 
-					for (struct Token *t = arg->tok->next; t->kind != TK_EOF; t = t->next)
-						cur = cur->next = copy_token(t);
+			// [GNU] If __VA_ARG__ is empty, `,##__VA_ARGS__` is expanded
+			// to the empty token list.
+			// Otherwise, it's expanded to `,` and __VA_ARGS__.
+			struct MacroArg *arg = find_arg(args, tok);
+			if (arg && arg->is_va_args && equal(cur, ",")) {
+				if (arg->tok->kind == TK_EOF) {
+					prev->next = new_placemarker(cur, NULL);
+					cur = prev->next;
+					tok = tok->next;
 				}
-
-				// skip 'arg2'
-				tok = tok->next->next;
 				continue;
 			}
 
-			// Handle a non-macro token
-			*cur = *paste(cur, tok->next);
-			tok = tok->next->next;
+			is_rhs = true;
 			continue;
 		}
 
-		// match args' param->name in the macro's body
 		struct MacroArg *arg = find_arg(args, tok);
-
-		if (arg && equal(tok->next, "##")) {
-			struct Token *rhs = tok->next->next;
-
-			// arg is null, directly link rhs' tokens
-			if (arg->tok->kind == TK_EOF) {
-				struct MacroArg *arg2 = find_arg(args, rhs);
-				if (arg2) {
-					for (struct Token *t = arg2->tok; t->kind != TK_EOF; t = t->next)
-						cur = cur->next = copy_token(t);
-				} else {
-					cur = cur->next = copy_token(rhs);
-				}
-
-				tok = rhs->next;
-				continue;
+		// the tokens that replace this part of the body
+		struct Token *t;
+
+		if (!is_objlike && equal(tok, "#")) {
+			// "#" followed by a parameter is replaced with stringized actuals.
+			if (is_va_opt(tok->next, args)) {
+				t = stringize(start, subst_va_opt(&tok, tok->next, args));
+			} else {
+				arg = find_arg(args, tok->next);
+				if (!arg)
+					error_tok(tok->next, "'#' is not followed by a macro parameter");
+
+				t = stringize(start, arg->tok);
+				// skip '#arg'
+				tok = tok->next->next;
 			}
-
-			for (struct Token *t = arg->tok; t->kind != TK_EOF; t = t->next)
-				cur = cur->next = copy_token(t);
-
+		} else if (is_va_opt(tok, args)) {
+			t = subst_va_opt(&tok, tok, args);
+		} else if (arg) {
+			// Macro arguments are completely macro-expanded
+			// before they are substituted into a macro body,
+			// unless they are operands of `##`.
+			t = copy_tokens(arg->tok);
+			if (!is_rhs && !equal(tok->next, "##"))
+				t = preprocess2(t);
+			tok = tok->next;
+		} else {
+			t = copy_token(tok);
+			t->next = new_eof(tok);
 			tok = tok->next;
-			// Just link the arg's tokens,
-			// leave the rest job to forward code
-			continue;
 		}
 
-		// If __VA_ARG__ is empty, __VA_OPT__(x) is expanded to the
-		// empty token list. Otherwise, __VA_OPT__(x) is expanded to x.
-		if (equal(tok, "__VA_OPT__") && equal(tok->next, "(")) {
-			// read x argument
-			struct MacroArg *arg_x = read_macro_arg_one(&tok, tok->next->next, true);
+		if (t->kind == TK_EOF)
+			t = new_placemarker(start, t);
+		t->at_bol = start->at_bol;
+		t->has_space = start->has_space;
 
-			// check macro's arguments for __VA_ARGS__
-			if (has_varargs(args))
-				// expand and insert into token list
-				for (struct Token *t = arg_x->tok; t->kind != TK_EOF; t = t->next)
-					cur = cur->next = t;
+		if (is_rhs) {
+			// paste the last token so far and the first one of `t`
+			is_rhs = false;
 
-			tok = skip(tok, ")");
-			continue;
-		}
+			if (!is_placemarker(cur)) {
+				struct Token *eof = t->next;
 
-		// Handle a macro token.
-		// Macro arguments are completely macro-expanded
-		// before they are substituted into a macro body.
-		if (arg) {
-			// expand the macro
-			struct Token *t = preprocess2(arg->tok);
-			t->at_bol = tok->at_bol;
-			t->has_space = tok->has_space;
-
-			for (; t->kind != TK_EOF; t = t->next) {
-				cur->next = copy_token(t);
-				cur = cur->next;
+				if (!is_placemarker(t))
+					t = paste(cur, t);
+				else
+					t = copy_token(cur);
+				t->next = eof;
 			}
 
-			tok = tok->next;
-			continue;
+			t->at_bol = cur->at_bol;
+			t->has_space = cur->has_space;
+			cur = prev;
 		}
 
-		// Handle a non-macro token
-		cur->next = copy_token(tok);
-		cur = cur->next;
-
-		tok = tok->next;
-		continue;
+		for (; t->kind != TK_EOF; t = t->next) {
+			prev = cur;
+			cur = cur->next = t;
+		}
 	}
 
 	cur->next = tok;
+
+	// remove the placemarkers
+	for (cur = &head; cur->next->kind != TK_EOF;) {
+		if (is_placemarker(cur->next)) {
+			struct Token *next = cur->next->next;
+
+			if (cur->next->has_space && next->kind != TK_EOF)
+				next->has_space = true;
+			cur->next = next;
+		} else {
+			cur = cur->next;
+		}
+	}
+
 	return head.next;
 }
 
@@ -741,7 +792,7 @@ static bool expand_macro(struct Token **rest, struct Token *tok)
 	if (m->is_objlike) {
 		// add macro to the tok's hideset
 		struct Hideset *hs = hideset_union(tok->hideset, new_hideset(m->name));
-		struct Token *body = add_hideset(m->body, hs);
+		struct Token *body = add_hideset(subst(m->body, NULL, true), hs);
 
 		*rest = splice_expansion(tok, body, tok->next);
 		return true;
@@ -769,7 +820,7 @@ static bool expand_macro(struct Token **rest, struct Token *tok)
 	// add self into hide-set
 	hs = hideset_union(hs, new_hideset(m->name));
 
-	struct Token *body = subst(m->body, args);
+	struct Token *body = subst(m->body, args, false);
 	body = add_hideset(body, hs);
 
 	*rest = splice_expansion(macro_token, body, tok->next);
-- 
2.43.0


From 56e8920b54f6a975aca05baf7698325871440574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:55 +0000
Subject: [PATCH 045/158] fix: print with -E every token of the preprocessed
 program

-E converted and joined string literals first and printed only the first
literal of a sequence, rejected preprocessing numbers that are no numbers, and
ran tokens from macro expansions together. #line inside of a conditional group
was taken for an unterminated conditional directive.
---
 main.c                    | 32 +++++++++++++++++++++++++-------
 preprocessor/preprocess.c | 20 +++++++++++++-------
 toycc.h                   |  1 +
 3 files changed, 39 insertions(+), 14 deletions(-)

diff --git a/main.c b/main.c
index 9d40ae3..1c219e0 100644
--- a/main.c
+++ b/main.c
@@ -464,20 +464,36 @@ static void run_cc1(int argc, const char **argv,
 }
 
 // Print tokens to stdout. Used for -E.
+// Returns true if two tokens could be read as something else
+// when there is no space between them.
+static bool need_space(struct Token *prev, struct Token *tok)
+{
+	char a = prev->loc[prev->len - 1];
+	char b = tok->loc[0];
+	bool is_word = isalnum(b) || b == '_' || b == '$' || b < 0;
+
+	if (prev->kind == TK_PP_NUM)
+		return is_word || strchr(".+-\"'", b);
+	if (prev->kind == TK_IDENT)
+		return is_word || b == '"' || b == '\'';
+	if (a == '.' && isdigit(b))
+		return true;
+	return strchr("+-*/%<>=&|!^#:.", a) && strchr("+-*/%<>=&|!^#:.", b);
+}
+
 static void print_tokens(struct Token *tok)
 {
 	FILE *out = open_file(opt_o ? opt_o : "-");
-	bool first_line = true;
+	struct Token *prev = NULL;
 
-	for (; tok->kind != TK_EOF; tok = tok->next) {
-		if (!first_line && tok->at_bol)
+	for (; tok->kind != TK_EOF; prev = tok, tok = tok->next) {
+		// A "#" at the beginning of a line would start a directive.
+		if (prev && tok->at_bol && !equal(tok, "#"))
 			fprintf(out, "\n");
-
-		if (tok->has_space && !tok->at_bol)
+		else if (prev && (tok->has_space || tok->at_bol || need_space(prev, tok)))
 			fprintf(out, " ");
-		fprintf(out, "%.*s", (int)tok->len, tok->loc);
 
-		first_line = false;
+		fprintf(out, "%.*s", (int)tok->len, tok->loc);
 	}
 	fprintf(out, "\n");
 }
@@ -606,6 +622,8 @@ static void cc1(void)
 		return;
 	}
 
+	convert_tokens(tok);
+
 	struct Obj *prog = parser(tok);
 
 	// Open a temporary output buffer.
diff --git a/preprocessor/preprocess.c b/preprocessor/preprocess.c
index b1b92d8..b550b03 100644
--- a/preprocessor/preprocess.c
+++ b/preprocessor/preprocess.c
@@ -1068,7 +1068,8 @@ static const char *search_include_next(const char *filename)
 static void read_line_marker(struct Token **rest, struct Token *tok)
 {
 	struct Token *start = tok;
-	tok = preprocessor(copy_line(rest, tok));
+	tok = preprocess2(copy_line(rest, tok));
+	convert_tokens(tok);
 
 	if (tok->kind != TK_NUM || tok->ty->kind != TY_INT)
 		error_tok(tok, "invalid line marker");
@@ -1376,6 +1377,16 @@ struct Token *preprocessor(struct Token *tok)
 	if (cond_incl)
 		error_tok(cond_incl->tok, "unterminated conditional directive");
 
+	for (struct Token *t = tok; t; t = t->next)
+		t->line_no += t->line_delta;
+
+	return tok;
+};
+
+// Convert preprocessing tokens, which is what -E prints,
+// to the tokens that the parser reads.
+void convert_tokens(struct Token *tok)
+{
 	// pp-number:
 	// After all replacements due to macro expansion and
 	// the defined unary operator have been performed,
@@ -1385,9 +1396,4 @@ struct Token *preprocessor(struct Token *tok)
 	// each preprocessing token is converted into a token.
 	convert_pp_tokens(tok);
 	join_adjacent_string_literals(tok);
-
-	for (struct Token *t = tok; t; t = t->next)
-		t->line_no += t->line_delta;
-
-	return tok;
-};
+}
diff --git a/toycc.h b/toycc.h
index 16fc796..3d68736 100644
--- a/toycc.h
+++ b/toycc.h
@@ -137,6 +137,7 @@ void init_macros(void);
 void define_macro(const char *name, const char *buf);
 void undef_macro(const char *name);
 struct Token *preprocessor(struct Token *tok);
+void convert_tokens(struct Token *tok);
 bool file_exists(const char *path);
 const char *search_include_paths(const char *filename);
 
-- 
2.43.0


From 7b54a44b5ab08f11c5b124c42338c43e8df5b6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:13 +0000
Subject: [PATCH 046/158] fix: ignore extra tokens after a directive instead of
 compiling them

---
 preprocessor/preprocess.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preprocessor/preprocess.c b/preprocessor/preprocess.c
index b550b03..b5c6eee 100644
--- a/preprocessor/preprocess.c
+++ b/preprocessor/preprocess.c
@@ -68,7 +68,7 @@ static struct Token *skip_line(struct Token *tok)
 		return tok;
 
 	warn_tok(tok, "extra token");
-	while (tok->at_bol)
+	while (!tok->at_bol)
 		tok = tok->next;
 	return tok;
 }
-- 
2.43.0


From 9dc06b9f9e88ade2f0fcaf46f05820ea7869d9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:13 +0000
Subject: [PATCH 047/158] fix: let a preprocessing number contain underscores

---
 tokenize.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tokenize.c b/tokenize.c
index 47b6cb6..d6d7764 100644
--- a/tokenize.c
+++ b/tokenize.c
@@ -615,7 +615,7 @@ struct Token *tokenize(struct File *file)
 					strchr("eEpP", p[0]) &&
 					strchr("+-", p[1]))
 					p += 2;
-				else if (isalnum(*p) || *p == '.')
+				else if (isalnum(*p) || *p == '.' || *p == '_')
 					p++;
 				else
 					break;
-- 
2.43.0


From b68ab7640ada2309989e9c4e56271c0ed6e4b94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:42 +0000
Subject: [PATCH 048/158] fix: do not insert a key into the hash table twice

A deleted entry in front of the key was reused, after which deleting the key
brought back its old value: #define A, #define B, #undef A, #define B, #undef B
could leave B defined.
---
 hashmap.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/hashmap.c b/hashmap.c
index 4947695..15090d0 100644
--- a/hashmap.c
+++ b/hashmap.c
@@ -92,6 +92,9 @@ static struct HashEntry *get_or_insert_entry(struct HashMap *map, const char *ke
 	}
 
 	uint64_t hash = fnv_hash(key, keylen);
+	// The key may follow a deleted entry, so reuse that
+	// only after the key turned out not to be in the map.
+	struct HashEntry *deleted = NULL;
 
 	for (int i = 0; i < map->capacity; i++) {
 		struct HashEntry *ent = &map->buckets[(hash + i) % map->capacity];
@@ -99,16 +102,17 @@ static struct HashEntry *get_or_insert_entry(struct HashMap *map, const char *ke
 		if (match(ent, key, keylen))
 			return ent;
 
-		if (ent->key == TOMBSTONE) {
-			ent->key = key;
-			ent->keylen = keylen;
-			return ent;
-		}
+		if (ent->key == TOMBSTONE && !deleted)
+			deleted = ent;
 
 		if (ent->key == NULL) {
+			if (deleted)
+				ent = deleted;
+			else
+				map->used++;
+
 			ent->key = key;
 			ent->keylen = keylen;
-			map->used++;
 			return ent;
 		}
 
-- 
2.43.0


From 33e7becba7cc90afba333fd51549388fbe5a0221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:34 +0000
Subject: [PATCH 049/158] fix: search -I directories before the standard ones

The standard directories came first, so a header in an -I directory could not
replace a standard one. "-I dir" and "-idirafter dir" did not work, and -D, -U,
-L and -MQ without an argument crashed.
---
 main.c | 53 +++++++++++++++++++++++++++++++++--------------------
 1 file changed, 33 insertions(+), 20 deletions(-)

diff --git a/main.c b/main.c
index 1c219e0..07090a0 100644
--- a/main.c
+++ b/main.c
@@ -82,6 +82,10 @@ static bool take_arg(const char *arg)
 		"-x",
 		"-MF",
 		"-MT",
+		"-MQ",
+		"-D",
+		"-U",
+		"-L",
 		"-Xlinker",
 	};
 
@@ -150,6 +154,26 @@ static const char *quote_makefile(const char *s)
 	return (const char *)buf;
 }
 
+static void add_default_include_paths(const char *argv0)
+{
+	int first = include_paths.len;
+
+	// We expect that toycc-specific include files
+	// are installed to ./include relative to argv[0].
+	strarray_push(&include_paths,
+		      format("%s/include", dirname(strdup(argv0))));
+
+	// Add standard include paths.
+	strarray_push(&include_paths, "/usr/local/include");
+	strarray_push(&include_paths, "/usr/riscv64-linux-gnu/include");
+	strarray_push(&include_paths, "/usr/include/riscv64-linux-gnu");
+	strarray_push(&include_paths, "/usr/include");
+
+	// Keep a copy of the standard include paths for -MMD option.
+	for (int i = first; i < include_paths.len; i++)
+		strarray_push(&std_include_paths, include_paths.data[i]);
+}
+
 static void parse_args(int argc, const char **argv)
 {
 	int i;
@@ -212,6 +236,11 @@ static void parse_args(int argc, const char **argv)
 			continue;
 		}
 
+		if (!strcmp(argv[i], "-I")) {
+			strarray_push(&include_paths, argv[++i]);
+			continue;
+		}
+
 		if (!strncmp(argv[i], "-I", 2)) {
 			strarray_push(&include_paths, argv[i] + 2);
 			continue;
@@ -330,7 +359,7 @@ static void parse_args(int argc, const char **argv)
 		}
 
 		if (!strcmp(argv[i], "-idirafter")) {
-			strarray_push(&idirafter, argv[i++]);
+			strarray_push(&idirafter, argv[++i]);
 			continue;
 		}
 
@@ -389,6 +418,9 @@ static void parse_args(int argc, const char **argv)
 		strarray_push(&input_paths, argv[i]);
 	}
 
+	// -I directories are searched before the standard ones
+	// and -idirafter directories after them.
+	add_default_include_paths(argv[0]);
 	for (int i = 0; i < idirafter.len; i++)
 		strarray_push(&include_paths, idirafter.data[i]);
 
@@ -796,24 +828,6 @@ static void run_linker(struct StringArray *inputs, const char *output)
 	run_subprocess(arr.data);
 }
 
-static void add_default_include_paths(const char *argv0)
-{
-	// We expect that toycc-specific include files
-	// are installed to ./include relative to argv[0].
-	strarray_push(&include_paths,
-		      format("%s/include", dirname(strdup(argv0))));
-
-	// Add standard include paths.
-	strarray_push(&include_paths, "/usr/local/include");
-	strarray_push(&include_paths, "/usr/riscv64-linux-gnu/include");
-	strarray_push(&include_paths, "/usr/include/riscv64-linux-gnu");
-	strarray_push(&include_paths, "/usr/include");
-
-	// Keep a copy of the standard include paths for -MMD option.
-	for (int i = 0; i < include_paths.len; i++)
-		strarray_push(&std_include_paths, include_paths.data[i]);
-}
-
 static enum FileType get_file_type(const char *filename)
 {
 	if (opt_x != FILE_NONE)
@@ -844,7 +858,6 @@ int main(int argc, const char **argv)
 
 	atexit(cleanup);
 	init_macros();
-	add_default_include_paths(argv[0]);
 	parse_args(argc, argv);
 
 	if (opt_cc1) {
-- 
2.43.0


From 9df11f71e14676be920944bc4f22a7ec50e43e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:49 +0000
Subject: [PATCH 050/158] fix: recognise include guards only if they enclose
 the whole file

A file that merely starts with #ifndef/#define and ends with some #endif was
skipped when it was included again, and so was one with an #else.
---
 preprocessor/preprocess.c | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/preprocessor/preprocess.c b/preprocessor/preprocess.c
index b5c6eee..0527da0 100644
--- a/preprocessor/preprocess.c
+++ b/preprocessor/preprocess.c
@@ -983,21 +983,13 @@ static const char *detect_include_guard(struct Token *tok)
 	    !equal(tok->next->next, macro))
 		return NULL;
 
-	// Read until the end of the file.
-	while (tok->kind != TK_EOF) {
-		if (!is_hash(tok)) {
-			tok = tok->next;
-			continue;
-		}
-
-		if (equal(tok->next, "endif") && tok->next->next->kind == TK_EOF)
-			return macro;
+	// The #endif that belongs to #ifndef has to end the file,
+	// and there must be no #else or #elif.
+	tok = skip_cond_incl(tok);
+	if (is_hash(tok) && equal(tok->next, "endif") &&
+	    tok->next->next->kind == TK_EOF)
+		return macro;
 
-		if (equal(tok, "if") || equal(tok, "ifdef") || equal(tok, "ifndef"))
-			tok = skip_cond_incl(tok->next);
-		else
-			tok = tok->next;
-	}
 	return NULL;
 }
 
-- 
2.43.0


From 9517c9bd77e430e52b3fa295aae2f9aae84e249c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:05 +0000
Subject: [PATCH 051/158] fix: let #include_next continue after the directory
 of the current file

It continued after the directory that was searched last for any file, and a
file that had been found before was always taken from the same directory.
A file that includes itself without end is now reported.
---
 preprocessor/preprocess.c | 49 ++++++++++++++++++---------------------
 toycc.h                   |  5 ++++
 2 files changed, 27 insertions(+), 27 deletions(-)

diff --git a/preprocessor/preprocess.c b/preprocessor/preprocess.c
index 0527da0..49fcf7c 100644
--- a/preprocessor/preprocess.c
+++ b/preprocessor/preprocess.c
@@ -52,7 +52,6 @@ struct CondIncl {
 static struct HashMap macros;
 static struct CondIncl *cond_incl;
 static struct HashMap pragma_once;
-static int include_next_idx;
 
 // A "#" that comes from a macro expansion doesn't start a directive.
 static bool is_hash(struct Token *tok)
@@ -994,7 +993,7 @@ static const char *detect_include_guard(struct Token *tok)
 }
 
 static struct Token *include_file(struct Token *tok, const char *path,
-				  struct Token *filename_tok)
+				  struct Token *filename_tok, int include_next_idx)
 {
 	// Check for "#pragma once"
 	if (hashmap_get(&pragma_once, path))
@@ -1013,6 +1012,11 @@ static struct Token *include_file(struct Token *tok, const char *path,
 		error_tok(filename_tok, "%s: cannot open file: %s",
 			  path, strerror(errno));
 
+	tok_header->file->include_next_idx = include_next_idx;
+	tok_header->file->include_depth = filename_tok->file->include_depth + 1;
+	if (tok_header->file->include_depth > 200)
+		error_tok(filename_tok, "#include nested too deeply");
+
 	guard_name = detect_include_guard(tok_header);
 	if (guard_name)
 		hashmap_put(&include_guards, path, (void *)guard_name);
@@ -1020,40 +1024,29 @@ static struct Token *include_file(struct Token *tok, const char *path,
 	return append(tok_header, tok);
 }
 
-const char *search_include_paths(const char *filename)
+// Search a file from the include paths, starting with the `*idx`th one.
+// Returns the path, and where to continue the search in `*idx`.
+static const char *search_include_paths_from(const char *filename, int *idx)
 {
 	if (filename[0] == '/')
 		return filename;
 
-	static struct HashMap cache;
-
-	const char *cached = hashmap_get(&cache, filename);
-	if (cached)
-		return cached;
-
-	// Search a file from the include paths.
-	for (int i = 0; i < get_include_paths()->len; i++) {
+	for (int i = *idx; i < get_include_paths()->len; i++) {
 		const char *path = format("%s/%s", get_include_paths()->data[i], filename);
 		if (!file_exists(path))
 			continue;
 
-		hashmap_put(&cache, filename, (void *)path);
-		include_next_idx = i + 1;
+		*idx = i + 1;
 		return path;
 	}
 	return NULL;
 }
 
-static const char *search_include_next(const char *filename)
+const char *search_include_paths(const char *filename)
 {
-	for (; include_next_idx < get_include_paths()->len; include_next_idx++) {
-		const char *path = format("%s/%s",
-					   get_include_paths()->data[include_next_idx],
-					   filename);
-		if (file_exists(path))
-			return path;
-	}
-	return NULL;
+	int idx = 0;
+
+	return search_include_paths_from(filename, &idx);
 }
 
 // Read #line arguments
@@ -1114,22 +1107,24 @@ static struct Token *preprocess2(struct Token *tok)
 				// search under current directory
 				const char *path = format("%s/%s", dirname(strdup(start->file->name)), filename);
 				if (file_exists(path)) {
-					tok = include_file(tok, path, start->next->next);
+					tok = include_file(tok, path, start->next->next, 0);
 					continue;
 				}
 			}
 
-			const char *path = search_include_paths(filename);
-			tok = include_file(tok, path ? path : filename, start->next->next);
+			int idx = 0;
+			const char *path = search_include_paths_from(filename, &idx);
+			tok = include_file(tok, path ? path : filename, start->next->next, idx);
 			continue;
 		}
 
 		if (equal(tok, "include_next")) {
 			bool ignore;
 			const char *filename = read_include_filename(&tok, tok->next, &ignore);
-			const char *path = search_include_next(filename);
+			int idx = start->file->include_next_idx;
+			const char *path = search_include_paths_from(filename, &idx);
 
-			tok = include_file(tok, path ? path : filename, start->next->next);
+			tok = include_file(tok, path ? path : filename, start->next->next, idx);
 			continue;
 		}
 
diff --git a/toycc.h b/toycc.h
index 3d68736..176e5f8 100644
--- a/toycc.h
+++ b/toycc.h
@@ -74,6 +74,11 @@ struct File {
 	// For #line directive
 	const char *display_name;
 	int line_delta;
+
+	// where #include_next in this file starts to search
+	int include_next_idx;
+	// number of files that include this one
+	int include_depth;
 };
 
 bool consume(struct Token **rest, struct Token *tok, const char *str);
-- 
2.43.0


From 6c04a15f9b6136aa642cf50f9f26b3e59db4f171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:21 +0000
Subject: [PATCH 052/158] fix: do not take a directory for an include file

---
 preprocessor/preprocess.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/preprocessor/preprocess.c b/preprocessor/preprocess.c
index 49fcf7c..bf871e0 100644
--- a/preprocessor/preprocess.c
+++ b/preprocessor/preprocess.c
@@ -951,11 +951,11 @@ static const char *read_include_filename(struct Token **rest, struct Token *tok,
 	error_tok(tok, "expected a filename");
 }
 
-// Returns true if a given file exists.
+// Returns true if a given file exists. A directory is not a file.
 bool file_exists(const char *path)
 {
 	struct stat st;
-	return !stat(path, &st);
+	return !stat(path, &st) && !S_ISDIR(st.st_mode);
 }
 
 // Detect the following "include guard" pattern.
-- 
2.43.0


From b071a05d6bfeefbe5a20377ab049634cc8836fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:36 +0000
Subject: [PATCH 053/158] fix: require every conditional to end in the file it
 started in

---
 preprocessor/preprocess.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/preprocessor/preprocess.c b/preprocessor/preprocess.c
index bf871e0..86fc030 100644
--- a/preprocessor/preprocess.c
+++ b/preprocessor/preprocess.c
@@ -235,6 +235,13 @@ static struct CondIncl *push_cond_incl(struct Token *tok, bool included)
 	return ci;
 }
 
+// Returns true if the directive at `tok` belongs to a conditional
+// of the same file.
+static bool in_cond_incl(struct Token *tok)
+{
+	return cond_incl && cond_incl->tok->file == tok->file;
+}
+
 static struct Token *skip_cond_incl2(struct Token *tok)
 {
 	while (tok->kind != TK_EOF) {
@@ -1176,7 +1183,7 @@ static struct Token *preprocess2(struct Token *tok)
 		}
 
 		if (equal(tok, "elif")) {
-			if (!cond_incl || cond_incl->ctx == IN_ELSE)
+			if (!in_cond_incl(start) || cond_incl->ctx == IN_ELSE)
 				error_tok(start, "stray #elif");
 
 			cond_incl->ctx = IN_ELIF;
@@ -1189,7 +1196,7 @@ static struct Token *preprocess2(struct Token *tok)
 		}
 
 		if (equal(tok, "else")) {
-			if (!cond_incl || cond_incl->ctx == IN_ELSE)
+			if (!in_cond_incl(start) || cond_incl->ctx == IN_ELSE)
 				error_tok(start, "stray #else");
 
 			cond_incl->ctx = IN_ELSE;
@@ -1202,7 +1209,7 @@ static struct Token *preprocess2(struct Token *tok)
 		}
 
 		if (equal(tok, "endif")) {
-			if (!cond_incl)
+			if (!in_cond_incl(start))
 				error_tok(start, "stray #endif");
 
 			// pop
-- 
2.43.0


From abe30965fd82ae7ff803cbcb2d68b897f77a2f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:49 +0000
Subject: [PATCH 054/158] fix: apply #pragma once to a file however its path is
 spelled

---
 preprocessor/preprocess.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/preprocessor/preprocess.c b/preprocessor/preprocess.c
index 86fc030..efbf7f9 100644
--- a/preprocessor/preprocess.c
+++ b/preprocessor/preprocess.c
@@ -999,11 +999,21 @@ static const char *detect_include_guard(struct Token *tok)
 	return NULL;
 }
 
+// A file is the same file however its path is spelled.
+static const char *file_id(const char *path)
+{
+	struct stat st;
+
+	if (stat(path, &st))
+		return path;
+	return format("%lu/%lu", (unsigned long)st.st_dev, (unsigned long)st.st_ino);
+}
+
 static struct Token *include_file(struct Token *tok, const char *path,
 				  struct Token *filename_tok, int include_next_idx)
 {
 	// Check for "#pragma once"
-	if (hashmap_get(&pragma_once, path))
+	if (hashmap_get(&pragma_once, file_id(path)))
 		return tok;
 
 	// If we read the same file before, and if the file was guarded
@@ -1230,7 +1240,7 @@ static struct Token *preprocess2(struct Token *tok)
 
 		if (equal(tok, "pragma") && equal(tok->next, "once")) {
 			// put current file name into pragma_once
-			hashmap_put(&pragma_once, tok->file->name, (void *)1);
+			hashmap_put(&pragma_once, file_id(tok->file->name), (void *)1);
 			tok = skip_line(tok->next->next);
 			continue;
 		}
-- 
2.43.0


From d19e9d63e6958563184ed261b3ba5314d0c631db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:25 +0000
Subject: [PATCH 055/158] fix: do not look for <file> in the working directory

An angle-bracket or #include_next file that was in none of the directories to
search was taken from the current directory instead of being reported.
---
 preprocessor/preprocess.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/preprocessor/preprocess.c b/preprocessor/preprocess.c
index efbf7f9..36801eb 100644
--- a/preprocessor/preprocess.c
+++ b/preprocessor/preprocess.c
@@ -1012,6 +1012,9 @@ static const char *file_id(const char *path)
 static struct Token *include_file(struct Token *tok, const char *path,
 				  struct Token *filename_tok, int include_next_idx)
 {
+	if (!path)
+		error_tok(filename_tok, "cannot find include file");
+
 	// Check for "#pragma once"
 	if (hashmap_get(&pragma_once, file_id(path)))
 		return tok;
@@ -1131,7 +1134,10 @@ static struct Token *preprocess2(struct Token *tok)
 
 			int idx = 0;
 			const char *path = search_include_paths_from(filename, &idx);
-			tok = include_file(tok, path ? path : filename, start->next->next, idx);
+			// At last, "filename" is searched in the working directory.
+			if (!path && is_dquote && file_exists(filename))
+				path = filename;
+			tok = include_file(tok, path, start->next->next, idx);
 			continue;
 		}
 
@@ -1141,7 +1147,7 @@ static struct Token *preprocess2(struct Token *tok)
 			int idx = start->file->include_next_idx;
 			const char *path = search_include_paths_from(filename, &idx);
 
-			tok = include_file(tok, path ? path : filename, start->next->next, idx);
+			tok = include_file(tok, path, start->next->next, idx);
 			continue;
 		}
 
-- 
2.43.0


From 252eb29e0f89fcd2398531ce8f3d8c9e7e35d5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:58 +0000
Subject: [PATCH 056/158] fix: round floating constants once and reject
 malformed ones

A decimal constant was rounded to long double first and then to its own type,
and 08 or 0x1.8 were taken for floating constants.
---
 tokenize.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/tokenize.c b/tokenize.c
index d6d7764..20816dc 100644
--- a/tokenize.c
+++ b/tokenize.c
@@ -517,9 +517,11 @@ static void convert_pp_number(struct Token *tok)
 	char *end;
 	long double val = strtold(tok->loc, &end);
 
+	// A value must be rounded only once, to the type of the constant.
 	struct Type *ty;
 	if (*end == 'f' || *end == 'F') {
 		ty = p_ty_float();
+		val = strtof(tok->loc, &end);
 		end++;
 
 	} else if (*end == 'l' || *end == 'L') {
@@ -529,9 +531,17 @@ static void convert_pp_number(struct Token *tok)
 	} else {
 		// implicit in default
 		ty = p_ty_double();
+		val = strtod(tok->loc, &end);
 	}
 
-	if (tok->loc + tok->len != end)
+	// A hexadecimal constant needs an exponent,
+	// a decimal one an exponent, a period or a suffix.
+	bool is_hex = !strncasecmp(tok->loc, "0x", 2);
+	const char *mark = tok->loc;
+	while (mark < end && !strchr(is_hex ? "pP" : ".eEfFlL", *mark))
+		mark++;
+
+	if (tok->loc + tok->len != end || mark == end)
 		error_tok(tok, "invalid numeric constant");
 
 	tok->kind = TK_NUM;
-- 
2.43.0


From 4245a861c49de8f2b3e854d544f497fa0f237d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:15 +0000
Subject: [PATCH 057/158] fix: end a character constant on its own line

An unclosed constant silently swallowed everything up to the next quote, and
an empty one was read as a quote.
---
 tokenize.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/tokenize.c b/tokenize.c
index 20816dc..8804d37 100644
--- a/tokenize.c
+++ b/tokenize.c
@@ -395,8 +395,10 @@ static struct Token *read_char_literal(const char *start,
 					struct Type *ty)
 {
 	const char *p = quote + 1;
-	if (*p == '\0')
+	if (*p == '\0' || *p == '\n')
 		error_at(start, "unclosed char literal");
+	if (*p == '\'')
+		error_at(start, "empty char literal");
 
 	int c;
 	if (*p == '\\')
@@ -404,9 +406,14 @@ static struct Token *read_char_literal(const char *start,
 	else
 		c = decode_utf8(&p, p);
 
-	const char *end = strchr(p, '\'');
-	if (!end)
-		error_at(p, "unclosed char literal");
+	const char *end = p;
+	while (*end != '\'') {
+		if (*end == '\n' || *end == '\0')
+			error_at(start, "unclosed char literal");
+		if (*end == '\\' && end[1])
+			end++;
+		end++;
+	}
 
 	// skip '\''
 	struct Token *tok = new_token(TK_NUM, start, end + 1);
-- 
2.43.0


From 5e138be58cea0e3c58d760d8fdc62b323fc757ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:31 +0000
Subject: [PATCH 058/158] fix: do not concatenate u8 and u string literals

They were taken for the same kind and overflowed the result's buffer. A literal
that is converted to a wide one keeps its location.
---
 preprocessor/preprocess.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/preprocessor/preprocess.c b/preprocessor/preprocess.c
index 36801eb..bbe00d7 100644
--- a/preprocessor/preprocess.c
+++ b/preprocessor/preprocess.c
@@ -1282,7 +1282,7 @@ enum StringKind {
 
 static enum StringKind getStringKind(struct Token *tok)
 {
-	if (!strcmp(tok->loc, "u8"))
+	if (!strncmp(tok->loc, "u8", 2))
 		return STR_UTF8;
 
 	switch (tok->loc[0]) {
@@ -1337,9 +1337,13 @@ static void join_adjacent_string_literals(struct Token *tok)
 		// wide type string literal
 		if (basety->size > 1) {
 			for (struct Token *t = tok1; t->kind == TK_STR; t = t->next) {
-				if (t->ty->base->size == 1)
+				if (t->ty->base->size == 1) {
 					// regular string literals are converted to a wide type
-					*t = *tokenize_string_literal(t, basety);
+					struct Token *wide = tokenize_string_literal(t, basety);
+
+					t->ty = wide->ty;
+					t->str = wide->str;
+				}
 			}
 		}
 
-- 
2.43.0


From aaca34cde14dd3a34eb7d7a9ce909eb3f0606205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:48 +0000
Subject: [PATCH 059/158] fix: do not read beyond the end of operators and
 source texts

---
 tokenize.c | 6 +++---
 utils.c    | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/tokenize.c b/tokenize.c
index 8804d37..e0e8113 100644
--- a/tokenize.c
+++ b/tokenize.c
@@ -257,7 +257,7 @@ static const char *string_literal_end(const char *start)
 			// continue;
 			error_at(start, "unclosed string literal");
 
-		if (*p == '\\')
+		if (*p == '\\' && p[1])
 			// skip next char
 			p++;
 	}
@@ -887,7 +887,7 @@ static void convert_universal_chars(char *p)
 				*q++ = *p++;
 			}
 
-		} else if (p[0] == '\\') {
+		} else if (p[0] == '\\' && p[1]) {
 			// escape character
 			*q++ = *p++;
 			*q++ = *p++;
@@ -906,7 +906,7 @@ static char *ignore_bom_marker(char *p)
 	// If exists, just skip them because they are useless bytes.
 	// (It is actually not recommended to add BOM markers to UTF-8
 	// texts, but it's not uncommon particularly on Windows.)
-	if (!memcmp(p, "\xef\xbb\xbf", 3))
+	if (!strncmp(p, "\xef\xbb\xbf", 3))
 		p += 3;
 
 	return p;
diff --git a/utils.c b/utils.c
index 4188b7b..ebca6f0 100644
--- a/utils.c
+++ b/utils.c
@@ -13,7 +13,7 @@ void warn_tok(struct Token *tok, const char *fmt, ...)
 
 bool equal(struct Token *tok, const char *op)
 {
-	return !memcmp(tok->loc, op, tok->len) && !op[tok->len];
+	return strlen(op) == tok->len && !memcmp(tok->loc, op, tok->len);
 }
 
 void __attribute__((noreturn))
-- 
2.43.0


From e2a3a68ed1bf345731bcfb65b49d917b93849d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:04 +0000
Subject: [PATCH 060/158] fix: report the line and file of tokens made by # and
 ##

Diagnostics for them named line 1, and so did the debug information. The file
name set by #line was not used.
---
 preprocessor/preprocess.c | 23 ++++++++++++++++++-----
 utils.c                   |  4 ++--
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/preprocessor/preprocess.c b/preprocessor/preprocess.c
index bbe00d7..c98000f 100644
--- a/preprocessor/preprocess.c
+++ b/preprocessor/preprocess.c
@@ -126,10 +126,23 @@ static struct Token *copy_line(struct Token **rest, struct Token *tok)
 	return head.next;
 }
 
+// Tokenize a text that takes the place of `tmpl`.
+static struct Token *tokenize_text(const char *buf, struct Token *tmpl)
+{
+	struct File *file = new_file(tmpl->file->name, tmpl->file->file_no, buf);
+
+	file->display_name = tmpl->file->display_name;
+	file->line_delta = tmpl->file->line_delta;
+
+	struct Token *tok = tokenize(file);
+	for (struct Token *t = tok; t; t = t->next)
+		t->line_no = tmpl->line_no;
+	return tok;
+}
+
 struct Token *new_num_token(int val, struct Token *tmpl)
 {
-	const char *buf = format("%d", val);
-	return tokenize(new_file(tmpl->file->name, tmpl->file->file_no, buf));
+	return tokenize_text(format("%d", val), tmpl);
 }
 
 static struct Macro *find_macro(struct Token *tok);
@@ -515,7 +528,7 @@ static const char *quote_string(const char *str)
 struct Token *new_str_token(const char *str, struct Token *tmpl)
 {
 	const char *buf = quote_string(str);
-	return tokenize(new_file(tmpl->file->name, tmpl->file->file_no, buf));
+	return tokenize_text(buf, tmpl);
 }
 
 // Concatenates all tokens in `arg` and returns a new string token.
@@ -547,7 +560,7 @@ static struct Token *stringize(struct Token *hash, struct Token *arg)
 	// Create a new string token. We need to set some value to its
 	// source location for error reporting function, so we use a macro
 	// name token as a template.
-	return tokenize(new_file(hash->file->name, hash->file->file_no, buf));
+	return tokenize_text(buf, hash);
 }
 
 // Concatenate two tokens to create a new token.
@@ -559,7 +572,7 @@ static struct Token *paste(struct Token *lhs, struct Token *rhs)
 				(int)rhs->len, rhs->loc);
 
 	// Tokenize the resulting string.
-	struct Token *tok = tokenize(new_file(lhs->file->name, lhs->file->file_no, buf));
+	struct Token *tok = tokenize_text(buf, lhs);
 	if (tok->kind == TK_EOF || tok->next->kind != TK_EOF)
 		error_tok(lhs, "pasting forms '%s', an invalid token", buf);
 
diff --git a/utils.c b/utils.c
index ebca6f0..f7c664f 100644
--- a/utils.c
+++ b/utils.c
@@ -6,7 +6,7 @@ void warn_tok(struct Token *tok, const char *fmt, ...)
 {
 	va_list ap;
 	va_start(ap, fmt);
-	verror_at(tok->file->name, tok->file->contents,
+	verror_at(tok->filename, tok->file->contents,
 		  tok->line_no, tok->loc, fmt, ap);
 	va_end(ap);
 }
@@ -70,7 +70,7 @@ error_tok(struct Token *tok, const char *fmt, ...)
 {
 	va_list ap;
 	va_start(ap, fmt);
-	verror_at(tok->file->name, tok->file->contents,
+	verror_at(tok->filename, tok->file->contents,
 		  tok->line_no, tok->loc, fmt, ap);
 	va_end(ap);
 	exit(1);
-- 
2.43.0


From 6db58817b10b64f37e05c4379a64e403983f2f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:20 +0000
Subject: [PATCH 061/158] fix: report the actual error on a line that is not
 valid UTF-8

---
 unicode.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/unicode.c b/unicode.c
index 4b0dd00..79caf65 100644
--- a/unicode.c
+++ b/unicode.c
@@ -368,6 +368,18 @@ static int char_width(uint32_t c)
 	return 1;
 }
 
+// Returns true if `p` starts with a well-formed multibyte sequence.
+static bool is_utf8(const char *p)
+{
+	unsigned char c = *p;
+	int len = c >= 0b11110000 ? 4 : c >= 0b11100000 ? 3 : c >= 0b11000000 ? 2 : 0;
+
+	for (int i = 1; i < len; i++)
+		if ((unsigned char)p[i] >> 6 != 0b10)
+			return false;
+	return len;
+}
+
 // Returns the number of columns needed to display a given
 // string in a fixed-width font.
 int display_width(const char *p, int len)
@@ -376,6 +388,14 @@ int display_width(const char *p, int len)
 	int w = 0;
 
 	while (p - start < len) {
+		// Don't complain about the encoding of the line
+		// while reporting another error.
+		if ((unsigned char)*p >= 128 && !is_utf8(p)) {
+			p++;
+			w++;
+			continue;
+		}
+
 		uint32_t c = decode_utf8(&p, p);
 		w += char_width(c);
 	}
-- 
2.43.0


From 4d87a21ffc9d0c1e1574dd93b498f89c6f329c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:42 +0000
Subject: [PATCH 062/158] fix: do not depend on the host's char being signed
 for character constants

---
 tokenize.c | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/tokenize.c b/tokenize.c
index e0e8113..9e7641a 100644
--- a/tokenize.c
+++ b/tokenize.c
@@ -681,15 +681,9 @@ struct Token *tokenize(struct File *file)
 		if (*p == '\'') {
 			cur->next = read_char_literal(p, p, p_ty_int());
 			cur = cur->next;
-			// convert to single char
-			cur->val = (char)cur->val;
-#ifdef __riscv
-			// There is a bug in the riscv64-linux-gnu-gcc(12.2.0)
-			// when translate long to char:
-			// (int64_t)128 -> (char)128
-			if (cur->val > 127)
-				cur->val = -(cur->val);
-#endif
+			// Convert to single char. "char" is signed for toycc, but
+			// it may be unsigned for the compiler that builds toycc.
+			cur->val = (signed char)cur->val;
 			p += cur->len;
 			continue;
 		}
-- 
2.43.0


From cac59fea5ff9de21d2a14ca53c82f498d86566ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:56 +0000
Subject: [PATCH 063/158] fix: report a read error instead of compiling a part
 of the file

---
 tokenize.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tokenize.c b/tokenize.c
index 9e7641a..eed91d5 100644
--- a/tokenize.c
+++ b/tokenize.c
@@ -764,6 +764,9 @@ static char *read_file(const char *path)
 		fwrite(buf2, 1, n, out);
 	}
 
+	if (ferror(fp))
+		error("%s: %s", path, strerror(errno));
+
 	if (fp != stdin)
 		fclose(fp);
 
-- 
2.43.0


From 70f20b0341f29e6e53f29fc8173775a4a93b4292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:10 +0000
Subject: [PATCH 064/158] fix: reject a null character instead of ignoring the
 text after it

---
 tokenize.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tokenize.c b/tokenize.c
index eed91d5..e2fbdae 100644
--- a/tokenize.c
+++ b/tokenize.c
@@ -772,6 +772,8 @@ static char *read_file(const char *path)
 
 	// make sure that the last line is properly terminated with '\n'
 	fflush(out);
+	if (memchr(buf, '\0', buflen))
+		error("%s: null character in the source text", path);
 	if (!buflen || buf[buflen - 1] != '\n')
 		fputc('\n', out);
 	// EOF
-- 
2.43.0


From 5d5cb925363c9f3f8965d0928957537337972647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:22 +0000
Subject: [PATCH 065/158] fix: reject integer constants such as 0x0x1 and 09l

---
 tokenize.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tokenize.c b/tokenize.c
index e2fbdae..98c0005 100644
--- a/tokenize.c
+++ b/tokenize.c
@@ -430,7 +430,7 @@ static bool convert_pp_int(struct Token *tok)
 	int base = 10;
 	// isalnum: is alpha or number
 	if (!strncasecmp(p, "0x", 2) && isxdigit(p[2])) {
-		p += 2;
+		// strtoul() skips the prefix.
 		base = 16;
 	} else if (!strncasecmp(p, "0b", 2) &&
 		  (p[2] == '0' || p[2] == '1')) {
@@ -542,10 +542,10 @@ static void convert_pp_number(struct Token *tok)
 	}
 
 	// A hexadecimal constant needs an exponent,
-	// a decimal one an exponent, a period or a suffix.
+	// a decimal one an exponent, a period or "f".
 	bool is_hex = !strncasecmp(tok->loc, "0x", 2);
 	const char *mark = tok->loc;
-	while (mark < end && !strchr(is_hex ? "pP" : ".eEfFlL", *mark))
+	while (mark < end && !strchr(is_hex ? "pP" : ".eEfF", *mark))
 		mark++;
 
 	if (tok->loc + tok->len != end || mark == end)
-- 
2.43.0


From 606883d55415bc1efcbfe50702a2171618c6bf84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:53 +0000
Subject: [PATCH 066/158] fix: reject integer constants such as 0b0b1

---
 tokenize.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tokenize.c b/tokenize.c
index 98c0005..b4ec3c8 100644
--- a/tokenize.c
+++ b/tokenize.c
@@ -436,6 +436,9 @@ static bool convert_pp_int(struct Token *tok)
 		  (p[2] == '0' || p[2] == '1')) {
 		p += 2;
 		base = 2;
+		// strtoul() of C23 would skip a second prefix.
+		if (!strncasecmp(p, "0b", 2))
+			return false;
 	} else if (*p == '0') {
 		base = 8;
 	}
-- 
2.43.0


From eb083e748a3c95659fd6cd05e7da0636b44656ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:58 +0000
Subject: [PATCH 067/158] fix: report a subprocess that cannot be started or is
 killed

---
 main.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/main.c b/main.c
index 07090a0..78020a0 100644
--- a/main.c
+++ b/main.c
@@ -455,7 +455,11 @@ static void run_subprocess(const char **argv)
 		fprintf(stderr, "\n");
 	}
 
-	if (fork() == 0) {
+	pid_t pid = fork();
+	if (pid < 0)
+		error("fork failed: %s", strerror(errno));
+
+	if (pid == 0) {
 		// child process: run a new command
 		execvp(argv[0], (char *const *)argv);
 		fprintf(stderr, "exec failed: %s: %s\n",
@@ -463,9 +467,14 @@ static void run_subprocess(const char **argv)
 		_exit(1);
 	}
 
-	// wait for the child processes to finish
+	// wait for the child process to finish
 	int status;
-	while (wait(&status) > 0);
+	while (waitpid(pid, &status, 0) < 0)
+		if (errno != EINTR)
+			error("waitpid failed: %s", strerror(errno));
+
+	if (WIFSIGNALED(status))
+		error("%s: terminated by signal %d", argv[0], WTERMSIG(status));
 	if (status)
 		exit(1);
 }
-- 
2.43.0


From ade8f35dad1fca13d914295c640c2e5859010093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:15 +0000
Subject: [PATCH 068/158] fix: report write errors instead of leaving an
 incomplete output file

---
 main.c | 34 +++++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/main.c b/main.c
index 78020a0..1bdfff4 100644
--- a/main.c
+++ b/main.c
@@ -1,5 +1,6 @@
 #include <toycc.h>
 #include <sys/types.h>
+#include <sys/stat.h>
 #include <sys/wait.h>
 #include <unistd.h>
 #include <libgen.h>
@@ -445,6 +446,29 @@ static FILE *open_file(const char *path)
 	return out;
 }
 
+// Finish writing to a file opened by open_file().
+static void close_file(FILE *out, const char *path)
+{
+	bool failed = ferror(out);
+
+	if (out == stdout)
+		failed |= fflush(out) != 0;
+	else
+		failed |= fclose(out) != 0;
+
+	if (!failed)
+		return;
+
+	const char *reason = strerror(errno);
+	struct stat st;
+
+	// Do not leave an incomplete file behind.
+	if (out != stdout && !stat(path, &st) && S_ISREG(st.st_mode))
+		unlink(path);
+	error("cannot write to output file: %s: %s",
+		out == stdout ? "stdout" : path, reason);
+}
+
 static void run_subprocess(const char **argv)
 {
 	// if -### is given, dump the subprocess's command line
@@ -524,7 +548,8 @@ static bool need_space(struct Token *prev, struct Token *tok)
 
 static void print_tokens(struct Token *tok)
 {
-	FILE *out = open_file(opt_o ? opt_o : "-");
+	const char *path = opt_o ? opt_o : "-";
+	FILE *out = open_file(path);
 	struct Token *prev = NULL;
 
 	for (; tok->kind != TK_EOF; prev = tok, tok = tok->next) {
@@ -537,6 +562,7 @@ static void print_tokens(struct Token *tok)
 		fprintf(out, "%.*s", (int)tok->len, tok->loc);
 	}
 	fprintf(out, "\n");
+	close_file(out, path);
 }
 
 static struct Token *must_tokenize_file(const char *path)
@@ -616,6 +642,7 @@ static void print_dependencies(void)
 	if (opt_MP)
 		for (int i = 1; files[i]; i++)
 			fprintf(out, "%s:\n\n", quote_makefile(files[i]->name));
+	close_file(out, path);
 }
 
 static void cc1(void)
@@ -674,12 +701,13 @@ static void cc1(void)
 
 	// Traverse the AST to emit assembly.
 	codegen(prog, output_buf);
-	fclose(output_buf);
+	if (ferror(output_buf) || fclose(output_buf))
+		error("cannot write assembly text: %s", strerror(errno));
 
 	// Write the assembly text to a file.
 	FILE *out = open_file(output_file);
 	fwrite(buf, buflen, 1, out);
-	fclose(out);
+	close_file(out, output_file);
 }
 
 static void cleanup(void)
-- 
2.43.0


From 82fad1dedbf9d843feb82ea93f6f1218ff2ac1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:33 +0000
Subject: [PATCH 069/158] fix: do not run the linker with -c, -S, -E or -M

---
 main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main.c b/main.c
index 1bdfff4..80297dd 100644
--- a/main.c
+++ b/main.c
@@ -983,7 +983,7 @@ int main(int argc, const char **argv)
 		strarray_push(&ld_args, tmp2);
 	}
 
-	if (ld_args.len)
+	if (ld_args.len && !opt_c && !opt_S && !opt_E && !opt_M)
 		run_linker(&ld_args, opt_o ? opt_o : "a.out");
 
 	return 0;
-- 
2.43.0


From f5d349835d020972760908ee4955a26ac461c4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:50 +0000
Subject: [PATCH 070/158] fix: link the object of an assembly source file

---
 main.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/main.c b/main.c
index 80297dd..bbf1a05 100644
--- a/main.c
+++ b/main.c
@@ -944,9 +944,20 @@ int main(int argc, const char **argv)
 
 		// handle .s
 		if (type == FILE_ASM) {
-			if (!opt_S)
+			if (opt_S || opt_M)
+				continue;
+
+			if (opt_c) {
 				// .s -> .o
 				assemble(input, output);
+				continue;
+			}
+
+			// assemble and link
+			const char *tmp = create_tmpfile();
+
+			assemble(input, tmp);
+			strarray_push(&ld_args, tmp);
 			continue;
 		}
 
-- 
2.43.0


From c6e3f472beb20703c99f1f6889e08bb45a7f5f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:32 +0000
Subject: [PATCH 071/158] fix: let -D define macros with parameters

---
 main.c                    | 5 +++--
 preprocessor/preprocess.c | 8 ++++++++
 toycc.h                   | 1 +
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/main.c b/main.c
index bbf1a05..6687c9e 100644
--- a/main.c
+++ b/main.c
@@ -101,10 +101,11 @@ static void define(const char *str)
 {
 	const char *eq = strchr(str, '=');
 
+	// -D may define a function-like macro as well.
 	if (eq)
-		define_macro(strndup(str, eq - str), eq + 1);
+		define_macro_text(format("%.*s %s\n", (int)(eq - str), str, eq + 1));
 	else
-		define_macro(str, "1");
+		define_macro_text(format("%s 1\n", str));
 }
 
 static enum FileType parse_opt_x(const char *s)
diff --git a/preprocessor/preprocess.c b/preprocessor/preprocess.c
index c98000f..2f8035c 100644
--- a/preprocessor/preprocess.c
+++ b/preprocessor/preprocess.c
@@ -926,6 +926,14 @@ static void read_macro_definition(struct Token **rest, struct Token *tok)
 	}
 }
 
+// Define a macro by a text like that after "#define".
+void define_macro_text(const char *text)
+{
+	struct Token *tok = tokenize(new_file("<command line>", 1, text));
+
+	read_macro_definition(&tok, tok);
+}
+
 // Read an #include argument.
 static const char *read_include_filename(struct Token **rest, struct Token *tok,
 					 bool *is_dquote)
diff --git a/toycc.h b/toycc.h
index 176e5f8..938dbfe 100644
--- a/toycc.h
+++ b/toycc.h
@@ -140,6 +140,7 @@ struct Member {
 // preprocess.c
 void init_macros(void);
 void define_macro(const char *name, const char *buf);
+void define_macro_text(const char *text);
 void undef_macro(const char *name);
 struct Token *preprocessor(struct Token *tok);
 void convert_tokens(struct Token *tok);
-- 
2.43.0


From 7007ccc90136cf5292c6ce04f9e79ebf8a44dd05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:50 +0000
Subject: [PATCH 072/158] fix: accept -o with -c when libraries are given, too

---
 main.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/main.c b/main.c
index 6687c9e..6b1d90e 100644
--- a/main.c
+++ b/main.c
@@ -903,7 +903,13 @@ int main(int argc, const char **argv)
 		return 0;
 	}
 
-	if (input_paths.len > 1 && opt_o && (opt_c || opt_S || opt_E))
+	int num_files = 0;
+	for (int i = 0; i < input_paths.len; i++)
+		if (strncmp(input_paths.data[i], "-l", 2) &&
+		    strncmp(input_paths.data[i], "-Wl,", 4))
+			num_files++;
+
+	if (num_files > 1 && opt_o && (opt_c || opt_S || opt_E))
 		error("cannot specify '-o' with '-c', '-S' or '-E' with multiple files");
 
 	for (int i = 0; i < input_paths.len; i++) {
-- 
2.43.0


From 8fe06d06cf9b1077f9ed8ab2587cdf741a14c085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:38 +0000
Subject: [PATCH 073/158] fix: apply -x only to the files that follow it

---
 main.c | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/main.c b/main.c
index 6b1d90e..2ca1863 100644
--- a/main.c
+++ b/main.c
@@ -47,6 +47,17 @@ enum FileType {
 // FILE_NONE as default
 static enum FileType opt_x;
 
+// -x applies to the input files that follow it.
+static enum FileType *input_types;
+
+static void add_input(const char *path)
+{
+	strarray_push(&input_paths, path);
+	input_types = realloc(input_types,
+			      sizeof(enum FileType) * input_paths.len);
+	input_types[input_paths.len - 1] = opt_x;
+}
+
 const char *get_base_file(void)
 {
 	return base_file;
@@ -287,7 +298,7 @@ static void parse_args(int argc, const char **argv)
 
 		if (!strncmp(argv[i], "-l", 2) ||
 		    !strncmp(argv[i], "-Wl,", 4)) {
-			strarray_push(&input_paths, argv[i]);
+			add_input(argv[i]);
 			continue;
 		}
 
@@ -417,7 +428,7 @@ static void parse_args(int argc, const char **argv)
 		if (argv[i][0] == '-' && argv[i][1] != '\0')
 			error("unknown argument: %s", argv[i]);
 
-		strarray_push(&input_paths, argv[i]);
+		add_input(argv[i]);
 	}
 
 	// -I directories are searched before the standard ones
@@ -431,7 +442,8 @@ static void parse_args(int argc, const char **argv)
 
 	// -E implies that the input is the C macro language.
 	if (opt_E)
-		opt_x = FILE_C;
+		for (i = 0; i < input_paths.len; i++)
+			input_types[i] = FILE_C;
 }
 
 static FILE *open_file(const char *path)
@@ -866,10 +878,10 @@ static void run_linker(struct StringArray *inputs, const char *output)
 	run_subprocess(arr.data);
 }
 
-static enum FileType get_file_type(const char *filename)
+static enum FileType get_file_type(const char *filename, enum FileType type)
 {
-	if (opt_x != FILE_NONE)
-		return opt_x;
+	if (type != FILE_NONE)
+		return type;
 
 	if (endswith(filename, ".a"))
 		return FILE_AR;
@@ -938,7 +950,7 @@ int main(int argc, const char **argv)
 		else
 			output = replace_extn(input, ".o");
 
-		enum FileType type = get_file_type(input);
+		enum FileType type = get_file_type(input, input_types[i]);
 
 		// Handle .o or .a or .so
 		if (type == FILE_OBJ ||
-- 
2.43.0


From ff1d1ebdb8a058965490990889bb3f1ea6f2f711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:55 +0000
Subject: [PATCH 074/158] fix: quote the names of dependencies for make

---
 main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main.c b/main.c
index 2ca1863..193846e 100644
--- a/main.c
+++ b/main.c
@@ -648,7 +648,7 @@ static void print_dependencies(void)
 	for (int i = 0; files[i]; i++) {
 		if (opt_MMD && in_std_include_path(files[i]->name))
 			continue;
-		fprintf(out, " \\\n\t%s", files[i]->name);
+		fprintf(out, " \\\n\t%s", quote_makefile(files[i]->name));
 	}
 	fprintf(out, "\n");
 
-- 
2.43.0


From 6e2ee83f30e7c442ab937953f011c380004019e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:13 +0000
Subject: [PATCH 075/158] fix: write -MP rules for the dependencies other than
 the main file

---
 main.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/main.c b/main.c
index 193846e..05f3746 100644
--- a/main.c
+++ b/main.c
@@ -652,9 +652,16 @@ static void print_dependencies(void)
 	}
 	fprintf(out, "\n");
 
-	if (opt_MP)
-		for (int i = 1; files[i]; i++)
+	if (opt_MP) {
+		for (int i = 0; files[i]; i++) {
+			// The main file is not the first one after -include.
+			if (!strcmp(files[i]->name, base_file))
+				continue;
+			if (opt_MMD && in_std_include_path(files[i]->name))
+				continue;
 			fprintf(out, "%s:\n\n", quote_makefile(files[i]->name));
+		}
+	}
 	close_file(out, path);
 }
 
-- 
2.43.0


From b6d2d74d0511887bcc8f12c7cc589880f855bf30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:43 +0000
Subject: [PATCH 076/158] fix: write the -MD file beside the output file and
 name that as its target

---
 main.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/main.c b/main.c
index 05f3746..a71ae8b 100644
--- a/main.c
+++ b/main.c
@@ -611,6 +611,15 @@ static const char *replace_extn(const char *tmpl, const char *extn)
 	return format("%s%s", filename, extn);
 }
 
+// Replace file extension of a path and keep its directory.
+static const char *replace_path_extn(const char *path, const char *extn)
+{
+	const char *slash = strrchr(path, '/');
+	int dirlen = slash ? slash - path + 1 : 0;
+
+	return format("%.*s%s", dirlen, path, replace_extn(path, extn));
+}
+
 static bool in_std_include_path(const char *path)
 {
 	for (int i = 0; i < std_include_paths.len; i++) {
@@ -630,8 +639,10 @@ static void print_dependencies(void)
 	const char *path;
 	if (opt_MF)
 		path = opt_MF;
+	else if (opt_MD && opt_o)
+		path = replace_path_extn(opt_o, ".d");
 	else if (opt_MD)
-		path = replace_extn(opt_o ? opt_o : base_file, ".d");
+		path = replace_extn(base_file, ".d");
 	else if (opt_o)
 		path = opt_o;
 	else
@@ -640,6 +651,8 @@ static void print_dependencies(void)
 	FILE *out = open_file(path);
 	if (opt_MT)
 		fprintf(out, "%s:", opt_MT);
+	else if (opt_MD && opt_o && (opt_c || opt_S))
+		fprintf(out, "%s:", quote_makefile(opt_o));
 	else
 		fprintf(out, "%s:", quote_makefile(replace_extn(base_file, ".o")));
 
-- 
2.43.0


From b97632044b6ec8e7273d992503ba6fe2e5e507d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:52 +0000
Subject: [PATCH 077/158] fix: report operands that pointer arithmetic cannot
 take instead of crashing

---
 parser/parser.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/parser/parser.c b/parser/parser.c
index 2a4da1f..1dfe049 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -740,6 +740,10 @@ struct Node *new_add(struct Node *lhs, struct Node *rhs, struct Token *tok)
 		rhs = tmp;
 	}
 
+	// only an integer can be added to a pointer
+	if (!lhs->ty->base || !is_integer(rhs->ty))
+		error_tok(tok, "invalid operands");
+
 	// VLA + num
 	if (lhs->ty->base->kind == TY_VLA) {
 		rhs = new_binary(ND_MUL, rhs,
@@ -759,7 +763,7 @@ static struct Node *new_sub(struct Node *lhs, struct Node *rhs, struct Token *to
 	add_type(rhs);
 
 	// num - num
-	if (is_numeric(lhs->ty) && is_numeric(lhs->ty))
+	if (is_numeric(lhs->ty) && is_numeric(rhs->ty))
 		return new_binary(ND_SUB, lhs, rhs, tok);
 
 	// ptr - ptr, which returns how many elements are between the two.
@@ -769,6 +773,10 @@ static struct Node *new_sub(struct Node *lhs, struct Node *rhs, struct Token *to
 		return new_binary(ND_DIV, node, new_num(lhs->ty->base->size, tok), tok);
 	}
 
+	// num - ptr
+	if (!lhs->ty->base || !is_integer(rhs->ty))
+		error_tok(tok, "invalid operands");
+
 	// VLA - num
 	if (lhs->ty->base->kind == TY_VLA) {
 		rhs = new_binary(ND_MUL, rhs,
@@ -781,13 +789,8 @@ static struct Node *new_sub(struct Node *lhs, struct Node *rhs, struct Token *to
 	}
 
 	// ptr - num
-	if (lhs->ty->base && is_integer(rhs->ty)) {
-		rhs = new_binary(ND_MUL, rhs, new_long(lhs->ty->base->size, tok), tok);
-		return new_binary(ND_SUB, lhs, rhs, tok);
-	}
-
-	// num - ptr
-	error_tok(tok, "invalid operands");
+	rhs = new_binary(ND_MUL, rhs, new_long(lhs->ty->base->size, tok), tok);
+	return new_binary(ND_SUB, lhs, rhs, tok);
 }
 
 static struct Node *add(struct Token **rest, struct Token *tok)
-- 
2.43.0


From dc3f66bfee7f1746b2307c69bd2c9541be2effb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:52 +0000
Subject: [PATCH 078/158] fix: give a statement expression without a value the
 type void

---
 type.c | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/type.c b/type.c
index f3fc0d5..ff11fdf 100644
--- a/type.c
+++ b/type.c
@@ -498,19 +498,12 @@ void add_type(struct Node *node)
 		break;
 
 	case ND_STMT_EXPR:
-		if (node->body) {
-			struct Node *stmt = node->body;
+		// void unless the last statement is an expression
+		node->ty = p_ty_void();
 
-			while (stmt->next)
-				stmt = stmt->next;
-
-			if (stmt->kind == ND_EXPR_STMT)
+		for (struct Node *stmt = node->body; stmt; stmt = stmt->next)
+			if (!stmt->next && stmt->kind == ND_EXPR_STMT)
 				node->ty = stmt->lhs->ty;
-
-		} else {
-			error_tok(node->tok,
-				"statement expression returning void is not supported");
-		}
 		break;
 
 	case ND_LABEL_VAL:
-- 
2.43.0


From 69acd34179907bd08643fde7ff3040f7b234f028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:32 +0000
Subject: [PATCH 079/158] fix: report operands and conversions of types an
 operator cannot take

---
 parser/declarator.c |  5 +++++
 parser/parser.c     |  6 ++++++
 type.c              | 48 ++++++++++++++++++++++++++++++++++++++++-----
 type.h              |  1 +
 4 files changed, 55 insertions(+), 5 deletions(-)

diff --git a/parser/declarator.c b/parser/declarator.c
index f9ac3d1..1634b25 100644
--- a/parser/declarator.c
+++ b/parser/declarator.c
@@ -9,6 +9,11 @@ struct Node *new_cast(struct Node *expr, struct Type *ty)
 {
 	add_type(expr);
 
+	// neither a struct nor a void value can become something else
+	if (ty->kind != TY_VOID && ty->kind != expr->ty->kind &&
+	    (!is_scalar(ty) || !is_scalar(expr->ty)))
+		error_tok(expr->tok, "invalid conversion");
+
 	struct Node *n = calloc(1, sizeof(struct Node));
 
 	n->kind = ND_CAST;
diff --git a/parser/parser.c b/parser/parser.c
index 1dfe049..311cf6b 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -48,6 +48,8 @@ static struct Node *funcall(struct Token **rest, struct Token *tok, struct Node
 		if (param_ty) {
 			if (param_ty->kind != TY_STRUCT && param_ty->kind != TY_UNION)
 				arg = new_cast(arg, param_ty);
+			else if (arg->ty->kind != param_ty->kind)
+				error_tok(arg->tok, "invalid argument");
 			param_ty = param_ty->next;
 
 		} else if (arg->ty->kind == TY_FLOAT) {
@@ -1236,6 +1238,8 @@ static struct Node *stmt(struct Token **rest, struct Token *tok)
 		struct Type *ty = current_fn->ty->return_ty;
 		if (!is_struct_union(ty))
 			exp = new_cast(exp, current_fn->ty->return_ty);
+		else if (exp->ty->kind != ty->kind)
+			error_tok(exp->tok, "invalid return value");
 
 		node->lhs = exp;
 		return node;
@@ -1263,6 +1267,8 @@ static struct Node *stmt(struct Token **rest, struct Token *tok)
 		tok = skip(tok->next, "(");
 		n->cond = expr(&tok, tok);
 		add_type(n->cond);
+		if (!is_integer(n->cond->ty))
+			error_tok(n->cond->tok, "switch quantity is not an integer");
 		n->cond = new_cast(n->cond, promoted_type(n->cond));
 		tok = skip(tok, ")");
 
diff --git a/type.c b/type.c
index ff11fdf..3551279 100644
--- a/type.c
+++ b/type.c
@@ -180,6 +180,13 @@ bool is_numeric(struct Type *ty)
 	return is_integer(ty) || is_float(ty);
 }
 
+// Something that can be compared with zero, including
+// what decays to a pointer.
+bool is_scalar(struct Type *ty)
+{
+	return ty->kind != TY_VOID && !is_struct_union(ty);
+}
+
 bool is_compatible(struct Type *t1, struct Type *t2)
 {
 	if (t1 == t2)
@@ -377,6 +384,12 @@ static struct Type *get_cond_type(struct Node *then, struct Node *els)
 	return get_common_type(promoted_type(then), promoted_type(els));
 }
 
+static void check_operand(struct Node *operand, bool is_valid)
+{
+	if (!is_valid)
+		error_tok(operand->tok, "invalid operand");
+}
+
 void add_type(struct Node *node)
 {
 	if (!node || node->ty)
@@ -395,24 +408,39 @@ void add_type(struct Node *node)
 	for (struct Node *n = node->args; n; n = n->next)
 		add_type(n);
 
+	// the condition of a statement or an expression
+	if (node->cond)
+		check_operand(node->cond, is_scalar(node->cond->ty));
+
 	switch (node->kind) {
 	case ND_NUM:
 		node->ty = p_ty_int();
 		break;
 
-	case ND_ADD:
-	case ND_SUB:
 	case ND_MUL:
 	case ND_DIV:
+		check_operand(node->lhs, is_numeric(node->lhs->ty));
+		check_operand(node->rhs, is_numeric(node->rhs->ty));
+		// fall through
+	case ND_ADD:
+	case ND_SUB:
+		usual_arith_conv(&node->lhs, &node->rhs);
+		node->ty = node->lhs->ty;
+		break;
+
 	case ND_MOD:
 	case ND_BITAND:
 	case ND_BITOR:
 	case ND_BITXOR:
+		check_operand(node->lhs, is_integer(node->lhs->ty));
+		check_operand(node->rhs, is_integer(node->rhs->ty));
 		usual_arith_conv(&node->lhs, &node->rhs);
 		node->ty = node->lhs->ty;
 		break;
 
 	case ND_NEG: {
+		check_operand(node->lhs, is_numeric(node->lhs->ty));
+
 		struct Type *ty = get_common_type(p_ty_int(), promoted_type(node->lhs));
 		node->lhs = new_cast(node->lhs, ty);
 		node->ty = ty;
@@ -423,6 +451,8 @@ void add_type(struct Node *node)
 			error_tok(node->lhs->tok, "not an lvalue");
 		if (node->lhs->ty->kind != TY_STRUCT)
 			node->rhs = new_cast(node->rhs, node->lhs->ty);
+		else
+			check_operand(node->rhs, node->rhs->ty->kind == TY_STRUCT);
 		node->ty = node->lhs->ty;
 		break;
 
@@ -438,15 +468,22 @@ void add_type(struct Node *node)
 		node->ty = node->func_ty->return_ty;
 		break;
 
-	case ND_NOT:
 	case ND_LOGOR:
 	case ND_LOGAND:
+		check_operand(node->rhs, is_scalar(node->rhs->ty));
+		// fall through
+	case ND_NOT:
+		check_operand(node->lhs, is_scalar(node->lhs->ty));
 		node->ty = p_ty_int();
 		break;
 
-	case ND_BITNOT:
 	case ND_SHL:
-	case ND_SHR: {
+	case ND_SHR:
+		check_operand(node->rhs, is_integer(node->rhs->ty));
+		// fall through
+	case ND_BITNOT: {
+		check_operand(node->lhs, is_integer(node->lhs->ty));
+
 		struct Type *ty = promoted_type(node->lhs);
 		node->lhs = new_cast(node->lhs, ty);
 		node->ty = ty;
@@ -462,6 +499,7 @@ void add_type(struct Node *node)
 		if (node->then->ty->kind == TY_VOID || node->els->ty->kind == TY_VOID) {
 			node->ty = p_ty_void();
 		} else if (is_struct_union(node->then->ty)) {
+			check_operand(node->els, node->els->ty->kind == node->then->ty->kind);
 			node->ty = node->then->ty;
 		} else {
 			node->ty = get_cond_type(node->then, node->els);
diff --git a/type.h b/type.h
index 163b179..9d2f470 100644
--- a/type.h
+++ b/type.h
@@ -56,6 +56,7 @@ bool is_float(struct Type *ty);
 bool is_float_arg(struct Type *ty);
 bool is_struct_union(struct Type *ty);
 bool is_numeric(struct Type *ty);
+bool is_scalar(struct Type *ty);
 bool is_compatible(struct Type *t1, struct Type *t2);
 struct Type *copy_type(struct Type *ty);
 struct Type *promoted_type(struct Node *node);
-- 
2.43.0


From 7d637b6548a78c19dc04a82c23cd4c53338ebd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:58 +0000
Subject: [PATCH 080/158] fix: report void arguments, conversions between
 pointers and floats, and unary plus on them

---
 parser/declarator.c | 4 ++++
 parser/parser.c     | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/parser/declarator.c b/parser/declarator.c
index 1634b25..11e3cd8 100644
--- a/parser/declarator.c
+++ b/parser/declarator.c
@@ -14,6 +14,10 @@ struct Node *new_cast(struct Node *expr, struct Type *ty)
 	    (!is_scalar(ty) || !is_scalar(expr->ty)))
 		error_tok(expr->tok, "invalid conversion");
 
+	// nor a pointer a floating-point number
+	if ((is_float(ty) && expr->ty->base) || (ty->base && is_float(expr->ty)))
+		error_tok(expr->tok, "invalid conversion");
+
 	struct Node *n = calloc(1, sizeof(struct Node));
 
 	n->kind = ND_CAST;
diff --git a/parser/parser.c b/parser/parser.c
index 311cf6b..6f7a6fb 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -44,6 +44,8 @@ static struct Node *funcall(struct Token **rest, struct Token *tok, struct Node
 
 		if (!param_ty && !ty->is_variadic)
 			error_tok(tok, "too many arguments");
+		if (arg->ty->kind == TY_VOID)
+			error_tok(arg->tok, "void argument");
 
 		if (param_ty) {
 			if (param_ty->kind != TY_STRUCT && param_ty->kind != TY_UNION)
@@ -831,6 +833,8 @@ static struct Node *unary(struct Token **rest, struct Token *tok)
 		struct Node *node = cast(rest, tok->next);
 
 		add_type(node);
+		if (!is_numeric(node->ty))
+			error_tok(tok, "invalid operand");
 		return new_cast(node, promoted_type(node));
 	}
 
-- 
2.43.0


From d49c6d9af2777dfa2ac7729769d21fd14adfc63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:58 +0000
Subject: [PATCH 081/158] fix: report constants and array sizes that are not
 integers

---
 parser/declarator.c | 4 ++++
 parser/parser.c     | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/parser/declarator.c b/parser/declarator.c
index 11e3cd8..6db7279 100644
--- a/parser/declarator.c
+++ b/parser/declarator.c
@@ -813,6 +813,10 @@ static struct Type *array_dimension(struct Token **rest, struct Token *tok,
 	// allows conditional expression
 	struct Node *expr = conditional(&tok, tok);
 
+	add_type(expr);
+	if (!is_integer(expr->ty))
+		error_tok(expr->tok, "size of array is not an integer");
+
 	// skip "]"
 	tok = skip(tok, "]");
 	ty = type_suffix(rest, tok, ty);
diff --git a/parser/parser.c b/parser/parser.c
index 6f7a6fb..eabcfc9 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -1083,6 +1083,10 @@ struct Node *conditional(struct Token **rest, struct Token *tok)
 int64_t const_expr(struct Token **rest, struct Token *tok)
 {
 	struct Node *n = conditional(rest, tok);
+
+	add_type(n);
+	if (!is_integer(n->ty))
+		error_tok(n->tok, "integer constant expected");
 	return eval(n);
 }
 
-- 
2.43.0


From 6a3a406711dba4acf59b0d70ffccde75c3f0de2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:58 +0000
Subject: [PATCH 082/158] fix: report static variable length arrays

---
 parser/declarator.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser/declarator.c b/parser/declarator.c
index 6db7279..4396baa 100644
--- a/parser/declarator.c
+++ b/parser/declarator.c
@@ -950,6 +950,8 @@ struct Node *declaration(struct Token **rest, struct Token *tok,
 
 		if (attr && attr->is_static) {
 			// static local variable
+			if (ty->kind == TY_VLA)
+				error_tok(ty->name, "variable-sized object is static");
 			struct Obj *var = new_anon_gvar(ty);
 			push_scope(get_ident(ty->name))->var = var;
 
-- 
2.43.0


From d28829395cd00fd85f88d32d07bfaf629ba97bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:58 +0000
Subject: [PATCH 083/158] fix: report static initializers that are not constant
 instead of dropping them

---
 parser/common.c      | 2 ++
 parser/initializer.c | 7 +++++++
 2 files changed, 9 insertions(+)

diff --git a/parser/common.c b/parser/common.c
index 3c35842..aef96f2 100644
--- a/parser/common.c
+++ b/parser/common.c
@@ -235,6 +235,8 @@ static int64_t eval3(struct Node *node, const char ***label)
 			error_tok(node->tok, "not a compile-time constant");
 		if (node->var->ty->kind != TY_ARRAY && node->var->ty->kind != TY_FUNC)
 			error_tok(node->tok, "invalid initializer");
+		if (node->var->is_local)
+			error_tok(node->tok, "not a compile-time constant");
 
 		// return label
 		*label = &node->var->name;
diff --git a/parser/initializer.c b/parser/initializer.c
index cc832ab..436c7a2 100644
--- a/parser/initializer.c
+++ b/parser/initializer.c
@@ -728,6 +728,9 @@ static struct Relocation *write_gvar_data(struct Relocation *cur,
 		return cur;
 	}
 
+	if (is_struct_union(ty) && init->expr)
+		error_tok(init->expr->tok, "not a compile-time constant");
+
 	if (ty->kind == TY_STRUCT) {
 		for (struct Member *mem = ty->members; mem; mem = mem->next) {
 			if (mem->is_bitfield) {
@@ -779,6 +782,10 @@ static struct Relocation *write_gvar_data(struct Relocation *cur,
 		return cur;
 	}
 
+	// an address fits only in 8 bytes
+	if (ty->size != 8)
+		error_tok(init->expr->tok, "not a compile-time constant");
+
 	struct Relocation *rel = calloc(1, sizeof(struct Relocation));
 	rel->offset = offset;
 	rel->label = label;
-- 
2.43.0


From ec3f7097fb418e4625942f5b84d6fdc156cdb8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:58 +0000
Subject: [PATCH 084/158] fix: report impossible bitfield widths and alignments

---
 parser/declarator.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/parser/declarator.c b/parser/declarator.c
index 4396baa..dc73fb5 100644
--- a/parser/declarator.c
+++ b/parser/declarator.c
@@ -68,7 +68,14 @@ static void struct_members(struct Token **rest, struct Token *tok, struct Type *
 
 			if (consume(&tok, tok, ":")) {
 				mem->is_bitfield = true;
+				struct Token *width = tok;
 				mem->bit_width = const_expr(&tok, tok);
+
+				if (!is_integer(mem->ty) || mem->bit_width < 0 ||
+				    mem->bit_width > (mem->ty->kind == TY_BOOL ?
+						      1 : mem->ty->size * 8) ||
+				    (!mem->bit_width && mem->name))
+					error_tok(width, "invalid width of a bitfield");
 			}
 
 			cur->next = mem;
@@ -552,7 +559,11 @@ struct Type *declspec(struct Token **rest, struct Token *tok,
 			if (is_typename(tok)) {
 				attr->align = typename(&tok, tok)->align;
 			} else {
+				struct Token *align = tok;
+
 				attr->align = const_expr(&tok, tok);
+				if (attr->align < 0 || attr->align & (attr->align - 1))
+					error_tok(align, "alignment is not a power of 2");
 			}
 
 			tok = skip(tok, ")");
-- 
2.43.0


From 45c7e3f6a353720eaea9359ac74549e2d0a1e1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:58 +0000
Subject: [PATCH 085/158] fix: accept compound literals as operands of sizeof
 and _Alignof

---
 parser/parser.c | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/parser/parser.c b/parser/parser.c
index eabcfc9..e187b02 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -134,6 +134,26 @@ static struct Node *generic_selection(struct Token **rest, struct Token *tok)
 	return ret;
 }
 
+// Returns true if tok is a parenthesized type name
+// that does not begin a compound literal.
+static bool is_typename_operand(struct Token *tok)
+{
+	if (!equal(tok, "(") || !is_typename(tok->next))
+		return false;
+
+	int depth = 0;
+
+	do {
+		if (equal(tok, "("))
+			depth++;
+		else if (equal(tok, ")"))
+			depth--;
+		tok = tok->next;
+	} while (depth && tok->kind != TK_EOF);
+
+	return !equal(tok, "{");
+}
+
 // parse AST(abstract syntax tree)
 // expr -> assign -> equality -> relational -> add -> mul ->
 // unary -> postfix -> primary(num -> identifier -> bracket) ->
@@ -175,8 +195,7 @@ static struct Node *primary(struct Token **rest, struct Token *tok)
 		return node;
 	}
 
-	if (equal(tok, "sizeof") && equal(tok->next, "(") &&
-	    is_typename(tok->next->next)) {
+	if (equal(tok, "sizeof") && is_typename_operand(tok->next)) {
 		struct Type *ty = typename(&tok, tok->next->next);
 		// update rest
 		*rest = skip(tok, ")");
@@ -209,9 +228,7 @@ static struct Node *primary(struct Token **rest, struct Token *tok)
 		return new_ulong(node->ty->size, tok);
 	}
 
-	if (equal(tok, "_Alignof") && equal(tok->next, "(") &&
-	    is_typename(tok->next->next)) {
-
+	if (equal(tok, "_Alignof") && is_typename_operand(tok->next)) {
 		struct Type *ty = typename(&tok, tok->next->next);
 		*rest = skip(tok, ")");
 		return new_ulong(ty->align, tok);
-- 
2.43.0


From 7b3676dcf16de1191543de9f7e69629128d11a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:38 +0000
Subject: [PATCH 086/158] fix: report values used as lvalues, and accept
 members of statement expressions

---
 codegen.c | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/codegen.c b/codegen.c
index 5776f07..fff81d7 100644
--- a/codegen.c
+++ b/codegen.c
@@ -294,17 +294,13 @@ static void gen_addr(struct Node *node)
 		break;
 
 	case ND_FUNCALL:
-		if (node->ret_buffer)
-			gen_expr(node);
-		break;
-
 	case ND_ASSIGN:
 	case ND_COND:
-		if (node->ty->kind == TY_STRUCT ||
-		    node->ty->kind == TY_UNION) {
-			gen_expr(node);
-			return;
-		}
+	case ND_STMT_EXPR:
+		// only the value of a struct is its address
+		if (!is_struct_union(node->ty))
+			error_tok(node->tok, "not a lvalue");
+		gen_expr(node);
 		break;
 
 	case ND_VLA_PTR:
-- 
2.43.0


From a1a74c425072115624c31d31f9cf51e2811250b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:38 +0000
Subject: [PATCH 087/158] fix: report a computed goto to something other than a
 pointer

---
 parser/declarator.c | 2 +-
 parser/parser.c     | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser/declarator.c b/parser/declarator.c
index dc73fb5..13cd4a6 100644
--- a/parser/declarator.c
+++ b/parser/declarator.c
@@ -825,7 +825,7 @@ static struct Type *array_dimension(struct Token **rest, struct Token *tok,
 	struct Node *expr = conditional(&tok, tok);
 
 	add_type(expr);
-	if (!is_integer(expr->ty))
+	if (!is_integer(expr->ty) && expr->ty->kind != TY_PTR)
 		error_tok(expr->tok, "size of array is not an integer");
 
 	// skip "]"
diff --git a/parser/parser.c b/parser/parser.c
index e187b02..9311d93 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -1446,6 +1446,9 @@ static struct Node *stmt(struct Token **rest, struct Token *tok)
 			// [GNU] `goto *ptr` jumps to the address specified by `ptr`.
 			struct Node *node = new_node(ND_GOTO_EXPR, tok);
 			node->lhs = expr(&tok, tok->next->next);
+			add_type(node->lhs);
+			if (!node->lhs->ty->base)
+				error_tok(node->lhs->tok, "pointer expected");
 			*rest = skip(tok, ";");
 			return node;
 		}
-- 
2.43.0


From ac7ce5212453c597e63549d1456a27d423931b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:14 +0000
Subject: [PATCH 088/158] fix: report assignments to arrays and functions,
 adding a pointer to a number in place, and struct comparisons

---
 parser/parser.c | 11 +++++++++--
 type.c          |  6 +++++-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/parser/parser.c b/parser/parser.c
index 9311d93..87739f3 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -1117,8 +1117,15 @@ struct Node *assign(struct Token **rest, struct Token *tok)
 	if (equal(tok, "="))
 		return new_binary(ND_ASSIGN, node, assign(rest, tok->next), tok);
 
-	if (equal(tok, "+="))
-		return to_assign(new_add(node, assign(rest, tok->next), tok));
+	if (equal(tok, "+=")) {
+		struct Node *rhs = assign(rest, tok->next);
+
+		// new_add() would swap the operands
+		add_type(rhs);
+		if (rhs->ty->base)
+			error_tok(tok, "invalid operands");
+		return to_assign(new_add(node, rhs, tok));
+	}
 
 	if (equal(tok, "-="))
 		return to_assign(new_sub(node, assign(rest, tok->next), tok));
diff --git a/type.c b/type.c
index 3551279..805705b 100644
--- a/type.c
+++ b/type.c
@@ -447,7 +447,9 @@ void add_type(struct Node *node)
 		break;
 	}
 	case ND_ASSIGN:
-		if (node->lhs->ty->kind == TY_ARRAY)
+		if (node->lhs->ty->kind == TY_ARRAY ||
+		    node->lhs->ty->kind == TY_FUNC ||
+		    (node->lhs->ty->kind == TY_VLA && node->lhs->kind != ND_VLA_PTR))
 			error_tok(node->lhs->tok, "not an lvalue");
 		if (node->lhs->ty->kind != TY_STRUCT)
 			node->rhs = new_cast(node->rhs, node->lhs->ty);
@@ -460,6 +462,8 @@ void add_type(struct Node *node)
 	case ND_NE:
 	case ND_LT:
 	case ND_LE:
+		check_operand(node->lhs, is_scalar(node->lhs->ty));
+		check_operand(node->rhs, is_scalar(node->rhs->ty));
 		usual_arith_conv(&node->lhs, &node->rhs);
 		node->ty = p_ty_int();
 		break;
-- 
2.43.0


From 17c5a1019a76d5870eeda4f73098347605ed1142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:25 +0000
Subject: [PATCH 089/158] fix: report #include, #define, #undef, #ifdef and
 #ifndef without a name

---
 preprocessor/preprocess.c | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/preprocessor/preprocess.c b/preprocessor/preprocess.c
index 2f8035c..63f2cb8 100644
--- a/preprocessor/preprocess.c
+++ b/preprocessor/preprocess.c
@@ -307,6 +307,15 @@ static struct Macro *find_macro(struct Token *tok)
 	return hashmap_get2(&macros, tok->loc, tok->len);
 }
 
+// Returns true if the macro named in #ifdef or #ifndef is defined.
+static bool is_defined(struct Token *tok)
+{
+	if (tok->at_bol || tok->kind != TK_IDENT)
+		error_tok(tok, "macro name must be an identifier");
+
+	return find_macro(tok);
+}
+
 static struct Hideset *new_hideset(const char *name)
 {
 	struct Hideset *hs = calloc(1, sizeof(struct Hideset));
@@ -973,6 +982,9 @@ static const char *read_include_filename(struct Token **rest, struct Token *tok,
 	// a single string token or a sequence of "<" ... ">".
 	if (tok->kind == TK_IDENT) {
 		struct Token *tok2 = preprocess2(copy_line(rest, tok));
+
+		if (tok2->kind == TK_IDENT)
+			error_tok(tok2, "expected a filename");
 		return read_include_filename(&tok2, tok2, is_dquote);
 	}
 
@@ -1173,13 +1185,15 @@ static struct Token *preprocess2(struct Token *tok)
 		}
 
 		if (equal(tok, "define")) {
+			if (tok->next->at_bol)
+				error_tok(tok, "macro name must be an identifier");
 			read_macro_definition(&tok, tok->next);
 			continue;
 		}
 
 		if (equal(tok, "undef")) {
 			tok = tok->next;
-			if (tok->kind != TK_IDENT)
+			if (tok->at_bol || tok->kind != TK_IDENT)
 				error_tok(tok, "macro name must be an identifier");
 
 			undef_macro(strndup(tok->loc, tok->len));
@@ -1198,7 +1212,7 @@ static struct Token *preprocess2(struct Token *tok)
 		}
 
 		if (equal(tok, "ifdef")) {
-			bool defined = find_macro(tok->next);
+			bool defined = is_defined(tok->next);
 
 			push_cond_incl(tok, defined);
 			tok = skip_line(tok->next->next);
@@ -1209,7 +1223,7 @@ static struct Token *preprocess2(struct Token *tok)
 		}
 
 		if (equal(tok, "ifndef")) {
-			bool defined = find_macro(tok->next);
+			bool defined = is_defined(tok->next);
 
 			push_cond_incl(tok, !defined);
 			tok = skip_line(tok->next->next);
-- 
2.43.0


From 95570ff85262407d6059740271f1e949db607e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:25 +0000
Subject: [PATCH 090/158] fix: report negative and huge array designators
 instead of crashing

---
 parser/initializer.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/parser/initializer.c b/parser/initializer.c
index 436c7a2..062664b 100644
--- a/parser/initializer.c
+++ b/parser/initializer.c
@@ -139,14 +139,16 @@ static void string_initializer(struct Token **rest, struct Token *tok,
 static void array_designator(struct Token **rest, struct Token *tok,
 			     struct Type *ty, int *begin, int *end)
 {
-	*begin = const_expr(&tok, tok->next);
-	if (*begin >= ty->array_len)
+	int64_t val = const_expr(&tok, tok->next);
+	if (val < 0 || val >= ty->array_len)
 		error_tok(tok, "array designator index exceeds array bounds");
+	*begin = val;
 
 	if (equal(tok, "...")) {
-		*end = const_expr(&tok, tok->next);
-		if (*end >= ty->array_len)
+		val = const_expr(&tok, tok->next);
+		if (val < 0 || val >= ty->array_len)
 			error_tok(tok, "array designator index exceeds array bounds");
+		*end = val;
 		if (*end < *begin)
 			error_tok(tok, "array designator range [%d, %d] is empty", *begin, *end);
 	} else {
-- 
2.43.0


From d36d4747b396894357c60c81277b39742f60892f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:25 +0000
Subject: [PATCH 091/158] fix: do not take a parenthesis on the line after
 #define for parameters

---
 preprocessor/preprocess.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preprocessor/preprocess.c b/preprocessor/preprocess.c
index 63f2cb8..00118bc 100644
--- a/preprocessor/preprocess.c
+++ b/preprocessor/preprocess.c
@@ -920,7 +920,7 @@ static void read_macro_definition(struct Token **rest, struct Token *tok)
 	const char *name = strndup(tok->loc, tok->len);
 	tok = tok->next;
 
-	if (!tok->has_space && equal(tok, "(")) {
+	if (!tok->has_space && !tok->at_bol && equal(tok, "(")) {
 		// function-like macro
 		const char *va_args_name = NULL;
 		struct MacroParam *params = read_macro_params(&tok, tok->next, &va_args_name);
-- 
2.43.0


From a82a881e031611a8969d0043838df5456c459091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:09 +0000
Subject: [PATCH 092/158] fix: parse nested declarators once, not twice per
 level

---
 parser/declarator.c | 42 ++++++++++++++++++++++++------------------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/parser/declarator.c b/parser/declarator.c
index 13cd4a6..3de79b2 100644
--- a/parser/declarator.c
+++ b/parser/declarator.c
@@ -348,6 +348,21 @@ static struct Type *pointers(struct Token **rest, struct Token *tok,
 	return ty;
 }
 
+// Returns the parenthesis that closes the one at tok.
+static struct Token *closing_paren(struct Token *tok)
+{
+	struct Token *start = tok;
+	int depth = 0;
+
+	for (; tok->kind != TK_EOF; tok = tok->next) {
+		if (equal(tok, "("))
+			depth++;
+		else if (equal(tok, ")") && --depth == 0)
+			return tok;
+	}
+	error_tok(start, "unclosed parenthesis");
+}
+
 static struct Type *type_suffix(struct Token **rest, struct Token *tok,
 				struct Type *ty);
 // abstract_declarator = pointers ("(" abstract-declarator ")")? type-suffix
@@ -358,15 +373,11 @@ static struct Type *abstract_declarator(struct Token **rest, struct Token *tok,
 
 	// like "sizeof(char(*)[4])"
 	if (equal(tok, "(")) {
-		struct Token *start = tok->next;
-		struct Type dummy = {};
-
 		// get 'type' & update 'rest'
-		abstract_declarator(&tok, start, &dummy);
-		tok = skip(tok, ")");
-		ty = type_suffix(rest, tok, ty);
-
-		return abstract_declarator(&tok, start, ty);
+		ty = type_suffix(rest, closing_paren(tok)->next, ty);
+		ty = abstract_declarator(&tok, tok->next, ty);
+		skip(tok, ")");
+		return ty;
 	}
 
 	// like "sizeof(char[4][4])"
@@ -861,18 +872,13 @@ struct Type *declarator(struct Token **rest, struct Token *tok, struct Type *ty)
 	ty = pointers(&tok, tok, ty);
 
 	if (equal(tok, "(")) {
-		struct Token *start = tok->next;
-		struct Type dummy = {};
-
-		// get the token of type_suffix firstly
-		declarator(&tok, start, &dummy);
-		tok = skip(tok, ")");
-
 		// get the type of declarator, and update 'rest'
-		ty = type_suffix(rest, tok, ty);
+		ty = type_suffix(rest, closing_paren(tok)->next, ty);
 
-		// process 'start' token, and keep the 'rest' & return it
-		return declarator(&tok, start, ty);
+		// process what is inside, and keep the 'rest' & return it
+		ty = declarator(&tok, tok->next, ty);
+		skip(tok, ")");
+		return ty;
 	}
 
 	struct Token *name = NULL;
-- 
2.43.0


From 91f21c69a22bfa097ac5c515fdd7a27946cd951b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:09 +0000
Subject: [PATCH 093/158] fix: accept unnamed function types as parameters and
 in type names

---
 parser/declarator.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/parser/declarator.c b/parser/declarator.c
index 3de79b2..e971f7b 100644
--- a/parser/declarator.c
+++ b/parser/declarator.c
@@ -371,8 +371,8 @@ static struct Type *abstract_declarator(struct Token **rest, struct Token *tok,
 	// like "sizeof(char *)"
 	ty = pointers(&tok, tok, ty);
 
-	// like "sizeof(char(*)[4])"
-	if (equal(tok, "(")) {
+	// like "sizeof(char(*)[4])", but not "sizeof(char(int))"
+	if (equal(tok, "(") && !equal(tok->next, ")") && !is_typename(tok->next)) {
 		// get 'type' & update 'rest'
 		ty = type_suffix(rest, closing_paren(tok)->next, ty);
 		ty = abstract_declarator(&tok, tok->next, ty);
@@ -871,7 +871,10 @@ struct Type *declarator(struct Token **rest, struct Token *tok, struct Type *ty)
 {
 	ty = pointers(&tok, tok, ty);
 
-	if (equal(tok, "(")) {
+	// An unnamed function such as `void (int)` is not a nested declarator,
+	// while a typedef name in parentheses can be redeclared.
+	if (equal(tok, "(") && !equal(tok->next, ")") &&
+	    (tok->next->kind == TK_IDENT || !is_typename(tok->next))) {
 		// get the type of declarator, and update 'rest'
 		ty = type_suffix(rest, closing_paren(tok)->next, ty);
 
-- 
2.43.0


From a117be387956fe58ab55310d0666e0d60d5436ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:43 +0000
Subject: [PATCH 094/158] fix: report string literals of the wrong width for an
 array instead of reading beyond them

---
 parser/initializer.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/initializer.c b/parser/initializer.c
index 062664b..e84adc0 100644
--- a/parser/initializer.c
+++ b/parser/initializer.c
@@ -78,6 +78,9 @@ static struct Token *skip_excess_element(struct Token *tok)
 static void string_initializer(struct Token **rest, struct Token *tok,
 			       struct Initializer *init)
 {
+	if (init->ty->base->size != tok->ty->base->size)
+		error_tok(tok, "array and string literal of different character types");
+
 	if (init->is_flexible)
 		*init = *new_initializer(array_of(init->ty->base, tok->ty->array_len), false);
 
-- 
2.43.0


From dfe1ece37ea4869ef3b595069cf846545e9c3406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:43 +0000
Subject: [PATCH 095/158] fix: report members of incomplete, variable length or
 function type

---
 parser/declarator.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parser/declarator.c b/parser/declarator.c
index e971f7b..6b60c3f 100644
--- a/parser/declarator.c
+++ b/parser/declarator.c
@@ -91,6 +91,12 @@ static void struct_members(struct Token **rest, struct Token *tok, struct Type *
 		ty->is_flexible = true;
 	}
 
+	for (struct Member *mem = head.next; mem; mem = mem->next)
+		if (mem->ty->size < 0 || mem->ty->kind == TY_VOID ||
+		    mem->ty->kind == TY_FUNC || mem->ty->kind == TY_VLA)
+			error_tok(mem->name ? mem->name : tok,
+				  "member has an incomplete or function type");
+
 	// skip "}"
 	*rest = tok->next;
 	ty->members = head.next;
-- 
2.43.0


From 62a4eadae733236993f793187f8fbcc53cfc7412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:43 +0000
Subject: [PATCH 096/158] fix: report an unnamed array or function parameter
 instead of crashing

---
 parser/declarator.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/declarator.c b/parser/declarator.c
index 6b60c3f..de7f42e 100644
--- a/parser/declarator.c
+++ b/parser/declarator.c
@@ -743,6 +743,7 @@ static struct Type *func_params(struct Token **rest, struct Token *tok, struct T
 		struct Type *ty2 = declarator(&tok, tok, basety);
 
 		struct Token *name = ty2->name;
+		struct Token *name_pos = ty2->name_pos;
 
 		if (ty2->kind == TY_ARRAY) {
 			// "array of T" is converted to "pointer to T" only
@@ -750,12 +751,14 @@ static struct Type *func_params(struct Token **rest, struct Token *tok, struct T
 			// For example, *argv[] is converted to **argv by this.
 			ty2 = pointer_to(ty2->base);
 			ty2->name = name;
+			ty2->name_pos = name_pos;
 
 		} else if (ty2->kind == TY_FUNC) {
 			// Likewise, a function is converted to a pointer to
 			// a function only in the parameter context.
 			ty2 = pointer_to(ty2);
 			ty2->name = name;
+			ty2->name_pos = name_pos;
 		}
 
 		cur->next = copy_type(ty2);
-- 
2.43.0


From cfac0e50f864f47f4ff4285707a7fdbf9effed00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:14 +0000
Subject: [PATCH 097/158] fix: report casts where only a compound literal can
 stand

---
 parser/parser.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/parser.c b/parser/parser.c
index 87739f3..531ce79 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -610,6 +610,7 @@ static struct Node *postfix(struct Token **rest, struct Token *tok)
 		struct Token *start = tok;
 		struct Type *ty = typename(&tok, tok->next);
 		tok = skip(tok, ")");
+		skip(tok, "{");
 
 		if (is_global_scope()) {
 			// never enter scope, so allocate global var
-- 
2.43.0


From bb6b9a2d2412682b094c91c24ac6827e9759f8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:14 +0000
Subject: [PATCH 098/158] fix: report conversions of functions to
 floating-point types

---
 parser/declarator.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parser/declarator.c b/parser/declarator.c
index de7f42e..1df7d7c 100644
--- a/parser/declarator.c
+++ b/parser/declarator.c
@@ -14,8 +14,9 @@ struct Node *new_cast(struct Node *expr, struct Type *ty)
 	    (!is_scalar(ty) || !is_scalar(expr->ty)))
 		error_tok(expr->tok, "invalid conversion");
 
-	// nor a pointer a floating-point number
-	if ((is_float(ty) && expr->ty->base) || (ty->base && is_float(expr->ty)))
+	// nor a pointer or function a floating-point number
+	if ((is_float(ty) && (expr->ty->base || expr->ty->kind == TY_FUNC)) ||
+	    (ty->base && is_float(expr->ty)))
 		error_tok(expr->tok, "invalid conversion");
 
 	struct Node *n = calloc(1, sizeof(struct Node));
-- 
2.43.0


From e32e91226a2c882e8023f4461c40dc9e9f2a36e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:49 +0000
Subject: [PATCH 099/158] fix: do not take the line after a null directive for
 a directive

---
 preprocessor/preprocess.c | 43 ++++++++++++++++++++-------------------
 1 file changed, 22 insertions(+), 21 deletions(-)

diff --git a/preprocessor/preprocess.c b/preprocessor/preprocess.c
index 00118bc..f61dcfa 100644
--- a/preprocessor/preprocess.c
+++ b/preprocessor/preprocess.c
@@ -59,6 +59,11 @@ static bool is_hash(struct Token *tok)
 	return tok->at_bol && !tok->origin && equal(tok, "#");
 }
 
+static bool is_directive(struct Token *tok, const char *name)
+{
+	return is_hash(tok) && !tok->next->at_bol && equal(tok->next, name);
+}
+
 // Some preprocessor directives such as #include allow extraneous
 // tokens before newline. This function skips such tokens.
 static struct Token *skip_line(struct Token *tok)
@@ -258,15 +263,14 @@ static bool in_cond_incl(struct Token *tok)
 static struct Token *skip_cond_incl2(struct Token *tok)
 {
 	while (tok->kind != TK_EOF) {
-		if (is_hash(tok) &&
-		   (equal(tok->next, "if") ||
-		    equal(tok->next, "ifdef") ||
-		    equal(tok->next, "ifndef"))) {
+		if (is_directive(tok, "if") ||
+		    is_directive(tok, "ifdef") ||
+		    is_directive(tok, "ifndef")) {
 			tok = skip_cond_incl2(tok->next->next);
 			continue;
 		}
 
-		if (is_hash(tok) && equal(tok->next, "endif"))
+		if (is_directive(tok, "endif"))
 			return tok->next->next;
 
 		tok = tok->next;
@@ -279,19 +283,17 @@ static struct Token *skip_cond_incl2(struct Token *tok)
 static struct Token *skip_cond_incl(struct Token *tok)
 {
 	while (tok->kind != TK_EOF) {
-		if (is_hash(tok) &&
-		   (equal(tok->next, "if") ||
-		    equal(tok->next, "ifdef") ||
-		    equal(tok->next, "ifndef"))) {
+		if (is_directive(tok, "if") ||
+		    is_directive(tok, "ifdef") ||
+		    is_directive(tok, "ifndef")) {
 			tok = skip_cond_incl2(tok->next->next);
 			continue;
 		}
 
 		// end with #else or #endif
-		if (is_hash(tok) &&
-		   (equal(tok->next, "elif") ||
-		    equal(tok->next, "else") ||
-		    equal(tok->next, "endif")))
+		if (is_directive(tok, "elif") ||
+		    is_directive(tok, "else") ||
+		    is_directive(tok, "endif"))
 			break;
 
 		tok = tok->next;
@@ -1007,7 +1009,7 @@ bool file_exists(const char *path)
 static const char *detect_include_guard(struct Token *tok)
 {
 	// Detect the first two lines.
-	if (!is_hash(tok) || !equal(tok->next, "ifndef"))
+	if (!is_directive(tok, "ifndef"))
 		return NULL;
 
 	tok = tok->next->next;
@@ -1017,15 +1019,14 @@ static const char *detect_include_guard(struct Token *tok)
 	const char *macro = strndup(tok->loc, tok->len);
 	tok = tok->next;
 
-	if (!is_hash(tok) ||
-	    !equal(tok->next, "define") ||
+	if (!is_directive(tok, "define") ||
 	    !equal(tok->next->next, macro))
 		return NULL;
 
 	// The #endif that belongs to #ifndef has to end the file,
 	// and there must be no #else or #elif.
 	tok = skip_cond_incl(tok);
-	if (is_hash(tok) && equal(tok->next, "endif") &&
+	if (is_directive(tok, "endif") &&
 	    tok->next->next->kind == TK_EOF)
 		return macro;
 
@@ -1151,6 +1152,10 @@ static struct Token *preprocess2(struct Token *tok)
 		struct Token *start = tok;
 		tok = tok->next;
 
+		// `#`-only line is legal. It's called a null directive.
+		if (tok->at_bol)
+			continue;
+
 		if (equal(tok, "include")) {
 			bool is_dquote;
 			const char *filename =
@@ -1296,10 +1301,6 @@ static struct Token *preprocess2(struct Token *tok)
 		if (equal(tok, "error"))
 			error_tok(tok, "error");
 
-		// `#`-only line is legal. It's called a null directive.
-		if (tok->at_bol)
-			continue;
-
 		error_tok(tok, "invalid preprocessor directive");
 	}
 
-- 
2.43.0


From b1374ba87653918022cd9863186972463d99a7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:49 +0000
Subject: [PATCH 100/158] fix: report floating constants and strings in #if

---
 preprocessor/preprocess.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/preprocessor/preprocess.c b/preprocessor/preprocess.c
index f61dcfa..27ed84e 100644
--- a/preprocessor/preprocess.c
+++ b/preprocessor/preprocess.c
@@ -218,7 +218,9 @@ static long eval_const_expr(struct Token **rest, struct Token *tok)
 	// All integers are intmax_t or uintmax_t in the preprocessor.
 	// Reference: [https://www.sigbus.info/n1570#6.10.1p4]
 	for (struct Token *t = expr; t->kind != TK_EOF; t = t->next) {
-		if (t->kind != TK_NUM || !is_integer(t->ty))
+		if (t->kind == TK_STR || (t->kind == TK_NUM && !is_integer(t->ty)))
+			error_tok(t, "not an integer constant expression");
+		if (t->kind != TK_NUM)
 			continue;
 
 		bool is_unsigned = t->ty->is_unsigned;
-- 
2.43.0


From efd4f5b89baa4428b3438065ef4a44374f241b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:12 +0000
Subject: [PATCH 101/158] fix: report macros named 'defined'

---
 preprocessor/preprocess.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/preprocessor/preprocess.c b/preprocessor/preprocess.c
index 27ed84e..75a46e4 100644
--- a/preprocessor/preprocess.c
+++ b/preprocessor/preprocess.c
@@ -920,6 +920,8 @@ static void read_macro_definition(struct Token **rest, struct Token *tok)
 {
 	if (tok->kind != TK_IDENT)
 		error_tok(tok, "macro name must be an identifier");
+	if (equal(tok, "defined"))
+		error_tok(tok, "'defined' cannot be a macro name");
 
 	const char *name = strndup(tok->loc, tok->len);
 	tok = tok->next;
-- 
2.43.0


From 7d75be2ede60fc7275f39f7687a39fe08839f912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:12 +0000
Subject: [PATCH 102/158] fix: report negative and huge array sizes, and arrays
 of functions or of incomplete arrays

---
 parser/declarator.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/parser/declarator.c b/parser/declarator.c
index 1df7d7c..9214554 100644
--- a/parser/declarator.c
+++ b/parser/declarator.c
@@ -853,10 +853,17 @@ static struct Type *array_dimension(struct Token **rest, struct Token *tok,
 	tok = skip(tok, "]");
 	ty = type_suffix(rest, tok, ty);
 
+	if (ty->kind == TY_FUNC || (ty->kind == TY_ARRAY && ty->array_len < 0))
+		error_tok(expr->tok, "array of functions or of incomplete arrays");
+
 	if (ty->kind == TY_VLA || !is_const_expr(expr))
 		return vla_of(ty, expr);
 
-	return array_of(ty, eval(expr));
+	int64_t len = eval(expr);
+	if (len < 0 || len > INT32_MAX)
+		error_tok(expr->tok, "invalid size of an array");
+
+	return array_of(ty, len);
 }
 
 // type-suffix = "(" func-params
-- 
2.43.0


From 9938b1c84cadfa88d222a5fd8d6ababaf6adc949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:00 +0000
Subject: [PATCH 103/158] fix: report commas without an initializer before them

---
 parser/initializer.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/initializer.c b/parser/initializer.c
index e84adc0..e2d570c 100644
--- a/parser/initializer.c
+++ b/parser/initializer.c
@@ -478,6 +478,11 @@ static void union_initializer(struct Token **rest, struct Token *tok,
 static void initializer2(struct Token **rest, struct Token *tok,
 			 struct Initializer *init)
 {
+	if (equal(tok, ","))
+		error_tok(tok, "expected an expression");
+	if (equal(tok, "{") && equal(tok->next, ","))
+		error_tok(tok->next, "expected an expression");
+
 	if (init->ty->kind == TY_ARRAY && is_integer(init->ty->base)) {
 		if (tok->kind == TK_STR) {
 			string_initializer(rest, tok, init);
-- 
2.43.0


From 622de5cdca78d02863077a1d489dab6c8722488a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:00 +0000
Subject: [PATCH 104/158] fix: report duplicate case, default and goto labels

---
 parser/parser.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/parser/parser.c b/parser/parser.c
index 531ce79..1287263 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -1344,6 +1344,13 @@ static struct Node *stmt(struct Token **rest, struct Token *tok)
 		n->lhs = stmt(rest, tok);
 		n->begin = begin;
 		n->end = end;
+		for (struct Node *c = current_switch->case_next; c; c = c->case_next)
+			if (c->tok != n->tok &&
+			    (current_switch->cond->ty->is_unsigned ?
+			     (unsigned long)begin <= (unsigned long)c->end &&
+			     (unsigned long)c->begin <= (unsigned long)end :
+			     begin <= c->end && c->begin <= end))
+				error_tok(c->tok, "duplicate case value");
 		n->case_next = current_switch->case_next;
 		current_switch->case_next = n;
 		return n;
@@ -1358,6 +1365,9 @@ static struct Node *stmt(struct Token **rest, struct Token *tok)
 		tok = skip(tok->next, ":");
 		n->label = new_unique_name();
 		n->lhs = stmt(rest, tok);
+		if (current_switch->default_case &&
+		    current_switch->default_case->tok != n->tok)
+			error_tok(current_switch->default_case->tok, "duplicate default");
 		current_switch->default_case = n;
 		return n;
 	}
@@ -1497,6 +1507,9 @@ static struct Node *stmt(struct Token **rest, struct Token *tok)
 		node->unique_label = new_unique_name();
 		// skip ":"
 		node->lhs = stmt(rest, tok->next->next);
+		for (struct Node *l = labels; l; l = l->goto_next)
+			if (l->tok != node->tok && !strcmp(l->label, node->label))
+				error_tok(l->tok, "duplicate label");
 		node->goto_next = labels;
 		labels = node;
 		return node;
-- 
2.43.0


From a91410bbd22815611b42d35147bebc9d80d4e8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:26 +0000
Subject: [PATCH 105/158] fix: report variables declared twice in a scope and
 parameters of incomplete type

---
 parser/declarator.c |  2 ++
 parser/parser.c     |  4 ++++
 parser/scope.c      | 13 +++++++++++++
 parser/scope.h      |  1 +
 4 files changed, 20 insertions(+)

diff --git a/parser/declarator.c b/parser/declarator.c
index 9214554..d09442a 100644
--- a/parser/declarator.c
+++ b/parser/declarator.c
@@ -984,6 +984,8 @@ struct Node *declaration(struct Token **rest, struct Token *tok,
 
 		if (!ty->name)
 			error_tok(ty->name_pos, "variable name omitted");
+		if (is_declared(ty->name))
+			error_tok(ty->name, "redeclared in the same scope");
 
 		if (attr && attr->is_static) {
 			// static local variable
diff --git a/parser/parser.c b/parser/parser.c
index 1287263..08e2e86 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -1538,6 +1538,10 @@ static void create_param_lvars(struct Type *param)
 		create_param_lvars(param->next);
 		if (!param->name)
 			error_tok(param->name_pos, "parameter name omitted");
+		if (is_declared(param->name))
+			error_tok(param->name, "redeclared in the same scope");
+		if (param->size < 0)
+			error_tok(param->name, "parameter has incomplete type");
 
 		// locals -> arg1 -> arg2 -> ... -> argn
 		new_lvar(get_ident(param->name), param);
diff --git a/parser/scope.c b/parser/scope.c
index 26b2013..94e5957 100644
--- a/parser/scope.c
+++ b/parser/scope.c
@@ -56,6 +56,19 @@ struct VarScope *find_var(struct Token *tok)
 	return NULL;
 }
 
+// Returns true if the current scope already declares `name`
+// as something other than a type.
+bool is_declared(struct Token *name)
+{
+	struct VarScope *sc = hashmap_get2(&scope->vars, name->loc, name->len);
+
+	// A function's parameters and its outermost block share a scope.
+	if (!sc && scope->next && scope->next->next && !scope->next->next->next)
+		sc = hashmap_get2(&scope->next->vars, name->loc, name->len);
+
+	return sc && !sc->type_def;
+}
+
 struct Type *find_tag(struct Token *tok)
 {
 	for (struct Scope *sc = scope; sc; sc = sc->next) {
diff --git a/parser/scope.h b/parser/scope.h
index d0245f9..cfbcf14 100644
--- a/parser/scope.h
+++ b/parser/scope.h
@@ -34,6 +34,7 @@ void leave_scope(void);
 struct Type *find_tag(struct Token *tok);
 struct Obj *find_func(const char *name);
 
+bool is_declared(struct Token *name);
 void push_tag_scope(struct Token *tok, struct Type *ty);
 struct VarScope *push_scope(const char *name);
 struct Type *overwrite_tag(struct Token *tok, struct Type *ty);
-- 
2.43.0


From 5e9c0c3d5d57d6b8937d15ca841a2bef21a14998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:26 +0000
Subject: [PATCH 106/158] fix: report functions defined in functions instead of
 miscompiling both

---
 parser/parser.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/parser.c b/parser/parser.c
index 08e2e86..e02a4d8 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -1595,6 +1595,9 @@ static struct Token *function(struct Token *tok, struct Type *basety,
 	const char *name_str = get_ident(ty->name);
 	struct Obj *fn = find_func(name_str);
 
+	if (!is_global_scope() && equal(tok, "{"))
+		error_tok(tok, "function defined in a function");
+
 	if (fn) {
 		// Redeclaration
 		if (!fn->is_function)
-- 
2.43.0


From c7c05c74673f1fbaa4c7ed04bde35544720202df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:47 +0000
Subject: [PATCH 107/158] fix: keep one of several tentative definitions
 instead of dropping all

---
 parser/scope.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/parser/scope.c b/parser/scope.c
index 94e5957..7c25fbe 100644
--- a/parser/scope.c
+++ b/parser/scope.c
@@ -181,12 +181,21 @@ void scan_globals(void)
 			continue;
 		}
 
-		// Find another definition of the same identifier.
+		// Find another definition of the same identifier. The last
+		// one of several tentative definitions, which comes first
+		// in the list, counts.
+		bool is_newer = true;
 		struct Obj *var2 = globals;
-		for (; var2; var2 = var2->next)
-			if (var != var2 && var2->is_definition &&
-			   !strcmp(var->name, var2->name))
+		for (; var2; var2 = var2->next) {
+			if (var == var2) {
+				is_newer = false;
+				continue;
+			}
+			if (var2->is_definition &&
+			    (is_newer || !var2->is_tentative) &&
+			    !strcmp(var->name, var2->name))
 				break;
+		}
 
 		// If there's another definition, the tentative definition
 		// is redundant
-- 
2.43.0


From a796faec8f9258f9fd9d631f2a2dc4fd88da4ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:03 +0000
Subject: [PATCH 108/158] fix: combine the array types of redeclarations, and
 give unsized tentative arrays one element

---
 parser/parser.c |  9 ++++++++-
 parser/scope.c  | 20 +++++++++++++++-----
 parser/scope.h  |  1 +
 3 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/parser/parser.c b/parser/parser.c
index e02a4d8..5370f11 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -1677,7 +1677,14 @@ static struct Token *global_variable(struct Token *tok, struct Type *basety,
 		if (!ty->name)
 			error_tok(ty->name_pos, "variable name omitted");
 
-		struct Obj *var = new_gvar(get_ident(ty->name), ty);
+		// A redeclaration does not take back the size of an array.
+		const char *name = get_ident(ty->name);
+		struct Obj *prev = find_gvar(name);
+		if (prev && ty->kind == TY_ARRAY && ty->array_len < 0 &&
+		    prev->ty->kind == TY_ARRAY)
+			ty = array_of(ty->base, prev->ty->array_len);
+
+		struct Obj *var = new_gvar(name, ty);
 
 		var->is_definition = !attr->is_extern;
 		var->is_static = attr->is_static;
diff --git a/parser/scope.c b/parser/scope.c
index 7c25fbe..81c0058 100644
--- a/parser/scope.c
+++ b/parser/scope.c
@@ -79,17 +79,23 @@ struct Type *find_tag(struct Token *tok)
 	return NULL;
 }
 
-struct Obj *find_func(const char *name)
+// search a variable or function in the outermost of file scope
+struct Obj *find_gvar(const char *name)
 {
 	struct Scope *sc = scope;
 
-	// search function in the outermost of file scope
 	while (sc->next)
 		sc = sc->next;
 
 	struct VarScope *sc2 = hashmap_get(&sc->vars, name);
-	if (sc2 && sc2->var && sc2->var->is_function)
-		return sc2->var;
+	return sc2 ? sc2->var : NULL;
+}
+
+struct Obj *find_func(const char *name)
+{
+	struct Obj *var = find_gvar(name);
+	if (var && var->is_function)
+		return var;
 
 	return NULL;
 }
@@ -199,8 +205,12 @@ void scan_globals(void)
 
 		// If there's another definition, the tentative definition
 		// is redundant
-		if (!var2)
+		if (!var2) {
+			// An array that never got a size has one element.
+			if (var->ty->kind == TY_ARRAY && var->ty->array_len < 0)
+				var->ty = array_of(var->ty->base, 1);
 			cur = cur->next = var;
+		}
 
 		// pass var definition
 	}
diff --git a/parser/scope.h b/parser/scope.h
index cfbcf14..0185ac6 100644
--- a/parser/scope.h
+++ b/parser/scope.h
@@ -32,6 +32,7 @@ void enter_scope(void);
 void leave_scope(void);
 
 struct Type *find_tag(struct Token *tok);
+struct Obj *find_gvar(const char *name);
 struct Obj *find_func(const char *name);
 
 bool is_declared(struct Token *name);
-- 
2.43.0


From 712aa2e5f578bb527ac34e0d0de53e36aa54a886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:03 +0000
Subject: [PATCH 109/158] fix: report variables whose type is never completed

---
 parser/scope.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser/scope.c b/parser/scope.c
index 81c0058..94060c7 100644
--- a/parser/scope.c
+++ b/parser/scope.c
@@ -209,6 +209,8 @@ void scan_globals(void)
 			// An array that never got a size has one element.
 			if (var->ty->kind == TY_ARRAY && var->ty->array_len < 0)
 				var->ty = array_of(var->ty->base, 1);
+			if (var->ty->size < 0)
+				error("variable '%s' has incomplete type", var->name);
 			cur = cur->next = var;
 		}
 
-- 
2.43.0


From 9697149515a77f062b22999aacea01bbec0c813e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:03 +0000
Subject: [PATCH 110/158] fix: report functions and variables of the same name

---
 parser/parser.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/parser/parser.c b/parser/parser.c
index 5370f11..5431a34 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -1594,14 +1594,15 @@ static struct Token *function(struct Token *tok, struct Type *basety,
 
 	const char *name_str = get_ident(ty->name);
 	struct Obj *fn = find_func(name_str);
+	struct Obj *var = find_gvar(name_str);
 
+	if (var && var->ty->kind != TY_FUNC)
+		error_tok(ty->name, "re-declared as a different kind of symbol");
 	if (!is_global_scope() && equal(tok, "{"))
 		error_tok(tok, "function defined in a function");
 
 	if (fn) {
 		// Redeclaration
-		if (!fn->is_function)
-			error_tok(tok, "re-declared as a different kind of symbol");
 		if (fn->is_definition && equal(tok, "{"))
 			error_tok(tok, "redefinition of %s", name_str);
 		if (!fn->is_static && attr->is_static)
@@ -1680,6 +1681,8 @@ static struct Token *global_variable(struct Token *tok, struct Type *basety,
 		// A redeclaration does not take back the size of an array.
 		const char *name = get_ident(ty->name);
 		struct Obj *prev = find_gvar(name);
+		if (prev && prev->ty->kind == TY_FUNC)
+			error_tok(ty->name, "re-declared as a different kind of symbol");
 		if (prev && ty->kind == TY_ARRAY && ty->array_len < 0 &&
 		    prev->ty->kind == TY_ARRAY)
 			ty = array_of(ty->base, prev->ty->array_len);
-- 
2.43.0


From 0cb6d5219a1aeadb0619de8621f2e638901258ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:27 +0000
Subject: [PATCH 111/158] fix: report #undef of 'defined'

---
 preprocessor/preprocess.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/preprocessor/preprocess.c b/preprocessor/preprocess.c
index 75a46e4..36b67bf 100644
--- a/preprocessor/preprocess.c
+++ b/preprocessor/preprocess.c
@@ -1204,6 +1204,8 @@ static struct Token *preprocess2(struct Token *tok)
 			tok = tok->next;
 			if (tok->at_bol || tok->kind != TK_IDENT)
 				error_tok(tok, "macro name must be an identifier");
+			if (equal(tok, "defined"))
+				error_tok(tok, "'defined' cannot be a macro name");
 
 			undef_macro(strndup(tok->loc, tok->len));
 			tok = skip_line(tok->next);
-- 
2.43.0


From 3d05e273281d6786153bd599aeed4b2a416bc2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:35 +0000
Subject: [PATCH 112/158] fix: do not take 'once' on the line after #pragma for
 its operand

---
 preprocessor/preprocess.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/preprocessor/preprocess.c b/preprocessor/preprocess.c
index 36b67bf..e85c62f 100644
--- a/preprocessor/preprocess.c
+++ b/preprocessor/preprocess.c
@@ -1290,7 +1290,8 @@ static struct Token *preprocess2(struct Token *tok)
 			continue;
 		}
 
-		if (equal(tok, "pragma") && equal(tok->next, "once")) {
+		if (equal(tok, "pragma") && !tok->next->at_bol &&
+		    equal(tok->next, "once")) {
 			// put current file name into pragma_once
 			hashmap_put(&pragma_once, file_id(tok->file->name), (void *)1);
 			tok = skip_line(tok->next->next);
-- 
2.43.0


From 4b0acaa037c8afd41a80465b87accf34e0e99e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:23 +0000
Subject: [PATCH 113/158] fix: do not read beyond the end of directives in
 macro arguments

---
 preprocessor/preprocess.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/preprocessor/preprocess.c b/preprocessor/preprocess.c
index e85c62f..d796e1c 100644
--- a/preprocessor/preprocess.c
+++ b/preprocessor/preprocess.c
@@ -109,6 +109,8 @@ static struct Token *new_eof(struct Token *tok)
 	struct Token *t = copy_token(tok);
 	t->kind = TK_EOF;
 	t->len = 0;
+	// the end of the tokens also ends a line
+	t->at_bol = true;
 	return t;
 }
 
-- 
2.43.0


From 3346ebfbdd8a78e0fbeff277de51d28bf7e071c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:40:29 +0000
Subject: [PATCH 114/158] fix: divide the difference of pointers to
 variable-length arrays by their size

---
 parser/parser.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/parser.c b/parser/parser.c
index 5431a34..1a39482 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -792,6 +792,10 @@ static struct Node *new_sub(struct Node *lhs, struct Node *rhs, struct Token *to
 	if (lhs->ty->base && rhs->ty->base) {
 		struct Node *node = new_binary(ND_SUB, lhs, rhs, tok);
 		node->ty = p_ty_long();
+		if (lhs->ty->base->kind == TY_VLA)
+			return new_binary(ND_DIV, node,
+					  new_cast(new_var_node(lhs->ty->base->vla_size, tok), p_ty_long()),
+					  tok);
 		return new_binary(ND_DIV, node, new_num(lhs->ty->base->size, tok), tok);
 	}
 
-- 
2.43.0


From 1a51ce8cd13b786cf3d105ad3abe53ebb5cba119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:40:29 +0000
Subject: [PATCH 115/158] fix: address thread-local variables beyond the first
 2 KiB of the thread's block

---
 codegen.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/codegen.c b/codegen.c
index fff81d7..c72a60a 100644
--- a/codegen.c
+++ b/codegen.c
@@ -221,9 +221,10 @@ static void gen_addr(struct Node *node)
 		// Thread-local variable
 		if (node->var->is_tls) {
 			// HI20
-			println("\tauipc a0, %%tprel_hi(%s)", node->var->name);
+			println("\tlui a0, %%tprel_hi(%s)", node->var->name);
+			println("\tadd a0, a0, tp, %%tprel_add(%s)", node->var->name);
 			// LO12
-			println("\tadd a0, a0, %%tprel_lo(%s)", node->var->name);
+			println("\taddi a0, a0, %%tprel_lo(%s)", node->var->name);
 			return;
 		}
 
-- 
2.43.0


From e6e2ebdd215419f573e351dfe43e4c341af238a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:40:29 +0000
Subject: [PATCH 116/158] fix: honour _Alignas and _Thread_local for static
 local variables

---
 parser/declarator.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/declarator.c b/parser/declarator.c
index d09442a..f2a3a2e 100644
--- a/parser/declarator.c
+++ b/parser/declarator.c
@@ -993,9 +993,14 @@ struct Node *declaration(struct Token **rest, struct Token *tok,
 				error_tok(ty->name, "variable-sized object is static");
 			struct Obj *var = new_anon_gvar(ty);
 			push_scope(get_ident(ty->name))->var = var;
+			var->is_tls = attr->is_tls;
+			if (attr->align)
+				var->align = attr->align;
 
 			if (equal(tok, "="))
 				gvar_initializer(&tok, tok->next, var);
+			if (var->ty->size < 0)
+				error_tok(ty->name, "variable has incomplete type");
 			continue;
 		}
 
-- 
2.43.0


From 9a1199b444289af07e3e805bd5161cd514cd697c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:40:29 +0000
Subject: [PATCH 117/158] fix: give zero-initialised variables a symbol type
 and size

---
 codegen.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/codegen.c b/codegen.c
index c72a60a..334e002 100644
--- a/codegen.c
+++ b/codegen.c
@@ -2010,6 +2010,8 @@ static void emit_data(struct Obj *prog)
 		else
 			println(".bss");
 
+		println(".type %s, @object", var->name);
+		println(".size %s, %d", var->name, var->ty->size);
 		println(".align %d", llog2(var->align));
 		println("%s:", var->name);
 		println("\t.zero %d", var->ty->size);
-- 
2.43.0


From 0d72e9f0f9af6629fb43c23f9d3de402053194d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:41:07 +0000
Subject: [PATCH 118/158] fix: align local variables with an alignment above 16
 bytes

---
 codegen.c | 44 +++++++++++++++++++++++++++++++++-----------
 1 file changed, 33 insertions(+), 11 deletions(-)

diff --git a/codegen.c b/codegen.c
index 334e002..e34b594 100644
--- a/codegen.c
+++ b/codegen.c
@@ -181,6 +181,22 @@ static void TLS_relative_addressing(const char *symbol)
 	println("\tcall __tls_get_addr@plt");
 }
 
+// The alignment of the frame pointer
+#define STACK_ALIGN 16
+
+static void add_offset(const char *reg, const char *base, int offset);
+
+// reg = address of a local variable, using t1 and t2
+static void local_addr(const char *reg, struct Obj *var)
+{
+	add_offset(reg, "fp", var->offset);
+
+	if (var->align > STACK_ALIGN) {
+		println("\tli t2, %d", -var->align);
+		println("\tand %s, %s, t2", reg, reg);
+	}
+}
+
 // Compute the absolute address of a given node.
 // It's an error if a given node does not reside in memory.
 static void gen_addr(struct Node *node)
@@ -197,12 +213,7 @@ static void gen_addr(struct Node *node)
 
 		// local variable
 		if (node->var->is_local) {
-			if (beyond_instruction_offset(node->var->offset)) {
-				println("\tli t0, %d", node->var->offset);
-				println("\tadd a0, fp, t0");
-			} else {
-				println("\tadd a0, fp, %d", node->var->offset);
-			}
+			local_addr("a0", node->var);
 			break;
 		}
 
@@ -842,7 +853,7 @@ static void push_args(struct Node *arg, struct ArgLoc *loc)
 	gen_expr(arg);
 
 	if (loc->by_ref) {
-		add_offset("t1", "fp", arg->arg_buffer->offset);
+		local_addr("t1", arg->arg_buffer);
 		copy_bytes("t1", "a0", arg->ty->size);
 		push("t1");
 		return;
@@ -952,7 +963,7 @@ static void gen_funcall(struct Node *node)
 	}
 
 	if (is_returned_by_memory(node->ty))
-		add_offset("a0", "fp", node->ret_buffer->offset);
+		local_addr("a0", node->ret_buffer);
 
 	// call function
 	println("\tjalr t0");
@@ -1389,6 +1400,15 @@ static void gen_expr(struct Node *node)
 
 	case ND_MEMZERO:
 		debug("ND_MEMZERO size %d", node->var->ty->size);
+		if (node->var->align > STACK_ALIGN) {
+			local_addr("t0", node->var);
+			for (int i = 0; i < node->var->ty->size; i++) {
+				println("\tsb zero, (t0)");
+				println("\taddi t0, t0, 1");
+			}
+			return;
+		}
+
 		for (int i = 0; i < node->var->ty->size; i++) {
 			int offset = node->var->offset + i;
 
@@ -1945,8 +1965,10 @@ static void assign_lvar_offsets(struct Obj *prog)
 				continue;
 
 			bottom += var->ty->size;
-			bottom = align_to(bottom, var->align);
-			var->offset = -bottom;
+			// room for moving an over-aligned variable down
+			int room = MAX(var->align, STACK_ALIGN) - STACK_ALIGN;
+			bottom = align_to(bottom + room, MIN(var->align, STACK_ALIGN));
+			var->offset = room - bottom;
 		}
 		// initialize stack size
 		fn->stack_size = align_to(bottom, 16);
@@ -2044,7 +2066,7 @@ static void store_params(struct Obj *fn)
 				reg = argreg[part->idx];
 			}
 
-			add_offset("t1", "fp", var->offset);
+			local_addr("t1", var);
 
 			if (part->kind == PART_FLOAT)
 				println("\tfs%s %s, %d(t1)", part->size == sizeof(float) ? "w" : "d",
-- 
2.43.0


From a3b4e03443558653f6f4485bb0565334da23a785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:28 +0000
Subject: [PATCH 119/158] fix: define variables declared extern with an
 initializer

---
 parser/parser.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/parser/parser.c b/parser/parser.c
index 1a39482..63eda73 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -1700,11 +1700,15 @@ static struct Token *global_variable(struct Token *tok, struct Type *basety,
 		if (attr->align)
 			var->align = attr->align;
 
-		if (equal(tok, "="))
+		if (equal(tok, "=")) {
+			// A declaration with an initializer is a definition.
+			if (!is_global_scope())
+				error_tok(tok, "extern variable with an initializer");
+			var->is_definition = true;
 			gvar_initializer(&tok, tok->next, var);
-
-		else if (!attr->is_extern && !attr->is_tls)
+		} else if (!attr->is_extern && !attr->is_tls) {
 			var->is_tentative = true;
+		}
 	}
 	return tok;
 }
-- 
2.43.0


From d2ba06b93d12c307a11b5783a0d4f7bd660cb3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:28 +0000
Subject: [PATCH 120/158] fix: accept several tentative definitions of a
 thread-local variable

---
 codegen.c       | 2 +-
 parser/parser.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/codegen.c b/codegen.c
index e34b594..3cf52c6 100644
--- a/codegen.c
+++ b/codegen.c
@@ -1986,7 +1986,7 @@ static void emit_data(struct Obj *prog)
 		else
 			println(".global %s", var->name);
 
-		if (get_opt_fcommon() && var->is_tentative) {
+		if (get_opt_fcommon() && var->is_tentative && !var->is_tls) {
 			// common symbol
 			println(".comm %s, %d, %d",
 				var->name, var->ty->size, var->align);
diff --git a/parser/parser.c b/parser/parser.c
index 63eda73..0c04af8 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -1706,7 +1706,7 @@ static struct Token *global_variable(struct Token *tok, struct Type *basety,
 				error_tok(tok, "extern variable with an initializer");
 			var->is_definition = true;
 			gvar_initializer(&tok, tok->next, var);
-		} else if (!attr->is_extern && !attr->is_tls) {
+		} else if (!attr->is_extern) {
 			var->is_tentative = true;
 		}
 	}
-- 
2.43.0


From d69c77fb5edffa90ecff1d885757646e01b6f4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:28 +0000
Subject: [PATCH 121/158] fix: keep the alignment given by an earlier
 declaration of a variable

---
 parser/parser.c | 2 ++
 parser/scope.c  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/parser/parser.c b/parser/parser.c
index 0c04af8..7a7fe47 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -1699,6 +1699,8 @@ static struct Token *global_variable(struct Token *tok, struct Type *basety,
 
 		if (attr->align)
 			var->align = attr->align;
+		if (prev)
+			var->align = MAX(var->align, prev->align);
 
 		if (equal(tok, "=")) {
 			// A declaration with an initializer is a definition.
diff --git a/parser/scope.c b/parser/scope.c
index 94060c7..92279cb 100644
--- a/parser/scope.c
+++ b/parser/scope.c
@@ -212,6 +212,8 @@ void scan_globals(void)
 			if (var->ty->size < 0)
 				error("variable '%s' has incomplete type", var->name);
 			cur = cur->next = var;
+		} else {
+			var2->align = MAX(var2->align, var->align);
 		}
 
 		// pass var definition
-- 
2.43.0


From 4959421a82ecf9bbc517cd5abb8f604aa31184c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:28 +0000
Subject: [PATCH 122/158] fix: emit static inline functions that only
 initializers refer to

---
 parser/parser.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/parser.c b/parser/parser.c
index 7a7fe47..2221bcb 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -1621,7 +1621,8 @@ static struct Token *function(struct Token *tok, struct Type *basety,
 		fn->is_static = attr->is_static || (attr->is_inline && !attr->is_extern);
 		fn->is_inline = attr->is_inline;
 	}
-	fn->is_root = !(fn->is_static && fn->is_inline);
+	if (!(fn->is_static && fn->is_inline))
+		fn->is_root = true;
 
 	// if it's declaration, return
 	if (consume(&tok, tok, ";"))
@@ -1665,6 +1666,7 @@ static struct Token *function(struct Token *tok, struct Type *basety,
 	leave_scope();
 
 	resolve_goto_labels();
+	current_fn = NULL;
 	return tok;
 }
 
-- 
2.43.0


From b7404b40afa3257ed2a62bcba259a9cfd0e1b3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:13 +0000
Subject: [PATCH 123/158] fix: emit inline functions that are also declared
 without inline or with extern

---
 parser/parser.c | 7 +++++++
 toycc.h         | 1 +
 2 files changed, 8 insertions(+)

diff --git a/parser/parser.c b/parser/parser.c
index 2221bcb..1eaa502 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -1612,6 +1612,12 @@ static struct Token *function(struct Token *tok, struct Type *basety,
 		if (!fn->is_static && attr->is_static)
 			error_tok(tok, "static declaration follows a non-static declaration");
 
+		// An inline definition is an external definition if any
+		// declaration at file scope lacks `inline` or has `extern`.
+		if (fn->is_external && is_global_scope() &&
+		    (!attr->is_inline || attr->is_extern))
+			fn->is_static = false;
+
 		fn->is_definition = fn->is_definition || equal(tok, "{");
 
 	} else {
@@ -1619,6 +1625,7 @@ static struct Token *function(struct Token *tok, struct Type *basety,
 		fn->is_function = true;
 		fn->is_definition = equal(tok, "{");
 		fn->is_static = attr->is_static || (attr->is_inline && !attr->is_extern);
+		fn->is_external = !attr->is_static;
 		fn->is_inline = attr->is_inline;
 	}
 	if (!(fn->is_static && fn->is_inline))
diff --git a/toycc.h b/toycc.h
index 938dbfe..802ded1 100644
--- a/toycc.h
+++ b/toycc.h
@@ -304,6 +304,7 @@ struct Obj {
 
 	// function
 	bool is_inline;
+	bool is_external;	// not declared static
 	struct Obj *params;
 	struct Node *body;
 	struct Obj *locals;
-- 
2.43.0


From ed2557baa03e96d8532c8ba75e054b5442ca9794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:13 +0000
Subject: [PATCH 124/158] fix: keep the internal linkage of a variable
 redeclared extern

---
 parser/parser.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/parser.c b/parser/parser.c
index 1eaa502..a408431 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -1703,7 +1703,9 @@ static struct Token *global_variable(struct Token *tok, struct Type *basety,
 		struct Obj *var = new_gvar(name, ty);
 
 		var->is_definition = !attr->is_extern;
-		var->is_static = attr->is_static;
+		// `extern` keeps the linkage of an earlier declaration.
+		var->is_static = attr->is_static ||
+				 (attr->is_extern && prev && prev->is_static);
 		var->is_tls = attr->is_tls;
 
 		if (attr->align)
-- 
2.43.0


From 407e7aef92468115a61bc34f3db47ebedbaf36a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:32 +0000
Subject: [PATCH 125/158] fix: complete a tentative array from any of its
 declarations

---
 parser/scope.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parser/scope.c b/parser/scope.c
index 92279cb..0bf1013 100644
--- a/parser/scope.c
+++ b/parser/scope.c
@@ -206,6 +206,12 @@ void scan_globals(void)
 		// If there's another definition, the tentative definition
 		// is redundant
 		if (!var2) {
+			// Any other declaration may give the size of an array.
+			for (struct Obj *v = globals; v; v = v->next)
+				if (var->ty->kind == TY_ARRAY && var->ty->array_len < 0 &&
+				    v->ty->kind == TY_ARRAY && !strcmp(v->name, var->name))
+					var->ty = v->ty;
+
 			// An array that never got a size has one element.
 			if (var->ty->kind == TY_ARRAY && var->ty->array_len < 0)
 				var->ty = array_of(var->ty->base, 1);
-- 
2.43.0


From 387e68ed3c355f9abc7af40f88716f30223c1949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:07 +0000
Subject: [PATCH 126/158] fix: continue only after the last element of a
 designated range

---
 parser/initializer.c | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/parser/initializer.c b/parser/initializer.c
index e2d570c..4fb6bd7 100644
--- a/parser/initializer.c
+++ b/parser/initializer.c
@@ -211,7 +211,9 @@ static void struct_initializer2(struct Token **rest, struct Token *tok,
 static void initializer2(struct Token **rest, struct Token *tok,
 			 struct Initializer *init);
 // designation = ("[" const-expr "]" | "." ident)* "="? initializer
-static void designation(struct Token **rest, struct Token *tok, struct Initializer *init)
+// Items that follow without a designator continue after the designated
+// element if `cont` is set. In a range, only the last element does so.
+static void designation(struct Token **rest, struct Token *tok, struct Initializer *init, bool cont)
 {
 	// nesting designation
 	if (equal(tok, "[")) {
@@ -223,21 +225,27 @@ static void designation(struct Token **rest, struct Token *tok, struct Initializ
 
 		struct Token *tok2;
 		for (int i = begin; i <= end; i++)
-			designation(&tok2, tok, init->children[i]);
+			designation(&tok2, tok, init->children[i], cont && i == end);
 
 		// initialize the rest index
-		array_initializer2(rest, tok2, init, end + 1);
+		if (cont)
+			array_initializer2(rest, tok2, init, end + 1);
+		else
+			*rest = tok2;
 		return;
 	}
 
 	if (equal(tok, ".") && init->ty->kind == TY_STRUCT) {
 		struct Member *mem = struct_designator(&tok, tok, init->ty);
 
-		designation(&tok, tok, init->children[mem->idx]);
+		designation(&tok, tok, init->children[mem->idx], cont);
 		init->expr = NULL;
 
 		// init following member
-		struct_initializer2(rest, tok, init, mem->next);
+		if (cont)
+			struct_initializer2(rest, tok, init, mem->next);
+		else
+			*rest = tok;
 		return;
 	}
 
@@ -249,7 +257,7 @@ static void designation(struct Token **rest, struct Token *tok, struct Initializ
 			reset_initializer(init);
 		init->mem = mem;
 
-		designation(rest, tok, init->children[mem->idx]);
+		designation(rest, tok, init->children[mem->idx], cont);
 		return;
 	}
 
@@ -286,7 +294,7 @@ static int count_array_init_elements(struct Token *tok, struct Type *ty)
 				i = const_expr(&tok, tok->next);
 
 			tok = skip(tok, "]");
-			designation(&tok, tok, dummy);
+			designation(&tok, tok, dummy, true);
 
 		} else {
 			// just count forward
@@ -329,7 +337,7 @@ static void array_initializer1(struct Token **rest, struct Token *tok,
 
 			struct Token *tok2;
 			for (int j = begin; j <= end; j++)
-				designation(&tok2, tok, init->children[j]);
+				designation(&tok2, tok, init->children[j], j == end);
 			tok = tok2;
 			i = end;
 			continue;
@@ -387,7 +395,7 @@ static void struct_initializer1(struct Token **rest, struct Token *tok,
 
 		if (equal(tok, ".")) {
 			mem = struct_designator(&tok, tok, init->ty);
-			designation(&tok, tok, init->children[mem->idx]);
+			designation(&tok, tok, init->children[mem->idx], true);
 			mem = mem->next;
 			continue;
 		}
@@ -446,7 +454,7 @@ static void union_initializer(struct Token **rest, struct Token *tok,
 				tok = skip(tok, ",");
 
 			if (equal(tok, ".")) {
-				designation(&tok, tok, init);
+				designation(&tok, tok, init, true);
 			} else if (first) {
 				// set initializer's first named member in default
 				init->mem = skip_unnamed_bitfield(init->ty->members);
-- 
2.43.0


From 2f23eefb35d114559ee2e48d51f9c69e9c52a464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:01 +0000
Subject: [PATCH 127/158] fix: let 'struct tag;' declare a new type in an inner
 scope

---
 parser/declarator.c | 3 ++-
 parser/scope.c      | 5 +++++
 parser/scope.h      | 1 +
 3 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/parser/declarator.c b/parser/declarator.c
index f2a3a2e..adac3d1 100644
--- a/parser/declarator.c
+++ b/parser/declarator.c
@@ -157,7 +157,8 @@ static struct Type *struct_union_decl(struct Token **rest, struct Token *tok)
 	if (tag && !equal(tok, "{")) {
 		*rest = tok;
 
-		struct Type *ty2 = find_tag(tag);
+		// `struct tag;` declares a type of the current scope.
+		struct Type *ty2 = equal(tok, ";") ? find_current_tag(tag) : find_tag(tag);
 		if (ty2)
 			return ty2;
 
diff --git a/parser/scope.c b/parser/scope.c
index 0bf1013..762bec3 100644
--- a/parser/scope.c
+++ b/parser/scope.c
@@ -79,6 +79,11 @@ struct Type *find_tag(struct Token *tok)
 	return NULL;
 }
 
+struct Type *find_current_tag(struct Token *tok)
+{
+	return hashmap_get2(&scope->tags, tok->loc, tok->len);
+}
+
 // search a variable or function in the outermost of file scope
 struct Obj *find_gvar(const char *name)
 {
diff --git a/parser/scope.h b/parser/scope.h
index 0185ac6..89629f3 100644
--- a/parser/scope.h
+++ b/parser/scope.h
@@ -32,6 +32,7 @@ void enter_scope(void);
 void leave_scope(void);
 
 struct Type *find_tag(struct Token *tok);
+struct Type *find_current_tag(struct Token *tok);
 struct Obj *find_gvar(const char *name);
 struct Obj *find_func(const char *name);
 
-- 
2.43.0


From efb9969ae7a559f1e402ba5ac62a1f3852186227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:37 +0000
Subject: [PATCH 128/158] fix: let a function declared in a block hide
 variables of outer blocks

---
 parser/parser.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/parser.c b/parser/parser.c
index a408431..3d12e8b 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -1620,6 +1620,9 @@ static struct Token *function(struct Token *tok, struct Type *basety,
 
 		fn->is_definition = fn->is_definition || equal(tok, "{");
 
+		// A declaration in a block hides variables of outer blocks.
+		if (!is_global_scope())
+			push_scope(name_str)->var = fn;
 	} else {
 		fn = new_gvar(name_str, ty);
 		fn->is_function = true;
-- 
2.43.0


From c270d7399e3c6fb4b061d68d0570160955c2f411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:15 +0000
Subject: [PATCH 129/158] fix: treat selection and iteration statements and
 their bodies as blocks

---
 parser/parser.c | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/parser/parser.c b/parser/parser.c
index 3d12e8b..2d7b2ad 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -1246,6 +1246,17 @@ static long case_value(struct Token **rest, struct Token *tok)
 	return current_switch->cond->ty->size == 8 ? val : (int)val;
 }
 
+static struct Node *stmt(struct Token **rest, struct Token *tok);
+
+// A substatement of a selection or iteration statement is a block.
+static struct Node *block_stmt(struct Token **rest, struct Token *tok)
+{
+	enter_scope();
+	struct Node *node = stmt(rest, tok);
+	leave_scope();
+	return node;
+}
+
 // stmt = "return" expr? ";"
 // 	| "if" "(" expr ")" stmt ("else" stmt)?
 //	| "switch" "(" expr ")" stmt
@@ -1285,15 +1296,17 @@ static struct Node *stmt(struct Token **rest, struct Token *tok)
 	if (equal(tok, "if")) {
 		struct Node *n = new_node(ND_IF, tok);
 
+		enter_scope();
 		tok = skip(tok->next, "(");
 		n->cond = expr(&tok, tok);
 
 		tok = skip(tok, ")");
-		n->then = stmt(&tok, tok);
+		n->then = block_stmt(&tok, tok);
 
 		if (equal(tok, "else"))
-			n->els = stmt(&tok, tok->next);
+			n->els = block_stmt(&tok, tok->next);
 
+		leave_scope();
 		*rest = tok;
 		return n;
 	}
@@ -1301,6 +1314,7 @@ static struct Node *stmt(struct Token **rest, struct Token *tok)
 	if (equal(tok, "switch")) {
 		struct Node *n = new_node(ND_SWITCH, tok);
 
+		enter_scope();
 		tok = skip(tok->next, "(");
 		n->cond = expr(&tok, tok);
 		add_type(n->cond);
@@ -1316,7 +1330,8 @@ static struct Node *stmt(struct Token **rest, struct Token *tok)
 		brk_label = n->brk_label = new_unique_name();
 
 		// a series of "case"s
-		n->then = stmt(rest, tok);
+		n->then = block_stmt(rest, tok);
+		leave_scope();
 
 		current_switch = sw_prev;
 		brk_label = brk_prev;
@@ -1403,7 +1418,7 @@ static struct Node *stmt(struct Token **rest, struct Token *tok)
 			n->inc = expr(&tok, tok);
 		tok = skip(tok, ")");
 
-		n->then = stmt(rest, tok);
+		n->then = block_stmt(rest, tok);
 
 		leave_scope();
 
@@ -1415,6 +1430,7 @@ static struct Node *stmt(struct Token **rest, struct Token *tok)
 	if (equal(tok, "while")) {
 		struct Node *n = new_node(ND_FOR, tok);
 
+		enter_scope();
 		tok = skip(tok->next, "(");
 		n->cond = expr(&tok, tok);
 
@@ -1427,7 +1443,8 @@ static struct Node *stmt(struct Token **rest, struct Token *tok)
 		brk_label = n->brk_label = new_unique_name();
 		cont_label = n->cont_label = new_unique_name();
 
-		n->then = stmt(rest, tok);
+		n->then = block_stmt(rest, tok);
+		leave_scope();
 
 		// resume
 		brk_label = brk_tmp;
@@ -1445,7 +1462,8 @@ static struct Node *stmt(struct Token **rest, struct Token *tok)
 		brk_label = node->brk_label = new_unique_name();
 		cont_label = node->cont_label = new_unique_name();
 
-		node->then = stmt(&tok, tok->next);
+		enter_scope();
+		node->then = block_stmt(&tok, tok->next);
 
 		// resume
 		brk_label = brk_tmp;
@@ -1455,6 +1473,7 @@ static struct Node *stmt(struct Token **rest, struct Token *tok)
 		tok = skip(tok, "(");
 		node->cond = expr(&tok, tok);
 		tok = skip(tok, ")");
+		leave_scope();
 		*rest = skip(tok, ";");
 
 		return node;
-- 
2.43.0


From aa94bf78ef3157351bd8384e59393b43cf853254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:29 +0000
Subject: [PATCH 130/158] fix: convert variable-length arrays to pointers in
 _Generic

---
 parser/parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser.c b/parser/parser.c
index 2d7b2ad..f3cb7d0 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -104,7 +104,7 @@ static struct Node *generic_selection(struct Token **rest, struct Token *tok)
 	if (t1->kind == TY_FUNC)
 		t1 = pointer_to(t1);
 
-	else if (t1->kind == TY_ARRAY)
+	else if (t1->kind == TY_ARRAY || t1->kind == TY_VLA)
 		t1 = pointer_to(t1->base);
 
 	struct Node *ret = NULL;
-- 
2.43.0


From 5404f5f8280b7c356a664a926cd04bcce176967b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:29 +0000
Subject: [PATCH 131/158] fix: compute the sizes of variable-length array types
 in casts

---
 parser/parser.c | 68 ++++++++++++++++++++++++++++++++++---------------
 1 file changed, 48 insertions(+), 20 deletions(-)

diff --git a/parser/parser.c b/parser/parser.c
index f3cb7d0..400b547 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -221,9 +221,10 @@ static struct Node *primary(struct Token **rest, struct Token *tok)
 
 		add_type(node);
 
-		// replace by variable
+		// replace by variable, the operand is evaluated
 		if (node->ty->kind == TY_VLA)
-			return new_var_node(node->ty->vla_size, tok);
+			return new_binary(ND_COMMA, node,
+					  new_var_node(node->ty->vla_size, tok), tok);
 
 		return new_ulong(node->ty->size, tok);
 	}
@@ -694,6 +695,12 @@ static struct Node *cast(struct Token **rest, struct Token *tok)
 		// type cast
 		struct Node *n = new_cast(cast(rest, tok), ty);
 		n->tok = start;
+
+		// The type may be a pointer to VLA.
+		for (struct Type *t = ty; t; t = t->base)
+			if (t->kind == TY_VLA)
+				return new_binary(ND_COMMA,
+						  compute_vla_size(ty, start), n, start);
 		return n;
 	}
 
@@ -742,6 +749,40 @@ static struct Node *new_long(int64_t val, struct Token *tok)
 // so that p+n points to the location n elements (not bytes) ahead of p.
 // In other words, we need to scale an integer value before adding to a
 // pointer value. This function takes care of the scaling.
+static struct Node *vla_arith(enum NodeKind kind, struct Node *lhs,
+			      struct Node *rhs, struct Token *tok)
+{
+	struct Node *size = new_var_node(lhs->ty->base->vla_size, tok);
+	struct Node *init = NULL;
+	struct Node *node = lhs;
+
+	while (node->kind == ND_DEREF)
+		node = node->lhs;
+
+	if (node->kind == ND_COMMA) {
+		// A cast in `lhs` may compute `size`, so it has to be
+		// evaluated first.
+		struct Obj *var = new_lvar("", pointer_to(lhs->ty->base));
+		init = new_binary(ND_ASSIGN, new_var_node(var, tok),
+				  new_cast(lhs, var->ty), tok);
+		lhs = new_var_node(var, tok);
+		add_type(lhs);
+	}
+
+	if (kind == ND_DIV) {
+		node = new_binary(ND_SUB, lhs, rhs, tok);
+		node->ty = p_ty_long();
+		node = new_binary(ND_DIV, node, new_cast(size, p_ty_long()), tok);
+	} else {
+		rhs = new_binary(ND_MUL, rhs, size, tok);
+		add_type(rhs);
+		node = new_binary(kind, lhs, rhs, tok);
+		node->ty = pointer_to(lhs->ty->base);
+	}
+
+	return init ? new_binary(ND_COMMA, init, node, tok) : node;
+}
+
 struct Node *new_add(struct Node *lhs, struct Node *rhs, struct Token *tok)
 {
 	add_type(lhs);
@@ -767,12 +808,8 @@ struct Node *new_add(struct Node *lhs, struct Node *rhs, struct Token *tok)
 		error_tok(tok, "invalid operands");
 
 	// VLA + num
-	if (lhs->ty->base->kind == TY_VLA) {
-		rhs = new_binary(ND_MUL, rhs,
-				 new_var_node(lhs->ty->base->vla_size, tok),
-				 tok);
-		return new_binary(ND_ADD, lhs, rhs, tok);
-	}
+	if (lhs->ty->base->kind == TY_VLA)
+		return vla_arith(ND_ADD, lhs, rhs, tok);
 
 	// ptr + num
 	rhs = new_binary(ND_MUL, rhs, new_long(lhs->ty->base->size, tok), tok);
@@ -793,9 +830,7 @@ static struct Node *new_sub(struct Node *lhs, struct Node *rhs, struct Token *to
 		struct Node *node = new_binary(ND_SUB, lhs, rhs, tok);
 		node->ty = p_ty_long();
 		if (lhs->ty->base->kind == TY_VLA)
-			return new_binary(ND_DIV, node,
-					  new_cast(new_var_node(lhs->ty->base->vla_size, tok), p_ty_long()),
-					  tok);
+			return vla_arith(ND_DIV, lhs, rhs, tok);
 		return new_binary(ND_DIV, node, new_num(lhs->ty->base->size, tok), tok);
 	}
 
@@ -804,15 +839,8 @@ static struct Node *new_sub(struct Node *lhs, struct Node *rhs, struct Token *to
 		error_tok(tok, "invalid operands");
 
 	// VLA - num
-	if (lhs->ty->base->kind == TY_VLA) {
-		rhs = new_binary(ND_MUL, rhs,
-				 new_var_node(lhs->ty->base->vla_size, tok),
-				 tok);
-		add_type(rhs);
-		struct Node *node = new_binary(ND_SUB, lhs, rhs, tok);
-		node->ty = lhs->ty;
-		return node;
-	}
+	if (lhs->ty->base->kind == TY_VLA)
+		return vla_arith(ND_SUB, lhs, rhs, tok);
 
 	// ptr - num
 	rhs = new_binary(ND_MUL, rhs, new_long(lhs->ty->base->size, tok), tok);
-- 
2.43.0


From 0a28ec2d6d131252992db69d5f752d2cb30bc1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:10 +0000
Subject: [PATCH 132/158] fix: accept arrays and functions, and promote
 bit-fields, in the GNU `a ?: b`

---
 parser/parser.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/parser/parser.c b/parser/parser.c
index 400b547..57f0fd6 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -1104,8 +1104,13 @@ struct Node *conditional(struct Token **rest, struct Token *tok)
 		// [GNU] Compile `a ?: b` as `tmp = a, tmp ? tmp : b`.
 		add_type(cond);
 
-		// tmp
-		struct Obj *var = new_lvar("", cond->ty);
+		// tmp, whose type is that of the operand's value
+		struct Type *ty = promoted_type(cond);
+		if (ty->kind == TY_FUNC)
+			ty = pointer_to(ty);
+		else if (ty->kind == TY_ARRAY || ty->kind == TY_VLA)
+			ty = pointer_to(ty->base);
+		struct Obj *var = new_lvar("", ty);
 		// tmp = a
 		struct Node *lhs = new_binary(ND_ASSIGN, new_var_node(var, tok), cond, tok);
 
-- 
2.43.0


From b66e77573527d08ec1af7ef76f6d587d94d1582e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:10 +0000
Subject: [PATCH 133/158] fix: keep the GNU `a ?: b` a constant expression if
 its operands are

---
 parser/declarator.c | 2 +-
 parser/declarator.h | 1 +
 parser/parser.c     | 9 +++++++++
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/parser/declarator.c b/parser/declarator.c
index adac3d1..f5b8bb9 100644
--- a/parser/declarator.c
+++ b/parser/declarator.c
@@ -775,7 +775,7 @@ static struct Type *func_params(struct Token **rest, struct Token *tok, struct T
 	return ty;
 }
 
-static bool is_const_expr(struct Node *node)
+bool is_const_expr(struct Node *node)
 {
 	add_type(node);
 
diff --git a/parser/declarator.h b/parser/declarator.h
index 7a3dbd4..f3d3ebf 100644
--- a/parser/declarator.h
+++ b/parser/declarator.h
@@ -19,6 +19,7 @@ struct Node *declaration(struct Token **rest, struct Token *tok,
 struct Token *parse_typedef(struct Token *tok, struct Type *basety,
 			    struct Node **cur);
 void declare_builtin_functions(void);
+bool is_const_expr(struct Node *node);
 struct Node *compute_vla_size(struct Type *ty, struct Token *tok);
 
 #endif
diff --git a/parser/parser.c b/parser/parser.c
index 57f0fd6..7ab1862 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -1104,6 +1104,15 @@ struct Node *conditional(struct Token **rest, struct Token *tok)
 		// [GNU] Compile `a ?: b` as `tmp = a, tmp ? tmp : b`.
 		add_type(cond);
 
+		// A constant has no side effects, and remains a constant.
+		if (is_const_expr(cond)) {
+			struct Node *node = new_node(ND_COND, tok);
+			node->cond = cond;
+			node->then = cond;
+			node->els = conditional(rest, tok->next->next);
+			return node;
+		}
+
 		// tmp, whose type is that of the operand's value
 		struct Type *ty = promoted_type(cond);
 		if (ty->kind == TY_FUNC)
-- 
2.43.0


From 6c1744f809d087380bf52c13625b650fc994925f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:04 +0000
Subject: [PATCH 134/158] fix: an array type of unknown length is compatible
 with those of any length

---
 type.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/type.c b/type.c
index 805705b..fa7913e 100644
--- a/type.c
+++ b/type.c
@@ -237,7 +237,8 @@ bool is_compatible(struct Type *t1, struct Type *t2)
 		if (!is_compatible(t1->base, t2->base))
 			return false;
 
-		return t1->array_len >= 0 && t2->array_len >= 0 &&
+		// an array of unknown length is compatible with any length
+		return t1->array_len < 0 || t2->array_len < 0 ||
 			t1->array_len == t2->array_len;
 
 	default:
-- 
2.43.0


From f397ede1656adc020b9f6de3ea644445fe453bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:22 +0000
Subject: [PATCH 135/158] fix: do not predefine __CHAR_UNSIGNED__, as char is
 signed

---
 preprocessor/predefined_macro.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/preprocessor/predefined_macro.c b/preprocessor/predefined_macro.c
index 5dc4c24..e404ed3 100644
--- a/preprocessor/predefined_macro.c
+++ b/preprocessor/predefined_macro.c
@@ -128,7 +128,6 @@ void init_macros(void)
 	define_macro("__UINTMAX_TYPE__", "long unsigned int");
 	define_macro("__linux", "1");
 	define_macro("__FLT_EVAL_METHOD_TS_18661_3__", "0");
-	define_macro("__CHAR_UNSIGNED__", "1");
 	define_macro("__UINT32_MAX__", "0xffffffffU");
 	define_macro("__riscv_fdiv", "1");
 	define_macro("__LDBL_MAX_EXP__", "16384");
-- 
2.43.0


From cd0460e89bf87a0a199bf4cd95ee104c81f87de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:22 +0000
Subject: [PATCH 136/158] fix: give wchar_t the type of wide characters, and
 max_align_t the alignment of long double

---
 include/stddef.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/stddef.h b/include/stddef.h
index ccd3857..6aa7ccc 100644
--- a/include/stddef.h
+++ b/include/stddef.h
@@ -5,8 +5,11 @@
 
 typedef unsigned long size_t;
 typedef long ptrdiff_t;
-typedef unsigned int wchar_t;
-typedef long max_align_t;
+typedef int wchar_t;
+typedef struct {
+	long long __ll;
+	long double __ld;
+} max_align_t;
 
 #define offsetof(type, member) ((size_t)&(((type *)0)->member))
 
-- 
2.43.0


From baca2f36bf3bf8d301286af4674d9fb4c33b230f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:22 +0000
Subject: [PATCH 137/158] fix: give atomic_wchar_t and atomic_int_fastN_t the
 types they are named after

---
 include/stdatomic.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/stdatomic.h b/include/stdatomic.h
index a2e720a..10020df 100644
--- a/include/stdatomic.h
+++ b/include/stdatomic.h
@@ -96,7 +96,7 @@ typedef _Atomic long long atomic_llong;
 typedef _Atomic unsigned long long atomic_ullong;
 typedef _Atomic unsigned short atomic_char16_t;
 typedef _Atomic unsigned atomic_char32_t;
-typedef _Atomic unsigned atomic_wchar_t;
+typedef _Atomic int atomic_wchar_t;
 typedef _Atomic signed char atomic_int_least8_t;
 typedef _Atomic unsigned char atomic_uint_least8_t;
 typedef _Atomic short atomic_int_least16_t;
@@ -107,10 +107,10 @@ typedef _Atomic long atomic_int_least64_t;
 typedef _Atomic unsigned long atomic_uint_least64_t;
 typedef _Atomic signed char atomic_int_fast8_t;
 typedef _Atomic unsigned char atomic_uint_fast8_t;
-typedef _Atomic short atomic_int_fast16_t;
-typedef _Atomic unsigned short atomic_uint_fast16_t;
-typedef _Atomic int atomic_int_fast32_t;
-typedef _Atomic unsigned int atomic_uint_fast32_t;
+typedef _Atomic long atomic_int_fast16_t;
+typedef _Atomic unsigned long atomic_uint_fast16_t;
+typedef _Atomic long atomic_int_fast32_t;
+typedef _Atomic unsigned long atomic_uint_fast32_t;
 typedef _Atomic long atomic_int_fast64_t;
 typedef _Atomic unsigned long atomic_uint_fast64_t;
 typedef _Atomic long atomic_intptr_t;
-- 
2.43.0


From 668bbcee968b128b7db5961fa9543062311bb3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:22 +0000
Subject: [PATCH 138/158] fix: describe long double as it is, and all that C11
 asks for, in float.h

---
 include/float.h | 44 +++++++++++++++++++++++++-------------------
 1 file changed, 25 insertions(+), 19 deletions(-)

diff --git a/include/float.h b/include/float.h
index 6c53cdc..1eed4c5 100644
--- a/include/float.h
+++ b/include/float.h
@@ -1,42 +1,48 @@
 #ifndef __STDFLOAT_H
 #define __STDFLOAT_H
 
-#define DECIMAL_DIG 21
+#define DECIMAL_DIG 36
 #define FLT_EVAL_METHOD 0 // C11 5.2.4.2.2p9
 #define FLT_RADIX 2
 #define FLT_ROUNDS 1      // C11 5.2.4.2.2p8: to nearest
 
+#define FLT_DECIMAL_DIG 9
 #define FLT_DIG 6
-#define FLT_EPSILON 0x1p-23
+#define FLT_EPSILON 0x1p-23F
+#define FLT_HAS_SUBNORM 1
 #define FLT_MANT_DIG 24
-#define FLT_MAX 0x1.fffffep+127
+#define FLT_MAX 0x1.fffffep+127F
 #define FLT_MAX_10_EXP 38
 #define FLT_MAX_EXP 128
-#define FLT_MIN 0x1p-126
-#define FLT_MIN_10_EXP -37
-#define FLT_MIN_EXP -125
-#define FLT_TRUE_MIN 0x1p-149
+#define FLT_MIN 0x1p-126F
+#define FLT_MIN_10_EXP (-37)
+#define FLT_MIN_EXP (-125)
+#define FLT_TRUE_MIN 0x1p-149F
 
+#define DBL_DECIMAL_DIG 17
 #define DBL_DIG 15
 #define DBL_EPSILON 0x1p-52
+#define DBL_HAS_SUBNORM 1
 #define DBL_MANT_DIG 53
 #define DBL_MAX 0x1.fffffffffffffp+1023
 #define DBL_MAX_10_EXP 308
 #define DBL_MAX_EXP 1024
 #define DBL_MIN 0x1p-1022
-#define DBL_MIN_10_EXP -307
-#define DBL_MIN_EXP -1021
+#define DBL_MIN_10_EXP (-307)
+#define DBL_MIN_EXP (-1021)
 #define DBL_TRUE_MIN 0x0.0000000000001p-1022
 
-#define LDBL_DIG 15
-#define LDBL_EPSILON 0x1p-52
-#define LDBL_MANT_DIG 53
-#define LDBL_MAX 0x1.fffffffffffffp+1023
-#define LDBL_MAX_10_EXP 308
-#define LDBL_MAX_EXP 1024
-#define LDBL_MIN 0x1p-1022
-#define LDBL_MIN_10_EXP -307
-#define LDBL_MIN_EXP -1021
-#define LDBL_TRUE_MIN 0x0.0000000000001p-1022
+#define LDBL_DECIMAL_DIG 36
+#define LDBL_DIG 33
+#define LDBL_EPSILON 0x1p-112L
+#define LDBL_HAS_SUBNORM 1
+#define LDBL_MANT_DIG 113
+#define LDBL_MAX 0x1.ffffffffffffffffffffffffffffp+16383L
+#define LDBL_MAX_10_EXP 4932
+#define LDBL_MAX_EXP 16384
+#define LDBL_MIN 0x1p-16382L
+#define LDBL_MIN_10_EXP (-4931)
+#define LDBL_MIN_EXP (-16381)
+#define LDBL_TRUE_MIN 0x1p-16494L
 
 #endif
-- 
2.43.0


From 6a7c7acdf929b592e01458ceefb3c01395fb6806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:53 +0000
Subject: [PATCH 139/158] fix: keep all 128 bits of long double constants on
 hosts whose own has fewer

---
 codegen.c       | 24 ++++--------------------
 parser/common.c |  8 ++++----
 parser/parser.h |  2 +-
 tokenize.c      |  2 +-
 toycc.h         | 18 +++++++++++++++---
 5 files changed, 25 insertions(+), 29 deletions(-)

diff --git a/codegen.c b/codegen.c
index 3cf52c6..696c200 100644
--- a/codegen.c
+++ b/codegen.c
@@ -103,26 +103,10 @@ int align_to(int n, int align)
 	return (n + align - 1) / align * align;
 }
 
-// Represent `val` in the long double format of the target, which
-// has 128 bits.
-void ldouble_bits(long double val, uint64_t bits[2])
+// Represent `val` in the long double format of the target.
+void ldouble_bits(ldouble_t val, uint64_t bits[2])
 {
-	bits[0] = bits[1] = 0;
-
-#if defined(__x86_64__) || defined(__i386__)
-	uint64_t mant = 0;
-	uint16_t exp = 0;
-
-	// The 80-bit format has the same exponent, and
-	// an explicit integer bit followed by 63 bits of fraction.
-	memcpy(&mant, &val, sizeof(mant));
-	memcpy(&exp, (char *)&val + sizeof(mant), sizeof(exp));
-
-	bits[0] = mant << 49;
-	bits[1] = (mant & ~(1UL << 63)) >> 15 | (uint64_t)exp << 48;
-#else
 	memcpy(bits, &val, sizeof(val));
-#endif
 }
 
 static bool beyond_instruction_offset(int offset)
@@ -1269,8 +1253,8 @@ static void gen_expr(struct Node *node)
 
 		case TY_LDOUBLE:
 			ldouble_bits(node->fval, u.u64x2);
-			println("\tli a0, 0x%016lx  # long double %Lf",
-				u.u64x2[0], node->fval);
+			println("\tli a0, 0x%016lx  # long double %f",
+				u.u64x2[0], (double)node->fval);
 			println("\tli a1, 0x%016lx", u.u64x2[1]);
 			return;
 
diff --git a/parser/common.c b/parser/common.c
index aef96f2..d66b88c 100644
--- a/parser/common.c
+++ b/parser/common.c
@@ -191,7 +191,7 @@ static int64_t eval3(struct Node *node, const char ***label)
 
 	case ND_CAST:
 		if (is_float(node->lhs->ty)) {
-			long double fval = eval_ldouble(node->lhs);
+			ldouble_t fval = eval_ldouble(node->lhs);
 
 			if (node->ty->kind == TY_BOOL)
 				return fval != 0;
@@ -256,7 +256,7 @@ int64_t eval(struct Node *node)
 	return eval2(node, NULL);
 }
 
-static long double fold_ldouble(enum NodeKind kind, long double lhs, long double rhs)
+static ldouble_t fold_ldouble(enum NodeKind kind, ldouble_t lhs, ldouble_t rhs)
 {
 	switch (kind) {
 	case ND_ADD:
@@ -286,9 +286,9 @@ static double fold_double(enum NodeKind kind, double lhs, double rhs)
 
 // Evaluate a given node as a floating constant expression, with
 // the precision of its type.
-long double eval_ldouble(struct Node *node)
+ldouble_t eval_ldouble(struct Node *node)
 {
-	long double lhs, rhs, val;
+	ldouble_t lhs, rhs, val;
 
 	add_type(node);
 
diff --git a/parser/parser.h b/parser/parser.h
index 989cdfc..ef87abf 100644
--- a/parser/parser.h
+++ b/parser/parser.h
@@ -8,7 +8,7 @@ bool consume_end(struct Token **rest, struct Token *tok);
 
 int64_t eval(struct Node *node);
 int64_t eval2(struct Node *node, const char ***label);
-long double eval_ldouble(struct Node *node);
+ldouble_t eval_ldouble(struct Node *node);
 
 struct Node *new_node(enum NodeKind kind, struct Token *tok);
 struct Node *new_num(int64_t val, struct Token *tok);
diff --git a/tokenize.c b/tokenize.c
index b4ec3c8..0427819 100644
--- a/tokenize.c
+++ b/tokenize.c
@@ -525,7 +525,7 @@ static void convert_pp_number(struct Token *tok)
 
 	// If it's not an integer, it must be a floating point constant
 	char *end;
-	long double val = strtold(tok->loc, &end);
+	ldouble_t val = strtoldouble(tok->loc, &end);
 
 	// A value must be rounded only once, to the type of the constant.
 	struct Type *ty;
diff --git a/toycc.h b/toycc.h
index 802ded1..68bc646 100644
--- a/toycc.h
+++ b/toycc.h
@@ -2,6 +2,9 @@
 #define __TOYCC_H__
 
 #define _POSIX_C_SOURCE 200809L
+#if defined(__x86_64__) || defined(__i386__)
+#define __STDC_WANT_IEC_60559_TYPES_EXT__ // for strtof128
+#endif
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -25,6 +28,15 @@
 #define __attribute__(x)
 #endif
 
+// The long double of the target has 128 bits, that of x86 only 80.
+#if defined(__x86_64__) || defined(__i386__)
+typedef _Float128 ldouble_t;
+#define strtoldouble strtof128
+#else
+typedef long double ldouble_t;
+#define strtoldouble strtold
+#endif
+
 // main.c
 const char *get_base_file(void);
 const struct StringArray *get_include_paths(void);
@@ -51,7 +63,7 @@ struct Token {
 	enum TokenKind kind;	// Token kind
 	struct Token *next;	// next token
 	int64_t val;		// if kind is TK_NUM, its value
-	long double fval;	// If kind is TK_NUM, its value
+	ldouble_t fval;		// If kind is TK_NUM, its value
 	const char *loc;	// Token location
 	size_t len;		// Token length
 	struct Type *ty;	// used if TK_NUM or TK_STR
@@ -264,7 +276,7 @@ struct Node {
 
 	// numeric literal
 	int64_t val;
-	long double fval;
+	ldouble_t fval;
 };
 
 // Global variable can be initialized either by
@@ -326,7 +338,7 @@ struct Obj *parser(struct Token *tok);
 // codegen.c
 void codegen(struct Obj *prog, FILE *out);
 int align_to(int n, int align);
-void ldouble_bits(long double val, uint64_t bits[2]);
+void ldouble_bits(ldouble_t val, uint64_t bits[2]);
 
 // utils.c
 bool equal(struct Token *tok, const char *op);
-- 
2.43.0


From a9a229540e9d8598627630679db4d682032b5b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:32 +0000
Subject: [PATCH 140/158] fix: use the strictest of several _Alignas, and
 reject one that is too large

---
 parser/declarator.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/parser/declarator.c b/parser/declarator.c
index f5b8bb9..06f93ae 100644
--- a/parser/declarator.c
+++ b/parser/declarator.c
@@ -575,16 +575,23 @@ struct Type *declspec(struct Token **rest, struct Token *tok,
 				error_tok(tok, "_Alignas is not allowed in this context");
 			tok = skip(tok->next, "(");
 
+			int64_t align;
 			if (is_typename(tok)) {
-				attr->align = typename(&tok, tok)->align;
+				align = typename(&tok, tok)->align;
 			} else {
-				struct Token *align = tok;
+				struct Token *start = tok;
 
-				attr->align = const_expr(&tok, tok);
-				if (attr->align < 0 || attr->align & (attr->align - 1))
-					error_tok(align, "alignment is not a power of 2");
+				align = const_expr(&tok, tok);
+				if (align < 0 || align & (align - 1))
+					error_tok(start, "alignment is not a power of 2");
+				if (align > INT32_MAX)
+					error_tok(start, "alignment is too large");
 			}
 
+			// the strictest of several specifiers is in effect
+			if (attr->align < align)
+				attr->align = align;
+
 			tok = skip(tok, ")");
 			continue;
 		}
-- 
2.43.0


From 994a22075fd7696b6dc7b1a4a596913299c589e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:29 +0000
Subject: [PATCH 141/158] fix: let _Alignof of an object give the alignment of
 the object

---
 parser/parser.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/parser/parser.c b/parser/parser.c
index 7ab1862..d04d6b7 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -239,7 +239,14 @@ static struct Node *primary(struct Token **rest, struct Token *tok)
 		struct Node *node = unary(rest, tok->next);
 		add_type(node);
 
-		return new_ulong(node->ty->align, tok);
+		// an object may be aligned more strictly than its type
+		int align = node->ty->align;
+		if (node->kind == ND_VAR)
+			align = node->var->align;
+		else if (node->kind == ND_MEMBER)
+			align = node->member->align;
+
+		return new_ulong(align, tok);
 	}
 
 	if (equal(tok, "_Generic"))
-- 
2.43.0


From a9f7a39931701093afa37092ec03dc6efd7300d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:50 +0000
Subject: [PATCH 142/158] fix: lay out packed unions, and heed _Alignas in
 packed structs and unions

---
 parser/declarator.c | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/parser/declarator.c b/parser/declarator.c
index 06f93ae..251cf4a 100644
--- a/parser/declarator.c
+++ b/parser/declarator.c
@@ -47,7 +47,7 @@ static void struct_members(struct Token **rest, struct Token *tok, struct Type *
 			struct Member *mem = calloc(1, sizeof(struct Member));
 			mem->ty = basety;
 			mem->idx = idx++;
-			mem->align = attr.align ? attr.align : mem->ty->align;
+			mem->align = attr.align;
 			cur = cur->next = mem;
 			continue;
 		}
@@ -63,9 +63,7 @@ static void struct_members(struct Token **rest, struct Token *tok, struct Type *
 			mem->ty = declarator(&tok, tok, basety);
 			mem->name = mem->ty->name;
 			mem->idx = idx++;
-			// if _Alignas set, refer to attr.align,
-			// otherwise refer to ty->align.
-			mem->align = attr.align ? attr.align : mem->ty->align;
+			mem->align = attr.align;
 
 			if (consume(&tok, tok, ":")) {
 				mem->is_bitfield = true;
@@ -194,6 +192,15 @@ static int align_down(int n, int align)
 	return align_to(n - align + 1, align);
 }
 
+// Without _Alignas, a member is aligned like its type,
+// in a packed struct or union not at all.
+static void set_member_align(struct Type *ty)
+{
+	for (struct Member *mem = ty->members; mem; mem = mem->next)
+		if (!mem->align)
+			mem->align = ty->is_packed ? 1 : mem->ty->align;
+}
+
 // struct-decl = struct-union-decl
 static struct Type *struct_decl(struct Token **rest, struct Token *tok)
 {
@@ -203,6 +210,8 @@ static struct Type *struct_decl(struct Token **rest, struct Token *tok)
 	if (ty->size < 0)
 		return ty;
 
+	set_member_align(ty);
+
 	// Assign offsets within the struct to members
 	int bits = 0;
 	for (struct Member *mem = ty->members; mem; mem = mem->next) {
@@ -230,8 +239,7 @@ static struct Type *struct_decl(struct Token **rest, struct Token *tok)
 				bits += mem->bit_width;
 			}
 		} else {
-			if (!ty->is_packed)
-				bits = align_to(bits, mem->align * 8);
+			bits = align_to(bits, mem->align * 8);
 			mem->offset = bits / 8;
 			bits += mem->ty->size * 8;
 		}
@@ -240,7 +248,7 @@ static struct Type *struct_decl(struct Token **rest, struct Token *tok)
 		// to which an unnamed bitfield does not contribute
 		if (mem->is_bitfield && !mem->name)
 			continue;
-		if (!ty->is_packed && ty->align < mem->align)
+		if (ty->align < mem->align)
 			ty->align = mem->align;
 	}
 	ty->size = align_to(bits, ty->align * 8) / 8;
@@ -257,6 +265,8 @@ static struct Type *union_decl(struct Token **rest, struct Token *tok)
 	if (ty->size < 0)
 		return ty;
 
+	set_member_align(ty);
+
 	// If union, we don't have to assign offsets because they
 	// are already initialized to 0.
 	// We need to compute the alignment and the size though.
-- 
2.43.0


From 660f1aa2d8d2503e8c850329296e68f2d6d73d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:45 +0000
Subject: [PATCH 143/158] fix: quote file names in the assembly

---
 codegen.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/codegen.c b/codegen.c
index 696c200..8073fe5 100644
--- a/codegen.c
+++ b/codegen.c
@@ -2183,9 +2183,18 @@ void codegen(struct Obj *prog, FILE *out)
 	output_file = out;
 
 	struct File **files = get_input_files();
-	for (int i = 0; files[i]; i++)
-		println(".file %d \"%s\"",
-			files[i]->file_no, files[i]->name);
+	for (int i = 0; files[i]; i++) {
+		fprintf(out, ".file %d \"", files[i]->file_no);
+		for (const char *p = files[i]->name; *p; p++) {
+			if (*p == '\\' || *p == '"')
+				fprintf(out, "\\");
+			if (*p == '\n')
+				fprintf(out, "\\n");
+			else
+				fprintf(out, "%c", *p);
+		}
+		println("\"");
+	}
 
 	assign_lvar_offsets(prog);
 	emit_data(prog);
-- 
2.43.0


From ee40b5ac39dc0a077c81d17b344ad28e7ba95954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:45 +0000
Subject: [PATCH 144/158] fix: file names with a newline

---
 preprocessor/preprocess.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/preprocessor/preprocess.c b/preprocessor/preprocess.c
index d796e1c..e16e04f 100644
--- a/preprocessor/preprocess.c
+++ b/preprocessor/preprocess.c
@@ -520,7 +520,7 @@ static const char *quote_string(const char *str)
 {
 	int bufsize = 3;	// sizeof(" + " + \0) = 3
 	for (int i = 0; str[i]; i++) {
-		if (str[i] == '\\' || str[i] == '"')
+		if (str[i] == '\\' || str[i] == '"' || str[i] == '\n')
 			bufsize++;
 		bufsize++;
 	}
@@ -530,9 +530,9 @@ static const char *quote_string(const char *str)
 
 	*p++ = '"';
 	for (int i = 0; str[i]; i++) {
-		if (str[i] == '\\' || str[i] == '"')
+		if (str[i] == '\\' || str[i] == '"' || str[i] == '\n')
 			*p++ = '\\';
-		*p++ = str[i];
+		*p++ = str[i] == '\n' ? 'n' : str[i];
 	}
 	*p++ = '"';
 	*p++ = '\0';
-- 
2.43.0


From 862baea31f217a9e84512ae1376b84da10f29bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:57:44 +0000
Subject: [PATCH 145/158] fix: align variable-length arrays as their elements
 and _Alignas ask for

---
 codegen.c           |  6 ++++--
 parser/declarator.c | 19 +++++++++++++++++--
 type.c              |  2 +-
 3 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/codegen.c b/codegen.c
index 8073fe5..041f5e5 100644
--- a/codegen.c
+++ b/codegen.c
@@ -1949,9 +1949,11 @@ static void assign_lvar_offsets(struct Obj *prog)
 				continue;
 
 			bottom += var->ty->size;
+			// only the address of a variable-length array is here
+			int align = var->ty->kind == TY_VLA ? (int)sizeof(long) : var->align;
 			// room for moving an over-aligned variable down
-			int room = MAX(var->align, STACK_ALIGN) - STACK_ALIGN;
-			bottom = align_to(bottom + room, MIN(var->align, STACK_ALIGN));
+			int room = MAX(align, STACK_ALIGN) - STACK_ALIGN;
+			bottom = align_to(bottom + room, MIN(align, STACK_ALIGN));
 			var->offset = room - bottom;
 		}
 		// initialize stack size
diff --git a/parser/declarator.c b/parser/declarator.c
index 251cf4a..960dfa2 100644
--- a/parser/declarator.c
+++ b/parser/declarator.c
@@ -1038,10 +1038,25 @@ struct Node *declaration(struct Token **rest, struct Token *tok,
 			// `tmp = n + 2, x = alloca(tmp)`.
 			struct Obj *var = new_lvar(get_ident(ty->name), ty);
 			struct Token *tok = ty->name;
+			struct Node *size = new_var_node(ty->vla_size, tok);
+			if (attr && attr->align)
+				var->align = attr->align;
+
+			// alloca() aligns to 8 bytes only
+			int room = MAX(var->align, 8) - 8;
+			if (room)
+				size = new_binary(ND_ADD, size, new_ulong(room, tok), tok);
+
 			// x = alloca(n + 2)
+			struct Node *addr = new_alloca(size);
+			if (room) {
+				addr = new_binary(ND_ADD, new_cast(addr, p_ty_ulong()),
+						  new_ulong(room, tok), tok);
+				addr = new_binary(ND_BITAND, addr,
+						  new_ulong(-var->align, tok), tok);
+			}
 			struct Node *expr = new_binary(ND_ASSIGN, new_vla_ptr(var, tok),
-							new_alloca(new_var_node(ty->vla_size, tok)),
-							tok);
+							addr, tok);
 
 			cur = cur->next = new_unary(ND_EXPR_STMT, expr, tok);
 			continue;
diff --git a/type.c b/type.c
index fa7913e..0f32179 100644
--- a/type.c
+++ b/type.c
@@ -282,7 +282,7 @@ struct Type *array_of(struct Type *base, int len)
 
 struct Type *vla_of(struct Type *base, struct Node *len)
 {
-	struct Type *ty = new_type(TY_VLA, 8, 8);
+	struct Type *ty = new_type(TY_VLA, 8, base->align);
 	ty->base = base;
 	ty->vla_len = len;
 	return ty;
-- 
2.43.0


From f058369198c39393a7ed0ed01885d1f921519c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:37 +0000
Subject: [PATCH 146/158] fix: evaluate the initializer of a range once

---
 parser/initializer.c | 89 ++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 86 insertions(+), 3 deletions(-)

diff --git a/parser/initializer.c b/parser/initializer.c
index 4fb6bd7..65490ec 100644
--- a/parser/initializer.c
+++ b/parser/initializer.c
@@ -1,5 +1,7 @@
 #include <initializer.h>
 #include <parser.h>
+#include <scope.h>
+#include <declarator.h>
 #include <type.h>
 
 static struct Initializer *new_initializer(struct Type *ty, bool is_flexible)
@@ -161,6 +163,71 @@ static void array_designator(struct Token **rest, struct Token *tok,
 	*rest = skip(tok, "]");
 }
 
+// The initializer of a range is parsed for every element of the range, but
+// evaluated once only. Its expressions are evaluated to temporaries.
+struct RangeExpr {
+	struct RangeExpr *next;
+	struct Token *tok;	// first token of the expression
+	struct Token *rest;	// token that follows it
+	struct Obj *var;	// temporary
+};
+
+struct RangeInit {
+	int depth;		// number of ranges that are being initialized
+	struct RangeExpr *exprs;
+	struct Node *node;	// assignments to the temporaries
+};
+
+// NULL for an object that is not initialized at run time
+static struct RangeInit *range_init;
+
+static struct Node *init_expr(struct Token **rest, struct Token *tok)
+{
+	if (!range_init || !range_init->depth)
+		return assign(rest, tok);
+
+	for (struct RangeExpr *e = range_init->exprs; e; e = e->next) {
+		if (e->tok == tok) {
+			*rest = e->rest;
+			return new_var_node(e->var, tok);
+		}
+	}
+
+	struct Node *expr = assign(rest, tok);
+	add_type(expr);
+	if (is_const_expr(expr) || expr->ty->kind == TY_VOID)
+		return expr;
+
+	struct Type *ty = expr->ty;
+	if (ty->kind == TY_FUNC)
+		ty = pointer_to(ty);
+	else if (ty->kind == TY_ARRAY || ty->kind == TY_VLA)
+		ty = pointer_to(ty->base);
+
+	struct RangeExpr *e = calloc(1, sizeof(struct RangeExpr));
+	e->tok = tok;
+	e->rest = *rest;
+	e->var = new_lvar("", ty);
+	e->next = range_init->exprs;
+	range_init->exprs = e;
+
+	range_init->node = new_binary(ND_COMMA, range_init->node,
+		new_binary(ND_ASSIGN, new_var_node(e->var, tok), expr, tok), tok);
+	return new_var_node(e->var, tok);
+}
+
+static void enter_range(int begin, int end)
+{
+	if (range_init && begin < end)
+		range_init->depth++;
+}
+
+static void leave_range(int begin, int end)
+{
+	if (range_init && begin < end)
+		range_init->depth--;
+}
+
 // struct-designator = "." ident
 static struct Member *struct_designator(struct Token **rest,
 					struct Token *tok,
@@ -224,8 +291,10 @@ static void designation(struct Token **rest, struct Token *tok, struct Initializ
 		array_designator(&tok, tok, init->ty, &begin, &end);
 
 		struct Token *tok2;
+		enter_range(begin, end);
 		for (int i = begin; i <= end; i++)
 			designation(&tok2, tok, init->children[i], cont && i == end);
+		leave_range(begin, end);
 
 		// initialize the rest index
 		if (cont)
@@ -336,8 +405,10 @@ static void array_initializer1(struct Token **rest, struct Token *tok,
 			array_designator(&tok, tok, init->ty, &begin, &end);
 
 			struct Token *tok2;
+			enter_range(begin, end);
 			for (int j = begin; j <= end; j++)
 				designation(&tok2, tok, init->children[j], j == end);
+			leave_range(begin, end);
 			tok = tok2;
 			i = end;
 			continue;
@@ -469,7 +540,7 @@ static void union_initializer(struct Token **rest, struct Token *tok,
 	}
 
 	// A union can be initialized with another union.
-	struct Node *expr = assign(rest, tok);
+	struct Node *expr = init_expr(rest, tok);
 	add_type(expr);
 	if (expr->ty->kind == TY_UNION) {
 		init->expr = expr;
@@ -524,7 +595,7 @@ static void initializer2(struct Token **rest, struct Token *tok,
 		// A struct can be initialized with another struct. E.g.
 		// `struct T x = y;` where y is a variable of type `struct T`.
 		// Handle that case first.
-		struct Node *expr = assign(rest, tok);
+		struct Node *expr = init_expr(rest, tok);
 		add_type(expr);
 		if (expr->ty->kind == TY_STRUCT) {
 			init->expr = expr;
@@ -550,7 +621,7 @@ static void initializer2(struct Token **rest, struct Token *tok,
 		return;
 	}
 
-	init->expr = assign(rest, tok);
+	init->expr = init_expr(rest, tok);
 }
 
 static struct Type *copy_struct_type(struct Type *ty)
@@ -676,7 +747,13 @@ static struct Node *create_lvar_init(struct Initializer *init, struct Type *ty,
 struct Node *lvar_initializer(struct Token **rest, struct Token *tok,
 				     struct Obj *var)
 {
+	struct RangeInit range = { 0, NULL, new_node(ND_NULL_EXPR, tok) };
+	struct RangeInit *outer = range_init;
+
+	range_init = &range;
 	struct Initializer *init = initializer(rest, tok, var->ty, &var->ty);
+	range_init = outer;
+
 	struct InitDesg desg = { NULL, 0, NULL, var };
 
 	// If a partial initializer list is given, the standard requires
@@ -685,6 +762,7 @@ struct Node *lvar_initializer(struct Token **rest, struct Token *tok,
 	// initializing it with user-supplied values.
 	struct Node *lhs = new_node(ND_MEMZERO, tok);
 	lhs->var = var;
+	lhs = new_binary(ND_COMMA, lhs, range.node, tok);
 
 	// initializing var with user-supplied values.
 	struct Node *rhs = create_lvar_init(init, var->ty, &desg, tok);
@@ -820,7 +898,12 @@ static struct Relocation *write_gvar_data(struct Relocation *cur,
 void gvar_initializer(struct Token **rest, struct Token *tok,
 			     struct Obj *var)
 {
+	struct RangeInit *outer = range_init;
+
+	range_init = NULL;
 	struct Initializer *init = initializer(rest, tok, var->ty, &var->ty);
+	range_init = outer;
+
 	struct Relocation head = {};
 	char *buf = calloc(1, var->ty->size);
 
-- 
2.43.0


From 1a35eed8a66ef636aa2c3471f821855129c0ea8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:53 +0000
Subject: [PATCH 147/158] fix: align the stack for the call that finds a
 thread-local object

---
 codegen.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/codegen.c b/codegen.c
index 041f5e5..204718f 100644
--- a/codegen.c
+++ b/codegen.c
@@ -162,7 +162,9 @@ static void TLS_relative_addressing(const char *symbol)
 
 	println("\tauipc a0, %%tls_gd_pcrel_hi(%s)", symbol);
 	println("\taddi a0, a0, %%pcrel_lo(.L.pcrel%d)", c);
+	align_stack();
 	println("\tcall __tls_get_addr@plt");
+	restore_stack();
 }
 
 // The alignment of the frame pointer
-- 
2.43.0


From 59db4fa3a2e0fbb790491adee6c649501dcc18d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:24:46 +0000
Subject: [PATCH 148/158] fix: pass structs of floats with pointers or
 zero-width bit-fields as the ABI says

---
 codegen.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/codegen.c b/codegen.c
index 204718f..9eff2bf 100644
--- a/codegen.c
+++ b/codegen.c
@@ -710,8 +710,12 @@ static int flatten(struct Type *ty, int offset, struct ArgPart *part, int n)
 {
 	switch (ty->kind) {
 	case TY_STRUCT:
-		for (struct Member *mem = ty->members; mem && n >= 0; mem = mem->next)
+		for (struct Member *mem = ty->members; mem && n >= 0; mem = mem->next) {
+			// zero-width bitfields are ignored
+			if (mem->is_bitfield && !mem->bit_width)
+				continue;
 			n = flatten(mem->ty, offset + mem->offset, part, n);
+		}
 		return n;
 
 	case TY_ARRAY:
@@ -721,6 +725,7 @@ static int flatten(struct Type *ty, int offset, struct ArgPart *part, int n)
 
 	case TY_UNION:
 	case TY_LDOUBLE:
+	case TY_PTR:
 		return -1;
 
 	default:
-- 
2.43.0


From 7deb79542b239973dd5110e606ae7354f401ceaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:27:39 +0000
Subject: [PATCH 149/158] fix: take the semicolon as the end of an asm
 statement

---
 parser/parser.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parser/parser.c b/parser/parser.c
index d04d6b7..1bed470 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -1266,7 +1266,7 @@ static const char *cont_label;
 // a switch statement. Otherwise, NULL.
 static struct Node *current_switch;
 
-// asm-stmt = "asm" ("volatile" | "inline")* "(" string-literal ")"
+// asm-stmt = "asm" ("volatile" | "inline")* "(" string-literal ")" ";"
 static struct Node *asm_stmt(struct Token **rest, struct Token *tok)
 {
 	struct Node *node = new_node(ND_ASM, tok);
@@ -1282,7 +1282,8 @@ static struct Node *asm_stmt(struct Token **rest, struct Token *tok)
 
 	node->asm_str = tok->str;
 
-	*rest = skip(tok->next, ")");
+	tok = skip(tok->next, ")");
+	*rest = skip(tok, ";");
 	return node;
 }
 
-- 
2.43.0


From 592d2b3036f85c896777f5c649bf0179c16adf90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:21 +0000
Subject: [PATCH 150/158] fix: accept functions anywhere in a list of
 declarators

---
 parser/declarator.c |  7 +++++++
 parser/parser.c     | 28 ++++++++++++++++------------
 parser/parser.h     |  4 ++++
 3 files changed, 27 insertions(+), 12 deletions(-)

diff --git a/parser/declarator.c b/parser/declarator.c
index 960dfa2..ec84a26 100644
--- a/parser/declarator.c
+++ b/parser/declarator.c
@@ -1000,6 +1000,13 @@ struct Node *declaration(struct Token **rest, struct Token *tok,
 		if (ty->kind == TY_VOID)
 			error_tok(start, "variable declared void");
 
+		if (ty->kind == TY_FUNC) {
+			if (!attr)
+				error_tok(start, "function declared in a for loop");
+			tok = function(start, basety, attr);
+			continue;
+		}
+
 		if (!ty->name)
 			error_tok(ty->name_pos, "variable name omitted");
 		if (is_declared(ty->name))
diff --git a/parser/parser.c b/parser/parser.c
index 1bed470..d969e72 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -1594,7 +1594,7 @@ static struct Node *stmt(struct Token **rest, struct Token *tok)
 	return expr_stmt(rest, tok);
 }
 
-static bool is_function(struct Token *tok)
+static bool is_function_definition(struct Token *tok)
 {
 	if (equal(tok, ";"))
 		return false;
@@ -1602,7 +1602,7 @@ static bool is_function(struct Token *tok)
 	struct Type dummy = {};
 	struct Type *ty = declarator(&tok, tok, &dummy);
 
-	return ty->kind == TY_FUNC;
+	return ty->kind == TY_FUNC && equal(tok, "{");
 }
 
 static void create_param_lvars(struct Type *param)
@@ -1658,8 +1658,9 @@ static void mark_live(struct Obj *var)
 	}
 }
 
-static struct Token *function(struct Token *tok, struct Type *basety,
-			      const struct VarAttr *attr)
+// A function definition, or one declarator of a function
+struct Token *function(struct Token *tok, struct Type *basety,
+		       const struct VarAttr *attr)
 {
 	struct Type *ty = declarator(&tok, tok, basety);
 	if (!ty->name)
@@ -1704,7 +1705,7 @@ static struct Token *function(struct Token *tok, struct Type *basety,
 		fn->is_root = true;
 
 	// if it's declaration, return
-	if (consume(&tok, tok, ";"))
+	if (!equal(tok, "{"))
 		return tok;
 	// else it's definition, continue
 
@@ -1759,7 +1760,15 @@ static struct Token *global_variable(struct Token *tok, struct Type *basety,
 			tok = skip(tok, ",");
 		first = false;
 
+		struct Token *start = tok;
 		struct Type *ty = declarator(&tok, tok, basety);
+		if (ty->kind == TY_FUNC) {
+			if (equal(tok, "{"))
+				error_tok(tok, "function definition in a list of declarators");
+			tok = function(start, basety, attr);
+			continue;
+		}
+
 		if (!ty->name)
 			error_tok(ty->name_pos, "variable name omitted");
 
@@ -1818,11 +1827,6 @@ static struct Node *compound_stmt(struct Token **rest, struct Token *tok)
 				continue;
 			}
 
-			if (is_function(tok)) {
-				tok = function(tok, basety, &attr);
-				continue;
-			}
-
 			if (attr.is_extern) {
 				tok = global_variable(tok, basety, &attr);
 				continue;
@@ -1860,11 +1864,11 @@ struct Obj *parser(struct Token *tok)
 			continue;
 		}
 
-		if (is_function(tok)) {
+		if (is_function_definition(tok)) {
 			// function
 			tok = function(tok, basety, &attr);
 		} else {
-			// global variable
+			// global variables, and declarations of functions
 			tok = global_variable(tok, basety, &attr);
 		}
 	}
diff --git a/parser/parser.h b/parser/parser.h
index ef87abf..af6f881 100644
--- a/parser/parser.h
+++ b/parser/parser.h
@@ -36,4 +36,8 @@ const char *get_ident(struct Token *tok);
 struct Node *expr(struct Token **rest, struct Token *tok);
 struct Node *conditional(struct Token **rest, struct Token *tok);
 
+struct VarAttr;
+struct Token *function(struct Token *tok, struct Type *basety,
+		       const struct VarAttr *attr);
+
 #endif
-- 
2.43.0


From c1b02b8c172885a8d70b5f789557c78a0d429baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:18 +0000
Subject: [PATCH 151/158] fix: report a function declared in a block that
 declares a variable of that name

---
 parser/parser.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parser/parser.c b/parser/parser.c
index d969e72..6713fab 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -1675,6 +1675,12 @@ struct Token *function(struct Token *tok, struct Type *basety,
 	if (!is_global_scope() && equal(tok, "{"))
 		error_tok(tok, "function defined in a function");
 
+	if (is_declared(ty->name)) {
+		struct VarScope *sc = find_var(ty->name);
+		if (!sc->var || sc->var->ty->kind != TY_FUNC)
+			error_tok(ty->name, "redeclared in the same scope");
+	}
+
 	if (fn) {
 		// Redeclaration
 		if (fn->is_definition && equal(tok, "{"))
-- 
2.43.0


From bc9937db393b24dedf5a0315d2a740accd6a2d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:22 +0000
Subject: [PATCH 152/158] fix: report functions that return functions or
 arrays, and unsized arrays of functions

---
 parser/declarator.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/parser/declarator.c b/parser/declarator.c
index ec84a26..7b3fe9e 100644
--- a/parser/declarator.c
+++ b/parser/declarator.c
@@ -738,6 +738,9 @@ struct Type *declspec(struct Token **rest, struct Token *tok,
 // param = declspec declarator
 static struct Type *func_params(struct Token **rest, struct Token *tok, struct Type *ty)
 {
+	if (ty->kind == TY_FUNC || ty->kind == TY_ARRAY || ty->kind == TY_VLA)
+		error_tok(tok, "function returning a function or an array");
+
 	if (equal(tok, "void") && equal(tok->next, ")")) {
 		*rest = tok->next->next;
 		return func_type(ty);
@@ -855,7 +858,12 @@ static struct Type *array_dimension(struct Token **rest, struct Token *tok,
 		tok = tok->next;
 
 	if (equal(tok, "]")) {
+		struct Token *end = tok;
+
 		ty = type_suffix(rest, tok->next, ty);
+		if (ty->kind == TY_FUNC || (ty->kind == TY_ARRAY && ty->array_len < 0))
+			error_tok(end, "array of functions or of incomplete arrays");
+
 		// set flag for incomplete array
 		return array_of(ty, -1);
 	}
-- 
2.43.0


From 113784261a5310b62983d8276305c8a4b05c08a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:55 +0000
Subject: [PATCH 153/158] fix: report aggregates that are initialized by a list
 without braces

---
 parser/initializer.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parser/initializer.c b/parser/initializer.c
index 65490ec..f991102 100644
--- a/parser/initializer.c
+++ b/parser/initializer.c
@@ -651,6 +651,12 @@ static struct Initializer *initializer(struct Token **rest, struct Token *tok,
 	// assign expr to initializer
 	initializer2(rest, tok, init);
 
+	// The braces of the outermost list cannot be omitted.
+	if (!equal(tok, "{") && !init->expr &&
+	    (ty->kind == TY_STRUCT || ty->kind == TY_UNION ||
+	     (ty->kind == TY_ARRAY && tok->kind != TK_STR)))
+		error_tok(tok, "invalid initializer");
+
 	if ((ty->kind == TY_STRUCT || ty->kind == TY_UNION) && ty->is_flexible) {
 		// allocate new ty, just for calculate the size of the last member
 		ty = copy_struct_type(ty);
-- 
2.43.0


From 46411a6698dea4ed30806e304e64fae308aa9754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:55 +0000
Subject: [PATCH 154/158] fix: report static functions declared in a block

---
 parser/parser.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser/parser.c b/parser/parser.c
index 6713fab..0ce53ad 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -1674,6 +1674,8 @@ struct Token *function(struct Token *tok, struct Type *basety,
 		error_tok(ty->name, "re-declared as a different kind of symbol");
 	if (!is_global_scope() && equal(tok, "{"))
 		error_tok(tok, "function defined in a function");
+	if (!is_global_scope() && attr->is_static)
+		error_tok(ty->name, "static function declared in a function");
 
 	if (is_declared(ty->name)) {
 		struct VarScope *sc = find_var(ty->name);
-- 
2.43.0


From b3837d73774d545843518eb8cf42a6e6adac4372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:17 +0000
Subject: [PATCH 155/158] fix: variable-length arrays as parameters

---
 parser/declarator.c |  5 ++++-
 parser/parser.c     | 35 +++++++++++++++++++++++++++++++++++
 2 files changed, 39 insertions(+), 1 deletion(-)

diff --git a/parser/declarator.c b/parser/declarator.c
index 7b3fe9e..958efd2 100644
--- a/parser/declarator.c
+++ b/parser/declarator.c
@@ -767,13 +767,16 @@ static struct Type *func_params(struct Token **rest, struct Token *tok, struct T
 		struct Token *name = ty2->name;
 		struct Token *name_pos = ty2->name_pos;
 
-		if (ty2->kind == TY_ARRAY) {
+		if (ty2->kind == TY_ARRAY || ty2->kind == TY_VLA) {
 			// "array of T" is converted to "pointer to T" only
 			//  in the parameter context.
 			// For example, *argv[] is converted to **argv by this.
+			struct Node *len = ty2->vla_len;
+
 			ty2 = pointer_to(ty2->base);
 			ty2->name = name;
 			ty2->name_pos = name_pos;
+			ty2->vla_len = len;
 
 		} else if (ty2->kind == TY_FUNC) {
 			// Likewise, a function is converted to a pointer to
diff --git a/parser/parser.c b/parser/parser.c
index 0ce53ad..f6ff64a 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -1621,6 +1621,32 @@ static void create_param_lvars(struct Type *param)
 	}
 }
 
+// Compute the sizes of the variable-length arrays which parameters
+// point to, on entry to the function.
+static struct Node *param_sizes(struct Type *params, struct Token *tok)
+{
+	struct Node head = {};
+	struct Node *cur = &head;
+
+	for (struct Type *ty = params; ty; ty = ty->next) {
+		struct Type *base = ty->base;
+		while (base && base->kind != TY_VLA)
+			base = base->base;
+		if (!base && !ty->vla_len)
+			continue;
+
+		struct Node *node = compute_vla_size(ty, tok);
+
+		if (ty->vla_len)
+			node = new_binary(ND_COMMA, node, ty->vla_len, tok);
+		cur->next = new_unary(ND_EXPR_STMT, node, tok);
+		cur = cur->next;
+		add_type(cur);
+	}
+
+	return head.next;
+}
+
 // This function matches gotos or labels-as-values with labels.
 //
 // We cannot resolve gotos as we parse a function because gotos
@@ -1749,7 +1775,16 @@ struct Token *function(struct Token *tok, struct Type *basety,
 	push_scope("__FUNCTION__")->var =
 		new_string_literal(fn->name, array_of(p_ty_char(), strlen(fn->name) + 1));
 
+	struct Node *sizes = param_sizes(ty->params, tok);
+
 	fn->body = compound_stmt(&tok, tok);
+	if (sizes) {
+		struct Node *last = sizes;
+		while (last->next)
+			last = last->next;
+		last->next = fn->body->body;
+		fn->body->body = sizes;
+	}
 	fn->locals = ret_locals();
 	leave_scope();
 
-- 
2.43.0


From 4d5f51e15eeb2409221ad82d94a7150862ebe91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:02 +0000
Subject: [PATCH 156/158] fix: let array bounds of parameters use the
 parameters before them

---
 parser/declarator.c | 11 +++++++++++
 parser/parser.c     | 20 ++++++++++++++++----
 parser/scope.c      | 33 ++++++++++++++++++++++++++++++++-
 parser/scope.h      |  5 +++++
 type.h              |  2 ++
 5 files changed, 66 insertions(+), 5 deletions(-)

diff --git a/parser/declarator.c b/parser/declarator.c
index 958efd2..ec73c01 100644
--- a/parser/declarator.c
+++ b/parser/declarator.c
@@ -750,6 +750,8 @@ static struct Type *func_params(struct Token **rest, struct Token *tok, struct T
 	struct Type *cur = &head;
 	bool is_variadic = false;
 
+	enter_scope();
+
 	while (!equal(tok, ")")) {
 		if (cur != &head)
 			tok = skip(tok, ",");
@@ -788,12 +790,21 @@ static struct Type *func_params(struct Token **rest, struct Token *tok, struct T
 
 		cur->next = copy_type(ty2);
 		cur = cur->next;
+
+		if (name) {
+			if (is_declared_param(name))
+				error_tok(name, "redeclared in the same scope");
+			cur->param = new_param(get_ident(name), cur);
+		}
 	}
 
 	ty = func_type(ty);
 	ty->params = head.next;
+	ty->param_scope = ret_scope();
 	ty->is_variadic = is_variadic;
 
+	leave_scope();
+
 	*rest = tok->next;
 	return ty;
 }
diff --git a/parser/parser.c b/parser/parser.c
index f6ff64a..2f43a99 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -1611,13 +1611,11 @@ static void create_param_lvars(struct Type *param)
 		create_param_lvars(param->next);
 		if (!param->name)
 			error_tok(param->name_pos, "parameter name omitted");
-		if (is_declared(param->name))
-			error_tok(param->name, "redeclared in the same scope");
 		if (param->size < 0)
 			error_tok(param->name, "parameter has incomplete type");
 
 		// locals -> arg1 -> arg2 -> ... -> argn
-		new_lvar(get_ident(param->name), param);
+		add_lvar(param->param);
 	}
 }
 
@@ -1688,6 +1686,9 @@ static void mark_live(struct Obj *var)
 struct Token *function(struct Token *tok, struct Type *basety,
 		       const struct VarAttr *attr)
 {
+	if (is_global_scope())
+		init_locals();
+
 	struct Type *ty = declarator(&tok, tok, basety);
 	if (!ty->name)
 		error_tok(ty->name_pos, "function name omitted");
@@ -1745,8 +1746,12 @@ struct Token *function(struct Token *tok, struct Type *basety,
 
 	current_fn = fn;
 	// initialize local variables list
+	struct Obj *temps = ret_locals();
 	init_locals();
-	enter_scope();
+	if (ty->param_scope)
+		reenter_scope(ty->param_scope);
+	else
+		enter_scope();
 
 	create_param_lvars(ty->params);
 	// A buffer for a struct/union return value is passed
@@ -1757,6 +1762,13 @@ struct Token *function(struct Token *tok, struct Type *basety,
 
 	fn->params = ret_locals();
 
+	// temporaries in the sizes of parameters
+	while (temps) {
+		struct Obj *next = temps->next;
+		add_lvar(temps);
+		temps = next;
+	}
+
 	if (ty->is_variadic)
 		fn->va_area = new_lvar("__va_area__", array_of(p_ty_char(), 0));
 
diff --git a/parser/scope.c b/parser/scope.c
index 762bec3..36fc92e 100644
--- a/parser/scope.c
+++ b/parser/scope.c
@@ -45,6 +45,19 @@ void leave_scope(void)
 	scope = scope->next;
 }
 
+struct Scope *ret_scope(void)
+{
+	return scope;
+}
+
+// The scope of a function's parameters is left with its declarator,
+// and entered again with its body.
+void reenter_scope(struct Scope *sc)
+{
+	sc->next = scope;
+	scope = sc;
+}
+
 struct VarScope *find_var(struct Token *tok)
 {
 	for (struct Scope *sc = scope; sc; sc = sc->next) {
@@ -69,6 +82,11 @@ bool is_declared(struct Token *name)
 	return sc && !sc->type_def;
 }
 
+bool is_declared_param(struct Token *name)
+{
+	return hashmap_get2(&scope->vars, name->loc, name->len);
+}
+
 struct Type *find_tag(struct Token *tok)
 {
 	for (struct Scope *sc = scope; sc; sc = sc->next) {
@@ -140,12 +158,25 @@ static struct Obj *new_var(const char *name, struct Type *ty)
 	return var;
 }
 
-struct Obj *new_lvar(const char *name, struct Type *ty)
+// A parameter is in scope for those that follow it, but only becomes
+// a local variable if the function is defined.
+struct Obj *new_param(const char *name, struct Type *ty)
 {
 	struct Obj *var = new_var(name, ty);
 	var->is_local = true;
+	return var;
+}
+
+void add_lvar(struct Obj *var)
+{
 	var->next = locals;
 	locals = var;
+}
+
+struct Obj *new_lvar(const char *name, struct Type *ty)
+{
+	struct Obj *var = new_param(name, ty);
+	add_lvar(var);
 	return var;
 }
 
diff --git a/parser/scope.h b/parser/scope.h
index 89629f3..fd6727c 100644
--- a/parser/scope.h
+++ b/parser/scope.h
@@ -30,6 +30,8 @@ struct Obj *ret_globals(void);
 
 void enter_scope(void);
 void leave_scope(void);
+struct Scope *ret_scope(void);
+void reenter_scope(struct Scope *sc);
 
 struct Type *find_tag(struct Token *tok);
 struct Type *find_current_tag(struct Token *tok);
@@ -37,11 +39,14 @@ struct Obj *find_gvar(const char *name);
 struct Obj *find_func(const char *name);
 
 bool is_declared(struct Token *name);
+bool is_declared_param(struct Token *name);
 void push_tag_scope(struct Token *tok, struct Type *ty);
 struct VarScope *push_scope(const char *name);
 struct Type *overwrite_tag(struct Token *tok, struct Type *ty);
 
 struct Obj *new_lvar(const char *name, struct Type *ty);
+struct Obj *new_param(const char *name, struct Type *ty);
+void add_lvar(struct Obj *var);
 struct Obj *new_gvar(const char *name, struct Type *ty);
 struct Obj *new_anon_gvar(struct Type *ty);
 struct Obj *new_string_literal(const char *p, struct Type *ty);
diff --git a/type.h b/type.h
index 9d2f470..aa2b10b 100644
--- a/type.h
+++ b/type.h
@@ -33,6 +33,8 @@ struct Type {
 	// function type
 	struct Type *return_ty;
 	struct Type *params;
+	struct Scope *param_scope;
+	struct Obj *param;	// the variable, if this is a parameter
 	bool is_variadic;
 	struct Type *next;
 };
-- 
2.43.0


From a8489405b7625d74a6d0d063d06f5fdb6a65ef99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:02 +0000
Subject: [PATCH 157/158] fix: qualifiers and unspecified sizes in array
 parameters

---
 parser/declarator.c | 21 +++++++++++++++++++--
 parser/parser.c     |  4 ++++
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/parser/declarator.c b/parser/declarator.c
index ec73c01..93bff7f 100644
--- a/parser/declarator.c
+++ b/parser/declarator.c
@@ -734,6 +734,9 @@ struct Type *declspec(struct Token **rest, struct Token *tok,
 	return ty;
 }
 
+// the number of parameter lists around what is parsed
+static int param_depth;
+
 // func-params = ("void" | param ("," param)* ("," "...")?)? ")"
 // param = declspec declarator
 static struct Type *func_params(struct Token **rest, struct Token *tok, struct Type *ty)
@@ -751,6 +754,7 @@ static struct Type *func_params(struct Token **rest, struct Token *tok, struct T
 	bool is_variadic = false;
 
 	enter_scope();
+	param_depth++;
 
 	while (!equal(tok, ")")) {
 		if (cur != &head)
@@ -803,6 +807,7 @@ static struct Type *func_params(struct Token **rest, struct Token *tok, struct T
 	ty->param_scope = ret_scope();
 	ty->is_variadic = is_variadic;
 
+	param_depth--;
 	leave_scope();
 
 	*rest = tok->next;
@@ -864,13 +869,25 @@ bool is_const_expr(struct Node *node)
 	return false;
 }
 
-// array-dimension = ("static" | "restrict")* const-expr? "]" type-suffix
+// array-dimension = ("static" | type-qualifier)* (const-expr | "*")? "]" type-suffix
 static struct Type *array_dimension(struct Token **rest, struct Token *tok,
 				    struct Type *ty)
 {
-	while (equal(tok, "static") || equal(tok, "restrict"))
+	while (equal(tok, "static") || equal(tok, "restrict") ||
+	       equal(tok, "const") || equal(tok, "volatile") ||
+	       equal(tok, "__restrict") || equal(tok, "__restrict__"))
 		tok = tok->next;
 
+	// A size that only a definition tells.
+	if (equal(tok, "*") && equal(tok->next, "]")) {
+		if (!param_depth)
+			error_tok(tok, "unspecified size outside of a parameter");
+
+		struct Node *len = new_num(1, tok);
+
+		return vla_of(type_suffix(rest, tok->next->next, ty), len);
+	}
+
 	if (equal(tok, "]")) {
 		struct Token *end = tok;
 
diff --git a/parser/parser.c b/parser/parser.c
index 2f43a99..4b8bbf9 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -1613,6 +1613,10 @@ static void create_param_lvars(struct Type *param)
 			error_tok(param->name_pos, "parameter name omitted");
 		if (param->size < 0)
 			error_tok(param->name, "parameter has incomplete type");
+		for (struct Type *ty = param; ty; ty = ty->base)
+			if (ty->vla_len && ty->vla_len->kind == ND_NUM &&
+			    equal(ty->vla_len->tok, "*"))
+				error_tok(param->name, "parameter of unspecified size");
 
 		// locals -> arg1 -> arg2 -> ... -> argn
 		add_lvar(param->param);
-- 
2.43.0


From 70b6ee2e26751a15725f5eac1e0a3ed0deca2d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:29 +0000
Subject: [PATCH 158/158] fix: take a typedef name in the parentheses of a
 parameter as a type

---
 parser/declarator.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/parser/declarator.c b/parser/declarator.c
index 93bff7f..4af6cce 100644
--- a/parser/declarator.c
+++ b/parser/declarator.c
@@ -736,6 +736,8 @@ struct Type *declspec(struct Token **rest, struct Token *tok,
 
 // the number of parameter lists around what is parsed
 static int param_depth;
+// the declarator to be parsed is that of a parameter
+static bool is_param;
 
 // func-params = ("void" | param ("," param)* ("," "...")?)? ")"
 // param = declspec declarator
@@ -768,6 +770,7 @@ static struct Type *func_params(struct Token **rest, struct Token *tok, struct T
 		}
 
 		struct Type *basety = declspec(&tok, tok, NULL);
+		is_param = true;
 		struct Type *ty2 = declarator(&tok, tok, basety);
 
 		struct Token *name = ty2->name;
@@ -943,16 +946,22 @@ static struct Type *type_suffix(struct Token **rest, struct Token *tok,
 // declarator = "*"* ("(" ident ")" | "(" declarator ")" | ident) (type-suffix)?
 struct Type *declarator(struct Token **rest, struct Token *tok, struct Type *ty)
 {
+	// a parameter itself, not what its type consists of
+	bool param = is_param;
+	is_param = false;
+
 	ty = pointers(&tok, tok, ty);
 
 	// An unnamed function such as `void (int)` is not a nested declarator,
-	// while a typedef name in parentheses can be redeclared.
+	// while a typedef name in parentheses can be redeclared, except by
+	// a parameter.
 	if (equal(tok, "(") && !equal(tok->next, ")") &&
-	    (tok->next->kind == TK_IDENT || !is_typename(tok->next))) {
+	    ((tok->next->kind == TK_IDENT && !param) || !is_typename(tok->next))) {
 		// get the type of declarator, and update 'rest'
 		ty = type_suffix(rest, closing_paren(tok)->next, ty);
 
 		// process what is inside, and keep the 'rest' & return it
+		is_param = param;
 		ty = declarator(&tok, tok->next, ty);
 		skip(tok, ")");
 		return ty;
-- 
2.43.0

