From e2f62e358bf1fbb1b14b73a4ce5bdfbb2f856328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:00 +0000
Subject: [PATCH 01/36] fix: PC-relative operand with target zero encoded
 offset zero

---
 src/instr.c | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/instr.c b/src/instr.c
index 911c0c8..abf18a3 100644
--- a/src/instr.c
+++ b/src/instr.c
@@ -243,7 +243,6 @@ static _Bool off_type_compatible(enum off_type off_type, _Bool pcr, struct node
 static void instr_indexed2(_Bool indirect, struct node const *arg0, struct node const *arg1) {
 
 	enum node_type arg0_type = node_type_of(arg0);
-	enum node_attr arg0_attr = node_attr_of(arg0);
 	enum node_type arg1_type = node_type_of(arg1);
 	enum node_attr arg1_attr = node_attr_of(arg1);
 
@@ -291,11 +290,6 @@ static void instr_indexed2(_Bool indirect, struct node const *arg0, struct node
 		goto invalid_mode;
 	}
 
-	if (arg0_type == node_type_int && arg0_attr == node_attr_none
-	    && arg0->data.as_int == 0) {
-		arg0_type = node_type_empty;
-	}
-
 	enum off_type off_type;
 	enum idx_indirect idx_indirect;
 	int postbyte = -1;
-- 
2.43.0


From 931b87fe3bac7eed9faa8dc0dfb55ec47fc937bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:12 +0000
Subject: [PATCH 02/36] fix: operands of the wrong type were silently encoded
 as zero

---
 src/instr.c | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/instr.c b/src/instr.c
index abf18a3..b3719fa 100644
--- a/src/instr.c
+++ b/src/instr.c
@@ -59,6 +59,8 @@ void instr_immediate(struct opcode const *op, struct node const *args) {
 	if (tmp) {
 		value = tmp->data.as_int;
 		node_free(tmp);
+	} else if (node_type_of(arga[0]) != node_type_undef) {
+		error(error_type_syntax, "invalid argument");
 	}
 	if ((op->type & OPCODE_EXT_TYPE) == OPCODE_IMM8)
 		section_emit_uint8(value);
@@ -95,6 +97,8 @@ void instr_rel(struct opcode const *op, struct node const *args) {
 	}
 	section_emit_op(op->immediate);
 	if (node_type_of(arga[0]) != node_type_int) {
+		if (node_type_of(arga[0]) != node_type_undef)
+			error(error_type_syntax, "invalid argument");
 		if ((op->type & OPCODE_EXT_TYPE) == OPCODE_REL8)
 			section_emit_pad(1);
 		else
@@ -186,6 +190,10 @@ static _Bool off_type_compatible(enum off_type off_type, _Bool pcr, struct node
 	enum node_type ntype = node_type_of(n);
 	enum node_attr nattr = node_attr_of(n);
 
+	// size can only be forced for a numeric (or omitted) offset
+	if (nattr != node_attr_none && ntype != node_type_int && ntype != node_type_empty)
+		return 0;
+
 	switch (nattr) {
 	case node_attr_none:
 		break;
@@ -438,6 +446,9 @@ void instr_address(struct opcode const *op, struct node const *args, int imm8_va
 		attr = arg->attr;
 		addr = arg->data.as_int & 0xffff;
 		node_free(arg);
+	} else if (node_type_of(arga[0]) != node_type_undef) {
+		error(error_type_syntax, "invalid addressing mode");
+		return;
 	}
 
 	if ((op->type & OPCODE_DIRECT)) {
@@ -478,6 +489,8 @@ void instr_imm8_mem(struct opcode const *op, struct node const *args) {
 	int imm8_val = 0;
 	if (node_type_of(arga[0]) == node_type_int)
 		imm8_val = arga[0]->data.as_int;
+	else if (node_type_of(arga[0]) != node_type_undef)
+		error(error_type_syntax, "invalid argument");
 	struct node *newa = node_new_array();
 	newa->data.as_array.nargs = nargs - 1;
 	newa->data.as_array.args = arga + 1;
@@ -537,6 +550,10 @@ void instr_pair(struct opcode const *op, struct node const *args) {
 		type[i] = node_type_of(arga[i]);
 		if (type[i] == node_type_reg) {
 			nibble[i] = reg_tfr_nibble[arga[i]->data.as_reg];
+			if (nibble[i] < 0) {
+				error(error_type_syntax, "invalid register in inter-register op");
+				return;
+			}
 			size[i] = reg_tfr_size[arga[i]->data.as_reg];
 		} else if (type[i] == node_type_int) {
 			int v = arga[i]->data.as_int;
@@ -671,6 +688,8 @@ void instr_reg_mem(struct opcode const *op, struct node const *args) {
 		} else {
 			pbyte |= (arga[1]->data.as_int << 3);
 		}
+	} else if (node_type_of(arga[1]) != node_type_undef) {
+		error(error_type_syntax, "invalid argument");
 	}
 	if (node_type_of(arga[2]) == node_type_int) {
 		if (arga[2]->data.as_int < 0 || arga[2]->data.as_int > 7) {
@@ -678,6 +697,8 @@ void instr_reg_mem(struct opcode const *op, struct node const *args) {
 		} else {
 			pbyte |= arga[2]->data.as_int;
 		}
+	} else if (node_type_of(arga[2]) != node_type_undef) {
+		error(error_type_syntax, "invalid argument");
 	}
 
 	section_emit_op(op->direct);
@@ -685,6 +706,8 @@ void instr_reg_mem(struct opcode const *op, struct node const *args) {
 	if (node_type_of(arga[3]) == node_type_int) {
 		section_emit_uint8(arga[3]->data.as_int);
 	} else {
+		if (node_type_of(arga[3]) != node_type_undef)
+			error(error_type_syntax, "invalid argument");
 		section_emit_pad(1);
 	}
 	return;
-- 
2.43.0


From 226e3e5056081fb6abc684ca2d2a941f2256bc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:11 +0000
Subject: [PATCH 03/36] fix: characters above 127 in a string used as a number
 were sign extended

---
 src/eval.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eval.c b/src/eval.c
index 2b9f9b2..a070644 100644
--- a/src/eval.c
+++ b/src/eval.c
@@ -206,7 +206,7 @@ struct node *eval_int(struct node *n) {
 		{
 			uint32_t value = 0;
 			for (const char *s = n->data.as_string; *s; s++)
-				value = (value << 8) | *s;
+				value = (value << 8) | (unsigned char)*s;
 			return node_set_attr(node_new_int(value), n->attr);
 		}
 	default:
-- 
2.43.0


From ec8c0b7ccef4af56eebd8d4d152bde70e0bca1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:35 +0000
Subject: [PATCH 04/36] fix: undefined operand of an inter-register op used an
 uninitialised value

---
 src/instr.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/instr.c b/src/instr.c
index b3719fa..0ed6eaf 100644
--- a/src/instr.c
+++ b/src/instr.c
@@ -543,9 +543,9 @@ void instr_pair(struct opcode const *op, struct node const *args) {
 		return;
 	}
 
-	int nibble[2];
+	int nibble[2] = { 0, 0 };
 	int type[2];
-	int size[2];
+	int size[2] = { 16 | 8, 16 | 8 };
 	for (int i = 0; i < 2; i++) {
 		type[i] = node_type_of(arga[i]);
 		if (type[i] == node_type_reg) {
@@ -596,7 +596,7 @@ void instr_tfm(struct opcode const *op, struct node const *args) {
 		return;
 	}
 
-	int nibble[2];
+	int nibble[2] = { 0, 0 };
 	int type[2];
 	int attr[2];
 	for (int i = 0; i < 2; i++) {
-- 
2.43.0


From eac54874e8f6c1fc078feee025be5da740434dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:35 +0000
Subject: [PATCH 05/36] Loop contracts for to_rel16 (ASM6809_VERIFY)

---
 src/instr.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/instr.c b/src/instr.c
index 0ed6eaf..74cccfb 100644
--- a/src/instr.c
+++ b/src/instr.c
@@ -82,8 +82,18 @@ void instr_immediate(struct opcode const *op, struct node const *args) {
 
 static int to_rel16(int64_t i) {
 	while (i < -32768)
+#ifdef ASM6809_VERIFY
+		__CPROVER_loop_invariant((uint16_t)i == (uint16_t)__CPROVER_loop_entry(i))
+		__CPROVER_loop_invariant(i == __CPROVER_loop_entry(i) || i <= 32767)
+		__CPROVER_decreases((uint64_t)32768 - (uint64_t)i)
+#endif
 		i += 65536;
 	while (i > 32767)
+#ifdef ASM6809_VERIFY
+		__CPROVER_loop_invariant((uint16_t)i == (uint16_t)__CPROVER_loop_entry(i))
+		__CPROVER_loop_invariant(i == __CPROVER_loop_entry(i) || i >= -32768)
+		__CPROVER_decreases(i)
+#endif
 		i -= 65536;
 	return i;
 }
-- 
2.43.0


From f1d953ded48225d0e2e3d5f95583074a71dbfbfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:28 +0000
Subject: [PATCH 06/36] fix: data emitted near the top of the integer range was
 written to an unallocated span

The check for growing a span compared signed addresses, so that with ORG near
INT_MAX it overflowed and skipped the allocation; so did the check for passing
the end of memory.
---
 src/section.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/section.c b/src/section.c
index 38271b9..591f40f 100644
--- a/src/section.c
+++ b/src/section.c
@@ -254,10 +254,11 @@ static void section_emit(uint8_t const *buf, int nbytes) {
 		error(error_type_out_of_range, "assembling to negative address");
 	}
 
+	_Bool beyond = cur_section->pc > 0x10000 - nbytes;
 	cur_section->put += nbytes;
 	cur_section->pc += nbytes;
 
-	if (cur_section->pc >= (int)(span->org + span->allocated)) {
+	if (span->size + nbytes > span->allocated) {
 		span->allocated += 128;
 		span->data = xrealloc(span->data, span->allocated);
 	}
@@ -269,7 +270,7 @@ static void section_emit(uint8_t const *buf, int nbytes) {
 	}
 	span->size += nbytes;
 
-	if (cur_section->pc > 0x10000) {
+	if (beyond) {
 		error(error_type_out_of_range, "assembling beyond addressable memory");
 	}
 }
-- 
2.43.0


From 8524fa82f93c55e3b8400b1f8db53b1d6e1301a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:33 +0000
Subject: [PATCH 07/36] fix: an out of range value after an undefined symbol
 stopped assembly early

A pass that is both inconsistent and has values out of range is to be repeated,
but that only worked if the inconsistency was found last.
---
 src/error.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/error.c b/src/error.c
index 3d7e764..15104d0 100644
--- a/src/error.c
+++ b/src/error.c
@@ -44,12 +44,16 @@ static struct slist **error_list_next = &error_list;
 
 static void verror(enum error_type type, const char *fmt, va_list ap) {
 	struct error *err = NULL;
-	if (type > error_level) {
-		error_level = type;
-	}
+	/* Values may only be out of range because the pass is inconsistent, in
+	 * whichever order the two are found */
 	if (type == error_type_inconsistent &&
-	    error_level == error_type_out_of_range)
+	    error_level == error_type_out_of_range) {
 		error_level = error_type_inconsistent;
+	} else if (type > error_level &&
+		   !(type == error_type_out_of_range &&
+		     error_level == error_type_inconsistent)) {
+		error_level = type;
+	}
 	if (fmt) {
 		err = xmalloc(sizeof(*err));
 		err->type = type;
-- 
2.43.0


From 9086a362af724548dda7518e8148d3aba1c1f6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:09 +0000
Subject: [PATCH 08/36] fix: == and != bound more tightly than < <= > >=,
 contrary to the documentation

---
 src/grammar.y | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grammar.y b/src/grammar.y
index b679585..c967eb4 100644
--- a/src/grammar.y
+++ b/src/grammar.y
@@ -79,8 +79,8 @@ static void check_end_opcode(struct prog_line *line);
 %left '|'
 %left '^'
 %left '&'
-%left '<' LE '>' GE
 %left EQ NE
+%left '<' LE '>' GE
 %left SHL SHR
 %left '+' '-'
 %left '*' '/' '%'
-- 
2.43.0


From 25080d07b9277d8252983698326034d90880de82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:28 +0000
Subject: [PATCH 09/36] fix: an operand of the wrong type in an expression
 silently made it zero

---
 src/eval.c | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/eval.c b/src/eval.c
index a070644..dad41d9 100644
--- a/src/eval.c
+++ b/src/eval.c
@@ -259,6 +259,13 @@ struct node *eval_int_free(struct node *n) {
 
 // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
 
+/* Operands are undefined (already reported) before they get this far, so an
+ * operator without a result was given the wrong type of operand. */
+
+static void invalid_operand(void) {
+	error(error_type_syntax, "invalid operand type in expression");
+}
+
 static struct node *eval_node_oper_1(struct node *n) {
 	struct node *ret = NULL;
 	struct node *arg;
@@ -285,6 +292,7 @@ static struct node *eval_node_oper_1(struct node *n) {
 			ret = node_new_float(-arg->data.as_float);
 			break;
 		default:
+			invalid_operand();
 			break;
 		}
 		break;
@@ -295,6 +303,7 @@ static struct node *eval_node_oper_1(struct node *n) {
 		case node_type_float:
 			return arg;
 		default:
+			invalid_operand();
 			break;
 		}
 		break;
@@ -312,6 +321,8 @@ static struct node *eval_node_oper_1(struct node *n) {
 		arg = eval_int_free(arg);
 		if (arg) {
 			ret = node_new_int(~arg->data.as_int);
+		} else {
+			invalid_operand();
 		}
 		break;
 
@@ -431,10 +442,12 @@ static struct node *eval_node_oper_2(struct node *n) {
 		}
 
 		if (!(leftn = eval_float_free(leftn))) {
+			invalid_operand();
 			node_free(rightn);
 			return NULL;
 		}
 		if (!(rightn = eval_float_free(rightn))) {
+			invalid_operand();
 			node_free(leftn);
 			return NULL;
 		}
@@ -484,10 +497,12 @@ static struct node *eval_node_oper_2(struct node *n) {
 	case LAND: case LOR:
 
 		if (!(leftn = eval_int_free(leftn))) {
+			invalid_operand();
 			node_free(rightn);
 			return NULL;
 		}
 		if (!(rightn = eval_int_free(rightn))) {
+			invalid_operand();
 			node_free(leftn);
 			return NULL;
 		}
@@ -547,8 +562,10 @@ static struct node *eval_node_oper_3(struct node *n) {
 	if (!(condn = eval_node(n->data.as_oper.args[0])))
 		return NULL;
 
-	if (!(condn = eval_int_free(condn)))
+	if (!(condn = eval_int_free(condn))) {
+		invalid_operand();
 		return NULL;
+	}
 
 	if (condn->data.as_int != 0) {
 		ret = eval_node(n->data.as_oper.args[1]);
-- 
2.43.0


From 2e538d2eeec43cabb6636a21d7f92ec54c91f3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:28 +0000
Subject: [PATCH 10/36] fix: modulo by zero or minus one in an expression could
 crash the assembler

---
 src/eval.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/eval.c b/src/eval.c
index dad41d9..4b43d70 100644
--- a/src/eval.c
+++ b/src/eval.c
@@ -509,7 +509,15 @@ static struct node *eval_node_oper_2(struct node *n) {
 
 		switch (n->data.as_oper.oper) {
 		case '%':
-			ret = node_new_int(leftn->data.as_int % rightn->data.as_int);
+			if (rightn->data.as_int == 0) {
+				error(error_type_out_of_range, "modulo by zero in expression");
+				ret = NULL;
+			} else if (rightn->data.as_int == -1) {
+				// avoid overflow in INT64_MIN % -1
+				ret = node_new_int(0);
+			} else {
+				ret = node_new_int(leftn->data.as_int % rightn->data.as_int);
+			}
 			break;
 		case SHL:
 			ret = node_new_int(leftn->data.as_int << rightn->data.as_int);
-- 
2.43.0


From b810204f225d56f3ce51c6cafc66a3c5aa8ed6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:28 +0000
Subject: [PATCH 11/36] fix: division by zero in an expression was silently
 assembled as zero

---
 src/eval.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/eval.c b/src/eval.c
index 4b43d70..d73e0e3 100644
--- a/src/eval.c
+++ b/src/eval.c
@@ -457,7 +457,12 @@ static struct node *eval_node_oper_2(struct node *n) {
 			ret = node_new_float(leftn->data.as_float * rightn->data.as_float);
 			break;
 		case '/':
-			ret = node_new_float(leftn->data.as_float / rightn->data.as_float);
+			if (rightn->data.as_float == 0.0) {
+				error(error_type_out_of_range, "division by zero in expression");
+				ret = NULL;
+			} else {
+				ret = node_new_float(leftn->data.as_float / rightn->data.as_float);
+			}
 			break;
 		case '+':
 			ret = node_new_float(leftn->data.as_float + rightn->data.as_float);
-- 
2.43.0


From e3a6445f15c911a66db67db93c6d5aa1f7bb72cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:46 +0000
Subject: [PATCH 12/36] fix: strings used in place of integers gave no value
 with two string operands

The documentation allows strings in place of integers; an operator given two of
them (other than a comparison), or ?: given one, silently made zero.
---
 src/eval.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/eval.c b/src/eval.c
index d73e0e3..d8faaac 100644
--- a/src/eval.c
+++ b/src/eval.c
@@ -241,7 +241,7 @@ struct node *eval_float_free(struct node *n) {
 struct node *eval_int_free(struct node *n) {
 	if (!n)
 		return NULL;
-	if (n->ref != 1) {
+	if (n->ref != 1 || n->type == node_type_string) {
 		struct node *ret = eval_int(n);
 		node_free(n);
 		return ret;
@@ -389,9 +389,14 @@ static struct node *eval_node_oper_2(struct node *n) {
 			ret = NULL;
 			break;
 		}
-		node_free(leftn);
-		node_free(rightn);
-		return ret;
+		if (ret) {
+			node_free(leftn);
+			node_free(rightn);
+			return ret;
+		}
+		/* Others use them in place of integers */
+		leftn = eval_int_free(leftn);
+		rightn = eval_int_free(rightn);
 	}
 
 	_Bool int_only = (leftn->type == node_type_int && rightn->type == node_type_int);
-- 
2.43.0


From 8a7d8e9c6a7a448ac138f08ad04ab3c40f3e3fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:17 +0000
Subject: [PATCH 13/36] fix: exported macros lost relational, logical and
 ternary operators

Operators longer than one character were printed as a stray byte and ternary
expressions as (), and without spaces some others read back as another token.
---
 src/node.c | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/node.c b/src/node.c
index 0d7af50..358e044 100644
--- a/src/node.c
+++ b/src/node.c
@@ -295,11 +295,28 @@ static const char *opstr(int op) {
 	switch (op) {
 	case SHL: return "<<";
 	case SHR: return ">>";
+	case LE: return "<=";
+	case GE: return ">=";
+	case EQ: return "==";
+	case NE: return "!=";
+	case LAND: return "&&";
+	case LOR: return "||";
 	default: str[0] = op; str[1] = 0; break;
 	}
 	return str;
 }
 
+/* A string can't directly follow "/" */
+
+static void print_operand(FILE *f, struct node const *n) {
+	_Bool paren = (node_type_of(n) == node_type_text);
+	if (paren)
+		fprintf(f, "(");
+	node_print(f, n);
+	if (paren)
+		fprintf(f, ")");
+}
+
 void node_print(FILE *f, struct node const *n) {
 	struct slist *l;
 	if (!n) {
@@ -382,11 +399,17 @@ void node_print(FILE *f, struct node const *n) {
 		fprintf(f, "(");
 		if (n->data.as_oper.nargs == 1) {
 			fprintf(f, "%s", opstr(n->data.as_oper.oper));
-			node_print(f, n->data.as_oper.args[0]);
+			print_operand(f, n->data.as_oper.args[0]);
 		} else if (n->data.as_oper.nargs == 2) {
-			node_print(f, n->data.as_oper.args[0]);
-			fprintf(f, "%s", opstr(n->data.as_oper.oper));
-			node_print(f, n->data.as_oper.args[1]);
+			print_operand(f, n->data.as_oper.args[0]);
+			fprintf(f, " %s ", opstr(n->data.as_oper.oper));
+			print_operand(f, n->data.as_oper.args[1]);
+		} else if (n->data.as_oper.nargs == 3) {
+			print_operand(f, n->data.as_oper.args[0]);
+			fprintf(f, " ? ");
+			print_operand(f, n->data.as_oper.args[1]);
+			fprintf(f, " : ");
+			print_operand(f, n->data.as_oper.args[2]);
 		}
 		fprintf(f, ")");
 		break;
-- 
2.43.0


From 10844eb04b1c6206c151ddab5e38bafb77f6fece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:48 +0000
Subject: [PATCH 14/36] fix: special characters in exported strings were not
 escaped

---
 src/node.c    | 35 ++++++++++++++++++++++++++++++++++-
 src/node.h    |  1 +
 src/program.c | 10 ++++------
 3 files changed, 39 insertions(+), 7 deletions(-)

diff --git a/src/node.c b/src/node.c
index 358e044..cc8d170 100644
--- a/src/node.c
+++ b/src/node.c
@@ -306,6 +306,27 @@ static const char *opstr(int op) {
 	return str;
 }
 
+/* Text within a string, escaping anything special */
+
+static void print_text(FILE *f, char const *s) {
+	for (; *s; s++) {
+		switch (*s) {
+		case '\n':
+			fprintf(f, "\\n");
+			break;
+		case '\r':
+			fprintf(f, "\\r");
+			break;
+		case '/': case '\\': case '&':
+			fputc('\\', f);
+			/* fall through */
+		default:
+			fputc(*s, f);
+			break;
+		}
+	}
+}
+
 /* A string can't directly follow "/" */
 
 static void print_operand(FILE *f, struct node const *n) {
@@ -391,7 +412,11 @@ void node_print(FILE *f, struct node const *n) {
 	case node_type_text:
 		fprintf(f, "/");
 		for (l = n->data.as_list; l; l = l->next) {
-			node_print(f, (struct node *)l->data);
+			struct node *elem = l->data;
+			if (node_type_of(elem) == node_type_string)
+				print_text(f, elem->data.as_string);
+			else
+				node_print(f, elem);
 		}
 		fprintf(f, "/");
 		break;
@@ -442,6 +467,14 @@ void node_print(FILE *f, struct node const *n) {
 	}
 }
 
+void node_print_string(FILE *f, struct node const *n) {
+	if (node_type_of(n) != node_type_string)
+		return;
+	fprintf(f, "/");
+	print_text(f, n->data.as_string);
+	fprintf(f, "/");
+}
+
 void node_print_array(FILE *f, struct node const *n) {
 	if (!n)
 		return;
diff --git a/src/node.h b/src/node.h
index 74998a9..726435a 100644
--- a/src/node.h
+++ b/src/node.h
@@ -203,5 +203,6 @@ struct node *node_array_push(struct node *a, struct node *n);
 
 void node_print(FILE *f, struct node const *n);
 void node_print_array(FILE *f, struct node const *n);  // print array without []
+void node_print_string(FILE *f, struct node const *n);  // print quoted string
 
 #endif
diff --git a/src/program.c b/src/program.c
index 6e064d0..2f009b3 100644
--- a/src/program.c
+++ b/src/program.c
@@ -229,7 +229,6 @@ static void print_symbol(const char *key, FILE *f) {
 		node_free(sym);
 		if (!n)
 			return;
-		int delim = 0;
 		enum node_attr old_attr = node_attr_of(n);
 		n = node_set_attr(n, node_attr_none);
 		switch (node_type_of(n)) {
@@ -240,15 +239,14 @@ static void print_symbol(const char *key, FILE *f) {
 		case node_type_int:
 		case node_type_float:
 		case node_type_reg:
-			break;
 		case node_type_string:
-			delim = '/';
 			break;
 		}
 		fprintf(f, "%s\tequ\t", key);
-		if (delim) fputc(delim, f);
-		node_print(f, n);
-		if (delim) fputc(delim, f);
+		if (node_type_of(n) == node_type_string)
+			node_print_string(f, n);
+		else
+			node_print(f, n);
 		fprintf(f, "\n");
 		n = node_set_attr(n, old_attr);
 		node_free(n);
-- 
2.43.0


From a4ce8e78a59b311301c1c930740df2ce5f9d1c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:09 +0000
Subject: [PATCH 15/36] fix: symbols file of a program with END address could
 not be included

It defined .exec, which is not a valid symbol name.
---
 src/program.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/program.c b/src/program.c
index 2f009b3..33da70d 100644
--- a/src/program.c
+++ b/src/program.c
@@ -223,6 +223,9 @@ void prog_free_exports(void) {
 }
 
 static void print_symbol(const char *key, FILE *f) {
+	/* Internal symbols (.exec) are not valid names in source */
+	if (key[0] == '.')
+		return;
 	struct node *sym = symbol_get(key);
 	if (sym) {
 		struct node *n = eval_node(sym);
-- 
2.43.0


From 1c742ee80c6aef83f2d136ebb3d83cd2707f5afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:18 +0000
Subject: [PATCH 16/36] fix: floating point symbols lost precision in symbols
 and exports files

---
 src/node.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/node.c b/src/node.c
index cc8d170..0979903 100644
--- a/src/node.c
+++ b/src/node.c
@@ -19,6 +19,7 @@ option) any later version.
 #include <string.h>
 
 #include "xalloc.h"
+#include "xvasprintf.h"
 
 #include "error.h"
 #include "node.h"
@@ -306,6 +307,18 @@ static const char *opstr(int op) {
 	return str;
 }
 
+/* As many decimal places as needed to read back the same value */
+
+static void print_float(FILE *f, double v) {
+	char *str = xasprintf("%f", v);
+	for (int prec = 7; prec < 1100 && strtod(str, NULL) != v; prec++) {
+		free(str);
+		str = xasprintf("%.*f", prec, v);
+	}
+	fprintf(f, "%s", str);
+	free(str);
+}
+
 /* Text within a string, escaping anything special */
 
 static void print_text(FILE *f, char const *s) {
@@ -380,7 +393,7 @@ void node_print(FILE *f, struct node const *n) {
 		fprintf(f, "%"PRId64, n->data.as_int);
 		break;
 	case node_type_float:
-		fprintf(f, "%f", n->data.as_float);
+		print_float(f, n->data.as_float);
 		break;
 	case node_type_reg:
 		fprintf(f, "%s", reg_id_to_name(n->data.as_reg));
-- 
2.43.0


From 24becef6443bc54d6e2221c9c0cb145a52886e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:47 +0000
Subject: [PATCH 17/36] fix: failure to open or write an output file was not
 reported

The output file could be missing or truncated and the exit status still zero.
---
 src/asm6809.c | 13 ++++++++++---
 src/output.c  | 37 +++++++++++++++++++++++++++----------
 2 files changed, 37 insertions(+), 13 deletions(-)

diff --git a/src/asm6809.c b/src/asm6809.c
index 55e2143..c8ff5fe 100644
--- a/src/asm6809.c
+++ b/src/asm6809.c
@@ -80,6 +80,7 @@ static struct option long_options[] = {
 
 static struct slist *files = NULL;
 
+static void close_file(FILE *, const char *);
 static struct node *simple_parse_int(const char *);
 static void define_symbol(const char *);
 static void helptext(void);
@@ -218,7 +219,7 @@ int main(int argc, char **argv) {
 		FILE *listf = fopen(listing_filename, "wb");
 		if (listf) {
 			listing_print(listf);
-			fclose(listf);
+			close_file(listf, listing_filename);
 		} else {
 			error(error_type_fatal, "%s: %s", listing_filename, strerror(errno));
 		}
@@ -275,7 +276,7 @@ int main(int argc, char **argv) {
 		FILE *expf = fopen(exports_filename, "wb");
 		if (expf) {
 			prog_print_exports(expf);
-			fclose(expf);
+			close_file(expf, exports_filename);
 		} else {
 			error(error_type_fatal, "%s: %s", exports_filename, strerror(errno));
 		}
@@ -286,7 +287,7 @@ int main(int argc, char **argv) {
 		FILE *symf = fopen(symbol_filename, "wb");
 		if (symf) {
 			prog_print_symbols(symf);
-			fclose(symf);
+			close_file(symf, symbol_filename);
 		} else {
 			error(error_type_fatal, "%s: %s", symbol_filename, strerror(errno));
 		}
@@ -304,6 +305,12 @@ int main(int argc, char **argv) {
 
 // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
 
+static void close_file(FILE *f, const char *filename) {
+	_Bool failed = ferror(f);
+	if (fclose(f) != 0 || failed)
+		error(error_type_fatal, "%s: write failed", filename);
+}
+
 /* Special parsing of arguments.  Integers only for now. */
 static struct node *simple_parse_int(const char *str) {
 	struct node *n = NULL;
diff --git a/src/output.c b/src/output.c
index a68f2ec..51d450a 100644
--- a/src/output.c
+++ b/src/output.c
@@ -13,9 +13,11 @@ option) any later version.
 #include "config.h"
 
 #include <assert.h>
+#include <errno.h>
 #include <stdint.h>
 #include <stdio.h>
 #include <stdlib.h>
+#include <string.h>
 
 #include "error.h"
 #include "eval.h"
@@ -25,6 +27,21 @@ option) any later version.
 #include "slist.h"
 #include "symbol.h"
 
+/* Helpers to open and close the output file, reporting any failure. */
+
+static FILE *output_open(const char *filename) {
+	FILE *f = fopen(filename, "wb");
+	if (!f)
+		error(error_type_fatal, "%s: %s", filename, strerror(errno));
+	return f;
+}
+
+static void output_close(FILE *f, const char *filename) {
+	_Bool failed = ferror(f);
+	if (fclose(f) != 0 || failed)
+		error(error_type_fatal, "%s: write failed", filename);
+}
+
 /* Helper that dumps a single binary blob to file. */
 
 static void write_single_binary(FILE *f, struct section_span *span) {
@@ -48,7 +65,7 @@ static int get_exec_addr(void) {
 /* Output format: Plain binary.  All coalesced into one big blob. */
 
 void output_binary(const char *filename) {
-	FILE *f = fopen(filename, "wb");
+	FILE *f = output_open(filename);
 	if (!f)
 		return;
 
@@ -59,7 +76,7 @@ void output_binary(const char *filename) {
 	}
 
 	section_free(sect);
-	fclose(f);
+	output_close(f, filename);
 }
 
 /* Output format: DragonDOS binary. */
@@ -67,7 +84,7 @@ void output_binary(const char *filename) {
 void output_dragondos(const char *filename) {
 	int exec_addr = get_exec_addr();
 
-	FILE *f = fopen(filename, "wb");
+	FILE *f = output_open(filename);
 	if (!f)
 		return;
 
@@ -96,7 +113,7 @@ void output_dragondos(const char *filename) {
 		write_single_binary(f, span);
 
 	section_free(sect);
-	fclose(f);
+	output_close(f, filename);
 }
 
 /* Output format: CoCo RSDOS binary. */
@@ -110,7 +127,7 @@ void output_dragondos(const char *filename) {
 void output_coco(const char *filename) {
 	int exec_addr = get_exec_addr();
 
-	FILE *f = fopen(filename, "wb");
+	FILE *f = output_open(filename);
 	if (!f)
 		return;
 
@@ -137,7 +154,7 @@ void output_coco(const char *filename) {
 	fputc(exec_addr  & 0xff, f);
 
 	section_free(sect);
-	fclose(f);
+	output_close(f, filename);
 }
 
 /* Output format: Motorola SREC. */
@@ -145,7 +162,7 @@ void output_coco(const char *filename) {
 void output_motorola_srec(const char *filename) {
 	int exec_addr = get_exec_addr();
 
-	FILE *f = fopen(filename, "wb");
+	FILE *f = output_open(filename);
 	if (!f)
 		return;
 
@@ -180,7 +197,7 @@ void output_motorola_srec(const char *filename) {
         }
 
 	section_free(sect);
-	fclose(f);
+	output_close(f, filename);
 }
 
 /* Output format: Intel HEX. */
@@ -188,7 +205,7 @@ void output_motorola_srec(const char *filename) {
 void output_intel_hex(const char *filename) {
 	int exec_addr = get_exec_addr();
 
-	FILE *f = fopen(filename, "wb");
+	FILE *f = output_open(filename);
 	if (!f)
 		return;
 
@@ -223,5 +240,5 @@ void output_intel_hex(const char *filename) {
 	}
 
 	section_free(sect);
-	fclose(f);
+	output_close(f, filename);
 }
-- 
2.43.0


From 362e460a8962238f55250bdb13d77c50dd40b852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:47 +0000
Subject: [PATCH 18/36] fix: errors exporting an undefined symbol still gave a
 successful exit status

---
 src/asm6809.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asm6809.c b/src/asm6809.c
index c8ff5fe..f8b8a1c 100644
--- a/src/asm6809.c
+++ b/src/asm6809.c
@@ -294,7 +294,7 @@ int main(int argc, char **argv) {
 	}
 
 	/* Any errors in all that? */
-	if (error_level >= error_type_syntax) {
+	if (error_level >= error_type_inconsistent) {
 		error_print_list();
 		tidy_up_and_exit(EXIT_FAILURE);
 	}
-- 
2.43.0


From 25ee6e7adbee43409e6db57f1fd69d9b71e6de1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:00 +0000
Subject: [PATCH 19/36] fix: data not fitting the 16-bit fields of an output
 format gave malformed files

---
 src/output.c | 56 +++++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 45 insertions(+), 11 deletions(-)

diff --git a/src/output.c b/src/output.c
index 51d450a..7e056d9 100644
--- a/src/output.c
+++ b/src/output.c
@@ -62,6 +62,23 @@ static int get_exec_addr(void) {
 	return ret;
 }
 
+/* Helper that coalesces all data for formats with 16-bit fields.  Each span
+ * must be within addressable memory, and no larger than max_size. */
+
+static struct section *addressable_data(_Bool pad, unsigned max_size) {
+	struct section *sect = section_coalesce_all(pad);
+	for (struct slist *l = sect->spans; l; l = l->next) {
+		struct section_span *span = l->data;
+		if (span->put > 0x10000 || span->size > 0x10000 - span->put ||
+		    span->size > max_size) {
+			error(error_type_data, "data at $%04X does not fit output format", span->put);
+			section_free(sect);
+			return NULL;
+		}
+	}
+	return sect;
+}
+
 /* Output format: Plain binary.  All coalesced into one big blob. */
 
 void output_binary(const char *filename) {
@@ -84,11 +101,16 @@ void output_binary(const char *filename) {
 void output_dragondos(const char *filename) {
 	int exec_addr = get_exec_addr();
 
+	struct section *sect = addressable_data(1, 0xffff);
+	if (!sect)
+		return;
+
 	FILE *f = output_open(filename);
-	if (!f)
+	if (!f) {
+		section_free(sect);
 		return;
+	}
 
-	struct section *sect = section_coalesce_all(1);
 	struct section_span *span = NULL;
 	unsigned put = 0;
 	unsigned size = 0;
@@ -127,11 +149,15 @@ void output_dragondos(const char *filename) {
 void output_coco(const char *filename) {
 	int exec_addr = get_exec_addr();
 
-	FILE *f = output_open(filename);
-	if (!f)
+	struct section *sect = addressable_data(0, 0xffff);
+	if (!sect)
 		return;
 
-	struct section *sect = section_coalesce_all(0);
+	FILE *f = output_open(filename);
+	if (!f) {
+		section_free(sect);
+		return;
+	}
 
 	for (struct slist *l = sect->spans; l; l = l->next) {
 		struct section_span *span = l->data;
@@ -162,11 +188,15 @@ void output_coco(const char *filename) {
 void output_motorola_srec(const char *filename) {
 	int exec_addr = get_exec_addr();
 
-	FILE *f = output_open(filename);
-	if (!f)
+	struct section *sect = addressable_data(0, 0x10000);
+	if (!sect)
 		return;
 
-	struct section *sect = section_coalesce_all(0);
+	FILE *f = output_open(filename);
+	if (!f) {
+		section_free(sect);
+		return;
+	}
 
 	for (struct slist *l = sect->spans; l; l = l->next) {
 		struct section_span *span = l->data;
@@ -205,11 +235,15 @@ void output_motorola_srec(const char *filename) {
 void output_intel_hex(const char *filename) {
 	int exec_addr = get_exec_addr();
 
-	FILE *f = output_open(filename);
-	if (!f)
+	struct section *sect = addressable_data(0, 0x10000);
+	if (!sect)
 		return;
 
-	struct section *sect = section_coalesce_all(0);
+	FILE *f = output_open(filename);
+	if (!f) {
+		section_free(sect);
+		return;
+	}
 
 	for (struct slist *l = sect->spans; l; l = l->next) {
 		struct section_span *span = l->data;
-- 
2.43.0


From a95b14055e4a5f78e8fb197b974aed3a4c31e7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:16 +0000
Subject: [PATCH 20/36] fix: execution address given by a floating point or
 string symbol was garbage

---
 src/asm6809.c | 3 ++-
 src/output.c  | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/asm6809.c b/src/asm6809.c
index f8b8a1c..8115c21 100644
--- a/src/asm6809.c
+++ b/src/asm6809.c
@@ -26,6 +26,7 @@ option) any later version.
 #include "asm6809.h"
 #include "assemble.h"
 #include "error.h"
+#include "eval.h"
 #include "listing.h"
 #include "node.h"
 #include "opcode.h"
@@ -231,7 +232,7 @@ int main(int argc, char **argv) {
 		struct node *n = simple_parse_int(exec_option);
 		if (!n) {
 			unsigned v = 0;
-			struct node *tmp = symbol_get(exec_option);
+			struct node *tmp = eval_int_free(symbol_get(exec_option));
 			if (tmp) {
 				v = tmp->data.as_int & 0xffff;
 				node_free(tmp);
diff --git a/src/output.c b/src/output.c
index 7e056d9..6154428 100644
--- a/src/output.c
+++ b/src/output.c
@@ -52,7 +52,7 @@ static void write_single_binary(FILE *f, struct section_span *span) {
 /* Helper to figure out exec address. */
 
 static int get_exec_addr(void) {
-	struct node *n = symbol_try_get(".exec");
+	struct node *n = eval_int_free(symbol_try_get(".exec"));
 	int ret = -1;
 	if (n) {
 		if (n->data.as_int >= 0)
-- 
2.43.0


From 0163e6e69a6e1cb8896df47eb9f94e308f363c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:33 +0000
Subject: [PATCH 21/36] fix: END address was not checked for stability between
 passes

The last two arguments to symbol_set() were swapped.
---
 src/assemble.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/assemble.c b/src/assemble.c
index f476ba1..9a6e54b 100644
--- a/src/assemble.c
+++ b/src/assemble.c
@@ -1028,7 +1028,7 @@ static void pseudo_end(struct prog_line *line) {
 	if (nargs < 1)
 		return;
 	struct node **arga = node_array_of(line->args);
-	symbol_set(".exec", arga[0], asm_pass, 0);
+	symbol_set(".exec", arga[0], 0, asm_pass);
 }
 
 /* Ignore certain historical pseudo-ops */
-- 
2.43.0


From 7632a36c63c28766b9ea463ec1768866f462c981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:02 +0000
Subject: [PATCH 22/36] fix: a section's load address changing between passes
 went unnoticed

Only its program counter was compared, so a following section could be placed
using the load address from an earlier pass.
---
 src/section.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/section.c b/src/section.c
index 591f40f..8c8754f 100644
--- a/src/section.c
+++ b/src/section.c
@@ -143,7 +143,7 @@ static void verify_section(void *key, void *value, void *data) {
 	struct section *sect = value;
 	if (!sect)
 		return;
-	if (sect->last_pc != sect->pc) {
+	if (sect->last_pc != sect->pc || sect->last_put != sect->put) {
 		sect->last_pc = sect->pc;
 		sect->last_put = sect->put;
 		error(error_type_inconsistent, NULL);
-- 
2.43.0


From 47fc6a5ca961b9577dd3ae840cc42d01be4a0aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:02 +0000
Subject: [PATCH 23/36] fix: --max-passes could be rejected depending on
 preceding options

---
 src/asm6809.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/asm6809.c b/src/asm6809.c
index 8115c21..ba7ac09 100644
--- a/src/asm6809.c
+++ b/src/asm6809.c
@@ -127,6 +127,7 @@ int main(int argc, char **argv) {
 			break;
 		case 'P':
 			{
+				errno = 0;
 				long v = strtol(optarg, NULL, 0);
 				if (errno != 0 || v < 2 || v > 255) {
 					error(error_type_fatal, "invalid value for max-passes");
-- 
2.43.0


From fc3a880b37f213c30d4da3ed7441f427270639f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:10 +0000
Subject: [PATCH 24/36] fix: --setdp ignored its value and always assumed page
 zero

---
 src/asm6809.c | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/asm6809.c b/src/asm6809.c
index ba7ac09..97c4b81 100644
--- a/src/asm6809.c
+++ b/src/asm6809.c
@@ -44,6 +44,9 @@ struct asm6809_options asm6809_options;
 #define OUTPUT_MOTOROLA_SREC (3)
 #define OUTPUT_INTEL_HEX (4)
 
+/* Options without a short form */
+#define OPT_SETDP (256)
+
 static int max_passes = 12;
 static int output_format = OUTPUT_BINARY;
 static char *exec_option = NULL;
@@ -66,7 +69,7 @@ static struct option long_options[] = {
 	{ "6809", no_argument, &isa, asm6809_isa_6809 },
 	{ "6309", no_argument, &isa, asm6809_isa_6309 },
 	{ "define", required_argument, NULL, 'd' },
-	{ "setdp", required_argument, &setdp, 0 },
+	{ "setdp", required_argument, NULL, OPT_SETDP },
 	{ "max-passes", required_argument, NULL, 'P' },
 	{ "output", required_argument, NULL, 'o' },
 	{ "listing", required_argument, NULL, 'l' },
@@ -83,6 +86,7 @@ static struct slist *files = NULL;
 
 static void close_file(FILE *, const char *);
 static struct node *simple_parse_int(const char *);
+static int parse_setdp(const char *);
 static void define_symbol(const char *);
 static void helptext(void);
 static void versiontext(void);
@@ -125,6 +129,9 @@ int main(int argc, char **argv) {
 		case 'd':
 			define_symbol(optarg);
 			break;
+		case OPT_SETDP:
+			setdp = parse_setdp(optarg);
+			break;
 		case 'P':
 			{
 				errno = 0;
@@ -335,6 +342,24 @@ static struct node *simple_parse_int(const char *str) {
 	return n;
 }
 
+/* As for the SETDP pseudo-op, negative means undefined. */
+static int parse_setdp(const char *str) {
+	struct node *n = simple_parse_int(str);
+	if (!n) {
+		char *end;
+		long v = strtol(str, &end, 10);
+		if (end == str || v >= 0) {
+			error(error_type_fatal, "invalid value for setdp");
+			error_print_list();
+			tidy_up_and_exit(EXIT_FAILURE);
+		}
+		return -1;
+	}
+	int dp = n->data.as_int & 0xff;
+	node_free(n);
+	return dp;
+}
+
 static void define_symbol(const char *str) {
 	char *key = xstrdup(str);
 	char *tmp = strchr(key, '=');
-- 
2.43.0


From 41cc482bb5c5a92b78c03c87688f424a20ac4774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:09 +0000
Subject: [PATCH 25/36] fix: huge addresses and counts were silently truncated

---
 src/assemble.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/assemble.c b/src/assemble.c
index 9a6e54b..148fc7b 100644
--- a/src/assemble.c
+++ b/src/assemble.c
@@ -13,6 +13,7 @@ option) any later version.
 #include "config.h"
 
 #include <assert.h>
+#include <limits.h>
 #include <stdarg.h>
 #include <stdint.h>
 #include <stdio.h>
@@ -633,12 +634,24 @@ static void pseudo_set(struct prog_line *line) {
 	}
 }
 
+/* Addresses and counts are tracked as (signed) int.  Returns 0 (failure) if
+ * value would not fit. */
+
+static _Bool verify_range(long value, const char *op) {
+	if (value >= INT_MIN && value <= INT_MAX)
+		return 1;
+	error(error_type_out_of_range, "argument to '%s' out of range", op);
+	return 0;
+}
+
 /* ORG.  Following instructions will be assembled to this address. */
 
 static void pseudo_org(struct prog_line *line) {
 	if (verify_num_args(line->args, 1, 1, "ORG") < 0)
 		return;
 	long new_pc = have_int_required(line->args, 0, "ORG", cur_section->pc);
+	if (!verify_range(new_pc, "ORG"))
+		return;
 	cur_section->pc = new_pc;
 	if (new_pc >= 0)
 		cur_section->put = new_pc;
@@ -686,6 +699,8 @@ static void pseudo_put(struct prog_line *line) {
 		error(error_type_out_of_range, "invalid negative address for PUT");
 		return;
 	}
+	if (!verify_range(new_put, "PUT"))
+		return;
 	cur_section->put = new_put;
 }
 
@@ -906,6 +921,8 @@ static void pseudo_rmb(struct prog_line *line) {
 		error(error_type_out_of_range, "negative argument to RMB");
 		return;
 	}
+	if (!verify_range(count, "RMB"))
+		return;
 	section_skip(count);
 }
 
@@ -921,6 +938,8 @@ static void pseudo_align(struct prog_line *line) {
 		error(error_type_out_of_range, "invalid argument to ALIGN");
 		return;
 	}
+	if (!verify_range(align, "ALIGN"))
+		return;
 	long count = (align - (cur_section->pc % align)) % align;
 	if (nargs < 2) {
 		section_skip(count);
-- 
2.43.0


From 274acea8d73250a995e3980f7ac0946ae0200313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:33 +0000
Subject: [PATCH 26/36] fix: listing of data after PUT omitted the bytes
 produced

And space reserved up to the end of existing data listed that data.
---
 src/assemble.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/assemble.c b/src/assemble.c
index 148fc7b..c0912d2 100644
--- a/src/assemble.c
+++ b/src/assemble.c
@@ -489,9 +489,12 @@ void assemble_prog(struct prog *prog, unsigned pass) {
 		op_handler = dict_lookup(pseudo_data_dict, n_line.opcode->data.as_string);
 		if (op_handler) {
 			int old_pc = cur_section->pc;
+			struct section_span *old_span = cur_section->span;
+			unsigned old_size = old_span ? old_span->size : 0;
 			op_handler(&n_line);
 			int nbytes = cur_section->pc - old_pc;
-			if (cur_section->span && cur_section->pc == (int)(cur_section->span->put + cur_section->span->size))
+			/* Data emitted, or just space reserved? */
+			if (cur_section->span && (cur_section->span != old_span || cur_section->span->size != old_size))
 				listing_add_line(old_pc & 0xffff, nbytes, cur_section->span, l->text);
 			else
 				listing_add_line(old_pc & 0xffff, nbytes, NULL, l->text);
-- 
2.43.0


From 70801db3585e34301aff35460dde9d49f75c0c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:33 +0000
Subject: [PATCH 27/36] fix: macro unfinished at the end of a file was used
 after free by the next file

---
 src/assemble.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/assemble.c b/src/assemble.c
index c0912d2..67c5407 100644
--- a/src/assemble.c
+++ b/src/assemble.c
@@ -576,7 +576,10 @@ next_line:
 
 	assert(prog_depth > 0);
 	prog_depth--;
+	/* Also reports and frees the context of any unfinished macro */
 	prog_ctx_free(ctx);
+	defining_macro_ctx = NULL;
+	defining_macro_level = 0;
 }
 
 // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
-- 
2.43.0


From cee33c79312fb22b3670cadb77096ba285c9265e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:49 +0000
Subject: [PATCH 28/36] fix: crash writing a symbols file when no symbol is
 defined

---
 src/symbol.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/symbol.c b/src/symbol.c
index b3ef68e..2a62678 100644
--- a/src/symbol.c
+++ b/src/symbol.c
@@ -114,6 +114,8 @@ static void add_to_list(const char *key, struct node *value, struct slist **l) {
 }
 
 struct slist *symbol_get_list(void) {
+	if (!symbols)
+		init_table();
 	struct slist *l = NULL;
 	dict_foreach(symbols, (dict_iter_func)add_to_list, &l);
 	return l;
-- 
2.43.0


From 08d0b402f12a94b87e72bf2728605d3a455d6bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:13 +0000
Subject: [PATCH 29/36] fix: FCB and friends: use the low byte of floating
 point values beyond 32 bits

---
 src/assemble.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/assemble.c b/src/assemble.c
index 67c5407..718f4a3 100644
--- a/src/assemble.c
+++ b/src/assemble.c
@@ -777,7 +777,7 @@ static void emit_formatted(char const *ins, int argn, struct node *n,
 		section_emit_uint8(n->data.as_int | or_last);
 		break;
 	case node_type_float:
-		section_emit_uint8((int32_t)n->data.as_float | or_last);
+		section_emit_uint8((int64_t)n->data.as_float | or_last);
 		break;
 	case node_type_string:
 		for (char const *c = n->data.as_string; *c; c++) {
-- 
2.43.0


From 573c89b981e61a9e90186c71ef88f2c075e7ee43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:51 +0000
Subject: [PATCH 30/36] Loop contract hooks for RZB, FILL and ALIGN
 (ASM6809_VERIFY)

---
 src/asm6809.h  | 7 +++++++
 src/assemble.c | 3 +++
 2 files changed, 10 insertions(+)

diff --git a/src/asm6809.h b/src/asm6809.h
index a11d6fd..03cba70 100644
--- a/src/asm6809.h
+++ b/src/asm6809.h
@@ -37,4 +37,11 @@ struct asm6809_options {
 
 extern struct asm6809_options asm6809_options;
 
+/* Loop contracts, supplied by the verification harness. */
+#ifdef ASM6809_VERIFY
+#define VERIFY_LOOP(name) VERIFY_LOOP_##name
+#else
+#define VERIFY_LOOP(name)
+#endif
+
 #endif
diff --git a/src/assemble.c b/src/assemble.c
index 718f4a3..2d50e42 100644
--- a/src/assemble.c
+++ b/src/assemble.c
@@ -900,6 +900,7 @@ static void pseudo_rzb(struct prog_line *line) {
 		error(error_type_out_of_range, "negative count for RZB");
 	}
 	for (long i = 0; i < count; i++)
+		VERIFY_LOOP(rzb)
 		section_emit_uint8(fill);
 }
 
@@ -914,6 +915,7 @@ static void pseudo_fill(struct prog_line *line) {
 		error(error_type_out_of_range, "negative count for FILL");
 	}
 	for (long i = 0; i < count; i++)
+		VERIFY_LOOP(fill)
 		section_emit_uint8(fill);
 }
 
@@ -951,6 +953,7 @@ static void pseudo_align(struct prog_line *line) {
 		section_skip(count);
 	} else {
 		for (long i = 0; i < count; i++)
+			VERIFY_LOOP(align)
 			section_emit_uint8(fill);
 	}
 }
-- 
2.43.0


From d4afa59dabca8ce4107201ab1148aa8b3b9338a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:08 +0000
Subject: [PATCH 31/36] fix: evaluating an argument changed the attribute of
 nodes referred to from elsewhere

---
 src/node.c | 44 ++++++++++++++++++++++++++++++++++++++------
 src/node.h |  3 ++-
 2 files changed, 40 insertions(+), 7 deletions(-)

diff --git a/src/node.c b/src/node.c
index 0979903..9294fad 100644
--- a/src/node.c
+++ b/src/node.c
@@ -111,9 +111,43 @@ struct node **node_array_of(struct node const *n) {
 	return n->data.as_array.args;
 }
 
+/* A node that is referred to from elsewhere has to keep its attribute there, so
+ * continue with a copy in that case. */
+
+static struct node *node_unshare(struct node *n) {
+	if (n->ref == 1)
+		return n;
+	struct node *copy;
+	switch (n->type) {
+	case node_type_string:
+		copy = node_new_string(xstrdup(n->data.as_string));
+		break;
+	case node_type_array:
+		copy = node_new_array();
+		for (int i = 0; i < n->data.as_array.nargs; i++)
+			node_array_push(copy, node_ref(n->data.as_array.args[i]));
+		break;
+	case node_type_empty:
+	case node_type_int:
+	case node_type_float:
+	case node_type_reg:
+		copy = node_new(n->type);
+		copy->data = n->data;
+		break;
+	default:
+		/* other types aren't the result of evaluation */
+		return n;
+	}
+	copy->attr = n->attr;
+	node_free(n);
+	return copy;
+}
+
 struct node *node_set_attr(struct node *n, enum node_attr attr) {
-	if (n)
+	if (n && n->attr != attr) {
+		n = node_unshare(n);
 		n->attr = attr;
+	}
 	return n;
 }
 
@@ -122,10 +156,8 @@ struct node *node_set_attr(struct node *n, enum node_attr attr) {
 struct node *node_set_attr_if(struct node *n, enum node_attr attr) {
 	if (!n)
 		return NULL;
-	if (attr != node_attr_none) {
-		n->attr = attr;
-		return n;
-	}
+	if (attr != node_attr_none)
+		return node_set_attr(n, attr);
 	switch (n->attr) {
 	case node_attr_postinc:
 	case node_attr_postinc2:
@@ -134,7 +166,7 @@ struct node *node_set_attr_if(struct node *n, enum node_attr attr) {
 	case node_attr_postdec:
 		break;
 	default:
-		n->attr = attr;
+		n = node_set_attr(n, attr);
 		break;
 	}
 	return n;
diff --git a/src/node.h b/src/node.h
index 726435a..f7b3a04 100644
--- a/src/node.h
+++ b/src/node.h
@@ -146,7 +146,8 @@ int node_array_count(struct node const *n);
 struct node **node_array_of(struct node const *n);
 
 /* Overwrite attribute on supplied node and return same node.  No new reference
- * is created. */
+ * is created.  If there are other references to the node, a copy takes its
+ * place instead, the reference passed in being dropped. */
 
 struct node *node_set_attr(struct node *n, enum node_attr attr);
 
-- 
2.43.0


From 4871eec684f7dcbcb9013471da67667518b7d0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:32 +0000
Subject: [PATCH 32/36] fix: repeated ELSE after a taken branch went unreported

An ELSE reached while excluding since an ELSIF did not record that it had
been seen.
---
 src/assemble.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/assemble.c b/src/assemble.c
index 2d50e42..1aea0c9 100644
--- a/src/assemble.c
+++ b/src/assemble.c
@@ -418,10 +418,9 @@ void assemble_prog(struct prog *prog, unsigned pass) {
 			} else if ((intptr_t)cond_list->data == cond_state_else) {
 				error(error_type_syntax, "repeated ELSE");
 			} else if (cond_excluded == cond_list) {
-				if ((intptr_t)cond_list->data != cond_state_if_done) {
-					cond_list->data = (void *)cond_state_else;
+				if ((intptr_t)cond_list->data != cond_state_if_done)
 					cond_excluded = NULL;
-				}
+				cond_list->data = (void *)cond_state_else;
 			} else if (!cond_excluded) {
 				cond_list->data = (void *)cond_state_else;
 				cond_excluded = cond_list;
-- 
2.43.0


From d34b52fca8e6b8596ca7df65d42ad4e304082ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:43 +0000
Subject: [PATCH 33/36] Loop contract hooks for conditionals, passes, output
 and merging (ASM6809_VERIFY)

---
 src/asm6809.c  | 1 +
 src/assemble.c | 1 +
 src/output.c   | 7 +++++++
 src/section.c  | 1 +
 4 files changed, 10 insertions(+)

diff --git a/src/asm6809.c b/src/asm6809.c
index 97c4b81..3394415 100644
--- a/src/asm6809.c
+++ b/src/asm6809.c
@@ -202,6 +202,7 @@ int main(int argc, char **argv) {
 
 	/* Attempt to assemble files until consistent */
 	for (unsigned pass = 0; pass < max_passes; pass++) {
+		VERIFY_LOOP(pass);
 		error_clear_all();
 		listing_free_all();
 		section_set("CODE", pass);
diff --git a/src/assemble.c b/src/assemble.c
index 1aea0c9..ed0698c 100644
--- a/src/assemble.c
+++ b/src/assemble.c
@@ -302,6 +302,7 @@ void assemble_prog(struct prog *prog, unsigned pass) {
 	struct slist *cond_excluded = NULL;
 
 	while (!prog_ctx_end(ctx)) {
+		VERIFY_LOOP(prog);
 		/* Dummy line to be populated with values evaluated or not, as
 		 * appropriate. */
 		struct prog_line n_line;
diff --git a/src/output.c b/src/output.c
index 6154428..ed80d61 100644
--- a/src/output.c
+++ b/src/output.c
@@ -19,6 +19,7 @@ option) any later version.
 #include <stdlib.h>
 #include <string.h>
 
+#include "asm6809.h"
 #include "error.h"
 #include "eval.h"
 #include "node.h"
@@ -68,6 +69,7 @@ static int get_exec_addr(void) {
 static struct section *addressable_data(_Bool pad, unsigned max_size) {
 	struct section *sect = section_coalesce_all(pad);
 	for (struct slist *l = sect->spans; l; l = l->next) {
+		VERIFY_LOOP(addressable);
 		struct section_span *span = l->data;
 		if (span->put > 0x10000 || span->size > 0x10000 - span->put ||
 		    span->size > max_size) {
@@ -160,6 +162,7 @@ void output_coco(const char *filename) {
 	}
 
 	for (struct slist *l = sect->spans; l; l = l->next) {
+		VERIFY_LOOP(coco_span);
 		struct section_span *span = l->data;
 		unsigned put = span->put;
 		unsigned size = span->size;
@@ -199,11 +202,13 @@ void output_motorola_srec(const char *filename) {
 	}
 
 	for (struct slist *l = sect->spans; l; l = l->next) {
+		VERIFY_LOOP(srec_span);
 		struct section_span *span = l->data;
 		unsigned put = span->put;
 		unsigned size = span->size;
 		unsigned base = 0;
 		while (size > 0) {
+			VERIFY_LOOP(srec_record);
 			unsigned nbytes = (size > 32) ? 32 : size;
 			unsigned sum = nbytes + 3 + (put >> 8) + (put & 0xff);
 			fprintf(f, "S1%02X%04X", nbytes + 3, put);
@@ -246,11 +251,13 @@ void output_intel_hex(const char *filename) {
 	}
 
 	for (struct slist *l = sect->spans; l; l = l->next) {
+		VERIFY_LOOP(hex_span);
 		struct section_span *span = l->data;
 		unsigned put = span->put;
 		unsigned size = span->size;
 		unsigned base = 0;
 		while (size > 0) {
+			VERIFY_LOOP(hex_record);
 			unsigned nbytes = (size > 32) ? 32 : size;
 			unsigned sum = nbytes + put + (put >> 8);
 			fprintf(f, ":%02X%04X00", nbytes, put);
diff --git a/src/section.c b/src/section.c
index 8c8754f..7a25a42 100644
--- a/src/section.c
+++ b/src/section.c
@@ -173,6 +173,7 @@ void section_coalesce(struct section *sect, _Bool sort, _Bool pad) {
 		spans = slist_sort(spans, (slist_cmp_func)span_cmp);
 	for (struct slist *l = spans; l && l->next; l = l->next) {
 		do {
+			VERIFY_LOOP(coalesce);
 			struct slist *ln = l->next;
 			struct section_span *span = l->data;
 			struct section_span *nspan = ln->data;
-- 
2.43.0


From e4e69276f06de6bc98b5247ac5445d77ba0c60d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:30 +0000
Subject: [PATCH 34/36] Loop contract hooks for bytes of output records
 (ASM6809_VERIFY)

---
 src/output.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/output.c b/src/output.c
index ed80d61..2daad44 100644
--- a/src/output.c
+++ b/src/output.c
@@ -213,6 +213,7 @@ void output_motorola_srec(const char *filename) {
 			unsigned sum = nbytes + 3 + (put >> 8) + (put & 0xff);
 			fprintf(f, "S1%02X%04X", nbytes + 3, put);
 			for (unsigned i = 0; i < nbytes; i++) {
+				VERIFY_LOOP(srec_byte);
 				fprintf(f, "%02X", (unsigned)span->data[base + i]);
 				sum += span->data[base + i];
 			}
@@ -262,6 +263,7 @@ void output_intel_hex(const char *filename) {
 			unsigned sum = nbytes + put + (put >> 8);
 			fprintf(f, ":%02X%04X00", nbytes, put);
 			for (unsigned i = 0; i < nbytes; i++) {
+				VERIFY_LOOP(hex_byte);
 				fprintf(f, "%02X", (unsigned)span->data[base + i]);
 				sum += span->data[base + i];
 			}
-- 
2.43.0


From e16056f7c2a6677df8ee495a5f2855da25552841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:02 +0000
Subject: [PATCH 35/36] fix: failure for want of passes could go unreported

If only the end address of a section still changed in the last pass, assembly
failed without any message.
---
 src/section.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/section.c b/src/section.c
index 7a25a42..922a918 100644
--- a/src/section.c
+++ b/src/section.c
@@ -138,7 +138,6 @@ void section_set(const char *name, unsigned pass) {
 }
 
 static void verify_section(void *key, void *value, void *data) {
-	(void)key;
 	(void)data;
 	struct section *sect = value;
 	if (!sect)
@@ -146,7 +145,7 @@ static void verify_section(void *key, void *value, void *data) {
 	if (sect->last_pc != sect->pc || sect->last_put != sect->put) {
 		sect->last_pc = sect->pc;
 		sect->last_put = sect->put;
-		error(error_type_inconsistent, NULL);
+		error(error_type_inconsistent, "end address of section '%s' unstable", (char *)key);
 	}
 }
 
-- 
2.43.0


From 676bc0cd3467af561e9528b84a557e9e5bc40921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:41 +0000
Subject: [PATCH 36/36] Loop contract hook for register lists (ASM6809_VERIFY)

---
 src/instr.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/instr.c b/src/instr.c
index 74cccfb..c9a3cc1 100644
--- a/src/instr.c
+++ b/src/instr.c
@@ -520,6 +520,7 @@ void instr_stack(struct opcode const *op, struct node const *args, enum reg_id s
 
 	int pbyte = 0;
 	for (int i = 0; i < nargs; i++) {
+		VERIFY_LOOP(stack);
 		if (node_type_of(arga[i]) != node_type_reg) {
 			error(error_type_syntax, "invalid argument");
 			return;
-- 
2.43.0

