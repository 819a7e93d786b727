/* Operators (C06): operand values, and the comparison of eval_node() with the
 * documented result.  Everything but the values is concrete in each case
 * (operator, operand types, whether the operand is shared), and every
 * combination is one case. */
#define VH_NO_XALLOC
#include "vh.h"
#include "asm6809.h"
#include "vh_emit.h"
#include "node.h"
#include "eval.h"
#include "interp.h"
#include "symbol.h"
#include "slist.h"
#include "grammar.h"
#ifndef VH_STRLEN
# define VH_STRLEN 5
#endif

struct vh_ghost G;
struct section *cur_section;
struct asm6809_options asm6809_options;

/* xmalloc(): a new block each time, from a pool (only nodes are allocated) */
#ifdef VH_CBMC
static struct node POOL[8];
static unsigned pool_n;
void *xmalloc(size_t s) {
	ASSERT(s <= sizeof(struct node) && pool_n < 8, "xmalloc: of a node");
	return &POOL[pool_n++];
}
# define node_free real_node_free
# define node_set_attr real_node_set_attr
#else
void *xmalloc(size_t s) { return malloc(s); }
void *xrealloc(void *p, size_t s) { return realloc(p, s); }
#endif
#include "node.c"
#undef node_free
#undef node_set_attr
#ifdef VH_CBMC
/* node_set_attr() by contract (u_node_attr), as far as needed here: no operand
 * has an attribute, so nothing is ever set on a node referred to from elsewhere */
struct node *node_set_attr(struct node *n, enum node_attr attr) {
	if (n) {
		ASSERT(n->attr == attr || n->ref == 1, "node_set_attr: shared nodes have no attribute here");
		n->attr = attr;
	}
	return n;
}
/* node_free() by contract (u_node_free): one reference less; with the last one
 * the node is gone: its contents become arbitrary */
void node_free(struct node *n) {
	if (!n) return;
	ASSERT(n->ref >= 1, "node_free: of a referenced node");
	n->ref--;
	if (n->ref == 0) {
		n->type = vh_nd();
		n->data.as_int = vh_nd();
	}
}
#endif
#include "eval.c"

struct node *vh_top(struct node *n);   /* x_eval.c: eval_node() */

/* An operand is evaluated by eval_node() under its own contract: the result is
 * nothing, a reference to a node of a base type that others refer to as well
 * (a constant, a symbol's value), or a new node. */
static struct node *CH[3];       /* the operands, as written */
static struct node N[3], FRESH[3];
static _Bool fresh[3];
static char STR[3][VH_STRLEN + 1];
static unsigned evals[3];
struct node *vh_eval_operand(struct node *c) {
	for (int i = 0; i < 3; i++) {
		if (c == &N[i]) {
			evals[i]++;
			if (N[i].type == node_type_undef) return NULL;
			if (fresh[i]) { FRESH[i] = N[i]; FRESH[i].ref = 1; return &FRESH[i]; }
			c->ref++;
			return c;
		}
	}
	ASSERT(0, "eval_node: of an operand");
	return NULL;
}

struct val { int t; int64_t i; double f; const char *s; };
static struct val V[3];

#ifdef VH_CBMC
static double nd_double(void) {
	double d = nondet_double();
#ifdef VH_BOUNDED
	int64_t k = nondet_i64();
	ASSUME(k >= -6 && k <= 6);
	ASSUME(d == k * 0.75);
#endif
	union { int64_t i; double d; } u = { .d = d };
	vh_nd_record(u.i);
	return d;
}
#else
static double nd_double(void) { union { int64_t i; double d; } u; u.i = vh_nd(); return u.d; }
#endif
static _Bool same_float(double a, double b) {
	return a == b || (a != a && b != b);
}
#ifdef VH_BOUNDED
static int64_t vh_int(void) { return vh_range(-20, 20); }
#else
static int64_t vh_int(void) { return vh_nd(); }
#endif
#define T_UNDEF node_type_undef
#define T_EMPTY node_type_empty
#define T_INT node_type_int
#define T_FLOAT node_type_float
#define T_REG node_type_reg
#define T_STRING node_type_string
static void mk_operand(int i, int t, _Bool f) {
	V[i].t = t; V[i].i = 0; V[i].f = 0; V[i].s = NULL;
	fresh[i] = f;
	evals[i] = 0;
	CH[i] = &N[i];
	switch (t) {
	case T_INT: V[i].i = vh_int(); N[i] = (struct node){ .type = t, .ref = 1, .data = { .as_int = V[i].i } }; break;
	case T_FLOAT: V[i].f = nd_double(); N[i] = (struct node){ .type = t, .ref = 1, .data = { .as_float = V[i].f } }; break;
	case T_REG: V[i].i = vh_range(0, REG_MAX - 1); N[i] = (struct node){ .type = t, .ref = 1, .data = { .as_reg = V[i].i } }; break;
	case T_STRING: {
		for (int k = 0; k < VH_STRLEN; k++) STR[i][k] = vh_range(-128, 127);
		STR[i][VH_STRLEN] = 0;
		V[i].s = STR[i];
		N[i] = (struct node){ .type = t, .ref = 1, .data = { .as_string = STR[i] } };
		break; }
	default: N[i] = (struct node){ .type = t, .ref = 1 }; break;
	}
#ifdef VH_NATIVE
	if (t == T_UNDEF) CH[i] = NULL;
	if (f && (t == T_INT || t == T_FLOAT)) {
		/* an expression with that value: -(-x) */
		struct node *m = node_new(t);
		if (t == T_INT) m->data.as_int = -V[i].i; else m->data.as_float = -V[i].f;
		CH[i] = node_new_oper_1('-', m);
	}
#endif
}
/* the operand still reads the same, and holds no reference too many or few */
static _Bool kept(int i, struct node *r) {
	struct node const *n = &N[i];
	if (n->type != V[i].t || n->ref != 1u + (r == n)) return 0;
	switch (V[i].t) {
	case T_INT: return n->data.as_int == V[i].i;
	case T_FLOAT: return same_float(n->data.as_float, V[i].f);
	case T_REG: return n->data.as_reg == V[i].i;
	case T_STRING: return n->data.as_string == STR[i];
	default: return 1;
	}
}
static _Bool released(int i, struct node *r) {
#ifdef VH_CBMC
	return !fresh[i] || evals[i] == 0 || V[i].t == T_UNDEF || FRESH[i].ref == (r == &FRESH[i]);
#else
	return 1;
#endif
}
/* every node made on the way was released, except the result */
static _Bool no_leak(struct node *r) {
#ifdef VH_CBMC
	for (unsigned k = 0; k < pool_n; k++)
		if (POOL[k].ref != (r == &POOL[k])) return 0;
#endif
	return 1;
}
/* strings used as numbers: big-endian value of the last four characters */
static int64_t strval(const char *s) {
	uint32_t v = 0;
	for (int k = 0; k < VH_STRLEN && s[k]; k++) v = (v << 8) | (uint8_t)s[k];
	return v;
}
static int scmp(const char *a, const char *b) {
	for (int k = 0; k <= VH_STRLEN; k++) {
		if ((uint8_t)a[k] != (uint8_t)b[k]) return (uint8_t)a[k] < (uint8_t)b[k] ? -1 : 1;
		if (!a[k]) return 0;
	}
	return 0;
}
#define TOINT_OK(x) ((x) > -9223372036854775808.0 && (x) < 9223372036854775808.0)
#define NUM(v) ((v).t == T_INT || (v).t == T_FLOAT)
