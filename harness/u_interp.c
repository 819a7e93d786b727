/* C18: the stack of macro arguments: any two expansions, within any others.
 * @function interp_push interp_pop interp_get
 * @callees slist_prepend slist_remove node_ref node_free error
 * @props C18 C19
 * @exact-bounded
 * @unwind 8
 * @bounded-unwind 8
 * @opts --no-pointer-check
 * @assume argument lists are arrays or absent (eval_node)
 */
#include "vh.h"
struct vh_ghost G;
#define VH_NO_EMIT_CONTRACT
#define VH_NO_ERROR_CONTRACT
#include "vh_emit.h"
#include "asm6809.h"
#include "node.h"
struct section *cur_section;
void error(enum error_type t, const char *f, ...) { G.err[t]++; }
static struct node *refd; static unsigned nrefd;
static struct node X, Y, one[2]; /* argument arrays */
static int *refof(struct node *n) { static int r[2]; return n == &X ? &r[0] : &r[1]; }
struct node *node_ref(struct node *n) {
	if (!n) return NULL;
	if (n == &X || n == &Y) (*refof(n))++; else { refd = n; nrefd++; }
	return n;
}
void node_free(struct node *n) { if (n) { ASSERT((n == &X || n == &Y) && *refof(n) > 0, "released: arguments that are referred to"); (*refof(n))--; } }
#include "slist.c"
#include "interp.c"
#ifdef VH_CBMC
extern struct node *xa[__CPROVER_constant_infinity_uint], *ya[__CPROVER_constant_infinity_uint]; /* arbitrary */
# define MAXA INT32_MAX
#else
static struct node *xa[8], *ya[8], el[16];
# define MAXA 8
#endif
/* the arguments seen: of X, of Y, absent ones, or none at all */
static void look(int top) { /* 0 X, 1 Y, 2 absent, 3 empty stack */
	int i = vh_range(INT32_MIN, INT32_MAX);
#ifndef VH_CBMC
	if (vh_flag()) i = vh_range(-1, 9);
#endif
	int n = top == 0 ? X.data.as_array.nargs : top == 1 ? Y.data.as_array.nargs : 0;
	unsigned e0 = G.err[error_type_syntax];
	refd = NULL; nrefd = 0;
	if (i >= 1 && i <= n) { struct node *w = top ? ya[i - 1] : xa[i - 1]; ASSUME(w != &X && w != &Y); }
	struct node *r = interp_get(i);
	if (i >= 1 && i <= n) {
		CHECK("variable: the argument of the innermost expansion", r == (top ? ya[i - 1] : xa[i - 1]));
		CHECK("variable: referred to once", nrefd == 1 && refd == r || !r);
		CHECK("variable: no error", G.err[error_type_syntax] == e0);
		COVER("found");
	} else {
		CHECK("variable: one that does not exist is an error", r == NULL && G.err[error_type_syntax] == e0 + 1 && nrefd == 0);
		COVER("none");
	}
}
void vh_main(void) {
	G = (struct vh_ghost){0};
#ifndef VH_CBMC
	for (int i = 0; i < 8; i++) { xa[i] = &el[i]; ya[i] = &el[8 + i]; }
#endif
	X = (struct node){ .type = node_type_array, .ref = 1, .attr = node_attr_none, .data = { .as_array = { .nargs = vh_range(0, MAXA), .args = xa } } };
	Y = (struct node){ .type = node_type_array, .ref = 1, .attr = node_attr_none, .data = { .as_array = { .nargs = vh_range(0, MAXA), .args = ya } } };
	*refof(&X) = *refof(&Y) = 1;
	/* anything below */
#if defined(VH_CBMC) && !defined(VH_BOUNDED)
	static struct slist deep;
	deep = (struct slist){0};
	interp_stack = vh_flag() ? &deep : NULL;
	struct slist *s0 = interp_stack;
#else
	_Bool s0 = vh_flag();
	if (s0) interp_push(NULL);
#endif
	if (!s0) look(3);
	int a = vh_range(0, 2), b = vh_range(0, 2);
	struct node *an = a == 0 ? &X : a == 1 ? &Y : NULL, *bn = b == 0 ? &X : b == 1 ? &Y : NULL;
	interp_push(an);
	look(a);
	interp_push(bn);
	look(b);
	CHECK("arguments: kept during the expansion", *refof(&X) == 1 + (a == 0) + (b == 0) && *refof(&Y) == 1 + (a == 1) + (b == 1));
	interp_pop();
	look(a);
	CHECK("arguments: released after it", *refof(&X) == 1 + (a == 0) && *refof(&Y) == 1 + (a == 1));
	interp_pop();
	CHECK("arguments: all released", *refof(&X) == 1 && *refof(&Y) == 1);
#if defined(VH_CBMC) && !defined(VH_BOUNDED)
	CHECK("arguments: those below untouched", interp_stack == s0 && deep.next == NULL && deep.data == NULL);
#endif
	if (s0) look(2); else look(3);
#if !defined(VH_CBMC) || defined(VH_BOUNDED)
	if (s0) interp_pop();
#endif
	CHECK("arguments: no other error", G.err[error_type_fatal] == 0);
}
