/* C12: named symbols.  Any history of assignments leaves a symbol with its last
 * accepted value and the pass it was made in; the effect of the next one and of
 * a look-up depend on nothing else, so each is verified from every such state.
 * @function symbol_set symbol_force_set symbol_try_get symbol_get symbol_free_all symbol_get_list init_table symbol_free node_equal
 * @callees dict_lookup dict_insert dict_new_full dict_destroy dict_foreach eval_node node_free node_ref slist_prepend error
 * @props C12 C19
 * @variant none -DVH_T0=0
 * @variant int -DVH_T0=1
 * @variant float -DVH_T0=2
 * @variant string -DVH_T0=3
 * @variant reg -DVH_T0=4
 * @unwind 12
 * @opts --pointer-check
 * @assume values of symbols that are strings have at most 2 characters here (strcmp)
 */
#include "vh.h"
struct vh_ghost G;
#define VH_NO_EMIT_CONTRACT
#include "vh_emit.h"
#include "asm6809.h"
struct section *cur_section;
#include "vh_dict1.h"
#include "node.h"
#include "eval.h"
#include "error.h"
/* node.c for node_equal() alone */
#define node_free real_node_free
#define node_new_int real_node_new_int
#include "node.c"
#undef node_free
#undef node_new_int
static struct node zero;
static unsigned vh_made;
void node_free(struct node *n) { if (n) { ASSERT(n->ref >= 1, "node_free() of a referenced node"); n->ref--; } }
struct node *node_new_int(int64_t v) { ASSERT(vh_made++ == 0, "one new value"); zero = (struct node){ .type = node_type_int, .ref = 1, .attr = node_attr_none, .data = { .as_int = v } }; return &zero; }
struct node *eval_node(struct node *n) { return node_ref(n); }
char *xstrdup(const char *s) { size_t l = strlen(s) + 1; char *r = xmalloc(l); memcpy(r, s, l); return r; }
void error_abort(const char *f, ...) { ASSERT(0, "error_abort() is not reached"); ASSUME(0); }
#include "slist.c"
static void vh_free(void *p) { free(p); }
#define free vh_free
#include "symbol.c"
#undef free

static struct node V[4];
static char str[4][3];
static struct node *mk(int i, int t) {
	struct node *n = &V[i];
	switch (t) {
	case 0: return NULL;
	case 1: *n = (struct node){ .type = node_type_int, .ref = 7, .attr = node_attr_none, .data = { .as_int = vh_nd() } }; break;
	case 2: {
		union { int64_t i; double d; } u; u.i = vh_nd();
		*n = (struct node){ .type = node_type_float, .ref = 7, .attr = node_attr_none, .data = { .as_float = u.d } };
		break; }
	case 3:
		*n = (struct node){ .type = node_type_string, .ref = 7, .attr = node_attr_none, .data = { .as_string = str[i] } };
		str[i][0] = vh_range(-128, 127); str[i][1] = vh_range(-128, 127); str[i][2] = 0;
		break;
	default: *n = (struct node){ .type = node_type_reg, .ref = 7, .attr = node_attr_none, .data = { .as_reg = vh_range(REG_CC, REG_MAX - 1) } };
	}
	return n;
}
static _Bool same(int t0, int i, int t1, int j) {
	if (t0 != t1) return 0;
	switch (t0) {
	case 1: return V[i].data.as_int == V[j].data.as_int;
	case 2: return V[i].data.as_float == V[j].data.as_float;
	case 3: return str[i][0] == str[j][0] && (!str[i][0] || str[i][1] == str[j][1]);
	case 4: return V[i].data.as_reg == V[j].data.as_reg;
	}
	return 0; /* an undefined value is never stable */
}
static void one(int t0, int t1) {
	G = (struct vh_ghost){0};
	symbol_ignore_undefined = 0;
	unsigned p0 = vh_range(0, UINT32_MAX), p1 = vh_range(0, UINT32_MAX);
	_Bool there = vh_flag(), chg = vh_flag();
	struct node *v0 = mk(0, t0), *v1 = mk(1, t1), *vo = mk(2, 1);
	/* state: "o" has some value; "k" has v0 since pass p0, or was never set */
	symbol_force_set("o", vo, 1, p1);
	if (there) symbol_force_set("k", v0, 1, p0);
	CHECK("symbol: setting a new symbol is no inconsistency", VH_NOERR);
	CHECK("symbol: value held", (!v0 || V[0].ref == 7 + there) && V[2].ref == 8);
	/* assign */
	symbol_set("k", v1, chg, p1);
	_Bool refused = there && !chg && p0 == p1;
	CHECK("symbol: a second definition in one pass is an error", refused == (G.err[error_type_syntax] > 0));
	if (refused) {
		CHECK("symbol: the error fails assembly, not just the pass", G.err[error_type_inconsistent] == 0);
		COVER("refused");
	} else {
		CHECK("symbol: inconsistent exactly when a fixed symbol changed value",
			(G.err[error_type_inconsistent] > 0) == (there && !chg && !same(t0, 0, t1, 1)));
		COVER("set");
	}
	int t = refused ? t0 : t1, i = refused ? 0 : 1;
	unsigned inc0 = G.err[error_type_inconsistent];
	struct node *n = symbol_try_get("k");
	if (t == 0) CHECK("symbol: undefined value", n == NULL);
	else CHECK("symbol: the most recently assigned value", n == &V[i] || (n && n->type == V[i].type && n->attr == V[i].attr && n->data.as_int == V[i].data.as_int));
	node_free(n);
	CHECK("symbol: looking is no error", G.err[error_type_inconsistent] == inc0);
	_Bool ign = symbol_ignore_undefined = vh_flag();
	vh_made = 0;
	n = symbol_get("k");
	if (t) {
		CHECK("symbol: same value", n == &V[i] && G.err[error_type_inconsistent] == inc0);
	} else if (ign) {
		CHECK("symbol: undefined symbols read as zero in conditions", n && n->type == node_type_int && n->data.as_int == 0 && G.err[error_type_inconsistent] == inc0);
#if VH_T0 == 0
		COVER("zero");
#endif
	} else {
		CHECK("symbol: use of an undefined symbol makes the pass inconsistent", n == NULL && G.err[error_type_inconsistent] == inc0 + 1);
	}
	node_free(n);
	n = symbol_get("o");
	CHECK("symbol: other symbols are untouched", n == &V[2] && V[2].data.as_int == vo->data.as_int && G.err[error_type_syntax] == refused);
	node_free(n);
	n = symbol_try_get("other2"); node_free(n);
	/* definitions list: every symbol once */
	struct slist *l = symbol_get_list();
	CHECK("symbol: every symbol listed once", l && l->next && !l->next->next &&
		vh_which(l->data) != vh_which(l->next->data));
	slist_free(l);
	if (v0) CHECK("symbol: only the value held is referenced", V[0].ref == 7 + refused);
	if (v1) CHECK("symbol: the value held is referenced once", V[1].ref == 7 + !refused);
	symbol_free_all();
	CHECK("symbol: values released", (!v0 || V[0].ref == 7) && (!v1 || V[1].ref == 7) && V[2].ref == 7);
	CHECK("symbol: values unchanged", !v1 || V[1].attr == node_attr_none);
}
void vh_main(void) {
	for (int t = 0; t < 5; t++) one(VH_T0, t);
}
