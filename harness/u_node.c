/* C19: release and attributes of nodes, for every type and reference count.
 * @function node_free node_ref node_set_attr node_set_attr_if node_unshare node_new node_new_int node_new_float node_new_string node_new_reg node_new_empty node_new_pc node_new_backref node_new_fwdref node_new_interp node_new_id node_new_text node_new_oper_1 node_new_oper_2 node_new_oper_3 node_new_array node_array_push node_array_count node_array_of node_equal
 * @callees node_free(children) slist_free_full error_abort
 * @replace-calls node_free:vh_node_free
 * @link x_node.c
 * @props C19
 * @variant free -DVH_M=0
 * @variant attr -DVH_M=1
 * @unwind 20
 * @opts --pointer-check
 * @exact-bounded
 */
#define VH_NO_XALLOC
#include "vh.h"
struct vh_ghost G;
#include "node.h"
#include "slist.h"
#include "grammar.h"
#include "error.h"
struct blk { _Bool used, gone; void *p; };
static struct blk B[16];
static unsigned nb;
/* allocation: every block is released at most once */
static void *reg(void *p) { ASSUME(p != NULL && nb < 16); B[nb].used = 1; B[nb].gone = 0; B[nb].p = p; nb++; return p; }
void *xmalloc(size_t n) { return reg(malloc(n)); }
void *xrealloc(void *p, size_t n) {
	void *q = malloc(n);
	ASSUME(q != NULL);
	/* arrays of nodes only: n is a multiple of the pointer size */
	for (size_t i = 0; p && i + 1 < n / sizeof(void *); i++) ((void **)q)[i] = ((void **)p)[i];
	for (unsigned i = 0; i < nb; i++) if (B[i].p == p && p) B[i].gone = 1;
	return reg(q);
}
char *xstrdup(const char *s) { char *r = xmalloc(3); r[0] = s[0]; r[1] = s[0] ? s[1] : 0; r[2] = 0; return r; }
static void vh_free(void *p) {
	if (!p) return;
	for (unsigned i = 0; i < nb; i++) if (B[i].p == p) { ASSERT(!B[i].gone, "released once"); B[i].gone = 1; return; }
	ASSERT(0, "released: a block that was allocated");
}
static _Bool isgone(void *p) { for (unsigned i = 0; i < nb; i++) if (B[i].p == p) return B[i].gone; return 0; }
static unsigned live(void) { unsigned r = 0; for (unsigned i = 0; i < nb; i++) r += !B[i].gone; return r; }
void error_abort(const char *f, ...) { ASSERT(0, "error_abort() is not reached"); ASSUME(0); exit(1); }
/* references to children, by the contract of node_free() */
static struct node *child[3];
static unsigned lists;
#define FREED(i) (3 - child[i]->ref)
void vh_node_free(struct node *n) {
	if (!n) return;
	for (int i = 0; i < 3; i++) if (n == child[i]) { child[i]->ref--; return; }
	ASSERT(n->ref > 1, "node_free: a node referred to from elsewhere");
	n->ref--;
}
static char listobj[2];
#define LIST ((struct slist *)listobj)
static _Bool listfn;
void slist_free_full(struct slist *l, slist_free_func f) { ASSERT(l == LIST, "slist_free_full: of the list"); lists++; listfn = f == (slist_free_func)vh_node_free || f == (slist_free_func)node_free; }
#define free vh_free
#include "node.c"
#undef free
void vh_top_free(struct node *n);

#define NT 14
static struct node *mk(int t) {
	nb = 0; lists = 0; listfn = 0;
	for (int i = 0; i < 3; i++) {
		child[i] = xmalloc(sizeof(struct node));
		*child[i] = (struct node){ .type = node_type_int, .ref = 3, .attr = node_attr_none, .data = { .as_int = i } };
	}
	char *s = xmalloc(3);
	s[0] = vh_range(-128, 127); s[1] = 0; s[2] = 0;
	struct node *n = NULL;
	switch (t) {
	case 0: n = node_new_empty(); break;
	case 1: n = node_new_int(vh_nd()); break;
	case 2: { union { int64_t i; double d; } u; u.i = vh_nd(); n = node_new_float(u.d); break; }
	case 3: n = node_new_reg(vh_range(REG_CC, REG_MAX - 1)); break;
	case 4: n = node_new_string(s); break;
	case 5: n = node_new_array(); break;
	case 6: n = node_array_push(node_array_push(NULL, child[0]), child[1]); break;
	case 7: n = node_array_push(node_array_push(node_array_push(NULL, child[0]), NULL), child[2]); break;
	case 8: n = node_new_oper_1('~', child[0]); break;
	case 9: n = node_new_oper_2('+', child[0], child[1]); break;
	case 10: n = node_new_oper_3('?', child[0], child[1], child[2]); break;
	case 11: n = node_new_id(LIST); break;
	case 12: n = node_new_text(LIST); break;
	default: n = node_new_interp(s); break;
	}
	return n;
}
static unsigned kids(int t) { return t == 6 ? 3 : t == 7 ? 5 : t == 8 ? 1 : t == 9 ? 3 : t == 10 ? 7 : 0; }
static void vfree(int t, _Bool shared) {
	struct node *n = mk(t);
	unsigned before = live();
	CHECK("node: one reference, no attribute", n->ref == 1 && n->attr == node_attr_none);
	if (shared) {
		n->ref = vh_range(1, 0xfffffffe);
		unsigned r = n->ref;
		CHECK("node_ref: the node, one reference more", node_ref(n) == n && n->ref == r + 1);
		vh_top_free(n);
		CHECK("node_free: one reference less", n->ref == r);
		CHECK("node_free: nothing released while referred to", live() == before && lists == 0 && !FREED(0) && !FREED(1) && !FREED(2));
		return;
	}
	void *args = t >= 6 && t <= 7 ? (void *)n->data.as_array.args : t >= 8 && t <= 10 ? (void *)n->data.as_oper.args : t == 4 || t == 13 ? n->data.as_string : NULL;
	vh_top_free(n);
	CHECK("node_free: the node is released", isgone(n));
	CHECK("node_free: with what it owns", live() == before - 1 - (args != NULL) && (!args || isgone(args)));
	for (int i = 0; i < 3; i++) CHECK("node_free: one reference to each child is dropped", FREED(i) == ((kids(t) >> i) & 1));
	CHECK("node_free: lists", t == 11 || t == 12 ? lists == 1 && listfn : lists == 0);
#if VH_M == 0
	if (t == 10) COVER("freed");
#endif
}
static void attr(int t, _Bool cond) {
	struct node *n = mk(t);
	int a = n->attr = vh_range(node_attr_none, node_attr_postdec);
	unsigned r = n->ref = vh_range(1, 0xfffffffe);
	int b = vh_range(node_attr_none, node_attr_postdec);
	struct node old = *n;
	unsigned before = live();
	struct node *m = cond ? node_set_attr_if(n, b) : node_set_attr(n, b);
	_Bool keep = cond && b == node_attr_none && (a == node_attr_postinc || a == node_attr_postinc2 || a == node_attr_predec || a == node_attr_predec2 || a == node_attr_postdec);
	int c = keep ? a : b;
	CHECK("attribute: set", m && m->attr == c && m->type == n->type);
	if (m != n) {
		CHECK("attribute: other references see no change", r > 1 && n->ref == r - 1 && n->attr == a && m->ref == 1);
#if VH_M == 1
		if (t == 1) COVER("copy");
#endif

	} else {
		CHECK("attribute: set in place only if unchanged or not shared", n->ref == r && (r == 1 || c == a));
	}
	switch (t) {
	case 1: CHECK("attribute: same value", m->data.as_int == old.data.as_int && n->data.as_int == old.data.as_int); break;
	case 2: { union { double d; int64_t i; } x = { .d = m->data.as_float }, y = { .d = old.data.as_float }; CHECK("attribute: same value", x.i == y.i || m->data.as_float == old.data.as_float || old.data.as_float != old.data.as_float); break; }
	case 3: CHECK("attribute: same register", m->data.as_reg == old.data.as_reg); break;
	case 4: CHECK("attribute: same string", m->data.as_string[0] == old.data.as_string[0] && (m->data.as_string[0] == 0 || m->data.as_string[1] == 0) && (m == n || m->data.as_string != n->data.as_string)); break;
	case 5: case 6: case 7:
		CHECK("attribute: same array", m->data.as_array.nargs == old.data.as_array.nargs && n->data.as_array.args == old.data.as_array.args);
		for (int i = 0; i < (t == 5 ? 0 : t - 4); i++) CHECK("attribute: same elements, each referred to", m->data.as_array.args[i] == old.data.as_array.args[i]);
		for (int i = 0; i < 3; i++) CHECK("attribute: elements are shared", child[i]->ref == 3 + (m != n && ((kids(t) >> i) & 1)));
		CHECK("attribute: arrays are separate", m == n || t == 5 || m->data.as_array.args != n->data.as_array.args);
		break;
	}
	if (m == n) CHECK("attribute: nothing released or allocated", live() == before);
}
void vh_main(void) {
#if VH_M == 0
	vh_top_free(NULL);
	CHECK("node_ref: of nothing", node_ref(NULL) == NULL);
	for (int t = 0; t < NT; t++) { vfree(t, 0); vfree(t, 1); }
#else
	CHECK("attribute: of nothing", node_set_attr(NULL, node_attr_8bit) == NULL && node_set_attr_if(NULL, node_attr_8bit) == NULL);
	for (int t = 0; t < 8; t++) { attr(t, 0); attr(t, 1); }
#endif
}
