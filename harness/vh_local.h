/* symbol.c: local labels.  VH_M 0 backward, 1 forward, 2 definition. */
#include "vh.h"
struct vh_ghost G;
#define VH_NO_EMIT_CONTRACT
#define VH_NO_ERROR_CONTRACT
#include "vh_emit.h"
#include "asm6809.h"
#include "node.h"
#include "eval.h"
#include "dict.h"
#include "slist.h"
#include "symbol.h"
#include "gl_avltree_list.h"
#include "gl_xlist.h"
struct section *cur_section;
void error(enum error_type t, const char *f, ...) { G.err[t]++; }
void error_abort(const char *f, ...) { ASSERT(0, "no internal error"); ASSUME(0); for (;;); }
/* --- nodes by contract ---------------------------------------------------------- */
static struct node *freed[8]; static unsigned nfreed;
struct node *node_ref(struct node *n) { if (n) n->ref++; return n; }
void node_free(struct node *n) { if (n) { ASSERT(n->ref >= 1, "node_free: referenced"); n->ref--; } }
struct node *node_new_int(int64_t v) { return NULL; }
struct node *eval_node(struct node *n) { return node_ref(n); }
_Bool node_equal(struct node const *a, struct node const *b) { return a->data.as_int == b->data.as_int; }
char *xstrdup(const char *s) { return NULL; }
/* --- the table: one list, under one key -------------------------------------------- */
#define KEY 5
static void *thelist; static char dobj[1], lobj[1];
#define TABLE ((struct dict *)dobj)
struct dict *dict_new(Hash_hasher h, Hash_comparator c) { return NULL; }
struct dict *dict_new_full(Hash_hasher h, Hash_comparator c, Hash_data_freer a, Hash_data_freer b) { return TABLE; }
void dict_destroy(struct dict *d) { }
void *dict_lookup(struct dict *d, const void *k) { ASSERT(d == TABLE && k == (void *)KEY, "local labels: by table and number"); return thelist; }
void dict_insert(struct dict *d, void *k, void *v) { ASSERT(d == TABLE && k == (void *)KEY && !thelist, "local labels: one list for each number"); thelist = v; }
void dict_foreach(struct dict *d, dict_iter_func f, void *p) { }
size_t hash_djb2(const void *k, size_t m) { return 0; }
size_t dict_direct_hash(const void *k, size_t m) { return 0; }
bool dict_str_equal(const void *a, const void *b) { return 0; }
bool dict_direct_equal(const void *a, const void *b) { return a == b; }
struct slist *slist_prepend(struct slist *l, void *d) { return l; }
/* --- sorted lists (gnulib), by contract ---------------------------------------------- */
static gl_list_node_t vh_search(gl_list_t l, gl_listelement_compar_fn cmp, const void *elt);
static gl_list_node_t vh_find(gl_list_t l, const void *elt);
static gl_list_t vh_create(gl_listelement_equals_fn eq, gl_listelement_dispose_fn dispose, bool dup);
static const void *vh_value(gl_list_t l, gl_list_node_t n);
static bool vh_remove(gl_list_t l, gl_list_node_t n);
static gl_list_node_t vh_add(gl_list_t l, gl_listelement_compar_fn cmp, const void *elt);
#define gl_sortedlist_search(l, c, e) vh_search(l, c, e)
#define gl_list_search(l, e) vh_find(l, e)
#define gl_list_create_empty(t, eq, hash, disp, dup) vh_create(eq, disp, dup)
#define gl_list_node_value(l, n) vh_value(l, n)
#define gl_list_remove_node(l, n) vh_remove(l, n)
#define gl_sortedlist_add(l, c, e) vh_add(l, c, e)
#define gl_list_iterator(l) ((gl_list_iterator_t){0})
#define gl_list_iterator_next(i, e, n) 0
#define gl_list_iterator_free(i) ((void)0)
#define gl_list_free(l) ((void)0)
static void vh_free(void *p) { }
#define free vh_free
#include "symbol.c"
#undef free
static int64_t line(const void *e) { return ((const struct symbol_local *)e)->line_number; }

#if VH_M < 2
/* The answer: the last occurrence not after L, or the first after it. */
static unsigned L; static _Bool exists;
static struct symbol_local T, X, P, H; static struct node nT, nX, nP, nH;
static _Bool cand(int64_t l) { return VH_M == 0 ? l <= L : l > L; }
static _Bool worse(int64_t l) { return VH_M == 0 ? l < T.line_number : l > T.line_number; }
# if defined(VH_CBMC) && !defined(VH_BOUNDED)
/* Any number of occurrences: one arbitrary step of a search in an ordered tree of
 * any shape.  What has not been excluded lies strictly between lo and hi. */
static int64_t lo, hi; static int phase;
static void other(struct symbol_local *s, struct node *n, int64_t a, int64_t b) { /* one that is not T */
	s->line_number = vh_range(a, b); s->node = n;
	if (cand(s->line_number)) ASSUME(exists && worse(s->line_number));
}
static _Bool inv(void) {
	if (!exists) return sym_found == NULL;
	if (sym_found == &T) return 1;
	return lo < T.line_number && T.line_number < hi && (sym_found == NULL || (cand(sym_found->line_number) && worse(sym_found->line_number)));
}
static gl_list_node_t vh_search(gl_list_t l, gl_listelement_compar_fn cmp, const void *elt) {
	ASSERT(l == (gl_list_t)lobj && line(elt) == L, "search: for the line referring");
	lo = -1; hi = (int64_t)1 << 32; phase = 0;
	ASSERT(inv(), "search: initially");
	/* any state */
	phase = vh_range(0, 1);
	lo = vh_range(-1, UINT32_MAX); hi = vh_range(0, (int64_t)1 << 32);
	if (phase) { /* an equal one has been found: only those before it are looked at */
		if (exists && vh_flag()) H = T; else other(&H, &nH, 0, UINT32_MAX);
		ASSUME(cmp(&H, elt) == 0);
		ASSUME(hi <= line(&H));
	}
	switch (vh_range(0, 2)) {
	case 0: sym_found = NULL; break;
	case 1: sym_found = &T; ASSUME(exists); break;
	default: sym_found = &P; other(&P, &nP, 0, UINT32_MAX); ASSUME(cand(P.line_number)); break;
	}
	ASSUME(inv());
	if (vh_flag()) { /* the end of the search: nothing left */
		ASSUME(!(exists && lo < T.line_number && T.line_number < hi));
		COVER("end");
		return phase ? (gl_list_node_t)lobj : NULL;
	}
	const struct symbol_local *x = &X;
	if (exists && vh_flag()) { x = &T; ASSUME(lo < T.line_number && T.line_number < hi); }
	else { ASSUME(hi - lo >= 2); other(&X, &nX, lo + 1, hi - 1); if (sym_found == &P) ASSUME(X.line_number != P.line_number); }
	int c = cmp(x, elt);
	ASSERT(!phase || c <= 0, "search: order is consistent");
	if (c < 0) lo = line(x);
	else hi = line(x);
	if (c == 0) phase = 1;
	ASSERT(inv() || (sym_found == &X && x == &X && exists && cand(X.line_number) && lo < T.line_number && T.line_number < hi), "search: the nearest is found or still ahead");
	COVER("step");
	ASSUME(0);
	return NULL;
}
# else
#  define N 4
static struct symbol_local e[N]; static struct node en[N]; static int n;
static gl_list_node_t vh_search(gl_list_t l, gl_listelement_compar_fn cmp, const void *elt) {
	int lo = 0, hi = n; gl_list_node_t r = NULL;
	for (int k = 0; k < N; k++) if (lo < hi) {
		int i = vh_range(lo, hi - 1);
		int c = 0;
		for (int j = 0; j < N; j++) if (i == j) c = cmp(&e[j], elt);
		ASSERT(!r || c <= 0, "search: order is consistent");
		if (c < 0) lo = i + 1; else hi = i;
		if (c == 0) r = (gl_list_node_t)lobj;
	}
	return r;
}
# endif
static gl_list_node_t vh_find(gl_list_t l, const void *elt) { return NULL; }
static gl_list_t vh_create(gl_listelement_equals_fn eq, gl_listelement_dispose_fn dispose, bool dup) { return NULL; }
static const void *vh_value(gl_list_t l, gl_list_node_t n) { return NULL; }
static bool vh_remove(gl_list_t l, gl_list_node_t n) { return 1; }
static gl_list_node_t vh_add(gl_list_t l, gl_listelement_compar_fn cmp, const void *elt) { return NULL; }
void vh_main(void) {
	G = (struct vh_ghost){0};
	_Bool any = vh_flag();
	thelist = any ? lobj : NULL;
	L = vh_range(0, UINT32_MAX);
	struct node *want = NULL;
	nT = (struct node){ .type = node_type_int, .ref = 3 }; nX = nP = nH = nT;
# if defined(VH_CBMC) && !defined(VH_BOUNDED)
	sym_found = NULL;
	if (vh_flag()) sym_found = &H; /* left by the search before */
	exists = any && vh_flag();
	T.line_number = vh_range(0, UINT32_MAX); T.node = &nT;
	ASSUME(!exists || cand(T.line_number));
	if (exists) want = &nT;
# else
	n = any ? vh_range(1, N) : 0;
	for (int i = 0; i < N; i++) if (i < n) {
		e[i].line_number = vh_range(0, 9); e[i].node = &en[i]; en[i] = (struct node){ .type = node_type_int, .ref = 3 };
		if (i) { if (e[i].line_number <= e[i - 1].line_number) e[i].line_number = e[i - 1].line_number + 1; }
		if (VH_M == 0 ? e[i].line_number <= L : (e[i].line_number > L && !want)) want = &en[i];
	}
	L = vh_range(0, 14);
	want = NULL;
	for (int i = 0; i < N; i++) if (i < n) if (VH_M == 0 ? e[i].line_number <= L : (e[i].line_number > L && !want)) want = &en[i];
	if (vh_flag()) { /* a search before this one */
		struct node *b = VH_M == 0 ? symbol_local_backref(TABLE, KEY, 14) : symbol_local_fwdref(TABLE, KEY, 0);
		if (b) b->ref--;
		G = (struct vh_ghost){0};
	}
# endif
	struct node *r = VH_M == 0 ? symbol_local_backref(TABLE, KEY, L) : symbol_local_fwdref(TABLE, KEY, L);
	CHECK("local label: the nearest occurrence, or none", r == want);
	CHECK("local label: the value is referred to", !r || r->ref == 4);
	CHECK("local label: without one the pass is inconsistent, otherwise fine", G.err[error_type_inconsistent] == (r == NULL) && G.err[error_type_syntax] + G.err[error_type_fatal] + G.err[error_type_data] == 0);
	if (r) COVER("found"); else COVER("none");
}
#else
/* A list as its definition makes it, from nothing: three definitions. */
# define N 3
static const struct symbol_local *e[N]; static int n; static gl_listelement_equals_fn eq; static gl_listelement_dispose_fn dispose;
static char handle[N + 1];
static gl_list_node_t vh_search(gl_list_t l, gl_listelement_compar_fn cmp, const void *elt) { return NULL; }
static gl_list_node_t vh_find(gl_list_t l, const void *elt) {
	for (int i = 0; i < N; i++) if (i < n && eq(e[i], elt)) return (gl_list_node_t)(handle + i);
	return NULL;
}
static gl_list_t vh_create(gl_listelement_equals_fn f, gl_listelement_dispose_fn d, bool dup) { eq = f; dispose = d; return (gl_list_t)lobj; }
static const void *vh_value(gl_list_t l, gl_list_node_t h) { for (int i = 0; i < N; i++) if ((char *)h == handle + i) return e[i]; return NULL; }
static bool vh_remove(gl_list_t l, gl_list_node_t h) {
	int k = (char *)h - handle;
	ASSERT(k >= 0 && k < n, "list: of its members");
	const struct symbol_local *x = NULL;
	for (int i = 0; i < N; i++) { if (i == k) x = e[i]; if (i >= k && i + 1 < N) e[i] = e[i + 1]; }
	n--;
	if (dispose) dispose(x);
	return 1;
}
static gl_list_node_t vh_add(gl_list_t l, gl_listelement_compar_fn cmp, const void *elt) {
	ASSERT(n < N, "harness: room");
	int at = 0;
	for (int i = 0; i < N; i++) if (i < n) {
		int c = cmp(e[i], elt), d = cmp(elt, e[i]);
		CHECK("local label: kept in order", (c < 0) == (line(e[i]) < line(elt)) && (c > 0) == (line(e[i]) > line(elt)) && (d < 0) == (c > 0));
		if (c <= 0) at = i + 1;
	}
	for (int i = N - 1; i > 0; i--) if (i > at) e[i] = e[i - 1];
	for (int i = 0; i < N; i++) if (i == at) e[i] = elt;
	n++;
	return (gl_list_node_t)(handle + at);
}
static struct node v[N];
void vh_main(void) {
	G = (struct vh_ghost){0};
	thelist = NULL; n = 0;
	unsigned ln[N], want = 0; int64_t val[N];
	for (int k = 0; k < N; k++) {
		ln[k] = vh_range(0, UINT32_MAX); val[k] = vh_nd();
		if (vh_flag() && k) ln[k] = ln[0];
		v[k] = (struct node){ .type = node_type_int, .ref = 1 }; v[k].data.as_int = val[k];
		int old = -1;
		for (int j = 0; j < N; j++) if (j < k && ln[j] == ln[k]) old = j;
		if (old >= 0 && val[old] != val[k]) want++;
		symbol_local_set(TABLE, KEY, ln[k], &v[k], vh_range(0, 9));
		CHECK("local label: inconsistent exactly if its value changed", G.err[error_type_inconsistent] == want && G.err[error_type_syntax] + G.err[error_type_fatal] + G.err[error_type_data] == 0);
	}
	for (int k = 0; k < N; k++) {
		int later = 0; unsigned hits = 0;
		for (int j = 0; j < N; j++) if (j > k && ln[j] == ln[k]) later = 1;
		for (int i = 0; i < N; i++) if (i < n && e[i]->node == &v[k] && e[i]->line_number == ln[k]) hits++;
		CHECK("local label: each occurrence once, with its last value", hits == !later);
		CHECK("local label: values kept while in use, released once", v[k].ref == (later ? 1 : 2));
		if (later) COVER("replaced");
	}
	for (int i = 0; i + 1 < N; i++) CHECK("local label: in order", i + 1 >= n || e[i]->line_number < e[i + 1]->line_number);
	COVER("set");
}
#endif
