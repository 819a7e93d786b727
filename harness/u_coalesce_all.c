/* C08: merging starts from the spans of every section, sorted by address.
 * @function section_coalesce_all section_span_ref span_cmp section_new
 * @callees dict_get_values section_coalesce slist_copy_deep slist_concat
 * @props C08
 * @bounded 2 sections of at most 2 spans
 * @variant s22 -DN0=2 -DN1=2
 * @variant s12 -DN0=1 -DN1=2
 * @variant s20 -DN0=2 -DN1=0
 * @unwind 8
 * @opts --pointer-check
 */
#include "vh.h"
struct vh_ghost G;
#define VH_NO_EMIT_CONTRACT
#define VH_NO_ERROR_CONTRACT
#define cur_section cur_section_unused
#include "vh_emit.h"
#undef cur_section
#include "asm6809.h"
#include "slist.h"
#include "dict.h"
#include "symbol.h"
#include "vh_loops.h"
struct asm6809_options asm6809_options;
void error(enum error_type t, const char *f, ...) { G.err[t]++; }
void error_abort(const char *f, ...) { ASSERT(0, "no internal error"); ASSUME(0); for (;;); }
#define slist_copy_deep slist_copy_deep_real
#define slist_sort slist_sort_real
#include "slist.c"
#undef slist_copy_deep
#undef slist_sort
struct slist *slist_copy_deep(struct slist *l, slist_copy_func f, void *p) {
	struct slist *r = NULL;
	for (; l; l = l->next) r = slist_append(r, ((struct section_span *(*)(struct section_span *))f)(l->data));
	return r;
}
static struct section_span s0, s1, s2, s3, *const sp[4] = { &s0, &s1, &s2, &s3 };
static unsigned sorted;
/* slist_sort() by contract (u_slist): here of spans already in order */
struct slist *slist_sort(struct slist *l, slist_cmp_func f) {
	sorted++;
	for (struct slist *a = l; a; a = a->next) for (struct slist *b = a->next; b; b = b->next) {
		struct section_span *x = a->data, *y = b->data;
		int (*cmp)(struct section_span *, struct section_span *) = (int (*)(struct section_span *, struct section_span *))f;
		int xy = cmp(x, y), yx = cmp(y, x);
		CHECK("sort: by address, then in the order assembled", (xy < 0) == (x->put < y->put || (x->put == y->put && x->sequence < y->sequence)));
		CHECK("sort: an order", (xy < 0) != (yx < 0) && xy != 0 && yx != 0);
	}
	static struct section_span x, y;
	x.put = vh_range(0, UINT32_MAX); y.put = vh_range(0, UINT32_MAX); x.sequence = vh_range(0, UINT32_MAX); y.sequence = vh_range(0, UINT32_MAX);
	int (*cmp)(struct section_span *, struct section_span *) = (int (*)(struct section_span *, struct section_span *))f;
	int xy = cmp(&x, &y);
	CHECK("sort: any two by address", x.put == y.put || (xy < 0) == (x.put < y.put));
	CHECK("sort: any two at one address in the order assembled", x.put != y.put || x.sequence == y.sequence || (xy < 0) == (x.sequence < y.sequence));
	/* the order of addresses, by insertion */
	struct slist *r = NULL;
	for (int k = 0; k < 4; k++) for (struct slist *a = l; a; a = a->next) if (a->data == sp[k]) r = slist_append(r, a->data);
	return r;
}
struct dict *symbol_local_table_new(void) { return NULL; }
void dict_destroy(struct dict *d) { }
void *dict_lookup(struct dict *d, const void *k) { return NULL; }
void dict_insert(struct dict *d, void *k, void *v) { }
struct dict *dict_new_full(Hash_hasher h, Hash_comparator c, Hash_data_freer a, Hash_data_freer b) { return NULL; }
size_t dict_str_hash(const void *p, size_t n) { return 0; }
bool dict_str_equal(const void *a, const void *b) { return 0; }
void dict_foreach(struct dict *d, dict_iter_func f, void *p) { }
char *xstrdup(const char *s) { return NULL; }
void *xrealloc(void *p, size_t n) { ASSERT(0, "far apart: nothing to join"); return p; }
static struct section sec[2]; static struct slist *values;
struct slist *dict_get_values(struct dict *d) { return values; }
static void vh_free(void *p) { ASSERT(0, "nothing released"); }
#define free vh_free
#include "section.c"
#undef free
void vh_main(void) {
	G = (struct vh_ghost){0};
	asm6809_options = (struct asm6809_options){0};
	sorted = 0;
	sec[0] = sec[1] = (struct section){0};
	static uint8_t d[4];
	static const int at[2][2] = { { 2, 1 }, { 0, 3 } }; /* addresses in another order */
	_Bool have[4] = { 0, 0, 0, 0 }; unsigned gap = 0x10, seq[4];
	for (int i = 0; i < 4; i++) {
		seq[i] = vh_range(0, UINT32_MAX);
		*sp[i] = (struct section_span){ .ref = 1, .put = (i + 1) * 2 * gap, .size = gap, .allocated = gap, .data = d, .sequence = seq[i] };
	}
	for (int s = 0; s < 2; s++) {
		int n = s ? N1 : N0;
		for (int k = 0; k < 2; k++) if (k < n) { have[at[s][k]] = 1; sec[s].spans = slist_append(sec[s].spans, sp[at[s][k]]); }
	}
	values = slist_append(slist_append(NULL, &sec[0]), &sec[1]);
	struct section *r = section_coalesce_all(0);
	struct slist *l = r->spans;
	CHECK("collect: sorted", sorted == 1);
	CHECK("collect: without error", G.err[error_type_data] == 0);
	for (int i = 0; i < 4; i++) {
		struct section_span *x = l ? l->data : NULL;
		if (have[i]) {
			CHECK("collect: the spans of all sections, in order of address", x && x->put == (unsigned)(i + 1) * 2 * gap && x->size == gap && x->data == d);
			CHECK("collect: still referred to by their section", x && x->ref == (x == sp[i] ? 2 : 1) && sp[i]->ref >= 1);
			l = l ? l->next : NULL;
		}
	}
	CHECK("collect: and no other", !l);
	COVER("all");
}
