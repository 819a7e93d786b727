/* C20: lists.  Every operation on lists of every length up to the bound, with
 * arbitrary (possibly equal) elements.
 * @function slist_append slist_prepend slist_insert_before slist_remove slist_free slist_free_full slist_free_1 slist_length slist_copy slist_copy_deep slist_reverse slist_sort slist_merge slist_concat slist_foreach slist_find slist_find_custom
 * @props C20
 * @bounded lists of at most 5 elements
 * @variant insert -DVH_WHAT=0
 * @variant remove -DVH_WHAT=1
 * @variant copy -DVH_WHAT=2
 * @variant reverse -DVH_WHAT=3
 * @variant concat -DVH_WHAT=4
 * @variant find -DVH_WHAT=5
 * @variant free -DVH_WHAT=6
 * @variant sort1 -DVH_WHAT=7 -DVH_N=1
 * @variant sort2 -DVH_WHAT=7 -DVH_N=2
 * @variant sort3 -DVH_WHAT=7 -DVH_N=3
 * @variant sort4 -DVH_WHAT=7 -DVH_N=4
 * @variant sort5 -DVH_WHAT=7 -DVH_N=5
 * @unwind 10
 * @opts --pointer-check
 */
#include "vh.h"
struct vh_ghost G;
#include "slist.c"
#define MAXN 5
static int el[MAXN + 3];           /* elements; compared by value in sorts */
#define D(i) ((void *)&el[i])
static unsigned len;               /* length of the list under test */
static void *seq[MAXN + 3];        /* its elements */
/* a list of len elements, from cells of its own */
static struct slist *cell[MAXN + 3];
static struct slist *make(unsigned n, void **s) {
	struct slist *l = NULL;
	for (unsigned i = 0; i < MAXN; i++) cell[i] = NULL;
	for (unsigned i = n; i-- > 0; ) {
		struct slist *c = malloc(sizeof(*c));
		ASSUME(c != NULL);
		c->data = s[i];
		c->next = l;
		cell[i] = l = c;
	}
	return l;
}
static struct slist *arbitrary(void) {
	len = vh_range(0, MAXN);
	for (unsigned i = 0; i < MAXN; i++) seq[i] = D(vh_range(0, MAXN));
	return make(len, seq);
}
static _Bool is(struct slist *l, void **s, unsigned n) {
	ASSUME(n <= 8);
	for (unsigned i = 0; i < n; i++) {
		if (!l || l->data != s[i]) return 0;
		l = l->next;
	}
	return l == NULL;
}
static unsigned seen, bad;
static void iter(void *d, void *x) { if (x != &seen || seen >= len || seq[seen] != d) bad++; seen++; }
static void freed(void *d) { if (seen >= len || seq[seen] != d) bad++; seen++; }
static void *copier(const void *d, void *x) { if (x != &el[1]) bad++; return (char *)d + 1; }
static int eq(const void *a, const void *b) { return a == b ? 0 : 1; }
static int cmp(const void *a, const void *b) { int x = *(const int *)a, y = *(const int *)b; return x < y ? -1 : x > y; }

void vh_main(void) {
	G = (struct vh_ghost){0};
	seen = bad = 0;
	void *want[MAXN + 3];
	unsigned n = 0;
#if VH_WHAT == 0
	struct slist *l = arbitrary();
	unsigned k = vh_range(0, MAXN), how = vh_range(0, 2);
	ASSUME(k <= len);
	if (how == 0) k = len;
	if (how == 1) k = 0;
	for (unsigned i = 0; i < MAXN + 1; i++) {
		if (i == k) want[n++] = D(MAXN + 1);
		if (i < len) want[n++] = seq[i];
	}
	n = len + 1;
	struct slist *r = how == 0 ? slist_append(l, D(MAXN + 1)) : how == 1 ? slist_prepend(l, D(MAXN + 1)) :
		slist_insert_before(l, k < len ? cell[k] : NULL, D(MAXN + 1));
	CHECK("slist_insert_before/append/prepend: the new element at its place, the others in order", is(r, want, n));
	CHECK("slist_append: elements keep their cells", len == 0 || how == 1 || k == 0 || r == l);
	COVER("insert");
#elif VH_WHAT == 1
	struct slist *l = arbitrary();
	void *d = D(vh_range(0, MAXN));
	_Bool gone = 0;
	for (unsigned i = 0; i < MAXN; i++) {
		if (i >= len) break;
		if (!gone && seq[i] == d) gone = 1; else want[n++] = seq[i];
	}
	struct slist *r = slist_remove(l, d);
	CHECK("slist_remove: the first occurrence removed, the others in order", is(r, want, n));
	if (gone) COVER("removed"); else COVER("not there");
#elif VH_WHAT == 2
	struct slist *l = arbitrary();
	struct slist *r = slist_copy(l);
	CHECK("slist_copy: the same elements in order", is(r, seq, len));
	CHECK("slist_copy: the original is left alone", is(l, seq, len));
	struct slist *q = slist_copy_deep(l, copier, &el[1]);
	for (unsigned i = 0; i < MAXN; i++) want[i] = (char *)seq[i] + 1;
	CHECK("slist_copy_deep: each element's copy, in order", is(q, want, len) && !bad);
	CHECK("slist_copy_deep: the original is left alone", is(l, seq, len) && is(r, seq, len));
	slist_free(l);
	CHECK("slist_copy: the copy outlives the original", is(r, seq, len));
	COVER("copy");
#elif VH_WHAT == 3
	struct slist *l = arbitrary();
	for (unsigned i = 0; i < MAXN; i++) if (i < len) want[i] = seq[len - 1 - i];
	CHECK("slist_reverse: the elements in reverse order", is(slist_reverse(l), want, len));
	COVER("reverse");
#elif VH_WHAT == 4
	struct slist *l = arbitrary();
	unsigned m = vh_range(0, 3);
	void *s2[3] = { D(vh_range(0, 5)), D(vh_range(0, 5)), D(vh_range(0, 5)) };
	struct slist *l2 = make(m, s2);
	for (unsigned i = 0; i < MAXN; i++) if (i < len) want[n++] = seq[i];
	for (unsigned i = 0; i < 3; i++) if (i < m) want[n++] = s2[i];
	CHECK("slist_concat: the elements of both lists in order", is(slist_concat(l, l2), want, len + m));
	COVER("concat");
#elif VH_WHAT == 5
	struct slist *l = arbitrary();
	void *d = D(vh_range(0, MAXN));
	struct slist *at = NULL;
	for (unsigned i = MAXN; i-- > 0; ) if (i < len && seq[i] == d) at = cell[i];
	CHECK("slist_length: the number of elements", slist_length(l) == len);
	CHECK("slist_find: the first cell holding the element, or none", slist_find(l, d) == at);
	CHECK("slist_find_custom: the first cell comparing equal, or none", slist_find_custom(l, d, eq) == at);
	slist_foreach(l, iter, &seen);
	CHECK("slist_foreach: each element once, in order", seen == len && !bad);
	CHECK("slist_find/foreach: the list is left alone", is(l, seq, len));
	if (at) COVER("found"); else COVER("not found");
#elif VH_WHAT == 6
	struct slist *l = arbitrary();
	slist_free_full(l, freed);
	CHECK("slist_free_full: each element freed once, in order", seen == len && !bad);
	COVER("free");
#else
	unsigned N = VH_N;
	len = VH_N;
	for (unsigned i = 0; i < N; i++) { seq[i] = D(i); el[i] = vh_range(-100, 100); }
	struct slist *r = slist_sort(make(len, seq), cmp);
	unsigned prev = 0, mask = 0;
	for (unsigned i = 0; i < N; i++) {
		CHECK("slist_sort: as many elements as before", r != NULL);
		if (!r) return;
		unsigned k = (int *)r->data - el;
		CHECK("slist_sort: only elements of the list", k < N && r->data == D(k));
		if (k >= N) return;
		CHECK("slist_sort: each element once", !(mask & (1u << k)));
		mask |= 1u << k;
		if (i) CHECK("slist_sort: in ascending order", el[prev] <= el[k]);
		prev = k;
		r = r->next;
	}
	CHECK("slist_sort: no element added", r == NULL);
	COVER("sort");
#endif
}
