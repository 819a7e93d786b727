/* section.c: merging spans.
 *
 * The proof is of one arbitrary step of section_coalesce(), from an arbitrary
 * state of its loop (hook in section.c): a span A with the spans B and perhaps C
 * after it, sorted, of any size and contents; a byte of an arbitrary address W is
 * watched (blocks are unbounded arrays, of which copies move the watched byte).
 * With VH_BOUNDED, and natively, whole (sorted) lists are merged instead. */
#include "vh.h"
struct vh_ghost G;
#define VH_NO_EMIT_CONTRACT
#define VH_NO_ERROR_CONTRACT
#define cur_section cur_section_unused
#include "vh_emit.h"
#undef cur_section
#include "asm6809.h"
#include "slist.h"
#include "dict.h"
#include "symbol.h"
#if defined(VH_CBMC) && !defined(VH_BOUNDED)
# define VH_ABS
struct slist;
static void vh_step(struct slist **l);
# define VERIFY_LOOP_coalesce vh_step(&l)
#endif
#include "vh_loops.h"
struct asm6809_options asm6809_options;
void error(enum error_type t, const char *f, ...) { G.err[t]++; }
void error_abort(const char *f, ...) { ASSERT(0, "no internal error"); ASSUME(0); for (;;); }
static int cmpcalls;

#ifdef VH_ABS
extern uint8_t adata[__CPROVER_constant_infinity_uint], bdata[__CPROVER_constant_infinity_uint]; /* arbitrary */
static struct section_span A, B, C, A0, B0, C0;
static struct slist NA, NB, NC, OLD; static _Bool hasC;
static unsigned W; static uint8_t wa, wb; /* bytes at W in A, in B */
static unsigned cap; /* of A's block */
static unsigned freedB, freednode;
static _Bool pad0;
void *vh_memcpy(void *d, const void *s, size_t n) {
	ASSERT(s == bdata && n <= B0.size, "copy: the next span's bytes");
	size_t off = (uint8_t *)d - adata;
	ASSERT(off <= cap && n <= cap - off, "copy: within the block");
	size_t w = (size_t)W - A.put;
	if (W >= A.put && w >= off && w < off + n) adata[w] = bdata[w - off];
	return d;
}
void *vh_memset(void *d, int c, size_t n) {
	size_t off = (uint8_t *)d - adata;
	ASSERT(off <= cap && n <= cap - off, "fill: within the block");
	size_t w = (size_t)W - A.put;
	if (W >= A.put && w >= off && w < off + n) adata[w] = c;
	return d;
}
void *xrealloc(void *p, size_t n) {
	ASSERT(p == adata && n >= A.size, "grow: the span's block, keeping what is in use");
	cap = n;
	return adata;
}
struct slist *slist_copy(struct slist *l) { ASSERT(l == &OLD, "coalesce: of its spans"); return &NC; }
struct slist *slist_sort(struct slist *l, slist_cmp_func f) { ASSERT(l == &NC && f, "coalesce: sorted"); cmpcalls++; return &NA; }
static unsigned oldfreed;
void slist_free(struct slist *l) { ASSERT(l == &OLD && oldfreed++ == 0, "coalesce: list replaced"); }
void slist_free_1(struct slist *l) { ASSERT(l == &NB && freednode++ == 0, "coalesce: cell dropped once"); }
static unsigned bfreed[2];
static void vh_free(void *p) {
	if (p == bdata) bfreed[0]++;
	else if (p == &B) bfreed[1]++;
	else ASSERT(0, "only the span joined is released");
}
#undef memcpy
#undef memset
#define memcpy vh_memcpy
#define memset vh_memset
#else /* ---------------------------------------------------------- whole lists */
#ifndef NS
# define NS 3
#endif
#ifndef PAD
# define PAD vh_flag()
#endif
#define BLK 16
#define PUTS 5
static uint8_t blk[NS + 1][BLK]; static unsigned bcap[NS + 1], nblk;
static int which(void *p) { for (int i = 0; i < NS; i++) if (p == blk[i]) return i; return -1; }
#ifdef VH_CBMC
void *vh_memcpy(void *d, const void *s, size_t n) {
	unsigned to = (uint8_t *)d - blk[0], from = (const uint8_t *)s - blk[0];
	ASSERT(to / BLK < NS && to % BLK + n <= bcap[to / BLK], "copy: within the block");
	ASSERT(from / BLK < NS && n <= 2 && from % BLK + n <= bcap[from / BLK], "copy: from within a block");
	uint8_t t[2];
	for (unsigned i = 0; i < 2; i++) t[i] = blk[from / BLK % NS][from % BLK + i];
	for (unsigned k = 0; k < NS; k++) for (unsigned m = 0; m < 2; m++)
		if (m < n && k == to / BLK) blk[k][to % BLK + m] = t[m];
	return d;
}
void *vh_memset(void *d, int c, size_t n) {
	unsigned to = (uint8_t *)d - blk[0];
	ASSERT(to / BLK < NS && to % BLK + n <= bcap[to / BLK] && n <= 4, "fill: within the block");
	for (unsigned k = 0; k < NS; k++) for (unsigned m = 0; m < 4; m++)
		if (m < n && k == to / BLK) blk[k][to % BLK + m] = c;
	return d;
}
#endif
static void *grow(void *p, size_t n) { /* in place: blocks have room */
	int k = -1;
	if (!p) { ASSERT(nblk < NS, "harness: blocks"); k = nblk++; bcap[k] = 0; } else k = which(p);
	ASSERT(k >= 0, "grow: a block");
	ASSERT(n <= BLK, "grow: reasonably");
	bcap[k] = n;
	return blk[k];
}
void *xrealloc(void *p, size_t n) { return grow(p, n); }
static unsigned freed[NS], freedblk[NS];
/* separate objects: the verifier tells them apart */
static struct section_span sp0, sp1, sp2, *const spp[3] = { &sp0, &sp1, &sp2 };
#define sp(i) (*spp[i])
static void vh_free(void *p) {
	for (int i = 0; i < NS; i++) if (p == &sp(i)) freed[i]++;
	int k = which(p);
	if (k >= 0) freedblk[k]++;
}
# ifdef VH_CBMC
#undef memcpy
#undef memset
#define memcpy vh_memcpy
#define memset vh_memset
# endif
static struct slist cell0, cell1, cell2, *const cellp[3] = { &cell0, &cell1, &cell2 }, oldcell;
#define cell(i) (*cellp[i])
static unsigned nlist, cellfreed[NS + 1], oldfreed;
struct slist *slist_copy(struct slist *l) { ASSERT(l == &oldcell, "coalesce: of its spans"); return nlist ? &cell0 : NULL; }
struct slist *slist_sort(struct slist *l, slist_cmp_func f) { cmpcalls++; return l; }
void slist_free(struct slist *l) { ASSERT(l == &oldcell && oldfreed++ == 0, "coalesce: list replaced"); }
void slist_free_1(struct slist *l) { for (int i = 0; i < NS; i++) if (l == &cell(i)) cellfreed[i]++; }
struct slist *dict_get_values(struct dict *d) { return NULL; }
struct slist *slist_copy_deep(struct slist *l, slist_copy_func f, void *p) { return NULL; }
struct slist *slist_concat(struct slist *a, struct slist *b) { return NULL; }
struct slist *slist_append(struct slist *l, void *d) { return NULL; }
void slist_free_full(struct slist *l, slist_free_func f) { }
#endif
struct dict *symbol_local_table_new(void) { return NULL; }
void dict_destroy(struct dict *d) { }
void *dict_lookup(struct dict *d, const void *k) { return NULL; }
void dict_insert(struct dict *d, void *k, void *v) { }
struct dict *dict_new_full(Hash_hasher h, Hash_comparator c, Hash_data_freer a, Hash_data_freer b) { return NULL; }
size_t dict_str_hash(const void *p, size_t n) { return 0; }
bool dict_str_equal(const void *a, const void *b) { return 0; }
void dict_foreach(struct dict *d, dict_iter_func f, void *p) { }
char *xstrdup(const char *s) { return NULL; }
#ifdef VH_ABS
struct slist *dict_get_values(struct dict *d) { return NULL; }
struct slist *slist_copy_deep(struct slist *l, slist_copy_func f, void *p) { return NULL; }
struct slist *slist_concat(struct slist *a, struct slist *b) { return NULL; }
struct slist *slist_append(struct slist *l, void *d) { return NULL; }
void slist_free_full(struct slist *l, slist_free_func f) { }
#endif
#define free vh_free
#include "section.c"
#undef free
#ifdef VH_ABS
static int arrival;
static void after(struct slist *l) {
	_Bool over = (uint64_t)A0.put + A0.size > B0.put;
	CHECK("merge: overlap is an error", !over || G.err[error_type_data] > 0);
	if (over) { COVER("overlap"); return; }
	CHECK("merge: no error otherwise", G.err[error_type_data] == 0);
	_Bool joined = NA.next != &NB;
	CHECK("merge: adjacent spans joined, and with padding all", joined == (A0.put + A0.size == B0.put || pad0));
	CHECK("merge: others left alone", !hasC || (C.put == C0.put && C.size == C0.size && C.data == C0.data && C.ref == C0.ref && NC.data == &C && NC.next == NULL));
	CHECK("merge: address kept", NA.data == &A && A.put == A0.put && A.data == adata);
	if (joined) {
		CHECK("merge: joined spans end where the second did", A.put + A.size == B0.put + B0.size);
		CHECK("merge: the second is dropped from the list", NA.next == (hasC ? &NC : NULL) && freednode == 1);
		CHECK("merge: and released once", B0.ref == 1 ? bfreed[0] == 1 && bfreed[1] == 1 : B.ref == B0.ref - 1 && bfreed[0] + bfreed[1] == 0);
		if (W >= A0.put && W - A0.put < A0.size) CHECK("merge: bytes of the first stay", adata[W - A.put] == wa);
		else if (W >= B0.put && W - B0.put < B0.size) CHECK("merge: bytes of the second keep their address", adata[W - A.put] == wb);
		else if (W >= A0.put && W < B0.put) { CHECK("merge: gaps are zero", adata[W - A.put] == 0); COVER("gap"); }
		COVER("joined");
		CHECK("merge: goes on with the span it has", !hasC || l == &NA);
	} else {
		CHECK("merge: kept apart as they are", A.size == A0.size && B.put == B0.put && B.size == B0.size && B.data == B0.data && B.ref == B0.ref && NB.data == &B && NB.next == (hasC ? &NC : NULL));
		if (W >= A0.put && W - A0.put < A0.size) CHECK("merge: bytes stay", adata[W - A.put] == wa);
		COVER("apart");
		CHECK("merge: goes on with the next", !hasC || l == &NB);
	}
	CHECK("merge: room for what is in use", A.size <= A.allocated && A.allocated <= cap);
}
static void vh_step(struct slist **l) {
	if (arrival++ == 0) {
		ASSERT(*l == &NA && cmpcalls == 1, "coalesce: starts with the first of the sorted spans");
		hasC = vh_flag();
		A = (struct section_span){ .ref = vh_range(1, 2), .put = vh_range(0, 0x7fffffff), .size = vh_range(1, 0x7fffffff), .allocated = vh_range(1, 0x7fffffff), .data = adata };
		B = (struct section_span){ .ref = vh_range(1, 2), .put = vh_range(0, 0x7fffffff), .size = vh_range(1, 0x7fffffff), .allocated = vh_range(1, 0x7fffffff), .data = bdata };
		C = (struct section_span){ .ref = vh_range(1, 2), .put = vh_range(0, 0x7fffffff), .size = vh_range(1, 0x7fffffff), .allocated = vh_range(1, 0x7fffffff), .data = NULL };
		ASSUME(A.put <= B.put && B.put <= C.put);
		ASSUME(A.size <= A.allocated && B.size <= B.allocated);
		ASSUME(A.put + A.size <= 0x7fffffff && B.put + B.size <= 0x7fffffff);
		cap = A.allocated;
		NA.data = &A; NA.next = &NB; NB.data = &B; NB.next = hasC ? &NC : NULL; NC.data = &C; NC.next = NULL;
		A0 = A; B0 = B; C0 = C;
		W = vh_range(0, 0x7fffffff);
		wa = adata[W - A.put]; wb = bdata[W - B.put];
		return;
	}
	after(*l);
	ASSERT(arrival == 2 && hasC, "coalesce: one step");
	COVER("step");
	ASSUME(0);
}
static void run(void) {
	static struct section s;
	arrival = 0; cmpcalls = 0; freednode = 0; bfreed[0] = bfreed[1] = 0; oldfreed = 0;
	s = (struct section){0};
	s.spans = &OLD;
	pad0 = vh_flag();
	NA.data = &A; NA.next = &NB; NB.data = &B; NB.next = NULL;
	if (vh_flag()) { /* a single span: nothing to do */
		A = (struct section_span){ .ref = 1, .put = 5, .size = 6, .allocated = 7, .data = adata };
		A0 = A;
		NA.next = NULL;
		section_coalesce(&s, 1, pad0);
		CHECK("merge: one span is left as it is", arrival == 0 && A.put == 5 && A.size == 6 && A.data == adata && A.ref == 1 && NA.next == NULL && NA.data == &A && G.err[error_type_data] == 0);
	} else {
		section_coalesce(&s, 1, pad0);
		after(NULL);
		ASSERT(!hasC, "coalesce: to the end");
	}
	CHECK("merge: the list is the section's", s.spans == &NA && oldfreed == 1);
	COVER("end");
}
#else
static void run(void) {
	unsigned n = vh_range(0, NS), put0[NS], size0[NS], ref0[NS]; uint8_t d0[NS][4];
	_Bool pad = PAD;
	nblk = 0; nlist = n;
	static const uint8_t junk[BLK] = { 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16 };
	struct blk { uint8_t b[BLK]; };
	for (int i = 0; i < NS; i++) *(struct blk *)blk[i] = *(const struct blk *)junk;
	for (int i = 0; i < NS; i++) { bcap[i] = 0; freedblk[i] = 0; }
	for (unsigned i = 0; i < NS; i++) {
		freed[i] = 0;
		if (i >= n) continue;
		put0[i] = vh_range(0, PUTS); size0[i] = vh_range(1, 2);
		sp(i) = (struct section_span){ .ref = 2, .sequence = i, .put = put0[i], .size = size0[i], .allocated = size0[i] + vh_range(0, 1) };
		sp(i).data = grow(NULL, sp(i).allocated);
		for (int j = 0; j < 2; j++) { d0[i][j] = vh_range(0, 255); if (j < size0[i]) blk[i][j] = d0[i][j]; }
		if (size0[i] < 2) blk[i][1] = 0xee;
		ASSUME(i == 0 || put0[i - 1] <= put0[i]); /* sorted */
		cell(i).data = &sp(i); cell(i).next = i + 1 < n ? &cell(i + 1) : NULL; cellfreed[i] = 0;
	}
	static struct section sec;
	sec = (struct section){0}; sec.spans = &oldcell; oldfreed = 0; cmpcalls = 0;
	section_coalesce(&sec, 1, pad);
	struct section *r = &sec;
	CHECK("merge: sorted", cmpcalls == 1);
	_Bool over = 0;
	for (unsigned i = 0; i < NS; i++) for (unsigned j = 0; j < NS; j++)
		if (i < j && j < n && put0[i] < put0[j] + size0[j] && put0[j] < put0[i] + size0[i]) over = 1;
	CHECK("merge: overlap is an error, and nothing else", over == (G.err[error_type_data] > 0));
	COVER("merged");
	if (over) return;
	unsigned k = 0, end = 0; _Bool order = 1, apart = 1;
	unsigned w = vh_range(0, PUTS + 2), hits = 0; uint8_t v = 0;
	struct slist *l = r->spans;
	for (unsigned m = 0; m < NS; m++) if (l) {
		struct section_span *s = l->data;
		if (k && s->put < end) order = 0;
		if (k && s->put == end) apart = 0;
		if (w >= s->put && w < s->put + s->size) { hits++; v = s->data[w - s->put]; }
		end = s->put + s->size;
		CHECK("merge: what is referred to is kept", s->ref >= 1);
		k++; l = l->next;
	}
	CHECK("merge: in ascending order without overlap", order && !l);
	CHECK("merge: adjacent spans are joined", apart);
	CHECK("merge: with padding, one span", !pad || k == (n > 0));
	_Bool in = 0, between = 0, lo = 0, hi = 0; uint8_t want = 0;
	for (unsigned i = 0; i < NS; i++) if (i < n) {
		if (w >= put0[i] && w < put0[i] + size0[i]) { in = 1; for (unsigned j = 0; j < 2; j++) if (w - put0[i] == j) want = d0[i][j]; }
		if (w >= put0[i]) lo = 1;
		if (w < put0[i] + size0[i]) hi = 1;
	}
	between = pad && lo && hi;
	CHECK("merge: every byte is there once, and no other", hits == (in || between));
	CHECK("merge: with its value, gaps zero", !hits || v == want);
	for (unsigned i = 0; i < NS; i++) CHECK("merge: sections keep their spans", freed[i] == 0 && freedblk[i] == 0);
	if (in || n == 0) COVER("full");
}
#endif
void vh_main(void) {
	G = (struct vh_ghost){0};
	run();
}
