/* C07: emission.  The contracts that every caller of section_emit_*() is
 * verified against, here on the real bodies, plus what they do to the spans.
 * @function section_emit section_emit_op section_emit_uint8 section_emit_uint16 section_emit_uint32 section_emit_pad section_skip section_span_new
 * @callees error slist_append xrealloc xmalloc
 * @props C07
 * @variant op -DVH_WHAT=0
 * @variant uint8 -DVH_WHAT=1
 * @variant uint16 -DVH_WHAT=2
 * @variant uint32 -DVH_WHAT=3
 * @variant pad -DVH_WHAT=4
 * @variant skip -DVH_WHAT=5
 * @unwind 9
 * @exact-bounded
 * @assume one span holds less than 2 GiB
 */
#include "vh_seclib.h"

static unsigned vh_appends;
static void *vh_appended;
static struct slist vh_list;
struct slist *slist_append(struct slist *l, void *d) { vh_appends++; vh_appended = d; return &vh_list; }
#ifdef VH_CBMC
/* memcpy() and memset() of the C library, for the sizes emission needs */
static void *vh_memcpy(void *d, const void *s, size_t n) {
	ASSERT(n <= 4, "memcpy: emission of at most four bytes");
	for (int i = 0; i < 4; i++) if (i < n) ((uint8_t *)d)[i] = ((const uint8_t *)s)[i];
	return d;
}
static void *vh_memset(void *d, int c, size_t n) {
	ASSERT(n <= 4, "memset: emission of at most four bytes");
	for (int i = 0; i < 4; i++) if (i < n) ((uint8_t *)d)[i] = c;
	return d;
}
#undef memcpy
#undef memset
#define memcpy vh_memcpy
#define memset vh_memset
#endif
static uint8_t *VH_AT(uint8_t *p, unsigned i) { return p + i; }
#include "section.c"

static struct section S;
static struct section_span OLDSPAN;

void vh_main(void) {
	G = (struct vh_ghost){0};
	S = (struct section){0};
	OLDSPAN = (struct section_span){0};
	vh_appends = 0; vh_appended = NULL; vh_reallocs = 0;
	span_sequence = vh_range(0, 0xfffffffe);
	unsigned seq0 = span_sequence;
	cur_section = &S;
	S.pc = vh_range(INT32_MIN, INT32_MAX);
	S.put = vh_range(0, UINT32_MAX);
	S.dp = vh_range(0, UINT32_MAX);
	S.last_pc = vh_range(INT32_MIN, INT32_MAX);
	S.last_put = vh_range(0, UINT32_MAX);
	/* the section's current span, if it has one: size bytes of allocated */
	struct section_span *os = NULL;
	uint8_t wval = 0, *odata = NULL;
	unsigned W = vh_range(1, VH_WIN);   /* watched: the W-th last byte */
	vh_block(0, 0);
	if (vh_flag()) {
		os = &OLDSPAN;
		os->ref = vh_range(1, 100);
		os->sequence = vh_range(0, UINT32_MAX);
		os->org = vh_range(INT32_MIN, INT32_MAX);
		os->put = vh_range(0, UINT32_MAX);
		os->allocated = vh_range(0, VH_MAXSPAN);
#ifdef VH_NATIVE
		ASSUME(os->allocated < 0x1000000);
#endif
		os->size = vh_range(0, os->allocated);
		os->data = vh_block(os->allocated, os->size);
		if (os->data && W <= os->size) *VH_AT(os->data, os->size - W) = wval = vh_range(0, 255);
		odata = os->data;
		S.spans = &vh_list;
	}
	S.span = os;
	struct section_span o = OLDSPAN;
	struct section s0 = S;
	_Bool contig = os && s0.put == o.put + o.size && s0.pc == (int)((unsigned)o.org + o.size);
	_Bool fresh = !os || (!contig && o.size != 0);

	int what = VH_WHAT;
	uint32_t v = vh_range(0, UINT32_MAX);
	uint8_t want[4];
	unsigned k;
	switch (what) {
	case 0: v &= 0xffff; k = v > 0xff ? 2 : 1; want[0] = k == 2 ? v >> 8 : v; want[1] = v; section_emit_op(v); break;
	case 1: k = 1; want[0] = v; section_emit_uint8(v); break;
	case 2: k = 2; want[0] = v >> 8; want[1] = v; section_emit_uint16(v); break;
	case 3: k = 4; want[0] = v >> 24; want[1] = v >> 16; want[2] = v >> 8; want[3] = v; section_emit_uint32(v); break;
	case 4: k = vh_range(1, 2); want[0] = want[1] = 0; section_emit_pad(k); break;
	default: {
		int n = vh_range(0, INT32_MAX);
		section_skip(n);
		CHECK("section_skip: both addresses advance by exactly the count", S.pc == VH_ADD(s0.pc, n) && S.put == s0.put + (unsigned)n);
		CHECK("section_skip: nothing is stored", S.span == s0.span && S.spans == s0.spans && vh_appends == 0 && G.err[4] == 0 &&
			OLDSPAN.size == o.size && OLDSPAN.data == o.data && OLDSPAN.org == o.org && OLDSPAN.put == o.put);
#if VH_WHAT == 5
		COVER("skip");
#endif
		return; }
	}
	CHECK("section_emit: the section stays selected", cur_section == &S);
	CHECK("section_emit: program counter and load address advance by the number of bytes", S.pc == VH_ADD(s0.pc, k) && S.put == s0.put + k);
	struct section_span *sp = S.span;
	CHECK("section_emit: there is a current span, of at least the bytes emitted", sp != NULL && sp->size >= k && sp->size <= sp->allocated && sp->data != NULL);
	CHECK("section_emit: the span ends at the new addresses", sp->put + sp->size == S.put && (int)((unsigned)sp->org + sp->size) == S.pc);
	const uint8_t *endp = VH_AT(sp->data, sp->size);
	for (unsigned i = 0; i < k; i++)
		CHECK("section_emit: bytes stored big-endian in order", endp[(int)i - (int)k] == want[i]);
	CHECK("section_emit: a byte not adjoining the span starts a new one, listed once",
		fresh ? (sp != os && vh_appends == 1 && vh_appended == sp && S.spans == &vh_list && sp->size == k && sp->ref == 1 && sp->sequence == seq0) :
		(sp == os && vh_appends == 0 && S.spans == s0.spans && sp->size == o.size + k && sp->ref == o.ref && sp->sequence == o.sequence));
	CHECK("section_emit: an extended span keeps its addresses", fresh || o.size == 0 || (sp->put == o.put && sp->org == o.org));
	CHECK("section_emit: an earlier span is left alone", !fresh || !os || (OLDSPAN.size == o.size && OLDSPAN.data == odata &&
		OLDSPAN.put == o.put && OLDSPAN.org == o.org && OLDSPAN.ref == o.ref && OLDSPAN.sequence == o.sequence));
	if (os && W <= o.size)
		CHECK("section_emit: bytes emitted earlier keep their values", *VH_AT(os->data, o.size - W) == wval);
	CHECK("section_emit: what is recorded as allocated is allocated", sp->allocated == ((fresh || vh_reallocs) ? vh_oldsize : o.allocated));
	CHECK("section_emit: dp, pass and recorded ends unchanged", S.dp == s0.dp && S.pass == s0.pass && S.last_pc == s0.last_pc && S.last_put == s0.last_put && S.line_number == s0.line_number);
	CHECK("section_emit: errors exactly for addresses below 0 or beyond 64K", G.err[4] == VH_PERR(s0.pc, k) && G.err[3] == 0 && G.err[5] == 0 && G.err[6] == 0 && G.err[7] == 0 && G.err[1] == 0 && G.err[2] == 0);
#if VH_WHAT != 5
	COVER("emit");
#endif
}
