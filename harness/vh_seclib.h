/* section.c on its own: contracts of its callees (error, allocator, lists,
 * dictionaries), and the well-formed current section. */
#ifndef VH_SECLIB_H_
#define VH_SECLIB_H_
#define VH_NO_EMIT_CONTRACT
#define cur_section cur_section_unused
#include "vh_emit.h"
#undef cur_section
#include "asm6809.h"
#include "slist.h"
#include "dict.h"
#include "vh_loops.h"

struct vh_ghost G;
struct asm6809_options asm6809_options;

/* The block of a span's data.  In the proof run it may have any size, and only
 * the bytes around the end of the span's data are represented (VH_WIN before,
 * VH_WIN after): the block's address lies `size - VH_WIN' before that window, so
 * that an access anywhere else is out of bounds and fails.  In the bounded run
 * (used when a proof obligation fails without a failing input) and in native
 * replay blocks are real ones. */
#define VH_WIN 4u
static unsigned vh_oldsize;      /* size of the block last allocated */
static unsigned vh_used;         /* bytes in use in it */
static unsigned vh_reallocs;
#ifndef VH_BOUNDED
# define VH_MAXSPAN 0x7fffff00u
#else
# define VH_MAXSPAN 260u
#endif
#if defined(VH_CBMC) && !defined(VH_BOUNDED)
static uint8_t vh_blk0[2 * VH_WIN], vh_blk1[2 * VH_WIN];
# define VH_BLOCK(b, size) ((b) + VH_WIN - (size_t)(size))
#elif defined(VH_CBMC)
static struct { uint8_t b[VH_MAXSPAN + 260]; } vh_blks[2];
# define vh_blk0 vh_blks[0].b
# define vh_blk1 vh_blks[1].b
# define VH_BLOCK(b, size) (b)
#endif
/* the block of the current span, with `used' of `allocated' bytes in use */
static uint8_t *vh_block(unsigned allocated, unsigned used) {
	vh_oldsize = allocated;
	vh_used = used;
	if (allocated == 0) return NULL;
#ifdef VH_CBMC
	return VH_BLOCK(vh_blk0, used);
#else
	return calloc(1, allocated);
#endif
}
void *xrealloc(void *p, size_t n) {
	uint8_t *q;
	vh_reallocs++;
#ifdef VH_CBMC
	ASSERT(vh_reallocs == 1, "xrealloc: once per emission");
	if (!p) vh_used = 0;
	ASSERT(n >= vh_used, "xrealloc: room for what is in use");
# ifdef VH_BOUNDED
	ASSERT(n < sizeof(vh_blk1), "xrealloc: reasonable growth");
	vh_blks[1] = vh_blks[0];
# else
	for (unsigned i = 0; i < VH_WIN; i++) vh_blk1[i] = vh_blk0[i];
# endif
	q = VH_BLOCK(vh_blk1, vh_used);
#else
	q = calloc(1, n ? n : 1);
	ASSUME(q != NULL);
	if (p) memcpy(q, p, n < vh_oldsize ? n : vh_oldsize);
	if (p) free(p);
#endif
	vh_oldsize = n;
	return q;
}
#endif
