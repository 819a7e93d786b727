/* Common part of every harness: contract macros, symbolic inputs, ghost state.
 *
 * See below for the ways a harness is compiled.
 */
#ifndef VH_H_
#define VH_H_

#include "config.h"
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

/* Three ways to compile a harness:
 *   dfcc     VH_CBMC: contracts below are enforced/replaced by
 *            goto-instrument --dfcc.
 *   modular  VH_CBMC + VH_MODULAR: vh_main() establishes the precondition over
 *            fully symbolic arguments, calls the function under contract and
 *            asserts each postcondition (CHECK); callees are their contracts
 *            in executable form (which assert the callee's precondition).
 *   native   VH_NATIVE: replay. */
#if defined(VH_CBMC) && !defined(VH_MODULAR)
# define REQUIRES(...) __CPROVER_requires(__VA_ARGS__)
# define ENSURES(...)  __CPROVER_ensures(__VA_ARGS__)
# define ASSIGNS(...)  __CPROVER_assigns(__VA_ARGS__)
# define FREES(...)    __CPROVER_frees(__VA_ARGS__)
#else
# define REQUIRES(...)
# define ENSURES(...)
# define ASSIGNS(...)
# define FREES(...)
# define VH_EXEC
#endif

#ifdef VH_CBMC
# define OLD(x)        __CPROVER_old(x)
# define RET           __CPROVER_return_value
# define ASSUME(c)     __CPROVER_assume(c)
/* Reachability probe: an assertion that must FAIL (checked by the driver), so
 * that a contradictory precondition cannot pass as a proof. */
# define COVER(tag)    __CPROVER_assert(0, "VH_COVER " tag)
/* Explicit assertion, in every mode. */
# define ASSERT(c, tag) __CPROVER_assert((c), "VH_ASSERT " tag)
/* Postcondition; in dfcc mode the ENSURES clause stands for it. */
# ifdef VH_MODULAR
#  define CHECK(name, c) __CPROVER_assert((c), "VH_POST " name)
# else
#  define CHECK(name, c) ((void)0)
# endif
int64_t nondet_i64(void);
double nondet_double(void);
_Bool nondet_bool(void);
/* Every symbolic input goes through vh_nd(): the driver reads the values of
 * `vh_ndv' off the trace, in order. */
int64_t vh_ndv;
static int64_t vh_nd(void) { int64_t v = nondet_i64(); vh_ndv = v; return v; }
static void vh_nd_record(int64_t v) { vh_ndv = v; }
# define VH_SAY(...)
#else
int vh_failed;
static void vh_check(const char *name, int c) {
	if (!c) { printf("FAILED %s\n", name); vh_failed = 1; }
}
# define ASSUME(c)     do { if (!(c)) { printf("OUTSIDE-PRECONDITION %s\n", #c); exit(vh_failed ? 1 : 77); } } while (0)
# define CHECK(name, c) vh_check(name, !!(c))
# define COVER(tag)    ((void)0)
# define ASSERT(c, tag) vh_check(tag, !!(c))
static uint64_t vh_rng;
static uint64_t vh_rand(void) { vh_rng ^= vh_rng << 13; vh_rng ^= vh_rng >> 7; vh_rng ^= vh_rng << 17; return vh_rng * 2685821657736338717u; }
static int vh_random(void) {
	static int m = -1;
	if (m < 0) {
		char *e = getenv("VH_RANDOM");
		m = e != NULL;
		if (m) { vh_rng = strtoull(e, NULL, 0) * 0x9e3779b97f4a7c15u + 88172645463325252u; for (int i = 0; i < 8; i++) vh_rand(); }
	}
	return m;
}
static int64_t vh_nd(void) {
	static char *p;
	if (vh_random()) {
		static const int64_t e[] = { 0, 1, -1, 2, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536, 0x7fffffff, -0x80000000LL };
		uint64_t r = vh_rand();
		switch (r & 3) {
		case 0: return e[(r >> 8) % 18] + ((r >> 2 & 3) ? 0 : (int64_t)(r >> 40) % 5 - 2);
		case 1: return (int64_t)(r >> 8) % 600 - 300;
		case 2: return (int64_t)(r >> 8) % 140000 - 70000;
		default: return (int64_t)vh_rand() >> (r >> 8 & 63);
		}
	}
	if (!p) { p = getenv("VH_REPLAY"); if (!p) p = ""; }
	char *e;
	long long v = strtoll(p, &e, 0);
	if (e == p) { return 0; }
	p = e;
	return v;
}
# define __CPROVER_assume(c) ASSUME(c)
# define VH_SAY(...) __VA_ARGS__
void vh_main(void);
int main(void) { vh_main(); printf(vh_failed ? "violated\n" : "held\n"); return vh_failed; }
#endif
/* gnulib's allocator: malloc() that exits instead of returning NULL */
#ifndef VH_NO_XALLOC
void *xmalloc(size_t s) { void *p = malloc(s); ASSUME(p != NULL); return p; }
#endif

static inline int64_t vh_range(int64_t lo, int64_t hi) {
	int64_t v = vh_nd();
#ifndef VH_CBMC
	if (vh_random() && (v < lo || v > hi)) v = lo + (int64_t)(vh_rand() % ((uint64_t)hi - (uint64_t)lo + 1 ? (uint64_t)hi - (uint64_t)lo + 1 : 1));
#endif
	ASSUME(v >= lo && v <= hi);
	return v;
}
static inline _Bool vh_flag(void) { return vh_range(0, 1); }

/* ---- ghost state ------------------------------------------------------- */

/* What has been emitted (log of bytes, in order) and which errors have been
 * raised.  Updated only by the contracts of section_emit_*() and error(). */
struct vh_ghost {
	unsigned n;          /* bytes emitted so far */
	uint8_t b[16];       /* byte number i is in b[i % 16], for the last 16 */
	unsigned err[8];     /* errors raised, by type */
	unsigned perr;       /* out-of-range errors raised by emission itself */
	unsigned skips;      /* calls of section_skip() */
	int skipped;         /* last argument of section_skip() */
};
extern struct vh_ghost G;

/* Harnesses start from an empty log and no errors: every vh_main() sets G
 * itself (goto-instrument makes statics arbitrary). */
#define VH_G_FRESH (G.n == 0 && G.err[0] == 0 && G.err[1] == 0 && G.err[2] == 0 && G.err[3] == 0 && \
	G.err[4] == 0 && G.err[5] == 0 && G.err[6] == 0 && G.err[7] == 0 && G.perr == 0 && G.skips == 0)
/* no error that makes assembly fail or repeat (warnings allowed) */
#define VH_NOFAIL (G.err[3] == 0 && G.err[4] == 0 && G.err[5] == 0 && G.err[6] == 0 && G.err[7] == 0)
#define VH_NOERR (G.err[1] == 0 && G.err[2] == 0 && VH_NOFAIL)
#define VH_SYNTAX (G.err[error_type_syntax] > 0)

#endif
