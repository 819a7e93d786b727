/* Contracts of the emission interface of section.c and of error(), in terms of
 * the ghost log.  Callers are verified against these (replaced) contracts; the
 * units u_section_*.c and u_error*.c enforce the same contracts on the real
 * bodies. */
#ifndef VH_EMIT_H_
#define VH_EMIT_H_

#include "vh.h"
#include "error.h"
#include "section.h"

/* Emission at address a of k bytes raises one placement error per bound
 * violated. */
#define VH_PERR(oldpc, k) (((oldpc) < 0 ? 1u : 0u) + ((oldpc) > 0x10000 - (int)(k) ? 1u : 0u))
#define VH_ADD(pc, k) ((int)((unsigned)(pc) + (unsigned)(k)))
#define VH_ADV(k) (cur_section->pc == VH_ADD(OLD(cur_section->pc), k) && \
	cur_section->put == OLD(cur_section->put) + (unsigned)(k) && \
	G.n == OLD(G.n) + (unsigned)(k) && \
	G.perr == OLD(G.perr) + VH_PERR(OLD(cur_section->pc), k))
#define VH_LOG(i) (G.b[(G.n - (i)) & 15])   /* i-th last byte */
#define VH_SLOT(i) G.b[(G.n + (i)) & 15]

#ifndef VH_NO_ERROR_CONTRACT
void error(enum error_type type, const char *fmt, ...)
REQUIRES(type >= error_type_none && type <= error_type_fatal)
ASSIGNS(G.err[type])
ENSURES(G.err[type] == OLD(G.err[type]) + 1u)
;
#endif

#ifndef VH_NO_EMIT_CONTRACT
void section_emit_op(uint16_t op)
REQUIRES(cur_section != NULL)
ASSIGNS(G.n, G.perr, VH_SLOT(0), VH_SLOT(1), cur_section->pc, cur_section->put)
ENSURES(VH_ADV((op >> 8) ? 2 : 1))
ENSURES(VH_LOG(1) == (op & 0xff))
ENSURES((op >> 8) == 0 || VH_LOG(2) == (op >> 8))
;

void section_emit_uint8(uint8_t v)
REQUIRES(cur_section != NULL)
ASSIGNS(G.n, G.perr, VH_SLOT(0), cur_section->pc, cur_section->put)
ENSURES(VH_ADV(1))
ENSURES(VH_LOG(1) == v)
;

void section_emit_uint16(uint16_t v)
REQUIRES(cur_section != NULL)
ASSIGNS(G.n, G.perr, VH_SLOT(0), VH_SLOT(1), cur_section->pc, cur_section->put)
ENSURES(VH_ADV(2))
ENSURES(VH_LOG(2) == (v >> 8) && VH_LOG(1) == (v & 0xff))
;

void section_emit_uint32(uint32_t v)
REQUIRES(cur_section != NULL)
ASSIGNS(G.n, G.perr, VH_SLOT(0), VH_SLOT(1), VH_SLOT(2), VH_SLOT(3), cur_section->pc, cur_section->put)
ENSURES(VH_ADV(4))
ENSURES(VH_LOG(4) == (v >> 24) && VH_LOG(3) == ((v >> 16) & 0xff) &&
	VH_LOG(2) == ((v >> 8) & 0xff) && VH_LOG(1) == (v & 0xff))
;

/* only ever called with 1 or 2 */
void section_emit_pad(int nbytes)
REQUIRES(cur_section != NULL && (nbytes == 1 || nbytes == 2))
ASSIGNS(G.n, G.perr, VH_SLOT(0), VH_SLOT(1), cur_section->pc, cur_section->put)
ENSURES(VH_ADV(nbytes))
ENSURES(VH_LOG(1) == 0 && (nbytes == 1 || VH_LOG(2) == 0))
;

void section_skip(int nbytes)
REQUIRES(cur_section != NULL)
ASSIGNS(G.skips, G.skipped, cur_section->pc, cur_section->put)
ENSURES(cur_section->pc == VH_ADD(OLD(cur_section->pc), nbytes) &&
	cur_section->put == OLD(cur_section->put) + (unsigned)nbytes &&
	G.skips == OLD(G.skips) + 1u && G.skipped == nbytes)
;
#endif

#ifdef VH_EXEC
/* Executable form of the contracts above, for replay of callers. */
#ifndef VH_NO_ERROR_CONTRACT
#include <stdarg.h>
void error(enum error_type type, const char *fmt, ...) {
	ASSERT(type >= error_type_none && type <= error_type_fatal, "error() called with an error type");
	G.err[type]++;
	VH_SAY(if (fmt) { va_list ap; va_start(ap, fmt); printf("  error(type %d): ", type); vprintf(fmt, ap); printf("\n"); va_end(ap); })
}
#endif
#ifndef VH_NO_EMIT_CONTRACT
static void vh_put(const uint8_t *b, int k) {
	ASSERT(cur_section != NULL, "emission into a section");
	int o = cur_section->pc;
	for (int i = 0; i < k; i++) { G.b[(G.n + i) & 15] = b[i]; VH_SAY(printf("  emit %02X\n", b[i]);) }
	G.n += k;
	cur_section->pc = VH_ADD(o, k);
	cur_section->put += k;
	G.perr += VH_PERR(o, k);
}
void section_emit_op(uint16_t op) { uint8_t b[2] = { op >> 8, op }; if (b[0]) vh_put(b, 2); else vh_put(b + 1, 1); }
void section_emit_uint8(uint8_t v) { vh_put(&v, 1); }
void section_emit_uint16(uint16_t v) { uint8_t b[2] = { v >> 8, v }; vh_put(b, 2); }
void section_emit_uint32(uint32_t v) { uint8_t b[4] = { v >> 24, v >> 16, v >> 8, v }; vh_put(b, 4); }
void section_emit_pad(int n) { uint8_t b[2] = {0,0}; vh_put(b, n); }
void section_skip(int n) { G.skips++; G.skipped = n; cur_section->pc = VH_ADD(cur_section->pc, n); cur_section->put += n; }
#endif
#endif

#endif
