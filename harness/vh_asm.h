/* assemble.c, entered through assemble_prog() on a program of given lines; all
 * other modules by contract.
 *
 * Lines carry evaluated fields: eval_node() of an evaluated value is a new
 * reference to it (C19). */
#ifndef VH_ASM_H_
#define VH_ASM_H_
#include "vh.h"
#define VH_NO_EMIT_CONTRACT
#include "vh_emit.h"
#include "asm6809.h"
#include "assemble.h"
#include "node.h"
#include "slist.h"
#include "dict.h"
#include "opcode.h"
#include "program.h"
#include "interp.h"
#include "instr.h"
#include "listing.h"
#include "symbol.h"
#include "eval.h"
#include "section.h"
#include "c-strcase.h"

struct vh_ghost G;
struct section *cur_section;
struct asm6809_options asm6809_options;
static struct section S;

/* --- emission: byte number E.w of everything emitted, and how much -------- */
static struct { uint64_t n; uint64_t w; uint8_t v; uint64_t skips; int64_t skipped; } E;
#ifndef VH_SPAN1
# define VH_SPAN1
#endif
static void vh_e1(uint8_t v) { VH_SPAN1 if (E.n == E.w) E.v = v; E.n++; S.pc = VH_ADD(S.pc, 1); S.put += 1u; }
void section_emit_uint8(uint8_t v) { VH_SAY(printf("  emit %02X\n", v);) vh_e1(v); }
void section_emit_uint16(uint16_t v) { VH_SAY(printf("  emit %04X\n", v);) vh_e1(v >> 8); vh_e1(v); }
void section_emit_uint32(uint32_t v) { VH_SAY(printf("  emit %08X\n", v);) vh_e1(v >> 24); vh_e1(v >> 16); vh_e1(v >> 8); vh_e1(v); }
void section_emit_pad(int n) { ASSERT(n == 1 || n == 2, "section_emit_pad: one or two bytes"); VH_SAY(printf("  pad %d\n", n);) vh_e1(0); if (n > 1) vh_e1(0); }
void section_skip(int n) { VH_SAY(printf("  skip %d\n", n);) E.skips++; E.skipped += n; S.pc = VH_ADD(S.pc, n); S.put += (unsigned)n; }

/* --- nodes ---------------------------------------------------------------- */
static unsigned vh_badfree;
void node_free(struct node *n) {
	if (!n) return;
	ASSERT(n->ref >= 1, "node_free() of a referenced node");
	n->ref--;
}
struct node *node_ref(struct node *n) { if (n) n->ref++; return n; }
int node_array_count(struct node const *n) { return n && n->type == node_type_array ? n->data.as_array.nargs : 0; }
struct node **node_array_of(struct node const *n) { return n && n->type == node_type_array ? n->data.as_array.args : NULL; }
#define VH_NPOOL 16
static struct node vh_pool[VH_NPOOL];
static unsigned vh_npool;
struct node *node_new_int(int64_t v) {
	ASSERT(vh_npool < VH_NPOOL, "harness: node pool");
	struct node *n = &vh_pool[vh_npool++];
	*n = (struct node){ .type = node_type_int, .ref = 1, .attr = node_attr_none, .data = { .as_int = v } };
	return n;
}
#ifndef VH_OWN_EVAL
struct node *eval_node(struct node *n) { return node_ref(n); }
struct node *eval_string(struct node *n) { return n && n->type == node_type_string ? node_ref(n) : NULL; }
#endif
struct node *eval_int(struct node *n) {
	if (!n) return NULL;
	struct node *r;
	switch (n->type) {
	case node_type_int: return node_ref(n);
	case node_type_float: r = node_new_int(n->data.as_float); r->attr = n->attr; return r;
	case node_type_string: {
		uint32_t v = 0;
		for (const char *s = n->data.as_string; *s; s++) v = (v << 8) | (uint8_t)*s;
		r = node_new_int(v); r->attr = n->attr; return r; }
	default: return NULL;
	}
}
struct node *eval_int_free(struct node *n) { struct node *r = eval_int(n); node_free(n); return r; }

/* values of arguments (small ones where loops depend on them) */
static int64_t vh_value(void) {
#if defined(VH_BOUNDED) && defined(VH_SMALL)
	return vh_range(-2, VH_SMALL);
#else
	return vh_nd();
#endif
}
static double vh_fvalue(void) {
#ifdef VH_BOUNDED
	return vh_range(-4, 2 * 3 + 1) * 0.5;
#else
	union { int64_t i; double d; } u; u.i = vh_nd();
	ASSUME(u.d > -9e18 && u.d < 9e18);
	return u.d;
#endif
}

/* --- the program ----------------------------------------------------------- */
#ifndef VH_OWN_PROG
# define VH_MAXLINES 8
static struct prog vh_prog;
static struct prog_ctx vh_ctx;
static struct prog_line vh_line[VH_MAXLINES];
static unsigned vh_lines, vh_at, vh_ctxs;
struct prog_ctx *prog_ctx_new(struct prog *p) { ASSERT(p == &vh_prog && vh_ctxs == 0, "prog_ctx_new: of the program"); vh_ctxs++; vh_at = 0; return &vh_ctx; }
void prog_ctx_free(struct prog_ctx *c) { ASSERT(c == &vh_ctx && vh_ctxs == 1, "prog_ctx_free: the current context"); vh_ctxs--; }
_Bool prog_ctx_end(struct prog_ctx *c) { return vh_at >= vh_lines; }
struct prog_line *prog_ctx_next_line(struct prog_ctx *c) { ASSERT(vh_at < vh_lines, "prog_ctx_next_line: there is one"); return &vh_line[vh_at++]; }
#endif

/* --- names: constant strings ------------------------------------------------ */
static int vh_low(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int c_strcasecmp(const char *a, const char *b) {
	for (;; a++, b++) { int d = vh_low((unsigned char)*a) - vh_low((unsigned char)*b); if (d || !*a) return d; }
}
/* dict by contract (u_dict): the tables of pseudo operations, which are
 * distinguished by the first dict_new(), the second, ... */
static struct { const char *k; void *v; int d; } vh_tab[64];
static int vh_ntab, vh_ndict; /* filled once, by assemble_init() */
static char vh_dicts[8];
struct dict *dict_new(Hash_hasher h, Hash_comparator c) { ASSERT(vh_ndict < 8, "dict_new"); return (struct dict *)&vh_dicts[vh_ndict++]; }
void dict_insert(struct dict *d, void *k, void *v) {
	ASSERT(vh_ntab < 64, "dict_insert: room");
	vh_tab[vh_ntab].k = k; vh_tab[vh_ntab].v = v; vh_tab[vh_ntab].d = (char *)d - vh_dicts; vh_ntab++;
}
void *dict_lookup(struct dict *d, const void *k) {
	void *r = NULL;
	int id = (char *)d - vh_dicts;
	for (int i = 0; i < vh_ntab; i++) if (vh_tab[i].d == id && c_strcasecmp(vh_tab[i].k, k) == 0) r = vh_tab[i].v;
	return r;
}
void dict_destroy(struct dict *d) { }
size_t hash_djb2_case(const void *k, size_t m) { return 0; }
bool dict_str_equal_case(const void *a, const void *b) { return c_strcasecmp(a, b) == 0; }

static struct node vh_opname, vh_argsnode;
static void vh_asm_init(void) {
	G = (struct vh_ghost){0};
	S = (struct section){0};
	E.n = E.skips = 0; E.skipped = 0; E.v = 0;
#ifdef VH_BOUNDED
	E.w = vh_range(0, 15);
#else
	E.w = vh_range(0, INT64_MAX);
#endif
	vh_npool = 0;
	if (!vh_ndict) vh_ntab = 0;
	cur_section = &S;
#ifdef VH_BOUNDED
	S.pc = vh_range(-16, 0x10010);
#else
	S.pc = vh_range(INT32_MIN, INT32_MAX);
#endif
	S.put = vh_range(0, UINT32_MAX);
	asm6809_options.max_program_depth = 8;
#ifndef VH_OWN_PROG
	vh_lines = vh_at = vh_ctxs = 0;
#endif
}
#include "vh_loops.h"
#endif
