/* C21, C18: one line of source, of every kind: what the listing is told of it,
 * and how macro calls and inclusions nest, from every depth and for every limit.
 * (u_cond, and through it u_data and others, decide what each line assembles.)
 * @function assemble_prog pseudo_equ pseudo_set pseudo_org pseudo_put pseudo_setdp pseudo_include pseudo_nop set_label
 * @callees eval_node eval_string eval_int prog_ctx_next_line prog_ctx_end prog_ctx_new prog_ctx_free prog_new_file prog_macro_by_name interp_push interp_pop dict_lookup listing_add_line symbol_set instr_inherent section_emit error
 * @props C18 C21
 * @variant empty -DVH_K=0 -DVH_OP=nop
 * @variant label -DVH_K=1 -DVH_OP=nop
 * @variant fcb -DVH_K=2 -DVH_OP=fcb
 * @variant fdb -DVH_K=2 -DVH_OP=fdb
 * @variant fqb -DVH_K=2 -DVH_OP=fqb
 * @variant rmb -DVH_K=3 -DVH_OP=rmb
 * @variant instr -DVH_K=4 -DVH_OP=myop
 * @variant macro -DVH_K=5 -DVH_OP=mymac
 * @variant include -DVH_K=6 -DVH_OP=include
 * @variant equ -DVH_K=7 -DVH_OP=equ
 * @variant set -DVH_K=7 -DVH_OP=set
 * @variant org -DVH_K=7 -DVH_OP=org
 * @variant put -DVH_K=7 -DVH_OP=put
 * @variant setdp -DVH_K=7 -DVH_OP=setdp
 * @variant opt -DVH_K=8 -DVH_OP=opt
 * @variant page -DVH_K=8 -DVH_OP=page
 * @unwind 60
 */
#define VH_OWN_PROG
static void vh_span1(void);
#define VH_SPAN1 vh_span1();
#include "vh_asm.h"
#define SN2(x) #x
#define SN(x) SN2(x)

/* section_emit by contract (u_section_emit): where a byte goes */
static struct section_span span0, span1; static unsigned nnew;
static void vh_span1(void) {
	struct section_span *s = S.span;
	if (!s || S.put != s->put + s->size || S.pc != (int)((unsigned)s->org + s->size)) {
		if (!s || s->size) {
			ASSERT(nnew == 0, "bytes of one line are consecutive");
			nnew++; span1 = (struct section_span){ .ref = 1 }; s = &span1;
		}
		s->org = S.pc; s->put = S.put;
	}
	s->size++;
	S.span = s;
}
/* what the listing is told */
static unsigned listed; static int l_pc, l_n; static struct section_span const *l_span; static char const *l_text;
static char t_outer[2] = "o", t_inner[2] = "i"; static unsigned listed_inner, order;
static unsigned innersteps, outer_seq, inner_seq;
void listing_add_line(int pc, int n, struct section_span const *sp, char const *t) {
	if (t == t_inner) { listed_inner++; inner_seq = ++order; return; }
	listed++; l_pc = pc; l_n = n; l_span = sp; l_text = t; outer_seq = ++order;
}
static unsigned sets;
void symbol_set(const char *k, struct node *v, _Bool c, unsigned p) { sets++; }
void symbol_local_set(struct dict *d, intmax_t k, unsigned l, struct node *v, unsigned p) { sets++; }
_Bool symbol_ignore_undefined;
/* programs: P with one line, Q (macro or file) with one */
static struct prog P, Q; static struct prog_ctx CP, CQ;
static struct prog_line LP, LQ; static unsigned atp, atq, ctxp, ctxq, freedq;
static unsigned depth_p, depth_q, *depthp;
static unsigned pushes, pops; static struct node *pushed;
struct prog_ctx *prog_ctx_new(struct prog *p) {
	if (p == &P) { ASSERT(!ctxp, "once"); ctxp++; depth_p = *depthp; return &CP; }
	ASSERT(p == &Q && !ctxq, "of the macro or file named"); ctxq++; depth_q = *depthp; return &CQ;
}
void prog_ctx_free(struct prog_ctx *c) { if (c == &CP) ctxp--; else { ASSERT(c == &CQ && ctxq == 1, "prog_ctx_free: the current context"); ctxq--; freedq++; } }
_Bool prog_ctx_end(struct prog_ctx *c) { return c == &CP ? atp : atq; }
struct prog_line *prog_ctx_next_line(struct prog_ctx *c) {
	if (c == &CP) { atp++; return &LP; }
	atq++;
	if (VH_K == 5) CHECK("macro: expanded with its arguments", pushes == 1 && pops == 0 && pushed == LP.args);
	innersteps++;
	return &LQ;
}
struct prog *prog_macro_by_name(const char *n) { return VH_K == 5 && c_strcasecmp(n, "mymac") == 0 ? &Q : NULL; }
struct prog *prog_new_file(const char *n) { return VH_K == 6 && n[0] == 'f' ? &Q : NULL; }
void interp_push(struct node *a) { pushes++; pushed = a; }
void interp_pop(void) { ASSERT(pushes == 1 && ctxq == 0, "the expansion is over"); pops++; }
static struct opcode op = { .op = "myop", .type = OPCODE_INHERENT, .immediate = 0x12 };
struct opcode const *opcode_by_name(const char *n) { return VH_K == 4 && c_strcasecmp(n, "myop") == 0 ? &op : NULL; }
static unsigned ni;
void instr_inherent(struct opcode const *o, struct node const *a) { for (unsigned i = 0; i < 4; i++) if (i < ni) section_emit_uint8(0x12); }
#include "slist.c"
#define free vh_ffree
static void vh_ffree(void *p) { }
#include "assemble.c"
#undef free
static struct node lab = { .type = node_type_string, .ref = 9, .data = { .as_string = "l" } };
static struct node opn, opq, arg, argq, a0, a1; static struct node *av[2], *aq[1];
void vh_main(void) {
	vh_asm_init();
	assemble_init();
	depthp = &prog_depth;
	unsigned d0 = vh_range(0, UINT32_MAX), max = vh_range(0, UINT32_MAX);
#ifndef VH_CBMC
	if (vh_flag()) { max = vh_range(0, 9); d0 = vh_range(0, 9); }
#endif
	ASSUME(d0 <= max); /* invariant of the depth */
	prog_depth = d0; asm6809_options.max_program_depth = max;
	defining_macro_level = 0; defining_macro_ctx = NULL;
	/* a section somewhere */
	S.pc = vh_range(0, 0xffff); S.put = vh_range(0, 0xffff);
	nnew = 0; span0 = (struct section_span){ .ref = 1 };
	span0.org = vh_range(0, 0xffff); span0.put = vh_range(0, 0xffff); span0.size = vh_range(0, 0x10000);
	if (vh_flag()) { span0.org = (int)(S.pc - span0.size); span0.put = S.put - span0.size; }
	S.span = vh_flag() ? &span0 : NULL;
	int pc0 = S.pc; unsigned size0 = span0.size;
	ni = vh_range(1, 4);
	listed = listed_inner = sets = order = atp = atq = ctxp = ctxq = freedq = pushes = pops = innersteps = outer_seq = inner_seq = depth_p = depth_q = 0; pushed = NULL;
	opn = (struct node){ .type = node_type_string, .ref = 9, .data = { .as_string = SN(VH_OP) } };
	opq = (struct node){ .type = node_type_string, .ref = 9, .data = { .as_string = "fcb" } };
	a0 = (struct node){ .type = node_type_int, .ref = 9, .data = { .as_int = vh_nd() } };
	a1 = (struct node){ .type = node_type_int, .ref = 9, .data = { .as_int = 7 } };
	if (VH_K == 6) a0 = (struct node){ .type = node_type_string, .ref = 9, .data = { .as_string = "f" } };
	if (VH_K == 3 || VH_K == 7) ASSUME(a0.data.as_int >= 0 && a0.data.as_int <= 0xffff);
	av[0] = &a0; av[1] = &a1; aq[0] = &a1;
	int nargs = VH_K == 2 ? vh_range(1, 2) : 1;
	arg = (struct node){ .type = node_type_array, .ref = 9, .data = { .as_array = { .nargs = nargs, .args = av } } };
	argq = (struct node){ .type = node_type_array, .ref = 9, .data = { .as_array = { .nargs = 1, .args = aq } } };
	_Bool haslab = vh_flag();
	LP = (struct prog_line){ .ref = 1, .label = VH_K == 1 || (VH_K > 1 && haslab && VH_K != 6) || VH_K == 7 ? &lab : NULL, .opcode = VH_K > 1 ? &opn : NULL,
		.args = VH_K == 4 || VH_K == 8 || VH_K < 2 ? NULL : VH_K == 5 && vh_flag() ? NULL : &arg, .text = t_outer };
	LQ = (struct prog_line){ .ref = 1, .opcode = &opq, .args = &argq, .text = t_inner };
	unsigned pass = vh_range(0, 255);
	assemble_prog(&P, pass);
	CHECK("depth: restored afterwards", prog_depth == d0 && ctxp == 0 && ctxq == 0);
	if (d0 >= max) {
		CHECK("depth: beyond the limit assembly fails with an error", G.err[error_type_fatal] == 1 && atp == 0 && listed == 0 && order == 0 && E.n == 0);
		COVER("too deep");
		return;
	}
	CHECK("depth: counted", depth_p == d0 + 1 && atp == 1);
	CHECK("listing: the line appears once, with its text", listed == 1 && l_text == t_outer);
	if (VH_K == 5 || VH_K == 6) {
		if (d0 + 1 >= max) {
			CHECK("depth: nesting beyond the limit fails with an error", G.err[error_type_fatal] == 1 && innersteps == 0 && E.n == 0 && listed_inner == 0);
#if VH_K == 5 || VH_K == 6
			COVER("nested too deep");
#endif
		} else {
			CHECK("depth: nesting within the limit is no error", VH_NOERR && innersteps == 1 && depth_q == d0 + 2 && freedq == 1);
			CHECK("nesting: assembled once, in place", E.n == 1 && (E.w != 0 || E.v == 7) && S.pc == pc0 + 1);
			CHECK("listing: lines of what is included or expanded follow its own", listed_inner == 1 && inner_seq > outer_seq);
#if VH_K == 5 || VH_K == 6
			COVER("nested");
#endif
		}
		if (VH_K == 5) CHECK("macro: arguments pushed and popped once", pushes == 1 && pops == 1); else CHECK("include: positional variables unchanged", pushes == 0 && pops == 0);
	} else {
		CHECK("line: no error", VH_NOERR);
		CHECK("line: does not nest", innersteps == 0 && pushes == 0);
	}
#if VH_K == 2 || VH_K == 4
	int n = VH_K == 4 ? ni : nargs * (SN(VH_OP)[1] == 'c' ? 1 : SN(VH_OP)[1] == 'd' ? 2 : 4);
	CHECK("listing: address of the bytes", l_pc >= 0 && (l_pc & 0xffff) == pc0);
	CHECK("listing: exactly the bytes produced", l_n == n && E.n == n && l_span && l_span == S.span && l_span->size == (l_span == &span0 && !(nnew || size0 == 0) ? size0 + n : n) && l_span->org + l_span->size - n == pc0);
	if (nnew) COVER("new span"); else COVER("continued");
#else
	CHECK("listing: no bytes of a line that produced none", l_n <= 0 || !l_span);
	if (d0 == 3 && max == 8) COVER("no bytes");
#endif
	if (VH_K == 1) CHECK("listing: label", sets == 1);
}
