/* C15: RZB (and its aliases), FILL and RMB (and ALIGN, see u_align.c), for every
 * count.
 * @function assemble_prog pseudo_rzb pseudo_fill pseudo_rmb pseudo_align have_int_optional have_int_required verify_num_args verify_range
 * @callees section_emit_uint8 section_skip eval_node eval_string eval_int prog_ctx_next_line dict_lookup listing_add_line error
 * @props C15
 * @variant rzb -DVH_OP=rzb -DVH_K=0
 * @variant fzb -DVH_OP=fzb -DVH_K=0
 * @variant zmb -DVH_OP=zmb -DVH_K=0
 * @variant bsz -DVH_OP=bsz -DVH_K=0
 * @variant fill -DVH_OP=fill -DVH_K=1
 * @variant rmb -DVH_OP=rmb -DVH_K=2
 * @exact-bounded
 * @unwind 50
 */
#include "vh.h"
/* Contract of the counting loops, as executable obligations: on the first
 * arrival the invariant is asserted, everything the loop assigns is made
 * arbitrary and the invariant assumed; on the second arrival (after one body
 * from an arbitrary state) it is asserted again and the path ends.
 *   i counts up to count, byte E.w of the i emitted so far is the fill. */
#ifndef VH_BOUNDED
static _Bool vh_loop(long *i, long count, long fill);
#define VH_CNT_INV if (vh_loop(&i, count, fill)) break; else
#define VERIFY_LOOP_rzb VH_CNT_INV
#define VERIFY_LOOP_fill VH_CNT_INV
#define VERIFY_LOOP_align VH_CNT_INV
#endif
#define VH_SMALL 4
#include "vh_asm.h"
static unsigned vh_listed;
void listing_add_line(int pc, int n, struct section_span const *sp, char const *t) { vh_listed++; }
#ifndef VH_BOUNDED
static int vh_arrival;
static long vh_i0; static int vh_pc0;
static _Bool vh_inv(long i, long count, long fill) {
	return i >= 0 && i <= count && E.n == (uint64_t)i && (E.w >= E.n || E.v == (uint8_t)fill) &&
		E.skips == 0 && S.pc == VH_ADD(vh_pc0, i);
}
static _Bool vh_loop(long *i, long count, long fill) {
	if (vh_arrival++ == 0) {
		vh_pc0 = S.pc;
		ASSERT(vh_inv(*i, count, fill), "loop invariant holds initially");
		*i = vh_nd(); E.n = vh_nd(); E.v = vh_nd(); S.pc = vh_nd(); S.put = vh_nd();
		ASSUME(vh_inv(*i, count, fill));
		vh_i0 = *i;
		return *i >= count;
	}
	ASSERT(vh_inv(*i, count, fill) && *i > vh_i0, "loop invariant is preserved, progress is made");
	ASSUME(0);
	return 1;
}
#endif
#include "slist.c"
#include "assemble.c"
#define STR2(x) #x
#define STR(x) STR2(x)
/* arguments: type 0 none, 1 empty, 2 int, 3 float, 4 register, 5 string */
static struct node vh_anode[3];
static struct node *av[3];
static int64_t val[3];
static _Bool vh_bad[3];
static void mk(int i, int t, int64_t dflt) {
	struct node *n = &vh_anode[i];
	av[i] = n;
	val[i] = 0;
	vh_bad[i] = 0;
	switch (t) {
	case 0: av[i] = NULL; val[i] = dflt; break;
	case 1: *n = (struct node){ .type = node_type_empty, .ref = 5, .attr = node_attr_none, .data = { .as_int = 0 } }; break;
	case 2: *n = (struct node){ .type = node_type_int, .ref = 5, .attr = node_attr_none, .data = { .as_int = val[i] = vh_value() } }; break;
	case 3: {
		double d = vh_fvalue();
		*n = (struct node){ .type = node_type_float, .ref = 5, .attr = node_attr_none, .data = { .as_float = d } };
		val[i] = (int64_t)d; break; }
	case 4: *n = (struct node){ .type = node_type_reg, .ref = 5, .attr = node_attr_none, .data = { .as_reg = REG_D } }; vh_bad[i] = 1; break;
	default:
		*n = (struct node){ .type = node_type_string, .ref = 5, .attr = node_attr_none, .data = { .as_string = "x" } }; vh_bad[i] = 1; break;
	}
}
static void one(int n, int t0, int t1) {
	vh_asm_init();
	assemble_init();
	mk(0, t0, 0); mk(1, t1, 0); mk(2, 2, 0);
	if (VH_K == 3) { S.pc = vh_range(0, 0x10000); S.pc &= 0x1ffff; }
	int cn = VH_K == 1 ? 1 : 0, fn = VH_K == 1 ? 0 : 1;
	vh_opname = (struct node){ .type = node_type_string, .ref = 5, .attr = node_attr_none, .data = { .as_string = STR(VH_OP) } };
	vh_argsnode = (struct node){ .type = node_type_array, .ref = 5, .attr = node_attr_none, .data = { .as_array = { .nargs = n, .args = av } } };
	vh_line[0] = (struct prog_line){ .ref = 1, .label = NULL, .opcode = &vh_opname, .args = n ? &vh_argsnode : NULL, .text = "" };
	vh_lines = 1;
	vh_listed = 0;
	int pc0 = S.pc; unsigned put0 = S.put;
	int64_t count = n > cn ? val[cn] : 0;
	uint8_t fill = n > fn ? val[fn] : 0;
	_Bool bad = n < 1 || n > 2 || (VH_K == 1 && n < 2) || (VH_K == 2 && n > 1);
	if (n > 0 && vh_bad[0]) bad = 1;
	if (n > 1 && vh_bad[1]) bad = 1;
	int64_t align = count;
#ifndef VH_BOUNDED
	vh_arrival = 0;
#endif
	assemble_prog(&vh_prog, 1);
	if (bad) {
		CHECK("fill: missing, surplus or wrongly typed arguments are an error", VH_SYNTAX);
		if (t0 == 4) COVER("bad");
		return;
	}
	if (VH_K == 3 ? count < 1 : count < 0) {
		CHECK("fill: negative counts are an error", G.err[error_type_out_of_range] > 0 && E.n == 0 && E.skipped == 0);
		if (t0 == 2 && t1 == 2) COVER("negative");
		return;
	}
	if (VH_K >= 2 && count > INT_MAX) {
		CHECK("fill: beyond the range of addresses is an error", !VH_NOERR && E.n == 0 && E.skipped == 0);
		return;
	}
	CHECK("fill: no error for valid arguments", VH_NOERR && G.perr == 0);
	CHECK("fill: listed once", vh_listed == 1);
	_Bool reserve = VH_K == 2 || (VH_K == 3 && n < 2);
	uint64_t cnt = reserve ? E.skipped : E.n;
	if (VH_K == 3) {
		int64_t past = (int64_t)pc0 % align; /* beyond the previous multiple */
		CHECK("ALIGN: the next multiple", cnt == (past ? align - past : 0));
#if VH_K == 3
		if (cnt == 2) COVER("aligned");
#endif
	} else {
		CHECK("fill: exactly the count", cnt == count);
	}
	if (reserve) {
		CHECK("RMB: reserved, not emitted", E.n == 0 && (E.skips == 1 || cnt == 0));
	} else {
		CHECK("fill: emitted, not reserved", E.skips == 0 && S.pc == VH_ADD(pc0, cnt));
		if (E.w < cnt) {
			CHECK("fill: every byte the fill value", E.v == fill);
#if VH_K < 2 || (VH_K == 3 && VH_S == 1)
			if (t0 == 2 && t1 == 2) COVER("byte");
#endif
		}
	}
	for (int i = 0; i < n; i++) CHECK("fill: arguments keep their references", !av[i] || av[i]->ref == 5);
}
void vh_main(void) {
	one(0, 0, 0);
	one(3, 2, 2);
#ifdef VH_S
	/* arguments in separate runs: the division is expensive */
	one(VH_S == 0 ? 1 : 2, 2, 2);
	one(1, 4, 0);
	if (VH_S == 0) {
		one(1, 0, 2); one(1, 1, 2); one(1, 5, 2);
		one(2, 4, 2); one(2, 2, 4); one(2, 2, 5);
	}
#else
	for (int t = 0; t < 6; t++) {
		one(1, t, 2);
		one(2, t, 2);
		one(2, 2, t);
	}
#endif
}
