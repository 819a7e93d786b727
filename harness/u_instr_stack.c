/* C05: push and pull register lists.
 * @function instr_stack
 * @callees error section_emit_op section_emit_uint8
 * @props C05
 * @exact-bounded
 * @bounded-unwind 12
 */
/* The loop over the list, as executable obligations: on the first arrival the
 * invariant is asserted, then i becomes any entry, the postbyte so far any (the
 * registers named before i, all stackable), and the entry at i any; on the
 * second arrival it is asserted again and the path ends. */
#include "vh.h"
#include "node.h"
#ifndef VH_BOUNDED
static _Bool vh_stack(int *i, int n, int *pbyte, struct node **a);
#define VERIFY_LOOP_stack if (vh_stack(&i, nargs, &pbyte, arga)) break;
#endif
#include "vh_instr.h"
#include "instr.c"
#include "vh_nodeimpl.h"
#include "register.c"

/* MC6809: bit of each register in the PSH/PUL postbyte; the other stack
 * pointer takes bit 6. */
static int stack_bits(int r, int stack) {
	switch (r) {
	case REG_CC: return 0x01; case REG_A: return 0x02; case REG_B: return 0x04; case REG_DP: return 0x08;
	case REG_X: return 0x10; case REG_Y: return 0x20; case REG_PC: return 0x80; case REG_D: return 0x06;
	case REG_U: return stack == REG_U ? 0 : 0x40;
	case REG_S: return stack == REG_S ? 0 : 0x40;
	default: return 0;
	}
}
#define N 9
static struct node nd[N];
static struct node **av;
static int bad, want, vh_n;
static enum reg_id stack;
static void entry(int k, int i) {
	nd[i].type = vh_range(node_type_undef, node_type_string);
	nd[i].ref = 1;
	nd[i].attr = vh_range(node_attr_none, node_attr_postdec);
	nd[i].data.as_int = 0;
	if (nd[i].type == node_type_reg) nd[i].data.as_reg = vh_range(0, REG_MAX - 1);
	av[k] = nd[i].type == node_type_undef ? NULL : &nd[i];
}
static void count(int i) {
	if (nd[i].type != node_type_reg || stack_bits(nd[i].data.as_reg, stack) == 0) bad = 1;
	else want |= stack_bits(nd[i].data.as_reg, stack);
}
#ifndef VH_BOUNDED
static int vh_arrival, vh_i0;
static _Bool vh_stack(int *i, int n, int *pbyte, struct node **a) {
	if (vh_arrival++ == 0) {
		ASSERT(*i == 0 && *pbyte == 0 && n == vh_n && a == av, "loop invariant holds initially");
		bad = 0;
		vh_i0 = *i = vh_range(0, n);
		want = *pbyte = vh_range(0, 255);
		if (*i >= n) return 1;
		entry(*i, 0); count(0);
		return 0;
	}
	ASSERT(!bad && *pbyte == want && *i == vh_i0 + 1 && n == vh_n, "loop invariant is preserved, progress is made");
	ASSUME(0);
	return 1;
}
#endif

void vh_main(void) {
	vh_mkop();
	bad = want = 0;
	stack = vh_flag() ? REG_U : REG_S;
#ifndef VH_BOUNDED
	vh_arrival = 0;
	vh_n = vh_range(0, INT32_MAX);
	av = malloc(sizeof *av * (size_t)vh_n); /* as long as the list */
	if (vh_n) { entry(0, 0); count(0); }
#else
	static struct node *list[N];
	av = list;
	vh_n = vh_range(0, N);
	for (int i = 0; i < N; i++) { entry(i, i); if (i < vh_n) count(i); }
#endif
	struct node args = { .type = node_type_array, .ref = 1 };
	args.data.as_array.nargs = vh_n;
	args.data.as_array.args = av;
	instr_stack(&vh_op, &args, stack);
	CHECK("instr_stack: an operand that is not a stackable register is an error with nothing encoded", !bad || (G.n == 0 && VH_SYNTAX));
	unsigned l = OPLEN(vh_op.immediate);
	CHECK("instr_stack: opcode and exactly the registers named", bad || (VH_NOERR && G.n == l + 1 && OP_EMITTED(vh_op.immediate) && G.b[l] == want));
	COVER("end");
}
