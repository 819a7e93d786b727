/* Instruction harness parts: symbolic opcode record, symbolic evaluated
 * argument vector, snapshot of the arguments for the postconditions. */
#ifndef VH_INSTR_H_
#define VH_INSTR_H_

#include "vh_node.h"
#include "opcode.h"
#include "instr.h"
#include "asm6809.h"
#include "vh_emit.h"
#include "vh_eval.h"

struct vh_ghost G;
struct section *cur_section;
static struct section S;
struct asm6809_options asm6809_options;

#define EXT(op) ((op)->type & OPCODE_EXT_TYPE)
#define OPLEN(c) (((c) >> 8) ? 2u : 1u)
/* opcode c was emitted first */
#define OP_EMITTED(c) (G.n >= OPLEN(c) && (OPLEN(c) == 2 ? (G.b[0] == ((c) >> 8) && G.b[1] == ((c) & 0xff)) : G.b[0] == ((c) & 0xff)))

/* What an argument is, recorded before the call (the call may convert string
 * arguments in place). */
struct vh_arg {
	int type;        /* enum node_type; node_type_undef if there is no value */
	int attr;
	int64_t i;       /* value of an integer; integer meaning of a string */
	int reg;
};
static struct node *vh_argv[5];
static struct node *vh_el[3];  /* elements of a bracketed operand */
static struct node vh_args_node;
static struct vh_arg A[5];   /* the arguments */
static struct vh_arg I[3];   /* the elements of A[0] if that is an array */
static int A0_n;

static void vh_snap(struct vh_arg *a, struct node const *n) {
	a->type = n ? n->type : node_type_undef;
	a->attr = n ? n->attr : node_attr_undef;
	a->i = 0; a->reg = -1;
	if (!n) return;
	if (n->type == node_type_int) a->i = n->data.as_int;
	if (n->type == node_type_reg) a->reg = n->data.as_reg;
	if (n->type == node_type_string) {
		uint32_t v = 0;
		for (int k = 0; n->data.as_string[k]; k++) v = (v << 8) | (uint8_t)n->data.as_string[k];
		a->i = v;
	}
}

/* args_float_to_int() has run: no floats at top level */
#define VH_ARGTYPES (VHT_NULL | VHT_EMPTY | VHT_INT | VHT_REG | VHT_STRING)

/* nargs arbitrary: no instruction here looks beyond the maxn'th element */
static struct node *vh_mkargs(int maxn, int arr_at) {
	vh_args_node.type = node_type_array;
	vh_args_node.ref = 1;
	vh_args_node.attr = node_attr_none;
	vh_args_node.data.as_array.nargs = vh_range(0, INT32_MAX);
	vh_args_node.data.as_array.args = vh_argv;
	for (int i = 0; i < maxn; i++) {
		if (i > 0 && vh_flag()) {
			/* the same value twice, as in "FOO,FOO" */
			vh_argv[i] = vh_argv[0];
			if (vh_argv[0]) { ASSUME(vh_argv[0]->type != node_type_array && vh_argv[0]->ref >= 5); }
		} else {
			vh_argv[i] = vh_node(VH_ARGTYPES);
		}
		vh_snap(&A[i], vh_argv[i]);
	}
	A0_n = 0;
	if (arr_at >= 0 && vh_flag()) {
		/* [...] */
		static struct node arr;
		arr.type = node_type_array; arr.ref = vh_range(1, 100); arr.attr = node_attr_none;
		arr.data.as_array.nargs = A0_n = vh_range(0, INT32_MAX);
		arr.data.as_array.args = vh_el;
		for (int i = 0; i < 2; i++) {
			vh_el[i] = vh_node(VH_ARGTYPES | VHT_FLOAT);
			vh_snap(&I[i], vh_el[i]);
		}
		vh_argv[arr_at] = &arr;
		vh_snap(&A[arr_at], vh_argv[arr_at]);
	}
	return &vh_args_node;
}
#define NARGS (vh_args_node.data.as_array.nargs)
#define PRE_ARGS(args) ((args) == &vh_args_node && cur_section == &S && VH_G_FRESH)

static struct opcode vh_op;
static void vh_mkop(void) {
	vh_op.op = "op";
	G = (struct vh_ghost){0};
	S = (struct section){0};
	vh_el[0] = vh_el[1] = vh_el[2] = NULL;
	vh_op.type = vh_range(0, 127);
	vh_op.immediate = vh_range(0, 65535);
	vh_op.direct = vh_range(0, 65535);
	vh_op.indexed = vh_range(0, 65535);
	vh_op.extended = vh_range(0, 65535);
	asm6809_options.isa = vh_flag() ? asm6809_isa_6309 : asm6809_isa_6809;
	cur_section = &S;
	S.pc = vh_range(INT32_MIN, INT32_MAX);
	S.dp = vh_range(0, UINT32_MAX);
#ifdef VH_BOUNDED
	ASSUME(S.pc >= -4 && S.pc <= 0x10004);
#endif
}
#endif
