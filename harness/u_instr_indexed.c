/* C03: indexed operands.  Contract of instr_indexed().
 * @function instr_indexed
 * @callees error section_emit_op section_emit_uint8 section_emit_uint16 section_emit_pad node_free
 * @loops
 * @opts --sat-solver cadical
 * @props C03
 */
#include "vh_instr.h"
#include "spec_idx.h"

static int vh_imm8;
static _Bool post_indexed(struct opcode const *op, int pc0) {
	if (A[0].type == node_type_array && NARGS == 1)
		return spec_indexed(op, vh_imm8, A0_n, I, 1, pc0);
	return spec_indexed(op, vh_imm8, NARGS, A, 0, pc0);
}

void instr_indexed(struct opcode const *op, struct node const *args, int imm8_val)
REQUIRES(PRE_ARGS(args) && op == &vh_op && imm8_val == vh_imm8 && imm8_val >= -1 && imm8_val <= 255)
ASSIGNS(G, cur_section->pc, cur_section->put, vh_argv[0], vh_el[0];
	vh_argv[0] != NULL: vh_argv[0]->ref; vh_el[0] != NULL: vh_el[0]->ref)
FREES(vh_argv[0], vh_el[0])
ENSURES(post_indexed(op, OLD(cur_section->pc)))
;

#include "instr.c"
#include "vh_nodeimpl.h"

void vh_main(void) {
	vh_mkop();
	struct node *args = vh_mkargs(3, 0);
	vh_imm8 = vh_range(-1, 255);
	int pc0 = S.pc;
	instr_indexed(&vh_op, args, vh_imm8);
	CHECK("instr_indexed.postcondition.1", post_indexed(&vh_op, pc0));
	COVER("end");
}
