/* C04: relative branches.  Contract of instr_rel().
 * @function instr_rel
 * @engine dfcc
 * @enforce instr_rel
 * @replace EMIT eval_int node_free
 * @callees error section_emit_op section_emit_uint8 section_emit_uint16 section_emit_pad
 * @loops
 * @unwind 7
 * @props C04
 */
#include "vh_node.h"
#include "opcode.h"
#include "instr.h"
#include "vh_emit.h"
#include "vh_eval.h"

struct vh_ghost G;
struct section *cur_section;
static struct section S;

#define T0(a) ((a)->data.as_array.args[0])
#define op_len(op) (((op)->immediate >> 8) ? 2u : 1u)
#define is_rel8(op) (((op)->type & OPCODE_EXT_TYPE) == OPCODE_REL8)

static _Bool pre_instr_rel(struct opcode const *op, struct node const *args) {
	return op && args && args->type == node_type_array && cur_section != NULL && VH_G_FRESH &&
		(is_rel8(op) || (op->type & OPCODE_EXT_TYPE) == OPCODE_REL16);
}
/* the opcode bytes come first, and the operand has the right size */
static _Bool post_opcode(struct opcode const *op, struct node const *args) {
	if (args->data.as_array.nargs != 1)
		return G.n == 0 && VH_SYNTAX;
	unsigned l = op_len(op);
	if (G.n != l + (is_rel8(op) ? 1 : 2)) return 0;
	return G.b[l - 1] == (op->immediate & 0xff) && (l == 1 || G.b[0] == (op->immediate >> 8));
}
/* the processor adds the (sign-extended) displacement to the address of the
 * next instruction; the sum must be the target */
static _Bool post_reaches_target(struct opcode const *op, struct node const *args, int pc0) {
	if (args->data.as_array.nargs != 1 || !T0(args) || T0(args)->type != node_type_int)
		return 1;
	unsigned l = op_len(op);
	uint16_t next = (uint16_t)((unsigned)pc0 + G.n);
	uint16_t target = (uint16_t)T0(args)->data.as_int;
	if (is_rel8(op))
		return (uint16_t)(next + (int8_t)G.b[l]) == target || G.err[4] > 0;
	return (uint16_t)(next + (uint16_t)((G.b[l] << 8) | G.b[l + 1])) == target;
}
/* out of range exactly when no signed byte reaches the target; no other
 * failure for a known target or an undefined one; wrong operands are errors */
static _Bool post_errors(struct opcode const *op, struct node const *args, int pc0) {
	if (args->data.as_array.nargs != 1)
		return VH_SYNTAX;
	struct node *t = T0(args);
	if (!t) return VH_NOERR;
	if (t->type != node_type_int) return VH_SYNTAX;
	if (!is_rel8(op)) return VH_NOFAIL;
	uint16_t next = (uint16_t)((unsigned)pc0 + G.n);
	int16_t d = (int16_t)((uint16_t)t->data.as_int - next);
	_Bool fits = d >= -128 && d <= 127;
	return fits ? VH_NOERR :
		G.err[4] == 1 && G.err[5] == 0 && G.err[3] == 0 && G.err[7] == 0;
}

void instr_rel(struct opcode const *op, struct node const *args)
REQUIRES(pre_instr_rel(op, args))
ASSIGNS(G, cur_section->pc, cur_section->put)
ENSURES(post_opcode(op, args))
ENSURES(post_reaches_target(op, args, OLD(cur_section->pc)))
ENSURES(post_errors(op, args, OLD(cur_section->pc)))
;

#include "instr.c"
#include "vh_nodeimpl.h"

void vh_main(void) {
	struct opcode op;
	op.op = "x"; op.direct = op.indexed = op.extended = 0;
	op.type = vh_range(0, 255);
	op.immediate = vh_range(0, 65535);
	struct node *arr[3];
	struct node args = { .type = node_type_array, .ref = 1, .attr = node_attr_none };
	args.data.as_array.nargs = vh_range(0, 3);
	args.data.as_array.args = arr;
	for (int i = 0; i < 3; i++)
		arr[i] = vh_node(VHT_NULL | VHT_EMPTY | VHT_INT | VHT_FLOAT | VHT_REG | VHT_STRING);
	cur_section = &S;
	S.pc = vh_range(INT32_MIN, INT32_MAX);
#ifdef VH_BOUNDED
	ASSUME(S.pc >= -4 && S.pc <= 0x10004);
	for (int i = 0; i < 3; i++)
		ASSUME(!arr[i] || arr[i]->type != node_type_int || (arr[i]->data.as_int >= -70000 && arr[i]->data.as_int <= 140000));
#endif
	int pc0 = S.pc;
	ASSUME(pre_instr_rel(&op, &args));
	instr_rel(&op, &args);
	CHECK("instr_rel.postcondition.1 opcode", post_opcode(&op, &args));
	CHECK("instr_rel.postcondition.2 reaches target", post_reaches_target(&op, &args, pc0));
	CHECK("instr_rel.postcondition.3 errors", post_errors(&op, &args, pc0));
	COVER("end");
}
