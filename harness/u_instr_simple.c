/* C02: inherent and immediate instructions.
 * @function instr_inherent instr_immediate
 * @callees error section_emit_op section_emit_uint8 section_emit_uint16 section_emit_uint32 node_free
 * @props C02
 * @variant imm -DIMM
 * @variant inh -DINH
 */
#include "vh_instr.h"
#include "instr.c"
#include "vh_nodeimpl.h"

#ifdef IMM
/* opcode, then the value truncated to the operand width, big-endian */
static _Bool post_immediate(struct opcode const *op) {
	if (NARGS != 1) return G.n == 0 && VH_SYNTAX;
	unsigned l = OPLEN(op->immediate);
	unsigned w = EXT(op) == OPCODE_IMM8 ? 1 : EXT(op) == OPCODE_IMM16 ? 2 : 4;
	if (G.n != l + w || !OP_EMITTED(op->immediate)) return 0;
	if (A[0].type == node_type_undef) return VH_NOERR;
	if (A[0].type != node_type_int && A[0].type != node_type_string) return VH_SYNTAX;
	uint32_t v = A[0].i;
	if (w == 1) return VH_NOERR && G.b[l] == (v & 0xff);
	if (w == 2) return VH_NOERR && G.b[l] == ((v >> 8) & 0xff) && G.b[l + 1] == (v & 0xff);
	return VH_NOERR && G.b[l] == (v >> 24) && G.b[l + 1] == ((v >> 16) & 0xff) &&
		G.b[l + 2] == ((v >> 8) & 0xff) && G.b[l + 3] == (v & 0xff);
}
#endif

void vh_main(void) {
	vh_mkop();
	struct node *args = vh_mkargs(2, 0);
#ifdef IMM
	ASSUME(EXT(&vh_op) == OPCODE_IMM8 || EXT(&vh_op) == OPCODE_IMM16 || EXT(&vh_op) == OPCODE_IMM32);
	instr_immediate(&vh_op, args);
	CHECK("instr_immediate: opcode and big-endian operand of the right width, or an error", post_immediate(&vh_op));
	COVER("end");
#else
	instr_inherent(&vh_op, args);
	CHECK("instr_inherent: exactly the opcode", G.n == OPLEN(vh_op.immediate) && OP_EMITTED(vh_op.immediate));
	CHECK("instr_inherent: surplus arguments are errors, nothing else is", NARGS != 0 ? VH_SYNTAX : VH_NOERR);
	COVER("end");
#endif
}
