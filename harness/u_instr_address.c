/* C02 C03: direct, extended and indexed operands of memory instructions, and
 * the 6309 immediate-with-memory instructions built on them.
 * @function instr_address instr_imm8_mem instr_indexed
 * @callees error section_emit_op section_emit_uint8 section_emit_uint16 section_emit_pad node_free
 * @loops
 * @opts --sat-solver cadical
 * @props C02
 * @variant addr -DADDR
 * @variant imm8 -DIMM8
 */
#include "vh_instr.h"
#include "spec_idx.h"

/* The memory operand a[0..n-1] (or [i[0..in-1]]) with the optional immediate
 * byte before it. */
static _Bool post_address(struct opcode const *op, int imm8, int n, struct vh_arg *a, int pc0) {
	if (n < 1 || n > 2 || (!(op->type & OPCODE_INDEXED) && n > 1))
		return G.n == 0 && VH_SYNTAX;
	if (n == 2)
		return spec_indexed(op, imm8, n, a, 0, pc0);
	if (a[0].type == node_type_array)
		return spec_indexed(op, imm8, A0_n, I, 1, pc0);
	_Bool undef = a[0].type == node_type_undef;
	if (!undef && a[0].type != node_type_int && a[0].type != node_type_string)
		return VH_SYNTAX;
	uint16_t addr = (uint16_t)a[0].i;
	_Bool has_d = op->type & OPCODE_DIRECT, has_e = op->type & OPCODE_EXTENDED;
	_Bool direct = has_d && !undef && (a[0].attr == node_attr_8bit ||
		(a[0].attr == node_attr_none && S.dp == (unsigned)(addr >> 8)));
	_Bool extended = !direct && has_e && (undef || a[0].attr == node_attr_none || a[0].attr == node_attr_16bit);
	if (!direct && !extended)
		/* nothing but an indexed form is left */
		return spec_indexed(op, imm8, 1, a, 0, pc0);
	unsigned short code = direct ? op->direct : op->extended;
	unsigned l = OPLEN(code);
	if (!OP_EMITTED(code)) return 0;
	if (imm8 >= 0) {
		if (G.b[l] != imm8) return 0;
		l++;
	}
	if (G.n != l + (direct ? 1 : 2)) return 0;
	if (!VH_NOERR) return 0;
	if (undef) return 1;
	if (direct) return G.b[l] == (addr & 0xff);
	return G.b[l] == (addr >> 8) && G.b[l + 1] == (addr & 0xff);
}

#ifdef IMM8
static _Bool post_imm8_mem(struct opcode const *op, int pc0) {
	if (NARGS < 2 || NARGS > 3 || (!(op->type & OPCODE_INDEXED) && NARGS > 2))
		return G.n == 0 && VH_SYNTAX;
	if (A[0].type != node_type_undef && A[0].type != node_type_int)
		return VH_SYNTAX;
	return post_address(op, (uint8_t)A[0].i, NARGS - 1, A + 1, pc0);
}
#endif

#include "instr.c"
#include "vh_nodeimpl.h"

void vh_main(void) {
	vh_mkop();
	/* every instruction with a memory operand in the opcode table has an
	 * indexed or an extended form (see u_opcode_table) */
	ASSUME(vh_op.type & (OPCODE_INDEXED | OPCODE_EXTENDED));
	int pc0 = S.pc;
#ifdef IMM8
	struct node *args = vh_mkargs(3, 1);
	instr_imm8_mem(&vh_op, args);
	CHECK("instr_imm8_mem: opcode, immediate byte, address", post_imm8_mem(&vh_op, pc0));
#else
	int imm8 = vh_range(-1, 255);
	struct node *args = vh_mkargs(3, 0);
	instr_address(&vh_op, args, imm8);
	CHECK("instr_address: the right form with the right address", post_address(&vh_op, imm8, NARGS, A, pc0));
#endif
	COVER("end");
}
