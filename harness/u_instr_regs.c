/* C05: register operands.
 * @function instr_stack instr_pair instr_tfm instr_reg_mem
 * @callees error section_emit_op section_emit_uint8 section_emit_pad
 * @props C05
 * @variant pair -DPAIR
 * @variant tfm -DTFM
 * @variant regmem -DREGMEM
 */
#include "vh_instr.h"
#include "instr.c"
#include "vh_nodeimpl.h"
#include "register.c"

/* MC6809/HD6309: register codes of TFR, EXG and the inter-register ops; -1 if
 * the register has none.  8, 16: size. */
static int tfr_code(int r) {
	switch (r) {
	case REG_D: return 0; case REG_X: return 1; case REG_Y: return 2; case REG_U: return 3;
	case REG_S: return 4; case REG_PC: return 5; case REG_W: return 6; case REG_V: return 7;
	case REG_A: return 8; case REG_B: return 9; case REG_CC: return 10; case REG_DP: return 11;
	case REG_E: return 14; case REG_F: return 15;
	default: return -1;
	}
}
static int reg_size(int r) { return tfr_code(r) < 8 ? 16 : 8; }

#define ISREG(a) ((a).type == node_type_reg)
#define ISINT(a) ((a).type == node_type_int)
#define ISUNDEF(a) ((a).type == node_type_undef)

#ifdef PAIR
static _Bool post_pair(struct opcode const *op) {
	if (NARGS != 2) return G.n == 0 && VH_SYNTAX;
	for (int i = 0; i < 2; i++)
		if (!ISREG(A[i]) && !ISINT(A[i]) && !ISUNDEF(A[i])) return G.n == 0 && VH_SYNTAX;
	for (int i = 0; i < 2; i++)
		if (ISREG(A[i]) && tfr_code(A[i].reg) < 0) return G.n == 0 && VH_SYNTAX;
	unsigned l = OPLEN(op->immediate);
	if (G.n != l + 1 || !OP_EMITTED(op->immediate)) return 0;
	if (G.err[3] || G.err[5] || G.err[6] || G.err[7]) return 0;
	_Bool z6309 = asm6809_options.isa == asm6809_isa_6309;
	_Bool range = 0, numeric = 0;
	for (int i = 0; i < 2; i++) {
		int got = i == 0 ? G.b[l] >> 4 : G.b[l] & 15;
		if (ISREG(A[i]) && got != tfr_code(A[i].reg)) return 0;
		if (ISINT(A[i])) {
			/* zero names the 6309 zero register; other numbers are raw
			 * register codes, which are warned about */
			int v = (int)A[i].i;
			if (v == 0 && z6309) { if (got != 12) return 0; }
			else {
				if (got != (v & 15)) return 0;
				numeric = 1;
				if (v < 0 || v > 15) range = 1;
			}
		}
	}
	if (range != (G.err[4] > 0)) return 0;
	if (ISREG(A[0]) && ISREG(A[1])) {
		_Bool mismatch = reg_size(A[0].reg) != reg_size(A[1].reg);
		return mismatch == (G.err[error_type_illegal] > 0) && G.err[1] == 0;
	}
	if (numeric && G.err[error_type_illegal] == 0) return 0;
	if (!numeric && !ISUNDEF(A[0]) && !ISUNDEF(A[1]) && G.err[error_type_illegal]) return 0;
	return 1;
}
#endif

#ifdef TFM
static _Bool post_tfm(struct opcode const *op) {
	if (NARGS != 2) return G.n == 0 && VH_SYNTAX;
	for (int i = 0; i < 2; i++) {
		if (!ISREG(A[i]) && !ISINT(A[i]) && !ISUNDEF(A[i])) return G.n == 0 && VH_SYNTAX;
		/* only D, X, Y, U, S */
		if (ISREG(A[i]) && (tfr_code(A[i].reg) < 0 || tfr_code(A[i].reg) > 4)) return G.n == 0 && VH_SYNTAX;
	}
	int mod = A[0].attr == node_attr_postinc && A[1].attr == node_attr_postinc ? 0 :
		A[0].attr == node_attr_postdec && A[1].attr == node_attr_postdec ? 1 :
		A[0].attr == node_attr_postinc && A[1].attr == node_attr_none ? 2 :
		A[0].attr == node_attr_none && A[1].attr == node_attr_postinc ? 3 : -1;
	if (mod < 0) return G.n == 0 && VH_SYNTAX;
	unsigned short code = op->immediate + mod;
	unsigned l = OPLEN(code);
	if (G.n != l + 1 || !OP_EMITTED(code)) return 0;
	if (G.err[3] || G.err[5] || G.err[6] || G.err[7]) return 0;
	_Bool range = 0, numeric = 0;
	for (int i = 0; i < 2; i++) {
		int got = i == 0 ? G.b[l] >> 4 : G.b[l] & 15;
		if (ISREG(A[i]) && got != tfr_code(A[i].reg)) return 0;
		if (ISINT(A[i])) {
			int v = (int)A[i].i;
			if (got != (v & 15)) return 0;
			numeric = 1;
			if (v < 0 || v > 4) range = 1;
		}
	}
	return range == (G.err[4] > 0) && numeric == (G.err[error_type_illegal] > 0);
}
#endif

#ifdef REGMEM
static _Bool post_reg_mem(struct opcode const *op) {
	if (NARGS != 4) return G.n == 0 && VH_SYNTAX;
	if (!ISUNDEF(A[0]) && !ISINT(A[0]) && !(ISREG(A[0]) && (A[0].reg == REG_CC || A[0].reg == REG_A || A[0].reg == REG_B)))
		return G.n == 0 && VH_SYNTAX;
	for (int i = 1; i < 4; i++)
		if (!ISUNDEF(A[i]) && !ISINT(A[i])) return VH_SYNTAX;
	_Bool range = (ISINT(A[1]) && (A[1].i < 0 || A[1].i > 7)) || (ISINT(A[2]) && (A[2].i < 0 || A[2].i > 7));
	unsigned l = OPLEN(op->direct);
	if (G.n != l + 2 || !OP_EMITTED(op->direct)) return 0;
	if (G.err[1] || G.err[3] || G.err[5] || G.err[6] || G.err[7]) return 0;
	if (range != (G.err[4] > 0)) return 0;
	if (ISINT(A[0]) != (G.err[error_type_illegal] > 0)) return 0;
	uint8_t p = G.b[l];
	if (ISREG(A[0]) && (p >> 6) != (A[0].reg == REG_CC ? 0 : A[0].reg == REG_A ? 1 : 2)) return 0;
	if (!range && ISINT(A[1]) && ((p >> 3) & 7) != A[1].i) return 0;
	if (!range && ISINT(A[2]) && (p & 7) != A[2].i) return 0;
	if (ISINT(A[3]) && G.b[l + 1] != (uint8_t)A[3].i) return 0;
	return 1;
}
#endif

void vh_main(void) {
	vh_mkop();
	struct node *args = vh_mkargs(4, -1);
#if defined(PAIR)
	instr_pair(&vh_op, args);
	CHECK("instr_pair: postbyte names the two registers, or an error", post_pair(&vh_op));
#elif defined(TFM)
	ASSUME((vh_op.immediate & 3) == 0);
	instr_tfm(&vh_op, args);
	CHECK("instr_tfm: opcode for the increments and postbyte for the registers, or an error", post_tfm(&vh_op));
#else
	instr_reg_mem(&vh_op, args);
	CHECK("instr_reg_mem: postbyte for register and bits, and address, or an error", post_reg_mem(&vh_op));
#endif
	COVER("end");
}
