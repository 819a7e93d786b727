/* What the processor does with an indexed operand: decoder of the postbyte
 * and offset bytes, after the MC6809/HD6309 programming manuals, and the
 * relation between it and the operand written in the source.
 *
 * Everything is a macro-free expression over ghost globals filled in by
 * spec_idx(), because contract clauses may not call nested functions. */
#ifndef SPEC_IDX_H_
#define SPEC_IDX_H_

enum { AUTO_NONE, AUTO_INC1, AUTO_INC2, AUTO_DEC1, AUTO_DEC2 };
enum { ACC_NONE = -1 };

/* Does the indexed operand (a0 [, a1]), possibly in brackets, have the
 * encoding G.b[at..G.n-1]?  pcend is the address after the instruction. */
static _Bool spec_idx(unsigned at, int nargs, struct vh_arg *a, _Bool indirect, int pc0) {
	unsigned left = G.n - at;     /* bytes of the indexed operand */
	if (G.n <= at || left > 3) return 0;
	uint8_t p = G.b[at];
	int pcend = (int)((unsigned)pc0 + G.n);

	/* --- [address], or a bare address (reported as illegal) --- */
	if (nargs == 1) {
		if (!indirect) {
			/* $8F: taken as an extended form by the assembler, which
			 * says so */
			return p == 0x8f && left == 3 && G.err[error_type_illegal] > 0 && VH_NOFAIL &&
				(uint16_t)((G.b[at + 1] << 8) | G.b[at + 2]) == (uint16_t)a[0].i;
		}
		return p == 0x9f && left == 3 && VH_NOERR &&
			(uint16_t)((G.b[at + 1] << 8) | G.b[at + 2]) == (uint16_t)a[0].i;
	}

	/* --- [,R+] and [,-R]: not processor modes.  Reported as illegal; the
	 * undocumented bit pattern is all there is to encode --- */
	if (indirect && a[1].reg != REG_W && (a[1].attr == node_attr_postinc || a[1].attr == node_attr_predec))
		return G.err[error_type_illegal] > 0 && left == 1 && (p & 0x9f) == (a[1].attr == node_attr_postinc ? 0x90 : 0x92) &&
			((p >> 5) & 3) == (a[1].reg == REG_X ? 0 : a[1].reg == REG_Y ? 1 : a[1].reg == REG_U ? 2 : 3);

	/* --- decode --- */
	_Bool ok = 1, d_ind = 0;
	int base = -1, aut = AUTO_NONE, acc = ACC_NONE;
	unsigned nb = 0;              /* offset bytes */
	int off = 0;
	if (!(p & 0x80)) {
		off = (p & 0x1f);
		if (off & 0x10) off -= 32;
		base = (p & 0x60) >> 5;
	} else {
		base = (p & 0x60) >> 5;
		d_ind = (p & 0x10) != 0;
		switch (p & 0x0f) {
		case 0x0: aut = AUTO_INC1; break;
		case 0x1: aut = AUTO_INC2; break;
		case 0x2: aut = AUTO_DEC1; break;
		case 0x3: aut = AUTO_DEC2; break;
		case 0x4: break;
		case 0x5: acc = REG_B; break;
		case 0x6: acc = REG_A; break;
		case 0x7: acc = REG_E; break;
		case 0x8: nb = 1; break;
		case 0x9: nb = 2; break;
		case 0xa: acc = REG_F; break;
		case 0xb: acc = REG_D; break;
		case 0xc: nb = 1; base = 8; break;
		case 0xd: nb = 2; base = 8; break;
		case 0xe: acc = REG_W; break;
		default:
			/* xxx01111 and xxx10000 below are the W modes */
			ok = 0;
			break;
		}
		/* the HD6309 W modes */
		if ((p & 0x1f) == 0x0f || (p & 0x1f) == 0x10) {
			ok = 1; acc = ACC_NONE; base = 9; aut = AUTO_NONE; nb = 0;
			d_ind = (p & 0x1f) == 0x10;
			switch ((p >> 5) & 3) {
			case 0: break;
			case 1: nb = 2; break;
			case 2: aut = AUTO_INC2; break;
			default: aut = AUTO_DEC2; break;
			}
		}
	}
	if (!ok || left != 1 + nb) return 0;
	if (nb == 1) off = (int8_t)G.b[at + 1];
	if (nb == 2) off = (int16_t)((G.b[at + 1] << 8) | G.b[at + 2]);

	/* --- base register --- */
	int wbase = a[1].reg == REG_X ? 0 : a[1].reg == REG_Y ? 1 : a[1].reg == REG_U ? 2 : a[1].reg == REG_S ? 3 :
		(a[1].reg == REG_PC || a[1].reg == REG_PCR) ? 8 : a[1].reg == REG_W ? 9 : -1;
	if (base != wbase || d_ind != indirect) return 0;
	/* --- auto increment/decrement --- */
	int waut = a[1].attr == node_attr_postinc ? AUTO_INC1 : a[1].attr == node_attr_postinc2 ? AUTO_INC2 :
		a[1].attr == node_attr_predec ? AUTO_DEC1 : a[1].attr == node_attr_predec2 ? AUTO_DEC2 : AUTO_NONE;
	if (aut != waut) return 0;
	if (G.err[error_type_illegal] != 0) return 0;
	/* --- offset --- */
	if (a[0].type == node_type_reg)
		return acc == a[0].reg && nb == 0 && a[0].attr == node_attr_none;
	if (acc != ACC_NONE) return 0;
	int64_t k = a[0].type == node_type_empty ? 0 : a[0].i;
	if (aut != AUTO_NONE)
		return k == 0 && nb == 0;
	_Bool five = !(p & 0x80);
	/* forced sizes are honoured, the value reduced to that size */
	if (a[0].attr == node_attr_5bit)
		return five && (off & 0x1f) == (k & 0x1f);
	if (a[0].attr == node_attr_8bit && nb != 1) return 0;
	if (a[0].attr == node_attr_16bit && nb != 2) return 0;
	/* the value the processor adds: exactly k, or what makes it reach k */
	uint16_t want = (uint16_t)k;
	if (a[1].reg == REG_PCR && a[0].type != node_type_empty)
		want = (uint16_t)(k - pcend);
	if (a[0].attr == node_attr_8bit)
		return (uint8_t)off == (uint8_t)want;
	if ((uint16_t)off != want) return 0;
	/* smallest form */
	if (a[0].attr == node_attr_none) {
		if (base <= 3) {
			if (k == 0) return nb == 0 && !five;
			if (k >= -16 && k <= 15 && !indirect) return five;
			if (k >= -128 && k <= 127) return nb == 1;
			return nb == 2;
		}
		if (base == 9) return nb == (k == 0 && a[0].type == node_type_empty ? 0 : 2);
		if (a[1].reg == REG_PCR) {
			/* relative to the end of the short form */
			int16_t d = (int16_t)(uint16_t)(k - (pcend - (nb == 2 ? 1 : 0)));
			if (a[0].type == node_type_empty) return nb == 1;
			return nb == (d >= -128 && d <= 127 ? 1 : 2);
		}
		return nb == (k >= -128 && k <= 127 ? 1 : 2);
	}
	return 1;
}

/* Is (a0, a1) / [a0, a1] an operand that the processor has? */
static _Bool spec_idx_exists(int nargs, struct vh_arg *a, _Bool indirect) {
	if (nargs == 1)
		return (a[0].type == node_type_int || a[0].type == node_type_string) &&
			(a[0].attr == node_attr_none || a[0].attr == node_attr_16bit);
	if (a[1].type != node_type_reg) return 0;
	_Bool num = a[0].type == node_type_empty || a[0].type == node_type_int || a[0].type == node_type_string;
	int64_t k = a[0].type == node_type_empty ? 0 : a[0].i;
	if (!num && a[0].type != node_type_reg) return 0;
	_Bool sized = a[0].attr == node_attr_5bit || a[0].attr == node_attr_8bit || a[0].attr == node_attr_16bit;
	if (!sized && a[0].attr != node_attr_none) return 0;
	switch (a[1].reg) {
	case REG_X: case REG_Y: case REG_U: case REG_S:
		switch (a[1].attr) {
		case node_attr_none:
			if (a[0].type == node_type_reg)
				return !sized && (a[0].reg == REG_A || a[0].reg == REG_B || a[0].reg == REG_D ||
					a[0].reg == REG_E || a[0].reg == REG_F || a[0].reg == REG_W);
			return !(a[0].attr == node_attr_5bit && indirect);
		case node_attr_postinc: case node_attr_postinc2:
			return num && !sized && k == 0;
		case node_attr_predec: case node_attr_predec2:
			/* an explicit zero is not accepted here */
			return a[0].type == node_type_empty && !sized;
		default: return 0;
		}
	case REG_PC: case REG_PCR:
		return num && a[1].attr == node_attr_none && a[0].attr != node_attr_5bit;
	case REG_W:
		switch (a[1].attr) {
		case node_attr_none:
			return num && (!sized || a[0].attr == node_attr_16bit);
		case node_attr_postinc2: case node_attr_predec2:
			return a[0].type == node_type_empty && !sized;
		default: return 0;
		}
	default: return 0;
	}
}

/* Complete statement for an indexed operand following the opcode (and, for
 * the immediate-with-memory instructions, the immediate byte). */
static _Bool spec_indexed(struct opcode const *op, int imm8, int nargs, struct vh_arg *a, _Bool indirect, int pc0) {
	if (nargs < 1 || nargs > 2)
		return G.n == 0 && VH_SYNTAX;
	unsigned at = OPLEN(op->indexed);
	if (!OP_EMITTED(op->indexed)) return 0;
	if (imm8 >= 0) {
		if (G.n <= at || G.b[at] != (uint8_t)imm8) return 0;
		at++;
	}
	_Bool undef = a[0].type == node_type_undef || (nargs == 2 && a[1].type == node_type_undef);
	if (undef)
		/* reported where it was evaluated; room for the postbyte */
		return G.n > at && G.n <= at + 3 && VH_NOFAIL;
	if (!spec_idx_exists(nargs, a, indirect))
		return VH_SYNTAX;
	return G.err[3] == 0 && G.err[4] == 0 && G.err[5] == 0 && G.err[6] == 0 && G.err[7] == 0 && G.err[1] == 0 &&
		spec_idx(at, nargs, a, indirect, pc0);
}
#endif
