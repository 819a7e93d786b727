/* C06: operators of two operands, numbers and wrongly typed operands.
 * @function eval_node eval_node_oper_2 eval_int eval_int_free eval_float eval_float_free node_new node_new_int node_new_float node_ref node_set_attr invalid_operand
 * @callees error node_free eval_node(operands)
 * @replace-calls eval_node:vh_eval_operand
 * @link x_eval.c
 * @variant mul -DVH_OPS='*'
 * @variant add -DVH_OPS='+'
 * @variant sub -DVH_OPS='-'
 * @variant lt -DVH_OPS='<'
 * @variant le -DVH_OPS=LE
 * @variant gt -DVH_OPS='>'
 * @variant ge -DVH_OPS=GE
 * @variant eq -DVH_OPS=EQ
 * @variant ne -DVH_OPS=NE
 * @variant shl -DVH_OPS=SHL
 * @variant shr -DVH_OPS=SHR
 * @variant and -DVH_OPS='&'
 * @variant xor -DVH_OPS='^'
 * @variant or -DVH_OPS='|'
 * @variant land -DVH_OPS=LAND
 * @variant lor -DVH_OPS=LOR
 * @variant div_int_int -DVH_OPS='/' -DVH_T0=T_INT -DVH_T1=T_INT
 * @variant div_int_float -DVH_OPS='/' -DVH_T0=T_INT -DVH_T1=T_FLOAT
 * @variant div_float_int -DVH_OPS='/' -DVH_T0=T_FLOAT -DVH_T1=T_INT
 * @variant div_float_float -DVH_OPS='/' -DVH_T0=T_FLOAT -DVH_T1=T_FLOAT
 * @variant div_x -DVH_OPS='/' -DVH_NONNUM
 * @variant mod_int_int -DVH_OPS='%' -DVH_T0=T_INT -DVH_T1=T_INT
 * @variant mod_int_float -DVH_OPS='%' -DVH_T0=T_INT -DVH_T1=T_FLOAT
 * @variant mod_float_int -DVH_OPS='%' -DVH_T0=T_FLOAT -DVH_T1=T_INT
 * @variant mod_float_float -DVH_OPS='%' -DVH_T0=T_FLOAT -DVH_T1=T_FLOAT
 * @variant mod_x -DVH_OPS='%' -DVH_NONNUM
 * @props C06 C19
 * @unwind 30
 * @timeout 200
 * @exact-bounded
 * @opts --cvc5 --no-undefined-shift-check
 * @assume the value of a shift by a count outside 0..63 and of an integer operator on a float outside the 64-bit range is left open
 */
#include "vh_oper2.h"
static const int ops[] = { VH_OPS };
void vh_main(void) {
#ifdef VH_T0
	for (int f = 0; f < 4; f++)
		oper2(VH_OPS, VH_T0, VH_T1, f & 1, f >> 1, 0);
	if (VH_T0 == VH_T1) oper2(VH_OPS, VH_T0, VH_T1, 0, 0, 1);
#else
	static const int types[] = { T_INT, T_FLOAT, T_REG, T_EMPTY, T_UNDEF };
	for (int o = 0; o < sizeof(ops) / sizeof(ops[0]); o++)
		for (int a = 0; a < 5; a++)
			for (int b = 0; b < 5; b++) {
#ifdef VH_NONNUM
				if (a < 2 && b < 2) continue;
#endif
				for (int f = 0; f < 4; f++)
					if (a < 2 || b < 2 || f == 0)
						oper2(ops[o], types[a], types[b], f & 1, f >> 1, 0);
				if (a == b) oper2(ops[o], types[a], types[a], 0, 0, 1);
			}
#endif
	COVER("end");
}
