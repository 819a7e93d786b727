/* C06: operators of two operands, strings among them.
 * @function eval_node eval_node_oper_2 eval_int eval_int_free
 * @callees error node_free eval_node(operands)
 * @replace-calls eval_node:vh_eval_operand
 * @link x_eval.c
 * @variant mul -DVH_OPS='*'
 * @variant sum -DVH_OPS='+','-'
 * @variant lt -DVH_OPS='<',LE
 * @variant gt -DVH_OPS='>',GE
 * @variant eq -DVH_OPS=EQ,NE
 * @variant shift -DVH_OPS=SHL,SHR
 * @variant bits -DVH_OPS='&','^','|'
 * @variant logic -DVH_OPS=LAND,LOR
 * @variant div_s -DVH_OPS='/' -DVH_LO=0 -DVH_HI=1
 * @variant div_i -DVH_OPS='/' -DVH_LO=1 -DVH_HI=2
 * @variant div_f -DVH_OPS='/' -DVH_LO=2 -DVH_HI=3
 * @variant div_x -DVH_OPS='/' -DVH_LO=3 -DVH_HI=4
 * @props C06
 * @unwind 30
 * @timeout 200
 * @exact-bounded
 * @opts --cvc5 --no-undefined-shift-check
 * @bounded strings of at most 5 characters; % not included
 */
#include "vh_oper2.h"
#ifndef VH_LO
# define VH_LO 0
# define VH_HI 4
#endif
static const int ops[] = { VH_OPS };
void vh_main(void) {
	static const int other[] = { T_STRING, T_INT, T_FLOAT, T_REG };
	for (int o = 0; o < sizeof(ops) / sizeof(ops[0]); o++)
		for (int a = VH_LO; a < VH_HI; a++) {
			oper2(ops[o], T_STRING, other[a], 0, 0, 0);
			if (a) oper2(ops[o], other[a], T_STRING, 0, 0, 0);
			else oper2(ops[o], T_STRING, T_STRING, 0, 0, 1);
		}
	COVER("end");
}
