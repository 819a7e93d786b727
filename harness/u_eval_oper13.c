/* C06: operators of one and of three operands.
 * @function eval_node eval_node_oper_1 eval_node_oper_3 eval_int eval_int_free node_new_int node_new_float
 * @callees error node_free eval_node(operands)
 * @replace-calls eval_node:vh_eval_operand
 * @link x_eval.c
 * @variant unary -DVH_UNARY
 * @variant ternary -DVH_TERNARY
 * @props C06 C19
 * @unwind 40
 * @assume the value of ! and ~ of a float outside the 64-bit range is left open
 */
#include "vh_oper.h"

static void oper1(int op, int t, _Bool f) {
	G = (struct vh_ghost){0};
#ifdef VH_CBMC
	pool_n = 0;
#endif
	fresh[1] = fresh[2] = 0;
	mk_operand(0, t, f);
	struct node *c0 = CH[0];
	struct node o = { .type = node_type_oper, .ref = 1, .attr = node_attr_none, .data = { .as_oper = { .oper = op, .nargs = 1, .args = CH } } };
	struct node *r = vh_top(&o);
	CHECK("operator: the expression itself is unchanged", o.type == node_type_oper && o.ref == 1 && o.data.as_oper.oper == op && o.data.as_oper.nargs == 1 && o.data.as_oper.args == CH && CH[0] == c0);
	CHECK("operator: the operand is unchanged and every reference is returned", kept(0, r) && released(0, r) && no_leak(r));
	if (t == T_UNDEF) {
		CHECK("operator: of an undefined operand is undefined", r == NULL && VH_NOERR);
		return;
	}
	if (op == '!' && !NUM(V[0])) {
		/* not a number, so not a true value */
		CHECK("operator: ! of no number is 1", r && r->type == T_INT && r->data.as_int == 1);
		return;
	}
	if (!NUM(V[0])) {
		CHECK("operator: an operand that is no number is an error", r == NULL && VH_SYNTAX);
		return;
	}
	if (op == '!' || op == '~') {
		if (t == T_FLOAT) {
			if (!TOINT_OK(V[0].f)) return;
			V[0].i = (int64_t)V[0].f;
		}
		CHECK("operator: integer result", VH_NOERR && r && r->type == T_INT && r->ref == 1 && r->data.as_int == (op == '!' ? V[0].i == 0 : ~V[0].i));
		return;
	}
	if (t == T_INT)
		CHECK("operator: integer result", VH_NOERR && r && r->type == T_INT && r->data.as_int == (op == '-' ? -V[0].i : V[0].i));
	else
		CHECK("operator: floating point result", VH_NOERR && r && r->type == T_FLOAT && same_float(r->data.as_float, op == '-' ? -V[0].f : V[0].f));
}

static void oper3(int t0, int t1, int t2, _Bool f0, _Bool f1) {
	G = (struct vh_ghost){0};
#ifdef VH_CBMC
	pool_n = 0;
#endif
	mk_operand(0, t0, f0);
	mk_operand(1, t1, f1);
	mk_operand(2, t2, f1);
	struct node o = { .type = node_type_oper, .ref = 1, .attr = node_attr_none, .data = { .as_oper = { .oper = '?', .nargs = 3, .args = CH } } };
	struct node *r = vh_top(&o);
	CHECK("operator: the expression itself is unchanged", o.type == node_type_oper && o.ref == 1 && o.data.as_oper.oper == '?' && o.data.as_oper.nargs == 3 && o.data.as_oper.args == CH);
	CHECK("operator: operands are unchanged and every reference is returned", kept(0, r) && kept(1, r) && kept(2, r) && released(0, r) && released(1, r) && released(2, r) && no_leak(r));
	if (t0 == T_UNDEF) {
		CHECK("operator: undefined condition gives an undefined value", r == NULL && VH_NOERR);
		return;
	}
	if (!NUM(V[0])) {
		CHECK("operator: a condition that is no number is an error", r == NULL && VH_SYNTAX);
		return;
	}
	if (t0 == T_FLOAT) {
		if (!TOINT_OK(V[0].f)) return;
		V[0].i = (int64_t)V[0].f;
	}
	int w = V[0].i != 0 ? 1 : 2;
#ifdef VH_CBMC
	CHECK("operator: only the selected operand is evaluated", evals[w] == 1 && evals[3 - w] == 0);
#endif
	if (V[w].t == T_UNDEF) {
		CHECK("operator: undefined selected operand", r == NULL && VH_NOERR);
		return;
	}
	CHECK("operator: the selected operand is the value", VH_NOERR && r && r->type == V[w].t && (V[w].t != T_INT || r->data.as_int == V[w].i) && (V[w].t != T_FLOAT || same_float(r->data.as_float, V[w].f)));
}

void vh_main(void) {
	static const int types[] = { T_INT, T_FLOAT, T_REG, T_EMPTY, T_UNDEF };
#ifdef VH_UNARY
	static const int ops[] = { '-', '+', '!', '~' };
	for (int o = 0; o < 4; o++)
		for (int t = 0; t < 5; t++)
			for (int f = 0; f < 2; f++)
				oper1(ops[o], types[t], f);
#else
	for (int t = 0; t < 5; t++)
		for (int f = 0; f < 4; f++) {
			oper3(types[t], T_INT, T_FLOAT, f & 1, f >> 1);
			oper3(types[t], T_UNDEF, T_INT, f & 1, f >> 1);
			oper3(types[t], T_FLOAT, T_UNDEF, f & 1, f >> 1);
			oper3(types[t], T_REG, T_EMPTY, f & 1, f >> 1);
		}
#endif
	COVER("end");
}
