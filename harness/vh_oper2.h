#include "vh_oper.h"

static _Bool relational(int op) { return op == '<' || op == LE || op == '>' || op == GE || op == EQ || op == NE; }
static _Bool intonly(int op) { return op == '%' || op == SHL || op == SHR || op == '&' || op == '^' || op == '|' || op == LAND || op == LOR; }

static int64_t int_op(int op, int64_t a, int64_t b) {
	switch (op) {
	case '*': return a * b;
	case '+': return a + b;
	case '-': return a - b;
	case '<': return a < b;
	case LE: return a <= b;
	case '>': return a > b;
	case GE: return a >= b;
	case EQ: return a == b;
	case NE: return a != b;
	case '%': return b == -1 ? 0 : a % b;
	case SHL: return a << b;
	case SHR: return a >> b;
	case '&': return a & b;
	case '^': return a ^ b;
	case '|': return a | b;
	case LAND: return a && b;
	case LOR: return a || b;
	}
	return 0;
}
static double float_op(int op, double a, double b) {
	switch (op) {
	case '*': return a * b;
	case '/': return a / b;
	case '+': return a + b;
	case '-': return a - b;
	case '<': return a < b;
	case LE: return a <= b;
	case '>': return a > b;
	case GE: return a >= b;
	case EQ: return a == b;
	case NE: return a != b;
	}
	return 0;
}

static void expect(int op, struct node *r) {
	if (V[0].t == T_UNDEF || V[1].t == T_UNDEF) {
		CHECK("operator: of an undefined operand is undefined", r == NULL && VH_NOERR);
		return;
	}
	if (V[0].t == T_STRING && V[1].t == T_STRING && relational(op)) {
		CHECK("operator: two strings compare lexically", VH_NOERR && r && r->type == T_INT && r->ref == 1 &&
			r->data.as_int == int_op(op, scmp(V[0].s, V[1].s), 0));
		return;
	}
	for (int i = 0; i < 2; i++) if (V[i].t == T_STRING) { V[i].t = T_INT; V[i].i = strval(V[i].s); }
	if (!NUM(V[0]) || !NUM(V[1])) {
		CHECK("operator: an operand that is no number is an error", r == NULL && VH_SYNTAX);
		return;
	}
	if (intonly(op)) {
		for (int i = 0; i < 2; i++) if (V[i].t == T_FLOAT) {
			if (!TOINT_OK(V[i].f)) return;
			V[i].t = T_INT; V[i].i = (int64_t)V[i].f;
		}
	}
	if (V[0].t == T_INT && V[1].t == T_INT && op != '/') {
		if (op == '%' && V[1].i == 0) {
			CHECK("operator: modulo by zero is an error", r == NULL && G.err[4] > 0);
			return;
		}
		if ((op == SHL || op == SHR) && !(V[1].i >= 0 && V[1].i < 64)) return;
		CHECK("operator: integer result", VH_NOERR && r && r->type == T_INT && r->ref >= 1 && r->data.as_int == int_op(op, V[0].i, V[1].i));
		return;
	}
	double a = V[0].t == T_INT ? V[0].i : V[0].f;
	double b = V[1].t == T_INT ? V[1].i : V[1].f;
	if (op == '/' && b == 0.0) {
		CHECK("operator: division by zero is an error", r == NULL && G.err[4] > 0);
		return;
	}
	if (relational(op))
		CHECK("operator: comparison of numbers", VH_NOERR && r && r->type == T_INT && r->ref == 1 && r->data.as_int == (int64_t)float_op(op, a, b));
	else
		CHECK("operator: floating point result", VH_NOERR && r && r->type == T_FLOAT && r->ref == 1 && same_float(r->data.as_float, float_op(op, a, b)));
}

static void oper2(int op, int t0, int t1, _Bool f0, _Bool f1, _Bool same) {
	G = (struct vh_ghost){0};
#ifdef VH_CBMC
	pool_n = 0;
#endif
	mk_operand(0, t0, f0);
	mk_operand(1, t1, f1);
	if (same) { CH[1] = CH[0]; V[1] = V[0]; }
	struct node *c0 = CH[0], *c1 = CH[1];
	struct node o = { .type = node_type_oper, .ref = 1, .attr = node_attr_none, .data = { .as_oper = { .oper = op, .nargs = 2, .args = CH } } };
	struct node *r = vh_top(&o);
	CHECK("operator: the expression itself is unchanged", o.type == node_type_oper && o.ref == 1 && o.data.as_oper.oper == op && o.data.as_oper.nargs == 2 && o.data.as_oper.args == CH && CH[0] == c0 && CH[1] == c1);
	CHECK("operator: operands are unchanged and every reference is returned", kept(0, r) && (same || kept(1, r)) && released(0, r) && released(1, r) && no_leak(r));
	expect(op, r);
}
