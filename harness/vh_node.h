/* Symbolic nodes: what eval_node() may hand to instructions and directives. */
#ifndef VH_NODE_H_
#define VH_NODE_H_

#include "vh.h"
#include "node.h"

#define VHT_NULL   1
#define VHT_EMPTY  2
#define VHT_INT    4
#define VHT_FLOAT  8
#define VHT_REG    16
#define VHT_STRING 32

/* An evaluated argument (see eval_node): no node at all (undefined), or a node
 * of a base type with any attribute, reference count and value. Strings have up
 * to VH_STRLEN characters. */
#ifndef VH_STRLEN
#define VH_STRLEN 5
#endif
static struct node *vh_node(int types) {
	int64_t t = vh_range(0, 5);
	ASSUME(types & (1 << t));
	if (t == 0) return NULL;
	struct node *n = malloc(sizeof(*n));
	ASSUME(n != NULL);
	n->ref = vh_range(1, 0xfffffff0);
	n->attr = vh_range(node_attr_none, node_attr_postdec);
	switch (t) {
	case 1: n->type = node_type_empty; n->data.as_int = 0; break;
	case 2: n->type = node_type_int; n->data.as_int = vh_nd(); break;
	case 3: {
		n->type = node_type_float;
		union { int64_t i; double d; } u; u.i = vh_nd();
		n->data.as_float = u.d; break; }
	case 4: n->type = node_type_reg; n->data.as_reg = vh_range(0, REG_MAX - 1); break;
	default: {
		n->type = node_type_string;
		char *s = malloc(VH_STRLEN + 1);
		ASSUME(s != NULL);
		for (int i = 0; i < VH_STRLEN; i++) s[i] = vh_range(-128, 127);
		s[VH_STRLEN] = 0;
		n->data.as_string = s; break; }
	}
	return n;
}
#endif
