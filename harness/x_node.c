/* Entry to the real node_free(), linked after the calls to it inside node.c
 * have been replaced by its contract. */
struct node;
void node_free(struct node *n);
void vh_top_free(struct node *n) { node_free(n); }
