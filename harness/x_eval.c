/* Entry to the real eval_node(), linked after the recursive calls inside it
 * have been replaced by their contract. */
struct node;
struct node *eval_node(struct node *n);
struct node *vh_top(struct node *n) { return eval_node(n); }
