/* C15: ALIGN with and without a fill value, for every alignment.
 * @function assemble_prog pseudo_align have_int_optional have_int_required verify_num_args verify_range
 * @callees section_emit_uint8 section_skip eval_node eval_string eval_int prog_ctx_next_line dict_lookup listing_add_line error
 * @props C15
 * @variant reserve -DVH_S=0
 * @variant fill -DVH_S=1
 * @assume ALIGN: from addresses 0 to $10000
 * @exact-bounded
 * @timeout 300
 * @unwind 50
 * @opts --cvc5
 */
#define VH_OP align
#define VH_K 3
#include "u_fill.c"
