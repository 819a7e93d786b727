/* C11, C14: raw binary, DragonDOS and CoCo files.
 * @function output_binary output_dragondos output_coco write_single_binary addressable_data get_exec_addr output_open output_close
 * @callees section_coalesce_all section_free symbol_try_get eval_int_free fopen fputc fwrite fclose ferror error
 * @props C11 C14
 * @variant binary -DVH_F=0
 * @variant dragondos -DVH_F=1
 * @variant coco -DVH_F=2
 * @exact-bounded
 * @opts --no-pointer-check
 * @unwind 66
 * @bounded-unwind 110
 * @assume fputc(), fwrite() write what the C standard says; files behave as fopen/fclose/ferror report
 */
#include "vh_out.h"
