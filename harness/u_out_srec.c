/* C09, C14: Motorola S-records.
 * @function output_motorola_srec addressable_data get_exec_addr output_open output_close
 * @callees section_coalesce_all section_free symbol_try_get eval_int_free fopen fprintf fclose ferror error
 * @props C09 C14
 * @exact-bounded
 * @opts --no-pointer-check
 * @unwind 66
 * @bounded-unwind 110
 * @timeout 240
 * @assume fprintf() writes what the C standard says (%X with a width); files behave as fopen/fclose/ferror report
 */
#define VH_F 3
#include "vh_out.h"
