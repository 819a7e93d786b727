/* Contracts of the loops marked VERIFY_LOOP(name) in the sources; empty unless
 * a unit gives one. */
#ifndef VERIFY_LOOP_rzb
#define VERIFY_LOOP_rzb
#endif
#ifndef VERIFY_LOOP_fill
#define VERIFY_LOOP_fill
#endif
#ifndef VERIFY_LOOP_align
#define VERIFY_LOOP_align
#endif
#ifndef VERIFY_LOOP_prog
#define VERIFY_LOOP_prog
#endif
#ifndef VERIFY_LOOP_pass
#define VERIFY_LOOP_pass
#endif
#ifndef VERIFY_LOOP_addressable
#define VERIFY_LOOP_addressable
#endif
#ifndef VERIFY_LOOP_coco_span
#define VERIFY_LOOP_coco_span
#endif
#ifndef VERIFY_LOOP_srec_span
#define VERIFY_LOOP_srec_span
#endif
#ifndef VERIFY_LOOP_srec_record
#define VERIFY_LOOP_srec_record
#endif
#ifndef VERIFY_LOOP_hex_span
#define VERIFY_LOOP_hex_span
#endif
#ifndef VERIFY_LOOP_hex_record
#define VERIFY_LOOP_hex_record
#endif
#ifndef VERIFY_LOOP_coalesce
#define VERIFY_LOOP_coalesce
#endif
#ifndef VERIFY_LOOP_srec_byte
#define VERIFY_LOOP_srec_byte
#endif
#ifndef VERIFY_LOOP_hex_byte
#define VERIFY_LOOP_hex_byte
#endif
#ifndef VERIFY_LOOP_stack
#define VERIFY_LOOP_stack
#endif
