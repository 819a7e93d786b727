/* C15: directives that emit the values of their arguments.  Byte W of what a
 * line emits, for any W, against the manual.
 * @function assemble_prog pseudo_fcb pseudo_fcc pseudo_fcn pseudo_fcs pseudo_fcv pseudo_fci pseudo_fdb pseudo_fqb emit_formatted ascii_to_vdg have_int_optional verify_num_args
 * @callees section_emit_uint8 section_emit_uint16 section_emit_uint32 section_emit_pad eval_node eval_string eval_int prog_ctx_next_line dict_lookup listing_add_line error
 * @props C15
 * @bounded at most 2 arguments, strings of at most 3 characters
 * @variant fcb -DVH_OP=fcb -DVH_K=0
 * @variant fcc -DVH_OP=fcc -DVH_K=0
 * @variant fcn -DVH_OP=fcn -DVH_K=1
 * @variant fcs -DVH_OP=fcs -DVH_K=2
 * @variant fcv -DVH_OP=fcv -DVH_K=3
 * @variant fci -DVH_OP=fci -DVH_K=4
 * @variant fdb -DVH_OP=fdb -DVH_K=5
 * @variant fqb -DVH_OP=fqb -DVH_K=6
 * @unwind 50
 * @assume values passed as floats lie within 64-bit range
 */
#define VH_STRLEN 3
#include "vh_asm.h"
#include "vh_node.h"
static unsigned vh_listed;
void listing_add_line(int pc, int n, struct section_span const *sp, char const *t) { vh_listed++; }
#include "slist.c"
#include "assemble.c"

static uint8_t vdg(uint8_t c, _Bool inv) {
	/* MC6847: 64 characters, @A..Z[\]^_ then space..?, bit 6 set for dark on
	 * light; lower case is upper case in inverse video; 80-ff graphics */
	if (c >= 0x80) return c;
	uint8_t v = c < 0x20 ? c : c < 0x40 ? c | 0x40 : c < 0x60 ? c : c == 0x60 ? 0x20 : c & 0x1f;
	return inv ? v ^ 0x40 : v;
}
#define STR2(x) #x
#define STR(x) STR2(x)

/* arguments: type 0 none, 1 empty, 2 int, 3 float, 4 register, 5.. string of
 * t-5 characters; values arbitrary */
#define NT 9
static struct node vh_anode[2];
static char vh_astr[2][VH_STRLEN + 1];
static struct node *av[2];
static void mk(int i, int t) {
	struct node *n = &vh_anode[i];
	av[i] = n;
	switch (t) {
	case 0: av[i] = NULL; break;
	case 1: *n = (struct node){ .type = node_type_empty, .ref = 5, .attr = node_attr_none, .data = { .as_int = 0 } }; break;
	case 2: *n = (struct node){ .type = node_type_int, .ref = 5, .attr = node_attr_none, .data = { .as_int = vh_nd() } }; break;
	case 3: {
		*n = (struct node){ .type = node_type_float, .ref = 5, .attr = node_attr_none, .data = { .as_float = vh_fvalue() } }; break; }
	case 4: *n = (struct node){ .type = node_type_reg, .ref = 5, .attr = node_attr_none, .data = { .as_reg = REG_D } }; break;
	default:
		*n = (struct node){ .type = node_type_string, .ref = 5, .attr = node_attr_none, .data = { .as_string = vh_astr[i] } };
		for (int j = 0; j < t - 5; j++) { vh_astr[i][j] = vh_range(1, 255); }
		vh_astr[i][t - 5] = 0;
		break;
	}
}
static void one(int n, int t0, int t1) {
	vh_asm_init();
	E.w = vh_range(0, 15);
	assemble_init();
	int tt[2] = { t0, t1 };
	for (int i = 0; i < n; i++) mk(i, tt[i]);
	vh_opname = (struct node){ .type = node_type_string, .ref = 5, .attr = node_attr_none, .data = { .as_string = STR(VH_OP) } };
	vh_argsnode = (struct node){ .type = node_type_array, .ref = 5, .attr = node_attr_none, .data = { .as_array = { .nargs = n, .args = av } } };
	vh_line[0] = (struct prog_line){ .ref = 1, .label = NULL, .opcode = &vh_opname, .args = n ? &vh_argsnode : NULL, .text = "" };
	vh_lines = 1;
	vh_listed = 0;
	int pc0 = S.pc;
	/* what the manual says */
	uint64_t pos = 0; uint8_t want = 0; _Bool bad = n == 0;
	for (int i = 0; i < n; i++) {
		int t = tt[i];
		struct node *a = &vh_anode[i];
		if (VH_K >= 5) {
			unsigned k = VH_K == 5 ? 2 : 4;
			int64_t v = 0;
			if (t == 2) v = a->data.as_int;
			else if (t == 3) v = (int64_t)a->data.as_float;
			else if (t >= 4) bad = 1;
			for (unsigned j = 0; j < k; j++) if (E.w == pos + j) want = v >> (8 * (k - 1 - j));
			pos += k;
		} else if (t >= 5) {
			for (int j = 0; j < t - 5; j++) {
				uint8_t c = a->data.as_string[j];
				if (VH_K == 2 && j == t - 6) c |= 0x80;
				if (VH_K == 3 || VH_K == 4) c = vdg(c, VH_K == 4);
				if (E.w == pos) want = c;
				pos++;
			}
		} else {
			uint8_t v = 0;
			if (t == 2) v = a->data.as_int;
			else if (t == 3) v = (int64_t)a->data.as_float;
			else if (t == 4) bad = 1;
			if (VH_K == 2 && (t == 2 || t == 3)) v |= 0x80;
			if (E.w == pos) want = v;
			pos++;
		}
	}
	if (VH_K == 1) { if (E.w == pos) want = 0; pos++; }
	assemble_prog(&vh_prog, 1);
	if (bad) {
		CHECK("data: missing or wrongly typed arguments are an error", G.err[error_type_syntax] > 0);
		if (t0 == 4) COVER("bad");
		return;
	}
	CHECK("data: no error for valid arguments", VH_NOERR && G.perr == 0);
	CHECK("data: exactly the documented number of bytes", E.n == pos && E.skips == 0 && S.pc == VH_ADD(pc0, pos));
	if (E.w < pos) {
		CHECK("data: every byte as documented", E.v == want);
		if (t0 == 2) COVER("byte");
	}
	CHECK("data: listed once", vh_listed == 1);
	for (int i = 0; i < n; i++) CHECK("data: arguments keep their references", !av[i] || av[i]->ref == 5);
}
void vh_main(void) {
	one(0, 0, 0);
	for (int t0 = 0; t0 < NT; t0++) {
		one(1, t0, 0);
		one(2, t0, 2);
		one(2, 2, t0);
	}
	one(2, 8, 8);
	one(2, 5, 7);
	one(2, 3, 4);
}
