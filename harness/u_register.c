/* C01: register names and numbers per ISA; C05: the tables the register
 * postbytes are built from.
 * @function reg_name_to_id reg_id_to_name
 * @callees c_strcasecmp
 * @props C01 C05
 * @variant m6809 -DVH_ISA=0
 * @variant h6309 -DVH_ISA=1
 * @unwind 20
 * @exact-bounded
 */
#include "vh_names.h"
#include "asm6809.h"
#include "register.h"
#include "c-strcase.h"
struct asm6809_options asm6809_options;
/* gnulib */
int c_strcasecmp(const char *a, const char *b) {
	for (int i = 0; i < VH_NAMEMAX + 1; i++) {
		int d = vh_lower(a[i]) - vh_lower(b[i]);
		if (d || !a[i]) return d;
	}
	ASSERT(0, "c_strcasecmp: terminated strings");
	return 0;
}
#include "register.c"

/* name, id, size, transfer number, stack bit: MC6809/HD6309 manuals */
static struct { const char *name; int id; _Bool ext; int size, nibble, stack; } const want[] = {
	{ "d", REG_D, 0, 16, 0, 0x06 }, { "x", REG_X, 0, 16, 1, 0x10 }, { "y", REG_Y, 0, 16, 2, 0x20 },
	{ "u", REG_U, 0, 16, 3, 0x40 }, { "s", REG_S, 0, 16, 4, 0x40 }, { "pc", REG_PC, 0, 16, 5, 0x80 },
	{ "w", REG_W, 1, 16, 6, 0 }, { "v", REG_V, 1, 16, 7, 0 }, { "a", REG_A, 0, 8, 8, 0x02 },
	{ "b", REG_B, 0, 8, 9, 0x04 }, { "cc", REG_CC, 0, 8, 10, 0x01 }, { "dp", REG_DP, 0, 8, 11, 0x08 },
	{ "e", REG_E, 1, 8, 14, 0 }, { "f", REG_F, 1, 8, 15, 0 },
	{ "pcr", REG_PCR, 0, -1, -1, 0 }, { "q", REG_Q, 1, 32, -1, 0 },
};
#define N (sizeof(want) / sizeof(want[0]))

void vh_main(void) {
	G = (struct vh_ghost){0};
	asm6809_options.isa = VH_ISA ? asm6809_isa_6309 : asm6809_isa_6809;
	char name[VH_NAMEMAX + 1];
	vh_name(name);
	uint64_t w = vh_fold(name);
	int id = REG_INVALID;
	for (unsigned i = 0; i < N; i++) if (vh_pack(want[i].name) == w && (VH_ISA || !want[i].ext)) id = want[i].id;
	CHECK("reg_name_to_id: exactly the registers of the instruction set, any case", reg_name_to_id(name) == id);
	for (unsigned i = 0; i < N; i++) {
		int r = want[i].id;
		const char *n = reg_id_to_name(r);
		CHECK("reg_id_to_name: the name of the register, if the ISA has it",
			(VH_ISA || !want[i].ext) ? (n && vh_fold(n) == vh_pack(want[i].name)) : n == NULL);
		CHECK("reg_tfr_size: width of the register", want[i].nibble < 0 || reg_tfr_size[r] == want[i].size);
		CHECK("reg_tfr_nibble: number in a transfer postbyte", reg_tfr_nibble[r] == want[i].nibble);
		CHECK("reg_stack_bit: bit in a push/pull postbyte", reg_stack_bit[r] == want[i].stack);
	}
	int r = vh_range(-1, REG_MAX);
	CHECK("reg_id_to_name: no name for a number that is no register", (r >= 0 && r < REG_MAX) || reg_id_to_name(r) == NULL);
	if (id == REG_INVALID) COVER("unknown"); else COVER("known");
}
