/* C01: instruction names.  opcode_init() and opcode_by_name() against the
 * opcode maps of the MC6809 and HD6309, written here row by row.
 * @function opcode_init opcode_by_name
 * @callees dict_new dict_insert dict_lookup
 * @props C01
 * @variant m6809 -DVH_ISA=0
 * @variant h6309 -DVH_ISA=1
 * @unwind 420
 * @exact-bounded
 * @assume dict: dict_lookup() gives the value last inserted under an equal key (contract discharged in part by u_dict)
 */
#include "vh_names.h"
#include "asm6809.h"
#include "dict.h"
#include "opcode.c"
struct asm6809_options asm6809_options;

/* --- the opcode maps ----------------------------------------------------- */
/* one line per row; '.' no instruction, '+' in front: HD6309 only,
 * one row per addressing-mode group */
struct row { const char *names; unsigned type; int imm, dir, idx, ext; };
/* the kinds of instruction (OPCODE_... but of the manual) */
#define M_ MEM
#define I_ INHERENT
static struct row const map[] = {
	/* 00-0f / 60-6f / 70-7f: read-modify-write on memory */
	{ "neg . . com lsr . ror asr asl rol dec . inc tst jmp clr", M_, -1, 0x00, 0x60, 0x70 },
	{ ". . . . . . . . lsl", M_, -1, 0x00, 0x60, 0x70 },
	{ ". +oim +aim . . +eim . . . . . +tim", IMM8_MEM, -1, 0x00, 0x60, 0x70 },
	/* 10-1f */
	{ ". . nop sync +sexw . . . . daa . . . sex", I_, 0x10, -1, -1, -1 },
	{ ". . . . . . lbra lbsr", REL16, 0x10, -1, -1, -1 },
	{ ". . . . . . . . . . orcc . andcc", IMM8, 0x10, -1, -1, -1 },
	{ ". . . . . . . . . . . . . . exg tfr", PAIR, 0x10, -1, -1, -1 },
	/* 20-2f, 1021-102f */
	{ "bra brn bhi bls bcc bcs bne beq bvc bvs bpl bmi bge blt bgt ble", REL8, 0x20, -1, -1, -1 },
	{ ". . . . bhs blo", REL8, 0x20, -1, -1, -1 },
	{ ". lbrn lbhi lbls lbcc lbcs lbne lbeq lbvc lbvs lbpl lbmi lbge lblt lbgt lble", REL16, 0x1020, -1, -1, -1 },
	{ ". . . . lbhs lblo", REL16, 0x1020, -1, -1, -1 },
	/* 30-3f, 1030-103f, 1130-113f */
	{ "leax leay leas leau", INDEXED, -1, -1, 0x30, -1 },
	{ ". . . . pshs puls", STACKS, 0x30, -1, -1, -1 },
	{ ". . . . . . pshu pulu", STACKU, 0x30, -1, -1, -1 },
	{ ". . . . . . . . . rts abx rti . mul . swi", I_, 0x30, -1, -1, -1 },
	{ ". . . . . . . . . . . . cwai", IMM8, 0x30, -1, -1, -1 },
	{ "+addr +adcr +subr +sbcr +andr +orr +eorr +cmpr", PAIR, 0x1030, -1, -1, -1 },
	{ ". . . . . . . . +pshsw +pulsw +pshuw +puluw . . . swi2", I_, 0x1030, -1, -1, -1 },
	{ "+band +biand +bor +bior +beor +bieor +ldbt +stbt", REG_MEM, -1, 0x1130, -1, -1 },
	{ ". . . . . . . . +tfm", TFM, 0x1130, -1, -1, -1 },
	{ ". . . . . . . . . . . . +bitmd +ldmd", IMM8, 0x1130, -1, -1, -1 },
	{ ". . . . . . . . . . . . . . . swi3", I_, 0x1130, -1, -1, -1 },
	/* 40-5f and pages: accumulators */
	{ "nega . . coma lsra . rora asra asla rola deca . inca tsta . clra", I_, 0x40, -1, -1, -1 },
	{ "negb . . comb lsrb . rorb asrb aslb rolb decb . incb tstb . clrb", I_, 0x50, -1, -1, -1 },
	{ ". . . . . . . . lsla", I_, 0x40, -1, -1, -1 },
	{ ". . . . . . . . lslb", I_, 0x50, -1, -1, -1 },
	{ "+negd . . +comd +lsrd . +rord +asrd +asld +rold +decd . +incd +tstd . +clrd", I_, 0x1040, -1, -1, -1 },
	{ ". . . . . . . . +lsld", I_, 0x1040, -1, -1, -1 },
	{ ". . . +comw +lsrw . +rorw . . +rolw +decw . +incw +tstw . +clrw", I_, 0x1050, -1, -1, -1 },
	{ ". . . +come . . . . . . +dece . +ince +tste . +clre", I_, 0x1140, -1, -1, -1 },
	{ ". . . +comf . . . . . . +decf . +incf +tstf . +clrf", I_, 0x1150, -1, -1, -1 },
	/* 80-bf, c0-ff: 8-bit and 16-bit operations; stores have no immediate */
	{ "suba cmpa sbca . anda bita lda . eora adca ora adda", IMM8|M_, 0x80, 0x90, 0xa0, 0xb0 },
	{ ". . . . . . ldaa . . . oraa", IMM8|M_, 0x80, 0x90, 0xa0, 0xb0 },
	{ ". . . subd . . . . . . . . cmpx . ldx", IMM16|M_, 0x80, 0x90, 0xa0, 0xb0 },
	{ ". . . . . . . . . . . . cpx", IMM16|M_, 0x80, 0x90, 0xa0, 0xb0 },
	{ ". . . . . . . sta . . . . . jsr . stx", M_, -1, 0x90, 0xa0, 0xb0 },
	{ ". . . . . . . staa", M_, -1, 0x90, 0xa0, 0xb0 },
	{ ". . . . . . . . . . . . . bsr", REL8, 0x80, -1, -1, -1 },
	{ "subb cmpb sbcb . andb bitb ldb . eorb adcb orb addb", IMM8|M_, 0xc0, 0xd0, 0xe0, 0xf0 },
	{ ". . . . . . ldab . . . orab", IMM8|M_, 0xc0, 0xd0, 0xe0, 0xf0 },
	{ ". . . addd . . . . . . . . ldd . ldu", IMM16|M_, 0xc0, 0xd0, 0xe0, 0xf0 },
	{ ". . . . . . . stb . . . . . std . stu", M_, -1, 0xd0, 0xe0, 0xf0 },
	{ ". . . . . . . stab", M_, -1, 0xd0, 0xe0, 0xf0 },
	/* page 10 */
	{ ". . . cmpd . . . . . . . . cmpy . ldy", IMM16|M_, 0x1080, 0x1090, 0x10a0, 0x10b0 },
	{ ". . . . . . . . . . . . . . . sty", M_, -1, 0x1090, 0x10a0, 0x10b0 },
	{ ". . . . . . . . . . . . . . lds", IMM16|M_, 0x10c0, 0x10d0, 0x10e0, 0x10f0 },
	{ ". . . . . . . . . . . . . . . sts", M_, -1, 0x10d0, 0x10e0, 0x10f0 },
	{ "+subw +cmpw +sbcd . +andd +bitd +ldw . +eord +adcd +ord +addw", IMM16|M_, 0x1080, 0x1090, 0x10a0, 0x10b0 },
	{ ". . . . . . . +stw", M_, -1, 0x1090, 0x10a0, 0x10b0 },
	{ ". . . . . . . . . . . . . +stq", M_, -1, 0x10d0, 0x10e0, 0x10f0 },
	/* ldq: immediate cd on page 0, memory forms on page 10 */
	{ ". . . . . . . . . . . . . +ldq", IMM32|M_, 0x00c0, 0x10cf, 0x10df, 0x10ef },
	/* page 11 */
	{ ". . . cmpu . . . . . . . . cmps", IMM16|M_, 0x1180, 0x1190, 0x11a0, 0x11b0 },
	{ "+sube +cmpe . . . . +lde . . . . +adde . +divd", IMM8|M_, 0x1180, 0x1190, 0x11a0, 0x11b0 },
	{ ". . . . . . . +ste", M_, -1, 0x1190, 0x11a0, 0x11b0 },
	{ ". . . . . . . . . . . . . . +divq +muld", IMM16|M_, 0x1180, 0x1190, 0x11a0, 0x11b0 },
	{ "+subf +cmpf . . . . +ldf . . . . +addf", IMM8|M_, 0x11c0, 0x11d0, 0x11e0, 0x11f0 },
	{ ". . . . . . . +stf", M_, -1, 0x11d0, 0x11e0, 0x11f0 },
};
#define NROW (sizeof(map) / sizeof(map[0]))

/* the map, spread out: one entry per instruction of the selected ISA */
static struct { uint64_t name; unsigned type; int f[4]; } want[340];
static unsigned nwant;
static void spread(_Bool h6309) {
	nwant = 0;
	for (unsigned r = 0; r < NROW; r++) {
		const char *p = map[r].names;
		for (int col = 0; *p; col++) {
			uint64_t w = 0; _Bool ext = 0; int n = 0;
			if (*p == '+') { ext = 1; p++; }
			while (*p && *p != ' ') w |= (uint64_t)(unsigned char)*p++ << (8 * n++);
			if (*p == ' ') p++;
			if (w == '.') continue;
			if (ext && !h6309) continue;
			want[nwant].name = w;
			want[nwant].type = map[r].type;
			want[nwant].f[0] = map[r].imm < 0 ? -1 : map[r].imm + col;
			want[nwant].f[1] = map[r].dir < 0 ? -1 : map[r].dir + col;
			want[nwant].f[2] = map[r].idx < 0 ? -1 : map[r].idx + col;
			want[nwant].f[3] = map[r].ext < 0 ? -1 : map[r].ext + col;
			nwant++;
		}
	}
}

/* --- contract of dict ------------------------------------------------------ */
static struct { uint64_t key; void *value; } tab[340];
static unsigned ntab, ndict;
static char dict_obj;
size_t hash_djb2_case(const void *k, size_t m) { return 0; }
bool dict_str_equal_case(const void *a, const void *b) { return vh_fold(a) == vh_fold(b); }
size_t hash_djb2(const void *k, size_t m) { return 0; }
bool dict_str_equal(const void *a, const void *b) { return vh_pack(a) == vh_pack(b); }
static _Bool dict_case;
struct dict *dict_new(Hash_hasher h, Hash_comparator c) {
	ASSERT(ndict == 0, "one dictionary");
	ndict++;
	ASSERT((h == dict_str_hash_case && c == dict_str_equal_case) || (h == dict_str_hash && c == dict_str_equal), "dictionary: equal keys hash alike");
	dict_case = h == dict_str_hash_case;
	return (struct dict *)&dict_obj;
}
void dict_insert(struct dict *d, void *k, void *v) {
	ASSERT(d == (struct dict *)&dict_obj && ntab < 340, "dict_insert: into the dictionary");
	uint64_t w = dict_case ? vh_fold(k) : vh_pack(k);
	tab[ntab].key = w; tab[ntab].value = v; ntab++;
}
void *dict_lookup(struct dict *d, const void *k) {
	ASSERT(d == (struct dict *)&dict_obj, "dict_lookup: in the dictionary");
	uint64_t w = dict_case ? vh_fold(k) : vh_pack(k);
	void *r = NULL;
	for (unsigned i = 0; i < ntab; i++) if (tab[i].key == w) r = tab[i].value;
	return r;
}
void dict_destroy(struct dict *d) { }

void vh_main(void) {
	G = (struct vh_ghost){0};
	ntab = ndict = 0;
	opcodes = NULL;
	asm6809_options.isa = VH_ISA ? asm6809_isa_6309 : asm6809_isa_6809;
	spread(VH_ISA);
	opcode_init();
	char name[VH_NAMEMAX + 1];
	vh_name(name);
	struct opcode const *op = opcode_by_name(name);
	uint64_t w = vh_fold(name);
	unsigned type = 0; int f[4] = {-1,-1,-1,-1}; unsigned found = 0;
	for (unsigned i = 0; i < nwant; i++)
		if (want[i].name == w) { found++; type = want[i].type; f[0] = want[i].f[0]; f[1] = want[i].f[1]; f[2] = want[i].f[2]; f[3] = want[i].f[3]; }
	ASSERT(found <= 1, "each name once in the map");
	CHECK("opcode_by_name: exactly the names of the instruction set are known", (op != NULL) == (found == 1));
	if (op && found) {
		CHECK("opcode_by_name: kind and addressing forms of the instruction", op->type == type);
		CHECK("opcode_by_name: opcode of the non-memory form", f[0] < 0 || op->immediate == f[0]);
		CHECK("opcode_by_name: opcode of the direct form", f[1] < 0 || op->direct == f[1]);
		CHECK("opcode_by_name: opcode of the indexed form", f[2] < 0 || op->indexed == f[2]);
		CHECK("opcode_by_name: opcode of the extended form", f[3] < 0 || op->extended == f[3]);
		COVER("known");
	} else {
		COVER("unknown");
	}
}
