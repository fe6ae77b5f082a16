/* spec_x86.h - lengths and branch classification of x86 instructions.
 *
 * Written from the opcode maps and instruction format chapter of the Intel
 * SDM (and the APX, AVX10 extensions for REX2 and EVEX map 4), independently
 * of the tables in /repo.  Encodings that are undefined or reserved are
 * `unspecified': any length and class is acceptable for them.
 */
#ifndef SPEC_X86_H
#define SPEC_X86_H

/* One character per opcode:
 *
 *   -  no operand bytes           m  modrm
 *   b  imm8                       B  modrm, imm8
 *   z  imm16/32                   Z  modrm, imm16/32
 *   w  imm16                      e  imm16, imm8
 *   j  rel8                       J  rel16/32
 *   p  far pointer (not 64b)      o  memory offset
 *   v  imm16/32/64                f, F  group 3 (test has an immediate)
 *   i  as - but not in 64b        I  as m but not in 64b
 *   k  as b but not in 64b        8  as B but not in 64b
 *   c  group 11, imm8             C  group 11, imm16/32
 *   r  modrm, always a register   x  unspecified
 *   s  not with 66 or F2 (AMD)    P  prefix or escape
 */
static const char x86_map0[] =
	"mmmmbziimmmmbziP" "mmmmbziimmmmbzii"
	"mmmmbzPimmmmbzPi" "mmmmbzPimmmmbzPi"
	"----------------" "----------------"
	"iiImPPPPzZbB----" "jjjjjjjjjjjjjjjj"
	"BZ8Bmmmmmmmmmmmm" "----------p-----"
	"oooo----bz------" "bbbbbbbbvvvvvvvv"
	"BBw-IIcCe-w--bi-" "mmmmkkx-mmmmmmmm"
	"jjjjbbbbJJpj----" "P-PP--fF------mm";

static const char x86_map1[] =
	"mmmmx-----x-xmxx" "mmmmmmmmmmmmmmmm"
	"rrrrxxxxmmmmmmmm" "------x-PxPxxxxx"
	"mmmmmmmmmmmmmmmm" "mmmmmmmmmmmmmmmm"
	"mmmmmmmmmmmmmmmm" "BBBBmmm-smxxmmmm"
	"JJJJJJJJJJJJJJJJ" "mmmmmmmmmmmmmmmm"
	"---mBmxx---mBmmm" "mmmmmmmmmmBmmmmm"
	"mmBmBBBm--------" "mmmmmmmmmmmmmmmm"
	"mmmmmmmmmmmmmmmm" "mmmmmmmmmmmmmmmx";

struct x86_pfx {
	enum pt_exec_mode mode;
	int osz, asz, f2, f3, last;	/* last of f2 (2), f3 (3), or 0 */
	int lock;
	uint8_t rex;			/* immediately before the opcode */
};

struct x86_insn {
	int known;			/* 0: unspecified */
	int len;			/* from the first byte after the prefixes */
	int iclass;			/* enum pt_insn_class */
	int ext;			/* pti_inst_enum_t */
	int direct;
	int64_t disp;
};

static int x86_is_legacy_prefix(uint8_t b)
{
	return b == 0x26 || b == 0x2e || b == 0x36 || b == 0x3e ||
		b == 0x64 || b == 0x65 || b == 0x66 || b == 0x67 ||
		b == 0xf0 || b == 0xf2 || b == 0xf3;
}

/* Effective operand size in bytes, without defaulting to 64 bit. */
static int x86_osize(const struct x86_pfx *p, int rexw, int osz)
{
	if (p->mode == ptem_64bit)
		return rexw ? 8 : osz ? 2 : 4;
	if (p->mode == ptem_32bit)
		return osz ? 2 : 4;
	return osz ? 4 : 2;
}

/* Effective address size in bytes. */
static int x86_asize(const struct x86_pfx *p)
{
	if (p->mode == ptem_64bit)
		return p->asz ? 4 : 8;
	if (p->mode == ptem_32bit)
		return p->asz ? 2 : 4;
	return p->asz ? 4 : 2;
}

/* Number of SIB and displacement bytes. */
static int x86_modrm_extra(const struct x86_pfx *p, uint8_t modrm, uint8_t sib)
{
	int mod = modrm >> 6, rm = modrm & 7;

	if (mod == 3)
		return 0;

	if (x86_asize(p) == 2) {
		if (mod == 0)
			return rm == 6 ? 2 : 0;
		return mod;
	}

	if (rm == 4) {
		if (mod == 0)
			return (sib & 7) == 5 ? 5 : 1;
		return mod == 1 ? 2 : 5;
	}

	if (mod == 0)
		return rm == 5 ? 4 : 0;
	return mod == 1 ? 1 : 4;
}

static int64_t x86_sext(const uint8_t *b, int n)
{
	uint64_t v = 0;
	int i;

	for (i = 0; i < 8; ++i)
		if (i < n)
			v |= (uint64_t) b[i] << (8 * i);

	switch (n) {
	case 1:
		return (int8_t) v;
	case 2:
		return (int16_t) v;
	case 4:
		return (int32_t) v;
	}
	return (int64_t) v;
}

/* The class of a legacy-encoded instruction. */
static void x86_classify(struct x86_insn *r, const struct x86_pfx *p, int map,
			 uint8_t op, uint8_t modrm, int rex2, int regx)
{
	int reg = (modrm >> 3) & 7, mod = modrm >> 6;

#define CLASS(c, e) do { r->iclass = c; r->ext = e; } while (0)
	if (map == 0) {
		if ((op & 0xf0) == 0x70)
			CLASS(ptic_cond_jump, PTI_INST_JCC);
		else switch (op) {
		case 0x9a: CLASS(ptic_far_call, PTI_INST_CALL_9A); break;
		case 0xea: CLASS(ptic_far_jump, PTI_INST_JMP_EA); break;
		case 0xe0: CLASS(ptic_cond_jump, PTI_INST_LOOPNE); break;
		case 0xe1: CLASS(ptic_cond_jump, PTI_INST_LOOPE); break;
		case 0xe2: CLASS(ptic_cond_jump, PTI_INST_LOOP); break;
		case 0xe3: CLASS(ptic_cond_jump, PTI_INST_JrCXZ); break;
		case 0xe8: CLASS(ptic_call, PTI_INST_CALL_E8); break;
		case 0xe9: CLASS(ptic_jump, PTI_INST_JMP_E9); break;
		case 0xeb: CLASS(ptic_jump, PTI_INST_JMP_EB); break;
		case 0xc2: CLASS(ptic_return, PTI_INST_RET_C2); break;
		case 0xc3: CLASS(ptic_return, PTI_INST_RET_C3); break;
		case 0xca: CLASS(ptic_far_return, PTI_INST_RET_CA); break;
		case 0xcb: CLASS(ptic_far_return, PTI_INST_RET_CB); break;
		case 0xcc: CLASS(ptic_far_call, PTI_INST_INT3); break;
		case 0xcd: CLASS(ptic_far_call, PTI_INST_INT); break;
		case 0xce: CLASS(ptic_far_call, PTI_INST_INTO); break;
		case 0xcf: CLASS(ptic_far_return, PTI_INST_IRET); break;
		case 0xf1: CLASS(ptic_far_call, PTI_INST_INT1); break;
		case 0xff:
			if (reg == 2)
				CLASS(ptic_call, PTI_INST_CALL_FFr2);
			else if (reg == 3)
				CLASS(ptic_far_call, PTI_INST_CALL_FFr3);
			else if (reg == 4)
				CLASS(ptic_jump, PTI_INST_JMP_FFr4);
			else if (reg == 5)
				CLASS(ptic_far_jump, PTI_INST_JMP_FFr5);
			break;
		}
		if (rex2 && op == 0xa1)
			CLASS(ptic_jump, PTI_INST_JMPABS);
		return;
	}

	if (map != 1)
		return;

	if ((op & 0xf0) == 0x80)
		CLASS(ptic_cond_jump, PTI_INST_JCC);
	else switch (op) {
	case 0x01:
		switch (modrm) {
		case 0xc1: CLASS(ptic_far_call, PTI_INST_VMCALL); break;
		case 0xc2: CLASS(ptic_far_return, PTI_INST_VMLAUNCH); break;
		case 0xc3: CLASS(ptic_far_return, PTI_INST_VMRESUME); break;
		case 0xec: CLASS(ptic_far_return, PTI_INST_UIRET); break;
		case 0xca:
			if (p->last == 2)
				CLASS(ptic_far_return, PTI_INST_ERETS);
			else if (p->last == 3)
				CLASS(ptic_far_return, PTI_INST_ERETU);
			break;
		}
		break;
	case 0x05: CLASS(ptic_far_call, PTI_INST_SYSCALL); break;
	case 0x07: CLASS(ptic_far_return, PTI_INST_SYSRET); break;
	case 0x34: CLASS(ptic_far_call, PTI_INST_SYSENTER); break;
	case 0x35: CLASS(ptic_far_return, PTI_INST_SYSEXIT); break;
	case 0x22:
		if (reg == 3 && !regx)
			r->ext = PTI_INST_MOV_CR3;
		break;
	case 0xae:
		if (reg == 4 && p->f3 && !p->osz)
			CLASS(ptic_ptwrite, PTI_INST_PTWRITE);
		break;
	case 0xc7:
		if (reg == 6 && mod != 3)
			r->ext = PTI_INST_VMPTRLD;
		break;
	}
#undef CLASS
}

/* An instruction in a legacy map: @b points to the byte after the opcode. */
static void x86_legacy(struct x86_insn *r, const struct x86_pfx *p, int map,
		       uint8_t op, const uint8_t *b, int pos, int rexw,
		       int regx, int rex2)
{
	uint8_t modrm = b[0], sib = b[1];
	int reg = (modrm >> 3) & 7, m64 = p->mode == ptem_64bit;
	int osize = x86_osize(p, rexw, p->osz);
	int z = osize == 2 ? 2 : 4;
	int mem = 1 + x86_modrm_extra(p, modrm, sib);
	int rel = 0;
	char c;

	r->known = 1;
	switch (map) {
	case 0:
		c = x86_map0[op];
		break;
	case 1:
		c = x86_map1[op];
		break;
	case 2:
		c = 'm';
		break;
	default:
		c = 'B';
		break;
	}

	/* Not with REX2: reserved rows. */
	if (rex2) {
		uint8_t row = op >> 4;

		if (map == 0 && (row == 4 || row == 7 || row == 0xa ||
				 row == 0xe)) {
			if (op != 0xa1 || rexw || p->osz || p->asz)
				r->known = 0;
		}
		if (map == 1 && (row == 3 || row == 8))
			r->known = 0;
	}

	switch (c) {
	case 'i':
		if (m64)
			r->known = 0;
		/* fall through */
	case '-':
		r->len = pos;
		break;

	case 'k':
		if (m64)
			r->known = 0;
		/* fall through */
	case 'b':
		r->len = pos + 1;
		break;

	case 'I':
		if (m64)
			r->known = 0;
		r->len = pos + mem;
		break;

	case 's':
		if (p->osz || p->last == 2)
			r->known = 0;
		r->len = pos + mem;
		break;

	case 'm':
		r->len = pos + mem;
		break;

	case 'r':
		r->len = pos + 1;
		break;

	case '8':
		if (m64)
			r->known = 0;
		/* fall through */
	case 'B':
		r->len = pos + mem + 1;
		break;

	case 'c':
		if (reg != 0 && modrm != 0xf8)
			r->known = 0;
		r->len = pos + mem + 1;
		break;

	case 'C':
		if (reg != 0 && modrm != 0xf8)
			r->known = 0;
		/* fall through */
	case 'Z':
		r->len = pos + mem + z;
		break;

	case 'f':
		r->len = pos + mem + (reg < 2 ? 1 : 0);
		break;

	case 'F':
		r->len = pos + mem + (reg < 2 ? z : 0);
		break;

	case 'z':
		r->len = pos + z;
		break;

	case 'w':
		r->len = pos + 2;
		break;

	case 'e':
		r->len = pos + 3;
		break;

	case 'v':
		r->len = pos + osize;
		break;

	case 'p':
		if (m64)
			r->known = 0;
		r->len = pos + z + 2;
		break;

	case 'o':
		r->len = pos + x86_asize(p);
		break;

	case 'j':
		rel = 1;
		r->len = pos + rel;
		break;

	case 'J':
		rel = m64 ? 4 : z;
		r->len = pos + rel;
		break;

	default:
		r->known = 0;
		break;
	}

	if (!r->known)
		return;

	x86_classify(r, p, map, op, modrm, rex2, regx);
	if (r->ext == PTI_INST_JMPABS)
		rel = 8;
	if (rel) {
		r->direct = 1;
		r->disp = x86_sext(b, rel);
	}
}

/* VEX- (1) and EVEX- (2) encoded instructions. */
static void x86_vex(struct x86_insn *r, const struct x86_pfx *p, int vex,
		    int map, int pp, int w, uint8_t op, const uint8_t *b,
		    int pos)
{
	uint8_t modrm = b[0], sib = b[1];
	int reg = (modrm >> 3) & 7;
	int mem = 1 + x86_modrm_extra(p, modrm, sib);
	int z = x86_osize(p, w, pp == 1) == 2 ? 2 : 4;
	int imm = 0;

	/* Legacy prefixes other than segment override and address size, and
	 * REX, are not allowed.
	 */
	r->known = !(p->osz || p->f2 || p->f3 || p->lock || p->rex);

	switch (map) {
	case 1:
		if (vex == 1 && op == 0x77) {
			mem = 0;
			break;
		}
		if (vex == 1 && 0x78 <= op && op <= 0x7b)
			r->known = 0;
		if ((op & 0xf0) < 0x10 || (0x20 <= op && op <= 0x27) ||
		    (op & 0xf0) == 0x30 || (op & 0xf0) == 0x80 ||
		    ((op & 0xf0) == 0xa0 && op != 0xae) ||
		    (op & 0xf0) == 0xb0 ||
		    ((op & 0xf0) == 0xc0 && op != 0xc2 && op != 0xc4 &&
		     op != 0xc5 && op != 0xc6))
			r->known = 0;
		if ((0x70 <= op && op <= 0x73) || op == 0xc2 || op == 0xc4 ||
		    op == 0xc5 || op == 0xc6)
			imm = 1;
		break;

	case 2:
		break;

	case 3:
		imm = 1;
		break;

	case 4:
		if (vex == 1 || p->mode != ptem_64bit) {
			r->known = 0;
			break;
		}
		switch (op) {
		case 0x24: case 0x2c: case 0x6b: case 0x80: case 0x83:
		case 0xc0: case 0xc1:
			imm = 1;
			break;
		case 0x69: case 0x81:
			imm = z;
			break;
		case 0xf6:
			imm = reg < 2 ? 1 : 0;
			break;
		case 0xf7:
			imm = reg < 2 ? z : 0;
			break;
		default:
			/* alu, ccmp, cmov, setcc, movbe, adcx, test, pop2,
			 * shld, imul, shift, crc32, invpcid etc., popcnt,
			 * inc/dec, push2
			 */
			if (!(op <= 0x3b && (op & 7) <= 3) &&
			    (op & 0xf0) != 0x40 && op != 0x60 && op != 0x61 &&
			    op != 0x66 && op != 0x84 && op != 0x85 &&
			    op != 0x88 && op != 0x8f && op != 0xa5 &&
			    op != 0xad && op != 0xaf &&
			    !(0xd0 <= op && op <= 0xd3) &&
			    !(0xf0 <= op && op <= 0xf5) && op != 0xf8 &&
			    op != 0xf9 && op != 0xfc && op != 0xfe &&
			    op != 0xff)
				r->known = 0;
			break;
		}
		break;

	case 5:
	case 6:
		if (vex == 1)
			r->known = 0;
		break;

	case 7:
		imm = 4;
		if (op != 0xf8 || (modrm >> 6) != 3)
			r->known = 0;
		break;

	default:
		r->known = 0;
		break;
	}

	r->len = pos + mem + imm;
}

/* Everything that follows the prefixes @p.
 *
 * @b must provide 15 bytes.
 */
static struct x86_insn x86_decode(const struct x86_pfx *p, const uint8_t *b)
{
	struct x86_insn r;
	int m64 = p->mode == ptem_64bit;
	int rexw = m64 && (p->rex & 8), rexr = m64 && (p->rex & 4);
	uint8_t op = b[0];

	r.known = 0;
	r.len = 0;
	r.iclass = ptic_other;
	r.ext = PTI_INST_INVALID;
	r.direct = 0;
	r.disp = 0;

	if (op == 0x0f) {
		if (b[1] == 0x38)
			x86_legacy(&r, p, 2, b[2], b + 3, 3, rexw, rexr, 0);
		else if (b[1] == 0x3a)
			x86_legacy(&r, p, 3, b[2], b + 3, 3, rexw, rexr, 0);
		else
			x86_legacy(&r, p, 1, b[1], b + 2, 2, rexw, rexr, 0);
		return r;
	}

	if (op == 0xd5 && m64) {
		uint8_t pl = b[1];

		x86_legacy(&r, p, pl >> 7, b[2], b + 3, 3, pl & 8,
			   (pl & 4) || (pl & 0x40), 1);
		if (p->rex)
			r.known = 0;
		return r;
	}

	if (m64 || (b[1] & 0xc0) == 0xc0) {
		switch (op) {
		case 0xc5:
			x86_vex(&r, p, 1, 1, b[1] & 3, 0, b[2], b + 3, 3);
			return r;
		case 0xc4:
			x86_vex(&r, p, 1, b[1] & 0x1f, b[2] & 3, b[2] >> 7,
				b[3], b + 4, 4);
			return r;
		case 0x62:
			x86_vex(&r, p, 2, b[1] & 7, b[2] & 3, b[2] >> 7,
				b[4], b + 5, 5);
			return r;
		}
	}

	x86_legacy(&r, p, 0, op, b + 1, 1, rexw, rexr, 0);
	return r;
}

#endif
