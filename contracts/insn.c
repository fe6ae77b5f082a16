/* C15: reading, decoding, and following single instructions (pt_insn.c).
 *
 * Reading memory follows the contract of pt_image_read (proved in image.c),
 * instruction length decode that of pt_ild_decode (proved in ild.c).
 */
#include "vf.h"
#include "libipt/src/pt_insn.c"

static struct pt_image *const image = (struct pt_image *) (uintptr_t) 0x1000;
static struct pt_asid asid;

#define MAXREAD 16
#define MAXI 6

/* The memory as image reads will find it, and the instructions in it. */
static int wit;			/* any byte: the one we look at */
static uint8_t mem[15];
static uint64_t at;		/* where the instruction begins */
static int reads, decodes, chunk[MAXREAD], isids[MAXREAD], have;
static int ilen;		/* the instruction's length */
static int bad, determined;	/* an undefined instruction */
static int single;
static struct pt_insn one;

static struct {
	int rc, len;
	enum pt_insn_class iclass;
	pti_inst_enum_t ext;
	int direct;
	int64_t disp;
	uint64_t ip;
} prog[MAXI];
static enum pt_exec_mode mode;

int pt_image_read(struct pt_image *im, int *isid, uint8_t *buffer,
		  uint16_t size, const struct pt_asid *as, uint64_t addr)
{
	int i, n;

	VF_ASSERT(im == image && as == &asid && isid && buffer, "read from the "
		  "image in the address space given");
	if (!single) {
		VF_ASSERT(decodes < MAXI && addr == prog[decodes].ip &&
			  size == 15, "read at the instruction");
		*isid = 1;
		for (i = 0; i < 15; ++i)
			buffer[i] = 0x90;
		return 15;
	}

	VF_ASSERT(reads < MAXREAD, "bounded number of reads");
	VF_ASSERT(addr == at + (uint64_t) have, "read on where we stopped");
	VF_ASSERT(0 < size && size + have <= 15, "within the instruction");
	VF_ASSERT(buffer == one.raw + have, "append the bytes");
	n = chunk[reads];
	if (n < 0) {
		reads += 1;
		return n;
	}
	if (n > size)
		n = size;
	*isid = isids[reads];
	if (have <= wit && wit < have + n)
		one.raw[wit] = mem[wit];
	have += n;
	reads += 1;
	return n;
}

int pt_ild_decode(struct pt_insn *insn, struct pt_insn_ext *iext)
{
	int i;

	if (!single) {
		VF_ASSERT(decodes < MAXI, "bounded number of decodes");
		i = decodes++;
		VF_ASSERT(insn->ip == prog[i].ip && insn->mode == mode &&
			  insn->size == 15, "instruction to decode");
		if (prog[i].rc)
			return prog[i].rc;
		insn->size = (uint8_t) prog[i].len;
		insn->iclass = prog[i].iclass;
		iext->iclass = prog[i].ext;
		iext->variant.branch.is_direct = (uint8_t) prog[i].direct;
		iext->variant.branch.displacement = prog[i].disp;
		return 0;
	}

	decodes += 1;
	VF_ASSERT(insn->size == have && insn->ip == at && insn->mode == mode,
		  "decode all bytes we have so far");
	if (insn->size < ilen)
		return -pte_bad_insn;
	if (!bad)
		insn->size = (uint8_t) ilen;
	else if (determined)
		insn->size = (uint8_t) (ilen - 1);
	if (bad)
		return bad;
	insn->iclass = ptic_jump;
	iext->iclass = PTI_INST_JMP_E9;
	return 0;
}

static int is_far(int c)
{
	return c == ptic_far_call || c == ptic_far_return ||
		c == ptic_far_jump;
}

static int is_near(int c)
{
	return c == ptic_call || c == ptic_return || c == ptic_jump ||
		c == ptic_cond_jump || c == ptic_indirect;
}

/* The architectural class of an instruction. */
static int class_of(pti_inst_enum_t e)
{
	switch (e) {
	case PTI_INST_CALL_9A: case PTI_INST_CALL_FFr3: case PTI_INST_INT:
	case PTI_INST_INT3: case PTI_INST_INT1: case PTI_INST_INTO:
	case PTI_INST_SYSCALL: case PTI_INST_SYSENTER: case PTI_INST_VMCALL:
		return ptic_far_call;
	case PTI_INST_RET_CB: case PTI_INST_RET_CA: case PTI_INST_IRET:
	case PTI_INST_SYSEXIT: case PTI_INST_SYSRET: case PTI_INST_VMLAUNCH:
	case PTI_INST_VMRESUME: case PTI_INST_UIRET: case PTI_INST_ERETS:
	case PTI_INST_ERETU:
		return ptic_far_return;
	case PTI_INST_JMP_EA: case PTI_INST_JMP_FFr5:
		return ptic_far_jump;
	case PTI_INST_CALL_FFr2: case PTI_INST_CALL_E8:
		return ptic_call;
	case PTI_INST_RET_C3: case PTI_INST_RET_C2:
		return ptic_return;
	case PTI_INST_JMP_E9: case PTI_INST_JMP_EB: case PTI_INST_JMP_FFr4:
	case PTI_INST_JMPABS:
		return ptic_jump;
	case PTI_INST_JCC: case PTI_INST_JrCXZ: case PTI_INST_LOOP:
	case PTI_INST_LOOPE: case PTI_INST_LOOPNE:
		return ptic_cond_jump;
	case PTI_INST_PTWRITE:
		return ptic_ptwrite;
	default:
		return ptic_other;
	}
}

static void classify(void)
{
	struct pt_insn insn;
	struct pt_insn_ext iext;
	pti_inst_enum_t e;
	int c, far;

	memset(&insn, 0, sizeof(insn));
	memset(&iext, 0, sizeof(iext));
	e = (pti_inst_enum_t) vf_range(0, PTI_INST_LAST - 1);
	c = class_of(e);
	far = is_far(c);
	insn.iclass = (enum pt_insn_class) c;
	iext.iclass = e;

	VF_ASSERT(!pt_insn_is_far_branch(&insn, &iext) == !far, "far branch");
	VF_ASSERT(!pt_insn_is_branch(&insn, &iext) == !(far || is_near(c)),
		  "branch");
	VF_ASSERT(!pt_insn_is_ptwrite(&insn, &iext) == (c != ptic_ptwrite),
		  "ptwrite");
	VF_ASSERT(!pt_insn_changes_cr3(&insn, &iext) ==
		  (e != PTI_INST_MOV_CR3), "changes cr3");
	VF_ASSERT(!pt_insn_binds_to_pip(&insn, &iext) ==
		  !(far || e == PTI_INST_MOV_CR3), "binds to PIP");
	VF_ASSERT(!pt_insn_binds_to_vmcs(&insn, &iext) ==
		  !(far || e == PTI_INST_VMPTRLD), "binds to VMCS");
	VF_ASSERT(!pt_insn_is_iret(&insn, &iext) ==
		  !(e == PTI_INST_IRET || e == PTI_INST_SYSRET ||
		    e == PTI_INST_SYSEXIT || e == PTI_INST_ERETS ||
		    e == PTI_INST_ERETU), "return from interrupt");
	VF_ASSERT(!pt_insn_is_vmentry(&insn, &iext) ==
		  !(e == PTI_INST_VMLAUNCH || e == PTI_INST_VMRESUME),
		  "VM entry");
	VF_ASSERT(!pt_insn_is_uiret(&insn, &iext) == (e != PTI_INST_UIRET),
		  "return from user interrupt");
	switch (e) {
	case PTI_INST_INT: case PTI_INST_INT3: case PTI_INST_INT1:
	case PTI_INST_INTO: case PTI_INST_IRET: case PTI_INST_SYSCALL:
	case PTI_INST_SYSENTER: case PTI_INST_SYSEXIT: case PTI_INST_SYSRET:
		VF_ASSERT(pt_insn_changes_cpl(&insn, &iext), "changes cpl");
		break;
	default:
		if (!far)
			VF_ASSERT(!pt_insn_changes_cpl(&insn, &iext),
				  "only far branches change cpl");
		break;
	}

	/* Public classes that the library does not use itself. */
	insn.iclass = ptic_indirect;
	VF_ASSERT(pt_insn_is_branch(&insn, &iext), "indirect branch");
	insn.iclass = ptic_unknown;
	VF_ASSERT(!pt_insn_is_branch(&insn, &iext) &&
		  !pt_insn_is_far_branch(&insn, &iext) &&
		  !pt_insn_is_ptwrite(&insn, &iext), "unknown");

	VF_ASSERT(!pt_insn_is_branch(NULL, &iext) &&
		  !pt_insn_is_far_branch(NULL, &iext) &&
		  !pt_insn_is_ptwrite(NULL, &iext) &&
		  !pt_insn_changes_cpl(&insn, NULL) &&
		  !pt_insn_changes_cr3(&insn, NULL) &&
		  !pt_insn_binds_to_pip(&insn, NULL) &&
		  !pt_insn_binds_to_vmcs(&insn, NULL) &&
		  !pt_insn_is_iret(&insn, NULL) &&
		  !pt_insn_is_vmentry(&insn, NULL) &&
		  !pt_insn_is_uiret(&insn, NULL), "no instruction");
	VF_REACH("end");
}

/* Where an instruction that does not need trace continues. */
static int spec_next(uint64_t *next, uint64_t ip, int len, int iclass, int ext,
		     int direct, int64_t disp)
{
	switch (iclass) {
	case ptic_other:
	case ptic_ptwrite:
		*next = ip + (uint64_t) len;
		return 0;
	case ptic_call:
	case ptic_jump:
		if (!direct || ext == PTI_INST_JMPABS)
			return -pte_bad_query;
		*next = ip + (uint64_t) len + (uint64_t) disp;
		return 0;
	case ptic_unknown:
		return -pte_bad_insn;
	default:
		return -pte_bad_query;
	}
}

static void next_ip(void)
{
	struct pt_insn insn;
	struct pt_insn_ext iext;
	uint64_t ip, next;
	int errcode, want;

	memset(&insn, 0, sizeof(insn));
	memset(&iext, 0, sizeof(iext));
	insn.ip = vf_u64();
	insn.size = (uint8_t) vf_range(0, 15);
	insn.iclass = (enum pt_insn_class) vf_range(ptic_unknown,
						    ptic_indirect);
	iext.iclass = (pti_inst_enum_t) vf_range(0, PTI_INST_LAST - 1);
	VF_ASSUME(iext.iclass != PTI_INST_JMPABS || insn.iclass == ptic_jump);
	iext.variant.branch.displacement = (int64_t) vf_u64();
	iext.variant.branch.is_direct = (uint8_t) vf_bool();
	ip = next = vf_u64();

	want = spec_next(&next, insn.ip, insn.size, insn.iclass, iext.iclass,
			 iext.variant.branch.is_direct,
			 iext.variant.branch.displacement);
	if (vf_bool()) {
		VF_ASSERT(pt_insn_next_ip(NULL, &insn, &iext) == want,
			  "no next ip requested");
		return;
	}
	errcode = pt_insn_next_ip(&ip, &insn, &iext);
	VF_ASSERT(errcode == want, "next ip known");
	VF_ASSERT(ip == next, "next ip");
	VF_REACH("end");
}

static void decode_one(void)
{
	struct pt_insn_ext iext;
	int i, n, errcode, want, err, first;

	single = 1;
	memset(&one, 0, sizeof(one));
	memset(&iext, 0, sizeof(iext));
	for (i = 0; i < 15; ++i)
		mem[i] = vf_u8();
	wit = (int) vf_range(0, 14);
	at = vf_u64();
	mode = (enum pt_exec_mode) vf_range(1, 3);
	one.ip = at;
	one.mode = mode;
	one.speculative = (uint32_t) vf_bool();
	ilen = (int) vf_range(1, 15);
	switch (vf_range(0, 3)) {
	default:
		bad = 0;
		break;
	case 1:
		bad = -pte_bad_insn;
		break;
	case 2:
		bad = -pte_internal;
		break;
	}
	/* The length of some bad instructions is determined. */
	determined = vf_bool() && ilen > 1;
	for (i = 0; i < MAXREAD; ++i) {
		chunk[i] = (int) vf_range(0, 20);
		if (chunk[i] < 1)
			chunk[i] = -pte_nomap;
		else if (chunk[i] > 15)
			chunk[i] = -pte_bad_image;
		isids[i] = vf_int();
	}

	/* What the memory offers. */
	n = 0;
	err = 0;
	first = chunk[0];
	for (i = 0; i < MAXREAD && n < ilen; ++i) {
		if (chunk[i] < 0) {
			err = chunk[i];
			break;
		}
		n += chunk[i];
	}

	errcode = pt_insn_decode(&one, &iext, image, &asid);

	VF_ASSERT(one.ip == at && one.mode == mode, "frame");
	if (first < 0) {
		VF_ASSERT(errcode == first, "no memory");
		return;
	}
	VF_ASSERT(one.isid == isids[0], "section of the first byte");
	if (wit < ilen && wit < n)
		VF_ASSERT(one.raw[wit] == mem[wit], "bytes");

	if (n < ilen) {
		want = err == -pte_nomap ? -pte_bad_insn : err;
		VF_ASSERT(errcode == want, "not enough memory");
		VF_REACH("short");
		return;
	}
	if (bad) {
		/* Without a length, we read on. */
		if (bad == -pte_bad_insn && !determined)
			VF_ASSERT(errcode < 0, "bad instruction");
		else
			VF_ASSERT(errcode == bad, "bad instruction");
		VF_REACH("bad");
		return;
	}
	VF_ASSERT(errcode == 0, "decoded");
	VF_ASSERT(one.size == ilen && one.iclass == ptic_jump &&
		  iext.iclass == PTI_INST_JMP_E9, "as decoded");
	VF_ASSERT(!one.truncated == (first >= ilen), "truncated if it "
		  "crosses a section boundary");
	VF_REACH("end");
}

/* Walk from begin to end. */
static void contiguous(void)
{
	uint64_t begin, end, ip;
	size_t steps;
	int i, want, status;

	begin = vf_u64();
	end = vf_u64();
	mode = (enum pt_exec_mode) vf_range(1, 3);
	steps = (size_t) vf_range(0, MAXI);
	for (i = 0; i < MAXI; ++i) {
		prog[i].rc = vf_bool() ? 0 : (int) -vf_range(1, 30);
		/* Retrying is covered above. */
		if (prog[i].rc == -pte_bad_insn)
			prog[i].rc = -pte_nomap;
		prog[i].len = (int) vf_range(1, 15);
		prog[i].iclass = (enum pt_insn_class)
			vf_range(ptic_unknown, ptic_indirect);
		prog[i].ext = (pti_inst_enum_t) vf_range(0, PTI_INST_LAST - 1);
		VF_ASSUME(prog[i].ext != PTI_INST_JMPABS ||
			  prog[i].iclass == ptic_jump);
		prog[i].direct = vf_bool();
		prog[i].disp = (int64_t) vf_u64();
	}

	want = 2;
	ip = begin;
	for (i = 0; i <= MAXI; ++i) {
		if (ip == end) {
			want = 1;
			break;
		}
		if ((size_t) i == steps) {
			want = 0;
			break;
		}
		prog[i].ip = ip;
		if (prog[i].rc) {
			want = prog[i].rc;
			break;
		}
		status = spec_next(&ip, ip, prog[i].len, prog[i].iclass,
				   prog[i].ext, prog[i].direct, prog[i].disp);
		if (status < 0) {
			want = status;
			break;
		}
	}
	VF_ASSUME(want != 2);

	status = pt_insn_range_is_contiguous(begin, end, mode, image, &asid,
					     steps);
	VF_ASSERT(status == want, "contiguous");
	VF_REACH("end");
}

void harness(void)
{
	reads = decodes = have = single = 0;
	memset(prog, 0, sizeof(prog));
#if defined(CLASS)
	classify();
#elif defined(NEXT)
	next_ip();
#elif defined(DECODE)
	decode_one();
#else
	contiguous();
#endif
}
