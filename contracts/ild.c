/* C14: instruction length decode (pt_ild.c).
 *
 * Decoding is a walk over the prefixes, followed by one instruction.  The
 * harness starts the walk after any number of prefixes, i.e. in any prefix
 * state at any position (vf_decode), and cuts it after one more step
 * (vf_prefix_next): by induction over the number of prefixes, this decides
 * every instruction.
 */
#include "vf.h"

#ifdef VF_CBMC
#endif

#include "libipt/src/pt_ild.c"
#include "spec_x86.h"

static struct x86_pfx in;	/* the prefixes */
static uint8_t in_len;		/* their length */
static uint8_t in_last;		/* REX is the last of them */
static uint8_t after[40];	/* the bytes that follow them */

#ifdef VF_CBMC
static int vf_next_called, vf_next_ret;
static uint8_t vf_next_len, vf_next_rex;
static struct pt_ild vf_next_ild;

int vf_prefix_next(struct pt_ild *ild, uint8_t length, uint8_t rex)
{
	vf_next_called += 1;
	vf_next_len = length;
	vf_next_rex = rex;
	vf_next_ild = *ild;
	return vf_next_ret;
}

#ifndef BASE
int vf_decode(struct pt_ild *ild)
{
	ild->osz = in.osz;
	ild->asz = in.asz;
	ild->lock = in.lock;
	ild->f2 = in.f2;
	ild->f3 = in.f3;
	ild->last_f2f3 = in.last;

	return prefix_decode(ild, in_len, in.rex);
}
#endif
#endif

void harness(void)
{
	struct pt_insn insn, old;
	struct pt_insn_ext iext;
	struct x86_insn spec;
	struct x86_pfx next;
	int i, n, errcode, f;
	uint8_t size, first;

	memset(&in, 0, sizeof(in));
	memset(&insn, 0, sizeof(insn));
	memset(&iext, 0xcc, sizeof(iext));
	memset(after, 0, sizeof(after));
	in.mode = MODE;
	in_len = 0;
#ifndef BASE
	in.osz = vf_bool();
	in.asz = vf_bool();
	in.lock = vf_bool();
	f = (int) vf_range(0, 4);
	in.f2 = f == 2 || f == 4;
	in.f3 = f == 3 || f == 1;
	in.last = f == 1 ? 3 : f == 4 ? 2 : f;
	if (f == 1)
		in.f2 = 1;
	if (f == 4)
		in.f3 = 1;
	in.rex = vf_u8();
	if (in.mode == ptem_64bit) {
		VF_ASSUME(!in.rex || (in.rex & 0xf0) == 0x40);
	} else
		VF_ASSUME(!in.rex);
	in_len = (uint8_t) vf_range(0, 15);
	n = in.osz + in.asz + in.lock + in.f2 + in.f3 + (in.rex ? 1 : 0);
	VF_ASSUME(n <= in_len);
#endif
	size = (uint8_t) vf_range(in_len + 1, 15);

	insn.ip = vf_u64();
	insn.mode = in.mode;
	insn.size = size;
	insn.isid = 0x1234;
	for (i = 0; i < 15; ++i)
		insn.raw[i] = vf_u8();
#ifdef FIRST
	insn.raw[0] = FIRST;
#endif

#ifdef VF_NATIVE
	/* Spell out the prefixes. */
	n = 0;
	while (n + in.osz + in.asz + in.lock + in.f2 + in.f3 +
	       (in.rex ? 1 : 0) < in_len)
		insn.raw[n++] = 0x2e;
	if (in.osz)
		insn.raw[n++] = 0x66;
	if (in.asz)
		insn.raw[n++] = 0x67;
	if (in.lock)
		insn.raw[n++] = 0xf0;
	if (in.last == 2) {
		if (in.f3)
			insn.raw[n++] = 0xf3;
		insn.raw[n++] = 0xf2;
	} else {
		if (in.f2)
			insn.raw[n++] = 0xf2;
		if (in.f3)
			insn.raw[n++] = 0xf3;
	}
	if (in.rex)
		insn.raw[n++] = in.rex;
#endif
	for (i = 0; i < 15; ++i)
		if (in_len + i < 15)
			after[i] = insn.raw[in_len + i];
	old = insn;
	first = after[0];

#ifdef VF_CBMC
	vf_next_called = 0;
	vf_next_ret = vf_int();
	VF_ASSUME((-64 <= vf_next_ret && vf_next_ret < 0) ||
		  (1 <= vf_next_ret && vf_next_ret <= 15));
#else
	(void) vf_int();
	/* One more prefix: not interesting in itself. */
	VF_ASSUME(!x86_is_legacy_prefix(first));
	VF_ASSUME(in.mode != ptem_64bit || (first & 0xf0) != 0x40);
#endif

	errcode = pt_ild_decode(&insn, &iext);

#ifdef VF_CBMC
	next = in;
	if (x86_is_legacy_prefix(first) ||
	    (in.mode == ptem_64bit && (first & 0xf0) == 0x40)) {
		next.rex = 0;
		if (first == 0x66)
			next.osz = 1;
		else if (first == 0x67)
			next.asz = 1;
		else if (first == 0xf0)
			next.lock = 1;
		else if (first == 0xf2) {
			next.f2 = 1;
			next.last = 2;
		} else if (first == 0xf3) {
			next.f3 = 1;
			next.last = 3;
		} else if ((first & 0xf0) == 0x40)
			next.rex = first;

		VF_ASSERT(vf_next_called == 1, "a prefix continues the walk");
		VF_ASSERT(vf_next_len == in_len, "at the next byte");
		VF_ASSERT(vf_next_rex == next.rex, "a REX prefix counts only "
			  "immediately before the opcode");
		VF_ASSERT(vf_next_ild.osz == (unsigned) next.osz &&
			  vf_next_ild.asz == (unsigned) next.asz &&
			  vf_next_ild.lock == (unsigned) next.lock &&
			  vf_next_ild.f2 == (unsigned) next.f2 &&
			  vf_next_ild.f3 == (unsigned) next.f3 &&
			  vf_next_ild.last_f2f3 == (unsigned) next.last,
			  "with the effect of exactly that prefix");
		VF_ASSERT(!vf_next_ild.vex && !vf_next_ild.rex2 &&
			  !vf_next_ild.disp_bytes && !vf_next_ild.imm1_bytes &&
			  !vf_next_ild.imm2_bytes && !vf_next_ild.modrm_byte &&
			  !vf_next_ild.rex_r && !vf_next_ild.rex_w &&
			  vf_next_ild.map == PTI_MAP_INVALID &&
			  vf_next_ild.max_bytes == size &&
			  vf_next_ild.itext == insn.raw &&
			  vf_next_ild.mode == in.mode,
			  "and nothing else");
		if (vf_next_ret < 0)
			VF_ASSERT(errcode == vf_next_ret && insn.size == size,
				  "errors are passed on");
		else
			VF_ASSERT(insn.size == vf_next_ret,
				  "the size is passed on");
		VF_REACH("prefix");
		return;
	}
	VF_ASSERT(!vf_next_called, "no further prefix");
#endif

	VF_ASSERT(insn.ip == old.ip && insn.mode == old.mode &&
		  insn.isid == old.isid && insn.speculative == old.speculative &&
		  insn.truncated == old.truncated &&
		  !memcmp(insn.raw, old.raw, 15), "frame");

	spec = x86_decode(&in, after);
	if (errcode < 0)
		VF_ASSERT(errcode == -pte_bad_insn, "documented error");
	else
		VF_ASSERT(errcode == 0 && in_len < insn.size &&
			  insn.size <= size, "size within the bytes given");

	if (!spec.known)
		return;

	if (size < in_len + spec.len) {
		VF_ASSERT(errcode == -pte_bad_insn && insn.size == size,
			  "incomplete instruction");
		VF_REACH("incomplete");
		return;
	}

	VF_ASSERT(errcode == 0, "defined instruction");
	VF_ASSERT(insn.size == in_len + spec.len, "instruction length");
	VF_ASSERT((int) insn.iclass == spec.iclass, "instruction class");
	VF_ASSERT((int) iext.iclass == spec.ext, "extended class");
	if (spec.iclass == ptic_call || spec.iclass == ptic_jump ||
	    spec.iclass == ptic_cond_jump)
		VF_ASSERT(!iext.variant.branch.is_direct == !spec.direct,
			  "direct branch");
	if (spec.direct)
		VF_ASSERT(iext.variant.branch.displacement == spec.disp,
			  "branch displacement");
	VF_REACH("end");
}
