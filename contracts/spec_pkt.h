/* Executable specification of the Intel PT packet format, written from the
 * format tables of the Intel SDM (Vol. 3, Intel Processor Trace), with literal
 * constants.  It shares no code with the library: only the public packet
 * structure is used to hold results.
 */
#ifndef SPEC_PKT_H
#define SPEC_PKT_H

#include "intel-pt.h"

/* Little-endian value of n bytes. */
static uint64_t sp_le(const uint8_t *b, unsigned int n)
{
	uint64_t v = 0;

	if (n > 0) v |= (uint64_t) b[0];
	if (n > 1) v |= (uint64_t) b[1] << 8;
	if (n > 2) v |= (uint64_t) b[2] << 16;
	if (n > 3) v |= (uint64_t) b[3] << 24;
	if (n > 4) v |= (uint64_t) b[4] << 32;
	if (n > 5) v |= (uint64_t) b[5] << 40;
	if (n > 6) v |= (uint64_t) b[6] << 48;
	if (n > 7) v |= (uint64_t) b[7] << 56;

	return v;
}

/* Index of the most significant set bit; 0 for 0 and 1. */
static uint8_t sp_msb(uint64_t v)
{
	uint8_t r = 0;

	if (v >> 32) { r += 32; v >>= 32; }
	if (v >> 16) { r += 16; v >>= 16; }
	if (v >> 8) { r += 8; v >>= 8; }
	if (v >> 4) { r += 4; v >>= 4; }
	if (v >> 2) { r += 2; v >>= 2; }
	if (v >> 1) { r += 1; }

	return r;
}

static int sp_ip(const uint8_t *b, uint64_t n, struct pt_packet *p,
		 enum pt_packet_type type)
{
	unsigned int ipc = b[0] >> 5, len;

	switch (ipc) {
	case 0: len = 0; break;
	case 1: len = 2; break;
	case 2: len = 4; break;
	case 3: len = 6; break;
	case 4: len = 6; break;
	case 6: len = 8; break;
	default: return -pte_bad_packet;
	}

	if (n < 1 + len)
		return -pte_eos;

	p->type = type;
	p->payload.ip.ipc = (enum pt_ip_compression) ipc;
	p->payload.ip.ip = sp_le(b + 1, len);
	return (int) (1 + len);
}

static int sp_tnt(uint64_t v, struct pt_packet *p, enum pt_packet_type type,
		  int size)
{
	uint8_t stop;

	if (v <= 1)
		return -pte_bad_packet;

	stop = sp_msb(v);
	p->type = type;
	p->payload.tnt.bit_size = stop;
	p->payload.tnt.payload = v ^ (1ull << stop);
	return size;
}

/* Decoding returns SP_UNKNOWN for an opcode the format does not define. */
#define SP_UNKNOWN	(-1000)

/* Decode the packet at b of which n bytes are available (in the buffer).
 *
 * Returns the packet size, a negative error code, or SP_UNKNOWN.
 */
static int sp_decode(const uint8_t *b, uint64_t n, struct pt_packet *p)
{
	uint64_t v;
	uint8_t op, ext;

#define SP_NEED(k) do { if (n < (k)) return -pte_eos; } while (0)

	SP_NEED(1);
	op = b[0];

	/* The opcodes with all bits fixed. */
	if (op == 0x00) {
		p->type = ppt_pad;
		return 1;
	}

	if (op == 0x99) {
		SP_NEED(2);
		p->type = ppt_mode;
		if ((b[1] & 0xe0) == 0x00) {
			p->payload.mode.leaf = pt_mol_exec;
			p->payload.mode.bits.exec.csl = b[1] & 1;
			p->payload.mode.bits.exec.csd = (b[1] >> 1) & 1;
			p->payload.mode.bits.exec.iflag = (b[1] >> 2) & 1;
			return 2;
		}
		if ((b[1] & 0xe0) == 0x20) {
			p->payload.mode.leaf = pt_mol_tsx;
			p->payload.mode.bits.tsx.intx = b[1] & 1;
			p->payload.mode.bits.tsx.abrt = (b[1] >> 1) & 1;
			return 2;
		}
		return -pte_bad_packet;
	}

	if (op == 0x19) {
		SP_NEED(8);
		p->type = ppt_tsc;
		p->payload.tsc.tsc = sp_le(b + 1, 7);
		return 8;
	}

	if (op == 0x59) {
		SP_NEED(2);
		p->type = ppt_mtc;
		p->payload.mtc.ctc = b[1];
		return 2;
	}

	if (op == 0xd9) {
		SP_NEED(3);
		if (b[1] & 0x40)
			SP_NEED(5);
		p->type = ppt_trig;
		p->payload.trig.ip = b[1] >> 7;
		p->payload.trig.icntv = (b[1] >> 6) & 1;
		p->payload.trig.mult = (b[1] >> 5) & 1;
		p->payload.trig.trbv = b[2];
		if (b[1] & 0x40) {
			p->payload.trig.icnt = (uint16_t) sp_le(b + 3, 2);
			return 5;
		}
		return 3;
	}

	if (op == 0x02) {
		SP_NEED(2);
		ext = b[1];

		switch (ext) {
		case 0x82:
			SP_NEED(16);
			if (sp_le(b, 8) != 0x8202820282028202ull ||
			    sp_le(b + 8, 8) != 0x8202820282028202ull)
				return -pte_bad_packet;
			p->type = ppt_psb;
			return 16;

		case 0x23:
			p->type = ppt_psbend;
			return 2;

		case 0xf3:
			p->type = ppt_ovf;
			return 2;

		case 0x83:
			p->type = ppt_stop;
			return 2;

		case 0x03:
			SP_NEED(4);
			p->type = ppt_cbr;
			p->payload.cbr.ratio = b[2];
			return 4;

		case 0x73:
			SP_NEED(7);
			/* Byte 4 and all but one bit of byte 6 are reserved. */
			if (b[4] || (b[6] & 0xfe))
				return -pte_bad_packet;
			p->type = ppt_tma;
			p->payload.tma.ctc = (uint16_t) sp_le(b + 2, 2);
			p->payload.tma.fc = (uint16_t) sp_le(b + 5, 2);
			return 7;

		case 0x43:
			SP_NEED(8);
			v = sp_le(b + 2, 6);
			p->type = ppt_pip;
			p->payload.pip.nr = v & 1;
			p->payload.pip.cr3 = (v >> 1) << 5;
			return 8;

		case 0xc8:
			SP_NEED(7);
			p->type = ppt_vmcs;
			p->payload.vmcs.base = sp_le(b + 2, 5) << 12;
			return 7;

		case 0x62:
		case 0xe2:
			p->type = ppt_exstop;
			p->payload.exstop.ip = ext >> 7;
			return 2;

		case 0xc2:
			SP_NEED(10);
			p->type = ppt_mwait;
			p->payload.mwait.hints = (uint32_t) sp_le(b + 2, 4);
			p->payload.mwait.ext = (uint32_t) sp_le(b + 6, 4);
			return 10;

		case 0x22:
			SP_NEED(4);
			p->type = ppt_pwre;
			p->payload.pwre.hw = (b[2] >> 3) & 1;
			p->payload.pwre.sub_state = b[3] & 0xf;
			p->payload.pwre.state = b[3] >> 4;
			return 4;

		case 0xa2:
			SP_NEED(7);
			p->type = ppt_pwrx;
			p->payload.pwrx.deepest = b[2] & 0xf;
			p->payload.pwrx.last = b[2] >> 4;
			p->payload.pwrx.interrupt = b[3] & 1;
			p->payload.pwrx.store = (b[3] >> 2) & 1;
			p->payload.pwrx.autonomous = (b[3] >> 3) & 1;
			return 7;

		case 0xa3:
			SP_NEED(8);
			return sp_tnt(sp_le(b + 2, 6), p, ppt_tnt_64, 8);

		case 0x13:
			SP_NEED(4);
			p->type = ppt_cfe;
			p->payload.cfe.type =
				(enum pt_cfe_type) (b[2] & 0x1f);
			p->payload.cfe.ip = b[2] >> 7;
			p->payload.cfe.vector = b[3];
			return 4;

		case 0x53:
			SP_NEED(11);
			p->type = ppt_evd;
			p->payload.evd.type =
				(enum pt_evd_type) (b[2] & 0x1f);
			p->payload.evd.payload = sp_le(b + 3, 8);
			return 11;

		case 0xc3:
			SP_NEED(3);
			if (b[2] != 0x88)
				return SP_UNKNOWN;
			SP_NEED(11);
			p->type = ppt_mnt;
			p->payload.mnt.payload = sp_le(b + 3, 8);
			return 11;

		default:
			break;
		}

		if ((ext & 0x1f) == 0x12) {
			unsigned int len;

			switch ((ext >> 5) & 3) {
			case 0: len = 4; break;
			case 1: len = 8; break;
			default: return -pte_bad_packet;
			}

			SP_NEED(2 + len);
			p->type = ppt_ptw;
			p->payload.ptw.plc = (ext >> 5) & 3;
			p->payload.ptw.ip = ext >> 7;
			p->payload.ptw.payload = sp_le(b + 2, len);
			return (int) (2 + len);
		}

		return SP_UNKNOWN;
	}

	/* CYC: bits 1:0 = 11b; bit 2 = exp; 5 payload bits in the first byte,
	 * 7 in each following byte, as long as the exp bit (bit 0) is set.
	 * The largest supported counter has 61 bits (9 bytes).
	 */
	if ((op & 3) == 3) {
		unsigned int i;

		v = op >> 3;
		if (!(op & 4)) {
			p->type = ppt_cyc;
			p->payload.cyc.value = v;
			return 1;
		}

		for (i = 1; i <= 9; ++i) {
			SP_NEED(i + 1);
			if (i == 9)
				return -pte_bad_packet;

			v |= (uint64_t) (b[i] >> 1) << (5 + 7 * (i - 1));
			if (!(b[i] & 1)) {
				p->type = ppt_cyc;
				p->payload.cyc.value = v;
				return (int) (i + 1);
			}
		}
		return -pte_bad_packet;
	}

	/* Short TNT: bit 0 clear. */
	if (!(op & 1))
		return sp_tnt(op >> 1, p, ppt_tnt_8, 1);

	switch (op & 0x1f) {
	case 0x0d: return sp_ip(b, n, p, ppt_tip);
	case 0x11: return sp_ip(b, n, p, ppt_tip_pge);
	case 0x01: return sp_ip(b, n, p, ppt_tip_pgd);
	case 0x1d: return sp_ip(b, n, p, ppt_fup);
	default: break;
	}

	return SP_UNKNOWN;
#undef SP_NEED
}

/* Do the packets have the same type and the same meaning (all fields that are
 * defined for the type)? */
static int sp_same(const struct pt_packet *a, const struct pt_packet *b)
{
	if (a->type != b->type)
		return 0;

	switch (a->type) {
	case ppt_invalid:
	case ppt_pad:
	case ppt_psb:
	case ppt_psbend:
	case ppt_stop:
	case ppt_ovf:
		return 1;

	case ppt_unknown:
		return a->payload.unknown.packet == b->payload.unknown.packet &&
			a->payload.unknown.priv == b->payload.unknown.priv;

	case ppt_fup:
	case ppt_tip:
	case ppt_tip_pge:
	case ppt_tip_pgd:
		return a->payload.ip.ipc == b->payload.ip.ipc &&
			a->payload.ip.ip == b->payload.ip.ip;

	case ppt_tnt_8:
	case ppt_tnt_64:
		return a->payload.tnt.bit_size == b->payload.tnt.bit_size &&
			a->payload.tnt.payload == b->payload.tnt.payload;

	case ppt_mode:
		if (a->payload.mode.leaf != b->payload.mode.leaf)
			return 0;
		if (a->payload.mode.leaf == pt_mol_exec)
			return a->payload.mode.bits.exec.csl ==
				b->payload.mode.bits.exec.csl &&
				a->payload.mode.bits.exec.csd ==
				b->payload.mode.bits.exec.csd &&
				a->payload.mode.bits.exec.iflag ==
				b->payload.mode.bits.exec.iflag;
		return a->payload.mode.bits.tsx.intx ==
			b->payload.mode.bits.tsx.intx &&
			a->payload.mode.bits.tsx.abrt ==
			b->payload.mode.bits.tsx.abrt;

	case ppt_pip:
		return a->payload.pip.cr3 == b->payload.pip.cr3 &&
			a->payload.pip.nr == b->payload.pip.nr;

	case ppt_vmcs:
		return a->payload.vmcs.base == b->payload.vmcs.base;

	case ppt_cbr:
		return a->payload.cbr.ratio == b->payload.cbr.ratio;

	case ppt_tsc:
		return a->payload.tsc.tsc == b->payload.tsc.tsc;

	case ppt_tma:
		return a->payload.tma.ctc == b->payload.tma.ctc &&
			a->payload.tma.fc == b->payload.tma.fc;

	case ppt_mtc:
		return a->payload.mtc.ctc == b->payload.mtc.ctc;

	case ppt_cyc:
		return a->payload.cyc.value == b->payload.cyc.value;

	case ppt_mnt:
		return a->payload.mnt.payload == b->payload.mnt.payload;

	case ppt_exstop:
		return a->payload.exstop.ip == b->payload.exstop.ip;

	case ppt_mwait:
		return a->payload.mwait.hints == b->payload.mwait.hints &&
			a->payload.mwait.ext == b->payload.mwait.ext;

	case ppt_pwre:
		return a->payload.pwre.state == b->payload.pwre.state &&
			a->payload.pwre.sub_state ==
			b->payload.pwre.sub_state &&
			a->payload.pwre.hw == b->payload.pwre.hw;

	case ppt_pwrx:
		return a->payload.pwrx.last == b->payload.pwrx.last &&
			a->payload.pwrx.deepest == b->payload.pwrx.deepest &&
			a->payload.pwrx.interrupt ==
			b->payload.pwrx.interrupt &&
			a->payload.pwrx.store == b->payload.pwrx.store &&
			a->payload.pwrx.autonomous ==
			b->payload.pwrx.autonomous;

	case ppt_ptw:
		return a->payload.ptw.plc == b->payload.ptw.plc &&
			a->payload.ptw.ip == b->payload.ptw.ip &&
			a->payload.ptw.payload == b->payload.ptw.payload;

	case ppt_cfe:
		return a->payload.cfe.type == b->payload.cfe.type &&
			a->payload.cfe.vector == b->payload.cfe.vector &&
			a->payload.cfe.ip == b->payload.cfe.ip;

	case ppt_evd:
		return a->payload.evd.type == b->payload.evd.type &&
			a->payload.evd.payload == b->payload.evd.payload;

	case ppt_trig:
		return a->payload.trig.trbv == b->payload.trig.trbv &&
			a->payload.trig.ip == b->payload.trig.ip &&
			a->payload.trig.icntv == b->payload.trig.icntv &&
			a->payload.trig.mult == b->payload.trig.mult &&
			(!a->payload.trig.icntv ||
			 a->payload.trig.icnt == b->payload.trig.icnt);
	}

	return 0;
}

#endif /* SPEC_PKT_H */
