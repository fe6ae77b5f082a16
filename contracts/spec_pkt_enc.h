/* Executable specification of packet encoding (the inverse direction of
 * spec_pkt.h), literal bytes from the format tables.  Payload fields that are
 * wider in the packet structure than in the packet are encoded by their low
 * bits; reserved bits are zero.
 */
#ifndef SPEC_PKT_ENC_H
#define SPEC_PKT_ENC_H

#include "intel-pt.h"

static void sp_put(uint8_t *b, uint64_t v, unsigned int n)
{
	if (n > 0) b[0] = (uint8_t) v;
	if (n > 1) b[1] = (uint8_t) (v >> 8);
	if (n > 2) b[2] = (uint8_t) (v >> 16);
	if (n > 3) b[3] = (uint8_t) (v >> 24);
	if (n > 4) b[4] = (uint8_t) (v >> 32);
	if (n > 5) b[5] = (uint8_t) (v >> 40);
	if (n > 6) b[6] = (uint8_t) (v >> 48);
	if (n > 7) b[7] = (uint8_t) (v >> 56);
}

/* Encode @p into @b.  Returns the size or a negative error code.  @wf is set
 * to zero if the packet is not well-formed but its treatment is unspecified.
 */
static int sp_encode(const struct pt_packet *p, uint8_t b[16], int *wf)
{
	uint64_t v;
	unsigned int len;

	*wf = 1;
	switch (p->type) {
	case ppt_pad:
		b[0] = 0x00;
		return 1;

	case ppt_psb:
		sp_put(b, 0x8202820282028202ull, 8);
		sp_put(b + 8, 0x8202820282028202ull, 8);
		return 16;

	case ppt_psbend:
		sp_put(b, 0x2302, 2);
		return 2;

	case ppt_ovf:
		sp_put(b, 0xf302, 2);
		return 2;

	case ppt_stop:
		sp_put(b, 0x8302, 2);
		return 2;

	case ppt_fup:
	case ppt_tip:
	case ppt_tip_pge:
	case ppt_tip_pgd:
		switch ((int) p->payload.ip.ipc) {
		case 0: len = 0; break;
		case 1: len = 2; break;
		case 2: len = 4; break;
		case 3: len = 6; break;
		case 4: len = 6; break;
		case 6: len = 8; break;
		default: return -pte_invalid;
		}

		b[0] = p->type == ppt_fup ? 0x1d :
			p->type == ppt_tip ? 0x0d :
			p->type == ppt_tip_pge ? 0x11 : 0x01;
		b[0] |= (uint8_t) ((unsigned int) p->payload.ip.ipc << 5);
		sp_put(b + 1, p->payload.ip.ip, len);
		return (int) (1 + len);

	case ppt_tnt_8:
		if (p->payload.tnt.bit_size >= 7)
			return -pte_bad_packet;
		if (!p->payload.tnt.bit_size ||
		    p->payload.tnt.payload >> p->payload.tnt.bit_size)
			*wf = 0;
		b[0] = (uint8_t) ((p->payload.tnt.payload |
				   (1ull << p->payload.tnt.bit_size)) << 1);
		return 1;

	case ppt_tnt_64:
		if (p->payload.tnt.bit_size >= 48 ||
		    p->payload.tnt.payload >> p->payload.tnt.bit_size)
			return -pte_invalid;
		if (!p->payload.tnt.bit_size)
			*wf = 0;
		sp_put(b, 0xa302, 2);
		sp_put(b + 2, p->payload.tnt.payload |
		       (1ull << p->payload.tnt.bit_size), 6);
		return 8;

	case ppt_mode:
		b[0] = 0x99;
		if (p->payload.mode.leaf == 0x00)
			b[1] = (uint8_t) (p->payload.mode.bits.exec.csl |
				p->payload.mode.bits.exec.csd << 1 |
				p->payload.mode.bits.exec.iflag << 2);
		else if (p->payload.mode.leaf == 0x20)
			b[1] = (uint8_t) (0x20 |
				p->payload.mode.bits.tsx.intx |
				p->payload.mode.bits.tsx.abrt << 1);
		else
			return -pte_bad_packet;
		return 2;

	case ppt_pip:
		sp_put(b, 0x4302, 2);
		sp_put(b + 2, (p->payload.pip.cr3 >> 5) << 1 |
		       p->payload.pip.nr, 6);
		return 8;

	case ppt_tsc:
		b[0] = 0x19;
		sp_put(b + 1, p->payload.tsc.tsc, 7);
		return 8;

	case ppt_cbr:
		sp_put(b, 0x0302, 2);
		b[2] = p->payload.cbr.ratio;
		b[3] = 0;
		return 4;

	case ppt_tma:
		if (p->payload.tma.fc > 0x1ff)
			return -pte_bad_packet;
		sp_put(b, 0x7302, 2);
		sp_put(b + 2, p->payload.tma.ctc, 2);
		b[4] = 0;
		sp_put(b + 5, p->payload.tma.fc, 2);
		return 7;

	case ppt_mtc:
		b[0] = 0x59;
		b[1] = p->payload.mtc.ctc;
		return 2;

	case ppt_cyc:
		v = p->payload.cyc.value;
		b[0] = (uint8_t) (3 | (v & 0x1f) << 3);
		v >>= 5;
		len = 1;
		if (v) {
			b[0] |= 4;
			/* v has at most 59 bits: at most 9 more bytes. */
#define SP_CYC(i)	\
	if (v) { b[i] = (uint8_t) ((v & 0x7f) << 1); v >>= 7; \
		if (v) b[i] |= 1; len = i + 1; }
			SP_CYC(1) SP_CYC(2) SP_CYC(3) SP_CYC(4) SP_CYC(5)
			SP_CYC(6) SP_CYC(7) SP_CYC(8) SP_CYC(9)
#undef SP_CYC
		}
		/* The decoder supports 61-bit counters. */
		if (p->payload.cyc.value >> 61)
			*wf = 0;
		return (int) len;

	case ppt_vmcs:
		sp_put(b, 0xc802, 2);
		sp_put(b + 2, p->payload.vmcs.base >> 12, 5);
		return 7;

	case ppt_mnt:
		sp_put(b, 0x88c302, 3);
		sp_put(b + 3, p->payload.mnt.payload, 8);
		return 11;

	case ppt_exstop:
		sp_put(b, p->payload.exstop.ip ? 0xe202 : 0x6202, 2);
		return 2;

	case ppt_mwait:
		sp_put(b, 0xc202, 2);
		sp_put(b + 2, p->payload.mwait.hints, 4);
		sp_put(b + 6, p->payload.mwait.ext, 4);
		return 10;

	case ppt_pwre:
		sp_put(b, 0x2202, 2);
		b[2] = p->payload.pwre.hw ? 0x08 : 0x00;
		b[3] = (uint8_t) ((p->payload.pwre.sub_state & 0xf) |
				  (p->payload.pwre.state & 0xf) << 4);
		return 4;

	case ppt_pwrx:
		sp_put(b, 0xa202, 2);
		b[2] = (uint8_t) ((p->payload.pwrx.deepest & 0xf) |
				  (p->payload.pwrx.last & 0xf) << 4);
		b[3] = (uint8_t) (p->payload.pwrx.interrupt |
				  p->payload.pwrx.store << 2 |
				  p->payload.pwrx.autonomous << 3);
		sp_put(b + 4, 0, 3);
		return 7;

	case ppt_ptw:
		switch (p->payload.ptw.plc) {
		case 0: len = 4; break;
		case 1: len = 8; break;
		case 2:
		case 3: return -pte_bad_packet;
		default: return -pte_internal;
		}
		b[0] = 0x02;
		b[1] = (uint8_t) (0x12 | p->payload.ptw.plc << 5 |
				  p->payload.ptw.ip << 7);
		sp_put(b + 2, p->payload.ptw.payload, len);
		return (int) (2 + len);

	case ppt_cfe:
		sp_put(b, 0x1302, 2);
		b[2] = (uint8_t) (((unsigned int) p->payload.cfe.type & 0x1f) |
				  p->payload.cfe.ip << 7);
		b[3] = p->payload.cfe.vector;
		return 4;

	case ppt_evd:
		sp_put(b, 0x5302, 2);
		b[2] = (uint8_t) ((unsigned int) p->payload.evd.type & 0x1f);
		sp_put(b + 3, p->payload.evd.payload, 8);
		return 11;

	case ppt_trig:
		b[0] = 0xd9;
		b[1] = (uint8_t) (p->payload.trig.ip << 7 |
				  p->payload.trig.icntv << 6 |
				  p->payload.trig.mult << 5);
		b[2] = p->payload.trig.trbv;
		if (!p->payload.trig.icntv)
			return 3;
		sp_put(b + 3, p->payload.trig.icnt, 2);
		return 5;

	case ppt_unknown:
	case ppt_invalid:
		break;
	}

	return -pte_bad_opc;
}

/* An arbitrary packet of type @type. */
static void sp_arbitrary(struct pt_packet *p, enum pt_packet_type type)
{
	memset(p, 0, sizeof(*p));
	p->type = type;
	p->size = vf_u8();

	switch (type) {
	default:
		break;

	case ppt_fup:
	case ppt_tip:
	case ppt_tip_pge:
	case ppt_tip_pgd:
		p->payload.ip.ipc = (enum pt_ip_compression) vf_u32();
		p->payload.ip.ip = vf_u64();
		break;

	case ppt_tnt_8:
	case ppt_tnt_64:
		p->payload.tnt.bit_size = vf_u8();
		p->payload.tnt.payload = vf_u64();
		break;

	case ppt_mode:
		p->payload.mode.leaf = (enum pt_mode_leaf) vf_u32();
		if (vf_bool()) {
			p->payload.mode.bits.exec.csl = vf_bool();
			p->payload.mode.bits.exec.csd = vf_bool();
			p->payload.mode.bits.exec.iflag = vf_bool();
		} else {
			p->payload.mode.bits.tsx.intx = vf_bool();
			p->payload.mode.bits.tsx.abrt = vf_bool();
		}
		break;

	case ppt_pip:
		p->payload.pip.cr3 = vf_u64();
		p->payload.pip.nr = vf_bool();
		break;

	case ppt_vmcs:
		p->payload.vmcs.base = vf_u64();
		break;

	case ppt_cbr:
		p->payload.cbr.ratio = vf_u8();
		break;

	case ppt_tsc:
		p->payload.tsc.tsc = vf_u64();
		break;

	case ppt_tma:
		p->payload.tma.ctc = vf_u16();
		p->payload.tma.fc = vf_u16();
		break;

	case ppt_mtc:
		p->payload.mtc.ctc = vf_u8();
		break;

	case ppt_cyc:
		p->payload.cyc.value = vf_u64();
		break;

	case ppt_mnt:
		p->payload.mnt.payload = vf_u64();
		break;

	case ppt_exstop:
		p->payload.exstop.ip = vf_bool();
		break;

	case ppt_mwait:
		p->payload.mwait.hints = vf_u32();
		p->payload.mwait.ext = vf_u32();
		break;

	case ppt_pwre:
		p->payload.pwre.state = vf_u8();
		p->payload.pwre.sub_state = vf_u8();
		p->payload.pwre.hw = vf_bool();
		break;

	case ppt_pwrx:
		p->payload.pwrx.last = vf_u8();
		p->payload.pwrx.deepest = vf_u8();
		p->payload.pwrx.interrupt = vf_bool();
		p->payload.pwrx.store = vf_bool();
		p->payload.pwrx.autonomous = vf_bool();
		break;

	case ppt_ptw:
		p->payload.ptw.payload = vf_u64();
		p->payload.ptw.plc = vf_u8();
		p->payload.ptw.ip = vf_bool();
		break;

	case ppt_cfe:
		p->payload.cfe.type = (enum pt_cfe_type) vf_u32();
		p->payload.cfe.vector = vf_u8();
		p->payload.cfe.ip = vf_bool();
		break;

	case ppt_evd:
		p->payload.evd.type = (enum pt_evd_type) vf_u32();
		p->payload.evd.payload = vf_u64();
		break;

	case ppt_trig:
		p->payload.trig.trbv = vf_u8();
		p->payload.trig.icnt = vf_u16();
		p->payload.trig.ip = vf_bool();
		p->payload.trig.icntv = vf_bool();
		p->payload.trig.mult = vf_bool();
		break;
	}
}

/* The part of the packet that its encoding can represent. */
static struct pt_packet sp_normal(struct pt_packet p)
{
	switch (p.type) {
	default:
		break;

	case ppt_fup:
	case ppt_tip:
	case ppt_tip_pge:
	case ppt_tip_pgd:
		switch ((int) p.payload.ip.ipc) {
		case 0: p.payload.ip.ip = 0; break;
		case 1: p.payload.ip.ip &= 0xffffull; break;
		case 2: p.payload.ip.ip &= 0xffffffffull; break;
		case 3:
		case 4: p.payload.ip.ip &= 0xffffffffffffull; break;
		}
		break;

	case ppt_pip:
		p.payload.pip.cr3 &= 0x000fffffffffffe0ull;
		break;

	case ppt_vmcs:
		p.payload.vmcs.base &= 0x000ffffffffff000ull;
		break;

	case ppt_tsc:
		p.payload.tsc.tsc &= 0x00ffffffffffffffull;
		break;

	case ppt_pwre:
		p.payload.pwre.state &= 0xf;
		p.payload.pwre.sub_state &= 0xf;
		break;

	case ppt_pwrx:
		p.payload.pwrx.last &= 0xf;
		p.payload.pwrx.deepest &= 0xf;
		break;

	case ppt_ptw:
		if (p.payload.ptw.plc == 0)
			p.payload.ptw.payload &= 0xffffffffull;
		break;

	case ppt_cfe:
		p.payload.cfe.type = (enum pt_cfe_type)
			((unsigned int) p.payload.cfe.type & 0x1f);
		break;

	case ppt_evd:
		p.payload.evd.type = (enum pt_evd_type)
			((unsigned int) p.payload.evd.type & 0x1f);
		break;
	}

	return p;
}

#endif /* SPEC_PKT_ENC_H */
