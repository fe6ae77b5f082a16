/* Last-IP decompression: every compression mode, every previous state. */
#include "vf.h"
#include "libipt/src/pt_last_ip.c"

int pt_last_ip_update_ip(struct pt_last_ip *last_ip,
			 const struct pt_packet_ip *packet,
			 const struct pt_config *config)
VF_REQUIRES(last_ip != NULL && packet != NULL)
VF_ASSIGNS(*last_ip);

/* What the user sees of the state. */
static void see(const struct pt_last_ip *l, int *st, uint64_t *ip)
{
	*ip = 0x5a5a;
	*st = pt_last_ip_query(ip, l);
	VF_ASSERT(pt_last_ip_query(NULL, l) == *st, "asking without an IP");
}

void harness(void)
{
	struct pt_last_ip l;
	struct pt_packet_ip p;
	struct pt_config c;
	uint64_t prev, ip, want;
	int st, ret, have, supp;

	memset(&l, 0, sizeof(l));
	l.ip = prev = vf_u64();
	l.have_ip = have = vf_bool();
	l.suppressed = supp = vf_bool();
	p.ip = vf_u64();
	p.ipc = (enum pt_ip_compression) vf_range(0, 7);
	memset(&c, 0, sizeof(c));

	see(&l, &st, &ip);
	VF_ASSERT(st == (!have ? -pte_noip : supp ? -pte_ip_suppressed : 0),
		  "state of the IP");
	VF_ASSERT(ip == (st ? 0 : prev), "the IP, if there is one");

	ret = pt_last_ip_update_ip(&l, &p, &c);
	switch ((int) p.ipc) {
	case 0:
		want = prev;
		VF_ASSERT(ret == 0, "suppressed");
		see(&l, &st, &ip);
		VF_ASSERT(st == (have ? -pte_ip_suppressed : -pte_noip),
			  "the IP is suppressed");
		VF_ASSERT(l.ip == prev && !l.have_ip == !have,
			  "a suppressed IP keeps the last IP");
		break;
	case 1:
		want = (prev >> 16 << 16) + (p.ip % 0x10000);
		goto good;
	case 2:
		want = (prev >> 32 << 32) + (p.ip % 0x100000000);
		goto good;
	case 3:
		want = p.ip % 0x1000000000000;
		if (want >= 0x800000000000)
			want += 0xffff000000000000;
		goto good;
	case 4:
		want = (prev >> 48 << 48) + (p.ip % 0x1000000000000);
		goto good;
	case 6:
		want = p.ip;
	good:
		VF_ASSERT(ret == 0, "an IP update");
		see(&l, &st, &ip);
		VF_ASSERT(st == 0, "there is an IP");
		VF_ASSERT(ip == want, "the decompressed IP");
		VF_ASSERT(l.ip == want && l.have_ip && !l.suppressed,
			  "the base of the next update");
		break;
	default:
		VF_ASSERT(ret == -pte_bad_packet, "reserved compression");
		VF_ASSERT(l.ip == prev && !l.have_ip == !have &&
			  !l.suppressed == !supp,
			  "an error does not change the IP");
		break;
	}

	if (vf_bool()) {
		pt_last_ip_init(&l);
		see(&l, &st, &ip);
		VF_ASSERT(st == -pte_noip && ip == 0, "no IP after reset");
		VF_ASSERT(l.ip == 0 && !l.suppressed, "zero after reset");
	}
	VF_REACH("end");
}
