/* Configuration: user structure sizes, processor errata, address filters. */
#include "vf.h"
#include "libipt/src/pt_config.c"

int pt_cpu_errata(struct pt_errata *errata, const struct pt_cpu *cpu)
VF_REQUIRES(errata != NULL && cpu != NULL)
VF_ASSIGNS(*errata);

#ifdef ERRATA
enum { BDM70 = 1, BDM64 = 2, SKD007 = 4, SKD022 = 8, SKD010 = 16, SKL014 = 32,
       APL12 = 64, APL11 = 128, SKL168 = 256, SKZ84 = 512 };

static const struct {
	uint16_t family;
	uint8_t model;
	int mask;
} table[] = {
#define BDW	(BDM70 | BDM64)
	{ 6, 0x3d, BDW }, { 6, 0x47, BDW }, { 6, 0x4f, BDW }, { 6, 0x56, BDW },
#define SKL	(BDM70 | SKD007 | SKD022 | SKD010 | SKL014 | SKL168)
	{ 6, 0x4e, SKL }, { 6, 0x5e, SKL }, { 6, 0x8e, SKL }, { 6, 0x9e, SKL },
	{ 6, 0xa5, SKL }, { 6, 0xa6, SKL },
#define SKX	(BDM70 | SKL014 | SKD022 | SKZ84)
	{ 6, 0x55, SKX }, { 6, 0x6a, SKX }, { 6, 0x6c, SKX },
#define SPR	(BDM70 | SKD022 | SKZ84)
	{ 6, 0x8f, SPR }, { 6, 0xcf, SPR }, { 6, 0xad, SPR }, { 6, 0xae, SPR },
	{ 0x13, 0x01, SPR },
#define ICL	(BDM70 | SKL014 | SKD022)
	{ 6, 0x66, ICL }, { 6, 0x7d, ICL }, { 6, 0x7e, ICL }, { 6, 0x8c, ICL },
	{ 6, 0x8d, ICL }, { 6, 0xa7, ICL }, { 6, 0xa8, ICL },
#define ADL	(BDM70 | SKD022 | APL11)
	{ 6, 0x97, ADL }, { 6, 0x9a, ADL }, { 6, 0xba, ADL }, { 6, 0xb7, ADL },
	{ 6, 0xbf, ADL }, { 6, 0xc5, ADL }, { 6, 0xc6, ADL }, { 6, 0xb5, ADL },
	{ 6, 0xaa, ADL }, { 6, 0xac, ADL }, { 6, 0xbd, ADL }, { 6, 0xcc, ADL },
	{ 6, 0x5c, APL12 | APL11 }, { 6, 0x5f, APL12 | APL11 },
	{ 6, 0x7a, APL11 }, { 6, 0x86, APL11 }, { 6, 0x96, APL11 },
	{ 6, 0x9c, APL11 }, { 6, 0xb6, APL11 }, { 6, 0xaf, APL11 },
	{ 6, 0xdd, APL11 },
};
#endif

#define OFF_DECODE 24

void harness(void)
{
#if defined(ERRATA)
	struct pt_cpu cpu;
	struct pt_errata e;
	int i, ret, want = -1, got, n = sizeof(table) / sizeof(*table);

	memset(&cpu, 0, sizeof(cpu));
	memset(&e, 0xff, sizeof(e));
	cpu.vendor = vf_bool() ? pcv_intel : pcv_unknown;
	cpu.family = vf_u16();
	cpu.model = vf_u8();
	cpu.stepping = vf_u8();
#ifndef VF_CBMC
	if (vf_bool())
		cpu.family = 6;
#endif
	for (i = 0; i < n; ++i)
		if (cpu.vendor == pcv_intel && cpu.family == table[i].family &&
		    cpu.model == table[i].model)
			want = table[i].mask;
	ret = pt_cpu_errata(&e, &cpu);
	VF_ASSERT(ret == (want < 0 ? -pte_bad_cpu : 0),
		  "exactly the known processors");
	got = (e.bdm70 ? BDM70 : 0) | (e.bdm64 ? BDM64 : 0) |
		(e.skd007 ? SKD007 : 0) | (e.skd022 ? SKD022 : 0) |
		(e.skd010 ? SKD010 : 0) | (e.skl014 ? SKL014 : 0) |
		(e.apl12 ? APL12 : 0) | (e.apl11 ? APL11 : 0) |
		(e.skl168 ? SKL168 : 0) | (e.skz84 ? SKZ84 : 0);
	VF_ASSERT(got == (want < 0 ? 0 : want), "exactly their errata");
	for (i = 0; i < 15; ++i)
		VF_ASSERT(!e.reserved[i], "reserved errata are clear");
#elif defined(FROM)
	/* SIZE: size of the user's configuration */
	struct pt_config c;
	uint8_t *u, *begin, *end;
	size_t size = SIZE, k;
	int ret, bad;

	u = malloc(SIZE < 24 ? 24 : SIZE);
	VF_ASSUME(u != NULL);
	for (k = 24; k < SIZE; ++k)
		u[k] = vf_u8();
	begin = (uint8_t *) (uintptr_t) vf_range(0, 1ull << 47);
	end = (uint8_t *) (uintptr_t) vf_range(0, 1ull << 47);
	memcpy(u, &size, 8);
	memcpy(u + 8, &begin, 8);
	memcpy(u + 16, &end, 8);
	memset(&c, 0x55, sizeof(c));
	ret = pt_config_from_user(&c, (const struct pt_config *) u);
	bad = SIZE < OFF_DECODE || !begin || !end || end < begin;
	VF_ASSERT(ret == (bad ? -pte_bad_config : 0),
		  "a size and a buffer are required");
	if (!ret) {
		VF_ASSERT(c.size == (SIZE < sizeof(c) ? SIZE : sizeof(c)),
			  "size of the known part");
		VF_ASSERT(c.begin == begin && c.end == end, "the buffer");
		for (k = 24; k < sizeof(c); ++k)
			VF_ASSERT(((uint8_t *) &c)[k] == (k < SIZE ? u[k] : 0),
				  "the user's values; unknown ones are zero");
	}
#elif defined(FILTER)
	struct pt_conf_addr_filter f;
	uint64_t a[8], b[8], ip, cfg;
	int i, ret, stop = 0, in = 0, any = 0;

	memset(&f, 0, sizeof(f));
	cfg = f.config.addr_cfg = vf_u64();
	for (i = 0; i < 8; ++i) {
		a[i] = vf_u64();
		b[i] = vf_u64();
	}
	ip = vf_u64();
#ifndef VF_CBMC
	if (vf_bool()) {
		i = ip & 7;
		ip = (ip & 8 ? a[i] : b[i]) + (ip >> 4 & 1) - (ip >> 5 & 1);
	}
#endif
	f.addr0_a = a[0]; f.addr0_b = b[0];
	f.addr1_a = a[1]; f.addr1_b = b[1];
	f.addr2_a = a[2]; f.addr2_b = b[2];
	f.addr3_a = a[3]; f.addr3_b = b[3];
	for (i = 4; i < 8; ++i) {
		f.reserved[2 * i - 8] = a[i];
		f.reserved[2 * i - 7] = b[i];
	}
	for (i = 0; i < 8; ++i) {
		uint64_t c = cfg >> (4 * i) & 15;
		int hit = a[i] <= ip && ip <= b[i];

		VF_ASSERT(pt_filter_addr_cfg(&f, i) == c, "configuration");
		VF_ASSERT(pt_filter_addr_a(&f, i) == a[i], "lower bound");
		VF_ASSERT(pt_filter_addr_b(&f, i) == b[i], "upper bound");
		any |= c == 1;
		in |= c == 1 && hit;
		stop |= c == 2 && hit;
	}
	i = (int) vf_range(8, 1000);
	VF_ASSERT(!pt_filter_addr_cfg(&f, i) && !pt_filter_addr_a(&f, i) &&
		  !pt_filter_addr_b(&f, i), "no such filter");
	ret = pt_filter_addr_check(&f, ip);
	VF_ASSERT(ret >= 0 && !!ret == (!stop && (in || !any)),
		  "traced: not stopped, and filtered in if there is a filter");
#endif
	VF_REACH("end");
}
