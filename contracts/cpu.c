/* Processor identification: family/model[/stepping]. */
#include "vf.h"
#include "intel-pt.h"
#include <stdlib.h>
#include <limits.h>

#ifdef VF_CBMC
/* libc: any number of at least zero characters is consumed, any value. */
static const char *g_s;
static long g_v[3];
static int g_e[3], g_n, g_len;

static long vf_strtol(const char *s, char **endptr, int base)
{
	int at = (int) (s - g_s), e;
	long v;

	VF_ASSERT(base == 0, "any base");
	VF_ASSERT(at <= g_len, "within the string");
	VF_ASSERT(g_n < 3, "three numbers at most");
	e = (int) vf_range((uint64_t) at, (uint64_t) g_len);
	v = (long) vf_u64();
	VF_ASSUME(e != at || v == 0);
	if (g_n < 3) {
		g_v[g_n] = v;
		g_e[g_n] = e;
	}
	g_n += 1;
	*endptr = (char *) s + (e - at);
	return v;
}
#define strtol vf_strtol
#include "libipt/src/pt_cpu.c"
#undef strtol

#define LEN 8

void harness(void)
{
	struct pt_cpu cpu, old;
	static char s[LEN + 1];
	int i, ret, ok, n;

	g_len = LEN;
	for (i = 0; i < LEN; ++i) {
		int k = (int) vf_range(0, 2);

		s[i] = k == 0 ? '/' : k == 1 ? '1' : 'x';
	}
	g_len = (int) vf_range(0, LEN);
	s[g_len] = 0;
	g_s = s;
	memset(&cpu, 0, sizeof(cpu));
	cpu.vendor = pcv_unknown;
	cpu.family = vf_u16();
	cpu.model = vf_u8();
	cpu.stepping = vf_u8();
	old = cpu;
	ret = pt_cpu_parse(&cpu, s);
	n = g_n;
	ok = n >= 2 && g_e[0] > 0 && s[g_e[0]] == '/' &&
		g_v[0] >= 0 && g_v[0] <= 0xffff &&
		g_e[1] > g_e[0] + 1 && g_v[1] >= 0 && g_v[1] <= 0xff;
	if (n == 2)
		ok = ok && s[g_e[1]] == 0;
	if (n == 3)
		ok = ok && s[g_e[1]] == '/' && s[g_e[2]] == 0 &&
			g_v[2] >= 0 && g_v[2] <= 0xff;
	VF_ASSERT(ret == (ok ? 0 : -pte_invalid),
		  "two or three numbers in range, nothing else");
	if (!ret) {
		VF_ASSERT(cpu.vendor == pcv_intel, "vendor");
		VF_ASSERT(cpu.family == (uint16_t) g_v[0], "family");
		VF_ASSERT(cpu.model == (uint8_t) g_v[1], "model");
		VF_ASSERT(cpu.stepping == (n == 3 ? (uint8_t) g_v[2] : 0),
			  "stepping");
	} else
		VF_ASSERT(cpu.vendor == old.vendor &&
			  cpu.family == old.family && cpu.model == old.model
			  && cpu.stepping == old.stepping, "unchanged");
	VF_REACH("end");
}
#else
#include "libipt/src/pt_cpu.c"

/* native: print and parse again */
void harness(void)
{
	struct pt_cpu cpu;
	char s[64];
	long f = (long) vf_range(0, 0x10100), m = (long) vf_range(0, 0x110),
		st = (long) vf_range(0, 0x110);
	int three = vf_bool(), ret, ok;

	if (three)
		snprintf(s, sizeof(s), "%ld/%ld/%ld", f, m, st);
	else
		snprintf(s, sizeof(s), "%ld/%ld", f, m);
	ret = pt_cpu_parse(&cpu, s);
	ok = f <= 0xffff && m <= 0xff && (!three || st <= 0xff);
	VF_ASSERT(ret == (ok ? 0 : -pte_invalid),
		  "two or three numbers in range, nothing else");
	if (!ret)
		VF_ASSERT(cpu.vendor == pcv_intel && cpu.family == f &&
			  cpu.model == m && cpu.stepping == (three ? st : 0),
			  "the numbers");
	VF_REACH("end");
}
#endif
