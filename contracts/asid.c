/* Address space identifiers: matching and user structure sizes. */
#include "vf.h"
#include "libipt/src/pt_asid.c"

int pt_asid_match(const struct pt_asid *lhs, const struct pt_asid *rhs)
VF_ENSURES(VF_RET == 0 || VF_RET == 1)
VF_ASSIGNS();

#define NO (~0ull)

static int eq(uint64_t a, uint64_t b)
{
	return a == b || a == NO || b == NO;
}

void harness(void)
{
#if defined(MATCH)
	struct pt_asid a, b;
	int m;

	memset(&a, 0, sizeof(a));
	memset(&b, 0, sizeof(b));
	a.size = (size_t) vf_u64();
	b.size = (size_t) vf_u64();
	a.cr3 = vf_u64();
	b.cr3 = vf_u64();
	a.vmcs = vf_u64();
	b.vmcs = vf_u64();
	m = pt_asid_match(&a, &b);
	VF_ASSERT(m == (eq(a.cr3, b.cr3) && eq(a.vmcs, b.vmcs)),
		  "match: equal or wildcard in both");
#elif defined(FROM)
	/* SIZE: the size of the user's structure */
	uint8_t mem[SIZE < 8 ? 8 : SIZE], *u;
	struct pt_asid a;
	size_t size = SIZE;
	uint64_t cr3 = vf_u64(), vmcs = vf_u64(), v;
	int ret, i;

	u = malloc(sizeof(mem));
	VF_ASSUME(u != NULL);
	for (i = 0; i < (int) sizeof(mem); ++i)
		u[i] = vf_u8();
	memcpy(u, &size, 8);
	memset(&a, 0x77, sizeof(a));
	ret = pt_asid_from_user(&a, (const struct pt_asid *) u);
	VF_ASSERT(ret == 0, "any user size is accepted");
	VF_ASSERT(a.size == 24, "our size");
	if (SIZE >= 16) {
		memcpy(&v, u + 8, SIZE >= 16 ? 8 : 0);
		VF_ASSERT(a.cr3 == v, "the user's cr3");
	} else if (SIZE <= 8)
		VF_ASSERT(a.cr3 == NO, "no cr3");
	if (SIZE >= 24) {
		memcpy(&v, u + 16, SIZE >= 24 ? 8 : 0);
		VF_ASSERT(a.vmcs == v, "the user's vmcs");
	} else if (SIZE <= 16)
		VF_ASSERT(a.vmcs == NO, "no vmcs");
	ret = pt_asid_from_user(&a, NULL);
	VF_ASSERT(ret == 0 && a.size == 24 && a.cr3 == NO && a.vmcs == NO,
		  "no user asid: the default");
	(void) cr3;
	(void) vmcs;
#elif defined(TO)
	struct pt_asid a;
	uint8_t *u;
	uint64_t v;
	int ret;

	memset(&a, 0, sizeof(a));
	a.size = sizeof(a);
	a.cr3 = vf_u64();
	a.vmcs = vf_u64();
	u = malloc(SIZE ? SIZE : 1);
	VF_ASSUME(u != NULL);
	ret = pt_asid_to_user((struct pt_asid *) u, &a, SIZE);
	if (SIZE < 8)
		VF_ASSERT(ret == -pte_invalid, "no space for the size");
	else {
		VF_ASSERT(ret == 0, "provided");
		memcpy(&v, u, SIZE >= 8 ? 8 : 0);
		VF_ASSERT(v == (SIZE < 24 ? SIZE : 24), "provided size");
		if (SIZE >= 16) {
			memcpy(&v, u + 8, SIZE >= 16 ? 8 : 0);
			VF_ASSERT(v == a.cr3, "the cr3");
		}
		if (SIZE >= 24) {
			memcpy(&v, u + 16, SIZE >= 24 ? 8 : 0);
			VF_ASSERT(v == a.vmcs, "the vmcs");
		}
	}
#endif
	VF_REACH("end");
}
