/* TNT cache: a FIFO of branch indicators, oldest first.
 *
 * The content of a cache is what querying a copy of it yields.
 */
#include "vf.h"
#include "libipt/src/pt_tnt_cache.c"

int pt_tnt_cache_add(struct pt_tnt_cache *cache, uint64_t tnt, uint8_t size)
VF_REQUIRES(cache != NULL)
VF_ASSIGNS(*cache);

/* n indicators; bits: oldest in bit n-1. */
static int content(const struct pt_tnt_cache *cache, uint64_t *bits)
{
	struct pt_tnt_cache c = *cache;
	uint64_t b = 0;
	int i, n = -1, t;

	for (i = 0; i <= 64; ++i) {
		t = pt_tnt_cache_query(&c);
		if (t < 0) {
			VF_ASSERT(t == -pte_bad_query, "nothing left");
			n = i;
			break;
		}
		VF_ASSERT(t <= 1, "taken or not taken");
		b = b * 2 + (t ? 1 : 0);
	}
	VF_ASSERT(n >= 0, "at most 64 indicators");
	*bits = b;
	return n;
}

static uint64_t low(uint64_t v, int n)
{
	return n >= 64 ? v : v & ((1ull << n) - 1);
}

void harness(void)
{
	struct pt_tnt_cache c, old;
	uint64_t b0, b1, tnt, k;
	int n0, n1, ret;
	uint8_t size;

	c.tnt = vf_u64();
	k = vf_range(0, 64);
	c.index = k ? 1ull << (k - 1) : 0;
	old = c;

	n0 = content(&c, &b0);
	VF_ASSERT(n0 == (int) k, "number of indicators");
	VF_ASSERT(pt_tnt_cache_is_empty(&c) == !n0, "empty");

#if defined(ADD)
	tnt = vf_u64();
	size = (uint8_t) vf_range(0, 63);
	ret = pt_tnt_cache_add(&c, tnt, size);
	n1 = content(&c, &b1);
	if (n0 + size > 64) {
		VF_ASSERT(ret == -pte_overflow, "no space");
		VF_ASSERT(n1 == n0 && b1 == b0, "nothing is lost");
	} else {
		VF_ASSERT(ret == 0, "added");
		VF_ASSERT(n1 == n0 + size, "every indicator is added");
		VF_ASSERT(low(b1, size) == low(tnt, size),
			  "behind the others in order");
		VF_ASSERT((size ? b1 >> size : b1) == b0,
			  "the others are not changed");
	}
#elif defined(QUERY)
	ret = pt_tnt_cache_query(&c);
	n1 = content(&c, &b1);
	if (!n0) {
		VF_ASSERT(ret == -pte_bad_query, "nothing to query");
		VF_ASSERT(n1 == 0, "still empty");
	} else {
		VF_ASSERT(ret == (int) ((b0 >> (n0 - 1)) & 1), "the oldest");
		VF_ASSERT(n1 == n0 - 1 && b1 == low(b0, n1),
			  "the others remain");
	}
	if (vf_bool()) {
		pt_tnt_cache_init(&c);
		VF_ASSERT(content(&c, &b1) == 0, "empty after reset");
	}
#endif
	VF_REACH("end");
}
