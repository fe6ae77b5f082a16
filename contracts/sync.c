/* PSB search: pt_sync_forward, pt_sync_backward, pt_sync_set.
 *
 * A synchronization point is the position of the last PSB of a run of PSB
 * pattern bytes: 16 bytes of pattern inside the buffer, not followed by
 * another pattern pair.
 *
 * N: object size; config.end is the end of the object, config.begin and the
 * start position are arbitrary.  All alignments of begin, start and end.
 */
#include "vf.h"
#include "libipt/src/pt_packet.c"
#include "libipt/src/pt_sync.c"

#ifndef N
#  define N 56
#endif
#ifndef B
#  define B vf_range(16, N)
#endif
#ifndef S
#  define S vf_range(16, N)
#endif

#ifdef VF_CBMC
/* Stands in for truncate() in the search (goto-instrument --replace-calls):
 * the same function, without losing the pointer's provenance.  That it is the
 * same function is obligation "truncate" of the unit sync_align. */
const uint8_t *vf_truncate(const uint8_t *pointer, size_t alignment)
{
	return pointer - (uintptr_t) pointer % alignment;
}
#endif

#ifdef ALIGN
void harness(void)
{
	const uint8_t *p = (const uint8_t *) (uintptr_t) vf_u64();
	uintptr_t r = (uintptr_t) p;

	/* cbmc pointers have 54 offset bits. */
	VF_ASSUME(r < 1ull << 50);
	VF_ASSERT((uintptr_t) truncate(p, 8) == r - r % 8,
		  "truncate: the aligned address at or below");
	VF_ASSERT((uintptr_t) align(p, 8) == (r + 7) - (r + 7) % 8,
		  "align: the aligned address at or above");
	VF_REACH("end");
}
#else
static uint8_t *g_mem;
static uint64_t g_b;

/* Is there a synchronization point at offset p?  (begin: offset b) */
static uint8_t g_sp[N + 1];

static void find_sync_points(uint64_t b)
{
	uint8_t pair[N + 2], psb;
	uint64_t p;

	for (p = 0; p < N + 2; ++p)
		pair[p] = p + 2 <= N && g_mem[p] == 0x02 &&
			g_mem[p + 1] == 0x82;

	for (p = 0; p <= N; ++p) {
		psb = b <= p && p + 16 <= N;
		if (psb)
			psb = pair[p] && pair[p + 2] && pair[p + 4] &&
				pair[p + 6] && pair[p + 8] && pair[p + 10] &&
				pair[p + 12] && pair[p + 14] && !pair[p + 16];
		g_sp[p] = psb;
	}
}

/* Bytes: one of the two pattern bytes or something else. */
static void fill(void)
{
	uint64_t w[4] = { 0, 0, 0, 0 }, mode;
	int i;

	/* For the native search: mostly pattern bytes. */
	mode = vf_u64();
#ifdef VF_CBMC
	VF_ASSUME(mode == 0);
#else
	if (mode) {
		uint64_t len = 16 + mode % 40, off = (mode >> 8) % N;

		for (i = 0; i < N; ++i)
			g_mem[i] = i >= off && i < off + len ?
				((i - off) & 1 ? 0x82 : 0x02) : 0;
		if (mode & 0x100000)
			g_mem[(mode >> 24) % N] = 0x02;
		if (mode & 0x200000)
			g_mem[(mode >> 32) % N] = 0x82;
		return;
	}
#endif

	w[0] = vf_u64();
	w[1] = vf_u64();
	for (i = 0; i < N; ++i) {
		uint64_t v = w[i >> 5] >> (2 * (i & 31));

		g_mem[i] = (v & 3) == 0 ? 0x02 : (v & 3) == 1 ? 0x82 :
			(v & 3) == 2 ? 0x00 : 0xff;
	}
}

int pt_sync_forward(const uint8_t **sync, const uint8_t *pos,
		    const struct pt_config *config)
VF_ASSIGNS(*sync);
int pt_sync_backward(const uint8_t **sync, const uint8_t *pos,
		     const struct pt_config *config)
VF_ASSIGNS(*sync);
int pt_sync_set(const uint8_t **sync, const uint8_t *pos,
		const struct pt_config *config)
VF_ASSIGNS(*sync);

void harness(void)
{
	struct pt_config c;
	const uint8_t *sync, *old;
	uint64_t b, s, want;
	int ret;

#ifdef VF_CBMC
	static uint8_t mem[N];
	g_mem = mem;
#else
	/* the object is 8-byte aligned */
	g_mem = aligned_alloc(8, N + 7 & ~7);
	g_mem = realloc(g_mem, N);
#endif
	memset(&c, 0, sizeof(c));
	fill();
	/* The code computes (but does not read) positions up to 16 bytes before
	 * config.begin: keep them inside the object. */
	b = B;
	s = S;
	VF_ASSUME(b <= s);

	c.size = sizeof(c);
	c.begin = g_mem + b;
	c.end = g_mem + N;
	g_b = b;
	sync = old = vf_bool() ? g_mem : NULL;

	find_sync_points(b);
#if defined(FORWARD)
	for (want = s; want <= N; ++want)
		if (g_sp[want])
			break;

	ret = pt_sync_forward(&sync, g_mem + s, &c);
	if (want <= N) {
		VF_ASSERT(ret == 0, "a synchronization point is found");
		VF_ASSERT(sync == g_mem + want,
			  "the first one at or after the start position");
	} else {
		VF_ASSERT(ret == -pte_eos, "none after the start position");
		VF_ASSERT(sync == old, "nothing reported on error");
	}
#elif defined(BACKWARD)
	/* The last one that ends at or before the start position, or the one
	 * around it. */
	for (want = s; want > 0; --want)
		if (g_sp[want - 1])
			break;

	ret = pt_sync_backward(&sync, g_mem + s, &c);
	if (want && want - 1 + 16 <= s) {
		want -= 1;
		VF_ASSERT(ret == 0, "a synchronization point is found");
		VF_ASSERT(sync == g_mem + want,
			  "the last one before the start position");
	} else if (ret == 0) {
		uint64_t r = (uint64_t) (sync - g_mem);

		VF_ASSERT(r < s, "before the start position");
		VF_ASSERT(r < s && g_sp[r],
			  "a synchronization point is reported");
		VF_ASSERT(want == r + 1,
			  "the last one before the start position");
	} else {
		VF_ASSERT(ret == -pte_eos, "none before the start position");
		VF_ASSERT(sync == old, "nothing reported on error");
	}
#elif defined(SET)
	{
		int psb, i;

		ret = pt_sync_set(&sync, g_mem + s, &c);
		psb = s + 16 <= N;
		for (i = 0; psb && i < 16; i += 2)
			if (g_mem[s + i] != 0x02 || g_mem[s + i + 1] != 0x82)
				psb = 0;

		if (psb) {
			VF_ASSERT(ret == 0, "a PSB is accepted");
			VF_ASSERT(sync == g_mem + s, "at its position");
		} else {
			VF_ASSERT(ret == -pte_eos || ret == -pte_nosync ||
				  ret == -pte_bad_packet,
				  "anything else is refused");
			VF_ASSERT(sync == old, "nothing reported on error");
		}
	}
#endif
	VF_REACH("end");
#ifdef VF_NATIVE
	free(g_mem);
#endif
}
#endif /* ALIGN */
