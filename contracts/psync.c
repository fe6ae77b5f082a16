/* Synchronization and position reporting of the packet decoder.
 *
 * The PSB search itself (contracts/sync.c) is replaced by its contract: it
 * needs a position within the buffer, and either reports a position in the
 * buffer or an error.
 */
#include "vf.h"
#include "libipt/src/pt_packet_decoder.c"

static const uint8_t *g_want;
static int g_ret, g_called, g_dir;
static const uint8_t *g_start;

static int search(const uint8_t **sync, const uint8_t *pos,
		  const struct pt_config *config, int dir)
{
	g_called += 1;
	g_dir = dir;
	g_start = pos;
	VF_ASSERT(config->begin <= pos && pos <= config->end,
		  "the search starts within the buffer");
	if (!g_ret)
		*sync = g_want;
	return g_ret;
}

int pt_sync_forward(const uint8_t **sync, const uint8_t *pos,
		    const struct pt_config *config)
{
	return search(sync, pos, config, 1);
}

int pt_sync_backward(const uint8_t **sync, const uint8_t *pos,
		     const struct pt_config *config)
{
	return search(sync, pos, config, -1);
}

int pt_config_from_user(struct pt_config *config, const struct pt_config *u)
{
	*config = *u;
	return 0;
}

#ifndef N
#  define N 64
#endif

int pt_pkt_sync_forward(struct pt_packet_decoder *decoder)
VF_ASSIGNS(*decoder, g_called, g_dir, g_start);
int pt_pkt_sync_backward(struct pt_packet_decoder *decoder)
VF_ASSIGNS(*decoder, g_called, g_dir, g_start);
int pt_pkt_sync_set(struct pt_packet_decoder *decoder, uint64_t offset)
VF_ASSIGNS(*decoder);
int pt_pkt_get_offset(const struct pt_packet_decoder *decoder, uint64_t *off)
VF_ASSIGNS(*off);
int pt_pkt_get_sync_offset(const struct pt_packet_decoder *decoder,
			   uint64_t *off)
VF_ASSIGNS(*off);

void harness(void)
{
	struct pt_packet_decoder d, old;
	uint8_t *mem, *begin, *pos, *sync;
	uint64_t size, len;
	int ret;

	size = vf_range(0, 1ull << 40);
#ifdef VF_CBMC
	mem = malloc(size);
	VF_ASSUME(mem != NULL);
#else
	size %= 4096;
	mem = malloc(size + 1);
#endif
	memset(&d, 0, sizeof(d));
	d.config.size = sizeof(d.config);
	begin = mem;
	d.config.begin = begin;
	d.config.end = begin + size;

	/* Not yet synchronized or anywhere in the buffer. */
	pos = sync = NULL;
	if (vf_bool()) {
		sync = begin + vf_range(0, size);
		pos = begin + vf_range(0, size);
	}
	d.pos = pos;
	d.sync = sync;
	g_ret = vf_bool() ? 0 : vf_bool() ? -pte_eos : -pte_internal;
	g_want = begin + vf_range(0, size);
	g_called = 0;
	old = d;

#if defined(FORWARD)
	ret = pt_pkt_sync_forward(&d);
	{
		/* Offset of the first position that has not been passed. */
		uint64_t from = !pos ? 0 : (uint64_t) (pos - begin);
		int eos;

		if (pos && pos == sync)
			from += 16;
		/* PSB may overlap with the packet we read last. */
		from -= from < 15 ? from : 15;
		eos = size < from;
		if (eos)
			VF_ASSERT(ret == -pte_eos, "nothing left to search");
		else {
			VF_ASSERT(g_called == 1 && g_dir == 1,
				  "searches forward");
			VF_ASSERT(g_start == begin + from,
				  "from the first position not passed");
			VF_ASSERT(ret == g_ret, "the result of the search");
		}
	}
#elif defined(BACKWARD)
	ret = pt_pkt_sync_backward(&d);
	VF_ASSERT(g_called == 1 && g_dir == -1, "searches backward");
	VF_ASSERT(g_start == (pos ? pos : begin + size),
		  "from the current position or the end of the trace");
	VF_ASSERT(ret == g_ret, "the result of the search");
#elif defined(SET)
	{
		uint64_t off = vf_u64();

#ifdef VF_CBMC
		/* cbmc pointers have 54 offset bits. */
		VF_ASSUME(off < 1ull << 52);
#endif
		ret = pt_pkt_sync_set(&d, off);
		VF_ASSERT(ret == (off <= size ? 0 : -pte_eos),
			  "any offset in the buffer, nothing else");
		if (!ret)
			g_want = begin + off;
	}
#elif defined(GET)
	{
		uint64_t off, init, at;
		int which = vf_bool();

		init = off = vf_u64();
		ret = which ? pt_pkt_get_offset(&d, &off) :
			pt_pkt_get_sync_offset(&d, &off);
		VF_ASSERT(ret == (pos ? 0 : -pte_nosync), "if synchronized");
		if (!ret) {
			at = (uint64_t) ((which ? pos : sync) - begin);
			VF_ASSERT(off == at, "the offset of the position");
			VF_ASSERT(off <= size, "within the buffer");
		} else
			VF_ASSERT(off == init, "nothing reported on error");
		g_want = NULL;
		VF_ASSERT(d.pos == old.pos && d.sync == old.sync,
			  "asking does not move");
	}
#endif
#ifndef GET
	if (!ret)
		VF_ASSERT(d.pos == g_want && d.sync == g_want,
			  "synchronized at the reported position");
	else
		VF_ASSERT(d.pos == old.pos && d.sync == old.sync,
			  "an error does not move");
#endif
	VF_ASSERT(d.config.begin == old.config.begin &&
		  d.config.end == old.config.end, "the buffer is not changed");
	VF_REACH("end");
#ifdef VF_NATIVE
	free(mem);
#endif
}
