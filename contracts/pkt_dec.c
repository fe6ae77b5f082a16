/* pt_pkt_next against the packet format specification.
 *
 * N bytes (N constant per case, 0..16, or FAR: 32 visible bytes and an
 * arbitrarily distant end) are available at the decoder's position.  The
 * buffer object ends at config.end, so a read past the end is an obligation
 * failure.  No packet is longer than 16 bytes, hence the cases cover every
 * buffer and every position.
 */
#include "vf.h"
#include "libipt/src/pt_packet.c"
#include "libipt/src/pt_packet_decoder.c"
#include "spec_pkt.h"

#ifndef N
#  define N 32
#endif
#ifdef FAR
#  define BEFORE 0
#else
#  define BEFORE 2
#endif

/* Not reached from pt_pkt_next. */
int pt_config_from_user(struct pt_config *c, const struct pt_config *u)
{ (void) c; (void) u; return -pte_internal; }
int pt_sync_forward(const uint8_t **s, const uint8_t *p,
		    const struct pt_config *c)
{ (void) s; (void) p; (void) c; return -pte_internal; }
int pt_sync_backward(const uint8_t **s, const uint8_t *p,
		     const struct pt_config *c)
{ (void) s; (void) p; (void) c; return -pte_internal; }

/* The user's callback: an arbitrary size and private data; its arguments are
 * part of the contract. */
static int g_cb_calls, g_cb_ret;
static void *g_cb_ctx, *g_cb_priv;
static const uint8_t *g_cb_pos;
static const struct pt_config *g_cb_config;

static int cb(struct pt_packet_unknown *unknown, const struct pt_config *config,
	      const uint8_t *pos, void *context)
{
	g_cb_calls += 1;
	VF_ASSERT(config == g_cb_config, "callback gets the configuration");
	VF_ASSERT(pos == g_cb_pos, "callback gets the packet position");
	VF_ASSERT(context == g_cb_ctx, "callback gets its context");
	VF_ASSERT(unknown->packet == g_cb_pos, "callback: raw packet pointer");
	VF_ASSERT(unknown->priv == NULL, "callback: priv starts NULL");
	unknown->priv = g_cb_priv;
	return g_cb_ret;
}

static struct pt_packet_decoder g_old;
static uint8_t *g_mem;
static uint64_t g_n;		/* bytes available at pos */
static size_t g_psize;
static struct {
	struct pt_packet pkt;
	uint8_t tail[16];
} g_user;

static int same_config(const struct pt_packet_decoder *a,
		       const struct pt_packet_decoder *b)
{
	return a->config.begin == b->config.begin &&
		a->config.end == b->config.end &&
		a->config.size == b->config.size &&
		a->config.decode.callback == b->config.decode.callback &&
		a->config.decode.context == b->config.decode.context &&
		a->config.errata.skd007 == b->config.errata.skd007 &&
		a->config.errata.skz84 == b->config.errata.skz84 &&
		a->sync == b->sync;
}

int pt_pkt_next(struct pt_packet_decoder *decoder, struct pt_packet *packet,
		size_t psize)
VF_REQUIRES(decoder && packet)
VF_REQUIRES(decoder->config.begin <= decoder->pos)
VF_REQUIRES(psize == g_psize)
VF_ENSURES(VF_RET >= 0 || decoder->pos == g_old.pos)
VF_ASSIGNS(decoder->pos, VF_OBJ(packet), g_cb_calls);

void harness(void)
{
	struct pt_packet_decoder d;
	struct pt_packet want, got;
	const uint8_t *b;
	uint64_t n;
	int ret, spec, adv;

	memset(&d, 0, sizeof(d));
	memset(&want, 0, sizeof(want));

#ifdef VF_CBMC
	static uint8_t mem[BEFORE + N ? BEFORE + N : 1];
	n = N;
#  ifdef FAR
	n = vf_range(N, 1ull << 32);
#  endif
	g_mem = mem;
#else
	n = N;
#  ifdef FAR
	n = vf_range(N, 1ull << 32);
	VF_ASSUME(n <= 4096);
#  endif
	g_mem = malloc(BEFORE + n);
#endif
	{
		uint64_t w;
		int i;

		for (i = 0; i < BEFORE + N; ++i) {
			if (!(i & 7))
				w = vf_u64();
			g_mem[i] = (uint8_t) (w >> (8 * (i & 7)));
		}
	}

	b = g_mem + BEFORE;
	d.config.size = sizeof(d.config);
	d.config.begin = g_mem;
	d.config.end = g_mem + BEFORE + n;
	d.config.errata.skd007 = vf_bool();
	d.config.errata.skz84 = vf_bool();
	d.pos = b;
	d.sync = vf_bool() ? b : NULL;

	g_cb_calls = 0;
	g_cb_ret = vf_int();
	g_cb_ctx = (void *) (uintptr_t) vf_u64();
	g_cb_priv = (void *) (uintptr_t) vf_u64();
	g_cb_pos = b;
	g_cb_config = &d.config;
	d.config.decode.callback = vf_bool() ? cb : NULL;
	d.config.decode.context = g_cb_ctx;
	g_n = n;

	/* The user's packet structure may be smaller than, equal to, or larger
	 * than the library's. */
#ifdef PSIZE
	g_psize = PSIZE;
#else
	g_psize = sizeof(struct pt_packet);
#endif
	memset(&g_user, 0xa5, sizeof(g_user));
	g_old = d;

	ret = pt_pkt_next(&d, &g_user.pkt, g_psize);

	/* The specification. */
	spec = sp_decode(b, n, &want);
	adv = spec;

	if (spec == SP_UNKNOWN) {
		if (!d.config.decode.callback) {
			spec = adv = -pte_bad_opc;
			VF_ASSERT(g_cb_calls == 0, "no callback");
		} else {
			VF_ASSERT(g_cb_calls == 1, "callback called once");
			spec = adv = g_cb_ret;
			want.type = ppt_unknown;
			want.payload.unknown.packet = b;
			want.payload.unknown.priv = g_cb_priv;
			if (255 < spec)
				spec = adv = -pte_invalid;
			else if (spec > 0 && n < (uint64_t) spec)
				spec = adv = -pte_eos;
		}
	} else {
		VF_ASSERT(g_cb_calls == 0, "callback only for unknown opcodes");

		/* Errata that change the packet. */
		if (d.config.errata.skd007 && spec == 2 &&
		    want.type == ppt_cyc && (b[0] & 7) == 7 && b[1] == 2 &&
		    n >= 3 && b[2] == 0xf3) {
			want.type = ppt_ovf;
			adv = 3;
		}

		if (d.config.errata.skz84 && spec == -pte_bad_packet &&
		    b[0] == 2 && b[1] == 0x73) {
			if (n < 8)
				spec = adv = -pte_eos;
			else {
				want.type = ppt_invalid;
				spec = adv = 8;
			}
		}
	}

	VF_ASSERT(same_config(&d, &g_old), "decoder configuration unchanged");
	if (spec < 0) {
		VF_ASSERT(ret == spec, "error code for an undecodable packet");
		VF_ASSERT(d.pos == g_old.pos, "no progress on error");
	} else {
		size_t i, lim;

		VF_ASSERT(ret == spec, "packet size");
		VF_ASSERT(d.pos == b + adv, "advanced by the packet size");
		VF_ASSERT((uint64_t) adv <= n, "position within the buffer");

		/* What the user got, as much as fits. */
		want.size = (uint8_t) spec;
		got = want;
		lim = g_psize < sizeof(got) ? g_psize : sizeof(got);
		memcpy(&got, &g_user.pkt, lim);
		VF_ASSERT(got.type == want.type, "packet type");
		VF_ASSERT(got.size == want.size, "packet size field");
		VF_ASSERT(sp_same(&got, &want), "packet payload");

		for (i = sizeof(got); i < sizeof(g_user); ++i)
			VF_ASSERT(((uint8_t *) &g_user)[i] ==
				  (i < g_psize ? 0 : 0xa5),
				  "unknown bytes zeroed, nothing beyond psize");
	}
	if (g_psize < sizeof(got)) {
		size_t i;

		for (i = g_psize; i < sizeof(got); ++i)
			VF_ASSERT(((uint8_t *) &g_user)[i] == 0xa5,
				  "nothing written beyond psize");
	}

	VF_REACH("end");
#ifdef VF_NATIVE
	free(g_mem);
#endif
}
