/* pt_enc_next against the packet format specification, and the round trip
 * through pt_pkt_next.
 *
 * T: the packet type.  R bytes (0..32 or any larger number, FAR) are left
 * between the encoder's position and the end of the buffer.
 */
#include "vf.h"
#include "libipt/src/pt_encoder.c"
#ifdef ROUNDTRIP
#  include "libipt/src/pt_packet.c"
#  include "libipt/src/pt_packet_decoder.c"
int pt_sync_forward(const uint8_t **s, const uint8_t *p,
		    const struct pt_config *c)
{ (void) s; (void) p; (void) c; return -pte_internal; }
int pt_sync_backward(const uint8_t **s, const uint8_t *p,
		     const struct pt_config *c)
{ (void) s; (void) p; (void) c; return -pte_internal; }
#endif
#include "spec_pkt.h"
#include "spec_pkt_enc.h"

int pt_config_from_user(struct pt_config *c, const struct pt_config *u)
{ (void) c; (void) u; return -pte_internal; }

#define W 32

static struct pt_encoder g_old;
static uint8_t *g_mem;

int pt_enc_next(struct pt_encoder *encoder, const struct pt_packet *packet)
VF_REQUIRES(encoder && packet && encoder->config.begin <= encoder->pos &&
	    encoder->pos <= encoder->config.end)
VF_ENSURES(VF_RET >= 0 || encoder->pos == g_old.pos)
VF_ENSURES(VF_RET < 0 || encoder->pos == g_old.pos + VF_RET)
VF_ASSIGNS(encoder->pos, VF_OBJ(g_mem));

void harness(void)
{
	struct pt_encoder e;
	struct pt_packet p, saved;
	uint8_t old[W], want[16];
	uint64_t room, off;
	int ret, spec, wf, i;

	memset(&e, 0, sizeof(e));
	memset(want, 0, sizeof(want));
#ifdef VF_CBMC
	static uint8_t mem[W];
	g_mem = mem;
#  ifdef FAR
	room = vf_range(W, 1ull << 32);
	off = 0;
#  else
	room = vf_range(0, W);
	off = W - room;
#  endif
#else
#  ifdef FAR
	room = vf_range(W, 1ull << 32);
	VF_ASSUME(room <= 4096);
	off = 0;
	g_mem = malloc(room);
#  else
	room = vf_range(0, W);
	off = W - room;
	g_mem = malloc(W);
#  endif
#endif
	{
		uint64_t w;

		for (i = 0; i < W; ++i) {
			if (!(i & 7))
				w = vf_u64();
			g_mem[i] = old[i] = (uint8_t) (w >> (8 * (i & 7)));
		}
	}

	e.config.size = sizeof(e.config);
	e.config.begin = g_mem;
	e.config.end = g_mem + off + room;
	e.pos = g_mem + off;
	sp_arbitrary(&p, T);
	saved = p;
	g_old = e;

	ret = pt_enc_next(&e, &p);

	spec = sp_encode(&p, want, &wf);
	VF_ASSERT(e.config.begin == g_old.config.begin &&
		  e.config.end == g_old.config.end, "configuration unchanged");
	VF_ASSERT(saved.type == p.type && saved.size == p.size,
		  "packet not modified");

	if (ret < 0) {
		VF_ASSERT(e.pos == g_old.pos, "not advanced on error");
		for (i = 0; i < W; ++i)
			VF_ASSERT(g_mem[i] == old[i],
				  "nothing written on error");
	} else {
		VF_ASSERT((uint64_t) ret <= room, "fits into the buffer");
		VF_ASSERT(e.pos == g_old.pos + ret,
			  "advanced by the packet size");
		for (i = 0; i < W; ++i)
			VF_ASSERT(((uint64_t) i >= off &&
				   (uint64_t) i < off + (uint64_t) ret) ||
				  g_mem[i] == old[i],
				  "nothing written outside the packet");
	}

	if (spec < 0) {
		VF_ASSERT(ret < 0, "an invalid packet is refused");
		if ((uint64_t) 16 <= room)
			VF_ASSERT(ret == spec, "error code for the packet");
	} else if (room < (uint64_t) spec)
		VF_ASSERT(ret == -pte_eos, "does not fit");
	else if (wf) {
		VF_ASSERT(ret == spec, "packet size");
		for (i = 0; i < 16; ++i)
			VF_ASSERT(i >= spec || g_mem[off + i] == want[i],
				  "encoded bytes follow the format");
	}

#ifdef ROUNDTRIP
	if (spec > 0 && wf && (uint64_t) spec <= room) {
		struct pt_packet_decoder d;
		struct pt_packet q, n;
		int size;

		memset(&d, 0, sizeof(d));
		d.config.size = sizeof(d.config);
		d.config.begin = g_old.config.begin;
		d.config.end = g_old.config.end;
		d.pos = g_old.pos;
		memset(&q, 0, sizeof(q));

		size = pt_pkt_next(&d, &q, sizeof(q));
		n = sp_normal(p);

		VF_ASSERT(size == ret, "round trip: size");
		VF_ASSERT(d.pos == e.pos, "round trip: position");
		VF_ASSERT(q.size == ret, "round trip: size field");
		VF_ASSERT(sp_same(&q, &n), "round trip: packet");
	}
#endif
	VF_REACH("end");
#ifdef VF_NATIVE
	free(g_mem);
#endif
}
