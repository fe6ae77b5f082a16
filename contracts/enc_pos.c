/* Positions of the encoder. */
#include "vf.h"
#include "libipt/src/pt_encoder.c"

int pt_config_from_user(struct pt_config *config, const struct pt_config *u)
{
	*config = *u;
	return 0;
}

int pt_enc_sync_set(struct pt_encoder *encoder, uint64_t offset)
VF_ASSIGNS(*encoder);
int pt_enc_get_offset(const struct pt_encoder *encoder, uint64_t *offset)
VF_ASSIGNS(*offset);

void harness(void)
{
	struct pt_encoder e, old;
	struct pt_config c;
	uint64_t size, at, off, init;
	uint8_t *mem;
	int ret;

	size = vf_range(1, 1ull << 40);
#ifdef VF_CBMC
	mem = malloc(size);
	VF_ASSUME(mem != NULL);
#else
	size = size % 4096 + 1;
	mem = malloc(size);
#endif
	memset(&c, 0, sizeof(c));
	c.size = sizeof(c);
	c.begin = mem;
	c.end = mem + size;
	ret = pt_encoder_init(&e, &c);
	VF_ASSERT(ret == 0 && e.pos == mem, "starts at the beginning");
	at = vf_range(0, size);
	e.pos = mem + at;
	old = e;
	off = vf_u64();
#ifdef VF_CBMC
	/* cbmc pointers have 54 offset bits. */
	VF_ASSUME(off < 1ull << 52);
#endif
#ifdef SET
	ret = pt_enc_sync_set(&e, off);
	VF_ASSERT(ret == (off <= size ? 0 : -pte_eos),
		  "any offset in the buffer, nothing else");
	VF_ASSERT(e.pos == (ret ? old.pos : mem + off), "at that position");
#else
	init = off;
	ret = pt_enc_get_offset(&e, &off);
	VF_ASSERT(ret == 0 && off == at, "the offset of the position");
	VF_ASSERT(e.pos == old.pos, "asking does not move");
	(void) init;
#endif
	VF_ASSERT(e.config.begin == mem && e.config.end == mem + size,
		  "the buffer is not changed");
	VF_REACH("end");
#ifdef VF_NATIVE
	free(mem);
#endif
}
