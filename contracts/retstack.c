/* Return stack: LIFO of the 64 most recent return addresses.
 */
#include "vf.h"
#include "libipt/src/pt_retstack.c"

#define CAP 64

int pt_retstack_push(struct pt_retstack *retstack, uint64_t ip)
VF_REQUIRES(retstack != NULL)
VF_ASSIGNS(*retstack);
int pt_retstack_pop(struct pt_retstack *retstack, uint64_t *ip)
VF_REQUIRES(retstack != NULL)
VF_ASSIGNS(*retstack; ip != NULL: *ip);

/* The k-th most recent address; the representation is a ring. */
static int depth(const struct pt_retstack *r)
{
	return r->top >= r->bottom ? r->top - r->bottom :
		r->top + CAP + 1 - r->bottom;
}

static uint64_t at(const struct pt_retstack *r, int k)
{
	int i = (int) r->top - 1 - k;

	return r->stack[i < 0 ? i + CAP + 1 : i];
}

void harness(void)
{
	struct pt_retstack rs, old;
	uint64_t ip, got;
	int n0, n1, ret, i, k, want_ip;

	for (i = 0; i <= CAP; ++i)
		rs.stack[i] = vf_u64();
	rs.bottom = (uint8_t) vf_range(0, CAP);
	rs.top = (uint8_t) vf_range(0, CAP);
	old = rs;
	n0 = depth(&rs);
	VF_ASSERT(pt_retstack_is_empty(&rs) == !n0, "empty");

	k = (int) vf_range(0, CAP - 1);
#if defined(PUSH)
	ip = vf_u64();
	ret = pt_retstack_push(&rs, ip);
	VF_ASSERT(ret == 0, "push succeeds");
	VF_ASSERT(rs.top <= CAP && rs.bottom <= CAP, "indices in range");
	n1 = depth(&rs);
	VF_ASSERT(n1 == (n0 < CAP ? n0 + 1 : CAP),
		  "only a full stack loses an address");
	VF_ASSERT(at(&rs, 0) == ip, "on top");
	if (k + 1 < n1)
		VF_ASSERT(at(&rs, k + 1) == at(&old, k),
			  "the others stay in order");
#elif defined(POP)
	got = ip = vf_u64();
	want_ip = vf_bool();
	ret = pt_retstack_pop(&rs, want_ip ? &got : NULL);
	VF_ASSERT(rs.top <= CAP && rs.bottom <= CAP, "indices in range");
	n1 = depth(&rs);
	if (!n0) {
		VF_ASSERT(ret == -pte_retstack_empty, "nothing to pop");
		VF_ASSERT(n1 == 0 && got == ip, "nothing changes");
	} else {
		VF_ASSERT(ret == 0, "popped");
		VF_ASSERT(got == (want_ip ? at(&old, 0) : ip),
			  "the most recent one");
		VF_ASSERT(n1 == n0 - 1, "one less");
		if (k < n1)
			VF_ASSERT(at(&rs, k) == at(&old, k + 1),
				  "the others stay in order");
	}
	if (vf_bool()) {
		pt_retstack_init(&rs);
		VF_ASSERT(depth(&rs) == 0, "empty after reset");
		VF_ASSERT(pt_retstack_is_empty(&rs) == 1,
			  "empty after reset");
	}
#endif
	VF_REACH("end");
}
