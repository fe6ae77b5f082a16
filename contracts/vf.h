/* vf.h - one harness/contract vocabulary for three uses of the same file:
 *
 *   VF_CBMC    goto-cc / goto-instrument --dfcc / cbmc: contracts are enforced,
 *              inputs are unconstrained, every VF_ASSERT is an obligation.
 *   (native)   gcc/clang with sanitizers: the same harness, the same predicates,
 *              the same real code; inputs come from a recorded counterexample
 *              or from a pseudo random stream.
 *
 * The code under verification is always the file in /repo, included textually.
 */
#ifndef VF_H
#define VF_H

#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include <stdlib.h>
#include <limits.h>

#ifdef VF_CBMC

/* Every harness input is assigned to vf_in_val, in order: the counterexample
 * is read off the trace from the sequence of these assignments. */
static uint64_t vf_in_val;

static inline uint64_t vf_u64(void)
{
	uint64_t vf_nondet;	/* unconstrained */

	vf_in_val = vf_nondet;
	return vf_nondet;
}

#define VF_ASSUME(c)		__CPROVER_assume(c)
#define VF_ASSERT(c, name)	__CPROVER_assert(c, "vf: " name)
#define VF_REACH(name)		__CPROVER_assert(0, "vf-reach: " name)
#define VF_REQUIRES(c)		__CPROVER_requires(c)
#define VF_ENSURES(c)		__CPROVER_ensures(c)
#define VF_ASSIGNS(...)		__CPROVER_assigns(__VA_ARGS__)
#define VF_RET			__CPROVER_return_value
#define VF_OBJ(p)		__CPROVER_object_from(p)
#define VF_UPTO(p, n)		__CPROVER_object_upto(p, n)
#define VF_FRAME(c, name)	VF_ASSERT(c, name)

static inline void vf_havoc(void *p, size_t n)
{
	(void) n;
	__CPROVER_havoc_slice(p, n);
}

#else /* native */

#include <stdio.h>

extern uint64_t vf_u64(void);
extern void vf_assume_failed(const char *expr);
extern void vf_assert_failed(const char *name, const char *file, int line);
extern void vf_reached(const char *name);

#define VF_ASSUME(c)	do { if (!(c)) vf_assume_failed(#c); } while (0)
#define VF_ASSERT(c, name)						\
	do { if (!(c)) vf_assert_failed(name, __FILE__, __LINE__); } while (0)
#define VF_REACH(name)		vf_reached(name)
#define VF_REQUIRES(c)
#define VF_ENSURES(c)
#define VF_ASSIGNS(...)
#define VF_FRAME(c, name)	VF_ASSERT(c, name)

#endif /* native */

#define vf_u8()		((uint8_t) vf_u64())
#define vf_u16()	((uint16_t) vf_u64())
#define vf_u32()	((uint32_t) vf_u64())
#define vf_int()	((int) vf_u64())
#define vf_bool()	((int) (vf_u64() & 1ull))

/* A value in [lo; hi]. */
static inline uint64_t vf_range(uint64_t lo, uint64_t hi)
{
	uint64_t v = vf_u64();
#ifdef VF_CBMC
	__CPROVER_assume(lo <= v && v <= hi);
#else
	if (v < lo || hi < v)
		v = (hi - lo == UINT64_MAX) ? v : lo + v % (hi - lo + 1);
#endif
	return v;
}

#endif /* VF_H */
