/* Ghost heap: counts live allocations, and lets each allocation fail. */
#ifndef VF_HEAP_H
#define VF_HEAP_H
#include "vf.h"

static int vf_live;	/* allocations not yet freed */
static int vf_may_fail;	/* allocations may fail */
static int vf_failures;

/* A macro around malloc so that cbmc sees the type that is allocated. */
static void *vf_alloc(void *p)
{
	if (vf_may_fail && vf_bool()) {
		free(p);
		vf_failures++;
		return NULL;
	}
#ifdef VF_CBMC
	VF_ASSUME(p != NULL);
#endif
	vf_live++;
	return p;
}
#define vf_malloc(n)	vf_alloc(malloc(n))

static void vf_free(void *p)
{
	if (!p)
		return;
	vf_live--;
	free(p);
}

#endif
