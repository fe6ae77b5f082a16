/* The memory image: what is mapped where, after any operation.
 *
 * An image is observed through lookup(): for an address space q and an address
 * a, the section, the offset into it, and its identifier.  The invariant is
 * that sections in matching address spaces do not overlap.
 *
 * N: number of mapped sections before the operation; all their attributes are
 * arbitrary.  Sections are abstract: functions on them are replaced by stubs
 * which follow their contracts (proved in section.c) and count references.
 */
#include "vf.h"
#include <stdlib.h>
#include <string.h>
#include "vf_heap.h"

static char *vf_strdup(const char *s);

#define malloc(n) vf_alloc(malloc(n))
#define free vf_free
#undef strdup
#define strdup vf_strdup
#include "libipt/src/pt_image.c"
#undef malloc
#undef free
#include "libipt/src/pt_asid.c"

#ifndef M
#define M 0
#endif
#define NSEC 2
#define MAXL (3 * (N + M) + 2)

static struct pt_section secs[NSEC];
static uint64_t ssize[NSEC];
static int refs[NSEC];		/* ghost reference count */
static const char *names[NSEC] = { "a", "b" };
static int noname;		/* section without a file name */
static int mapped[NSEC];
static int get_fails;
static int failures;

static char *vf_strdup(const char *s)
{
	char *p = vf_malloc(2);

	if (p) {
		p[0] = s[0];
		p[1] = 0;
	}
	return p;
}

static int sidx(const struct pt_section *s)
{
	return s == &secs[0] ? 0 : s == &secs[1] ? 1 : -1;
}

int pt_section_get(struct pt_section *s)
{
	int i = sidx(s);

	VF_ASSERT(i >= 0, "get: a section");
	if (get_fails && vf_bool()) {
		failures++;
		return -pte_overflow;
	}
	refs[i]++;
	return 0;
}

int pt_section_put(struct pt_section *s)
{
	int i = sidx(s);

	VF_ASSERT(i >= 0, "put: a section");
	VF_ASSERT(refs[i] > 0, "put: a reference is held");
	refs[i]--;
	return 0;
}

uint64_t pt_section_size(const struct pt_section *s)
{
	return s ? ssize[sidx(s)] : 0;
}

const char *pt_section_filename(const struct pt_section *s)
{
	int i = sidx(s);

	return i == noname ? NULL : names[i];
}

/* section access */
static int map_rc, read_rc, read_n, cb_n, unmap_rc;
static struct {
	const struct pt_section *s;
	uint64_t off;
	uint8_t *buf;
	uint16_t size;
} rd;
static struct {
	uint8_t *buf;
	size_t size;
	const struct pt_asid *asid;
	uint64_t addr;
	void *ctx;
} cb;

int pt_section_map(struct pt_section *s)
{
	if (map_rc < 0)
		return map_rc;
	mapped[sidx(s)]++;
	return 0;
}

int pt_section_unmap(struct pt_section *s)
{
	VF_ASSERT(mapped[sidx(s)] > 0, "unmap: it is mapped");
	mapped[sidx(s)]--;
	return unmap_rc;
}

int pt_section_read(const struct pt_section *s, uint8_t *buf, uint16_t size,
		    uint64_t off)
{
	VF_ASSERT(mapped[sidx(s)] > 0, "read: it is mapped");
	read_n++;
	rd.s = s;
	rd.off = off;
	rd.buf = buf;
	rd.size = size;
	return read_rc;
}

static int cb_rc;
static int callback(uint8_t *buf, size_t size, const struct pt_asid *asid,
		    uint64_t addr, void *ctx)
{
	cb_n++;
	cb.buf = buf;
	cb.size = size;
	cb.asid = asid;
	cb.addr = addr;
	cb.ctx = ctx;
	return cb_rc;
}

static uint64_t look_vaddr;
static int look_rc;
int pt_iscache_lookup(struct pt_image_section_cache *c, struct pt_section **s,
		      uint64_t *laddr, int isid)
{
	(void) c;
	(void) isid;
	if (look_rc < 0)
		return look_rc;
	refs[0]++;
	*s = &secs[0];
	*laddr = look_vaddr;
	return 0;
}

static int mk_rc;
int pt_mk_section(struct pt_section **s, const char *f, uint64_t off,
		  uint64_t size)
{
	(void) f;
	(void) off;
	(void) size;
	if (mk_rc < 0)
		return mk_rc;
	refs[0]++;
	*s = &secs[0];
	return 0;
}

/* the observed mapping */
struct obs {
	int n;		/* how many sections contain the address */
	int s;
	uint64_t key;	/* the offset into it is key + address */
	int isid;
};

static int match(const struct pt_asid *a, const struct pt_asid *b)
{
	return (a->cr3 == b->cr3 || a->cr3 == pt_asid_no_cr3 ||
		b->cr3 == pt_asid_no_cr3) &&
		(a->vmcs == b->vmcs || a->vmcs == pt_asid_no_vmcs ||
		 b->vmcs == pt_asid_no_vmcs);
}

static int in(const struct pt_mapped_section *m, uint64_t a)
{
	return a >= m->vaddr && a - m->vaddr < m->size;
}

/* how a new section at [v; v+s[ lies on @m: not on it (0), or such that
 * nothing (1), the front (2), the back (3), or both (4) remain */
static int geometry(const struct pt_mapped_section *m,
		    const struct pt_asid *asid, uint64_t v, uint64_t s)
{
	if (!match(&m->asid, asid) || v + s <= m->vaddr ||
	    m->vaddr + m->size <= v)
		return 0;
	return 1 + (m->vaddr < v) + 2 * (v + s < m->vaddr + m->size);
}

static void lookup(struct obs *o, const struct pt_section_list *l,
		   const struct pt_asid *q, uint64_t a)
{
	int i;

	o->n = 0;
	for (i = 0; i < MAXL && l; ++i, l = l->next)
		if (in(&l->section, a) && match(&l->section.asid, q)) {
			o->n++;
			o->s = sidx(l->section.section);
			o->key = l->section.offset - l->section.vaddr;
			o->isid = l->isid;
		}
}

static int same(const struct obs *x, const struct obs *y)
{
	return x->n == y->n && (!x->n || (x->s == y->s && x->key == y->key &&
					   x->isid == y->isid));
}

/* a copy of the list before the operation */
struct cell {
	struct pt_section_list *p;
	struct pt_mapped_section m;
	int s, isid;
};
static struct cell dst[N + 1], src[M + 1];

static int size_ok(uint64_t v, uint64_t s)
{
	return v + s >= v;
}

static void mk_asid(struct pt_asid *a)
{
	memset(a, 0, sizeof(*a));
	a->size = sizeof(*a);
	a->cr3 = vf_u64();
	a->vmcs = vf_u64();
}

static void mk(struct pt_image *im, struct cell *c, int n)
{
	struct pt_section_list *l;
	int i, k;

	memset(im, 0, sizeof(*im));
	for (i = n - 1; i >= 0; --i) {
		l = vf_malloc(sizeof(*l));
		memset(l, 0, sizeof(*l));
		c[i].s = vf_bool();
		l->section.section = &secs[c[i].s];
		refs[c[i].s]++;
		mk_asid(&l->section.asid);
		l->section.vaddr = vf_u64();
		l->section.offset = vf_u64();
		l->section.size = vf_u64();
		l->isid = vf_int();
		VF_ASSUME(size_ok(l->section.vaddr, l->section.size));
		VF_ASSUME(size_ok(l->section.offset, l->section.size));
		/* the invariant */
		for (k = i + 1; k < n; ++k)
			VF_ASSUME(!match(&l->section.asid, &c[k].m.asid) ||
				  l->section.vaddr >=
				  c[k].m.vaddr + c[k].m.size ||
				  c[k].m.vaddr >=
				  l->section.vaddr + l->section.size);
		c[i].m = l->section;
		c[i].isid = l->isid;
		c[i].p = l;
		l->next = im->sections;
		im->sections = l;
	}
}

/* at most one section per address and address space; one reference each */
static void check_inv(struct pt_image *im, struct pt_image *other, int extra0,
		      int extra1)
{
	int i, cnt[NSEC] = { 0, 0 }, nodes = 0;
	struct pt_section_list *l;

	for (i = 0, l = im->sections; l && i < MAXL; ++i, l = l->next) {
		VF_ASSERT(sidx(l->section.section) >= 0, "a section");
		cnt[sidx(l->section.section)]++;
		nodes++;
		VF_ASSERT(size_ok(l->section.vaddr, l->section.size),
			  "does not wrap around");
	}
	VF_ASSERT(!l, "the list ends");
	if (other)
		for (i = 0, l = other->sections; l && i < MAXL;
		     ++i, l = l->next) {
			cnt[sidx(l->section.section)]++;
			nodes++;
		}
	VF_ASSERT(refs[0] == cnt[0] + extra0 && refs[1] == cnt[1] + extra1,
		  "one reference per mapped section");
	VF_ASSERT(nodes + (im->name != NULL) == vf_live,
		  "nothing leaked, nothing freed twice");
}

static void mk_q(struct pt_asid *q)
{
	mk_asid(q);
	VF_ASSUME(q->cr3 != pt_asid_no_cr3 && q->vmcs != pt_asid_no_vmcs);
}

static struct pt_image im, from;

void harness(void)
{
	struct pt_asid asid, q;
	struct obs o, want;
	uint64_t a, vaddr;
	int i, rc, isid, s, k;

	vf_live = vf_may_fail = vf_failures = 0;
	get_fails = failures = read_n = cb_n = look_rc = mk_rc = 0;
	for (i = 0; i < NSEC; ++i) {
		refs[i] = mapped[i] = 0;
		ssize[i] = vf_u64();
	}
	noname = vf_int();
	mk(&im, dst, N);
#ifdef COPY
	mk(&from, src, M);
#endif
	mk_asid(&asid);
	mk_q(&q);
	a = vf_u64();
	isid = vf_int();
	lookup(&want, im.sections, &q, a);
	VF_ASSERT(want.n <= 1, "the invariant gives a unique section");

#if defined(ADD) || defined(ADDC) || defined(ADDF)
	{
		struct obs before = want;
		int extra0 = 0, extra1 = 0;

		get_fails = vf_may_fail = FAIL;
		s = vf_bool();
		vaddr = vf_u64();
#ifndef ADD
		s = 0;
		look_vaddr = vaddr;
		look_rc = mk_rc = vf_bool() ? -(int) vf_range(1, 30) : 0;
#endif
		VF_ASSUME(size_ok(vaddr, ssize[s]));
#ifdef K0
		VF_ASSUME(geometry(&dst[0].m, &asid, vaddr, ssize[s]) == K0);
#endif
#ifdef K1
		VF_ASSUME(geometry(&dst[1].m, &asid, vaddr, ssize[s]) == K1);
#endif
		for (i = 0; i < N; ++i)
			if (in(&dst[i].m, a) && match(&dst[i].m.asid, &q) &&
			    match(&dst[i].m.asid, &asid) &&
			    a >= vaddr && a - vaddr < ssize[s])
				want.n = 0;
#ifdef ADDF
		isid = 0;
#endif
		if (match(&asid, &q) && a >= vaddr && a - vaddr < ssize[s]) {
			want.n = 1;
			want.s = s;
			want.key = 0 - vaddr;
			want.isid = isid;
		}
#ifdef ADDC
		{
			int cache;

			rc = pt_image_add_cached(&im, (void *) &cache, isid,
						 &asid);
		}
#elif defined(ADDF)
		rc = pt_image_add_file(&im, "a", vf_u64(), vf_u64(), &asid,
				       vaddr);
#else
		/* the caller holds a reference */
		refs[s]++;
		extra0 = s == 0;
		extra1 = s == 1;
		rc = pt_image_add(&im, &secs[s], &asid, vaddr, isid);
#endif
		VF_ASSERT(rc <= 0, "no positive result");
		VF_ASSERT(!rc || failures || vf_failures || look_rc < 0,
			  "fails only if something failed");
#ifndef ADD
		VF_ASSERT(look_rc >= 0 || rc == look_rc, "error passed on");
#endif
		if (rc < 0)
			want = before;
		check_inv(&im, NULL, extra0, extra1);
		lookup(&o, im.sections, &q, a);
		VF_ASSERT(o.n == want.n,
			  "no memory is lost, none appears");
		VF_ASSERT(!o.n || (o.s == want.s && o.isid == want.isid),
			  "the newest section is found where it overlaps; "
			  "the others elsewhere");
		VF_ASSERT(!o.n || o.key == want.key,
			  "every section keeps its content");
	}
#elif defined(COPY)
	{
		struct obs fo;

		get_fails = vf_may_fail = FAIL;
#ifdef K0
		VF_ASSUME(geometry(&dst[0].m, &src[0].m.asid, src[0].m.vaddr,
				   src[0].m.size) == K0);
#endif
		for (i = 0; i < N; ++i)
			for (k = 0; k < M; ++k)
				if (in(&dst[i].m, a) &&
				    match(&dst[i].m.asid, &q) &&
				    match(&dst[i].m.asid, &src[k].m.asid) &&
				    in(&src[k].m, a))
					want.n = 0;
		lookup(&fo, from.sections, &q, a);
		if (fo.n)
			want = fo;
		rc = pt_image_copy(&im, &from);
		VF_ASSERT(rc >= 0 && rc <= M, "number of ignored sections");
		VF_ASSERT(!rc == !(failures + vf_failures), "if it failed");
		check_inv(&im, &from, 0, 0);
		lookup(&o, from.sections, &q, a);
		VF_ASSERT(same(&o, &fo), "the source is not changed");
		lookup(&o, im.sections, &q, a);
		if (!rc)
			VF_ASSERT(same(&o, &want),
				  "copied sections map the same content");
	}
#elif defined(REMOVE)
	{
		int hit = -1, n = 0;
		uint64_t rv = vf_u64();
		struct cell *c;
		int by = BY;

		s = vf_bool();
		for (i = 0; i < N; ++i) {
			c = &dst[i];
			k = match(&c->m.asid, &asid);
			if (by == 0)
				k = k && hit < 0 && c->s == s &&
					c->m.vaddr == rv;
			else if (by == 1)
				k = k && c->s == 0 && noname != 0;
			if (k) {
				hit = i;
				n++;
				if (in(&c->m, a) && match(&c->m.asid, &q))
					want.n = 0;
			}
		}
		if (by == 0) {
			rc = pt_image_remove(&im, &secs[s], &asid, rv);
			VF_ASSERT(rc == (n ? 0 : -pte_bad_image),
				  "the section is removed if it is there");
		} else {
			rc = by == 1 ? pt_image_remove_by_filename(&im, "a",
								   &asid) :
				pt_image_remove_by_asid(&im, &asid);
			VF_ASSERT(rc == n, "number of removed sections");
		}
		check_inv(&im, NULL, 0, 0);
		lookup(&o, im.sections, &q, a);
		VF_ASSERT(same(&o, &want), "exactly those were removed");
	}
#elif defined(FINI)
	vf_may_fail = vf_bool();
	for (i = 0; i < 1; ++i) {
		struct pt_image *x = pt_image_alloc(vf_bool() ? "x" : NULL);

		if (x) {
			VF_ASSERT(!x->sections && !x->readmem.callback,
				  "a new image is empty");
			VF_ASSERT(!x->name || !strcmp(pt_image_name(x), "x"),
				  "its name");
			x->sections = im.sections;
			pt_image_free(x);
		} else {
			pt_image_fini(&im);
			VF_ASSERT(!im.sections && !im.name, "empty");
		}
		VF_ASSERT(!refs[0] && !refs[1], "all references dropped");
		VF_ASSERT(!vf_live, "all memory freed");
	}
#elif defined(READ)
	{
		int have = vf_bool(), ctx, risid = vf_int(), hit = -1;
		struct pt_mapped_section found;
		uint16_t size = vf_u16();
		struct pt_asid rq;
		uint8_t buf[1];
		int use_cb;
		uint64_t n;
		struct obs b4 = want;

		mk_asid(&rq);
		map_rc = vf_bool() ? -(int) vf_range(1, 30) : 0;
		unmap_rc = vf_bool() ? -(int) vf_range(1, 30) : 0;
		read_rc = (int) vf_range(0, 65565) - 30;
		cb_rc = vf_int();
		VF_ASSERT(pt_image_set_callback(&im, have ? callback : NULL,
						&ctx) == 0, "set");
		vaddr = vf_u64();
		k = 0;
		for (i = 0; i < N; ++i)
			if (in(&dst[i].m, vaddr) && match(&dst[i].m.asid, &rq))
				k++;
		rc = pt_image_read(&im, &risid, buf, size, &rq, vaddr);
		use_cb = 0;
		if (!k) {
			use_cb = 1;
			VF_ASSERT(!read_n, "nothing is mapped there");
		} else if (map_rc < 0) {
			VF_ASSERT(rc == map_rc && !read_n && !cb_n,
				  "error mapping the section");
		} else {
			VF_ASSERT(read_n == 1, "read once");
			for (i = 0; i < N; ++i)
				if (hit < 0 && in(&dst[i].m, vaddr) &&
				    match(&dst[i].m.asid, &rq) &&
				    rd.s == &secs[dst[i].s] &&
				    rd.off == dst[i].m.offset +
				    (vaddr - dst[i].m.vaddr) &&
				    (unmap_rc < 0 || read_rc == -pte_nomap ||
				     risid == dst[i].isid)) {
					n = dst[i].m.size -
						(vaddr - dst[i].m.vaddr);
					/* not beyond the address space */
					if (n > UINT64_MAX - vaddr)
						n = UINT64_MAX - vaddr;
					if (rd.size == (n < size ? n : size))
						hit = i;
				}
			VF_ASSERT(hit >= 0, "read from a section that is mapped "
				  "there, not beyond its mapped part");
			VF_ASSERT(rd.buf == buf, "into the buffer");
			if (unmap_rc < 0)
				VF_ASSERT(rc == unmap_rc, "error unmapping");
			else if (read_rc == -pte_nomap)
				use_cb = 1;
			else
				VF_ASSERT(rc == read_rc && !cb_n, "what was read");
		}
		if (use_cb && have) {
			VF_ASSERT(cb_n == 1 && rc == cb_rc && risid == 0,
				  "the callback's result");
			VF_ASSERT(cb.buf == buf && cb.size == size &&
				  cb.asid == &rq && cb.addr == vaddr &&
				  cb.ctx == &ctx, "the callback's arguments");
		} else if (use_cb)
			VF_ASSERT(rc == -pte_nomap, "no memory there");
		VF_ASSERT(!mapped[0] && !mapped[1], "not left mapped");
		check_inv(&im, NULL, 0, 0);
		lookup(&o, im.sections, &q, a);
		VF_ASSERT(same(&o, &b4), "the image maps the same content");
	}
#elif defined(FIND)
	{
		struct pt_mapped_section ms, old, us;
		struct pt_asid rq;
		int hit = -1, ok, vi, top;

		mk_asid(&rq);
		memset(&ms, 0, sizeof(ms));
		old = ms;
		vaddr = vf_u64();
		get_fails = vf_bool();
		k = 0;
		for (i = 0; i < N; ++i)
			if (in(&dst[i].m, vaddr) && match(&dst[i].m.asid, &rq))
				k++;
		s = refs[0] + refs[1];
		rc = pt_image_find(&im, &ms, &rq, vaddr);
		for (i = 0; i < N; ++i)
			if (in(&dst[i].m, vaddr) &&
			    match(&dst[i].m.asid, &rq) &&
			    !memcmp(&ms, &dst[i].m, sizeof(ms)) &&
			    rc == dst[i].isid)
				hit = i;
		ok = !failures && k;
		if (ok) {
			VF_ASSERT(hit >= 0, "a section mapped there and its id");
			VF_ASSERT(refs[0] + refs[1] == s + 1,
				  "one reference taken");
			refs[sidx(ms.section)]--;
		} else
			VF_ASSERT(rc == (k ? -pte_overflow : -pte_nomap),
				  "none");
		check_inv(&im, NULL, 0, 0);
		lookup(&o, im.sections, &q, a);
		VF_ASSERT(same(&o, &want), "the image maps the same content");

		/* validate: any mapped section, often one from the image */
		memset(&us, 0, sizeof(us));
		us.section = &secs[vf_bool()];
		mk_asid(&us.asid);
		us.vaddr = vf_u64();
		us.offset = vf_u64();
		us.size = vf_u64();
		VF_ASSUME(size_ok(us.vaddr, us.size));
		vi = vf_int();
		if (ok && vf_bool()) {
			us = ms;
			vi = rc;
		}
		vaddr = vf_u64();
		top = im.sections && !memcmp(&im.sections->section, &us,
					     sizeof(us)) &&
			im.sections->isid == vi && in(&us, vaddr);
		rc = pt_image_validate(&im, &us, vaddr, vi);
		VF_ASSERT(rc == 0 || rc == -pte_nomap, "valid or not mapped");
		if (top)
			VF_ASSERT(rc == 0, "the section found last is valid");
		if (!rc) {
			hit = 0;
			for (i = 0; i < N; ++i)
				if (!memcmp(&us, &dst[i].m, sizeof(us)) &&
				    vi == dst[i].isid && in(&us, vaddr))
					hit = 1;
			VF_ASSERT(hit, "valid: it is mapped and contains the "
				  "address");
		}
	}
#elif defined(ERR)
	rc = vf_int();
	VF_ASSERT(pt_image_add(NULL, &secs[0], &asid, a, 0) == -pte_internal &&
		  pt_image_add(&im, NULL, &asid, a, 0) == -pte_internal, "add");
	VF_ASSERT(pt_image_copy(&im, &im) == 0, "copy to itself");
	VF_ASSERT(pt_image_copy(NULL, &im) == -pte_invalid &&
		  pt_image_copy(&im, NULL) == -pte_invalid, "copy");
	check_inv(&im, NULL, 0, 0);
	lookup(&o, im.sections, &q, a);
	VF_ASSERT(same(&o, &want), "the image is not changed");
#endif
	VF_REACH("end");
}
