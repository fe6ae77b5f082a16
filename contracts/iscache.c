/* The image section cache: identifiers, sharing, references, and the bounded
 * cache of mapped sections.
 *
 * Sections are abstract: functions on them are replaced by stubs which follow
 * their contracts (proved in section.c), count references, attaches, and
 * mappings, and insist on the lock order (no attach, detach, or map while
 * holding the cache's lock).
 *
 * Whenever the cache's lock is taken, another thread may have added an entry.
 */
#include "vf.h"
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <threads.h>
#include "vf_heap.h"

static int vf_mtx_init(mtx_t *m);
static int vf_mtx_lock(mtx_t *m);
static int vf_mtx_unlock(mtx_t *m);
static void vf_mtx_destroy(mtx_t *m);
static void *vf_realloc(void *old, void *p);
static char *vf_strdup(const char *s);

#undef strdup
#define malloc(n) vf_alloc(malloc(n))
#define realloc(o, n) vf_realloc(o, (malloc)(n))
#define free vf_free
#define strdup vf_strdup
#define mtx_init(m, t) vf_mtx_init(m)
#define mtx_lock(m) vf_mtx_lock(m)
#define mtx_unlock(m) vf_mtx_unlock(m)
#define mtx_destroy(m) vf_mtx_destroy(m)
#include "libipt/src/pt_image_section_cache.c"
#undef malloc
#undef free
#undef realloc
#undef strdup

#ifndef N
#define N 0		/* entries */
#endif
#ifndef L
#define L 0		/* mapped sections */
#endif
#define NSEC 4
#define CAP 8		/* entries are expanded by 8 */

static struct pt_image_section_cache c;
static struct pt_section secs[NSEC];
static struct {
	const char *name;
	uint64_t off, size, mem;
	int refs, att, maps;
} g[NSEC];
static const char *names[2] = { "a", "b" };
static int held, locks, interfere, failures, get_fails, mk_n;
static int read_rc, map_rc;
static struct {
	const struct pt_section *s;
	uint8_t *buf;
	uint64_t off;
	uint16_t size;
	int n;
} rd;
static struct pt_iscache_entry room[CAP], old[CAP + 8];
static int nold;

static int ix(const struct pt_section *s)
{
	int i;

	for (i = 0; i < NSEC; ++i)
		if (s == &secs[i])
			return i;
	VF_ASSERT(0, "a section");
	return 0;
}

static char *vf_strdup(const char *s)
{
	char *p = vf_malloc(2);

	if (p) {
		p[0] = s[0];
		p[1] = 0;
	}
	return p;
}

/* the cache's array is only ever read up to its size */
static void *vf_realloc(void *o, void *p)
{
	struct pt_iscache_entry *n = p, *e = o;
	int i;

	if (vf_may_fail && vf_bool()) {
		free(p);
		vf_failures++;
		return NULL;
	}
	VF_ASSERT(held, "the array is protected by the lock");
	for (i = 0; i < CAP && i < c.size; ++i)
		n[i] = e[i];
	if (!o)
		vf_live++;
	return n;
}

static int same_id(int i, int j)
{
	return g[i].name == g[j].name && g[i].off == g[j].off &&
		g[i].size == g[j].size;
}

/* can section s at a be added next to the n entries in e? */
static int fits(const struct pt_iscache_entry *e, int n, int s, uint64_t a)
{
	int i;

	for (i = 0; i < n; ++i) {
		int k = ix(e[i].section);

		if (k == s ? e[i].laddr == a : same_id(k, s))
			return 0;
	}
	return 1;
}

static void append(int s, uint64_t a)
{
	c.entries[c.size].section = &secs[s];
	c.entries[c.size].laddr = a;
	c.size++;
	g[s].refs++;
	g[s].att++;
}

static int vf_mtx_init(mtx_t *m)
{
	(void) m;
	locks++;
	return thrd_success;
}

static void vf_mtx_destroy(mtx_t *m)
{
	(void) m;
	VF_ASSERT(!held, "not while it is held");
	locks--;
}

static int vf_mtx_lock(mtx_t *m)
{
	VF_ASSERT(m == &c.lock && !held, "no deadlock: lock taken twice");
	held = 1;
	if (interfere) {
		/* another thread added something; only once */
		interfere = 0;
		if (vf_bool() && c.size < c.capacity) {
			int s = (int) vf_range(0, 2);
			uint64_t a = vf_u64();

			if (fits(c.entries, c.size, s, a)) {
				append(s, a);
				old[nold++] = c.entries[c.size - 1];
			}
		}
	}
	return thrd_success;
}

static int vf_mtx_unlock(mtx_t *m)
{
	VF_ASSERT(m == &c.lock && held, "unlock: it is held");
	held = 0;
	return thrd_success;
}

int pt_section_get(struct pt_section *s)
{
	int i = ix(s);

	VF_ASSERT(g[i].refs > 0, "get: it exists");
	if (get_fails && vf_bool()) {
		failures++;
		return -pte_overflow;
	}
	g[i].refs++;
	return 0;
}

int pt_section_put(struct pt_section *s)
{
	int i = ix(s);

	VF_ASSERT(g[i].refs > 0, "put: a reference is held");
	g[i].refs--;
	VF_ASSERT(g[i].refs >= g[i].att, "put: not while attached");
	return 0;
}

int pt_section_attach(struct pt_section *s, struct pt_image_section_cache *x)
{
	int i = ix(s);

	VF_ASSERT(x == &c && !held, "no deadlock: attach without lock");
	if (get_fails && vf_bool()) {
		failures++;
		return -pte_overflow;
	}
	VF_ASSERT(g[i].refs > g[i].att, "attach: needs a reference");
	g[i].att++;
	return 0;
}

int pt_section_detach(struct pt_section *s, struct pt_image_section_cache *x)
{
	int i = ix(s);

	VF_ASSERT(x == &c && !held, "no deadlock: detach without lock");
	VF_ASSERT(g[i].att > 0, "detach: it is attached");
	g[i].att--;
	return 0;
}

const char *pt_section_filename(const struct pt_section *s)
{
	return g[ix(s)].name;
}

uint64_t pt_section_offset(const struct pt_section *s)
{
	return g[ix(s)].off;
}

uint64_t pt_section_size(const struct pt_section *s)
{
	return g[ix(s)].size;
}

int pt_section_memsize(struct pt_section *s, uint64_t *size)
{
	*size = g[ix(s)].mem;
	return 0;
}

int pt_section_map_share(struct pt_section *s)
{
	if (get_fails && vf_bool()) {
		failures++;
		return -pte_overflow;
	}
	g[ix(s)].maps++;
	return 0;
}

int pt_section_map(struct pt_section *s)
{
	VF_ASSERT(!held, "no deadlock: map without lock");
	if (map_rc < 0)
		return map_rc;
	g[ix(s)].maps++;
	return 0;
}

int pt_section_unmap(struct pt_section *s)
{
	VF_ASSERT(g[ix(s)].maps > 0, "unmap: it is mapped");
	g[ix(s)].maps--;
	return 0;
}

int pt_section_read(const struct pt_section *s, uint8_t *buf, uint16_t size,
		    uint64_t off)
{
	VF_ASSERT(g[ix(s)].maps > 0 && g[ix(s)].refs > 0, "read: mapped");
	rd.n++;
	rd.s = s;
	rd.buf = buf;
	rd.off = off;
	rd.size = size;
	return read_rc;
}

/* a new section; its size is truncated to that of the file */
static int mk_rc;
static uint64_t mk_size;
int pt_mk_section(struct pt_section **s, const char *f, uint64_t off,
		  uint64_t size)
{
	VF_ASSERT(!held, "not under the lock");
	if (mk_rc < 0)
		return mk_rc;
	mk_n++;
	g[3].name = f;
	g[3].off = off;
	g[3].size = size < mk_size ? size : mk_size;
	g[3].refs = 1;
	*s = &secs[3];
	return 0;
}

/* lru list */
static struct {
	int s;
	uint64_t size;
} lold[L + 1];

static void start(void)
{
	int i, k, n;

	vf_live = vf_may_fail = vf_failures = 0;
	held = locks = interfere = failures = get_fails = mk_n = 0;
	map_rc = mk_rc = 0;
	memset(&rd, 0, sizeof(rd));
	memset(&c, 0, sizeof(c));
	for (i = 0; i < NSEC; ++i) {
		g[i].name = names[vf_bool()];
		g[i].off = vf_u64();
		g[i].size = vf_u64();
		/* memory sizes are far below 2^64 */
		g[i].mem = vf_range(0, 1ull << 60);
		g[i].refs = g[i].att = g[i].maps = 0;
	}
	c.capacity = FULL ? N : CAP;
	c.entries = NULL;
	if (c.capacity)
		c.entries = vf_malloc(CAP * sizeof(struct pt_iscache_entry));
	n = 0;
	for (i = 0; i < N; ++i) {
#ifdef S0
		/* which sections are the same: complete by symmetry */
		int s = i ? S0 : 0;
#else
		int s = (int) vf_range(0, 2);
#endif
		uint64_t a = vf_u64();

		VF_ASSUME(fits(c.entries, i, s, a));
		append(s, a);
		old[i] = c.entries[i];
	}
	nold = N;

	/* mapped sections */
	c.limit = vf_u64();
	c.used = 0;
	for (i = L - 1; i >= 0; --i) {
		struct pt_iscache_lru_entry *l = vf_malloc(sizeof(*l));

#ifdef LS
		lold[i].s = LS;
#else
		lold[i].s = i;
#endif
		lold[i].size = vf_range(0, 1ull << 60);
		VF_ASSUME(lold[i].size <= c.limit - c.used);
		c.used += lold[i].size;
		l->section = &secs[lold[i].s];
		l->size = lold[i].size;
		l->next = c.lru;
		c.lru = l;
		g[lold[i].s].maps = 1;
	}
	(void) k;
	(void) n;
}

/* references and attaches: one per entry, and e[] */
static void check_counts(int e0, int e1, int e2, int e3)
{
	int i, cnt[NSEC] = { 0, 0, 0, 0 };

	for (i = 0; i < CAP + 2 && i < c.size; ++i)
		cnt[ix(c.entries[i].section)]++;
	VF_ASSERT(g[0].att == cnt[0] && g[1].att == cnt[1] &&
		  g[2].att == cnt[2] && g[3].att == cnt[3],
		  "one attach per entry");
	VF_ASSERT(g[0].refs == cnt[0] + e0 && g[1].refs == cnt[1] + e1 &&
		  g[2].refs == cnt[2] + e2 && g[3].refs == cnt[3] + e3,
		  "one reference per entry");
	VF_ASSERT(!held, "the lock is released");
}

/* the entries from before, unchanged, and at most one more */
static void check_entries(int rc)
{
	int i;

	VF_ASSERT(c.size <= c.capacity, "within the array");
	VF_ASSERT(c.size == nold || (c.size == nold + 1 && rc > 0),
		  "at most one more");
	for (i = 0; i < nold; ++i)
		VF_ASSERT(c.entries[i].section == old[i].section &&
			  c.entries[i].laddr == old[i].laddr,
			  "identifiers stay valid");
}

/* the list: a permutation or a prefix, its sizes, its references */
static void check_lru(void)
{
	struct pt_iscache_lru_entry *l;
	uint64_t used = 0;
	int i, n = 0, in[NSEC] = { 0, 0, 0, 0 };

	for (l = c.lru, i = 0; l && i < L + 1; ++i, l = l->next) {
		in[ix(l->section)]++;
		used += l->size;
		n++;
	}
	VF_ASSERT(!l, "the list ends");
	for (i = 0; i < NSEC; ++i)
		VF_ASSERT(in[i] <= 1 && g[i].maps == in[i],
			  "one mapping per cached section");
	VF_ASSERT(c.used == used, "memory is accounted for");
	VF_ASSERT(c.used <= c.limit, "within the limit");
	VF_ASSERT(vf_live == n + !!c.entries, "nothing leaked");
}

static int in_lru(int s)
{
	struct pt_iscache_lru_entry *l;
	int i;

	for (l = c.lru, i = 0; l && i < L + 1; ++i, l = l->next)
		if (l->section == &secs[s])
			return 1;
	return 0;
}

void harness(void)
{
	uint64_t a;
	int rc, s, i, k, hit;

	start();
	a = vf_u64();
#if defined(ADD)
	s = S;
	g[s].refs++;			/* the caller's */
	get_fails = vf_may_fail = FAIL;
	interfere = 1;
	rc = pt_iscache_add(&c, &secs[s], a);
	check_entries(rc);
	VF_ASSERT(rc != 0 && (rc > 0 || failures || vf_failures),
		  "fails only if something failed");
	if (rc > 0) {
		VF_ASSERT(rc <= c.size, "an identifier");
		k = ix(c.entries[rc - 1].section);
		VF_ASSERT(same_id(k, s) && c.entries[rc - 1].laddr == a,
			  "of the section at that address");
		hit = 0;
		for (i = 0; i < nold; ++i)
			if (same_id(ix(old[i].section), s)) {
				VF_ASSERT(ix(old[i].section) == k,
					  "sections are shared");
				if (old[i].laddr == a)
					hit = 1;
			}
		VF_ASSERT((c.size == nold) == hit, "added only once");
	}
	check_counts(s == 0, s == 1, s == 2, 0);
#if L
	check_lru();
	if (rc > 0 && in_lru(LS))
		VF_ASSERT(ix(c.entries[rc - 1].section) == LS || LS != s,
			  "a section that was replaced is not kept mapped");
#endif
#elif defined(ADDFILE)
	{
		const char *name = names[vf_bool()];
		uint64_t off = vf_u64(), size = vf_u64(), tsize;

		get_fails = vf_may_fail = FAIL;
		interfere = 1;
		mk_rc = FAIL && vf_bool() ? -(int) vf_range(1, 30) : 0;
		/* the size of the file's rest */
		mk_size = vf_u64();
		for (i = 0; i < 3; ++i)
			VF_ASSUME(g[i].name != name || g[i].off != off ||
				  g[i].size <= mk_size);
		tsize = size < mk_size ? size : mk_size;
		rc = pt_iscache_add_file(&c, name, off, size, a);
		check_entries(rc);
		VF_ASSERT(rc != 0 && (rc > 0 || failures || vf_failures ||
				      mk_rc < 0),
			  "fails only if something failed");
		if (rc > 0) {
			VF_ASSERT(rc <= c.size, "an identifier");
			k = ix(c.entries[rc - 1].section);
			VF_ASSERT(g[k].name == name && g[k].off == off &&
				  g[k].size == tsize &&
				  c.entries[rc - 1].laddr == a,
				  "of that part of the file at that address");
			hit = 0;
			for (i = 0; i < nold; ++i)
				if (same_id(ix(old[i].section), k)) {
					VF_ASSERT(ix(old[i].section) == k,
						  "sections are shared");
					if (old[i].laddr == a)
						hit = 1;
				}
			VF_ASSERT((c.size == nold) == hit, "added only once");
		}
		check_counts(0, 0, 0, 0);
	}
#elif defined(LOOKUP)
	{
		struct pt_section *ps = NULL;
		uint64_t la = 0;
		int isid = vf_int(), was[NSEC];
		const char *name = names[vf_bool()];
		uint64_t off = vf_u64(), size = vf_u64();

		get_fails = vf_bool();
		for (i = 0; i < NSEC; ++i)
			was[i] = g[i].refs;
		rc = pt_iscache_lookup(&c, &ps, &la, isid);
		if (isid < 1 || isid > N)
			VF_ASSERT(rc == -pte_bad_image, "no such identifier");
		else if (!failures) {
			VF_ASSERT(rc == 0 && ps == old[isid - 1].section &&
				  la == old[isid - 1].laddr,
				  "the section that was added");
			VF_ASSERT(g[ix(ps)].refs == was[ix(ps)] + 1,
				  "and a reference");
			g[ix(ps)].refs--;
		} else
			VF_ASSERT(rc == -pte_overflow, "no reference");
		check_entries(0);
		check_counts(0, 0, 0, 0);

		rc = pt_iscache_find(&c, name, off, size, a);
		hit = 0;
		for (i = 0; i < N; ++i) {
			k = ix(old[i].section);
			if (g[k].name == name && g[k].off == off &&
			    g[k].size == size && old[i].laddr == a)
				hit = i + 1;
		}
		VF_ASSERT(rc == hit, "find: its identifier, zero if none");
		check_entries(0);
		check_counts(0, 0, 0, 0);
	}
#elif defined(READ)
	{
		uint8_t buf[1];
		uint64_t size = vf_u64();
		int isid = vf_int();
		uint16_t want;

		get_fails = vf_bool();
		map_rc = vf_bool() ? -(int) vf_range(1, 30) : 0;
		read_rc = vf_int();
		rc = pt_iscache_read(&c, buf, size, isid, a);
		if (!size)
			VF_ASSERT(rc == -pte_invalid, "empty");
		else if (isid < 1 || isid > N)
			VF_ASSERT(rc == -pte_bad_image && !rd.n,
				  "no such identifier");
		else if (failures)
			VF_ASSERT(rc == -pte_overflow && !rd.n, "no reference");
		else if (a < old[isid - 1].laddr)
			VF_ASSERT(rc == -pte_nomap && !rd.n, "below");
		else if (map_rc < 0)
			VF_ASSERT(rc == map_rc && !rd.n, "not mapped");
		else {
			want = size < UINT16_MAX ? (uint16_t) size :
				UINT16_MAX;
			VF_ASSERT(rc == read_rc && rd.n == 1 &&
				  rd.s == old[isid - 1].section &&
				  rd.off == a - old[isid - 1].laddr &&
				  rd.buf == buf && rd.size == want,
				  "what the section contains there");
		}
		for (i = 0; i < NSEC; ++i)
			VF_ASSERT(!g[i].maps, "not left mapped");
		check_entries(0);
		check_counts(0, 0, 0, 0);
	}
#elif defined(CLEAR)
	{
		struct pt_image_section_cache *x = &c;

		locks = 1;
		if (vf_bool()) {
			rc = pt_iscache_clear(x);
			VF_ASSERT(rc == 0 && !c.size && !c.lru && !c.used &&
				  !c.capacity && !c.entries && locks == 1,
				  "clear: empty");
		} else {
			pt_iscache_fini(x);
			VF_ASSERT(locks == 0, "fini: lock destroyed");
		}
		for (i = 0; i < NSEC; ++i)
			VF_ASSERT(!g[i].refs && !g[i].att && !g[i].maps,
				  "all sections are released");
		VF_ASSERT(!vf_live && !held, "all memory freed");
		locks = 0;
		vf_may_fail = vf_bool();
		x = pt_iscache_alloc(vf_bool() ? "a" : NULL);
		if (x) {
			VF_ASSERT(x->limit == UINT64_MAX && !x->size &&
				  !x->capacity && !x->entries && !x->lru &&
				  !x->used, "a new cache is empty");
			VF_ASSERT(vf_failures || locks == 1, "with a lock");
			VF_ASSERT(!pt_iscache_name(x) ||
				  !strcmp(pt_iscache_name(x), "a"), "its name");
		}
	}
#elif defined(LRU)
	{
		uint64_t lim = vf_u64(), before = c.used, keep = 0;
		int was, first;

		get_fails = vf_may_fail = vf_bool();
		s = (int) vf_range(0, 2);
		was = in_lru(s);
#if LRU == 1
		rc = pt_iscache_notify_map(&c, &secs[s]);
#elif LRU == 2
		/* the section is mapped, but it need not be cached */
		g[s].mem = vf_range(0, 1ull << 60);
		rc = pt_iscache_notify_resize(&c, &secs[s], g[s].mem);
#else
		rc = pt_iscache_set_limit(&c, lim);
		VF_ASSERT(c.limit == lim, "the new limit");
		s = -1;
#endif
		VF_ASSERT(rc <= 0 && (!rc || failures || vf_failures),
			  "fails only if something failed");
		check_lru();
		check_entries(0);
		VF_ASSERT(!held, "the lock is released");
		if (rc == 0 && s >= 0) {
			uint64_t m = g[s].mem;

#if LRU == 1
			if (was)
				m = 0;	/* its size is not changed */
#endif
			VF_ASSERT(in_lru(s) == (m <= c.limit || was * (LRU == 1)),
				  "the section is cached unless too big");
			if (in_lru(s))
				VF_ASSERT(c.lru->section == &secs[s],
					  "it is the most recently used one");
#if LRU == 2
			if (in_lru(s))
				VF_ASSERT(c.lru->size == g[s].mem,
					  "its new size");
			keep = m;
#else
			keep = g[s].mem;
			for (i = 0; i < L; ++i)
				if (i == s)
					keep = lold[i].size;
#endif
		}
		/* the others stay as long as they fit, in order of use */
		first = 1;
		for (i = 0; i < L; ++i)
			if (i != s) {
				if (s >= 0 && !was && keep > c.limit) {
					/* too big to be cached at all */
					if (rc == 0)
						VF_ASSERT(in_lru(i),
							  "not pruned for it");
					continue;
				}
				if (rc < 0)
					continue;
				if (first && keep + lold[i].size >= keep &&
				    keep + lold[i].size <= c.limit) {
					keep += lold[i].size;
					VF_ASSERT(in_lru(i),
						  "recently used ones stay");
				} else {
					first = 0;
					VF_ASSERT(!in_lru(i),
						  "least recently used ones go");
				}
			}
		(void) before;
	}
#endif
	VF_REACH("end");
}
