/* Memory sections: reference counts, mappings, and reading, for every
 * interleaving with other threads that use the same section.
 *
 * The section's lock protects its use count, its mappings, and its block
 * cache; its attach lock protects the image section cache it belongs to.
 * Whenever a lock is taken, what it protects takes any value that other threads
 * may have left behind (rely(), which never drops below the caller's own share
 * of the counters); when it is released, the invariant must hold (check(),
 * guarantee); nothing protected may change without the lock.
 *
 * Files are abstract: file number 1 has arbitrary size and content.
 */
#include "vf.h"
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <threads.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include "vf_heap.h"

static int vf_mtx_init(mtx_t *m);
static int vf_mtx_lock(mtx_t *m);
static int vf_mtx_unlock(mtx_t *m);
static void vf_mtx_destroy(mtx_t *m);
static int vf_open(void);
static int vf_close(int fd);
static int vf_fstat(int fd, struct stat *s);
static void *vf_mmap(void *a, size_t n, int prot, int flags, int fd, off_t o);
static int vf_munmap(void *a, size_t n);
static FILE *vf_fdopen(int fd);
static int vf_fclose(FILE *f);
static int vf_fseek(FILE *f, long o, int w);
static long vf_ftell(FILE *f);
static size_t vf_fread(void *b, size_t s, size_t n, FILE *f);
static size_t vf_strnlen(const char *s, size_t n);
static void vf_copy(void *dst, const void *src, size_t n);

#define malloc(n) vf_alloc(malloc(n))
#define free vf_free
#define mtx_init(m, t) vf_mtx_init(m)
#define mtx_lock(m) vf_mtx_lock(m)
#define mtx_unlock(m) vf_mtx_unlock(m)
#define mtx_destroy(m) vf_mtx_destroy(m)
#define open(f, m) vf_open()
#define close(f) vf_close(f)
#define fstat(f, s) vf_fstat(f, s)
#define stat(f, s) vf_fstat(1, s)
#define mmap(a, n, p, l, f, o) vf_mmap(a, n, p, l, f, o)
#define munmap(a, n) vf_munmap(a, n)
#define fdopen(f, m) vf_fdopen(f)
#define fclose(f) vf_fclose(f)
#define fseek(f, o, w) vf_fseek(f, o, w)
#define ftell(f) vf_ftell(f)
#define fread(b, s, n, f) vf_fread(b, s, n, f)
#define sysconf(x) vf_pagesize
#undef strnlen
#define strnlen(s, n) vf_strnlen(s, n)
#define memcpy(d, s, n) vf_copy(d, s, n)
static long vf_pagesize;
#include "libipt/src/pt_section.c"
#include "libipt/src/posix/pt_section_posix.c"
#include "libipt/src/pt_section_file.c"
#include "libipt/src/pt_block_cache.c"
#undef malloc
#undef free
#undef stat
#undef memcpy
#undef open
#undef mmap
#undef munmap
#undef strnlen

static struct pt_section *sec;
static struct pt_image_section_cache *isc;	/* opaque */
static char isc_mem[2][8];

/* ghost state */
static int held, aheld, fheld;		/* locks */
static int dead;			/* the section was destroyed */
static int has_locks;
static int active;			/* rely/guarantee are on */
static long own_u, own_m, own_a;	/* our share of the counters */
static uint16_t l_u, l_m, l_a;		/* counters when taking the lock */
static struct pt_section snap;		/* after the last release */
static int lock_fails;
static int nlock;			/* times the lock was taken */
static int nopen, nmap, nfile;		/* open descriptors, mappings, FILEs */
static int notify_rc, notify_n, resize_n;
static uint64_t resize_size;

/* the file */
static uint64_t fsize;
static long mtime, mtime_now, fsize_now;
static uint8_t *page;			/* the mapping's memory */
static uint64_t page_off, page_len;
static char file_obj[8];
static long fpos;
static int fread_n;
static int env_fail;			/* a file operation failed */
static struct pt_sec_posix_mapping *pm;

static int same_prot(const struct pt_section *a, const struct pt_section *b)
{
	return a->ucount == b->ucount && a->mcount == b->mcount &&
		a->mapping == b->mapping && a->unmap == b->unmap &&
		a->read == b->read && a->memsize == b->memsize;
}

static int same_aprot(const struct pt_section *a, const struct pt_section *b)
{
	return a->iscache == b->iscache && a->acount == b->acount;
}

/* a mapping made by another thread: of the whole section */
static void other_mapping(void)
{
	uint64_t adj;

	if (!pm)
		return;
	adj = vf_range(0, 4095);
	pm->base = page;
	pm->size = sec->size + adj;
	pm->begin = page + adj;
	pm->end = page + adj + sec->size;
	sec->mapping = pm;
	sec->unmap = pt_sec_posix_unmap;
	sec->read = pt_sec_posix_read;
	sec->memsize = pt_sec_posix_memsize;
}

static void rely(void)
{
	uint16_t m = vf_u16(), u = vf_u16();

	VF_ASSUME(m >= own_m && u >= own_u && u >= 1);
	VF_ASSUME(u >= sec->acount);
	if (own_m) {
		/* others cannot unmap it */
	} else if (m && pm) {
		if (!sec->mcount)
			other_mapping();
		nmap = 1;
	} else {
		m = 0;
		nmap = 0;
		sec->mapping = NULL;
		sec->unmap = NULL;
		sec->read = NULL;
		sec->memsize = NULL;
	}
	sec->mcount = m;
	sec->ucount = u;
	l_m = m;
	l_u = u;
	nlock++;
}

static void check(void)
{
	VF_ASSERT(!!sec->mcount == !!sec->mapping &&
		  !!sec->mcount == !!sec->unmap &&
		  !!sec->mcount == !!sec->read &&
		  !!sec->mcount == !!sec->memsize,
		  "mapped as long as there are mappers");
	VF_ASSERT(sec->mcount || !sec->bcache,
		  "no block cache without mapping");
	own_m += (long) sec->mcount - l_m;
	own_u += (long) sec->ucount - l_u;
	snap = *sec;
}

static int vf_mtx_init(mtx_t *m)
{
	(void) m;
	if (lock_fails && vf_bool()) {
		vf_failures++;
		return thrd_error;
	}
	has_locks++;
	return thrd_success;
}

static void vf_mtx_destroy(mtx_t *m)
{
	VF_ASSERT(!sec || (m != &sec->lock && m != &sec->alock) ||
		  (!held && !aheld), "destroyed while held");
	has_locks--;
}

static int vf_mtx_lock(mtx_t *m)
{
	VF_ASSERT(!dead, "the section still exists");
	if (lock_fails && vf_bool()) {
		vf_failures++;
		return thrd_error;
	}
	if (m == &sec->lock) {
		VF_ASSERT(!held, "no deadlock: lock taken twice");
		VF_ASSERT(same_prot(sec, &snap),
			  "nothing changes without the lock");
		held = 1;
		if (active)
			rely();
	} else if (m == &sec->alock) {
		uint16_t a = vf_u16();

		VF_ASSERT(!aheld, "no deadlock: attach lock taken twice");
		VF_ASSERT(!held, "no deadlock: attach lock before lock");
		VF_ASSERT(same_aprot(sec, &snap),
			  "nothing changes without the attach lock");
		aheld = 1;
		if (active) {
			VF_ASSUME(a >= own_a);
			if (!own_a)
				sec->iscache = a ? (void *)
					isc_mem[vf_bool()] : NULL;
			sec->acount = a;
			l_a = a;
		}
	} else {
		VF_ASSERT(!fheld, "no deadlock: file lock taken twice");
		fheld = 1;
	}
	return thrd_success;
}

static int vf_mtx_unlock(mtx_t *m)
{
	VF_ASSERT(!dead, "the section still exists");
	if (m == &sec->lock) {
		VF_ASSERT(held, "unlock: it is held");
		held = 0;
		if (active)
			check();
	} else if (m == &sec->alock) {
		VF_ASSERT(aheld, "unlock: it is held");
		aheld = 0;
		if (active)
			VF_ASSERT(!!sec->acount == !!sec->iscache,
				  "attached to one cache or to none");
		own_a += (long) sec->acount - l_a;
		snap.iscache = sec->iscache;
		snap.acount = sec->acount;
	} else {
		VF_ASSERT(fheld, "unlock: it is held");
		fheld = 0;
	}
	if (lock_fails && vf_bool()) {
		vf_failures++;
		return thrd_error;
	}
	return thrd_success;
}

int pt_iscache_notify_map(struct pt_image_section_cache *c,
			  struct pt_section *s)
{
	VF_ASSERT(s == sec && (void *) c == sec->iscache && aheld && !held,
		  "notify: attached, without the section lock");
	notify_n++;
	return notify_rc;
}

int pt_iscache_notify_resize(struct pt_image_section_cache *c,
			     struct pt_section *s, uint64_t size)
{
	VF_ASSERT(s == sec && (void *) c == sec->iscache && aheld && !held,
		  "notify: attached, without the section lock");
	resize_n++;
	resize_size = size;
	return notify_rc;
}

/* files */
static int vf_open(void)
{
	VF_ASSERT(held, "under the lock");
	if (vf_bool()) {
		env_fail = 1;
		return -1;
	}
	nopen++;
	return 3;
}

static int vf_close(int fd)
{
	VF_ASSERT(fd == 3 && nopen > 0, "close: it is open");
	nopen--;
	return 0;
}

static int vf_fstat(int fd, struct stat *s)
{
	(void) fd;
	if (vf_bool()) {
		env_fail = 1;
		return -1;
	}
	memset(s, 0, sizeof(*s));
	s->st_size = fsize_now;
	s->st_mtime = mtime_now;
	return 0;
}

static void *vf_mmap(void *a, size_t n, int prot, int flags, int fd, off_t o)
{
	VF_ASSERT(!a && fd == 3 && nopen > 0 && (prot & PROT_READ) &&
		  !(prot & PROT_WRITE), "mmap: read-only");
	(void) flags;
	if (vf_bool() || !n || o % vf_pagesize || n > page_len)
		return MAP_FAILED;
	page_off = (uint64_t) o;
	nmap++;
	return page;
}

static int vf_munmap(void *a, size_t n)
{
	(void) n;
	VF_ASSERT(a == page && nmap > 0, "munmap: it is mapped");
	nmap--;
	return 0;
}

static FILE *vf_fdopen(int fd)
{
	VF_ASSERT(fd == 3 && nopen > 0, "fdopen: it is open");
	if (vf_bool()) {
		env_fail = 1;
		return NULL;
	}
	nfile++;
	nopen--;
	return (FILE *) file_obj;
}

static int vf_fclose(FILE *f)
{
	VF_ASSERT(f == (FILE *) file_obj && nfile > 0, "fclose: it is open");
	nfile--;
	return 0;
}

static int vf_fseek(FILE *f, long o, int w)
{
	VF_ASSERT(f == (FILE *) file_obj, "the file");
	if (vf_bool()) {
		env_fail = 1;
		return -1;
	}
	fpos = w == SEEK_END ? fsize_now + o : o;
	return 0;
}

static long vf_ftell(FILE *f)
{
	VF_ASSERT(f == (FILE *) file_obj, "the file");
	if (vf_bool()) {
		env_fail = 1;
		return -1;
	}
	return fpos;
}

static uint64_t rd_off, rd_size, cp_size;
static void *rd_buf;
static const void *cp_src;
static int cp_n;

static size_t vf_fread(void *b, size_t s, size_t n, FILE *f)
{
	VF_ASSERT(f == (FILE *) file_obj && s == 1, "the file");
	VF_ASSERT(fheld, "seek and read: no other thread in between");
	fread_n++;
	rd_buf = b;
	rd_off = (uint64_t) fpos;
	rd_size = n;
	return (size_t) vf_range(0, n);
}

static void vf_copy(void *dst, const void *src, size_t n)
{
	cp_n++;
	rd_buf = dst;
	cp_src = src;
	cp_size = n;
#ifdef MK
	/* the file name */
	VF_ASSERT(n <= 8, "within the string");
	memcpy(dst, src, n);
#endif
}

static size_t vf_strnlen(const char *s, size_t n)
{
	size_t k;

	for (k = 0; k < 8 && k < n; ++k)
		if (!s[k])
			break;
	return k;
}

/* the section as some thread finds it, unlocked */
static void start(void)
{
	vf_live = vf_may_fail = vf_failures = 0;
	held = aheld = fheld = dead = nopen = nmap = nfile = 0;
	has_locks = 2;
	nlock = notify_n = resize_n = fread_n = cp_n = env_fail = 0;
	own_u = own_m = own_a = 0;
	active = 0;
	lock_fails = 0;
	page_len = vf_range(1, 1 << 20);
	page = malloc(page_len);
	VF_ASSUME(page != NULL);
	vf_pagesize = 1l << vf_range(0, 14);
	sec = vf_malloc(sizeof(*sec));
	memset(sec, 0, sizeof(*sec));
	sec->filename = vf_malloc(2);
	sec->filename[0] = 'x';
	sec->filename[1] = 0;
	sec->status = vf_malloc(sizeof(struct pt_sec_posix_status));
	memset(sec->status, 0, sizeof(struct pt_sec_posix_status));
	fsize = vf_u64();
	mtime = (long) vf_u64();
	fsize_now = (long) (vf_bool() ? fsize : vf_u64());
	mtime_now = vf_bool() ? mtime : (long) vf_u64();
	((struct pt_sec_posix_status *) sec->status)->stat.st_size =
		(off_t) fsize;
	((struct pt_sec_posix_status *) sec->status)->stat.st_mtime = mtime;
	sec->offset = vf_u64();
	sec->size = vf_u64();
	VF_ASSUME(fsize <= INT64_MAX && fsize_now >= 0);
	VF_ASSUME(sec->offset < fsize && sec->size <= fsize - sec->offset);
	pm = NULL;
	snap = *sec;
	own_u = 1;
}

/* there is a mapping by other threads (or by us if own) */
static void start_mapped(int own)
{
	uint16_t m = vf_u16();

	VF_ASSUME(sec->size <= page_len && page_len - sec->size >= 4095);
	pm = vf_malloc(sizeof(*pm));
	other_mapping();
	nmap = 1;
	VF_ASSUME(m >= 1);
	sec->mcount = m;
	own_m = own;
	snap = *sec;
}

static int clean(void)
{
	return !held && !aheld && !fheld;
}

void harness(void)
{
	int rc, was_mapped, fail;
	uint64_t i;

	start();
	fail = vf_bool();
#if defined(GET) || defined(PUT)
	sec->mcount = 0;
	was_mapped = vf_bool();
	if (was_mapped)
		start_mapped(0);
	active = 1;
	lock_fails = fail;
#ifdef GET
	rc = pt_section_get(sec);
	VF_ASSERT(rc == 0 || rc == -pte_overflow || rc == -pte_bad_lock,
		  "get: result");
	if (!vf_failures)
		VF_ASSERT(rc == (l_u == UINT16_MAX ? -pte_overflow : 0),
			  "get: fails only on overflow");
	VF_ASSERT(own_u == 1 + (rc == 0) ||
		  (rc == -pte_bad_lock && vf_failures),
		  "get: one more reference");
	VF_ASSERT(!nlock || sec->mcount == l_m, "get: frame");
#else
	{
		struct pt_section *s = sec;
		int live = vf_live;

		/* the last user does not have it mapped */
		rc = pt_section_put(s);
		if (rc == 0 && l_u == 1) {
			VF_ASSERT(vf_live == live - 3 && has_locks == 0,
				  "put: the last one destroys it");
			VF_REACH("destroyed");
			return;
		}
		VF_ASSERT(vf_live == live && has_locks == 2,
			  "put: not destroyed while in use");
		if (!vf_failures)
			VF_ASSERT(rc == (l_u > 1 ? 0 : -pte_internal),
				  "put: result");
		if (!vf_failures && rc == 0)
			VF_ASSERT(own_u == 0, "put: our reference is dropped");
		if (rc == -pte_internal)
			VF_ASSERT(own_u == 1 && l_m,
				  "put: not while it is mapped");
		VF_ASSERT(!nlock || sec->mcount == l_m, "put: frame");
	}
#endif
#elif defined(ATTACH)
	{
		int live = vf_live;
		void *c = isc_mem[0];

		own_u = vf_range(1, 4);
		sec->ucount = (uint16_t) own_u;
		own_a = vf_range(0, 3);
		VF_ASSUME(own_a <= own_u);
		sec->acount = (uint16_t) own_a;
		sec->iscache = own_a ? (void *) isc_mem[0] : NULL;
		snap = *sec;
		i = (uint64_t) own_a;
		active = 1;
		lock_fails = fail;
		if (DETACH) {
			/* callers detach what they attached */
			VF_ASSUME(own_a >= 1);
			rc = pt_section_detach(sec, c);
			if (!vf_failures)
				VF_ASSERT(rc == 0 && own_a == (long) i - 1,
					  "detach: one less");
			if (rc == 0)
				VF_ASSERT(!sec->acount == !sec->iscache,
					  "the last one leaves");
		} else {
			rc = pt_section_attach(sec, c);
			if (rc == 0) {
				VF_ASSERT(own_a == (long) i + 1,
					  "attach: one more");
				VF_ASSERT(sec->iscache == c, "to this cache");
			} else if (!vf_failures) {
				VF_ASSERT(own_a == (long) i,
					  "attach: error, not attached");
				VF_ASSERT(rc == -pte_internal ||
					  (rc == -pte_overflow &&
					   l_a == UINT16_MAX), "attach: error");
				VF_ASSERT(rc != -pte_internal || l_u < l_a + 1
					  || (l_a && sec->iscache != c),
					  "only if attached elsewhere or "
					  "without reference");
			}
		}
		VF_ASSERT(!nlock || sec->ucount == l_u, "no reference");
		VF_ASSERT(vf_live == live, "not destroyed");
	}
#elif defined(MAP)
	{
		int live, om;

		was_mapped = vf_bool();
		om = 0;
		if (was_mapped) {
			om = vf_bool();
			start_mapped(om);
		}
		sec->iscache = vf_bool() ? (void *) isc_mem[0] : NULL;
		sec->acount = !!sec->iscache;
		own_a = sec->acount;
		own_u = 1;
		snap = *sec;
		notify_rc = vf_bool() ? -(int) vf_range(1, 30) : 0;
		vf_may_fail = vf_bool();
		live = vf_live;
		if (!was_mapped)
			live += 0;
		active = 1;
		rc = SHARE ? pt_section_map_share(sec) : pt_section_map(sec);
		VF_ASSERT(rc <= 0, "map: result");
		if (rc == 0) {
			VF_ASSERT(own_m == om + 1 && sec->mcount >= 1,
				  "map: we are one more mapper");
			VF_ASSERT(sec->mapping && sec->read && sec->unmap &&
				  sec->memsize, "map: it is mapped");
		} else
			VF_ASSERT(own_m == om, "map: error, not mapped by us");
		if (rc == 0 && !SHARE)
			VF_ASSERT(!notify_n || notify_rc >= 0,
				  "map: the cache agrees");
		if (rc == 0 && !SHARE)
			VF_ASSERT(!sec->iscache == !notify_n,
				  "map: the cache is notified");
		if (rc < 0)
			VF_ASSERT((SHARE && !l_m) || l_m == UINT16_MAX ||
				  (!SHARE && (notify_rc < 0 || (!l_m &&
				   (env_fail || vf_failures ||
				    fsize_now != (long) fsize ||
				    mtime_now != mtime)))),
				  "map: fails only for a reason");
		VF_ASSERT(!nopen, "map: file descriptor closed");
		VF_ASSERT(nmap + nfile <= 1 &&
			  !!(nmap + nfile) >= !!sec->mapping,
			  "map: one mapping while mapped");
		if (sec->mapping == pm && pm)
			VF_ASSERT(nmap == 1, "map: kept");
		if (rc == 0 && nmap && sec->mapping != pm) {
			struct pt_sec_posix_mapping *n = sec->mapping;

			/* the mapping covers exactly the section */
			VF_ASSERT(sec->read == pt_sec_posix_read &&
				  page_off + (uint64_t) (n->begin - page) ==
				  sec->offset, "map: begin of the section");
			VF_ASSERT((uint64_t) (n->end - n->begin) == sec->size,
				  "map: size of the section");
			VF_ASSERT(n->base == page && n->size ==
				  (uint64_t) (n->end - page),
				  "map: what will be unmapped");
			VF_ASSERT(fsize_now == (long) fsize &&
				  mtime == mtime_now,
				  "map: the file has not changed");
		}
		if (rc == 0 && nfile) {
			struct pt_sec_file_mapping *n = sec->mapping;

			VF_ASSERT(sec->read == pt_sec_file_read &&
				  (uint64_t) n->begin == sec->offset &&
				  (uint64_t) n->end == sec->offset + sec->size,
				  "map: the section in the file");
			VF_ASSERT(fsize_now == (long) fsize &&
				  mtime == mtime_now,
				  "map: the file has not changed");
		}
	}
#elif defined(UNMAP)
	{
		int om = vf_bool(), live;
		struct pt_block_cache *bc = NULL;

		start_mapped(om);
		if (vf_bool()) {
			bc = vf_malloc(sizeof(*bc));
			sec->bcache = bc;
			snap = *sec;
		}
		live = vf_live;
		active = 1;
		VF_ASSUME(om);
		rc = pt_section_unmap(sec);
		VF_ASSERT(rc == 0 && own_m == 0, "unmap: one mapper less");
		if (!sec->mcount) {
			VF_ASSERT(l_m == 1 && !nmap && !sec->bcache &&
				  vf_live == live - 1 - (bc != NULL),
				  "unmap: the last one frees mapping and "
				  "block cache");
		} else
			VF_ASSERT(l_m == sec->mcount + 1 && nmap == 1 &&
				  sec->mapping == pm && sec->bcache == bc &&
				  vf_live == live,
				  "unmap: still mapped for the others");
	}
#elif defined(READ)
	{
		uint8_t buf[8];
		uint16_t size = vf_u16(), want;
		uint64_t off = vf_u64();

		if (vf_bool()) {
			rc = pt_section_read(sec, buf, size, off);
			VF_ASSERT(rc == -pte_nomap, "read: not mapped");
		} else if (vf_bool()) {
			start_mapped(1);
			rc = pt_section_read(sec, buf, size, off);
			VF_ASSERT(clean() && cp_n <= 1, "once");
			if (off >= sec->size)
				VF_ASSERT(rc == -pte_nomap && !cp_n,
					  "read: beyond the section");
			else {
				want = sec->size - off < size ?
					(uint16_t) (sec->size - off) : size;
				VF_ASSERT(rc == want && cp_n == 1 &&
					  rd_buf == buf && cp_size == want &&
					  cp_src == pm->begin + off,
					  "read: the bytes at that offset, not "
					  "beyond the section");
			}
		} else {
			struct pt_sec_file_mapping fm;

			memset(&fm, 0, sizeof(fm));
			fm.file = (FILE *) file_obj;
			fm.begin = (long) sec->offset;
			fm.end = (long) (sec->offset + sec->size);
			sec->mapping = &fm;
			sec->read = pt_sec_file_read;
			sec->mcount = 1;
			snap = *sec;
			rc = pt_section_read(sec, buf, size, off);
			VF_ASSERT(clean(), "the file lock is released");
			if (off >= sec->size)
				VF_ASSERT(rc == -pte_nomap && !fread_n,
					  "read: beyond the section");
			else if (rc >= 0) {
				want = sec->size - off < size ?
					(uint16_t) (sec->size - off) : size;
				VF_ASSERT(fread_n == 1 && rc <= want &&
					  rd_size == want && rd_buf == buf &&
					  rd_off == sec->offset + off,
					  "read: the bytes at that offset of "
					  "the file, not beyond the section");
			} else
				VF_ASSERT(rc == -pte_nomap && !fread_n,
					  "read: seeking failed");
		}
	}
#elif defined(MK)
	{
		struct pt_section *s = NULL;
		char name[8];
		uint64_t off = vf_u64(), size = vf_u64();
		int k, live = vf_live;

		for (k = 0; k < 7; ++k)
			name[k] = (char) vf_u64();
		name[7] = 0;
		vf_may_fail = vf_bool();
		lock_fails = vf_bool();
		has_locks = 0;
		rc = pt_mk_section(&s, name, off, size);
		if (rc == 0) {
			VF_ASSERT(s && s->ucount == 1 && !s->mcount &&
				  !s->acount && !s->iscache && !s->mapping &&
				  !s->bcache && !s->read,
				  "mk: unmapped, one user");
			VF_ASSERT(off < (uint64_t) fsize_now &&
				  pt_section_offset(s) == off, "mk: offset");
			VF_ASSERT(pt_section_size(s) ==
				  (size < (uint64_t) fsize_now - off ? size :
				   (uint64_t) fsize_now - off),
				  "mk: truncated to the file");
			VF_ASSERT(!strcmp(pt_section_filename(s), name),
				  "mk: filename");
			VF_ASSERT(has_locks == 2 && vf_live == live + 3,
				  "mk: owned memory");
			VF_ASSERT(((struct pt_sec_posix_status *)
				   s->status)->stat.st_size == fsize_now &&
				  ((struct pt_sec_posix_status *)
				   s->status)->stat.st_mtime == mtime_now,
				  "mk: file status");
		} else {
			VF_ASSERT(rc < 0 && !s && has_locks == 0 &&
				  vf_live == live, "mk: errors leak nothing");
			VF_ASSERT(env_fail || vf_failures ||
				  off >= (uint64_t) fsize_now,
				  "mk: fails only for a reason");
			if (rc == -pte_invalid)
				VF_ASSERT(off >= (uint64_t) fsize_now,
					  "mk: beyond the file");
		}
	}
#elif defined(BCACHE)
	{
		int live;
		struct pt_block_cache *bc = NULL;

		start_mapped(1);
		sec->size = SIZE;
		other_mapping();
		if (vf_bool()) {
			bc = vf_malloc(sizeof(*bc) + SIZE *
				       sizeof(struct pt_bcache_entry));
			bc->nentries = SIZE;
			sec->bcache = bc;
		}
		sec->iscache = vf_bool() ? (void *) isc_mem[0] : NULL;
		sec->acount = !!sec->iscache;
		own_a = sec->acount;
		snap = *sec;
		notify_rc = vf_bool() ? -(int) vf_range(1, 30) : 0;
		vf_may_fail = vf_bool();
		live = vf_live;
		active = 1;
		rc = pt_section_request_bcache(sec);
		if (bc) {
			VF_ASSERT(rc == 0 && sec->bcache == bc &&
				  vf_live == live, "bcache: already there");
		} else if (vf_failures || !SIZE) {
			VF_ASSERT(rc == -pte_nomem && !sec->bcache,
				  "bcache: none");
		} else {
			bc = sec->bcache;
			VF_ASSERT(bc && bc->nentries == SIZE &&
				  vf_live == live + 1,
				  "bcache: one entry per byte");
			for (i = 0; i < SIZE; ++i) {
				struct pt_bcache_entry e;

				VF_ASSERT(pt_bcache_lookup(&e, bc, i) == 0 &&
					  !pt_bce_is_valid(e),
					  "bcache: initially not valid");
			}
			if (sec->iscache)
				VF_ASSERT(resize_n == 1 && resize_size ==
					  pm->size + sizeof(*bc) + SIZE *
					  sizeof(struct pt_bcache_entry) &&
					  rc == notify_rc,
					  "bcache: the cache learns its size");
			else
				VF_ASSERT(rc == 0 && !resize_n, "bcache");
		}
		if (bc) {
			struct pt_bcache_entry e, f, g;
			uint64_t j = vf_u64(), k = vf_u64();

			memset(&f, 0, sizeof(f));
			memset(&e, 0, sizeof(e));
			e.displacement = (int16_t) vf_u16();
			e.ninsn = vf_u8();
			e.mode = (uint32_t) vf_range(0, 3);
			e.qualifier = (uint32_t) vf_range(0, 7);
			e.isize = (uint32_t) vf_range(0, 7);
			if (k < SIZE)
				(void) pt_bcache_lookup(&f, bc, k);
			rc = pt_bcache_add(bc, j, e);
			VF_ASSERT(rc == (j < SIZE ? 0 : -pte_internal),
				  "bcache: within the section");
			rc = pt_bcache_lookup(&g, bc, k);
			VF_ASSERT(rc == (k < SIZE ? 0 : -pte_internal),
				  "bcache: within the section");
			if (k < SIZE) {
				struct pt_bcache_entry *w = k == j ? &e : &f;

				VF_ASSERT(g.displacement == w->displacement &&
					  g.ninsn == w->ninsn &&
					  g.mode == w->mode &&
					  g.qualifier == w->qualifier &&
					  g.isize == w->isize,
					  "bcache: what was added last");
			}
		}
	}
#elif defined(MEMSIZE)
	{
		uint64_t ms = vf_u64();
		struct pt_block_cache bc;

		was_mapped = vf_bool();
		bc.nentries = vf_u32();
		if (was_mapped) {
			start_mapped(1);
			sec->bcache = vf_bool() ? &bc : NULL;
			snap = *sec;
		}
		active = 1;
		own_m = was_mapped;
		if (!was_mapped)
			pm = NULL;
		rc = pt_section_memsize(sec, &ms);
		if (was_mapped)
			VF_ASSERT(rc == 0 && ms == pm->size + (sec->bcache ?
				  sizeof(bc) + bc.nentries *
				  sizeof(struct pt_bcache_entry) : 0),
				  "memsize: mapping and block cache");
		else
			VF_ASSERT(rc == 0 && ms == 0, "memsize: unmapped");
	}
#endif
	VF_ASSERT(clean(), "all locks are released");
	VF_ASSERT(same_prot(sec, &snap), "nothing changes without the lock");
	VF_ASSERT(same_aprot(sec, &snap),
		  "nothing changes without the attach lock");
	VF_REACH("end");
}
