/* C19: the instruction flow decoder (pt_insn_decoder.c).
 *
 * One call from any state.  The query decoder, the image, and instruction
 * decode are replaced by their contracts (C18, C11, C15); the flow itself is
 * specified in spec_flow.h.
 */
#include "vf.h"
#ifdef VF_DEBUG
#include <stdio.h>
#endif

#define pt_insn_decode vf_real_insn_decode
#define pt_insn_range_is_contiguous vf_real_insn_range
#include "libipt/src/pt_insn.c"
#undef pt_insn_decode
#undef pt_insn_range_is_contiguous
#include "libipt/src/pt_asid.c"

/* Not used: see pt_insn_decode(). */
int pt_image_read(struct pt_image *im, int *isid, uint8_t *buffer,
		  uint16_t size, const struct pt_asid *asid, uint64_t addr)
{
	(void) im, (void) isid, (void) buffer, (void) size, (void) asid;
	(void) addr;
	return -pte_internal;
}

static struct pt_insn_decoder *dp;
extern int pt_insn_decode(struct pt_insn *, struct pt_insn_ext *,
			  struct pt_image *, const struct pt_asid *);
extern int pt_insn_range_is_contiguous(uint64_t, uint64_t, enum pt_exec_mode,
				       struct pt_image *,
				       const struct pt_asid *, size_t);
#include "libipt/src/pt_insn_decoder.c"
#include "spec_flow.h"

/* The types of the current and of the next event. */
#ifndef TYPE
#  define TYPE ((enum pt_event_type) vf_range(0, ptev_trig))
#endif
#ifndef TYPE2
#  define TYPE2 ((enum pt_event_type) vf_range(0, ptev_trig))
#endif
#ifndef USIZE
#define USIZE 64
#endif

static struct pt_insn_decoder d;
static struct pt_image image;

static int any_error(void)
{
	return -(int) vf_range(1, 40);
}
static int any_flags(void)
{
	return (int) vf_range(0, 7) & (pts_event_pending | pts_eos |
				       pts_ip_suppressed);
}
static int any_status(void)
{
	return vf_bool() ? any_error() : any_flags();
}

static void any_event(struct pt_event *ev, enum pt_event_type type)
{
	uint64_t *w = (uint64_t *) (void *) &ev->variant;
	size_t i;

	ev->type = type;
	ev->ip_suppressed = vf_bool();
	ev->status_update = vf_bool();
	ev->has_tsc = vf_bool();
	ev->tsc = vf_u64();
	ev->lost_mtc = vf_u32();
	ev->lost_cyc = vf_u32();
	for (i = 0; i < sizeof(ev->variant) / sizeof(*w); ++i)
		w[i] = vf_u64();
}

/* The trace. */
static struct pt_event t_ev;	/* one call fetches at most one event */
static int t_ev_rc, nev;
static int t_cond_rc, t_taken, ncond;
static int t_ind_rc, nind;
static uint64_t t_ind_ip;
static int t_pop_rc, npop, npush, nretinit;
static uint64_t t_pop_ip, pushed;
static int t_time_rc;
static uint64_t t_tsc;
static uint32_t t_lm, t_lc;
static int t_inval_rc, ninval;
static int t_reach, t_filter;
static uint64_t filter_ip;

static int tr_event(int n) { return n < 1 ? t_ev_rc : -pte_eos; }
static const struct pt_event *tr_ev(int n) { (void) n; return &t_ev; }
static int tr_cond(int *taken) { *taken = t_taken; return t_cond_rc; }
static int tr_ind(uint64_t *ip)
{
	if (0 <= t_ind_rc && !(t_ind_rc & pts_ip_suppressed))
		*ip = t_ind_ip;
	return t_ind_rc;
}
static int tr_pop(uint64_t *ip)
{
	if (0 <= t_pop_rc)
		*ip = t_pop_ip;
	return t_pop_rc;
}
static int tr_time(uint64_t *tsc, uint32_t *lost_mtc, uint32_t *lost_cyc)
{
	*tsc = t_tsc;
	*lost_mtc = t_lm;
	*lost_cyc = t_lc;
	return t_time_rc;
}
static int tr_inval(void) { return t_inval_rc; }
static uint64_t reach_from, reach_to;
static int tr_reach(uint64_t from, uint64_t to)
{
	reach_from = from;
	reach_to = to;
	return t_reach;
}
static int tr_filter(uint64_t ip)
{
	filter_ip = ip;
	return t_filter;
}

/* The contracts of what the decoder uses. */
int pt_qry_event(struct pt_query_decoder *q, struct pt_event *ev, size_t size)
{
	int n = nev++;

	VF_ASSERT(q == &d.query && size == sizeof(*ev), "the query decoder");
	if (0 <= tr_event(n))
		*ev = t_ev;
	return tr_event(n);
}
int pt_qry_cond_branch(struct pt_query_decoder *q, int *taken)
{
	VF_ASSERT(q == &d.query, "the query decoder");
	ncond += 1;
	if (0 <= t_cond_rc)
		*taken = t_taken;
	return t_cond_rc;
}
int pt_qry_indirect_branch(struct pt_query_decoder *q, uint64_t *ip)
{
	VF_ASSERT(q == &d.query, "the query decoder");
	nind += 1;
	return tr_ind(ip);
}
int pt_qry_time(struct pt_query_decoder *q, uint64_t *tsc, uint32_t *lost_mtc,
		uint32_t *lost_cyc)
{
	VF_ASSERT(q == &d.query, "the query decoder");
	return tr_time(tsc, lost_mtc, lost_cyc);
}
static uint32_t t_cbr;
int pt_qry_core_bus_ratio(struct pt_query_decoder *q, uint32_t *cbr)
{
	VF_ASSERT(q == &d.query, "the query decoder");
	*cbr = t_cbr;
	return t_time_rc;
}
int pt_retstack_push(struct pt_retstack *r, uint64_t ip)
{
	VF_ASSERT(r == &d.retstack, "the return stack");
	npush += 1;
	pushed = ip;
	return 0;
}
int pt_retstack_pop(struct pt_retstack *r, uint64_t *ip)
{
	VF_ASSERT(r == &d.retstack, "the return stack");
	npop += 1;
	return tr_pop(ip);
}
void pt_retstack_init(struct pt_retstack *r)
{
	VF_ASSERT(r == &dp->retstack, "the return stack");
	nretinit += 1;
}
int pt_filter_addr_check(const struct pt_conf_addr_filter *f, uint64_t ip)
{
	VF_ASSERT(f == &d.query.evdec.pacdec.config.addr_filter,
		  "the configured filter");
	filter_ip = ip;
	return t_filter;
}
int pt_insn_range_is_contiguous(uint64_t begin, uint64_t end,
				enum pt_exec_mode mode, struct pt_image *im,
				const struct pt_asid *asid, size_t steps)
{
	VF_ASSERT(im == &image && asid == &d.asid && mode == d.mode,
		  "in the traced memory");
	VF_ASSERT(0 < steps, "at least one step");
	reach_from = begin;
	reach_to = end;
	return t_reach;
}

/* Instruction decode. */
static struct pt_mapped_section msec;
static int c_read_rc, c_fill_rc, s_read_rc, ild_rc, dec_rc;
static struct pt_insn ild_insn, dec_insn;
static struct pt_insn_ext ild_iext, dec_iext;
static int ndec;
static uint64_t insn_ip;

static void copy_insn(struct pt_insn *to, const struct pt_insn *from)
{
	to->iclass = from->iclass;
	to->size = from->size;
	to->raw[0] = from->raw[0];
	to->raw[14] = from->raw[14];
}
int pt_msec_cache_init(struct pt_msec_cache *c)
{
	VF_ASSERT(c == &dp->scache, "the section cache");
	return 0;
}
void pt_msec_cache_fini(struct pt_msec_cache *c)
{
	VF_ASSERT(c == &dp->scache, "the section cache");
}
int pt_msec_cache_invalidate(struct pt_msec_cache *c)
{
	VF_ASSERT(c == &d.scache, "the section cache");
	ninval += 1;
	return t_inval_rc;
}
int pt_msec_cache_read(struct pt_msec_cache *c,
		       const struct pt_mapped_section **pmsec,
		       struct pt_image *im, uint64_t ip)
{
	VF_ASSERT(c == &d.scache && im == &image && ip == insn_ip,
		  "the section containing the ip");
	if (0 <= c_read_rc)
		*pmsec = &msec;
	return c_read_rc;
}
int pt_msec_cache_fill(struct pt_msec_cache *c,
		       const struct pt_mapped_section **pmsec,
		       struct pt_image *im, const struct pt_asid *asid,
		       uint64_t ip)
{
	VF_ASSERT(c == &d.scache && im == &image && ip == insn_ip &&
		  asid == &d.asid, "the section containing the ip");
	if (0 <= c_fill_rc)
		*pmsec = &msec;
	return c_fill_rc;
}
int pt_section_read(const struct pt_section *s, uint8_t *buffer, uint16_t size,
		    uint64_t offset)
{
	VF_ASSERT(s == msec.section && offset == insn_ip - msec.vaddr +
		  msec.offset, "the memory at the ip");
	VF_ASSERT(size <= pt_max_insn_size, "one instruction");
	(void) buffer;
	return s_read_rc < 0 ? s_read_rc : size;
}
int pt_ild_decode(struct pt_insn *insn, struct pt_insn_ext *iext)
{
	VF_ASSERT(insn->mode == d.mode && insn->ip == insn_ip,
		  "the instruction at the ip");
	if (ild_rc < 0)
		return ild_rc;
	copy_insn(insn, &ild_insn);
	*iext = ild_iext;
	ndec += 1;
	return 0;
}
int pt_insn_decode(struct pt_insn *insn, struct pt_insn_ext *iext,
		   struct pt_image *im, const struct pt_asid *asid)
{
	VF_ASSERT(im == &image && asid == &d.asid && insn->mode == d.mode &&
		  insn->ip == d.ip, "the instruction at the ip");
#ifdef NEXT
	if (ndec++ == 0) {
		copy_insn(insn, &dec_insn);
		insn->isid = dec_insn.isid;
		insn->truncated = dec_insn.truncated;
		*iext = dec_iext;
		return dec_rc;
	}
#endif
	/* Only used to check for erratum SKD022. */
	iext->iclass = cf_skd022_iclass;
	return cf_skd022_rc;
}

/* Allocation. */
static struct pt_conf_flags user_flags;
static int cfg_rc, q_rc, nqfini, nifini, nsync, sync_rc, sync_kind;
static uint64_t sync_off, sync_ip;
static const struct pt_config *ucfg;
static struct pt_conf_flags qry_flags;
int pt_config_from_user(struct pt_config *c, const struct pt_config *u)
{
	VF_ASSERT(u == ucfg, "the user's configuration");
	if (0 <= cfg_rc)
		c->flags = user_flags;
	return cfg_rc;
}
int pt_qry_decoder_init(struct pt_query_decoder *q, const struct pt_config *c)
{
	dp = (struct pt_insn_decoder *)
		((char *) q - offsetof(struct pt_insn_decoder, query));
	qry_flags = c->flags;
	return q_rc;
}
void pt_qry_decoder_fini(struct pt_query_decoder *q)
{
	VF_ASSERT(q == &dp->query, "the query decoder");
	nqfini += 1;
}
void pt_image_init(struct pt_image *im, const char *name)
{
	(void) name;
	VF_ASSERT(im == &dp->default_image, "the default image");
}
void pt_image_fini(struct pt_image *im)
{
	VF_ASSERT(im == &dp->default_image, "the default image");
	nifini += 1;
}
static int q_sync(struct pt_query_decoder *q, uint64_t *ip, int kind,
		  uint64_t off)
{
	VF_ASSERT(q == &d.query && kind == sync_kind && off == sync_off,
		  "the requested synchronization");
	nsync += 1;
	if (0 <= sync_rc && !(sync_rc & pts_ip_suppressed))
		*ip = sync_ip;
	return sync_rc;
}
int pt_qry_sync_forward(struct pt_query_decoder *q, uint64_t *ip)
{
	return q_sync(q, ip, 1, sync_off);
}
int pt_qry_sync_backward(struct pt_query_decoder *q, uint64_t *ip)
{
	return q_sync(q, ip, 2, sync_off);
}
int pt_qry_sync_set(struct pt_query_decoder *q, uint64_t *ip, uint64_t off)
{
	return q_sync(q, ip, 3, off);
}
static int off_rc;
int pt_qry_get_offset(const struct pt_query_decoder *q, uint64_t *off)
{
	VF_ASSERT(q == &d.query, "the query decoder");
	*off = sync_off;
	return off_rc;
}
int pt_qry_get_sync_offset(const struct pt_query_decoder *q, uint64_t *off)
{
	VF_ASSERT(q == &d.query, "the query decoder");
	*off = ~sync_off;
	return off_rc;
}

static void any_insn(struct pt_insn *insn, struct pt_insn_ext *iext)
{
#ifdef ICLASS
	insn->iclass = ICLASS;
#else
	insn->iclass = (enum pt_insn_class) vf_range(0, ptic_indirect);
#endif
	insn->size = (uint8_t) vf_range(1, pt_max_insn_size);
	insn->raw[0] = vf_u8();
	insn->raw[14] = vf_u8();
	iext->iclass = (pti_inst_enum_t) vf_range(0, PTI_INST_LAST - 1);
	iext->variant.branch.displacement = (int64_t) vf_u64();
	iext->variant.branch.is_direct = vf_bool();
}

static struct flow f;
static struct pt_config *cfg;

static void setup(void)
{
#ifdef VF_NATIVE
	memset(&d, 0, sizeof(d));
	memset(&f, 0, sizeof(f));
	nev = ncond = nind = npop = npush = nretinit = ninval = ndec = 0;
	nqfini = nifini = nsync = 0;
#endif
	dp = &d;
	d.image = &image;
	any_event(&t_ev, TYPE2);
	t_ev_rc = any_status();
	t_cond_rc = any_status();
	t_taken = vf_bool();
	t_ind_rc = any_status();
	t_ind_ip = vf_u64();
	t_pop_rc = vf_bool() ? any_error() : 0;
	t_pop_ip = vf_u64();
	t_time_rc = vf_bool() ? any_error() : 0;
	t_tsc = vf_u64();
	t_lm = vf_u32();
	t_lc = vf_u32();
	t_inval_rc = vf_bool() ? any_error() : 0;
	t_reach = vf_bool() ? any_error() : vf_bool();
	t_filter = vf_bool();

	cfg = &d.query.evdec.pacdec.config;
	cfg->errata.bdm64 = cf_bdm64 = vf_bool();
	cfg->errata.skd022 = cf_skd022 = vf_bool();
	cfg->errata.skl014 = vf_bool();
	cfg->addr_filter.config.addr_cfg = vf_u64();
	cf_skl014 = cfg->errata.skl014 && cfg->addr_filter.config.addr_cfg;
	cf_skd022_rc = vf_bool() ? any_error() : 0;
	cf_skd022_iclass = (pti_inst_enum_t) vf_range(0, PTI_INST_LAST - 1);
	d.flags.variant.insn.enable_tick_events = cf_ticks = vf_bool();

	d.ip = f.ip = vf_u64();
	d.mode = f.mode = (int) vf_range(0, 3);
	d.enabled = f.enabled = vf_bool();
	d.speculative = f.speculative = vf_bool();
	d.asid.size = sizeof(d.asid);
	d.asid.cr3 = f.cr3 = vf_u64();
	d.asid.vmcs = f.vmcs = vf_u64();
	d.status = f.flags = any_flags();
	d.has_icnt = f.has_icnt = vf_bool();
	/* There is no anchor while tracing is disabled. */
	d.icnt = f.icnt = vf_u32();
	any_event(&d.event, TYPE);
	d.process_event = f.have_ev = vf_bool();
	f.ev = d.event;
}

static int same_event(const struct pt_event *a, const struct pt_event *b)
{
	const uint64_t *v = (const uint64_t *) (const void *) &a->variant;
	const uint64_t *w = (const uint64_t *) (const void *) &b->variant;
	size_t i;

	if (a->type != b->type || a->ip_suppressed != b->ip_suppressed ||
	    a->status_update != b->status_update || a->has_tsc != b->has_tsc ||
	    a->tsc != b->tsc || a->lost_mtc != b->lost_mtc ||
	    a->lost_cyc != b->lost_cyc)
		return 0;
	for (i = 0; i < sizeof(a->variant) / sizeof(*v); ++i)
		if (v[i] != w[i])
			return 0;
	return 1;
}

/* The decoder's state is the specified one. */
static void check(void)
{
	VF_ASSERT(d.ip == f.ip, "ip");
	VF_ASSERT(d.mode == (enum pt_exec_mode) f.mode, "mode");
	VF_ASSERT(d.enabled == f.enabled, "enabled");
	VF_ASSERT(d.speculative == f.speculative, "speculative");
	VF_ASSERT(d.asid.cr3 == f.cr3 && d.asid.vmcs == f.vmcs,
		  "address space");
	VF_ASSERT(d.process_event == f.have_ev, "event");
	VF_ASSERT(!f.have_ev || same_event(&d.event, &f.ev), "event");
	VF_ASSERT(d.event.tsc == f.ev.tsc, "last event");
	VF_ASSERT(((d.status ^ f.flags) & (pts_event_pending | pts_eos)) == 0,
		  "what comes next");
	VF_ASSERT(d.has_icnt == f.has_icnt &&
		  (!f.has_icnt || d.icnt == f.icnt), "instruction count");
	VF_ASSERT(d.process_insn == f.post, "waiting instruction");
	VF_ASSERT(!f.post || (d.insn.ip == f.insn.ip &&
			      d.insn.size == f.insn.size &&
			      d.insn.iclass == f.insn.iclass &&
			      d.iext.iclass == f.iext.iclass &&
			      d.iext.variant.branch.displacement ==
			      f.iext.variant.branch.displacement &&
			      d.iext.variant.branch.is_direct ==
			      f.iext.variant.branch.is_direct),
		  "waiting instruction");
	VF_ASSERT(d.bound_paging == f.bpag && d.bound_vmcs == f.bvm &&
		  d.bound_ptwrite == f.bptw && d.bound_iret == f.biret &&
		  d.bound_vmentry == f.bvme && d.bound_uiret == f.buiret,
		  "at most one event of a kind");
	VF_ASSERT(npush == f.npush && npop == f.npop &&
		  (!npush || pushed == f.pushed), "return stack");
}

static void used(void)
{
	VF_ASSERT(ncond == f.ncond && nind == f.nind && nev == f.nev,
		  "trace is used in order and once");
	VF_ASSERT(ninval == f.ninval,
		  "cached memory of another address space is not used");
}

#ifdef NEXT
void harness(void)
{
	struct {
		struct pt_insn insn;
		uint8_t after[24];
	} u;
	struct pt_insn exp;
	const struct pt_insn_ext *iext;
	static const struct pt_insn zero;
	int ret, rc, isid, have, user;
	size_t k;
	uint8_t old;

	setup();
	insn_ip = d.ip;
	any_insn(&ild_insn, &ild_iext);
	any_insn(&dec_insn, &dec_iext);
	dec_insn.isid = (int) vf_range(0, 1000);
	dec_insn.truncated = vf_bool();
	c_read_rc = vf_bool() ? any_error() : (int) vf_range(0, 1000);
	c_fill_rc = vf_bool() ? any_error() : (int) vf_range(0, 1000);
	s_read_rc = vf_bool() ? any_error() : 0;
	ild_rc = vf_bool() ? any_error() : 0;
	dec_rc = vf_bool() ? any_error() : 0;
	msec.vaddr = vf_u64();
	msec.size = vf_u64();
	msec.offset = vf_u64();
	/* The section contains the ip. */
	VF_ASSUME(msec.vaddr <= insn_ip && insn_ip - msec.vaddr < msec.size &&
		  msec.size <= UINT64_MAX - msec.vaddr);
#ifdef BYTES
	k = vf_range(0, sizeof(u) - 1);
#else
	k = sizeof(u) - 1;
#endif
	((uint8_t *) &u)[k] = old = vf_u8();

	VF_ASSERT(pt_insn_next(NULL, &u.insn, USIZE) == -pte_invalid, "null");
	VF_ASSERT(pt_insn_next(&d, NULL, USIZE) == -pte_invalid, "null");

	ret = pt_insn_next(&d, &u.insn, USIZE);
	VF_ASSERT(k < USIZE || ((uint8_t *) &u)[k] == old,
		  "nothing beyond the user's size");

	if (!f.enabled) {
		VF_ASSERT(ret == ((f.flags & pts_eos) ? -pte_eos :
				  -pte_no_enable), "tracing is disabled");
		check();
		VF_REACH("disabled");
		return;
	}

	/* The instruction. */
	exp = zero;
	exp.ip = insn_ip;
	exp.mode = (enum pt_exec_mode) f.mode;
	exp.speculative = f.speculative;
	iext = &dec_iext;
	rc = 0;
	user = 1;
	isid = c_read_rc;
	if (isid == -pte_nomap)
		isid = c_fill_rc;
	have = 0 <= isid;
	if (!have && isid != -pte_nomap) {
		rc = isid;
		user = 0;
	} else if (have && s_read_rc < 0 && s_read_rc != -pte_nomap) {
		rc = s_read_rc;
		user = 0;
	} else if (have && 0 <= s_read_rc && ild_rc < 0 &&
		   ild_rc != -pte_bad_insn) {
		rc = ild_rc;
		user = 0;
	} else if (have && 0 <= s_read_rc && 0 <= ild_rc) {
		copy_insn(&exp, &ild_insn);
		exp.isid = isid;
		iext = &ild_iext;
	} else {
		copy_insn(&exp, &dec_insn);
		exp.isid = dec_insn.isid;
		exp.truncated = dec_insn.truncated;
		rc = dec_rc;
	}

	/* The user gets it also if there is an error. */
	if (user && k < USIZE)
		VF_ASSERT(((uint8_t *) &u)[k] ==
			  (k < sizeof(exp) ? ((uint8_t *) &exp)[k] : 0),
			  "the instruction");
	if (rc < 0) {
		VF_ASSERT(ret == rc, "errors are reported");
		check();
		VF_ASSERT(!nev && !ncond && !nind, "no trace is used");
		VF_REACH("error");
		return;
	}

	rc = fl_insn(&f, &exp, iext);
#ifdef VF_DEBUG
	if (ret != rc)
		printf("ret %d exp %d ev %d sup %d upd %d en %d icl %d\n", ret,
		       rc, d.event.type, d.event.ip_suppressed,
		       d.event.status_update, d.enabled, f.insn.iclass);
#endif
	VF_ASSERT(ret == rc, "status");
	if (rc < 0)
		return;
	used();
	check();
	VF_REACH("end");
}
#endif

#ifdef EVENT
void harness(void)
{
	struct {
		struct pt_event ev;
		uint8_t after[24];
	} u;
	struct pt_event exp;
	int ret, rc;
	size_t k;
	uint8_t old;

	setup();
	d.process_insn = f.post = vf_bool();
	any_insn(&d.insn, &d.iext);
	/* A waiting instruction is the current one. */
	d.insn.ip = d.ip;
	f.insn = d.insn;
	f.iext = d.iext;
	if (f.post) {
		d.bound_paging = f.bpag = vf_bool();
		d.bound_vmcs = f.bvm = vf_bool();
		d.bound_ptwrite = f.bptw = vf_bool();
		d.bound_iret = f.biret = vf_bool();
		d.bound_vmentry = f.bvme = vf_bool();
		d.bound_uiret = f.buiret = vf_bool();
		/* Only these wait; they do not move the ip. */
		VF_ASSUME(f.ev.type == ptev_paging || f.ev.type == ptev_vmcs ||
			  f.ev.type == ptev_ptwrite ||
			  f.ev.type == ptev_iret ||
			  f.ev.type == ptev_vmentry ||
			  f.ev.type == ptev_uiret ||
			  f.ev.type == ptev_disabled);
	}
#ifdef BYTES
	k = vf_range(0, sizeof(u) - 1);
#else
	k = sizeof(u) - 1;
#endif
	((uint8_t *) &u)[k] = old = vf_u8();

	VF_ASSERT(pt_insn_event(NULL, &u.ev, USIZE) == -pte_invalid, "null");
	VF_ASSERT(pt_insn_event(&d, NULL, USIZE) == -pte_invalid, "null");

	ret = pt_insn_event(&d, &u.ev, USIZE);
	VF_ASSERT(k < USIZE || ((uint8_t *) &u)[k] == old,
		  "nothing beyond the user's size");
	if (!f.have_ev) {
		VF_ASSERT(ret == -pte_bad_query, "there is no event");
		used();
		check();
		VF_REACH("none");
		return;
	}
	rc = fl_apply(&f);
	if (rc < 0) {
		VF_ASSERT(ret == rc, "the event does not apply");
		VF_ASSERT(((uint8_t *) &u)[k] == old, "no event");
		VF_REACH("error");
		return;
	}
	exp = f.ev;
	VF_ASSERT(USIZE <= k || sizeof(exp) <= k ||
		  ((uint8_t *) &u)[k] == ((uint8_t *) &exp)[k], "the event");
	rc = fl_after(&f);
#ifdef VF_DEBUG
	if (ret != rc)
		printf("ret %d exp %d ev %d sup %d upd %d en %d icl %d\n", ret,
		       rc, d.event.type, d.event.ip_suppressed,
		       d.event.status_update, d.enabled, f.insn.iclass);
#endif
	VF_ASSERT(ret == rc, "status");
	if (rc < 0)
		return;
	used();
	check();
	VF_REACH("end");
}
#endif

#ifdef START
void harness(void)
{
	int ret, rc;

	setup();
	sync_kind = START;
	sync_off = vf_u64();
	sync_ip = vf_u64();
	sync_rc = any_status();
	d.process_insn = vf_bool();
	d.bound_paging = vf_bool();
	d.bound_vmcs = vf_bool();
	d.bound_ptwrite = vf_bool();
	d.bound_iret = vf_bool();
	d.bound_vmentry = vf_bool();
	d.bound_uiret = vf_bool();
#if START == 1
	VF_ASSERT(pt_insn_sync_forward(NULL) == -pte_invalid, "null");
	ret = pt_insn_sync_forward(&d);
#elif START == 2
	VF_ASSERT(pt_insn_sync_backward(NULL) == -pte_invalid, "null");
	ret = pt_insn_sync_backward(&d);
#else
	VF_ASSERT(pt_insn_sync_set(NULL, sync_off) == -pte_invalid, "null");
	ret = pt_insn_sync_set(&d, sync_off);
#endif
	VF_ASSERT(nsync == 1, "synchronizes once");
	VF_ASSERT(nretinit == 1, "forgets the callers");

	/* Nothing is left from before. */
	f.ip = 0;
	f.mode = ptem_unknown;
	f.enabled = f.speculative = f.have_ev = f.has_icnt = f.post = 0;
	f.cr3 = pt_asid_no_cr3;
	f.vmcs = pt_asid_no_vmcs;
	f.flags = 0;
	if (0 <= sync_rc) {
		f.flags = sync_rc;
		f.enabled = !(sync_rc & pts_ip_suppressed);
		if (f.enabled)
			f.ip = sync_ip;
		rc = fl_ip_event(&f, NULL, NULL);
	} else
		rc = sync_rc;
#ifdef VF_DEBUG
	if (ret != rc)
		printf("ret %d exp %d ev %d sup %d upd %d en %d icl %d\n", ret,
		       rc, d.event.type, d.event.ip_suppressed,
		       d.event.status_update, d.enabled, f.insn.iclass);
#endif
	VF_ASSERT(ret == rc, "status");
	if (rc < 0) {
		VF_ASSERT(!d.enabled || 0 <= sync_rc, "not synchronized");
		VF_REACH("error");
		return;
	}
	VF_ASSERT(ncond == 0 && nind == 0 && nev == f.nev, "trace");
	check();
	VF_REACH("end");
}
#endif

#ifdef MISC
void harness(void)
{
	struct pt_insn_decoder *p;
	struct pt_config c;
	struct pt_asid as;
	struct pt_image other;
	uint64_t t, off;
	uint32_t lm, lc, cbr;
	int ret;

	setup();
	off_rc = vf_bool() ? any_error() : 0;
	sync_off = vf_u64();
	t_cbr = vf_u32();
	VF_ASSERT(pt_insn_get_offset(NULL, &off) == -pte_invalid &&
		  pt_insn_get_sync_offset(NULL, &off) == -pte_invalid &&
		  pt_insn_get_config(NULL) == NULL &&
		  pt_insn_get_image(NULL) == NULL &&
		  pt_insn_set_image(NULL, &other) == -pte_invalid &&
		  pt_insn_time(NULL, &t, &lm, &lc) == -pte_invalid &&
		  pt_insn_time(&d, NULL, &lm, &lc) == -pte_invalid &&
		  pt_insn_core_bus_ratio(NULL, &cbr) == -pte_invalid &&
		  pt_insn_core_bus_ratio(&d, NULL) == -pte_invalid &&
		  pt_insn_asid(NULL, &as, sizeof(as)) == -pte_invalid &&
		  pt_insn_asid(&d, NULL, sizeof(as)) == -pte_invalid, "null");
	VF_ASSERT(pt_insn_get_offset(&d, &off) == off_rc && off == sync_off,
		  "offset");
	VF_ASSERT(pt_insn_get_sync_offset(&d, &off) == off_rc &&
		  off == ~sync_off, "sync offset");
	VF_ASSERT(pt_insn_get_config(&d) == cfg, "configuration");
	ret = pt_insn_time(&d, &t, &lm, &lc);
	VF_ASSERT(ret == t_time_rc && t == t_tsc && lm == t_lm && lc == t_lc,
		  "time");
	ret = pt_insn_core_bus_ratio(&d, &cbr);
	VF_ASSERT(ret == t_time_rc && cbr == t_cbr, "core:bus ratio");
	ret = pt_insn_asid(&d, &as, sizeof(as));
	VF_ASSERT(ret == 0 && as.cr3 == f.cr3 && as.vmcs == f.vmcs,
		  "address space");
	VF_ASSERT(pt_insn_get_image(&d) == &image, "image");
	check();
	ret = pt_insn_set_image(&d, &other);
	VF_ASSERT(ret == 0 && pt_insn_get_image(&d) == &other, "image");
	ret = pt_insn_set_image(&d, NULL);
	VF_ASSERT(ret == 0 && pt_insn_get_image(&d) == &d.default_image,
		  "image");

	ucfg = &c;
	cfg_rc = vf_bool() ? any_error() : 0;
	q_rc = vf_bool() ? any_error() : 0;
	user_flags.variant.insn.keep_tcal_on_ovf = vf_bool();
	user_flags.variant.insn.enable_iflags_events = vf_bool();
	user_flags.variant.insn.enable_tick_events = vf_bool();
	p = pt_insn_alloc_decoder(&c);
	VF_ASSERT(!p || (0 <= cfg_rc && 0 <= q_rc), "a bad configuration");
	if (p) {
		VF_ASSERT(p == dp, "its own query decoder");
		VF_ASSERT(qry_flags.variant.query.keep_tcal_on_ovf ==
			  user_flags.variant.insn.keep_tcal_on_ovf &&
			  qry_flags.variant.query.enable_iflags_events ==
			  user_flags.variant.insn.enable_iflags_events &&
			  p->flags.variant.insn.enable_tick_events ==
			  user_flags.variant.insn.enable_tick_events,
			  "flags");
		VF_ASSERT(pt_insn_get_image(p) == &p->default_image,
			  "its own image");
		VF_ASSERT(!p->enabled && !p->process_event &&
			  !p->process_insn, "nothing to decode");
		pt_insn_free_decoder(p);
		VF_ASSERT(nqfini == 1 && nifini == 1, "everything is released");
	}
	VF_REACH("end");
}
#endif
