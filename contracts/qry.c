/* C18: the query decoder (pt_query_decoder.c).
 *
 * The event decoder is replaced by its contract: a script of events, each of
 * which may move the position and changes the time.  What is left of the
 * script is part of the (copied) decoder.  The tnt cache and time are real.
 */
#include "vf.h"
#include "libipt/src/pt_tnt_cache.c"
#include "libipt/src/pt_query_decoder.c"

#ifndef N
#define N 2			/* events in the script */
#endif

static struct pt_query_decoder d;
static uint8_t buffer[16];

static struct pt_event script[N];
static struct pt_time script_time[N];
static uint8_t script_pos[N];	/* the position after each event */
static int script_rc[N], script_end;
static struct pt_conf_flags evt_flags;

#define STEP(e) (e)->ip.ip	/* not used otherwise */

static int same_time(const struct pt_time *a, const struct pt_time *b)
{
	return a->tsc == b->tsc && a->base == b->base && a->fc == b->fc &&
		a->ctc == b->ctc && a->ctc_cyc == b->ctc_cyc &&
		a->lost_mtc == b->lost_mtc && a->lost_cyc == b->lost_cyc &&
		a->cbr == b->cbr && a->have_tsc == b->have_tsc &&
		a->have_cbr == b->have_cbr && a->have_tma == b->have_tma &&
		a->have_mtc == b->have_mtc;
}

static struct pt_time any_time(void)
{
	struct pt_time t;

	t.tsc = vf_u64();
	t.base = vf_u64();
	t.fc = vf_u64();
	t.ctc = vf_u32();
	t.ctc_cyc = vf_u32();
	t.lost_mtc = vf_u32();
	t.lost_cyc = vf_u32();
	t.cbr = vf_u8();
	t.have_tsc = vf_bool();
	t.have_cbr = vf_bool();
	t.have_tma = vf_bool();
	t.have_mtc = vf_bool();
	return t;
}

static int any_error(void)
{
	return -(int) vf_range(1, 40);
}

/* Contract of the event decoder. */
int pt_evt_next(struct pt_event_decoder *e, struct pt_event *ev, size_t size)
{
	uint64_t i;

	VF_ASSERT(size == sizeof(*ev), "the entire event is requested");
	i = STEP(e);
	if (N <= i)
		return script_end;
	if (script_rc[i] < 0)
		return script_rc[i];
	*ev = script[i];
	e->time = script_time[i];
	e->pacdec.pos = buffer + script_pos[i];
	STEP(e) = i + 1;
	return 0;
}

static int sync_rc[4], nsync;	/* 1: forward; 2: backward; 3: set */
static uint8_t sync_pos[4];
static uint64_t sync_off, sync_step;
static int sync_mode;

static int do_sync(struct pt_event_decoder *e, int mode, uint64_t off)
{
	int i = nsync;

	VF_ASSERT(e == &d.evdec, "the event decoder");
	VF_ASSERT(mode == sync_mode, "the requested direction");
	VF_ASSERT(off == sync_off, "the requested offset");
	if (3 < i)
		return -pte_eos;
	nsync += 1;
	if (sync_rc[i] < 0)
		return sync_rc[i];
	STEP(e) = i < 2 ? 0 : sync_step;
	e->pacdec.pos = buffer + sync_pos[i];
	return 0;
}
int pt_evt_sync_forward(struct pt_event_decoder *e)
{
	return do_sync(e, 1, sync_off);
}
int pt_evt_sync_backward(struct pt_event_decoder *e)
{
	return do_sync(e, 2, sync_off);
}
int pt_evt_sync_set(struct pt_event_decoder *e, uint64_t off)
{
	return do_sync(e, 3, off);
}

static int off_rc;
static uint64_t off_val;
int pt_evt_get_offset(const struct pt_event_decoder *e, uint64_t *offset)
{
	VF_ASSERT(e == &d.evdec, "the event decoder");
	*offset = off_val;
	return off_rc;
}
int pt_evt_get_sync_offset(const struct pt_event_decoder *e, uint64_t *offset)
{
	VF_ASSERT(e == &d.evdec, "the event decoder");
	*offset = ~off_val;
	return off_rc;
}
const struct pt_config *pt_evt_get_config(const struct pt_event_decoder *e)
{
	VF_ASSERT(e == &d.evdec, "the event decoder");
	return &e->pacdec.config;
}

static int init_rc, ninit, nfini, cfg_rc;
static const struct pt_config *ucfg;
static struct pt_conf_flags user_flags;
static struct pt_event_decoder *init_dec;
int pt_evt_decoder_init(struct pt_event_decoder *e, const struct pt_config *c)
{
	init_dec = e;
	ninit += 1;
	evt_flags = c->flags;
	if (init_rc < 0)
		return init_rc;
	e->pacdec.config = *c;
	return 0;
}
void pt_evt_decoder_fini(struct pt_event_decoder *e)
{
	VF_ASSERT(e == init_dec, "the event decoder");
	nfini += 1;
}
int pt_config_from_user(struct pt_config *c, const struct pt_config *u)
{
	VF_ASSERT(u == ucfg, "the user's configuration");
	if (cfg_rc < 0)
		return cfg_rc;
	c->flags = user_flags;
	return 0;
}
static int tq_rc;
static const struct pt_time *tq;
int pt_time_query_tsc(uint64_t *tsc, uint32_t *lost_mtc, uint32_t *lost_cyc,
		      const struct pt_time *time)
{
	tq = time;
	*tsc = time->tsc;
	if (lost_mtc)
		*lost_mtc = time->lost_mtc;
	if (lost_cyc)
		*lost_cyc = time->lost_cyc;
	return tq_rc;
}
int pt_time_query_cbr(uint32_t *cbr, const struct pt_time *time)
{
	tq = time;
	*cbr = time->cbr;
	return tq_rc;
}
void pt_time_init(struct pt_time *time)
{
	static const struct pt_time zero;

	*time = zero;
}

static uint8_t any_type(void)
{
	return (uint8_t) vf_range(0, ptev_trig);
}

static void any_event(struct pt_event *ev)
{
	ev->type = (enum pt_event_type) any_type();
	ev->ip_suppressed = vf_bool();
	ev->status_update = vf_bool();
	ev->has_tsc = vf_bool();
	ev->tsc = vf_u64();
	ev->lost_mtc = vf_u32();
	ev->lost_cyc = vf_u32();
	switch (ev->type) {
	case ptev_tnt:
		ev->variant.tnt.bits = vf_u64();
		ev->variant.tnt.size = (uint8_t) vf_range(1, 47);
		break;
	default:
		ev->variant.tip.ip = vf_u64();
		break;
	}
}

static void setup(void)
{
	int i, p = (int) vf_range(0, 4);

#ifdef VF_NATIVE
	memset(&d, 0, sizeof(d));
	nsync = ninit = nfini = 0;
#endif
	for (i = 0; i < N; ++i) {
		any_event(&script[i]);
		script_time[i] = any_time();
		script_rc[i] = vf_bool() ? any_error() : 0;
		p += (int) vf_range(0, 2);
		script_pos[i] = (uint8_t) p;	/* <= 14 */
	}
	script_end = any_error();
	d.evdec.pacdec.config.begin = buffer;
	d.evdec.pacdec.config.end = buffer + sizeof(buffer);
	d.evdec.pacdec.pos = buffer + vf_range(0, sizeof(buffer));
	d.evdec.time = any_time();
	d.last_time = any_time();
	STEP(&d.evdec) = vf_range(0, N);
	any_event(&d.event);
	d.status = vf_bool() ? any_error() : 0;
	/* There is no event if there was an error. */
	if (d.status < 0)
		memset(&d.event, 0xff, sizeof(d.event));
	i = (int) vf_range(0, 64);
	d.tnt.index = i ? 1ull << (i - 1) : 0;
	d.tnt.tnt = vf_u64();
}

/* What a read of the next event leaves: its status, and the event. */
static int next_rc(uint64_t step)
{
	if (N <= step)
		return script_end;
	return script_rc[step];
}

static int is_pending(enum pt_event_type type)
{
	return type != ptev_tnt && type != ptev_tip;
}

/* The flags that announce what comes next, if nothing but the next event is
 * outstanding.
 */
static int spec_flags(int tnt_left, int rc, enum pt_event_type type)
{
	if (tnt_left)
		return 0;
	if (rc == -pte_eos)
		return pts_eos;
	/* An error is reported in place of an event. */
	if (rc < 0)
		return pts_event_pending;
	return is_pending(type) ? pts_event_pending : 0;
}

static int same_event(const struct pt_event *a, const struct pt_event *b)
{
	if (a->type != b->type || a->ip_suppressed != b->ip_suppressed ||
	    a->status_update != b->status_update || a->has_tsc != b->has_tsc ||
	    a->tsc != b->tsc || a->lost_mtc != b->lost_mtc ||
	    a->lost_cyc != b->lost_cyc)
		return 0;
	if (a->type == ptev_tnt)
		return a->variant.tnt.bits == b->variant.tnt.bits &&
			a->variant.tnt.size == b->variant.tnt.size;
	return a->variant.tip.ip == b->variant.tip.ip;
}

/* The next event has been read. */
static void fetched(uint64_t step)
{
	int rc = next_rc(step);

	VF_ASSERT(d.status == (rc < 0 ? rc : 0), "errors are deferred");
	if (rc < 0)
		return;
	VF_ASSERT(STEP(&d.evdec) == step + 1, "one event");
	VF_ASSERT(same_event(&d.event, &script[step]), "the next event");
}

static void unchanged(const struct pt_query_decoder *o)
{
	VF_ASSERT(d.status == o->status &&
		  STEP(&d.evdec) == STEP(&o->evdec) &&
		  d.tnt.tnt == o->tnt.tnt && d.tnt.index == o->tnt.index,
		  "nothing is consumed");
	VF_ASSERT(same_event(&d.event, &o->event), "the event remains");
}

static int tnt_size(const struct pt_tnt_cache *c)
{
	int n;

	for (n = 0; n < 64; ++n)
		if (!(c->index >> n))
			break;
	return n;
}

#ifdef COND
void harness(void)
{
	struct pt_query_decoder o;
	uint64_t step, bits;
	int taken, ret, n, rc;
	enum pt_event_type nt;

	setup();
	step = STEP(&d.evdec);
	o = d;
	n = tnt_size(&d.tnt);
	taken = 7;
	rc = next_rc(step);
	nt = rc < 0 ? ptev_tip : script[step].type;

	VF_ASSERT(pt_qry_cond_branch(NULL, &taken) == -pte_invalid, "null");
	VF_ASSERT(pt_qry_cond_branch(&d, NULL) == -pte_invalid, "null");
	unchanged(&o);

	ret = pt_qry_cond_branch(&d, &taken);
	if (n) {
		VF_ASSERT(taken == (int) ((o.tnt.tnt >> (n - 1)) & 1),
			  "the oldest indicator");
		VF_ASSERT(tnt_size(&d.tnt) == n - 1, "is consumed");
		VF_ASSERT(d.tnt.tnt == o.tnt.tnt, "the others remain");
		VF_ASSERT(d.status == o.status && STEP(&d.evdec) == step &&
			  same_event(&d.event, &o.event),
			  "no event is consumed");
		VF_ASSERT(same_time(&d.last_time, &o.last_time),
			  "no time passes");
		VF_ASSERT(ret == spec_flags(n > 1, o.status, o.event.type),
			  "flags");
	} else if (o.status < 0) {
		VF_ASSERT(ret == o.status, "deferred errors");
		unchanged(&o);
	} else if (o.event.type != ptev_tnt) {
		VF_ASSERT(ret == -pte_bad_query, "no conditional branch");
		VF_ASSERT(taken == 7, "no indicator");
		unchanged(&o);
	} else {
		n = o.event.variant.tnt.size;
		bits = o.event.variant.tnt.bits;
		VF_ASSERT(taken == (int) ((bits >> (n - 1)) & 1),
			  "the first indicator of the packet");
		VF_ASSERT(tnt_size(&d.tnt) == n - 1, "is consumed");
		VF_ASSERT(((d.tnt.tnt ^ bits) & ((1ull << (n - 1)) - 1)) == 0,
			  "the others follow");
		fetched(step);
		VF_ASSERT(same_time(&d.last_time, &o.evdec.time),
			  "the time of the packet");
		VF_ASSERT(ret == spec_flags(n > 1, rc, nt), "flags");
	}
	VF_REACH("end");
}
#endif

#ifdef INDIR
void harness(void)
{
	struct pt_query_decoder o;
	uint64_t step, addr, old;
	int ret, n, rc, tip, m;
	const struct pt_event *ev;
	struct pt_time when;

	setup();
	step = STEP(&d.evdec);
	o = d;
	n = tnt_size(&d.tnt);
	old = addr = vf_u64();

	VF_ASSERT(pt_qry_indirect_branch(NULL, &addr) == -pte_invalid, "null");
	VF_ASSERT(pt_qry_indirect_branch(&d, NULL) == -pte_invalid, "null");
	unchanged(&o);

	ret = pt_qry_indirect_branch(&d, &addr);
	ev = &o.event;
	when = o.evdec.time;
	tip = 1;
	if (o.status < 0) {
		VF_ASSERT(ret == o.status, "deferred errors");
		tip = 0;
	} else if (ev->type == ptev_tnt) {
		m = ev->variant.tnt.size;
		if (64 < n + m) {
			VF_ASSERT(ret == -pte_overflow, "too many indicators");
			unchanged(&o);
			VF_ASSERT(addr == old, "no address");
			VF_REACH("overflow");
			return;
		}
		/* The indicators are set aside, and the next event may be a
		 * TIP.
		 */
		VF_ASSERT(tnt_size(&d.tnt) == n + m, "indicators are kept");
		VF_ASSERT(((d.tnt.tnt ^ ev->variant.tnt.bits) &
			   ((1ull << m) - 1)) == 0 &&
			  (!n || (((d.tnt.tnt >> m) ^ o.tnt.tnt) <<
				  (64 - n)) == 0), "in order");
		rc = next_rc(step);
		if (rc < 0) {
			VF_ASSERT(ret == rc, "the error of the next event");
			VF_ASSERT(d.status == rc, "is kept");
			VF_ASSERT(addr == old, "no address");
			VF_REACH("error");
			return;
		}
		ev = &script[step];
		when = script_time[step];
		step += 1;
		if (ev->type != ptev_tip) {
			VF_ASSERT(ret == -pte_bad_query, "no branch");
			VF_ASSERT(d.status == 0 && STEP(&d.evdec) == step &&
				  same_event(&d.event, ev),
				  "the event remains");
			VF_ASSERT(addr == old, "no address");
			VF_REACH("no branch");
			return;
		}
		n += m;
	} else if (ev->type != ptev_tip) {
		VF_ASSERT(ret == -pte_bad_query, "no indirect branch");
		tip = 0;
	}
	if (!tip) {
		unchanged(&o);
		VF_ASSERT(addr == old, "no address");
	} else {
		rc = next_rc(step);
		VF_ASSERT(addr == (ev->ip_suppressed ? old :
				   ev->variant.tip.ip), "the destination");
		VF_ASSERT(ret == ((ev->ip_suppressed ? pts_ip_suppressed : 0) |
				  spec_flags(n, rc, rc < 0 ? ptev_tip :
					     script[step].type)), "flags");
		fetched(step);
		VF_ASSERT(tnt_size(&d.tnt) == n, "no indicator is consumed");
		VF_ASSERT(same_time(&d.last_time, &when),
			  "the time of the branch");
	}
	VF_REACH("end");
}
#endif

#ifdef EVENT
void harness(void)
{
	struct pt_query_decoder o;
	struct {
		struct pt_event ev;
		uint8_t after[64];
	} u;
	uint64_t step;
	int ret, n, rc;
	size_t size, k;
	uint8_t old;

	setup();
	step = STEP(&d.evdec);
	o = d;
	n = tnt_size(&d.tnt);
	size = vf_range(0, sizeof(u));
	k = vf_range(0, sizeof(u) - 1);
	((uint8_t *) &u)[k] = old = vf_u8();

	VF_ASSERT(pt_qry_event(NULL, &u.ev, size) == -pte_invalid, "null");
	VF_ASSERT(pt_qry_event(&d, NULL, size) == -pte_invalid, "null");
	unchanged(&o);

	ret = pt_qry_event(&d, &u.ev, size);
	VF_ASSERT(k < size || ((uint8_t *) &u)[k] == old,
		  "nothing beyond the user's size");
	if (size < offsetof(struct pt_event, variant)) {
		VF_ASSERT(ret == -pte_invalid, "too small");
		unchanged(&o);
	} else if (n) {
		VF_ASSERT(ret == -pte_bad_query, "indicators come first");
		unchanged(&o);
	} else if (o.status < 0) {
		VF_ASSERT(ret == o.status, "deferred errors");
		unchanged(&o);
	} else if (!is_pending(o.event.type)) {
		VF_ASSERT(ret == -pte_bad_query, "not an event");
		unchanged(&o);
	} else {
		rc = next_rc(step);
		VF_ASSERT(size <= k || sizeof(u.ev) <= k ||
			  ((uint8_t *) &u)[k] == ((uint8_t *) &o.event)[k],
			  "every byte of the event the user has space for");
		fetched(step);
		VF_ASSERT(ret == spec_flags(0, rc, rc < 0 ? ptev_tip :
					    script[step].type), "flags");
		VF_ASSERT(same_time(&d.last_time, &o.evdec.time),
			  "the time of the event");
	}
	VF_REACH("end");
}
#endif

#ifdef SYNC
/* What starting gives: the ip of the first PSB+ event that enables tracing,
 * and flags.
 */
static int spec_start(uint64_t step, uint64_t pos, uint64_t *ip, int *en)
{
	int status = pts_ip_suppressed, rc;
	uint64_t i;

	*en = 0;
	for (i = step; i < N; ++i) {
		if (script_rc[i] < 0) {
			if (script_rc[i] != -pte_eos)
				return script_rc[i];
			break;
		}
		/* The first event that is not part of this PSB+. */
		if (!script[i].status_update)
			break;
		if (script[i].type == ptev_enabled) {
			status = 0;
			*en = 1;
			*ip = script[i].variant.tip.ip;
			break;
		}
		if (script_pos[i] != pos)
			break;
	}
	if (i == N && script_end != -pte_eos)
		return script_end;
	rc = next_rc(step);
	return status | spec_flags(0, rc, rc < 0 ? ptev_tip :
				   script[step].type);
}

void harness(void)
{
	struct pt_query_decoder o;
	uint64_t ip, old, off, eip, pos, start, step;
	int i, ret, exp, en, isip, cur;

	setup();
	o = d;
	sync_mode = SYNC;
	sync_off = vf_u64();
	sync_step = vf_range(0, N);
	for (i = 0; i < 4; ++i) {
		sync_pos[i] = (uint8_t) vf_range(0, 15);
		sync_rc[i] = vf_bool() ? any_error() : 0;
		/* An event decoder moves strictly backward. */
		if (SYNC == 2 && i)
			VF_ASSUME(sync_pos[i] < sync_pos[i - 1]);
	}
	/* Events come in the order of the trace. */
	cur = vf_bool();
	if (!cur)
		d.evdec.pacdec.pos = NULL;
	start = cur ? (uint64_t) (d.evdec.pacdec.pos - buffer) :
		sizeof(buffer);
	old = ip = vf_u64();
	isip = vf_bool();

#if SYNC == 1
	VF_ASSERT(pt_qry_sync_forward(NULL, &ip) == -pte_invalid, "null");
	ret = pt_qry_sync_forward(&d, isip ? &ip : NULL);
#elif SYNC == 2
	VF_ASSERT(pt_qry_sync_backward(NULL, &ip) == -pte_invalid, "null");
	ret = pt_qry_sync_backward(&d, isip ? &ip : NULL);
#else
	VF_ASSERT(pt_qry_sync_set(NULL, &ip, sync_off) == -pte_invalid, "null");
	ret = pt_qry_sync_set(&d, isip ? &ip : NULL, sync_off);
#endif
	VF_ASSERT(pt_tnt_cache_is_empty(&d.tnt) == 1,
		  "no indicators are left from before");
	VF_ASSERT(same_time(&d.last_time, &(struct pt_time) { 0 }),
		  "time is not known");

	eip = old;
	exp = -pte_eos;
	en = 0;
	step = 0;
	pos = start;
	for (i = 0; i < 4; ++i) {
		if (sync_rc[i] < 0) {
			exp = sync_rc[i];
			en = 0;
			break;
		}
		/* Do not find the same PSB again. */
		if (SYNC == 2 && pos <= sync_pos[i])
			continue;
		pos = sync_pos[i];
		step = i < 2 ? 0 : sync_step;
		exp = spec_start(step, pos, &eip, &en);
		if (SYNC != 2)
			break;
		if (exp == -pte_eos)
			continue;
		if (exp < 0)
			break;
		if (next_rc(step) >= 0 ? script_pos[step] < start : pos < start)
			break;
		exp = -pte_eos;
		en = 0;
	}
	if (exp < 0) {
		VF_ASSERT(ret == exp, "errors are reported");
	} else {
		VF_ASSERT(ret == exp, "status");
		fetched(step);
		VF_ASSERT(!isip || !en || ip == eip, "the start address");
		VF_ASSERT(!isip || en || SYNC == 2 || ip == old,
			  "only if tracing is enabled");
	}
	VF_REACH("end");
}
#endif

#ifdef MISC
void harness(void)
{
	struct pt_query_decoder o, *p;
	struct pt_config c;
	uint64_t t, off;
	uint32_t lm, lc, cbr;
	int ret, w;

	setup();
	o = d;
	off_rc = vf_bool() ? any_error() : 0;
	off_val = vf_u64();
	tq_rc = vf_bool() ? any_error() : 0;

	VF_ASSERT(pt_qry_get_offset(NULL, &off) == -pte_invalid &&
		  pt_qry_get_sync_offset(NULL, &off) == -pte_invalid &&
		  pt_qry_get_config(NULL) == NULL &&
		  pt_qry_time(NULL, &t, &lm, &lc) == -pte_invalid &&
		  pt_qry_time(&d, NULL, &lm, &lc) == -pte_invalid &&
		  pt_qry_core_bus_ratio(NULL, &cbr) == -pte_invalid &&
		  pt_qry_core_bus_ratio(&d, NULL) == -pte_invalid, "null");
	VF_ASSERT(pt_qry_get_offset(&d, &off) == off_rc && off == off_val,
		  "offset");
	VF_ASSERT(pt_qry_get_sync_offset(&d, &off) == off_rc &&
		  off == ~off_val, "sync offset");
	VF_ASSERT(pt_qry_get_config(&d) == &d.evdec.pacdec.config, "config");
	w = vf_bool();
	ret = pt_qry_time(&d, &t, w ? &lm : NULL, w ? &lc : NULL);
	VF_ASSERT(ret == tq_rc && t == o.last_time.tsc &&
		  (!w || (lm == o.last_time.lost_mtc &&
			  lc == o.last_time.lost_cyc)),
		  "the time of the last query");
	ret = pt_qry_core_bus_ratio(&d, &cbr);
	VF_ASSERT(ret == tq_rc && cbr == o.last_time.cbr,
		  "the core:bus ratio of the last query");
	unchanged(&o);

	ucfg = &c;
	cfg_rc = vf_bool() ? any_error() : 0;
	init_rc = vf_bool() ? any_error() : 0;
	user_flags.variant.query.keep_tcal_on_ovf = vf_bool();
	user_flags.variant.query.enable_iflags_events = vf_bool();
	p = pt_qry_alloc_decoder(&c);
	VF_ASSERT(!(cfg_rc < 0 || init_rc < 0) || !p, "a bad configuration");
	if (p) {
		VF_ASSERT(ninit == 1 && init_dec == &p->evdec,
			  "an event decoder");
		VF_ASSERT(evt_flags.variant.event.keep_tcal_on_ovf ==
			  user_flags.variant.query.keep_tcal_on_ovf &&
			  evt_flags.variant.event.enable_iflags_events ==
			  user_flags.variant.query.enable_iflags_events,
			  "flags are passed on");
		VF_ASSERT(p->status == -pte_nosync, "not synchronized");
		VF_ASSERT(pt_tnt_cache_is_empty(&p->tnt) == 1, "no indicator");
		VF_ASSERT(nfini == 0, "alive");
		pt_qry_free_decoder(p);
		VF_ASSERT(nfini == 1, "the event decoder is released");
	}
	VF_REACH("end");
}
#endif
