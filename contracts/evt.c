/* C16: events (pt_event_decoder.c).
 *
 * One call to pt_evt_next() from any state: any pending events, any packet,
 * and any packets that follow.  The packet decoder is a script of packets, and
 * timing is recorded rather than calculated; both follow their contracts
 * (proved for C01 and C08, C09).  The event queue and the last ip are the real
 * ones.
 *
 * The specification (spec_*) restates which packets bind to which others, and
 * which event they give, over an abstract list of pending events.
 */
#include "vf.h"
#include "libipt/src/pt_last_ip.c"
#ifdef VF_NATIVE
#include "libipt/src/pt_event_queue.c"
#endif
#include "libipt/src/pt_event_decoder.c"

#ifndef S
#define S 2			/* packets in the script */
#endif
#ifndef NB
#define NB 0			/* pending events: bindings B*, types P* */
#endif
#ifndef NQ
#define NQ (NB + 2)
#endif
#define NSCRIPT (S + 1)

static struct pt_event_decoder d;
static uint8_t buffer[NSCRIPT];

static struct pt_packet script[NSCRIPT];
static int navail, end_rc;	/* what follows the script */

static int t_rc, u_rc, f_rc;	/* results of time updates */
static uint64_t fcr_val;

#ifdef VF_NATIVE
static int q_len(void)
{
	return (d.evq.end - d.evq.begin) & (evq_max - 1);
}
static struct pt_evq_entry *q_at(int i)
{
	return &d.evq.queue[(d.evq.begin + i) & (evq_max - 1)];
}
static uint32_t q_binding(int i) { return q_at(i)->binding; }
static const struct pt_event *q_event(int i) { return &q_at(i)->event; }
static void q_set(int n, const struct pt_event *ev, uint32_t b)
{
	d.evq.queue[n].event = *ev;
	d.evq.queue[n].binding = b;
	d.evq.end = (uint8_t) (n + 1);
}
#else
/* The contract of the event queue: a list of slots.  Dequeueing an event moves
 * the preceding events into the next slot each, and returns the first slot;
 * pointers to slots of pending events get stale.
 */
#ifdef ALLOC
#define Q_IS(q) (void) (q)
#else
#define Q_IS(q) VF_ASSERT((q) == &d.evq, "queue")
#endif
static struct pt_event *q_slot[NQ];
static uint32_t q_evb[NQ];
static int q_n;

/* Memory that has not been used before. */
static struct pt_event *q_new(void)
{
	static struct pt_event ev0, ev1, ev2, ev3, ev4, ev5;
	static int n;

	switch (n++) {
	case 0: return &ev0;
	case 1: return &ev1;
	case 2: return &ev2;
	case 3: return &ev3;
	case 4: return &ev4;
	default: VF_ASSUME(n == 6); return &ev5;
	}
}
static int q_len(void) { return q_n; }
static uint32_t q_binding(int i) { return q_evb[i]; }
static const struct pt_event *q_event(int i) { return q_slot[i]; }
static void q_set(int n, const struct pt_event *ev, uint32_t b)
{
	static struct pt_event slot[4];

	q_slot[n] = &slot[n];
	slot[n] = *ev;
	q_evb[n] = b;
	q_n = n + 1;
}

void pt_evq_init(struct pt_event_queue *evq)
{
	Q_IS(evq);
	q_n = 0;
}
int pt_evq_clear(struct pt_event_queue *evq)
{
	Q_IS(evq);
	q_n = 0;
	return 0;
}
struct pt_event *pt_evq_standalone(struct pt_event_queue *evq)
{
	Q_IS(evq);
	return q_new();
}
struct pt_event *pt_evq_enqueue(struct pt_event_queue *evq, uint32_t evb)
{
	struct pt_event *ev = q_new();
	int i;

	Q_IS(evq);
	VF_ASSUME(q_n < NQ);
	for (i = 0; i < NQ; ++i)
		if (i == q_n) {
			q_slot[i] = ev;
			q_evb[i] = evb;
		}
	q_n += 1;
	return ev;
}
struct pt_event *pt_evq_requeue(struct pt_event_queue *evq,
				struct pt_event *ev, uint32_t evb)
{
	struct pt_event *rev;

	if (!ev)
		return NULL;
	rev = pt_evq_enqueue(evq, evb);
	*rev = *ev;
	return rev;
}
static int q_find(uint32_t evb, int type)
{
	int i;

	for (i = 0; i < NQ; ++i)
		if (i < q_n && (q_evb[i] & evb) &&
		    (type < 0 || (int) q_slot[i]->type == type))
			return i;
	return -1;
}
struct pt_event *pt_evq_dequeue(struct pt_event_queue *evq, uint32_t evb)
{
	struct pt_event ev, *first;
	int i, k = q_find(evb, -1);

	Q_IS(evq);
	if (k < 0)
		return NULL;
	first = q_slot[0];
	for (i = NQ - 1; i > 0; --i) {
		if (i > k)
			continue;
		if (i == k)
			ev = *q_slot[i];
		*q_slot[i] = *q_slot[i - 1];
		q_evb[i] = q_evb[i - 1];
	}
	if (k > 0)
		*first = ev;
	for (i = 0; i < NQ - 1; ++i) {
		q_slot[i] = q_slot[i + 1];
		q_evb[i] = q_evb[i + 1];
	}
	q_n -= 1;
	return first;
}
struct pt_event *pt_evq_peek(struct pt_event_queue *evq, uint32_t evb)
{
	int i, k = q_find(evb, -1);

	Q_IS(evq);
	for (i = 0; i < NQ; ++i)
		if (i == k)
			return q_slot[i];
	return NULL;
}
struct pt_event *pt_evq_find(struct pt_event_queue *evq, uint32_t evb,
			     enum pt_event_type evt)
{
	int i, k = q_find(evb, (int) evt);

	Q_IS(evq);
	for (i = 0; i < NQ; ++i)
		if (i == k)
			return q_slot[i];
	return NULL;
}
int pt_evq_empty(const struct pt_event_queue *evq, uint32_t evb)
{
	Q_IS(evq);
	return q_find(evb, -1) < 0;
}
int pt_evq_pending(const struct pt_event_queue *evq, uint32_t evb)
{
	return !pt_evq_empty(evq, evb);
}
#endif

/* Timing: record the updates. */
enum { k_tsc = 1, k_cbr, k_tma, k_mtc, k_cyc, k_htsc, k_hcbr, k_ovf };

static uint64_t payload_of(const struct pt_packet *p)
{
	switch (p->type) {
	case ppt_tsc:
		return p->payload.tsc.tsc;
	case ppt_cbr:
		return p->payload.cbr.ratio;
	case ppt_tma:
		return p->payload.tma.ctc | (uint64_t) p->payload.tma.fc << 16;
	case ppt_mtc:
		return p->payload.mtc.ctc;
	case ppt_cyc:
		return p->payload.cyc.value;
	default:
		return 0;
	}
}

static uint64_t mix(uint64_t h, uint64_t kind, uint64_t payload)
{
	return (h << 9) + (h >> 60) + kind + (payload << 4);
}

static void on_time(struct pt_time *t, uint64_t kind, uint64_t payload,
		    const struct pt_config *config)
{
	VF_ASSERT(config == &d.pacdec.config || config->begin == buffer,
		  "timing uses the configuration");
	t->tsc = mix(t->tsc, kind, payload);
	if (kind == k_tsc)
		t->have_tsc = 1;
}

static void on_tcal(struct pt_time_cal *t, uint64_t kind, uint64_t payload,
		    const struct pt_config *config)
{
	VF_ASSERT(config == &d.pacdec.config || config->begin == buffer,
		  "calibration uses the configuration");
	t->fcr = mix(t->fcr, kind, payload);
}

void pt_time_init(struct pt_time *t) { memset(t, 0, sizeof(*t)); }
void pt_tcal_init(struct pt_time_cal *t) { memset(t, 0, sizeof(*t)); }
int pt_time_query_tsc(uint64_t *tsc, uint32_t *lost_mtc, uint32_t *lost_cyc,
		      const struct pt_time *t)
{
	*tsc = t->tsc;
	*lost_mtc = t->lost_mtc;
	*lost_cyc = t->lost_cyc;
	return t->have_tsc ? 0 : -pte_no_time;
}
int pt_time_query_cbr(uint32_t *cbr, const struct pt_time *t)
{
	(void) cbr;
	(void) t;
	VF_ASSERT(0, "not used");
	return -pte_no_cbr;
}
#define TIME(name, kind, pl, h)						\
	int pt_time_update_##name(struct pt_time *t,			\
				  const struct pt_packet_##name *p,	\
				  const struct pt_config *c)		\
	{ on_time(t, kind, pl, c); return u_rc; }
#define TCAL(fn, name, kind, pl)					\
	int pt_tcal_##fn(struct pt_time_cal *t,				\
			 const struct pt_packet_##name *p,		\
			 const struct pt_config *c)			\
	{ on_tcal(t, kind, pl, c); return t_rc; }
TIME(tsc, k_tsc, p->tsc, 0)
TIME(cbr, k_cbr, p->ratio, 0)
TIME(tma, k_tma, p->ctc | (uint64_t) p->fc << 16, 0)
TIME(mtc, k_mtc, p->ctc, 0)
TCAL(update_tsc, tsc, k_tsc, p->tsc)
TCAL(header_tsc, tsc, k_htsc, p->tsc)
TCAL(update_cbr, cbr, k_cbr, p->ratio)
TCAL(header_cbr, cbr, k_hcbr, p->ratio)
TCAL(update_tma, tma, k_tma, p->ctc | (uint64_t) p->fc << 16)
TCAL(update_mtc, mtc, k_mtc, p->ctc)
TCAL(update_cyc, cyc, k_cyc, p->value)
int pt_time_update_cyc(struct pt_time *t, const struct pt_packet_cyc *p,
		       const struct pt_config *c, uint64_t fcr)
{
	VF_ASSERT(fcr == (f_rc ? 0 : fcr_val), "calibrated ratio");
	on_time(t, k_cyc, p->value, c);
	return u_rc;
}
int pt_tcal_fcr(uint64_t *fcr, const struct pt_time_cal *t)
{
	(void) t;
	if (!f_rc)
		*fcr = fcr_val;
	return f_rc;
}
int pt_tcal_update_psb(struct pt_time_cal *t, const struct pt_config *c)
{
	on_tcal(t, k_ovf + 1, 0, c);
	return t_rc;
}
int pt_tcal_update_ovf(struct pt_time_cal *t, const struct pt_config *c)
{
	on_tcal(t, k_ovf, 0, c);
	return 0;
}

/* The packet decoder: each packet is one byte. */
int pt_pkt_next(struct pt_packet_decoder *dec, struct pt_packet *packet,
		size_t size)
{
	long pos = dec->pos - buffer;

	VF_ASSERT(size == sizeof(*packet), "packet size");
	VF_ASSERT(0 <= pos && pos <= NSCRIPT, "position");
	if (navail <= pos)
		return end_rc;

	*packet = script[pos];
	dec->pos += 1;
	return 1;
}

static int sync_end, sync_n, sync_max;
static long sync_pos[3];

static int do_sync(struct pt_packet_decoder *dec)
{
	if (sync_n >= sync_max)
		return sync_end;
	dec->pos = dec->sync = buffer + sync_pos[sync_n++];
	return 0;
}
int pt_pkt_sync_forward(struct pt_packet_decoder *dec) { return do_sync(dec); }
int pt_pkt_sync_backward(struct pt_packet_decoder *dec) { return do_sync(dec); }
static uint64_t set_off;
int pt_pkt_sync_set(struct pt_packet_decoder *dec, uint64_t offset)
{
	set_off = offset;
	return do_sync(dec);
}
int pt_pkt_get_offset(const struct pt_packet_decoder *dec, uint64_t *offset)
{
	if (!dec->pos)
		return -pte_nosync;
	*offset = (uint64_t) (dec->pos - buffer);
	return 0;
}
int pt_pkt_get_sync_offset(const struct pt_packet_decoder *dec,
			   uint64_t *offset)
{
	if (!dec->sync)
		return -pte_nosync;
	*offset = (uint64_t) (dec->sync - buffer);
	return 0;
}
const struct pt_config *
pt_pkt_get_config(const struct pt_packet_decoder *dec)
{
	return &dec->config;
}
static int cfg_rc, init_rc;
int pt_config_from_user(struct pt_config *c, const struct pt_config *u)
{
	if (cfg_rc)
		return cfg_rc;
	*c = *u;
	return 0;
}
int pt_pkt_decoder_init(struct pt_packet_decoder *dec,
			const struct pt_config *c)
{
	if (init_rc)
		return init_rc;
	memset(dec, 0, sizeof(*dec));
	dec->config = *c;
	return 0;
}
void pt_pkt_decoder_fini(struct pt_packet_decoder *dec) { (void) dec; }

/*
 * The specification.
 */
static struct {
	struct pt_event ev;
	uint32_t b;
} sq[NQ];
static int sn;

static struct {
	unsigned enabled, bound, mev, iflag, csd, csl;
	struct pt_time time;
	struct pt_time_cal tcal;
	struct pt_last_ip ip;
	int cur, next;		/* packets; cur < 0: none */
	int status;
} s;
static struct pt_event sev;
static const struct pt_event no_event;
static const struct pt_last_ip no_ip;
static const struct pt_time no_time;
static const struct pt_time_cal no_tcal;

enum { e_more = 1, e_done = 0, e_keep = 2 };	/* or an error */

static int s_any(uint32_t b)
{
	int i;

	for (i = 0; i < NQ; ++i)
		if (i < sn && (sq[i].b & b))
			return 1;
	return 0;
}

static int s_find(uint32_t b, int type)
{
	int i;

	for (i = 0; i < NQ; ++i)
		if (i < sn && (sq[i].b & b) && (int) sq[i].ev.type == type)
			return i;
	return -1;
}

static void s_put(const struct pt_event *ev, uint32_t b)
{
	VF_ASSUME(sn < NQ);
	sq[sn].ev = *ev;
	sq[sn].b = b;
	sn += 1;
}

/* The first event for binding @b. */
static int s_take(struct pt_event *ev, uint32_t b)
{
	int i, j;

	for (i = 0; i < NQ; ++i) {
		if (i < sn && (sq[i].b & b)) {
			*ev = sq[i].ev;
			for (j = i; j < NQ - 1; ++j)
				sq[j] = sq[j + 1];
			sn -= 1;
			return 1;
		}
	}
	return 0;
}

static void s_new(struct pt_event *ev, int type)
{
	*ev = no_event;
	ev->type = (enum pt_event_type) type;
}

static void s_time(struct pt_event *ev)
{
	ev->has_tsc = s.time.have_tsc;
	ev->tsc = s.time.tsc;
	ev->lost_mtc = s.time.lost_mtc;
	ev->lost_cyc = s.time.lost_cyc;
}

/* Where the ip of an event lives. */
static uint64_t *s_ipp(struct pt_event *ev)
{
	switch ((int) ev->type) {
	case ptev_enabled: return &ev->variant.enabled.ip;
	case ptev_disabled: return &ev->variant.disabled.ip;
	case ptev_async_disabled: return &ev->variant.async_disabled.ip;
	case ptev_async_branch: return &ev->variant.async_branch.to;
	case ptev_async_paging: return &ev->variant.async_paging.ip;
	case ptev_async_vmcs: return &ev->variant.async_vmcs.ip;
	case ptev_overflow: return &ev->variant.overflow.ip;
	case ptev_exec_mode: return &ev->variant.exec_mode.ip;
	case ptev_tsx: return &ev->variant.tsx.ip;
	case ptev_exstop: return &ev->variant.exstop.ip;
	case ptev_mwait: return &ev->variant.mwait.ip;
	case ptev_ptwrite: return &ev->variant.ptwrite.ip;
	case ptev_tip: return &ev->variant.tip.ip;
	case ptev_iflags: return &ev->variant.iflags.ip;
	case ptev_interrupt: return &ev->variant.interrupt.ip;
	case ptev_iret: return &ev->variant.iret.ip;
	case ptev_smi: return &ev->variant.smi.ip;
	case ptev_init: return &ev->variant.init.ip;
	case ptev_vmentry: return &ev->variant.vmentry.ip;
	case ptev_vmexit: return &ev->variant.vmexit.ip;
	case ptev_shutdown: return &ev->variant.shutdown.ip;
	case ptev_uintr: return &ev->variant.uintr.ip;
	case ptev_uiret: return &ev->variant.uiret.ip;
	case ptev_trig: return &ev->variant.trig.ip;
	default: return NULL;
	}
}

static int same_ev(const struct pt_event *ca, const struct pt_event *cb,
		   int complete)
{
	const struct pt_event *a = ca, *b = cb;

	if (a->type != b->type)
		return 0;
	/* Pending events are completed when they are delivered. */
	if (complete) {
		if (a->has_tsc != b->has_tsc)
			return 0;
		if (a->has_tsc && (a->tsc != b->tsc ||
				   a->lost_mtc != b->lost_mtc ||
				   a->lost_cyc != b->lost_cyc))
			return 0;
		if (a->ip_suppressed != b->ip_suppressed)
			return 0;
		if (!a->ip_suppressed) {
			const uint64_t *ia = s_ipp((struct pt_event *) a);
			const uint64_t *ib = s_ipp((struct pt_event *) b);

			if (ia && *ia != *ib)
				return 0;
		}
	}
	if (a->status_update != b->status_update)
		return 0;
#define F(f) (a->variant.f == b->variant.f)
	switch ((int) a->type) {
	case ptev_async_disabled: return F(async_disabled.at);
	case ptev_async_branch: return F(async_branch.from);
	case ptev_paging: return F(paging.cr3) && F(paging.non_root);
	case ptev_async_paging:
		return F(async_paging.cr3) && F(async_paging.non_root);
	case ptev_vmcs: return F(vmcs.base);
	case ptev_async_vmcs: return F(async_vmcs.base);
	case ptev_exec_mode: return F(exec_mode.mode);
	case ptev_tsx: return F(tsx.speculative) && F(tsx.aborted);
	case ptev_mwait: return F(mwait.hints) && F(mwait.ext);
	case ptev_pwre:
		return F(pwre.state) && F(pwre.sub_state) && F(pwre.hw);
	case ptev_pwrx:
		return F(pwrx.last) && F(pwrx.deepest) && F(pwrx.interrupt) &&
			F(pwrx.store) && F(pwrx.autonomous);
	case ptev_ptwrite: return F(ptwrite.size) && F(ptwrite.payload);
	case ptev_cbr: return F(cbr.ratio);
	case ptev_mnt: return F(mnt.payload);
	case ptev_tnt: return F(tnt.bits) && F(tnt.size);
	case ptev_iflags: return F(iflags.iflag);
	case ptev_interrupt:
		return F(interrupt.has_cr2) && F(interrupt.cr2) &&
			F(interrupt.vector);
	case ptev_sipi: return F(sipi.vector);
	case ptev_vmexit:
		return F(vmexit.has_vector) && F(vmexit.has_vmxr) &&
			F(vmexit.has_vmxq) && F(vmexit.vector) &&
			F(vmexit.vmxr) && F(vmexit.vmxq);
	case ptev_uintr: return F(uintr.vector);
	case ptev_trig:
		return F(trig.trbv) && F(trig.mult) && F(trig.icnt);
	default:
		return 1;
	}
#undef F
}

static void s_fetch(void)
{
	int i;

	for (i = 0; i < NSCRIPT; ++i) {
		if (s.next >= navail) {
			s.cur = -1;
			s.status = end_rc;
			return;
		}
		s.cur = s.next++;
		if (script[s.cur].type != ppt_pad)
			return;
	}
}

static int s_soft(int rc)
{
	return rc == -pte_bad_config ? 0 : rc;
}

/* Apply a timing packet. */
static int s_apply(struct pt_time *time, struct pt_time_cal *tcal,
		   const struct pt_packet *p, int header)
{
	uint64_t pl = payload_of(p), k, h;

	switch (p->type) {
	case ppt_tsc: k = k_tsc; h = header ? k_htsc : k_tsc; break;
	case ppt_cbr: k = k_cbr; h = header ? k_hcbr : k_cbr; break;
	case ppt_tma: k = h = k_tma; break;
	case ppt_mtc: k = h = k_mtc; break;
	default: k = h = k_cyc; break;
	}
	tcal->fcr = mix(tcal->fcr, h, pl);
	if (s_soft(t_rc) < 0)
		return t_rc;
	if (k == k_cyc && f_rc && f_rc != -pte_no_time)
		return f_rc;
	time->tsc = mix(time->tsc, k, pl);
	if (k == k_tsc)
		time->have_tsc = 1;
	return s_soft(u_rc);
}

static int s_timing(int type)
{
	return type == ppt_tsc || type == ppt_cbr || type == ppt_tma ||
		type == ppt_mtc || type == ppt_cyc;
}

/* Fill in the ip. */
static int s_ip(struct pt_event *ev)
{
	int rc = pt_last_ip_query(s_ipp(ev), &s.ip);

	if (rc == -pte_noip || rc == -pte_ip_suppressed) {
		ev->ip_suppressed = 1;
		rc = 0;
	}
	return rc;
}

/* Deliver an event that has no ip. */
static int s_deliver(struct pt_event *ev)
{
	s_time(ev);
	sev = *ev;
	return e_done;
}

static int s_psbend(void)
{
	struct pt_event ev;
	int rc = 0;

	if (!s_take(&ev, evb_psbend))
		return e_more;
	if (ev.type != ptev_disabled && ev.type != ptev_cbr &&
	    ev.type != ptev_mnt)
		rc = s_ip(&ev);
	s_time(&ev);
	sev = ev;
	return rc < 0 ? rc : e_keep;
}

static int s_update_ip(const struct pt_packet *p)
{
	return pt_last_ip_update_ip(&s.ip, &p->payload.ip, &d.pacdec.config);
}

static int s_fup(const struct pt_packet *p)
{
	struct pt_event ev;
	uint64_t from;
	int rc;

	rc = s_update_ip(p);
	if (rc < 0)
		return rc;
	if (s_any(evb_fup_bound))
		s.bound = 1;
	do {
		if (!s_take(&ev, evb_fup | evb_fup_bound)) {
			if (s.bound)
				return e_more;
			rc = pt_last_ip_query(&from, &s.ip);
			if (rc < 0)
				return rc;
			s_new(&ev, ptev_async_branch);
			ev.variant.async_branch.from = from;
			s_put(&ev, evb_tip);
			return e_more;
		}
	} while (ev.type == ptev_ignore);

	if (ev.type == ptev_overflow)
		s.enabled = 1;
	else
		s_time(&ev);
	rc = 0;
	if (ev.type != ptev_rsm && ev.type != ptev_sipi)
		rc = s_ip(&ev);
	sev = ev;
	return rc < 0 ? rc : e_keep;
}

static int s_tip(const struct pt_packet *p)
{
	struct pt_event ev;
	int rc, i, j;

	if (!s.enabled)
		return -pte_bad_context;
	rc = s_update_ip(p);
	if (rc < 0)
		return rc;

	if (!s.bound) {
		s.bound = 1;
		i = s_find(evb_tip, ptev_async_branch);
		if (i >= 0) {
			ev = sq[i].ev;
			for (j = 0; j < NQ - 1; ++j)
				if (j >= i)
					sq[j] = sq[j + 1];
			sn -= 1;
		} else
			s_new(&ev, ptev_tip);
	} else do {
		if (!s_take(&ev, evb_tip))
			return e_more;
	} while (ev.type == ptev_ignore);

	rc = s_ip(&ev);
	s_time(&ev);
	sev = ev;
	return rc < 0 ? rc : e_keep;
}

static int s_pge(const struct pt_packet *p)
{
	struct pt_event ev;
	int rc;

	rc = s_update_ip(p);
	if (rc < 0)
		return rc;
	if (!s.bound) {
		s_new(&ev, ptev_enabled);
		s.bound = 1;
		s.enabled = 1;
	} else {
		do {
			if (!s_take(&ev, evb_tip))
				return e_more;
		} while (ev.type == ptev_ignore);
		if (ev.type != ptev_exec_mode && ev.type != ptev_iflags)
			return -pte_bad_context;
	}
	rc = s_ip(&ev);
	s_time(&ev);
	sev = ev;
	return rc < 0 ? rc : e_keep;
}

static int s_pgd(const struct pt_packet *p)
{
	struct pt_event ev;
	uint64_t at;
	int rc;

	rc = s_update_ip(p);
	if (rc < 0)
		return rc;
	do {
		if (s_take(&ev, evb_tip))
			continue;
		if (s.bound)
			return e_more;
		s_new(&ev, ptev_disabled);
		rc = s_ip(&ev);
		if (rc < 0)
			return rc;
		s.enabled = 0;
		return s_deliver(&ev);
	} while (ev.type == ptev_ignore);

	if (ev.type == ptev_async_branch) {
		at = ev.variant.async_branch.from;
		s_new(&ev, ptev_async_disabled);
		ev.variant.async_disabled.at = at;
		rc = s_ip(&ev);
		s.enabled = 0;
		s.bound = 1;
	} else
		/* Tracing has been disabled on the way there. */
		ev.ip_suppressed = 1;
	s_time(&ev);
	sev = ev;
	return rc < 0 ? rc : e_keep;
}

static int s_mode(const struct pt_packet *p, int header)
{
	const struct pt_packet_mode *m = &p->payload.mode;
	unsigned iff = d.flags.variant.event.enable_iflags_events;
	struct pt_event ev;
	int n = 0;

	if (m->leaf == pt_mol_exec) {
		const struct pt_packet_mode_exec *e = &m->bits.exec;
		int mode = e->csl ? (e->csd ? ptem_unknown : ptem_64bit) :
			(e->csd ? ptem_32bit : ptem_16bit);
		uint32_t b = header ? evb_psbend : evb_tip | evb_fup_bound;

		if (header && s.mev && ((iff && s.iflag != e->iflag) ||
					s.csd != e->csd || s.csl != e->csl))
			return -pte_bad_status_update;
		if (header || !s.mev || s.csl != e->csl || s.csd != e->csd) {
			s_new(&ev, ptev_exec_mode);
			ev.variant.exec_mode.mode = (enum pt_exec_mode) mode;
			ev.status_update = (uint32_t) header;
			s_put(&ev, b);
			n += 1;
		}
		if (iff && (header || !s.mev || s.iflag != e->iflag)) {
			s_new(&ev, ptev_iflags);
			ev.variant.iflags.iflag = e->iflag;
			ev.status_update = (uint32_t) header;
			s_put(&ev, b);
			n += 1;
		}
		if (!n) {
			s_new(&ev, ptev_ignore);
			s_put(&ev, b);
		}
		s.mev = 1;
		s.csl = e->csl;
		s.csd = e->csd;
		s.iflag = e->iflag;
		return e_more;
	}

	if (m->leaf == pt_mol_tsx) {
		s_new(&ev, ptev_tsx);
		ev.variant.tsx.speculative = m->bits.tsx.intx;
		ev.variant.tsx.aborted = m->bits.tsx.abrt;
		if (header) {
			ev.status_update = 1;
			s_put(&ev, evb_psbend);
			return e_more;
		}
		if (s.enabled) {
			s_put(&ev, m->bits.tsx.abrt ? evb_fup : evb_fup_bound);
			return e_more;
		}
		ev.ip_suppressed = 1;
		return s_deliver(&ev);
	}
	return header ? e_more : -pte_bad_opc;
}

static int s_cfe(const struct pt_packet *p)
{
	const struct pt_packet_cfe *c = &p->payload.cfe;
	struct pt_event ev, old;
	int have, type, fup = 0, noip = 0;

	have = s_take(&old, evb_cfe);
	switch ((int) c->type) {
	case pt_cfe_intr: type = ptev_interrupt; fup = 1; break;
	case pt_cfe_iret: type = ptev_iret; break;
	case pt_cfe_smi: type = ptev_smi; fup = 1; break;
	case pt_cfe_rsm: type = ptev_rsm; fup = noip = 1; break;
	case pt_cfe_sipi: type = ptev_sipi; fup = noip = 1; break;
	case pt_cfe_init: type = ptev_init; fup = 1; break;
	case pt_cfe_vmentry: type = ptev_vmentry; break;
	case pt_cfe_vmexit:
	case pt_cfe_vmexit_intr: type = ptev_vmexit; fup = 1; break;
	case pt_cfe_shutdown: type = ptev_shutdown; break;
	case pt_cfe_uintr: type = ptev_uintr; fup = 1; break;
	case pt_cfe_uiret: type = ptev_uiret; break;
	default:
		if (have)
			return -pte_internal;
		if (c->ip) {
			s_new(&ev, ptev_ignore);
			s_put(&ev, evb_fup_bound);
		}
		return e_more;
	}

	s_new(&ev, type);
	if (have) {
		if ((int) old.type != type)
			return -pte_bad_context;
		ev = old;
	}
	if (noip) {
		if (c->ip)
			return -pte_bad_packet;
		ev.ip_suppressed = 1;
	}
	switch ((int) c->type) {
	case pt_cfe_intr: ev.variant.interrupt.vector = c->vector; break;
	case pt_cfe_sipi: ev.variant.sipi.vector = c->vector; break;
	case pt_cfe_uintr: ev.variant.uintr.vector = c->vector; break;
	case pt_cfe_vmexit_intr:
		ev.variant.vmexit.has_vector = 1;
		ev.variant.vmexit.vector = c->vector;
		break;
	}
	if (c->ip) {
		s_put(&ev, evb_fup_bound);
		return e_more;
	}
	if (fup && s.enabled) {
		s_put(&ev, evb_fup);
		return e_more;
	}
	ev.ip_suppressed = 1;
	return s_deliver(&ev);
}

static int s_evd(const struct pt_packet *p)
{
	const struct pt_packet_evd *v = &p->payload.evd;
	struct pt_event ev;
	int i, at = -1, q = v->type == pt_evd_vmxq;

	for (i = NQ - 1; i >= 0; --i)
		if (i < sn && (sq[i].b & evb_cfe))
			at = i;

	if (v->type == pt_evd_cr2) {
		if (at >= 0)
			return -pte_bad_context;
		s_new(&ev, ptev_interrupt);
		ev.variant.interrupt.has_cr2 = 1;
		ev.variant.interrupt.cr2 = v->payload;
		s_put(&ev, evb_cfe);
		return e_more;
	}
	if (!q && v->type != pt_evd_vmxr)
		return e_more;

	s_new(&ev, ptev_vmexit);
	if (at < 0) {
		at = sn;
		s_put(&ev, evb_cfe);
	}
	for (i = 0; i < NQ; ++i) {
		struct pt_event *e = &sq[i].ev;

		if (i != at)
			continue;
		if (e->type != ptev_vmexit)
			return -pte_bad_context;
		if (q ? e->variant.vmexit.has_vmxq : e->variant.vmexit.has_vmxr)
			return -pte_bad_context;
		if (q) {
			e->variant.vmexit.has_vmxq = 1;
			e->variant.vmexit.vmxq = v->payload;
		} else {
			e->variant.vmexit.has_vmxr = 1;
			e->variant.vmexit.vmxr = v->payload;
		}
	}
	return e_more;
}

static int s_trig(const struct pt_packet *p)
{
	const struct pt_packet_trig *t = &p->payload.trig;
	struct pt_event ev;

	s_new(&ev, ptev_trig);
	ev.variant.trig.trbv = t->trbv;
	ev.variant.trig.mult = t->mult;
	if (t->ip) {
		if (!t->icntv || t->icnt)
			return -pte_bad_packet;
		s_put(&ev, evb_fup_bound);
		return e_more;
	}
	if (t->icntv) {
		if (t->icnt && !s.enabled)
			return -pte_bad_packet;
		ev.variant.trig.icnt = t->icnt;
	} else
		ev.ip_suppressed = 1;
	return s_deliver(&ev);
}

static int s_psb(void);
static int s_ovf(void);

static int s_step(void)
{
	const struct pt_packet *p;
	struct pt_event ev;
	int i, rc;

	if (s.cur < 0)
		return s.status < 0 ? s.status : e_more;

	p = &script[s.cur];
	switch ((int) p->type) {
	case ppt_pad:
	case ppt_unknown:
		return e_more;

	case ppt_tnt_8:
	case ppt_tnt_64:
		if (!s.enabled)
			return -pte_bad_context;
		s_new(&ev, ptev_tnt);
		ev.variant.tnt.bits = p->payload.tnt.payload;
		ev.variant.tnt.size = p->payload.tnt.bit_size;
		return s_deliver(&ev);

	case ppt_tsc:
	case ppt_tma:
	case ppt_mtc:
	case ppt_cyc:
		rc = s_apply(&s.time, &s.tcal, p, 0);
		return rc < 0 ? rc : e_more;

	case ppt_cbr:
		rc = s_apply(&s.time, &s.tcal, p, 0);
		if (rc < 0)
			return rc;
		s_new(&ev, ptev_cbr);
		ev.variant.cbr.ratio = p->payload.cbr.ratio;
		return s_deliver(&ev);

	case ppt_fup:
		return s_fup(p);
	case ppt_tip:
		return s_tip(p);
	case ppt_tip_pge:
		return s_pge(p);
	case ppt_tip_pgd:
		return s_pgd(p);
	case ppt_mode:
		return s_mode(p, 0);

	case ppt_pip:
		if (s_find(evb_tip, ptev_async_branch) >= 0) {
			s_new(&ev, ptev_async_paging);
			ev.variant.async_paging.cr3 = p->payload.pip.cr3;
			ev.variant.async_paging.non_root = p->payload.pip.nr;
			s_put(&ev, evb_tip);
			return e_more;
		}
		s_new(&ev, ptev_paging);
		ev.variant.paging.cr3 = p->payload.pip.cr3;
		ev.variant.paging.non_root = p->payload.pip.nr;
		return s_deliver(&ev);

	case ppt_vmcs:
		s_new(&ev, ptev_async_vmcs);
		ev.variant.async_vmcs.base = p->payload.vmcs.base;
		i = s_find(evb_tip, ptev_async_paging);
		if (i >= 0) {
			struct pt_event paging;
			int j;

			/* It goes first. */
			memset(&paging, 0, sizeof(paging));
			for (j = 0; j < NQ; ++j)
				if (j == i) {
					paging = sq[j].ev;
					sq[j].ev = ev;
				}
			s_put(&paging, evb_tip);
			return e_more;
		}
		if (s_find(evb_tip, ptev_async_branch) >= 0) {
			s_put(&ev, evb_tip);
			return e_more;
		}
		s_new(&ev, ptev_vmcs);
		ev.variant.vmcs.base = p->payload.vmcs.base;
		return s_deliver(&ev);

	case ppt_mnt:
		s_new(&ev, ptev_mnt);
		ev.variant.mnt.payload = p->payload.mnt.payload;
		return s_deliver(&ev);

	case ppt_stop:
		s_new(&ev, ptev_stop);
		return s_deliver(&ev);

	case ppt_exstop:
		if (s_take(&ev, evb_exstop)) {
			if (!p->payload.exstop.ip) {
				ev.ip_suppressed = 1;
				s_deliver(&ev);
				return e_keep;
			}
			s_put(&ev, evb_fup_bound);
		}
		s_new(&ev, ptev_exstop);
		if (p->payload.exstop.ip) {
			s_put(&ev, evb_fup_bound);
			return e_more;
		}
		ev.ip_suppressed = 1;
		return s_deliver(&ev);

	case ppt_mwait:
		s_new(&ev, ptev_mwait);
		ev.variant.mwait.hints = p->payload.mwait.hints;
		ev.variant.mwait.ext = p->payload.mwait.ext;
		s_put(&ev, evb_exstop);
		return e_more;

	case ppt_pwre:
		s_new(&ev, ptev_pwre);
		ev.variant.pwre.state = p->payload.pwre.state;
		ev.variant.pwre.sub_state = p->payload.pwre.sub_state;
		ev.variant.pwre.hw = p->payload.pwre.hw;
		return s_deliver(&ev);

	case ppt_pwrx:
		s_new(&ev, ptev_pwrx);
		ev.variant.pwrx.last = p->payload.pwrx.last;
		ev.variant.pwrx.deepest = p->payload.pwrx.deepest;
		ev.variant.pwrx.interrupt = p->payload.pwrx.interrupt;
		ev.variant.pwrx.store = p->payload.pwrx.store;
		ev.variant.pwrx.autonomous = p->payload.pwrx.autonomous;
		return s_deliver(&ev);

	case ppt_ptw:
		if (p->payload.ptw.plc > 3)
			return -pte_internal;
		if (p->payload.ptw.plc > 1)
			return -pte_bad_packet;
		s_new(&ev, ptev_ptwrite);
		ev.variant.ptwrite.size = p->payload.ptw.plc ? 8 : 4;
		ev.variant.ptwrite.payload = p->payload.ptw.payload;
		if (p->payload.ptw.ip) {
			s_put(&ev, evb_fup_bound);
			return e_more;
		}
		ev.ip_suppressed = 1;
		return s_deliver(&ev);

	case ppt_cfe:
		return s_cfe(p);
	case ppt_evd:
		return s_evd(p);
	case ppt_trig:
		return s_trig(p);
	case ppt_psbend:
		return s_psbend();
	case ppt_psb:
		return s_psb();
	case ppt_ovf:
		return s_ovf();
	}
	return -pte_bad_opc;
}

/* Is there an enable before anything else? (erratum BDM70) */
static int s_bdm70(void)
{
	int i;

	for (i = 0; i < NSCRIPT; ++i) {
		if (i < s.next)
			continue;
		if (i >= navail)
			return end_rc == -pte_eos ? 0 : end_rc;
		switch ((int) script[i].type) {
		case ppt_tip_pge:
			return 1;
		case ppt_pad: case ppt_tsc: case ppt_cbr: case ppt_psbend:
		case ppt_pip: case ppt_mode: case ppt_vmcs: case ppt_tma:
		case ppt_mtc: case ppt_cyc: case ppt_mnt:
			break;
		default:
			return 0;
		}
	}
	return 0;
}

/* Process the PSB+ header up to its end, which becomes the current packet. */
static int s_header(void)
{
	struct pt_event ev;
	int i, rc, first = sn;

	if (sn)
		return -pte_bad_context;
	s.ip = no_ip;
	s.enabled = 0;
	s_new(&ev, ptev_enabled);
	ev.status_update = 1;
	s_put(&ev, evb_psbend);

	for (i = 0; i < NSCRIPT; ++i) {
		const struct pt_packet *p;

		s_fetch();
		if (s.cur < 0)
			return s.status;
		p = &script[s.cur];
		s_new(&ev, 0);
		switch ((int) p->type) {
		case ppt_fup:
			rc = 0;
			if (d.pacdec.config.errata.bdm70)
				rc = s_bdm70();
			if (rc < 0)
				return rc;
			s.enabled = !rc &&
				p->payload.ip.ipc != pt_ipc_suppressed;
			if (s.enabled) {
				rc = s_update_ip(p);
				if (rc < 0)
					return rc;
			}
			break;
		case ppt_mode:
			rc = s_mode(p, 1);
			if (rc < 0)
				return rc;
			break;
		case ppt_pip:
			ev.type = ptev_async_paging;
			ev.status_update = 1;
			ev.variant.async_paging.cr3 = p->payload.pip.cr3;
			ev.variant.async_paging.non_root = p->payload.pip.nr;
			s_put(&ev, evb_psbend);
			break;
		case ppt_vmcs:
			ev.type = ptev_async_vmcs;
			ev.status_update = 1;
			ev.variant.async_vmcs.base = p->payload.vmcs.base;
			s_put(&ev, evb_psbend);
			break;
		case ppt_mnt:
			ev.type = ptev_mnt;
			ev.variant.mnt.payload = p->payload.mnt.payload;
			s_put(&ev, evb_psbend);
			break;
		case ppt_tsc: case ppt_tma: case ppt_mtc: case ppt_cyc:
			rc = s_apply(&s.time, &s.tcal, p, 1);
			if (rc < 0)
				return rc;
			break;
		case ppt_cbr:
			rc = s_apply(&s.time, &s.tcal, p, 1);
			if (rc < 0)
				return rc;
			ev.type = ptev_cbr;
			ev.status_update = 1;
			ev.variant.cbr.ratio = p->payload.cbr.ratio;
			s_put(&ev, evb_psbend);
			break;
		case ppt_psbend:
		case ppt_ovf:
			if (s.enabled)
				sq[first].ev.type = ptev_enabled;
			else if (p->type == ppt_psbend) {
				sq[first].ev.type = ptev_disabled;
				sq[first].ev.ip_suppressed = 1;
			} else
				s_take(&ev, evb_psbend);
			return 0;
		default:
			return -pte_bad_context;
		}
	}
	return -pte_bad_context;
}

static int s_psb(void)
{
	int rc = s_header();

	if (rc < 0)
		return rc;
	return script[s.cur].type == ppt_psbend ? s_psbend() : s_ovf();
}

/* Is there a FUP in the PSB+ that starts at packet @i? */
static int s_header_fup(int i, int *fup)
{
	int j;

	for (j = 0; j < NSCRIPT; ++j) {
		if (j < i)
			continue;
		if (j >= navail)
			return end_rc;
		switch ((int) script[j].type) {
		case ppt_fup:
			*fup = j;
			return 1;
		case ppt_psbend:
		case ppt_ovf:
			return 0;
		case ppt_mode: case ppt_pip: case ppt_vmcs: case ppt_mnt:
		case ppt_tsc: case ppt_cbr: case ppt_tma: case ppt_mtc:
		case ppt_cyc: case ppt_pad: case ppt_invalid:
			break;
		default:
			return -pte_bad_context;
		}
	}
	return end_rc;
}

/* Resume after packet @i with times @time and @tcal, and with an overflow
 * event that is timed before.
 */
static int s_resume(int i, const struct pt_packet *ip,
		    const struct pt_time *time, const struct pt_time_cal *tcal)
{
	struct pt_event ev;
	int rc = 0;

	s_new(&ev, ptev_overflow);
	if (ip) {
		rc = s_update_ip(ip);
		if (rc < 0)
			return rc;
		rc = s_ip(&ev);
		s.enabled = 1;
	} else
		ev.ip_suppressed = 1;
	s_time(&ev);
	sev = ev;
	s.time = *time;
	s.tcal = *tcal;
	s.cur = i;
	s.next = i + 1;
	return rc;
}

/* SKD010: tracing may be enabled without a FUP.  Returns e_more if it does not
 * apply.
 */
static int s_skd010(void)
{
	struct pt_time time = s.time;
	struct pt_time_cal tcal = s.tcal;
	struct pt_event ev;
	int i, j, rc, tsx = 0, fup = 0;

	s_new(&ev, ptev_tsx);
	for (i = 0; i < NSCRIPT; ++i) {
		const struct pt_packet *p = &script[i];

		if (i < s.next)
			continue;
		if (i >= navail)
			return end_rc == -pte_eos ? e_more : end_rc;
		switch ((int) p->type) {
		case ppt_tip_pgd:
			rc = s_resume(i, NULL, &time, &tcal);
			return rc < 0 ? rc : e_done;
		case ppt_fup:
			if (tsx)
				s_put(&ev, evb_fup_bound);
			rc = s_resume(i, p, &time, &tcal);
			return rc < 0 ? rc : e_keep;
		case ppt_tip:
			rc = s_resume(i, p, &time, &tcal);
			return rc < 0 ? rc : e_done;
		case ppt_psb:
			rc = s_header_fup(i + 1, &fup);
			if (rc == -pte_eos)
				rc = 0;
			if (rc < 0)
				return rc;
			if (!rc)
				return e_more;
			for (j = 0; j < NSCRIPT; ++j)
				if (j == fup) {
					rc = s_resume(i, &script[j], &time,
						      &tcal);
					return rc < 0 ? rc : e_keep;
				}
			return e_more;
		case ppt_psbend:
			return -pte_bad_context;
		case ppt_mode:
			if (p->payload.mode.leaf != pt_mol_tsx)
				break;
			if (tsx)
				return e_more;
			tsx = 1;
			ev.variant.tsx.speculative =
				p->payload.mode.bits.tsx.intx;
			ev.variant.tsx.aborted =
				p->payload.mode.bits.tsx.abrt;
			break;
		case ppt_exstop:
			if (p->payload.exstop.ip)
				return e_more;
			break;
		case ppt_ptw:
			if (p->payload.ptw.ip)
				return e_more;
			break;
		case ppt_cfe:
			if (p->payload.cfe.ip)
				return e_more;
			break;
		case ppt_pip: case ppt_vmcs: case ppt_pad: case ppt_mnt:
		case ppt_pwre: case ppt_pwrx: case ppt_evd: case ppt_trig:
			break;
		case ppt_tsc: case ppt_cbr: case ppt_tma: case ppt_mtc:
		case ppt_cyc:
			rc = s_apply(&time, &tcal, p, 0);
			if (rc < 0)
				return rc;
			break;
		default:
			return e_more;
		}
	}
	return e_more;
}

/* APL11: an extra TIP.PGD after the overflow. */
static int s_apl11(void)
{
	struct pt_time time = s.time;
	struct pt_time_cal tcal = s.tcal;
	int i, rc;

	for (i = 0; i < NSCRIPT; ++i) {
		const struct pt_packet *p = &script[i];

		if (i < s.next)
			continue;
		if (i >= navail)
			return end_rc;
		switch ((int) p->type) {
		case ppt_tip_pgd:
			rc = s_resume(i, NULL, &time, &tcal);
			return rc < 0 ? rc : e_done;
		case ppt_tsc: case ppt_cbr: case ppt_tma: case ppt_mtc:
		case ppt_cyc:
			rc = s_apply(&time, &tcal, p, 0);
			if (rc < 0)
				return rc;
			break;
		case ppt_pad: case ppt_mnt: case ppt_cfe: case ppt_evd:
		case ppt_trig:
			break;
		default:
			return e_more;
		}
	}
	return e_more;
}

/* APL12: an extra FUP, packet @fup, after the overflow. */
static int s_apl12(int fup)
{
	struct pt_event ev;
	int i, rc, dummy;

	for (i = 0; i < NSCRIPT; ++i) {
		if (i <= fup)
			continue;
		if (i >= navail)
			return end_rc == -pte_eos ? e_more : end_rc;
		switch ((int) script[i].type) {
		case ppt_psb:
			rc = s_header_fup(i + 1, &dummy);
			if (rc == -pte_eos)
				rc = 1;
			if (rc)
				return rc < 0 ? rc : e_more;
			goto applies;
		case ppt_stop:
		case ppt_tip_pge:
			goto applies;
		case ppt_tnt_8: case ppt_tnt_64: case ppt_tip:
		case ppt_tip_pgd: case ppt_psbend: case ppt_ovf:
		case ppt_unknown: case ppt_invalid:
			return e_more;
		default:
			break;
		}
	}
	return e_more;

applies:
	/* Resume after the FUP with tracing disabled. */
	for (i = 0; i < NSCRIPT; ++i)
		if (s.next <= i && i < fup && s_timing((int) script[i].type)) {
			rc = s_apply(&s.time, &s.tcal, &script[i], 0);
			if (rc < 0)
				return rc;
		}
	s.next = fup + 1;
	s_new(&ev, ptev_overflow);
	ev.ip_suppressed = 1;
	return s_deliver(&ev);
}

static int s_ovf(void)
{
	struct pt_event ev;
	int i, rc, fup = -1, found = 0;

	rc = s_psbend();
	if (rc != e_more)
		return rc;

	/* The state is lost.  Time is not. */
	s.enabled = s.bound = 0;
	s.mev = 0;
	s.ip = no_ip;
	sn = 0;
	if (d.flags.variant.event.keep_tcal_on_ovf)
		s.tcal.fcr = mix(s.tcal.fcr, k_ovf, 0);
	else
		memset(&s.tcal, 0, sizeof(s.tcal));

	/* Is tracing enabled? */
	rc = end_rc;
	for (i = 0; i < NSCRIPT && !found; ++i) {
		if (i < s.next)
			continue;
		if (i >= navail)
			break;
		switch ((int) script[i].type) {
		case ppt_fup:
			fup = i;
			found = 1;
			rc = 0;
			break;
		case ppt_unknown: case ppt_pad: case ppt_mnt: case ppt_cbr:
		case ppt_tsc: case ppt_tma: case ppt_mtc: case ppt_cyc:
		case ppt_invalid:
			break;
		case ppt_psbend: case ppt_tip: case ppt_tip_pgd:
		case ppt_tnt_8: case ppt_tnt_64:
			found = 1;
			rc = -pte_bad_context;
			break;
		default:
			found = 1;
			rc = 0;
			break;
		}
	}

	if (fup < 0) {
		int err;

		if (d.pacdec.config.errata.skd010) {
			err = s_skd010();
			if (err != e_more)
				return err;
		}
		if (d.pacdec.config.errata.apl11 && rc == -pte_bad_context) {
			err = s_apl11();
			if (err != e_more)
				return err;
		}
		if (rc < 0 && rc != -pte_eos)
			return rc;
		s_new(&ev, ptev_overflow);
		ev.ip_suppressed = 1;
		return s_deliver(&ev);
	}

	if (d.pacdec.config.errata.apl12) {
		rc = s_apl12(fup);
		if (rc != e_more)
			return rc;
	}
	s_new(&ev, ptev_overflow);
	s_time(&ev);
	s_put(&ev, evb_fup_bound);
	return e_more;
}

/* Zero if there is an event, or an error. */
static int spec_next(void)
{
	int i, rc;

	for (i = 0; i < NSCRIPT + 1; ++i) {
		rc = s_step();
		if (rc < 0 || rc == e_keep)
			return rc < 0 ? rc : 0;
		if (rc == e_more)
			s.bound = 0;
		s_fetch();
		if (rc == e_done)
			return 0;
	}
	VF_ASSUME(0);
	return 0;
}

/*
 * Inputs.
 */
static void any_packet(struct pt_packet *p, int type, uint64_t a, uint64_t b)
{
	p->type = (enum pt_packet_type) type;
	p->size = 1;
	switch (type) {
	case ppt_fup: case ppt_tip: case ppt_tip_pge: case ppt_tip_pgd:
		p->payload.ip.ipc = (enum pt_ip_compression) (a & 7);
		p->payload.ip.ip = b;
		break;
	case ppt_tnt_8: case ppt_tnt_64:
		p->payload.tnt.bit_size = (uint8_t) a;
		p->payload.tnt.payload = b;
		break;
	case ppt_mode:
		p->payload.mode.leaf = (enum pt_mode_leaf) (a & 0xe0);
		if (p->payload.mode.leaf == pt_mol_exec) {
			p->payload.mode.bits.exec.csl = (uint32_t) b & 1;
			p->payload.mode.bits.exec.csd = (uint32_t) (b >> 1) & 1;
			p->payload.mode.bits.exec.iflag =
				(uint32_t) (b >> 2) & 1;
		} else {
			p->payload.mode.bits.tsx.intx = (uint32_t) b & 1;
			p->payload.mode.bits.tsx.abrt = (uint32_t) (b >> 1) & 1;
		}
		break;
	case ppt_pip:
		p->payload.pip.cr3 = b;
		p->payload.pip.nr = (uint32_t) a & 1;
		break;
	case ppt_vmcs: p->payload.vmcs.base = b; break;
	case ppt_cbr: p->payload.cbr.ratio = (uint8_t) b; break;
	case ppt_tsc: p->payload.tsc.tsc = b; break;
	case ppt_tma:
		p->payload.tma.ctc = (uint16_t) b;
		p->payload.tma.fc = (uint16_t) a;
		break;
	case ppt_mtc: p->payload.mtc.ctc = (uint8_t) b; break;
	case ppt_cyc: p->payload.cyc.value = b; break;
	case ppt_mnt: p->payload.mnt.payload = b; break;
	case ppt_exstop: p->payload.exstop.ip = (uint32_t) a & 1; break;
	case ppt_mwait:
		p->payload.mwait.hints = (uint32_t) a;
		p->payload.mwait.ext = (uint32_t) b;
		break;
	case ppt_pwre:
		p->payload.pwre.state = (uint8_t) a;
		p->payload.pwre.sub_state = (uint8_t) b;
		p->payload.pwre.hw = (uint32_t) (a >> 8) & 1;
		break;
	case ppt_pwrx:
		p->payload.pwrx.last = (uint8_t) a;
		p->payload.pwrx.deepest = (uint8_t) b;
		p->payload.pwrx.interrupt = (uint32_t) (a >> 8) & 1;
		p->payload.pwrx.store = (uint32_t) (a >> 9) & 1;
		p->payload.pwrx.autonomous = (uint32_t) (a >> 10) & 1;
		break;
	case ppt_ptw:
		p->payload.ptw.payload = b;
		p->payload.ptw.plc = (uint8_t) (a & 3);
		p->payload.ptw.ip = (uint32_t) (a >> 2) & 1;
		break;
	case ppt_cfe:
		p->payload.cfe.type = (enum pt_cfe_type) (a & 0x1f);
		p->payload.cfe.vector = (uint8_t) b;
		p->payload.cfe.ip = (uint32_t) (a >> 8) & 1;
		break;
	case ppt_evd:
		p->payload.evd.type = (enum pt_evd_type) (a & 0x3f);
		p->payload.evd.payload = b;
		break;
	case ppt_trig:
		p->payload.trig.trbv = (uint8_t) b;
		p->payload.trig.icnt = (uint16_t) a;
		p->payload.trig.ip = (uint32_t) (a >> 16) & 1;
		p->payload.trig.icntv = (uint32_t) (a >> 17) & 1;
		p->payload.trig.mult = (uint32_t) (a >> 18) & 1;
		break;
	}
}

/* A pending event, as the decoder enqueues them. */
static void any_pending(int n, uint32_t b, int type, int paging_ok)
{
	struct pt_event old;
	uint64_t x = vf_u64(), y = vf_u64(), z = vf_u64();

	old = no_event;
	old.type = (enum pt_event_type) type;
	switch (type) {
	case ptev_async_branch:
		VF_ASSUME(b == evb_tip && !paging_ok);
		old.variant.async_branch.from = x;
		break;
	case ptev_async_paging:
		VF_ASSUME(b == evb_psbend || (b == evb_tip && paging_ok));
		old.variant.async_paging.cr3 = x;
		old.variant.async_paging.non_root = (uint32_t) y & 1;
		break;
	case ptev_async_vmcs:
		VF_ASSUME(b == evb_psbend || (b == evb_tip && paging_ok));
		old.variant.async_vmcs.base = x;
		break;
	case ptev_exec_mode:
		VF_ASSUME(b == evb_psbend || b == (evb_tip | evb_fup_bound));
		old.variant.exec_mode.mode = (enum pt_exec_mode) (x & 3);
		break;
	case ptev_iflags:
		VF_ASSUME(b == evb_psbend || b == (evb_tip | evb_fup_bound));
		old.variant.iflags.iflag = (uint32_t) x & 1;
		break;
	case ptev_ignore:
		VF_ASSUME(b == evb_fup_bound || b == (evb_tip | evb_fup_bound));
		break;
	case ptev_enabled:
	case ptev_cbr:
	case ptev_mnt:
	case ptev_disabled:
		VF_ASSUME(b == evb_psbend);
		if (type == ptev_cbr)
			old.variant.cbr.ratio = (uint8_t) x;
		if (type == ptev_mnt)
			old.variant.mnt.payload = x;
		if (type == ptev_disabled)
			old.ip_suppressed = 1;
		break;
	case ptev_tsx:
		VF_ASSUME(b == evb_psbend || b == evb_fup ||
			  b == evb_fup_bound);
		old.variant.tsx.speculative = (uint32_t) x & 1;
		old.variant.tsx.aborted = (uint32_t) y & 1;
		break;
	case ptev_mwait:
		VF_ASSUME(b == evb_fup_bound || b == evb_exstop);
		old.variant.mwait.hints = (uint32_t) x;
		old.variant.mwait.ext = (uint32_t) y;
		break;
	case ptev_ptwrite:
		VF_ASSUME(b == evb_fup_bound);
		old.variant.ptwrite.size = (uint8_t) x;
		old.variant.ptwrite.payload = y;
		break;
	case ptev_trig:
		VF_ASSUME(b == evb_fup_bound);
		old.variant.trig.trbv = (uint8_t) x;
		old.variant.trig.mult = (uint32_t) y & 1;
		break;
	case ptev_overflow:
		VF_ASSUME(b == evb_fup_bound);
		old.has_tsc = (uint32_t) z & 1;
		old.tsc = x;
		old.lost_mtc = (uint32_t) y;
		old.lost_cyc = (uint32_t) (y >> 32);
		break;
	case ptev_exstop: case ptev_iret: case ptev_vmentry:
	case ptev_shutdown: case ptev_uiret:
		VF_ASSUME(b == evb_fup_bound);
		break;
	case ptev_smi:
	case ptev_init:
		VF_ASSUME(b == evb_fup_bound || b == evb_fup);
		break;
	case ptev_uintr:
		VF_ASSUME(b == evb_fup_bound || b == evb_fup);
		old.variant.uintr.vector = (uint8_t) x;
		break;
	case ptev_rsm:
	case ptev_sipi:
		VF_ASSUME(b == evb_fup);
		old.ip_suppressed = 1;
		if (type == ptev_sipi)
			old.variant.sipi.vector = (uint8_t) x;
		break;
	case ptev_interrupt:
		VF_ASSUME(b == evb_fup_bound || b == evb_fup || b == evb_cfe);
		old.variant.interrupt.has_cr2 = b == evb_cfe ||
			((uint32_t) y & 1);
		if (b != evb_cfe)
			old.variant.interrupt.vector = (uint8_t) y;
		if (old.variant.interrupt.has_cr2)
			old.variant.interrupt.cr2 = x;
		break;
	case ptev_vmexit:
		VF_ASSUME(b == evb_fup_bound || b == evb_fup || b == evb_cfe);
		old.variant.vmexit.has_vmxq = (uint32_t) z & 1;
		old.variant.vmexit.has_vmxr = (uint32_t) (z >> 1) & 1;
		if (old.variant.vmexit.has_vmxq)
			old.variant.vmexit.vmxq = x;
		if (old.variant.vmexit.has_vmxr)
			old.variant.vmexit.vmxr = y;
		break;
	default:
		VF_ASSUME(0);
	}
	q_set(n, &old, b);
	sq[n].ev = old;
	sq[n].b = b;
	sn = n + 1;
}

/* What follows the script; errors that soft-fail or not. */
static void any_env(void)
{
	static const int ends[] = { -pte_eos, -pte_bad_opc, -pte_bad_packet };
	static const int rcs[] = { 0, -pte_bad_config, -pte_bad_packet };
	static const int fcs[] = { 0, -pte_no_time, -pte_bad_packet };

#ifdef END
	end_rc = END;
#else
	end_rc = ends[vf_range(0, 2)];
#endif
#ifdef TRC
	t_rc = TRC;
	u_rc = URC;
	f_rc = FRC;
#else
	t_rc = rcs[vf_range(0, 2)];
	u_rc = rcs[vf_range(0, 2)];
	f_rc = fcs[vf_range(0, 2)];
#endif
	fcr_val = vf_u64();
}

static void init_all(void)
{
#ifdef VF_NATIVE
	memset(&d, 0, sizeof(d));
	memset(&s, 0, sizeof(s));
	memset(sq, 0, sizeof(sq));
	memset(&sev, 0, sizeof(sev));
	memset(script, 0, sizeof(script));
#endif
	sn = navail = sync_n = cfg_rc = init_rc = 0;
	d.pacdec.config.size = sizeof(d.pacdec.config);
	d.pacdec.config.begin = buffer;
	d.pacdec.config.end = buffer + NSCRIPT;
}

static void any_state(void)
{
#ifdef ENABLED
	d.enabled = ENABLED;
#else
	d.enabled = (unsigned) vf_bool();
#endif
#ifdef MEV
	d.mode_exec_valid = MEV;
#else
	d.mode_exec_valid = (unsigned) vf_bool();
#endif
#ifdef CS
	d.csl = CS & 1;
	d.csd = (CS >> 1) & 1;
	d.iflag = (CS >> 2) & 1;
#else
	d.iflag = (unsigned) vf_bool();
	d.csd = (unsigned) vf_bool();
	d.csl = (unsigned) vf_bool();
#endif
	d.time.tsc = vf_u64();
#ifdef HTSC
	d.time.have_tsc = HTSC;
#else
	d.time.have_tsc = (unsigned) vf_bool();
#endif
	d.time.lost_mtc = vf_u32();
	d.time.lost_cyc = vf_u32();
	d.tcal.fcr = vf_u64();
	d.ip.ip = vf_u64();
#ifdef HIP
	d.ip.have_ip = HIP & 1;
	d.ip.suppressed = HIP >> 1;
#else
	d.ip.have_ip = (unsigned) vf_bool();
	d.ip.suppressed = (unsigned) vf_bool();
#endif
#ifdef IFF
	d.flags.variant.event.enable_iflags_events = IFF;
#else
	d.flags.variant.event.enable_iflags_events = (unsigned) vf_bool();
#endif
	d.flags.variant.event.keep_tcal_on_ovf = (unsigned) vf_bool();
#ifdef BDM70
	d.pacdec.config.errata.bdm70 = BDM70;
#else
	d.pacdec.config.errata.bdm70 = (unsigned) vf_bool();
#endif
#ifdef SKD010
	d.pacdec.config.errata.skd010 = 1;
#endif
#ifdef APL11
	d.pacdec.config.errata.apl11 = 1;
#endif
#ifdef APL12
	d.pacdec.config.errata.apl12 = 1;
#endif
}

static void spec_init(void)
{
	s.enabled = d.enabled;
	s.bound = d.bound;
	s.mev = d.mode_exec_valid;
	s.iflag = d.iflag;
	s.csd = d.csd;
	s.csl = d.csl;
	s.time = d.time;
	s.tcal = d.tcal;
	s.ip = d.ip;
	s.cur = 0;
	s.next = 1;
	s.status = d.status;
}

/* The decoder's state is as specified. */
static void check_state(void)
{
	int i;

	VF_ASSERT(d.enabled == s.enabled, "tracing enabled");
	VF_ASSERT(d.mode_exec_valid == s.mev && (!s.mev || (
		  d.csd == s.csd && d.csl == s.csl &&
		  (!d.flags.variant.event.enable_iflags_events ||
		   d.iflag == s.iflag))), "execution mode");
	VF_ASSERT(d.time.tsc == s.time.tsc &&
		  d.time.have_tsc == s.time.have_tsc &&
		  d.time.lost_mtc == s.time.lost_mtc &&
		  d.time.lost_cyc == s.time.lost_cyc, "time");
	VF_ASSERT(d.tcal.fcr == s.tcal.fcr, "calibration");
	VF_ASSERT(d.ip.have_ip == s.ip.have_ip && (!s.ip.have_ip || (
		  d.ip.suppressed == s.ip.suppressed &&
		  d.ip.ip == s.ip.ip)), "last ip");
	VF_ASSERT(d.pacdec.pos == buffer + s.next, "position");
	if (s.cur < 0)
		VF_ASSERT(d.packet.type == ppt_invalid &&
			  d.status == s.status && !d.packet.size,
			  "the error at the end is kept");
	else
		VF_ASSERT(d.packet.type == script[s.cur].type &&
			  d.packet.size == 1, "current packet");
	VF_ASSERT(q_len() == sn, "number of pending events");
	for (i = 0; i < NQ; ++i)
		if (i < sn) {
			VF_ASSERT(q_binding(i) == sq[i].b, "binding");
			VF_ASSERT(same_ev(q_event(i), &sq[i].ev, 0),
				  "pending event");
			if (sq[i].ev.type == ptev_overflow)
				VF_ASSERT(q_event(i)->has_tsc ==
					  sq[i].ev.has_tsc &&
					  q_event(i)->tsc == sq[i].ev.tsc,
					  "time of the overflow");
		}
	VF_ASSERT(!d.event, "event delivered");
}

#ifndef A1
#define A1 vf_u64()
#endif
#ifndef A2
#define A2 vf_u64()
#endif
#ifndef A3
#define A3 vf_u64()
#endif
#ifndef FOLLOW
#define FOLLOW ppt_pad, ppt_stop
#endif
static int follow(void)
{
	static const int set[] = { FOLLOW };

	return set[vf_range(0, sizeof(set) / sizeof(*set) - 1)];
}

#ifndef A
#define A vf_u64()
#endif
	/* PTW: the tools lose track of its size next to an unknown payload. */
#ifndef MB
#define MB vf_u64()
#endif
#define SYM(T) ((T) == ppt_ptw && (S) > 1 ? 0x123456789abcdefull :	\
		(T) == ppt_mode ? MB : vf_u64())
static void any_script(void)
{
	int i;

	(void) i;
	any_packet(&script[0], T, A, SYM(T));
#ifdef T1
	any_packet(&script[1], T1, A1, SYM(T1));
#ifdef T2
	any_packet(&script[2], T2, A2, SYM(T2));
#ifdef T3
	any_packet(&script[3], T3, A3, SYM(T3));
#endif
#endif
#else
	for (i = 1; i < S; ++i)
		any_packet(&script[i], follow(), vf_u64(), vf_u64());
#endif
}

#if !defined(SYNC) && !defined(MISC) && !defined(ALLOC)
void harness(void)
{
	struct pt_event uev;
	int i, rc, want;

	init_all();
	any_env();
	any_state();
#if NB > 0
	any_pending(0, B0, P0, 0);
#endif
#if NB > 1
	any_pending(1, B1, P1, B0 == evb_tip);
#endif
#if NB > 2
	any_pending(2, B2, P2, B0 == evb_tip || B1 == evb_tip);
#endif
	any_script();
#ifdef AVAIL
	navail = AVAIL;
#else
	navail = (int) vf_range(1, S);
#endif
	d.packet = script[0];
	d.pacdec.pos = buffer + 1;
	/* More events for the same packet. */
#ifdef BOUND
	d.bound = BOUND;
#else
	d.bound = (T == ppt_fup || T == ppt_tip || T == ppt_tip_pge ||
		   T == ppt_tip_pgd) && vf_bool();
#endif
	/* The asynchronous branch is always the first to be delivered, and
	 * the FUP that started it took the events that bind to FUP.
	 */
	i = s_find(evb_tip, ptev_async_branch);
	if (i >= 0) {
		int j;

		VF_ASSUME(!d.bound);
		for (j = 0; j < NB; ++j)
			VF_ASSUME(j >= i || !(sq[j].b &
					      (evb_fup | evb_fup_bound)));
	}
	spec_init();

	memset(&uev, 0xcc, sizeof(uev));
	rc = pt_evt_next(&d, &uev, sizeof(uev));
	want = spec_next();

	VF_ASSERT(rc == want, "event or error");
	if (!rc) {
		VF_ASSERT(same_ev(&uev, &sev, 1), "event");
		check_state();
		VF_REACH("event");
	} else if (s.cur < 0) {
		check_state();
		VF_REACH("more");
	} else
		VF_REACH("error");
}
#endif

#ifdef SYNC
/* Synchronize forward (1), onto an offset (2), or backward (3) from packet
 * FROM (-1: not synchronized).  The PSB the packet decoder finds are CAND.
 */
void harness(void)
{
	static const int cand[] = { CAND };
#ifdef NOCAND
	const int ncand = 0;
#else
	const int ncand = (int) (sizeof(cand) / sizeof(*cand));
#endif
	uint64_t off = vf_u64();
	int i, rc, want, start;

	init_all();
	any_env();
	any_state();
	any_script();
	navail = S;
	for (i = 0; i < 3; ++i)
		sync_pos[i] = i < ncand ? cand[i] : 0;
	sync_max = ncand;
	sync_end = -pte_eos;
	d.packet.type = ppt_ovf;
	d.bound = (unsigned) vf_bool();
	d.status = -pte_eos;
	d.pacdec.config.end = buffer + S;
#ifdef P0
	any_pending(0, B0, P0, 0);
#endif
	if (FROM >= 0)
		d.pacdec.pos = buffer + FROM;
	start = FROM < 0 ? S : FROM;

	rc = SYNC == 1 ? pt_evt_sync_forward(&d) :
		SYNC == 2 ? pt_evt_sync_set(&d, off) :
		pt_evt_sync_backward(&d);

	want = -pte_eos;
	for (i = 0; i < ncand; ++i) {
		if (SYNC == 3 && cand[i] >= start)
			continue;
		if (SYNC == 3 && i && cand[i] >= cand[i - 1])
			continue;
		/* Start from scratch. */
		s.enabled = s.bound = s.mev = 0;
		s.ip = no_ip;
		s.time = no_time;
		s.tcal = no_tcal;
		sn = 0;
		s.status = 0;
		s.next = cand[i];
		s_fetch();
		want = s.cur < 0 ? s.status :
			script[s.cur].type == ppt_psb ? s_header() :
			-pte_nosync;
		if (SYNC != 3 || s.next < start)
			break;
		want = -pte_eos;
	}

	VF_ASSERT(rc == want, "synchronized or error");
	if (SYNC == 2)
		VF_ASSERT(set_off == off, "offset");
	if (!rc) {
		check_state();
		VF_REACH("synchronized");
	} else
		VF_REACH("error");
}
#endif

#ifdef MISC
static union {
	uint8_t b[4 * sizeof(struct pt_event)];
	struct pt_event ev;
} ubuf;
#define uev (&ubuf.ev)
/* SIZE: the size of the event the user asks for */
void harness(void)
{
	uint64_t off = 0;
	uint8_t *b = ubuf.b;
	uint32_t k = (uint32_t) vf_range(0, SIZE - 1);
	int rc;

	VF_ASSERT(pt_evt_next(NULL, uev, sizeof(*uev)) == -pte_invalid &&
		  pt_evt_next(&d, NULL, sizeof(*uev)) == -pte_invalid &&
		  pt_evt_sync_forward(NULL) == -pte_invalid &&
		  pt_evt_sync_backward(NULL) == -pte_invalid &&
		  pt_evt_sync_set(NULL, 0) == -pte_invalid &&
		  pt_evt_get_offset(NULL, &off) == -pte_invalid &&
		  pt_evt_get_offset(&d, NULL) == -pte_invalid &&
		  pt_evt_get_sync_offset(NULL, &off) == -pte_invalid &&
		  !pt_evt_get_config(NULL), "invalid arguments");
	pt_evt_free_decoder(NULL);

	init_all();
	any_env();
	any_state();
	d.packet.type = ppt_tnt_8;
	d.packet.size = (uint8_t) vf_range(0, 16);
	d.packet.payload.tnt.payload = vf_u64();
	d.packet.payload.tnt.bit_size = vf_u8();
	VF_ASSERT(pt_evt_get_offset(&d, &off) == -pte_nosync &&
		  pt_evt_get_sync_offset(&d, &off) == -pte_nosync, "no sync");
	d.pacdec.pos = buffer + 1;
	d.pacdec.sync = buffer;
	VF_ASSERT(!pt_evt_get_offset(&d, &off) &&
		  off == 1 - (uint64_t) d.packet.size, "offset");
	VF_ASSERT(!pt_evt_get_sync_offset(&d, &off) && off == 0,
		  "sync offset");
	VF_ASSERT(pt_evt_get_config(&d) == &d.pacdec.config, "config");

	/* As much as the user asked for; zero beyond what we know. */
	d.enabled = 1;
	navail = 1;
	spec_init();
	script[0] = d.packet;
	b[SIZE] = b[SIZE + 1] = b[SIZE + 64] = b[k] = 0xcc;
	rc = pt_evt_next(&d, uev, SIZE);
	VF_ASSERT(!rc && !spec_next(), "event");
	if (SIZE < sizeof(*uev))
		VF_ASSERT(b[SIZE] == 0xcc && b[SIZE + 1] == 0xcc &&
			  b[SIZE + 64] == 0xcc,
			  "memory beyond the given size is not written");
	else {
		VF_ASSERT(same_ev(uev, &sev, 1), "event");
		if (SIZE > sizeof(*uev)) {
			VF_ASSUME(k >= sizeof(*uev));
			VF_ASSERT(b[k] == 0, "zero beyond the event");
			VF_ASSERT(b[SIZE] == 0xcc, "beyond the given size");
		}
	}

	VF_REACH("end");
}
#endif

#ifdef ALLOC
static struct pt_config uconf;
void harness(void)
{
	struct pt_event_decoder *p;

	init_all();
	/* The flags are ours; the rest of the configuration is the packet
	 * decoder's. */
	cfg_rc = (int) -vf_range(0, 3);
	init_rc = (int) -vf_range(0, 3);
	uconf.size = sizeof(uconf);
	uconf.begin = buffer;
	uconf.end = buffer + 1;
	uconf.flags.variant.event.keep_tcal_on_ovf = 1;
	uconf.errata.skd010 = 1;
	p = pt_evt_alloc_decoder(&uconf);
	if (p) {
		VF_ASSERT(!cfg_rc && !init_rc, "allocation fails on errors");
		VF_ASSERT(p->flags.variant.event.keep_tcal_on_ovf &&
			  p->pacdec.config.errata.skd010 &&
			  p->pacdec.config.begin == buffer,
			  "configuration");
		VF_ASSERT(!p->pacdec.config.flags.variant.event.
			  keep_tcal_on_ovf, "the packet decoder's flags");
		VF_ASSERT(p->status == -pte_nosync && !p->enabled &&
			  !p->bound && !p->mode_exec_valid && !p->event &&
			  p->packet.type == ppt_invalid, "initial state");
		pt_evt_free_decoder(p);
		VF_REACH("allocated");
	} else
		VF_REACH("failed");
}
#endif
