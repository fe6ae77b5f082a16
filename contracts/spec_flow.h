/* How execution flows from one instruction to the next, and where events
 * apply, over an abstract decoder state: a restatement that is independent of
 * the decoders.  Instructions are classified as in C15 (pt_insn.c).
 *
 * A user of this header provides the trace:
 *
 *   tr_event(n)   status (flags or error) of reading the n'th event
 *   tr_ev(n)      that event
 *   tr_cond()     status of querying a conditional branch, and its outcome
 *   tr_ind()      status of querying an indirect branch, and its destination
 *   tr_time()     the time, for tick events
 */
#ifndef SPEC_FLOW_H
#define SPEC_FLOW_H

struct flow {
	uint64_t ip, cr3, vmcs;
	int mode, enabled, speculative;
	int flags;		/* of the last query */
	int have_ev;		/* an event is being processed */
	struct pt_event ev;	/* the last event */
	int post;		/* an instruction waits for its events */
	struct pt_insn insn;
	struct pt_insn_ext iext;
	int bpag, bvm, bptw, biret, bvme, buiret;
	int has_icnt;
	uint32_t icnt;
	/* What has been used so far. */
	int nev, ncond, nind, npush, npop, ninval, nreset;
	uint64_t pushed;
};

static int tr_event(int n);
static const struct pt_event *tr_ev(int n);
static int tr_cond(int *taken);
static int tr_ind(uint64_t *ip);
static int tr_pop(uint64_t *ip);
static int tr_time(uint64_t *tsc, uint32_t *lost_mtc, uint32_t *lost_cyc);
static int tr_inval(void);
static int tr_reach(uint64_t from, uint64_t to);
static int tr_filter(uint64_t ip);	/* is @ip within the filter? */
static int cf_ticks, cf_bdm64, cf_skd022, cf_skl014;
static int cf_skd022_rc;
static pti_inst_enum_t cf_skd022_iclass;

static int jmpabs(const struct pt_insn_ext *iext)
{
	return iext->iclass == PTI_INST_JMPABS;
}

/* The ip a user finds in an event. */
static uint64_t fl_ip(const struct pt_event *ev)
{
	switch (ev->type) {
	case ptev_async_disabled: return ev->variant.async_disabled.at;
	case ptev_async_branch: return ev->variant.async_branch.from;
	case ptev_async_paging: return ev->variant.async_paging.ip;
	case ptev_async_vmcs: return ev->variant.async_vmcs.ip;
	case ptev_exec_mode: return ev->variant.exec_mode.ip;
	case ptev_tsx: return ev->variant.tsx.ip;
	case ptev_exstop: return ev->variant.exstop.ip;
	case ptev_mwait: return ev->variant.mwait.ip;
	case ptev_ptwrite: return ev->variant.ptwrite.ip;
	case ptev_iflags: return ev->variant.iflags.ip;
	case ptev_interrupt: return ev->variant.interrupt.ip;
	case ptev_iret: return ev->variant.iret.ip;
	case ptev_smi: return ev->variant.smi.ip;
	case ptev_init: return ev->variant.init.ip;
	case ptev_vmentry: return ev->variant.vmentry.ip;
	case ptev_vmexit: return ev->variant.vmexit.ip;
	case ptev_shutdown: return ev->variant.shutdown.ip;
	case ptev_uintr: return ev->variant.uintr.ip;
	case ptev_uiret: return ev->variant.uiret.ip;
	default: return 0;
	}
}

/* Flags to return. */
static int fl_status(const struct flow *f, int flags)
{
	if (!f->enabled)
		flags |= pts_ip_suppressed;
	/* The end is reported when there is nothing left to do. */
	if ((f->flags & pts_eos) && !f->have_ev)
		flags |= pts_eos;
	return flags;
}

/* Make the next event available.  */
static int fl_fetch(struct flow *f)
{
	int st;

	if (f->have_ev)
		return 1;
	if (!(f->flags & pts_event_pending))
		return 0;
	st = tr_event(f->nev++);
	if (st < 0)
		return st;
	f->ev = *tr_ev(f->nev - 1);
	f->have_ev = 1;
	f->flags = st;
	return 1;
}

/* Instructions are counted from the last packet that gave an ip. */
static void fl_anchor(struct flow *f)
{
	f->has_icnt = 1;
	f->icnt = 0;
}

/* An instruction at @ip has been executed without using trace. */
static int fl_count(struct flow *f, uint64_t ip)
{
	if (!f->has_icnt)
		return 0;
	if (!f->enabled)
		return -pte_internal;
	if (f->icnt == UINT32_MAX)
		return -pte_overflow;
	f->icnt += 1;
	if (f->have_ev && f->ev.type == ptev_trig &&
	    f->ev.variant.trig.ip == ip) {
		if (!f->ev.variant.trig.icnt)
			return -pte_internal;
		f->ev.variant.trig.icnt -= 1;
		f->ev.variant.trig.ip = f->ip;
	}
	return 0;
}

/* Time moves with branches that use trace. */
static int fl_tick(struct flow *f, uint64_t ip)
{
	static const struct pt_event none;
	uint64_t tsc;
	uint32_t lm, lc;
	int rc;

	if (!cf_ticks)
		return 0;
	if (!f->enabled)
		return -pte_internal;
	if (f->have_ev)
		return 0;
	rc = tr_time(&tsc, &lm, &lc);
	if (rc < 0 && rc != -pte_no_time)
		return rc;
	if (tsc == f->ev.tsc)
		return 0;
	f->ev = none;
	f->ev.type = ptev_tick;
	f->ev.variant.tick.ip = ip;
	f->ev.has_tsc = rc != -pte_no_time;
	f->ev.tsc = tsc;
	f->ev.lost_mtc = lm;
	f->ev.lost_cyc = lc;
	f->have_ev = 1;
	return 0;
}

/* From an instruction to the next one. */
static int fl_proceed(struct flow *f, const struct pt_insn *insn,
		      const struct pt_insn_ext *iext)
{
	uint64_t next = insn->ip + insn->size, to;
	int direct, st, taken, rc;

	direct = iext->variant.branch.is_direct && !jmpabs(iext);
	f->ip = next;
	switch (insn->iclass) {
	case ptic_unknown:
		return -pte_bad_insn;
	case ptic_other:
	case ptic_ptwrite:
		return fl_count(f, insn->ip);
	case ptic_cond_jump:
		f->ncond += 1;
		st = tr_cond(&taken);
		if (st < 0)
			return st;
		rc = fl_tick(f, next);
		if (rc < 0)
			return rc;
		f->flags = st;
		if (taken)
			f->ip = next +
				(uint64_t) iext->variant.branch.displacement;
		fl_anchor(f);
		return 0;
	case ptic_return:
		/* A taken indicator is a return to the caller. */
		f->ncond += 1;
		st = tr_cond(&taken);
		rc = st < 0 ? st : fl_tick(f, next);
		if (0 <= rc) {
			f->flags = st;
			if (!taken)
				return -pte_bad_retcomp;
			f->npop += 1;
			rc = tr_pop(&f->ip);
			if (rc < 0)
				return rc;
			fl_anchor(f);
			return 0;
		}
		break;
	case ptic_call:
		/* A call to the next instruction reads the ip. */
		if (!iext->variant.branch.is_direct ||
		    iext->variant.branch.displacement != 0) {
			f->npush += 1;
			f->pushed = next;
		}
		break;
	default:
		break;
	}
	if (direct) {
		f->ip = next + (uint64_t) iext->variant.branch.displacement;
		return fl_count(f, insn->ip);
	}
	f->nind += 1;
	to = next;
	st = tr_ind(&to);
	if (st < 0)
		return st;
	rc = fl_tick(f, next);
	if (rc < 0)
		return rc;
	f->flags = st;
	if (st & pts_ip_suppressed)
		return -pte_noip;
	f->ip = to;
	fl_anchor(f);
	return 0;
}

/* Does a synchronous disable happen at this instruction? */
static int fl_disables(const struct flow *f, const struct pt_insn *insn,
		       const struct pt_insn_ext *iext)
{
	const struct pt_event *ev = &f->ev;
	uint64_t to = insn->ip + insn->size +
		(uint64_t) iext->variant.branch.displacement;
	int djump = (insn->iclass == ptic_call || insn->iclass == ptic_jump) &&
		iext->variant.branch.is_direct && !jmpabs(iext);

	if (ev->ip_suppressed)
		return pt_insn_is_far_branch(insn, iext) ||
			pt_insn_changes_cpl(insn, iext) ||
			pt_insn_changes_cr3(insn, iext) ||
			(cf_skl014 && djump && !tr_filter(to));
	switch (insn->iclass) {
	case ptic_unknown:
		return -pte_bad_insn;
	case ptic_other:
	case ptic_ptwrite:
		return 0;
	default:
		return !djump || to == ev->variant.disabled.ip;
	}
}

/* Is there an event that belongs to this instruction?  Returns flags. */
static int fl_insn_event(struct flow *f, const struct pt_insn *insn,
			 const struct pt_insn_ext *iext)
{
	const struct pt_event *ev = &f->ev;
	int st, hit, *once;

	st = fl_fetch(f);
	if (st <= 0)
		return st;
	switch (ev->type) {
	default:
		return 0;
	case ptev_tip:
	case ptev_tnt:
		return -pte_internal;
	case ptev_disabled:
		if (ev->status_update)
			return 0;
		st = fl_disables(f, insn, iext);
		if (st <= 0)
			return st;
		/* Where do we expect to continue? */
		st = pt_insn_next_ip(&f->ip, insn, iext);
		if (st < 0) {
			f->ip = 0;
			if (st != -pte_bad_query)
				return st;
			if (insn->iclass == ptic_call ||
			    insn->iclass == ptic_far_call)
				f->ip = insn->ip + insn->size;
		}
		return fl_status(f, pts_event_pending);
	case ptev_paging:
		hit = pt_insn_binds_to_pip(insn, iext);
		once = &f->bpag;
		break;
	case ptev_vmcs:
		hit = pt_insn_binds_to_vmcs(insn, iext);
		once = &f->bvm;
		break;
	case ptev_ptwrite:
		hit = pt_insn_is_ptwrite(insn, iext);
		once = &f->bptw;
		break;
	case ptev_iret:
		hit = pt_insn_is_iret(insn, iext);
		once = &f->biret;
		break;
	case ptev_vmentry:
		hit = pt_insn_is_vmentry(insn, iext);
		once = &f->bvme;
		break;
	case ptev_uiret:
		hit = pt_insn_is_uiret(insn, iext);
		once = &f->buiret;
		break;
	}
	/* These give the ip of the instruction itself, if at all. */
	if (ev->type != ptev_paging && ev->type != ptev_vmcs &&
	    !ev->ip_suppressed)
		hit = fl_ip(ev) == f->ip;
	/* One event of each kind per instruction. */
	if (*once || !hit)
		return 0;
	*once = 1;
	if (!f->post) {
		f->post = 1;
		f->insn = *insn;
		f->iext = *iext;
	}
	return fl_status(f, pts_event_pending);
}

/* Is there an event at the current ip?  Returns flags. */
static int fl_ip_event(struct flow *f, const struct pt_insn *insn,
		       const struct pt_insn_ext *iext)
{
	struct pt_event *ev = &f->ev;
	int st, at;

	st = fl_fetch(f);
	if (st < 0)
		return st;
	if (!st)
		return fl_status(f, 0);
	at = ev->ip_suppressed || fl_ip(ev) == f->ip;
	switch (ev->type) {
	case ptev_tip:
	case ptev_tnt:
		return -pte_internal;

	/* Not related to the ip. */
	case ptev_enabled:
	case ptev_overflow:
	case ptev_stop:
	case ptev_pwre:
	case ptev_pwrx:
	case ptev_tick:
	case ptev_cbr:
	case ptev_mnt:
		at = 1;
		break;

	/* Never have an ip. */
	case ptev_rsm:
	case ptev_sipi:
		if (!ev->ip_suppressed)
			return -pte_internal;
		break;

	/* At an ip, if there is one. */
	case ptev_exec_mode:
	case ptev_exstop:
	case ptev_mwait:
	case ptev_iflags:
	case ptev_interrupt:
	case ptev_smi:
	case ptev_init:
	case ptev_vmexit:
	case ptev_shutdown:
	case ptev_uintr:
		at = at || !f->enabled;
		break;
	case ptev_async_paging:
	case ptev_async_vmcs:
		break;

	/* At an instruction, or right away if tracing is disabled. */
	case ptev_paging:
	case ptev_vmcs:
	case ptev_ptwrite:
	case ptev_iret:
	case ptev_vmentry:
	case ptev_uiret:
		at = !f->enabled;
		break;
	case ptev_disabled:
		at = ev->status_update;
		break;

	case ptev_async_branch:
		at = fl_ip(ev) == f->ip;
		break;
	case ptev_async_disabled:
		at = fl_ip(ev) == f->ip;
		if (at && cf_skd022 && 0 <= cf_skd022_rc &&
		    (cf_skd022_iclass == PTI_INST_VMLAUNCH ||
		     cf_skd022_iclass == PTI_INST_VMRESUME)) {
			uint64_t ip = ev->variant.async_disabled.ip;

			/* It really happens on the VM entry. */
			ev->type = ptev_disabled;
			ev->variant.disabled.ip = ip;
			at = 0;
		}
		break;

	case ptev_tsx:
		/* A branch into an aborted transaction may not have brought us
		 * where the trace says.
		 */
		if (cf_bdm64 && insn && !ev->ip_suppressed &&
		    ev->variant.tsx.aborted &&
		    pt_insn_is_branch(insn, iext) &&
		    tr_reach(f->ip, fl_ip(ev)) <= 0) {
			f->ip = fl_ip(ev);
			at = 1;
		}
		break;

	case ptev_trig:
		if (ev->ip_suppressed) {
			at = 1;
			break;
		}
		/* Counted from the last anchor. */
		if (!ev->variant.trig.ip) {
			if (!f->has_icnt ||
			    ev->variant.trig.icnt < f->icnt)
				return -pte_bad_packet;
			ev->variant.trig.icnt -= (uint16_t) f->icnt;
			ev->variant.trig.ip = f->ip;
		}
		at = !ev->variant.trig.icnt &&
			(!f->enabled || ev->variant.trig.ip == f->ip);
		break;
	}
	return fl_status(f, at ? pts_event_pending : 0);
}

/* The effect of an event.  Returns zero or an error code. */
static int fl_apply(struct flow *f)
{
	struct pt_event *ev = &f->ev;
	int late = !ev->ip_suppressed && fl_ip(ev) != f->ip;
	int rc;

	switch (ev->type) {
	case ptev_tip:
	case ptev_tnt:
		return -pte_internal;
	default:
		return -pte_bad_query;

	case ptev_enabled:
		if (f->ip == ev->variant.enabled.ip)
			ev->variant.enabled.resumed = 1;
		if (ev->status_update)
			return f->enabled ? 0 : -pte_bad_status_update;
		if (ev->ip_suppressed)
			return -pte_noip;
		if (f->enabled)
			return -pte_bad_context;
		f->ip = ev->variant.enabled.ip;
		f->enabled = 1;
		fl_anchor(f);
		return 0;

	case ptev_async_disabled:
		if (late)
			return -pte_bad_query;
		/* Fall through. */
	case ptev_disabled:
		if (ev->status_update)
			return f->enabled ? -pte_bad_status_update : 0;
		if (!f->enabled)
			return -pte_bad_context;
		f->enabled = 0;
		f->has_icnt = 0;
		return 0;

	case ptev_async_branch:
		if (fl_ip(ev) != f->ip)
			return -pte_bad_query;
		if (ev->status_update || !f->enabled)
			return -pte_bad_context;
		f->ip = ev->variant.async_branch.to;
		fl_anchor(f);
		return 0;

	case ptev_async_paging:
		if (late)
			return -pte_bad_query;
		/* Fall through. */
	case ptev_paging:
		if (f->cr3 != ev->variant.paging.cr3) {
			f->ninval += 1;
			rc = tr_inval();
			if (rc < 0)
				return rc;
			f->cr3 = ev->variant.paging.cr3;
		}
		return 0;

	case ptev_async_vmcs:
		if (late)
			return -pte_bad_query;
		/* Fall through. */
	case ptev_vmcs:
		if (f->vmcs != ev->variant.vmcs.base) {
			f->ninval += 1;
			rc = tr_inval();
			if (rc < 0)
				return rc;
			f->vmcs = ev->variant.vmcs.base;
		}
		if (!ev->ip_suppressed)
			fl_anchor(f);
		return 0;

	case ptev_overflow:
		if (ev->status_update)
			return -pte_bad_context;
		f->speculative = 0;
		f->enabled = !ev->ip_suppressed;
		if (f->enabled) {
			f->ip = ev->variant.overflow.ip;
			fl_anchor(f);
		} else {
			f->ip = 0;
			f->has_icnt = 0;
		}
		return 0;

	case ptev_exec_mode:
		if (ev->status_update && f->enabled &&
		    f->mode != ptem_unknown &&
		    f->mode != (int) ev->variant.exec_mode.mode)
			return -pte_bad_status_update;
		f->mode = ev->variant.exec_mode.mode;
		fl_anchor(f);
		return 0;

	case ptev_tsx:
		f->speculative = ev->variant.tsx.speculative;
		fl_anchor(f);
		return 0;

	case ptev_stop:
		return ev->status_update || f->enabled ? -pte_bad_context : 0;

	case ptev_mwait:
		return late && f->enabled ? -pte_bad_query : 0;

	case ptev_exstop:
	case ptev_iflags:
	case ptev_interrupt:
	case ptev_smi:
	case ptev_init:
	case ptev_vmexit:
	case ptev_shutdown:
	case ptev_uintr:
		if (late && f->enabled)
			return -pte_bad_query;
		if (!ev->ip_suppressed)
			fl_anchor(f);
		return 0;

	case ptev_rsm:
	case ptev_sipi:
		return ev->ip_suppressed ? 0 : -pte_internal;

	case ptev_pwre:
	case ptev_pwrx:
	case ptev_ptwrite:
	case ptev_tick:
	case ptev_cbr:
	case ptev_mnt:
	case ptev_iret:
	case ptev_vmentry:
	case ptev_uiret:
		return 0;

	case ptev_trig:
		if (ev->ip_suppressed)
			return 0;
		if (f->enabled && ev->variant.trig.ip != f->ip)
			return -pte_bad_query;
		if (ev->variant.trig.icnt)
			return -pte_internal;
		fl_anchor(f);
		return 0;
	}
}

/* One instruction. */
static int fl_insn(struct flow *f, const struct pt_insn *insn,
		   const struct pt_insn_ext *iext)
{
	int st;

	st = fl_insn_event(f, insn, iext);
	if (st < 0 || (st & pts_event_pending))
		return st;
	st = fl_proceed(f, insn, iext);
	if (st < 0)
		return st;
	return fl_ip_event(f, insn, iext);
}

static void fl_clear_post(struct flow *f)
{
	f->post = f->bpag = f->bvm = f->bptw = f->biret = f->bvme =
		f->buiret = 0;
}

/* What follows after an event. */
static int fl_after(struct flow *f)
{
	int st;

	f->have_ev = 0;
	if (f->post) {
		st = fl_insn_event(f, &f->insn, &f->iext);
		if (st < 0 || (st & pts_event_pending))
			return st;
		if (f->enabled) {
			st = fl_proceed(f, &f->insn, &f->iext);
			if (st < 0)
				return st;
		}
		fl_clear_post(f);
	}
	return fl_ip_event(f, NULL, NULL);
}

#endif /* SPEC_FLOW_H */
