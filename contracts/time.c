/* Timing: TSC/TMA/MTC/CYC/CBR packets to estimated time, and calibration.
 *
 * FREQ: MTC frequency (the cases cover the hardware range 0..15).
 */
#include "vf.h"
#include "libipt/src/pt_time.c"

static struct pt_config g_c;

static int s_delta(uint32_t *d, uint32_t ctc, uint32_t last)
{
	/* One wrap-around of the counter bits MTC provides. */
	if (ctc < last)
		ctc += 1u << (FREQ + 8);
	if (ctc < last)
		return -pte_bad_packet;
	*d = ctc - last;
	return 0;
}

static int s_fc(uint64_t *fc, uint64_t ctc)
{
	if (!g_c.cpuid_0x15_eax || !g_c.cpuid_0x15_ebx)
		return -pte_bad_config;
	*fc = (ctc * g_c.cpuid_0x15_ebx) / g_c.cpuid_0x15_eax;
	return 0;
}

static int same(const struct pt_time *a, const struct pt_time *b)
{
	return a->tsc == b->tsc && a->base == b->base && a->fc == b->fc &&
		a->ctc == b->ctc && a->ctc_cyc == b->ctc_cyc &&
		a->lost_mtc == b->lost_mtc && a->lost_cyc == b->lost_cyc &&
		a->cbr == b->cbr && a->have_tsc == b->have_tsc &&
		a->have_cbr == b->have_cbr && a->have_tma == b->have_tma &&
		a->have_mtc == b->have_mtc;
}

static int tsame(const struct pt_time_cal *a, const struct pt_time_cal *b)
{
	return a->fcr == b->fcr && a->min_fcr == b->min_fcr &&
		a->max_fcr == b->max_fcr && a->tsc == b->tsc &&
		a->cyc_tsc == b->cyc_tsc && a->cyc_mtc == b->cyc_mtc &&
		a->ctc == b->ctc && a->lost_mtc == b->lost_mtc &&
		a->have_mtc == b->have_mtc &&
		a->check_skl168 == b->check_skl168;
}

static void draw(struct pt_time *t)
{
	uint64_t f = vf_u64();

	memset(t, 0, sizeof(*t));
	t->tsc = vf_u64();
	t->base = vf_u64();
	t->fc = vf_u64();
	t->ctc = vf_u32();
	t->ctc_cyc = vf_u32();
	t->lost_mtc = vf_u32();
	t->lost_cyc = vf_u32();
	t->cbr = vf_u8();
	t->have_tsc = f & 1;
	t->have_cbr = f >> 1 & 1;
	t->have_tma = f >> 2 & 1;
	t->have_mtc = f >> 3 & 1;
	/* What MTC and TMA provide. */
	VF_ASSUME(!(t->ctc >> (FREQ + 8)) && !(t->ctc_cyc >> (FREQ + 8)));
}

static void tdraw(struct pt_time_cal *t)
{
	uint64_t f = vf_u64();

	memset(t, 0, sizeof(*t));
	t->fcr = vf_u64();
	t->min_fcr = vf_u64();
	t->max_fcr = vf_u64();
	t->tsc = vf_u64();
	t->cyc_tsc = vf_u64();
	t->cyc_mtc = vf_u64();
	t->ctc = vf_u32();
	t->lost_mtc = vf_u32();
	t->have_mtc = f & 1;
	t->check_skl168 = f >> 1 & 1;
	VF_ASSUME(!(t->ctc >> (FREQ + 8)));
}

static void s_set_fcr(struct pt_time_cal *t, uint64_t fcr)
{
	t->fcr = fcr;
	t->min_fcr = fcr < t->min_fcr ? fcr : t->min_fcr;
	t->max_fcr = fcr > t->max_fcr ? fcr : t->max_fcr;
}

static void config(void)
{
	memset(&g_c, 0, sizeof(g_c));
	g_c.size = sizeof(g_c);
	g_c.mtc_freq = FREQ;
	g_c.cpuid_0x15_eax = vf_u32();
	g_c.cpuid_0x15_ebx = vf_u32();
	g_c.nom_freq = vf_u8();
	g_c.errata.skl168 = vf_bool();
}

void harness(void)
{
	struct pt_time t, e;
	struct pt_time_cal k, w;
	uint64_t v;
	uint32_t d;
	int ret, want;

	config();
	draw(&t);
	e = t;
	tdraw(&k);
	w = k;
	want = 0;
#if defined(TSC)
	{
		struct pt_packet_tsc p;

		p.tsc = vf_u64();
		ret = pt_time_update_tsc(&t, &p, &g_c);
		e.tsc = e.base = p.tsc;
		e.fc = 0;
		e.ctc = 0;
		e.lost_mtc = e.lost_cyc = 0;
		e.have_tsc = 1;
		e.have_tma = e.have_mtc = 0;
	}
#elif defined(CBR)
	{
		struct pt_packet_cbr p;

		p.ratio = vf_u8();
		ret = pt_time_update_cbr(&t, &p, &g_c);
		if (!p.ratio)
			want = -pte_bad_packet;
		else {
			e.cbr = p.ratio;
			e.have_cbr = 1;
		}
	}
#elif defined(TMA)
	{
		struct pt_packet_tma p;

		p.ctc = vf_u16();
		p.fc = vf_u16();
		ret = pt_time_update_tma(&t, &p, &g_c);
		/* A TMA directly follows its TSC. */
		if (!e.have_tsc || e.have_tma)
			want = -pte_bad_context;
		else if (e.have_mtc)
			want = -pte_internal;
		else {
			e.have_tma = 1;
			e.base -= p.fc;
			e.fc += p.fc;
			e.ctc = e.ctc_cyc = p.ctc &
				((1u << (FREQ + 8)) - 1);
			/* TMA provides all the bits MTC provides. */
			if (FREQ + 8 <= 16)
				e.have_mtc = 1;
		}
	}
#elif defined(MTC)
	{
		struct pt_packet_mtc p;
		uint32_t ctc, last;

		p.ctc = vf_u8();
		ctc = (uint32_t) p.ctc << FREQ;
		ret = pt_time_update_mtc(&t, &p, &g_c);
		last = e.ctc;
		if (e.have_tsc && !e.have_tma)
			;	/* ignored between TSC and TMA */
		else {
			int first = !e.have_mtc;

			if (e.fc || e.lost_cyc || first)
				e.ctc_cyc = ctc;
			e.have_mtc = 1;
			e.fc = 0;
			e.ctc = ctc;
			e.lost_cyc = 0;
			if (first && e.have_tma && last > 0xffff)
				want = -pte_internal;
			else if (first && !e.have_tma)
				;	/* nothing to compare it to */
			else {
				if (first) {
					/* Estimate the bits TMA does not
					 * provide: the last value with those
					 * low bits at or before this one.
					 */
					uint32_t hi = ctc >> 16;

					if ((ctc & 0xffff) < last)
						hi = (hi - 1) & (((1u << (FREQ + 8)) - 1) >> 16);
					last |= hi << 16;
				}
				want = s_delta(&d, ctc, last);
				if (want)
					e.lost_mtc += 1;
				else {
					want = s_fc(&v, d);
					if (!want)
						e.tsc = e.base = e.base + v;
				}
			}
		}
	}
#elif defined(CYC)
	{
		struct pt_packet_cyc p;
		uint64_t fcr, cyc, old;

		p.value = vf_u64();
		fcr = vf_u64();
		ret = pt_time_update_cyc(&t, &p, &g_c, fcr);
		cyc = p.value;
		if (!fcr)
			e.lost_cyc += 1;	/* not calibrated */
		else {
			if (!e.fc && e.ctc != e.ctc_cyc) {
				/* Attribute to earlier MTC periods what
				 * belongs to them.
				 */
				want = s_delta(&d, e.ctc, e.ctc_cyc);
				if (!want)
					want = s_fc(&v, d);
				if (!want) {
					old = (v << 8) / fcr;
					cyc = cyc < old ? 0 : cyc - old;
				}
			}
			if (!want) {
				e.fc += (cyc * fcr) >> 8;
				e.tsc = e.base + e.fc;
			}
		}
	}
#elif defined(QUERY)
	{
		uint64_t tsc = 1;
		uint32_t lm = 2, lc = 3, cbr = 4;
		int some = vf_bool();

		ret = pt_time_query_tsc(&tsc, some ? &lm : NULL,
					some ? &lc : NULL, &t);
		want = e.have_tsc ? 0 : -pte_no_time;
		VF_ASSERT(tsc == e.tsc, "the time");
		VF_ASSERT(!some || (lm == e.lost_mtc && lc == e.lost_cyc),
			  "lost packets");
		VF_ASSERT(pt_time_query_cbr(&cbr, &t) ==
			  (e.have_cbr ? 0 : -pte_no_cbr), "if we have a cbr");
		VF_ASSERT(cbr == (e.have_cbr ? e.cbr : 4), "the cbr");
		VF_ASSERT(same(&t, &e), "asking does not change the time");
		pt_time_init(&t);
		memset(&e, 0, sizeof(e));
	}
#elif defined(CAL)
	{
		int what = (int) vf_range(0, 7);
		struct pt_packet_cbr cbr;
		struct pt_packet_tsc tsc;
		struct pt_packet_cyc cyc;
		struct pt_packet_tma tma;
		uint64_t fcr;

		cbr.ratio = vf_u8();
		tsc.tsc = vf_u64();
		cyc.value = vf_u64();
		tma.ctc = vf_u16();
		tma.fc = vf_u16();
		fcr = vf_u64();
		switch (what) {
		case 0:
			ret = pt_tcal_update_tsc(&k, &tsc, &g_c);
			w.tsc = tsc.tsc;
			w.cyc_tsc = 0;
			break;
		case 1:
			/* A frequency change. */
			ret = pt_tcal_update_cbr(&k, &cbr, &g_c);
			memset(&w, 0, sizeof(w));
			w.min_fcr = ~0ull;
			goto header_cbr;
		case 2:
			ret = pt_tcal_header_cbr(&k, &cbr, &g_c);
		header_cbr:
			if (!g_c.nom_freq)
				;
			else if (!cbr.ratio)
				want = -pte_bad_packet;
			else
				s_set_fcr(&w, ((uint64_t) g_c.nom_freq << 8) /
					  cbr.ratio);
			break;
		case 3:
			ret = pt_tcal_update_cyc(&k, &cyc, &g_c);
			w.cyc_mtc += cyc.value;
			w.cyc_tsc += cyc.value;
			break;
		case 4:
			ret = pt_tcal_update_ovf(&k, &g_c);
			w.tsc = w.cyc_tsc = w.cyc_mtc = 0;
			w.ctc = 0;
			w.have_mtc = 0;
			break;
		case 5:
			ret = pt_tcal_update_psb(&k, &g_c);
			if (g_c.errata.skl168)
				w.check_skl168 = 1;
			break;
		case 6:
			ret = pt_tcal_update_tma(&k, &tma, &g_c);
			break;
		default:
			ret = pt_tcal_fcr(&fcr, &k);
			want = k.min_fcr <= k.max_fcr ? 0 : -pte_no_time;
			if (!want)
				VF_ASSERT(fcr == k.fcr, "the ratio");
			break;
		}
	}
#elif defined(CALTSC)
	{
		struct pt_packet_tsc p;
		uint64_t tsc, last, cyc;

		p.tsc = vf_u64();
		ret = pt_tcal_header_tsc(&k, &p, &g_c);
		last = w.tsc;
		cyc = w.cyc_tsc;
		w.tsc = tsc = p.tsc;
		w.cyc_tsc = 0;
		/* Only if we have TSC and CYC, and MTC are preferred. */
		if (last && cyc && !w.have_mtc) {
			if (tsc < last)
				tsc += 1ull << 56;
			if (tsc < last)
				want = -pte_bad_packet;
			else if ((tsc - last) >> 56)
				want = -pte_internal;
			else
				s_set_fcr(&w, ((tsc - last) << 8) / cyc);
		}
	}
#elif defined(CALMTC)
	{
		struct pt_packet_mtc p;
		uint64_t cyc;
		uint32_t ctc, last, skl;

		p.ctc = vf_u8();
		ret = pt_tcal_update_mtc(&k, &p, &g_c);
		ctc = (uint32_t) p.ctc << FREQ;
		last = w.ctc;
		cyc = w.cyc_mtc;
		skl = w.check_skl168;
		w.check_skl168 = 0;
		if (!w.have_mtc) {
			w.cyc_mtc = 0;
			w.ctc = ctc;
			w.have_mtc = 1;
		} else if (cyc) {
			w.cyc_mtc = 0;
			w.ctc = ctc;
			want = s_delta(&d, ctc, last);
			if (!want)
				want = s_fc(&v, d);
			if (!want && v >> 56)
				want = -pte_internal;
			/* SKL168 may have dropped a CYC before PSB. */
			if (want || (skl && (d > 1u << FREQ ||
					     (FREQ < 10 &&
					      w.min_fcr <= w.max_fcr &&
					      (w.fcr * (cyc + 0xf00)) >> 8 <
					      v))))
				w.lost_mtc += 1;
			else {
				s_set_fcr(&w, (v << 8) / cyc);
				w.lost_mtc = 0;
			}
		}
	}
#endif
	VF_ASSERT(ret == want, "result");
	VF_ASSERT(same(&t, &e), "estimated time");
	VF_ASSERT(tsame(&k, &w), "calibration");
	VF_REACH("end");
}
