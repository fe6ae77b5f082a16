/* Event queue: FIFO per binding, bounded, stable slots.
 *
 * BEGIN: first occupied slot, CNT: number of entries (the cases cover all);
 * bindings and events arbitrary.
 */
#include "vf.h"
#include "intel-pt.h"

/* The queue only zeroes, copies, and returns events as a whole, and looks at
 * their type: the rest of the event stands for its payload in one word. */
struct vf_event {
	enum pt_event_type type;
	uint32_t pay;
};
#define pt_event vf_event

#include "libipt/src/pt_event_queue.c"

#define CAP (evq_max - 2)

struct pt_event *pt_evq_enqueue(struct pt_event_queue *evq, uint32_t evb)
VF_REQUIRES(evq != NULL)
VF_ASSIGNS(*evq);
struct pt_event *pt_evq_dequeue(struct pt_event_queue *evq, uint32_t evb)
VF_REQUIRES(evq != NULL)
VF_ASSIGNS(*evq);

static struct pt_event_queue q, old;

static struct pt_evq_entry *at(struct pt_event_queue *e, int k)
{
	return &e->queue[(e->begin + k) % evq_max];
}

static int len(const struct pt_event_queue *e)
{
	return (e->end + evq_max - e->begin) % evq_max;
}

static int same(const struct pt_event *a, const struct pt_event *b)
{
	return a->type == b->type && a->pay == b->pay;
}

static int zero(const struct pt_event *a)
{
	return !a->type && !a->pay;
}

static void draw(struct pt_event *e)
{
	e->type = (enum pt_event_type) vf_range(0, 31);
	e->pay = vf_u32();
}

static void run(int first)
{
	struct pt_event *ev, nev;
	uint32_t evb;
	int i, n, n1, m, k;

	memset(&q, 0, sizeof(q));
	n = CNT;
	q.begin = BEGIN;
	q.end = (uint8_t) ((BEGIN + n) % evq_max);
	for (i = 0; i < evq_max; ++i) {
		draw(&q.queue[i].event);
		q.queue[i].binding = (uint32_t) vf_u64();
	}
	draw(&q.standalone);
	old = q;
	evb = (uint32_t) vf_u64();

	if (first >= 0) {
		/* FIRST: the first match is entry number first, or none. */
		evb = evb_fup;
		for (i = 0; i < n; ++i)
			at(&q, i)->binding = at(&old, i)->binding =
				i < first ? ~(uint32_t) evb_fup :
				evb_fup | evb_tip;
	}

	/* first match */
	m = -1;
	for (i = 0; i < CAP; ++i)
		if (m < 0 && i < n && (at(&q, i)->binding & evb))
			m = i;

#if defined(ENQUEUE)
	draw(&nev);
	{
		int re = vf_bool();

		/* requeue takes a standalone or recently dequeued event */
		int slot = (BEGIN + evq_max - 1) % evq_max;
		struct pt_event *src = vf_bool() ? &q.standalone :
			&q.queue[slot].event;

		nev = *src;
		ev = re ? pt_evq_requeue(&q, src, evb) :
			pt_evq_enqueue(&q, evb);
		n1 = len(&q);
		VF_ASSERT((ev != NULL) == (n < CAP), "unless full");
		VF_ASSERT(n1 == (ev ? n + 1 : n), "one more");
		if (ev) {
			VF_ASSERT(ev == &at(&q, n)->event, "at the end");
			VF_ASSERT(at(&q, n)->binding == evb, "its binding");
			VF_ASSERT(re ? same(ev, &nev) : zero(ev),
				  "requeued: the event; else zero");
		}
		for (k = 0; k < CAP; ++k) if (k < n)
			VF_ASSERT(at(&q, k)->binding == at(&old, k)->binding
				  && same(&at(&q, k)->event,
					  &at(&old, k)->event),
				  "the others are not changed");
		VF_ASSERT(same(&q.queue[slot].event, &old.queue[slot].event),
			  "the last dequeued event stays valid");
		VF_ASSERT(same(&q.standalone, &old.standalone),
			  "the standalone event stays valid");
	}
#elif defined(DEQUEUE)
	ev = pt_evq_dequeue(&q, evb);
	n1 = len(&q);
	VF_ASSERT((ev != NULL) == (m >= 0), "if there is one");
	if (ev) {
		VF_ASSERT(same(ev, &at(&old, m)->event),
			  "the first one for the binding");
		VF_ASSERT(n1 == n - 1, "one less");
		for (k = 0; k < CAP; ++k) if (k < n1) {
			int j = k < m ? k : k + 1;

			VF_ASSERT(at(&q, k)->binding == at(&old, j)->binding
				  && same(&at(&q, k)->event,
					  &at(&old, j)->event),
				  "the others stay in order");
		}
		/* see ENQUEUE: this slot is not overwritten by what is added
		 * next
		 */
		VF_ASSERT(ev == &q.queue[(q.begin + evq_max - 1) %
					 evq_max].event,
			  "in the slot that is kept free");
	} else {
		VF_ASSERT(n1 == n, "nothing is removed");
		for (k = 0; k < CAP; ++k) if (k < n)
			VF_ASSERT(same(&at(&q, k)->event,
				       &at(&old, k)->event),
				  "nothing changes");
	}
#elif defined(LOOK)
	{
		int what = (int) vf_range(0, 5), t, f = -1, r;
		enum pt_event_type type =
			(enum pt_event_type) vf_range(0, 31);

		for (i = 0; i < CAP; ++i)
			if (f < 0 && i < n && (at(&q, i)->binding & evb) &&
			    at(&q, i)->event.type == type)
				f = i;
		switch (what) {
		case 0:
			ev = pt_evq_peek(&q, evb);
			VF_ASSERT(ev == (m < 0 ? NULL : &at(&q, m)->event),
				  "peek: the first one for the binding");
			break;
		case 1:
			ev = pt_evq_find(&q, evb, type);
			VF_ASSERT(ev == (f < 0 ? NULL : &at(&q, f)->event),
				  "find: the first one of that type");
			break;
		case 2:
			r = pt_evq_empty(&q, evb);
			VF_ASSERT(r >= 0 && !r == (m >= 0), "empty");
			break;
		case 3:
			r = pt_evq_pending(&q, evb);
			VF_ASSERT(r >= 0 && !!r == (m >= 0), "pending");
			break;
		case 4:
			r = pt_evq_clear(&q);
			VF_ASSERT(!r && !len(&q), "clear");
			break;
		case 5:
			ev = pt_evq_standalone(&q);
			VF_ASSERT(ev == &q.standalone && zero(ev),
				  "a blank standalone event");
			break;
		}
		if (what != 4) {
			VF_ASSERT(len(&q) == n, "looking removes nothing");
			for (k = 0; k < CAP; ++k) if (k < n)
				VF_ASSERT(at(&q, k)->binding ==
					  at(&old, k)->binding &&
					  same(&at(&q, k)->event,
					       &at(&old, k)->event),
					  "looking changes nothing");
		}
		pt_evq_init(&q);
		t = pt_evq_empty(&q, ~0u);
		VF_ASSERT(t > 0, "empty after reset");
	}
#endif
	VF_ASSERT(q.begin < evq_max && q.end < evq_max &&
		  len(&q) <= CAP, "indices in range, slots kept free");
}

void harness(void)
{
#ifdef FIRST
	int m;

	for (m = 0; m <= CNT; ++m)
		run(m);
#else
	run(-1);
#endif
	VF_REACH("end");
}
