// P31: Timer and TimerList against a model that checks every firing as it happens.
#include "pbt.hpp"
#include "rtmfp/Timer.hpp"
#include <algorithm>
#include <cmath>
#include <memory>
using namespace com::zenomt;
using namespace pbt;

namespace {

const long double TICK = 1.0L / 1024; // exact binary fractions: the model computes in integers

struct MT { // model of one timer
	std::shared_ptr<Timer> t;
	int64_t when; int64_t recur; bool catchup;
	bool canceled { false }, attached { true }, listed { true }, rescheduled { false }, hasAction { true };
	std::shared_ptr<int> canary; // captured by the action
	uint64_t fires { 0 };
};

struct World {
	Src &s;
	std::shared_ptr<TimerList> list;
	std::vector<std::shared_ptr<MT>> all;
	int64_t now { 0 };
	std::shared_ptr<MT> firing;
	bool running { false };
	size_t fired { 0 }, budget { 300 }, sleepCalls { 0 }, cancelsInside { 0 }, reschedInside { 0 }, catchups { 0 };
	World(Src &s_) : s(s_) { }

	bool has() const { for(auto &m : all) if(m->listed) return true; return false; }
	int64_t earliest() const { int64_t e = INT64_MAX; for(auto &m : all) if(m->listed) e = std::min(e, m->when); return e; }

	void finishFiring()
	{
		if(!firing) return;
		auto m = firing; firing = nullptr;
		if(m->canceled) { m->listed = false; m->attached = false; }
		else if(m->rescheduled) { } // already placed by the reschedule
		else if(m->recur > 0)
		{
			if(now > m->when && m->catchup) { int64_t k = (now - m->when + m->recur - 1) / m->recur; if(k > 1) catchups++; m->when += k * m->recur; }
			else m->when += m->recur;
			m->listed = m->attached;
		}
		else { m->canceled = true; m->listed = m->attached = false; }
	}

	void onFire(const std::shared_ptr<MT> &m, const std::shared_ptr<Timer> &sender, Time at)
	{
		PBT_CHECK(running, "timer fired outside fireDueTimers");
		finishFiring();
		PBT_ASSERT(sender == m->t || sender.get() == m->t.get());
		PBT_CHECK(at == Time(now * TICK), "action given the wrong time");
		PBT_CHECK(!m->canceled, "cancelled timer fired");
		PBT_CHECK(m->listed, "timer fired that is not pending");
		PBT_CHECK(m->when <= now, "timer fired %lld ticks early", (long long)(m->when - now));
		PBT_CHECK(m->t->getNextFireTime() == Time(m->when * TICK), "fire time changed before firing");
		for(auto &o : all) if(o->listed && o->hasAction) PBT_CHECK(o->when >= m->when, "timer due at %lld fired before one due at %lld", (long long)m->when, (long long)o->when);
		s.log("  fires timer due %lld", (long long)m->when);
		m->listed = false; m->rescheduled = false; m->fires++; fired++;
		firing = m;
		size_t edits = s.weighted({ 4, 3, 1, 1 });
		for(size_t i = 0; i < edits && budget; i++) edit(true);
		*m->canary += 1; // the action's captures must outlive any cancel from inside it
	}

	std::shared_ptr<MT> add(bool inside)
	{
		auto m = std::make_shared<MT>();
		int64_t lo = inside && s.chance(1, 3) ? 0 : 1;
		m->when = now + (s.chance(1, 5) ? -int64_t(s.below(20)) : int64_t(lo + s.below(s.flip() ? 8 : 200)));
		m->recur = s.flip() ? 0 : int64_t(1 + s.below(60));
		m->catchup = s.flip();
		m->canary = std::make_shared<int>(0);
		bool way = s.flip();
		m->hasAction = !s.chance(1, 10);
		if(!m->hasAction) m->recur = 0;
		std::weak_ptr<MT> w = m;
		auto canary = m->canary;
		Timer::Action act;
		World *self = this;
		std::string pad(64, 'x');
		if(m->hasAction) act = [w, canary, self, pad] (const std::shared_ptr<Timer> &t, Time at) { auto mm = w.lock(); PBT_ASSERT(mm); self->onFire(mm, t, at); PBT_ASSERT(pad[63] == 'x' && *canary > 0); };
		Time when = m->when * TICK; Duration recur = m->recur * TICK;
		if(way && m->hasAction) m->t = list->schedule(act, when, recur, m->catchup);
		else { m->t = list->schedule(when, recur, m->catchup); m->t->action = act; }
		s.log("%sschedule at %lld recur %lld catchup %d", inside ? "    " : "", (long long)m->when, (long long)m->recur, m->catchup);
		all.push_back(m);
		return m;
	}

	void edit(bool inside)
	{
		if(budget) budget--;
		std::shared_ptr<MT> m;
		if(all.size()) m = inside && firing && s.chance(1, 3) ? firing : s.pick(all);
		if(m && inside && !m->hasAction) m = nullptr; // when a timer without action has gone cannot be observed
		switch(s.weighted({ 5, 3, 3, 1, 1, 1 }))
		{
		case 0: if(all.size() < 60) add(inside); break;
		case 1: if(m) { s.log("%scancel timer due %lld", inside ? "    " : "", (long long)m->when); m->t->cancel(); if(inside) cancelsInside++; m->canceled = true; m->listed = m->attached = false; PBT_ASSERT(m->t->isCanceled() && !m->t->doesRecur()); } break;
		case 2: if(m) {
			int64_t w = now + (s.chance(1, 5) ? -int64_t(s.below(20)) : int64_t(1 + s.below(s.flip() ? 8 : 200)));
			s.log("%sreschedule timer due %lld to %lld", inside ? "    " : "", (long long)m->when, (long long)w);
			m->t->setNextFireTime(w * TICK);
			if(!m->canceled) { m->when = w; if(m->attached) m->listed = true; m->rescheduled = true; if(inside) reschedInside++; }
			else PBT_ASSERT(m->t->isCanceled());
		} break;
		case 3: if(m) {
			int64_t r = s.flip() ? 0 : 1 + s.below(60);
			if(m->hasAction) { m->t->setRecurInterval(r * TICK); m->recur = r; }
		} break;
		case 4: if(m && !m->canceled) { s.log("%sremove timer due %lld", inside ? "    " : "", (long long)m->when); list->removeTimer(m->t); m->listed = m->attached = false; } break;
		case 5: if(m && !m->canceled && !m->attached && m != firing) { s.log("add back timer due %lld", (long long)m->when); list->addTimer(m->t); m->listed = m->attached = true; } break;
		}
	}

	void check()
	{
		for(auto &m : all)
		{
			PBT_ASSERT(m->t->isCanceled() == m->canceled);
			if(!m->canceled) PBT_CHECK(m->t->getNextFireTime() == Time(m->when * TICK), "next fire time is %Lg ticks, want %lld", m->t->getNextFireTime() / TICK, (long long)m->when);
			if(!m->canceled && m->when <= now && !running) PBT_ASSERT(m->t->isDue(now * TICK));
			if(m->when > now) PBT_ASSERT(m->canceled || !m->t->isDue(now * TICK));
			PBT_ASSERT(m->t->doesRecur() == (m->recur > 0 && !m->canceled));
			if(m->canceled) PBT_CHECK(m == firing || !m->t->action, "a cancelled timer keeps its action");
		}
		Duration max = s.flip() ? Duration(5) : Duration(s.below(300) * TICK);
		Duration want = has() ? std::min(max, Duration((earliest() - now) * TICK)) : max;
		PBT_CHECK(list->howLongToNextFire(now * TICK, max) == want, "howLongToNextFire %Lg want %Lg", list->howLongToNextFire(now * TICK, max), want);
	}
};

void history(Src &s)
{
	World w(s);
	w.list = share_ref(new TimerList(), false);
	bool hook = s.chance(3, 4);
	if(hook) w.list->onHowLongToSleepDidChange = [&w] { w.sleepCalls++; PBT_CHECK(!w.running, "sleep change reported while firing"); };
	size_t n = 1 + s.len(40);
	for(size_t i = 0; i < n && w.budget; i++)
	{
		if(s.chance(2, 3))
		{
			bool had = w.has(); int64_t before = w.earliest(); size_t calls = w.sleepCalls;
			w.edit(false);
			if(hook && w.has() && (!had || w.earliest() < before)) PBT_CHECK(w.sleepCalls > calls, "an earlier timer was scheduled without notice");
			w.check();
		}
		else
		{
			int64_t step = s.flip() ? s.below(12) : s.below(120);
			w.now += step;
			s.log("fire at %lld", (long long)w.now);
			size_t before = w.fired, plain = 0;
			std::vector<std::shared_ptr<MT>> blanks;
			for(auto &m : w.all) if(!m->hasAction) blanks.push_back(m);
			w.running = true;
			size_t rv = w.list->fireDueTimers(w.now * TICK);
			w.running = false;
			w.finishFiring();
			for(auto &m : w.all) if(!m->hasAction && m->listed && m->when <= w.now) { plain++; m->listed = m->attached = false; m->canceled = true; }
			for(auto &m : w.all) PBT_CHECK(!m->listed || m->when > w.now, "due timer (at %lld) did not fire by %lld", (long long)m->when, (long long)w.now);
			if(w.cancelsInside == 0 && w.reschedInside == 0) PBT_CHECK(rv == w.fired - before + plain, "fireDueTimers answered %zu, %zu fired", rv, w.fired - before + plain);
			PBT_ASSERT(rv >= w.fired - before);
			w.check();
		}
	}
	if(s.chance(1, 4))
	{
		w.list->clear();
		for(auto &m : w.all) if(m->listed) m->listed = m->attached = false;
		s.log("clear");
		PBT_ASSERT(w.list->howLongToNextFire(0, 7) == 7);
		w.running = true;
		PBT_ASSERT(w.list->fireDueTimers(1e9) == 0);
		w.running = false;
		s.label("cleared");
	}
	// the list goes away while timers are still referenced: they must be inert and safe
	size_t firedBefore = w.fired;
	if(s.flip())
	{
		w.list.reset();
		for(auto &m : w.all) { if(s.flip()) m->t->setNextFireTime(5); m->t->setRecurInterval(1); m->t->cancel(); PBT_ASSERT(!m->t->action); }
		PBT_ASSERT(w.fired == firedBefore);
	}
	if(w.fired) s.label("timers fired", w.fired);
	if(w.cancelsInside) s.label("cancelled from inside an action", w.cancelsInside);
	if(w.reschedInside) s.label("rescheduled from inside an action", w.reschedInside);
	if(w.catchups) s.label("caught up over several periods", w.catchups);
	if(w.fired >= 2 && (w.cancelsInside || w.reschedInside || w.catchups)) s.nontrivial();
	w.list.reset();
	for(auto &m : w.all) PBT_CHECK(m->canary.use_count() == 1 || !m->t->isCanceled(), "a cancelled timer still holds its action's captures");
}

void basics(Src &s)
{
	// wrapping helpers, the minimum recurrence, and non-tick times
	auto list = share_ref(new TimerList(), false);
	int a = 0, b = 0; Time seen = -1;
	Time when = s.unit() * 100, now = when + s.unit();
	auto t1 = list->schedule(Timer::makeAction([&] { a++; }), when);
	auto t2 = list->schedule(Timer::makeAction([&] (Time n) { b++; seen = n; }), when);
	Duration r = s.flip() ? s.unit() * 0.000002 : s.unit();
	Timer x(when, r, false);
	PBT_ASSERT(x.getRecurInterval() == (r <= 0 ? r : std::max<Duration>(r, x.MIN_RECUR_INTERVAL)));
	PBT_ASSERT(x.doesRecur() == (r > 0));
	PBT_ASSERT(list->fireDueTimers(when - 0.001) == 0 && a == 0 && b == 0);
	PBT_ASSERT(list->fireDueTimers(now) == 2 && a == 1 && b == 1 && seen == now);
	PBT_ASSERT(t1->isCanceled() && t2->isCanceled());
	PBT_ASSERT(list->fireDueTimers(now + 100) == 0);
	// recurrence with catch-up keeps its phase: next fire is on the grid and the number of firings is bounded
	Duration R = 0.01 + s.unit();
	Time start = s.unit() * 10; size_t n = 0; std::vector<Time> at;
	auto t3 = list->schedule(Timer::makeAction([&] (Time) { n++; at.push_back(0); }), start, R, true);
	Time cur = 0; size_t calls = 1 + s.below(10);
	for(size_t i = 0; i < calls; i++)
	{
		cur += s.unit() * 3;
		size_t before = n;
		list->fireDueTimers(cur);
		PBT_CHECK(n - before <= 2, "catch-up fired %zu times in one call", n - before);
		if(cur >= start) PBT_CHECK(n > 0, "due recurring timer never fired");
		PBT_CHECK(t3->getNextFireTime() > cur, "still due after firing");
		long double k = (t3->getNextFireTime() - start) / R;
		PBT_CHECK(fabsl(k - roundl(k)) < 1e-6, "phase lost: %Lg", k);
		PBT_CHECK(cur < start || t3->getNextFireTime() <= cur + R * 1.000001, "skipped a period");
	}
	s.nontrivial();
}

pbt::Register r({"P31", "histories of up to 40 schedules, cancels, reschedules, removals, re-adds, firings and a final clear or list destruction, with up to three further edits inside each action, at times that are multiples of 1/1024 s so the model is exact. Non-trivial: at least two timers fired and an action edited timers or a recurring timer caught up several periods.",
	{ {"history", history, 30000, 1500000}, {"helpers-and-recurrence", basics, 8000, 200000} },
	{ "a timer is not added to a list again from inside its own action (setNextFireTime is the way to do that)", "the order of timers due at the same instant is unspecified" }});
}
