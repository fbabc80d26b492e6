// P36: RateTracker against its definition recomputed from the history, and against true rates.
#include "pbt.hpp"
#include "rtmfp/RateTracker.hpp"
#include <cmath>
using namespace com::zenomt;
using namespace pbt;

namespace {

using LD = long double;

// The definition: counts accumulate in a window that begins with the first update after the previous window
// ended. A window's rate is its count over the window period; for one further period it decays linearly to zero.
struct Ref {
	LD W { 1 }; bool any { false }; LD begin { 0 }; LD count { 0 }; LD prev { 0 };
	LD rate(LD now) const {
		if(!any) return 0;
		LD age = now > begin ? now - begin : 0;
		LD own = age < W ? count / W : age < 2 * W ? count / W * (2 * W - age) / W : 0;
		LD old = age < W ? prev * (1 - age / W) : 0;
		return own + old;
	}
	void update(LD n, LD now) {
		if(any && now < begin) return;
		if(!any || now - begin >= W) { prev = any ? rate(now) : 0; begin = now; count = 0; any = true; }
		count += n;
	}
};

bool close(LD a, LD b) { LD d = fabsl(a - b), m = fmaxl(fabsl(a), fabsl(b)); return d <= 1e-9L * m + 1e-9L; }

void history(Src &s)
{
	LD scale = s.pick(std::vector<LD> { 1, 0.001, 1000 });
	LD W = (1 + s.below(64)) * 0.125L * scale;
	RateTracker r(W), scaled(W);
	Ref ref; ref.W = W;
	size_t k = 2 + s.below(5);
	LD now = s.flip() ? 0 : LD(s.below(100000)) * scale;
	size_t n = 1 + s.len(60), rolled = 0;
	bool resized = false;
	PBT_ASSERT(r.getRate(now) == 0 && r.getWindowPeriod() == W);
	for(size_t i = 0; i < n; i++)
	{
		switch(s.weighted({ 10, 3, 1, 1, 1 }))
		{
		case 0: { size_t c = s.flip() ? s.below(3) : size_t(s.sized(1u << 30)); LD b = ref.begin; r.update(c, now); scaled.update(c * k, now); ref.update(c, now); if(ref.begin != b) rolled++; s.log("%Lg: update %zu", now, c); } break;
		case 1: now += W * s.pick(std::vector<LD> { 0.9L, 1, 1.5L, 2, 2.5L, 4 }); break;
		case 2: W = (1 + s.below(64)) * 0.125L * scale; r.setWindowPeriod(W); scaled.setWindowPeriod(W); ref.W = W; resized = true; PBT_ASSERT(r.getWindowPeriod() == W); s.log("window %Lg", W); break;
		case 3: if(s.chance(1, 4)) { r.reset(); scaled.reset(); ref = Ref(); ref.W = W; s.log("reset"); PBT_ASSERT(r.getRate(now) == 0 && r.getWindowPeriod() == W); } break;
		case 4: if(s.chance(1, 3)) { LD past = now - W * s.unit() * 3; r.update(5, past); scaled.update(5 * k, past); ref.update(5, past); s.log("late update at %Lg", past); s.label("update in the past"); } break;
		}
		if(s.chance(3, 4)) now += W * s.unit() * s.pick(std::vector<LD> { 0.05L, 0.3L, 1 });
		for(LD ahead : { LD(0), W * 0.25L, W * 0.999L, W, W * 1.5L, W * 1.999L, W * 2, W * 10, -W * 0.5L })
		{
			LD want = ref.rate(now + ahead);
			double got = r.getRate(now + ahead);
			PBT_CHECK(std::isfinite(got) && got >= 0, "rate is %g", got);
			PBT_CHECK(close(got, want), "rate at %Lg is %.12g, definition gives %.12Lg", now + ahead, got, want);
			double sc = scaled.getRate(now + ahead);
			PBT_CHECK(close(sc, got * k), "%zu times the amounts gave %g, not %g", k, sc, got * k);
		}
		LD last = ref.any ? ref.begin : now;
		PBT_CHECK(r.getRate(last + W * 2.000001L) == 0 && r.getRate(last + W * 100) == 0, "rate does not reach zero after two idle windows");
	}
	if(rolled >= 3) s.nontrivial();
	if(resized) s.label("window changed");
	s.label("windows started", rolled);
}

void steady(Src &s)
{
	// a constant rate is reported accurately from the second full window on, and never by more than one update's share plus the burst at a window start
	LD W = 0.25L + 4 * s.unit();
	LD d = W / (20 + s.below(200));
	size_t c = 1 + s.below(2000);
	RateTracker r(W);
	LD now = s.below(1000);
	size_t steps = size_t(W * 6 / d);
	LD truth = c / d;
	for(size_t i = 0; i < steps; i++)
	{
		r.update(c, now);
		if(i * d > 2 * W)
		{
			LD got = r.getRate(now);
			PBT_CHECK(got <= truth * (1 + 3 * d / W) && got >= truth * (1 - 3 * d / W), "steady %Lg per second reported as %Lg (window %Lg, update every %Lg)", truth, got, W, d);
		}
		now += d;
	}
	// total over any window never exceeds what was put in
	s.nontrivial();
}

void limits(Src &s)
{
	RateTracker r;
	PBT_ASSERT(r.getWindowPeriod() == 1.0L);
	LD w = s.chance(1, 2) ? -LD(s.unit()) : s.unit() * 0.000003L;
	r.setWindowPeriod(w);
	PBT_CHECK(r.getWindowPeriod() == std::max<LD>(w, Duration(0.000001)), "window period %Lg after asking for %Lg", r.getWindowPeriod(), w);
	r.update(10, 5);
	PBT_ASSERT(std::isfinite(r.getRate(5)) && r.getRate(5) >= 0);
	s.nontrivial();
}

pbt::Register r({"P36", "histories of up to 60 updates (also in the past), pauses, window changes and resets; the reference recomputes the definition and is compared at nine instants around each step; plus steady streams compared with their true rate. Non-trivial: at least three windows were started.",
	{ {"history", history, 20000, 800000}, {"steady-rate", steady, 2000, 60000}, {"limits", limits, 2000, 20000} }, { "window periods given to the constructor are positive" }});
}
