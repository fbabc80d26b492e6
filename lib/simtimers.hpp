#pragma once
// a timer list of an endpoint, run by the simulated world exactly when due
#include "sim.hpp"
#include "rtmfp/Timer.hpp"
namespace sim {
struct SimTimers {
	World &w; Endpoint *e;
	std::shared_ptr<com::zenomt::TimerList> list { com::zenomt::share_ref(new com::zenomt::TimerList(), false) };
	std::shared_ptr<bool> alive { std::make_shared<bool>(true) };
	SimTimers(World &w_, Endpoint *e_) : w(w_), e(e_) { list->onHowLongToSleepDidChange = [this] { plan(); }; }
	~SimTimers() { *alive = false; list->onHowLongToSleepDidChange = nullptr; list->clear(); }
	uint64_t plans { 0 };
	void plan()
	{
		auto a = alive;
		uint64_t n = ++plans;
		Duration d = list->howLongToNextFire(w.now, 1e6);
		if(d >= 1e6) return;
		w.after(d > 0 ? d + 1e-9L : 0, [this, a, n] {
			if(!*a || n != plans) return;
			auto l = list;
			e->enter([&] { l->fireDueTimers(w.now); });
			if(*a) plan();
		});
	}
	std::shared_ptr<com::zenomt::Timer> schedule(Time when) { auto t = list->schedule(when); plan(); return t; }
};
}
