// P34: reorder buffer against a model of its delivery rule, on a virtual clock.
#include "pbt.hpp"
#include "rtmfp/ReorderBuffer.hpp"
#include <algorithm>
using namespace com::zenomt;
using namespace com::zenomt::rtmfp;
using pbt::Src; using pbt::Register;

namespace {

struct Clock { Time now = 1000; std::shared_ptr<TimerList> timers = share_ref(new TimerList(), false); };

struct Buffer : public ReorderBuffer {
	Clock &c;
	Buffer(Clock &c_, Duration w) : ReorderBuffer(w), c(c_) {}
	Time getCurrentTime() const override { return c.now; }
	std::shared_ptr<Timer> scheduleTimer(Time when) override { return c.timers->schedule(when); }
};

struct Msg { uintmax_t sn = 0; size_t frags = 0; Bytes data; Time rx = 0; int delivered = 0; bool inserted = false; uintmax_t last() const { return sn + (frags ? frags - 1 : 0); } };

// the messages of a flow: consecutive, with abandoned holes
std::vector<Msg> genFlow(Src &s, size_t max)
{
	std::vector<Msg> v;
	uintmax_t sn = 1 + (s.chance(1, 8) ? s.sized(1ull << 40) : s.below(3));
	for(size_t n = 1 + s.below(max); n--; )
	{
		if(s.chance(1, 6)) sn += 1 + s.below(5);
		Msg m; m.sn = sn; m.frags = s.chance(2, 3) ? 1 : 1 + s.below(6); m.data = s.bytes(s.len(30));
		sn = m.last() + 1;
		v.push_back(m);
	}
	return v;
}

// arrival order: the original order, locally disturbed or fully shuffled
std::vector<size_t> genOrder(Src &s, size_t n)
{
	std::vector<size_t> o(n);
	for(size_t i = 0; i < n; i++) o[i] = i;
	if(s.chance(1, 3)) { for(size_t i = 0; i < n; i++) std::swap(o[i], o[i + s.below(n - i)]); }
	else for(size_t i = 0; i < n; i++) if(s.chance(1, 3)) std::swap(o[i], o[std::min(n - 1, i + s.below(5))]);
	return o;
}

struct Model {
	uintmax_t csn = 0, through = 0, highest = 0;
	Duration window = 0;
	std::vector<Msg *> waiting; // by arrival
	std::vector<std::pair<Msg *, bool>> out; // expected deliveries and whether late

	void deliver(Msg *m) { out.push_back({ m, m->last() < through }); csn = std::max(csn, m->last()); through = std::max(through, m->last()); }
	void cascade()
	{
		while(true)
		{
			Msg *first = nullptr;
			for(auto *m : waiting) if(!first || m->sn < first->sn) first = m;
			if(!first || first->sn > csn + 1) break;
			waiting.erase(std::find(waiting.begin(), waiting.end(), first));
			deliver(first);
		}
	}
	void expire(Time now)
	{
		bool any = false;
		for(auto *m : waiting) if(m->rx + window <= now) { csn = std::max(csn, m->last()); any = true; }
		if(any) cascade();
	}
	void insert(Msg *m, Time now)
	{
		highest = std::max(highest, m->last());
		if(m->sn <= csn + 1) { deliver(m); cascade(); }
		else waiting.push_back(m);
	}
	void through_(uintmax_t sn) { if(sn > csn) { csn = sn; cascade(); } }
	Time next() const { Time t = INFINITY; for(auto *m : waiting) t = std::min(t, m->rx + window); return t; }
};

void model(Src &s)
{
	Clock c;
	static const std::vector<double> windows { 0, 0.5, 1, 3, INFINITY };
	Model m; m.window = s.pick(windows);
	auto buf = share_ref(new Buffer(c, m.window), false);
	if(s.chance(1, 10)) { buf = share_ref(new Buffer(c, -1), false); m.window = 0; }
	auto msgs = genFlow(s, 25);
	auto order = genOrder(s, msgs.size());
	size_t got = 0;
	bool closed = false;
	std::string problem;
	auto show = [&](const Msg &x) { return std::to_string(x.sn) + "+" + std::to_string(x.frags); };
	std::vector<std::string> seen;
	buf->onMessage = [&](const uint8_t *b, size_t len, uintmax_t sn, size_t frags, bool late) {
		s.log("  at %.3f delivered %ju+%zu%s", double(c.now), sn, frags, late ? " late" : "");
		if(problem.size()) return;
		if(closed) { problem = "delivered after close"; return; }
		if(got >= m.out.size()) { problem = "delivered " + std::to_string(sn) + " which is not due"; return; }
		auto &w = m.out[got++];
		if(w.first->sn != sn || w.first->frags != frags || w.first->data.size() != len || memcmp(w.first->data.data(), b, len)) problem = "delivered " + std::to_string(sn) + " want " + show(*w.first);
		else if(late != w.second) problem = "message " + show(*w.first) + (late ? " marked late" : " not marked late");
	};
	auto settle = [&] {
		m.expire(c.now); // what is due by now
		c.timers->fireDueTimers(c.now);
		PBT_CHECK(problem.empty(), "%s", problem.c_str());
		PBT_CHECK(got == m.out.size(), "message %s not delivered at %.3f", show(*m.out[got].first).c_str(), double(c.now));
	};
	auto advance = [&](Time to) {
		// every moment at which something is due, by the model's account or the buffer's own
		while(true)
		{
			Time t = std::min(m.next(), c.now + c.timers->howLongToNextFire(c.now, 1e9));
			if(!(t < to) || t <= c.now) break;
			c.now = t;
			settle();
		}
		c.now = to;
		settle();
	};
	unsigned lates = 0;
	for(size_t i = 0; i < order.size(); )
	{
		switch(s.weighted({ 10, 3, 1, 1, 1 }))
		{
		case 0: { Msg &x = msgs[order[i++]]; x.rx = c.now; s.log("at %.3f insert %s", double(c.now), show(x).c_str()); m.insert(&x, c.now); buf->insert(x.data.data(), x.data.size(), x.sn, x.frags); } break;
		case 1: { Time t = c.now + s.below(80) / 64.0; s.log("advance to %.3f", double(t)); advance(t); } break;
		case 2: { uintmax_t sn = s.flip() ? msgs[s.below(msgs.size())].last() : s.below(30); s.log("deliverThrough %ju", sn); m.through_(sn); buf->deliverThrough(sn); } break;
		case 3: { s.log("flush"); m.through_(m.highest); buf->flush(); } break;
		case 4: { Duration w = s.pick(windows); s.log("window %g", double(w)); m.window = w; buf->setReorderWindowPeriod(s.chance(1, 2) || w > 0 ? w : -2); PBT_ASSERT(buf->getReorderWindowPeriod() == w); } break;
		}
		PBT_CHECK(problem.empty(), "%s", problem.c_str());
		settle();
	}
	switch(s.below(3))
	{
	case 0: s.log("flush"); m.through_(m.highest); buf->flush(); settle(); PBT_CHECK(m.out.size() == msgs.size() && got == msgs.size(), "a message was lost"); break;
	case 1: if(m.window < INFINITY) { advance(c.now + m.window + 1); PBT_CHECK(got == msgs.size(), "a message waited longer than the window"); } break;
	default: closed = true; s.log("close"); buf->close(); buf->flush(); c.now += 100; c.timers->fireDueTimers(c.now); PBT_CHECK(problem.empty(), "%s", problem.c_str()); break;
	}
	for(auto &o : m.out) lates += o.second;
	if(lates) s.label("late messages");
	if(lates && m.out.size() > 3) s.nontrivial();
	std::weak_ptr<void> dummy;
	buf.reset();
	c.now += 100; c.timers->fireDueTimers(c.now);
}

// calls back into the buffer from inside delivery: nothing twice, nothing lost, nothing after close
void reentrant(Src &s)
{
	Clock c;
	static const std::vector<double> windows { 0, 0.5, 1, INFINITY };
	std::shared_ptr<ReorderBuffer> buf = share_ref(new Buffer(c, s.pick(windows)), false);
	ReorderBuffer *raw = buf.get();
	auto msgs = genFlow(s, 14);
	auto order = genOrder(s, msgs.size());
	bool closed = false, acted = false;
	std::string problem;
	uintmax_t high = 0;
	size_t next = 0, depth = 0, inside = 0;
	std::vector<std::string> heap(3, std::string(40, 'x')); // makes the callback's captures live in the heap
	auto arrive = [&, raw] {
		Msg &x = msgs[order[next++]]; x.inserted = true; s.log("insert %ju+%zu", x.sn, x.frags);
		Bytes copy(x.data);
		raw->insert(copy.data(), copy.size(), x.sn, x.frags);
	};
	raw->onMessage = [&, raw, heap](const uint8_t *b, size_t len, uintmax_t sn, size_t frags, bool late) {
		s.log("  delivered %ju+%zu%s", sn, frags, late ? " late" : "");
		Msg *m = nullptr;
		for(auto &x : msgs) if(x.sn == sn) m = &x;
		if(!m || !m->inserted || m->frags != frags || m->data.size() != len || memcmp(m->data.data(), b, len)) problem = "delivered something not inserted";
		else if(m->delivered++) problem = "message " + std::to_string(sn) + " delivered twice";
		else if(closed) problem = "delivered after close";
		else if(!inside && late != (m->last() < high)) problem = "message " + std::to_string(sn) + (late ? " marked late" : " not marked late");
		if(m) high = std::max(high, m->last());
		if(problem.size()) return;
		inside++; // what is inserted during a delivery may count as before or after it
		if(s.chance(1, 3) && ++depth < 20)
		{
			acted = true;
			switch(s.below(6))
			{
			case 0: s.log("  close inside"); closed = true; raw->close(); break;
			case 1: s.log("  flush inside"); raw->flush(); break;
			case 2: { uintmax_t t = msgs[s.below(msgs.size())].last(); s.log("  deliverThrough %ju inside", t); raw->deliverThrough(t); } break;
			case 3: { double w = s.pick(windows); s.log("  window %g inside", w); raw->setReorderWindowPeriod(w); } break;
			case 4: if(next < order.size()) { s.log("  insert inside"); arrive(); } break;
			case 5: s.log("  close and drop inside"); closed = true; raw->close(); buf.reset(); break;
			}
		}
		inside--;
		// the captures are still usable
		for(auto &h : heap) if(h.size() != 40 || h[39] != 'x') problem = "callback destroyed while running";
		if(m && !buf && len && problem.empty()) s.label("owner dropped inside");
	};
	while(!closed && next < order.size())
	{
		switch(s.weighted({ 8, 3, 1 }))
		{
		case 0: { auto keep = buf; arrive(); } break; // the caller of insert holds a reference
		case 1: c.now += s.below(80) / 64.0; c.timers->fireDueTimers(c.now); break;
		case 2: { auto keep = buf; s.log("flush"); buf->flush(); } break;
		}
		PBT_CHECK(problem.empty(), "%s", problem.c_str());
	}
	if(!closed) { auto keep = buf; buf->flush(); }
	PBT_CHECK(problem.empty(), "%s", problem.c_str());
	if(!closed) for(auto &x : msgs) PBT_CHECK(!x.inserted || x.delivered == 1, "message %ju lost", x.sn);
	if(closed) { if(buf) { buf->flush(); } c.now += 100; c.timers->fireDueTimers(c.now); PBT_CHECK(problem.empty(), "%s", problem.c_str()); }
	if(acted) s.nontrivial();
}

Register r({"P34", "messages of a generated flow inserted in disturbed or shuffled order on a virtual clock, mixed with flushes, deliver-through calls and window changes, compared delivery by delivery with a model; and the same calls made from inside delivery; non-trivial: late messages among more than three deliveries, or a call made from inside", {
	{"model", model, 20000, 2000000},
	{"reentrant", reentrant, 20000, 2000000},
}, { "sequence number ranges of messages do not overlap and no message is inserted twice, as for messages of a receiving flow", "timers are run when due" }});

} // namespace
