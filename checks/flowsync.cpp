// P35: flows are held at a synchronisation barrier exactly until it completes.
#include "net.hpp"
#include "rtmfp/FlowSyncManager.hpp"
#include <algorithm>
using namespace sim;
using pbt::Register;

namespace {

struct Sync : Net {
	explicit Sync(Src &s_) : Net(s_) {}
	std::unique_ptr<FlowSyncManager> manager;
	struct Mark { uint32_t id; size_t count; };
	std::map<std::pair<uint32_t, int>, Mark> marks;            // by flow and message
	std::map<uint32_t, std::vector<RFlow *> > barriers;          // model: who waits where
	std::map<RFlow *, ReceiveOrder> order;                      // model
	unsigned long held { 0 }, completed { 0 }, resets { 0 }, unheld { 0 }, closedHeld { 0 }, instant { 0 };

	void release(uint32_t id)
	{
		for(auto *r : barriers[id]) if(r && order[r] == RO_HOLD) order[r] = RO_SEQUENCE;
		barriers.erase(id);
	}
	void orders(const char *when)
	{
		for(auto &x : order) if(x.first->flow) PBT_CHECK(x.first->flow->getReceiveOrder() == x.second, "after %s flow %u has order %d, it should be %d", when, x.first->uid, int(x.first->flow->getReceiveOrder()), int(x.second));
	}
	bool sync(RFlow *r, Mark m)
	{
		size_t have = barriers[m.id].size();
		bool expect = m.count <= have + 1;
		if(expect) { release(m.id); completed++; if(!have) instant++; }
		else
		{
			barriers[m.id].push_back(r);
			if(r && order[r] == RO_SEQUENCE) { order[r] = RO_HOLD; held++; }
			else unheld++;
		}
		bool got = manager->sync(m.id, m.count, r ? r->flow : nullptr);
		w.log("  flow %u reaches barrier %u of %zu as number %zu: %d", r ? r->uid : 0, m.id, m.count, have + 1, got);
		PBT_CHECK(got == expect, "flow %u reaching barrier %u of %zu as number %zu answered %d", r ? r->uid : 0, m.id, m.count, have + 1, got);
		orders("a sync");
		return got;
	}
	void resetOne(uint32_t id)
	{
		w.log("reset %u", id);
		resets++;
		release(id);
		eps[1]->enter([&] { manager->reset(id); orders("a reset"); });
	}

	void go()
	{
		Endpoint *a = add("alice"), *b = add("bob");
		manager.reset(new FlowSyncManager);
		app.onAnnounce = [this] (RFlow &r) {
			ReceiveOrder o = s.chance(1, 5) ? RO_NETWORK : RO_SEQUENCE;
			app.accept(r, o);
			order[&r] = o;
		};
		app.onAnyMessage = [this] (RFlow &r, const Delivery &d) {
			PBT_CHECK(order[&r] != RO_HOLD, "message %d of flow %u was delivered while it was held at a barrier", d.msg, r.uid);
			auto it = marks.find({ r.uid, d.msg });
			if(it != marks.end()) sync(&r, it->second);
		};
		std::vector<SFlow *> flows;
		for(int n = s.irange(1, 7); n--; )
		{
			SFlow *f = app.open(a, b->epd(), Priority(s.below(8)));
			a->enter([&] { f->flow->addCandidateAddress(b->addr(1)); });
			flows.push_back(f);
		}
		if(s.flip()) faults();
		uint32_t next = 0;
		auto plan = [&] {
			// a barrier over some of the flows
			std::vector<SFlow *> who;
			for(auto *f : flows) if(f->open() && s.chance(2, 3)) who.push_back(f);
			uint32_t id = s.chance(1, 6) && next ? uint32_t(s.below(next)) : next++;
			size_t count = who.size();
			if(s.chance(1, 5)) count = s.pick<size_t>({ 0, 1, who.size() + 1, who.size() ? who.size() - 1 : 0, 0xffffffff });
			w.log("barrier %u of %zu over %zu flows", id, count, who.size());
			for(auto *f : who)
			{
				for(int k = s.below(4); k--; ) app.write(f, s.below(2000));
				if(Msg *m = app.write(f, 15)) marks[{ f->uid, m->index }] = { id, s.chance(1, 12) ? size_t(s.below(5)) : count };
				for(int k = s.below(4); k--; ) app.write(f, s.below(2000));
			}
		};
		for(int n = s.irange(1, 12); n--; )
		{
			switch(s.weighted({ 6, 3, 1, 1, 1, 1 }))
			{
			case 0: plan(); break;
			case 1: { SFlow *f = s.pick(flows); if(f->open()) for(int k = s.irange(1, 4); k--; ) app.write(f, s.below(3000)); break; }
			case 2: { SFlow *f = s.pick(flows); if(f->open()) app.close(f); break; }
			case 3:
			{
				std::vector<RFlow *> v;
				for(auto &x : order) if(x.first->open()) v.push_back(x.first);
				std::sort(v.begin(), v.end(), [] (RFlow *x, RFlow *y) { return x->uid < y->uid; });
				if(v.empty()) break;
				RFlow *r = s.pick(v);
				if(order[r] == RO_HOLD) closedHeld++;
				app.close(r, s.below(3));
				break;
			}
			case 4: if(next) resetOne(uint32_t(s.below(next + 1))); break;
			default: b->enter([&] { sync(nullptr, { uint32_t(s.below(next + 1)), size_t(s.below(6)) }); }); break;
			}
			if(s.flip()) w.run(s.pick<double>({ 0.01, 0.1, 1, 5 }));
		}
		heal();
		w.run(20);
		orders("everything arrived");
		if(s.flip())
		{
			while(barriers.size()) { resetOne(barriers.begin()->first); w.run(10); }
		}
		else
		{
			w.log("the manager goes away");
			while(barriers.size()) release(barriers.begin()->first);
			b->enter([&] { manager.reset(new FlowSyncManager); orders("the manager went"); });
		}
		// messages may yet arrive and reach new barriers
		for(int k = 0; k < 60; k++)
		{
			w.run(3);
			while(barriers.size()) { resetOne(barriers.begin()->first); }
		}
		orders("the end");
		for(auto *f : flows)
		{
			if(!f->peer || f->peer->closed || f->exceptions) continue;
			for(auto &m : f->msgs) PBT_CHECK(m.delivered == 1, "message %d of flow %u was never delivered, though no barrier is left", m.index, f->uid);
			if(f->closed && !f->closedUnopened) PBT_CHECK(f->peer->completes == 1, "flow %u was closed, its receiver was not told, though no barrier is left", f->uid);
		}
		s.label("held at a barrier", held);
		s.label("reached one unheld", unheld);
		s.label("barriers completed", completed);
		s.label("completed by their first", instant);
		s.label("reset", resets);
		s.label("closed while held", closedHeld);
		if(held && completed) s.nontrivial();
		app.onAnyMessage = nullptr;
		manager.reset();
		if(s.chance(1, 8)) { shutdownAll(); destroy(); }
		else destroy(false);
	}
};

void barriers(Src &s) { Sync y(s); y.go(); }

void messages(Src &s)
{
	Bytes m;
	uint32_t id = 0x5a5a5a5a; size_t count = 0x5a5a;
	switch(s.below(4))
	{
	case 0: // made
	{
		FlowSyncManager mgr;
		uint32_t wantID = 0;
		size_t wantCount = 0;
		for(int n = s.irange(1, 5); n--; )
		{
			uint32_t i = uint32_t(s.sized(0xffffffff));
			bool own = s.flip();
			size_t c = s.sized(0xffffffff);
			m = own ? mgr.makeSyncMessage(c) : FlowSyncManager::makeSyncMessage(i, c);
			if(own) i = wantID++;
			wantCount = c;
			PBT_CHECK(m.size() == 15, "a sync message of %zu bytes", m.size());
			Bytes ref = { 4, 0, 0, 0, 0, 0, 34, uint8_t(i >> 24), uint8_t(i >> 16), uint8_t(i >> 8), uint8_t(i), uint8_t(c >> 24), uint8_t(c >> 16), uint8_t(c >> 8), uint8_t(c) };
			PBT_CHECK(m == ref, "the sync message for %u of %zu is %s", i, c, pbt::hex(m).c_str());
			PBT_CHECK(FlowSyncManager::parse(m.data(), m.size(), id, count) == 15 && id == i && count == wantCount, "the sync message for %u of %zu parses to %u of %zu", i, c, id, count);
		}
		s.label("round trips");
		s.nontrivial();
		return;
	}
	case 1: // like one
	{
		m = FlowSyncManager::makeSyncMessage(uint32_t(s.u64()), s.below(1u << 31));
		for(int n = s.below(3); n--; )
			switch(s.below(4))
			{
			case 0: m[s.below(std::min<size_t>(m.size(), 7))] ^= uint8_t(1 << s.below(8)); break;
			case 1: m.resize(s.range(1, m.size())); break;
			case 2: { Bytes x = s.bytes(s.below(20)); m.insert(m.end(), x.begin(), x.end()); break; }
			default: m[s.below(m.size())] = uint8_t(s.below(256)); break;
			}
		break;
	}
	case 2: m = s.bytes(s.below(40)); break;
	default:
	{
		Bytes pay = s.bytes(s.below(30));
		m = TCMessage::message(uint8_t(s.pick<int>({ 4, 8, 9, 17, 18, 20 })), uint32_t(s.u64()), pay.data(), pay.size());
		if(m.size() >= 7 && s.flip()) { m[5] = 0; m[6] = uint8_t(s.pick<int>({ 0, 3, 26, 34, 35 })); }
	}
	}
	bool is = m.size() >= 15 && m[0] == 4 && m[5] == 0 && m[6] == 34;
	std::unique_ptr<uint8_t[]> exact(new uint8_t[m.size()]); // an over-read is seen
	if(m.size()) memcpy(exact.get(), m.data(), m.size());
	size_t rv = FlowSyncManager::parse(exact.get(), m.size(), id, count);
	PBT_CHECK(rv == (is ? 15 : 0), "%s parses as %zu bytes of a sync message", pbt::hex(m).c_str(), rv);
	if(is)
	{
		s.label("like one");
		uint32_t i = uint32_t(m[7]) << 24 | m[8] << 16 | m[9] << 8 | m[10], c = uint32_t(m[11]) << 24 | m[12] << 16 | m[13] << 8 | m[14];
		PBT_CHECK(id == i && count == c, "%s parses to %u of %zu", pbt::hex(m).c_str(), id, count);
		s.nontrivial();
	}
	else
	{
		PBT_CHECK(id == 0x5a5a5a5a && count == 0x5a5a, "a message that is no sync message set the answers");
		s.label("not one");
		if(m.size() >= 7 && m[0] == 4) s.nontrivial();
	}
	size_t k = s.below(m.size() + 1);
	id = 7; count = 8;
	rv = FlowSyncManager::parseUserCommandPayload(exact.get() + k, exact.get() + m.size(), id, count);
	PBT_CHECK(rv == (m.size() - k >= 8 ? 8 : 0), "%zu bytes of payload parse as %zu", m.size() - k, rv);
	if(rv) PBT_CHECK(id == (uint32_t(m[k]) << 24 | m[k + 1] << 16 | m[k + 2] << 8 | m[k + 3]) && count == (uint32_t(m[k + 4]) << 24 | m[k + 5] << 16 | m[k + 6] << 8 | m[k + 7]), "a payload parses wrong");
}

Register r({"P35", "up to seven real flows from one endpoint to another over a lossy network carry several barriers' marks among other messages, with counts right, too small and too large, flows in network order, repeated barriers, flows closed at either end while held or not, resets and the manager going away; a model of who waits where predicts every answer and every flow's order, no message may arrive at a held flow, and all must arrive once no barrier is left; and messages made, altered and random are parsed against a reference; non-trivial: a flow held and a barrier completed; a round trip, or a user control message judged", {
	{"barriers", barriers, 8000, 400000},
	{"messages", messages, 150000, 6000000},
}, { "the application does not itself change the order of flows waiting at a barrier", "virtual clock, simulated crypto" }});

} // namespace
