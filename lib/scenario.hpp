#pragma once
// Generated histories of two endpoints exchanging flows over a faulty network.
#include "monitor.hpp"
#include <cmath>

namespace sim {

struct Profile {
	std::set<std::string> props;
	int maxFlows { 5 };
	int actions { 40 };
	double horizon { 8 };
	unsigned write { 20 }, open { 4 }, close { 2 }, rclose { 1 }, order { 3 }, window { 2 }, pri { 2 }, fault { 4 }, deadlines { 0 }, parents { 0 }, abandon { 0 }, noRtx { 0 }, endSession { 0 }, tos { 0 }, burst { 4 }, drop { 0 };
	bool network { true };   // other orders than sequence
	bool faults { true };
	bool rejects { false };  // announced flows are sometimes not accepted, or closed with a code
	bool ecn { false };
	bool lossless { false };
	size_t maxMessage { 6000 };
	bool closeAtEnd { true };
	bool shutdownAtEnd { true };
	bool constantPath { false };
	bool sparse { false };   // with steady: but now and then a packet is lost, duplicated or late
	bool lateAcks { false }; // with steady: but what comes back to the first endpoint is reordered and duplicated, a little
	bool steady { false };   // one constant delay both ways, nothing lost or reordered
};

struct Scenario {
	Src &s;
	Profile pf;
	World w;
	App app;
	Monitor mon;
	std::unique_ptr<Endpoint> a, b;
	bool ended { false }; // a session was ended on purpose
	Time endedAt { -1 };
	unsigned long messages { 0 };
	int opened { 0 };
	bool busy { false };

	Scenario(Src &s_, const Profile &p) : s(s_), pf(p), w(s_), app(w), mon(w, app, p.props) {}

	size_t msgLen()
	{
		switch(s.weighted({ 6, 3, 4, 2, 1 }))
		{
		case 0: return s.below(100);
		case 1: return s.below(4);
		case 2: return s.below(1300);
		case 3: return 1100 + s.below(100);
		default: return s.below(pf.maxMessage);
		}
	}

	void genPath(Path &q, bool harsh)
	{
		q.delay = s.pick<double>({ 0.0, 0.001, 0.01, 0.05, 0.2 });
		if(!pf.faults) return;
		if(s.flip()) q.jitter = s.pick<double>({ 0.001, 0.02, 0.2 });
		q.fifo = !s.flip();
		if(pf.ecn && s.flip()) q.ce = s.pick<double>({ 0.02, 0.3 });
		if(pf.lossless) return;
		if(harsh || s.flip()) q.loss = s.pick<double>({ 0.02, 0.1, 0.3, 0.6 });
		if(s.chance(1, 3)) q.dup = s.pick<double>({ 0.05, 0.3 });
		if(s.chance(1, 3)) { q.late = s.pick<double>({ 0.05, 0.3 }); q.lateBy = s.pick<double>({ 0.3, 3.0 }); }
	}

	void setup()
	{
		w.startupFifo = true;
		a.reset(new Endpoint(w, "alice", "left"));
		b.reset(new Endpoint(w, "bob", "right"));
		a->addInterface(1, ip(1, 1));
		b->addInterface(1, ip(2, 1));
		for(auto *e : { a.get(), b.get() })
		{
			app.attach(e);
			e->simCrypto.txMargin = s.pick<size_t>({ 0, 8, 16 });
			e->simCrypto.rxMargin = s.pick<size_t>({ 0, 4, 16 });
			if(s.chance(1, 6)) e->serialize = s.pick<double>({ 1e-6, 2e-5 });
		}
		genPath(w.path(a.get(), b.get()), false);
		genPath(w.path(b.get(), a.get()), false);
		mon.fifo = !pf.faults;
		if(pf.steady)
		{
			double d = s.pick<double>({ 0.0, 0.0021, 0.01, 0.0333, 0.1, 0.25 });
			for(auto *q : { &w.path(a.get(), b.get()), &w.path(b.get(), a.get()) }) { *q = Path(); q->delay = d; q->fifo = true; if(pf.ecn) q->ce = s.pick<double>({ 0, 0.003, 0.02, 0.2 }); }
			a->serialize = b->serialize = 0;
			mon.steady = !pf.sparse;
			if(pf.sparse) for(auto *q : { &w.path(a.get(), b.get()), &w.path(b.get(), a.get()) }) { q->loss = s.pick<double>({ 0, 0.002, 0.01, 0.05 }); q->fifo = s.flip(); if(s.flip()) q->jitter = 0.003; if(s.chance(1, 4)) q->dup = 0.02; if(s.chance(1, 4)) { q->late = 0.01; q->lateBy = 0.1; } }
			else mon.delay = d;
			if(pf.lateAcks)
			{
				d = s.pick<double>({ 0.0, 0.002, 0.004 });
				w.path(a.get(), b.get()).delay = d;
				Path &q = w.path(b.get(), a.get());
				q.delay = d; q.jitter = s.pick<double>({ 0.002, 0.006, 0.018 }); q.fifo = false; q.dup = s.pick<double>({ 0, 0.2 });
				mon.steadyFor = a.get();
			}
		}
		app.onAnnounce = [this] (RFlow &r) { decide(r); };
	}

	void decide(RFlow &r)
	{
		if(pf.rejects && w.rng.chance(0.15))
		{
			if(w.rng.chance(0.5)) { app.close(&r, w.rng.chance(0.5) ? 0 : 1 + w.rng.below(1000000)); return; } // with a reason
			r.flow.reset(); // simply not accepted
			return;
		}
		ReceiveOrder o = RO_SEQUENCE;
		if(pf.network) { double u = w.rng.unit(); o = u < 0.5 ? RO_SEQUENCE : u < 0.8 ? RO_NETWORK : RO_HOLD; }
		app.accept(r, o);
		if(pf.window && w.rng.chance(0.2)) { r.capChanged = true; r.flow->setBufferCapacity(w.rng.below(20000)); }
		if(pf.window && w.rng.chance(0.1)) r.flow->setWindowLimit(w.rng.below(9000));
	}

	SFlow *openOne()
	{
		Priority pri = Priority(s.weighted({ 1, 1, 1, 3, 2, 1, 1, 1 }));
		size_t extra = s.chance(1, 6) ? s.below(500) : s.below(6);
		SFlow *f = nullptr;
		opened++;
		// a return flow, a flow beside another, or from the endpoint
		std::vector<RFlow *> rs; for(auto &r : app.rflows) if(r->open()) rs.push_back(r.get());
		std::vector<SFlow *> ss; for(auto &x : app.sflows) if(x.second->open() && x.second->flow->getFarAddress().getFamily() != AF_UNSPEC && x.second->flow->getCongestionWindow()) ss.push_back(x.second.get());
		size_t k = s.weighted({ 3, rs.empty() ? 0u : 3u, ss.empty() ? 0u : 2u });
		Endpoint *from = s.chance(1, 3) ? b.get() : a.get(), *to = from == a.get() ? b.get() : a.get();
		if(k == 1) f = app.openOn(s.pick(rs), pri, extra);
		else if(k == 2) f = app.openOn(s.pick(ss), pri, extra);
		else
		{
			Bytes epd = s.chance(1, 5) ? groupEPD(to->simCrypto.group) : to->epd();
			f = app.open(from, epd, pri, extra);
			if(f) from->enter([&] { f->flow->addCandidateAddress(to->addr(1)); });
		}
		if(f && s.chance(1, 3)) f->flow->setBufferCapacity(s.below(5000));
		return f;
	}

	std::vector<SFlow *> sending() { std::vector<SFlow *> v; for(auto &x : app.sflows) if(x.second->open()) v.push_back(x.second.get()); return v; }
	std::vector<RFlow *> receiving() { std::vector<RFlow *> v; for(auto &x : app.rflows) if(x->open()) v.push_back(x.get()); return v; }

	void write(SFlow *f)
	{
		Duration start = INFINITY, finish = INFINITY;
		if(pf.deadlines && s.chance(pf.deadlines, 10))
		{
			if(s.flip()) start = s.pick<double>({ 0, 0.01, 0.1, 0.5, 3, -1 });
			if(s.flip()) finish = s.pick<double>({ 0, 0.02, 0.2, 1, 5, -1 });
		}
		Msg *m = app.write(f, msgLen(), start, finish);
		if(!m) return;
		messages++;
		if(pf.noRtx && s.chance(pf.noRtx, 10)) { m->receipt->retransmit = false; m->noRtx = true; m->reliable = false; }
		if(pf.parents && m->index > 0 && s.chance(pf.parents, 10))
		{
			Msg &q = f->msgs[s.below(m->index)];
			if(q.receipt) { m->receipt->parent = q.receipt; m->parent = q.index; if(!q.reliable) m->reliable = false; }
		}
	}

	void act()
	{
		auto ss = sending(); auto rs = receiving();
		bool canOpen = opened < pf.maxFlows;
		unsigned S = ss.size() ? 1 : 0, R = rs.size() ? 1 : 0;
		switch(s.weighted({ ss.empty() && !canOpen ? 1u : 0u, pf.write * S, canOpen ? pf.open + (ss.empty() ? 20u : 0u) : 0u, pf.close * S, pf.rclose * R, pf.order * R * unsigned(pf.network), pf.window * R, pf.pri * S, pf.faults ? pf.fault : 0, pf.abandon * S, pf.burst * S, pf.endSession * (S | R), pf.tos * S, pf.drop * (S | R) }))
		{
		case 0: break;
		case 1: write(s.pick(ss)); break;
		case 2: openOne(); break;
		case 3: app.close(s.pick(ss)); break;
		case 4: app.close(s.pick(rs), s.chance(1, 2) ? s.sized(1ull << 40) : 0); break;
		case 5: app.setOrder(*s.pick(rs), s.pick<ReceiveOrder>({ RO_SEQUENCE, RO_NETWORK, RO_HOLD })); break;
		case 6:
			{
				RFlow *r = s.pick(rs);
				size_t v = s.pick<size_t>({ 0, 500, 1024, 3000, 10000, 65536, 300000 });
				w.log("%s receiving flow %u: buffer or window %zu", r->ep->simCrypto.name.c_str(), r->uid, v);
				r->ep->enter([&] { if(s.flip()) { r->capChanged = true; r->maxCapacity = std::max(r->maxCapacity, v); r->flow->setBufferCapacity(v); } else r->flow->setWindowLimit(v); });
			}
			break;
		case 7: app.setPriority(s.pick(ss), Priority(s.below(8))); break;
		case 8:
			{
				bool d = s.flip();
				Path &q = d ? w.path(a.get(), b.get()) : w.path(b.get(), a.get());
				if(!pf.lossless && s.chance(1, 3))
				{
					q.up = false;
					double t = s.pick<double>({ 0.05, 0.3, 1, 4, 12 });
					w.log("path from %s down for %g", d ? "alice" : "bob", t);
					w.after(t, [this, d] { (d ? w.path(a.get(), b.get()) : w.path(b.get(), a.get())).up = true; });
				}
				else if(!pf.constantPath) { genPath(q, false); w.log("path from %s: delay %g jitter %g loss %g dup %g late %g", d ? "alice" : "bob", double(q.delay), double(q.jitter), q.loss, q.dup, q.late); }
			}
			break;
		case 9:
			{
				SFlow *f = s.pick(ss);
				if(f->msgs.empty()) break;
				Msg &m = f->msgs[f->msgs.size() - 1 - s.below(std::min<size_t>(f->msgs.size(), 8))];
				if(!m.receipt || m.finished) break;
				m.reliable = false;
				for(auto &c : f->msgs) if(c.parent >= 0 && !f->msgs[c.parent].reliable) c.reliable = false;
				w.log("flow %u message %d: abandon or deadline", f->uid, m.index);
				int k = s.below(3);
				f->ep->enter([&] { if(k == 0) m.receipt->abandon(); else if(k == 1) m.receipt->setFinishWithin(s.below(10) / 10.0); else m.receipt->setStartWithin(s.below(10) / 10.0); });
			}
			break;
		case 10: { SFlow *f = s.pick(ss); for(int n = s.irange(3, 25); n--; ) write(f); } break;
		case 11:
			{
				bool x = ss.size() && (rs.empty() || s.flip());
				if(x) { SFlow *f = s.pick(ss); w.log("%s closes the session of flow %u", f->ep->simCrypto.name.c_str(), f->uid); if(f->key || f->flow->getCongestionWindow()) { ended = true; endedAt = w.now; } f->ep->enter([&] { f->flow->closeSession(); }); }
				else { RFlow *r = s.pick(rs); w.log("%s closes the session of receiving flow %u", r->ep->simCrypto.name.c_str(), r->uid); ended = true; endedAt = w.now; r->ep->enter([&] { r->flow->closeSession(); }); }
			}
			break;
		case 12:
			{
				SFlow *f = s.pick(ss);
				int v = s.below(256);
				if(!f->key) break;
				w.log("%s sets traffic class %d", f->ep->simCrypto.name.c_str(), v);
				f->ep->enter([&] { f->flow->setSessionTrafficClass(v); });
				w.tos[{ f->ep->index, f->key }] = v;
			}
			break;
		case 13:
			if(ss.size() && s.flip()) { SFlow *f = s.pick(ss); w.log("dropping the reference to flow %u", f->uid); f->flow->onWritable = nullptr; dropped.push_back(f->weak); f->flow.reset(); f->closed = false; }
			else if(rs.size()) { RFlow *r = s.pick(rs); w.log("dropping the reference to receiving flow %u", r->uid); r->flow.reset(); }
			break;
		}
	}
	std::vector<std::weak_ptr<SendFlow> > dropped;

	void script()
	{
		int n = s.irange(5, pf.actions);
		for(int i = 0; i < n; i++)
		{
			act();
			if(s.chance(2, 3)) w.run(s.pick<double>({ 0, 0.001, 0.01, 0.05, 0.2, 0.6, 2 }) * pf.horizon / 8);
		}
	}

	void heal()
	{
		w.log("heal");
		for(auto &p : w.paths) { Path q; q.delay = pf.steady ? p.second.delay : std::min<Duration>(p.second.delay, 0.1L); q.fifo = pf.steady; p.second = q; }
		for(auto &r : app.rflows)
			if(r->open())
			{
				r->ep->enter([&] {
					if(r->flow->getBufferCapacity() < 5000) r->flow->setBufferCapacity(65536);
					if(r->flow->getWindowLimit() < 5000) r->flow->setWindowLimit(~size_t(0));
				});
				if(r->flow->getReceiveOrder() == RO_HOLD) app.setOrder(*r, s.flip() ? RO_SEQUENCE : RO_NETWORK);
			}
		// flows announced from now on
		auto prev = app.onAnnounce;
		app.onAnnounce = [this] (RFlow &r) { bool n = pf.network; auto wd = pf.window; pf.network = false; pf.window = 0; decide(r); pf.network = n; pf.window = wd; };
	}

	// what is written on flows nobody ended gets through
	std::string pendingWhy;
	bool pending()
	{
		char t[200];
		for(auto &x : app.sflows)
		{
			SFlow &f = *x.second;
			if(!f.flow && !f.exceptions && !f.closed) continue; // reference dropped
			RFlow *r = f.peer;
			bool gone = f.exceptions || f.closedUnopened || ended || (r && (r->closed || !r->accepted)) || (!r && f.assocOf);
			if(f.exceptions + f.closed == 0 && r && r->closed && f.msgs.size() && f.msgs.back().finished && f.msgs.back().written > r->closedAt + 1 && !f.msgs.back().finAbandoned) { snprintf(t, sizeof t, "flow %u was rejected before its last message but got no exception", f.uid); pendingWhy = t; return true; }
			for(auto &m : f.msgs)
			{
				if(!m.finished) { snprintf(t, sizeof t, "message %d of flow %u (%zu bytes) is neither delivered nor abandoned", m.index, f.uid, m.data.size()); pendingWhy = t; return true; }
				if(gone) continue;
				if(m.reliable && m.finAbandoned) PBT_FAIL("message %d of flow %u was abandoned though it has no deadline", m.index, f.uid);
				if(!m.finAbandoned && !m.delivered) { snprintf(t, sizeof t, "message %d of flow %u (%zu bytes) was not delivered", m.index, f.uid, m.data.size()); pendingWhy = t; return true; }
			}
		}
		return false;
	}

	void quiesce()
	{
		bool ok = w.runWhile([this] { return pending(); }, 900);
		PBT_CHECK(ok, "15 minutes after the network healed: %s", pendingWhy.c_str());
		w.run(90);
		for(auto &x : app.sflows)
		{
			SFlow &f = *x.second;
			if(!f.open()) continue;
			if(f.key || f.msgs.size())
				PBT_CHECK(ended || (f.flow->getBufferedSize() == 0 && f.flow->getOutstandingBytes() == 0), "flow %u is idle but reports %zu bytes buffered and %zu outstanding", f.uid, f.flow->getBufferedSize(), f.flow->getOutstandingBytes());
		}
	}

	void closeAll()
	{
		std::set<SFlow *> mine;
		for(auto *f : sending()) { app.close(f); mine.insert(f); }
		bool ok = w.runWhile([&] {
			for(auto &r : app.rflows)
				if(r->open() && r->from->closed && !ended) { pendingWhy = "receiving flow " + std::to_string(r->uid) + " did not complete after its sender closed"; return true; }
			return false;
		}, 300);
		PBT_CHECK(ok, "%s", pendingWhy.c_str());
		for(auto &r : app.rflows)
			if(r->completes && r->from->closed && !ended && mine.count(r->from)) PBT_CHECK(!r->error, "receiving flow %u completed with error though its sender closed it", r->uid);
	}

	void shutdown()
	{
		bool now = s.chance(1, 3);
		w.log("shutting down%s", now ? " immediately" : "");
		std::vector<Endpoint *> order { a.get(), b.get() };
		if(s.flip()) std::swap(order[0], order[1]);
		bool both = s.flip();
		order[0]->enter([&] { order[0]->rtmfp->shutdown(now); });
		if(!both) w.run(s.below(30));
		order[1]->enter([&] { order[1]->rtmfp->shutdown(now); });
		bool ok = w.runWhile([&] { return !order[0]->shutdownComplete || !order[1]->shutdownComplete; }, 200);
		PBT_CHECK(ok, "shutdown did not complete");
		w.run(300);
		for(auto *e : order) PBT_CHECK(e->shutdownComplete == 1, "shutdown completion reported %d times", e->shutdownComplete);
		for(auto &x : app.sflows) if(x.second->flow && !x.second->closed) PBT_CHECK(x.second->exceptions == 1, "flow %u got %d exceptions by the end of its endpoint", x.second->uid, x.second->exceptions);
		for(auto &r : app.rflows) if(r->flow && r->accepted && !r->closed) PBT_CHECK(r->completes == 1, "receiving flow %u completed %d times by the end of its endpoint", r->uid, r->completes);
		for(auto &x : app.sflows) for(auto &m : x.second->msgs) PBT_CHECK(m.finished == 1, "message %d of flow %u finished %d times by the end of its endpoint", m.index, x.second->uid, m.finished);
		for(auto *e : order)
		{
			std::shared_ptr<SendFlow> f;
			e->enter([&] { f = e->rtmfp->openFlow(canonicalEPD("x"), Bytes(3)); });
			PBT_CHECK(!f, "openFlow succeeded after shutdown");
		}
	}

	void destroy()
	{
		app.dropAll();
		for(auto *e : { a.get(), b.get() }) e->destroy();
		w.events.clear();
		for(auto &x : app.sflows) { PBT_CHECK(x.second->weak.expired(), "flow %u was never freed", x.second->uid); for(auto &m : x.second->msgs) PBT_CHECK(m.weak.expired(), "receipt of message %d of flow %u was never freed", m.index, x.second->uid); }
		for(auto &r : app.rflows) PBT_CHECK(r->weak.expired(), "receiving flow %u was never freed", r->uid);
		for(auto *e : { a.get(), b.get() }) PBT_CHECK(e->simCrypto.keysAlive == 0, "%ld session keys of %s were never freed", e->simCrypto.keysAlive, e->simCrypto.name.c_str());
	}

	void labels()
	{
		mon.labels();
		s.label("messages", messages);
		s.label("flows", app.sflows.size());
		s.label("packets", w.packets);
		if(messages > 3 && mon.dataPackets > 5) s.nontrivial();
	}

	void run()
	{
		setup();
		script();
		heal();
		quiesce();
		mon.finish();
		if(pf.closeAtEnd) closeAll();
		if(pf.shutdownAtEnd) { shutdown(); destroy(); }
		labels();
	}
};

} // namespace sim
