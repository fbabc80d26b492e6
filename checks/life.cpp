// P07: sessions and endpoints end in every way and everyone is told once. P17: anything may be called from any callback.
#include "net.hpp"
using namespace sim;
using pbt::Register;

namespace {

struct LifeCfg {
	bool inside { false };      // actions from callbacks
	bool lossy { true };
	unsigned closeSession { 2 }, shutdown { 1 }, writes { 12 }, opens { 6 }, closes { 3 }, receipts { 3 }, tune { 2 }, moves { 0 };
	int eps { 2 }, actions { 60 };
	bool blackout { false };    // paths may go down for good
	size_t maxMessage { 4000 };
};

const double KEEPALIVE = 10, LIMIT = 20, BOUND = 150;

struct Life : Net {
	LifeCfg c;
	int depth { 0 }, budget { 400 };
	unsigned long calls { 0 }, insideCalls { 0 }, sessionsClosed { 0 }, shutdowns { 0 }, moves { 0 }, exceptions { 0 };
	bool over { false };
	std::set<Endpoint *> down;                  // shutdown called
	std::map<SFlow *, Bytes> sessS;             // session each flow was seen in
	std::map<RFlow *, Bytes> sessR;
	struct End { Time at; Endpoint *by; };
	std::map<Bytes, End> ended;                 // first end seen at either side

	static Bytes sess(Flow *f) { Bytes a = f->getNearNonce(), b = f->getFarNonce(); if(a.empty()) return a; if(b < a) std::swap(a, b); a.insert(a.end(), b.begin(), b.end()); return a; }

	Life(Src &s_, const LifeCfg &c_) : Net(s_), c(c_)
	{
		if(c.inside)
		{
			app.onAnyMessage = [this] (RFlow &r, const Delivery &) { inside(r.ep, 3); };
			app.onAnyFinished = [this] (SFlow &f, Msg &, bool) { inside(f.ep, 3); };
			app.onAnyMerge = [this] (RFlow &r) { inside(r.ep, 2); };
			app.onAnyAddrChange = [this] (Endpoint *e) { inside(e, 1); };
		}
		app.onAnnounce = [this] (RFlow &r) { announced(r); };
		w.onSend.push_back([this] (Pkt &p) {
			if(p.from->shutdownComplete && p.known) PBT_CHECK(p.dec.mode() == 3, "%s sends a session packet after it reported shutdown completion", p.from->simCrypto.name.c_str());
		});
	}

	void announced(RFlow &r)
	{
		PBT_CHECK(!r.ep->shutdownComplete, "a flow was announced at %s after its shutdown completed", r.ep->simCrypto.name.c_str());
		RFlow *p = &r;
		if(c.inside && s.chance(1, 6)) inside(r.ep, 1);
		if(!p->closed && !s.chance(1, 12)) app.accept(r, s.pick<ReceiveOrder>({ RO_SEQUENCE, RO_SEQUENCE, RO_NETWORK }));
		if(c.inside)
		{
			r.onComplete = [this, p] (bool) { inside(p->ep, 2); };
			inside(r.ep, 2);
		}
	}
	void adopt(SFlow *f)
	{
		if(!f) return;
		f->onRecvFlow = [this] (RFlow &r) { announced(r); };
		if(!c.inside) return;
		f->onException = [this, f] (uintmax_t) { inside(f->ep, 2); };
		f->onWritable = [this, f] { inside(f->ep, 2); if(f->open() && s.chance(1, 2)) app.write(f, s.below(2000)); return f->open() && budget > 0 && s.flip(); };
	}

	void inside(Endpoint *e, unsigned oneIn)
	{
		if(depth >= 3 || budget <= 0 || over) return;
		if(!s.chance(1, oneIn)) return;
		depth++;
		for(int n = s.chance(1, 4) ? 2 : 1; n--; ) { insideCalls++; budget--; w.log("[in a callback"); act(e, true); w.log("]"); }
		depth--;
	}

	std::vector<RFlow *> anyR(Endpoint *e) { std::vector<RFlow *> v; for(auto &x : app.rflows) if(x->flow && x->ep == e) v.push_back(x.get()); return v; }
	std::vector<SFlow *> anyS(Endpoint *e) { std::vector<SFlow *> v; for(auto &x : app.sflows) if(x.second->flow && x.second->ep == e) v.push_back(x.second.get()); return v; }

	// after closing a session, everything of this endpoint in it has been told
	void closeSession(Endpoint *e, Flow *f, bool top)
	{
		Bytes id = sess(f);
		w.log("%s closes the session of a flow", e->simCrypto.name.c_str());
		std::vector<SFlow *> sv; std::vector<RFlow *> rv;
		if(id.size())
		{
			for(auto *x : anyS(e)) if(x->open() && sess(x->flow.get()) == id) sv.push_back(x);
			for(auto *x : anyR(e)) if(x->open() && sess(x->flow.get()) == id) rv.push_back(x);
			sessionsClosed++;
		}
		e->enter([&] { f->closeSession(); });
		if(!top || id.empty()) return;
		for(auto *x : sv) PBT_CHECK(x->closed || x->exceptions == 1, "flow %u got %d exceptions when its session was closed", x->uid, x->exceptions);
		for(auto *x : rv) PBT_CHECK(x->closed || (x->completes == 1), "receiving flow %u completed %d times when its session was closed", x->uid, x->completes);
		if(!ended.count(id)) ended[id] = End { w.now, e };
	}

	void act(Endpoint *e, bool in)
	{
		calls++;
		auto ss = sending(e); auto rr = receiving(e);
		unsigned opens = app.sflows.size() < 24 ? c.opens : 0;
		switch(s.weighted({ c.writes, opens, c.closes, c.closes, c.receipts, c.tune, c.tune, c.closeSession, c.shutdown, 1, 1, 1 }))
		{
		case 0: if(ss.size()) { SFlow *f = s.pick(ss); bool d = s.chance(1, 5); Msg *m = app.write(f, s.len(c.maxMessage), d && s.flip() ? s.pick<double>({ 0, 0.05, 1 }) : INFINITY, d ? s.pick<double>({ 0, 0.1, 1 }) : INFINITY); if(m && m->receipt && s.chance(1, 8)) { m->receipt->retransmit = false; m->noRtx = true; m->reliable = false; } } break;
		case 1:
		{
			size_t before = app.sflows.size();
			switch(s.weighted({ 3, 2, 2 }))
			{
			case 0:
			{
				std::vector<Endpoint *> o;
				for(auto &x : eps) if(x.get() != e) o.push_back(x.get());
				Endpoint *to = s.pick(o);
				bool isDown = down.count(e);
				SFlow *f = app.open(e, to->epd(), Priority(s.below(8)));
				PBT_CHECK(bool(f) == !isDown, "opening a flow from an endpoint %s answered %s", isDown ? "that was shut down" : "in service", f ? "a flow" : "nothing");
				if(f) { e->enter([&] { f->flow->addCandidateAddress(to->addr(1)); }); adopt(f); }
				break;
			}
			case 1: { auto v = anyR(e); if(v.size()) adopt(app.openOn(s.pick(v), Priority(s.below(8)))); } break;
			default: { auto v = anyS(e); if(v.size()) adopt(app.openOn(s.pick(v), Priority(s.below(8)))); } break;
			}
			if(app.sflows.size() > before) { SFlow *f = app.sflows.rbegin()->second.get(); if(s.chance(2, 3) && f->open()) app.write(f, s.len(c.maxMessage)); if(s.flip()) e->enter([&] { f->flow->notifyWhenWritable(); }); }
			break;
		}
		case 2: if(ss.size()) app.close(s.pick(ss)); break;
		case 3: if(rr.size()) app.close(s.pick(rr), s.below(9)); break;
		case 4: // receipts
			if(ss.size())
			{
				SFlow *f = s.pick(ss);
				if(f->msgs.empty()) break;
				Msg &m = f->msgs[s.below(f->msgs.size())];
				if(!m.receipt) break;
				int k = s.below(4);
				w.log("receipt of message %d of flow %u: %d", m.index, f->uid, k);
				if(k != 3) m.reliable = false;
				e->enter([&] {
					switch(k)
					{
					case 0: { auto receipt = m.receipt; receipt->abandon(); break; } // the callback may let go of it
					case 1: m.receipt->finishBy = w.now + s.pick<double>({ -1, 0, 0.1 }); break;
					case 2: m.receipt->retransmit = false; break;
					default: m.receipt.reset(); break;
					}
				});
			}
			break;
		case 5: // receiving
			if(rr.size())
			{
				RFlow *r = s.pick(rr);
				switch(s.below(3))
				{
				case 0: app.setOrder(*r, s.pick<ReceiveOrder>({ RO_SEQUENCE, RO_NETWORK, RO_HOLD })); break;
				case 1: e->enter([&] { r->flow->setBufferCapacity(s.pick<size_t>({ 0, 1000, 5000, 65536 })); }); break;
				default: e->enter([&] { r->flow->setWindowLimit(s.pick<size_t>({ 0, 1000, 5000, 1000000 })); }); break;
				}
			}
			break;
		case 6: // sending
			if(ss.size())
			{
				SFlow *f = s.pick(ss);
				switch(s.below(3))
				{
				case 0: app.setPriority(f, Priority(s.below(8))); break;
				case 1: e->enter([&] { f->flow->setBufferCapacity(s.pick<size_t>({ 0, 1000, 65536 })); }); break;
				default: e->enter([&] { f->flow->notifyWhenWritable(); }); break;
				}
			}
			break;
		case 7:
			if(s.chance(1, 2))
			{
				if(s.flip()) { auto v = anyS(e); if(v.size()) { auto f = s.pick(v)->flow; closeSession(e, f.get(), !in); } }
				else { auto v = anyR(e); if(v.size()) { auto f = s.pick(v)->flow; closeSession(e, f.get(), !in); } }
			}
			break;
		case 8:
			if(s.chance(1, 4))
			{
				bool now = s.flip();
				w.log("%s is shut down%s", e->simCrypto.name.c_str(), now ? " immediately" : "");
				shutdowns++;
				if(!down.count(e)) { shutAt[e] = w.now; orderly[e] = !now; }
				else if(now) { orderly[e] = false; shutAt[e] = w.now; }
				down.insert(e);
				e->enter([&] { e->rtmfp->shutdown(now); });
			}
			break;
		case 9: { auto v = anyS(e); if(v.size()) { auto f = s.pick(v)->flow; e->enter([&] { f->setSessionTrafficClass(int(s.below(256))); f->setSessionKeepalivePeriod(KEEPALIVE); f->setSessionIdleLimit(60); f->setSessionRetransmitLimit(LIMIT); f->forwardIHello("x", 1, ip(99, 9), "tag", 3); }); } } break;
		case 10: // let go of an ended flow
		{
			auto v = anyS(e);
			for(auto i = v.begin(); i != v.end(); ) if(!(*i)->open()) ++i; else i = v.erase(i);
			if(v.size()) { SFlow *f = s.pick(v); w.log("flow %u is let go", f->uid); e->enter([&] { f->flow.reset(); }); }
			break;
		}
		default:
		{
			auto v = anyR(e);
			for(auto i = v.begin(); i != v.end(); ) if(!(*i)->open() && ((*i)->closed || (*i)->completes)) ++i; else i = v.erase(i);
			if(v.size()) { RFlow *r = s.pick(v); w.log("receiving flow %u is let go", r->uid); e->enter([&] { r->flow.reset(); }); }
			break;
		}
		}
	}

	std::map<Endpoint *, Time> shutAt;
	std::map<Endpoint *, bool> orderly;

	// who is in which session, and what has ended
	void verify()
	{
		for(auto &x : app.sflows) { SFlow *f = x.second.get(); if(f->flow && !sessS.count(f)) { Bytes id = sess(f->flow.get()); if(id.size()) sessS[f] = id; } }
		for(auto &x : app.rflows) if(x->flow && !sessR.count(x.get())) { Bytes id = sess(x->flow.get()); if(id.size()) sessR[x.get()] = id; }
		for(auto &x : sessS) if(ended.count(x.second) && w.now > ended[x.second].at + BOUND)
			PBT_CHECK(!x.first->open(), "flow %u is still open %.0f seconds after %s ended its session", x.first->uid, double(w.now - ended[x.second].at), ended[x.second].by->simCrypto.name.c_str());
		for(auto &x : sessR) if(ended.count(x.second) && w.now > ended[x.second].at + BOUND)
			PBT_CHECK(!x.first->open(), "receiving flow %u is still open %.0f seconds after %s ended its session", x.first->uid, double(w.now - ended[x.second].at), ended[x.second].by->simCrypto.name.c_str());
		for(auto &x : app.rflows) if(x->completes && x->error && sessR.count(x.get()) && !ended.count(sessR[x.get()])) { /* its sender may have failed; not a session's end */ }
		for(auto &x : shutAt)
		{
			Endpoint *e = x.first;
			double limit = orderly[e] ? 100 : 5;
			if(!e->shutdownComplete) PBT_CHECK(w.now < x.second + limit, "%s has not completed its %s shutdown after %.0f seconds", e->simCrypto.name.c_str(), orderly[e] ? "orderly" : "immediate", double(w.now - x.second));
			else
			{
				PBT_CHECK(e->shutdownComplete == 1, "%s reported shutdown completion %d times", e->simCrypto.name.c_str(), e->shutdownComplete);
				for(auto *f : sending(e)) PBT_FAIL("flow %u is open after the shutdown of its endpoint completed", f->uid);
				for(auto *r : receiving(e)) PBT_FAIL("receiving flow %u is open after the shutdown of its endpoint completed", r->uid);
			}
		}
		for(auto &e : eps) if(!down.count(e.get())) PBT_CHECK(!e->shutdownComplete, "%s reported shutdown completion but was not shut down", e->simCrypto.name.c_str());
		for(auto &x : app.sflows) if(x.second->exceptions || x.second->closed) if(x.second->flow) PBT_CHECK(!x.second->flow->isOpen() && !x.second->flow->isWritable(), "flow %u says it is open after it ended", x.second->uid);
		for(auto &x : app.rflows) if(x->completes || x->closed) if(x->flow) PBT_CHECK(!x->flow->isOpen(), "receiving flow %u says it is open after it ended", x->uid);
	}

	void go()
	{
		static const char *names[] = { "alice", "bob", "carol" };
		for(int i = 0; i < c.eps; i++)
		{
			Endpoint *e = add(names[i]);
			e->simCrypto.txMargin = s.below(17);
			if(s.chance(1, 4)) e->threadDelay = s.pick<double>({ 0.01, 0.3 });
			e->enter([&] { e->rtmfp->setDefaultSessionKeepalivePeriod(KEEPALIVE); e->rtmfp->setDefaultSessionRetransmitLimit(LIMIT); e->rtmfp->setDefaultSessionIdleLimit(60); });
		}
		bool faulty = s.chance(1, 2);
		if(faulty) faults(c.lossy);
		int n = s.irange(8, c.actions);
		for(int i = 0; i < n; i++)
		{
			Endpoint *e = eps[s.below(eps.size())].get();
			act(e, false);
			verify();
			if(c.blackout && s.chance(1, 20)) { faults(c.lossy); if(s.flip()) for(auto &p : w.paths) if(s.flip()) p.second.up = false; w.log("paths change"); }
			if(c.moves && s.chance(c.moves, 30)) { moves++; e->staleAddrs.insert(e->ifaces[1]); e->ifaces[1] = ip(100 + int(moves), 1); w.log("%s moves to %s", e->simCrypto.name.c_str(), e->ifaces[1].toPresentation().c_str()); }
			if(s.flip()) w.run(s.pick<double>({ 0, 0.001, 0.01, 0.03, 0.1, 0.5, 2, 10 }));
			verify();
		}
		over = true;
		bool healed = !c.blackout || s.flip();
		if(healed) heal();
		for(auto &e : eps) for(auto *r : receiving(e.get()))
		{
			app.setOrder(*r, RO_SEQUENCE);
			e->enter([&] { r->flow->setBufferCapacity(65536); r->flow->setWindowLimit(1000000); });
		}
		for(int i = 0; i < 4; i++) { w.run(BOUND / 3); verify(); }
		unsigned long open = 0;
		if(healed)
			for(auto &e : eps) for(auto *f : sending(e.get()))
			{
				open++;
				// an endpoint that opens to one that was shut down is told after the opening times out
				PBT_CHECK(bound(f), "flow %u has neither a session nor an exception", f->uid);
				for(auto &m : f->msgs) PBT_CHECK(m.finished || !m.reliable, "message %d of flow %u, which is open, never finished", m.index, f->uid);
				bool refused = false; // its sender is told when it next sends something
				for(auto &r : app.rflows) if(r->uid == f->uid && r->closed) refused = true;
				if(!refused && !app.reliableComplete(*f)) PBT_FAIL("flow %u is open but not all its messages were delivered", f->uid);
			}
		if(healed)
			for(auto &e : eps) for(auto *r : receiving(e.get()))
				if(r->from && r->from->closed) PBT_FAIL("receiving flow %u was never told that its sender closed it %.0f seconds ago", r->uid, double(w.now - r->from->closedAt));
		for(auto &x : app.sflows) if(x.second->exceptions) { exceptions++; for(auto &m : x.second->msgs) PBT_CHECK(m.finished == 1, "message %d of flow %u finished %d times though the flow failed", m.index, x.second->uid, m.finished); }
		for(auto &e : eps) if(!down.count(e.get())) down.insert(e.get());
		shutdownAll();
		for(auto &e : eps)
		{
			PBT_CHECK(!app.open(e.get(), canonicalEPD("alice")), "a flow was opened on an endpoint that was shut down");
			for(auto *f : anyS(e.get())) PBT_CHECK(!app.openOn(f), "a flow was opened beside another after shutdown");
			for(auto *r : anyR(e.get())) PBT_CHECK(!app.openOn(r), "a return flow was opened after shutdown");
		}
		destroy();
		s.label("calls", calls);
		s.label("calls from callbacks", insideCalls);
		s.label("sessions closed", sessionsClosed);
		s.label("shutdowns", shutdowns);
		s.label("moves", moves);
		s.label("exceptions", exceptions);
		s.label("flows open at the end", open);
		unsigned long got = 0;
		for(auto &r : app.rflows) got += r->got.size();
		s.label("messages delivered", got);
		if(got && (c.inside ? insideCalls > 3 : sessionsClosed + shutdowns > 0)) s.nontrivial();
	}
};

void run(Src &s, const LifeCfg &c) { Life l(s, c); l.go(); }

void ends(Src &s) { LifeCfg c; c.closeSession = 4; c.shutdown = 2; c.eps = s.irange(2, 3); run(s, c); }
void clean(Src &s) { LifeCfg c; c.closeSession = 4; c.shutdown = 2; c.lossy = false; run(s, c); }
void dark(Src &s) { LifeCfg c; c.closeSession = 3; c.shutdown = 2; c.blackout = true; c.eps = s.irange(2, 3); run(s, c); }
Register r7({"P07", "histories of 2 or 3 endpoints with flows opened in every way, written, closed and rejected, whose sessions are closed from either flow end and whose endpoints are shut down in order or immediately, over lossy, delayed and dying paths; notifications, their times, shutdown completion, refusal of later flows and release of everything judged; non-trivial: a message delivered and a session closed or endpoint shut down", {
	{"histories", ends, 16000, 250000},
	{"lossless", clean, 8000, 150000},
	{"dying paths", dark, 10000, 150000},
}, { "keepalive period 10 s and retransmit limit 20 s; the other end must know within 150 s", "a keying request arriving after a session with that peer has opened is lost", "virtual clock, simulated crypto" }});

void calls(Src &s) { LifeCfg c; c.inside = true; c.closeSession = 1; c.shutdown = 1; c.eps = s.irange(2, 3); run(s, c); }
void receipts(Src &s) { LifeCfg c; c.inside = true; c.closeSession = 1; c.shutdown = 0; c.receipts = 8; c.closes = 4; c.maxMessage = 12000; run(s, c); }
void moving(Src &s) { LifeCfg c; c.inside = true; c.closeSession = 1; c.shutdown = 0; c.moves = 4; c.lossy = false; run(s, c); }
void gentle(Src &s) { LifeCfg c; c.inside = true; c.closeSession = 0; c.shutdown = 0; c.closes = 2; c.maxMessage = 9000; run(s, c); }
Register r17({"P17", "as P07, with calls made from inside message, announcement, writable, completion, exception, receipt, merge and address change callbacks, up to three deep; sanitizers, state of the running callback, notification counts, delivery on surviving flows and release of everything judged; non-trivial: a message delivered and more than 3 calls from callbacks", {
	{"histories", calls, 7000, 300000},
	{"receipts", receipts, 5000, 200000},
	{"moving", moving, 4000, 150000},
	{"surviving", gentle, 4000, 150000},
}, { "the application calls the library from its own thread only", "virtual clock, simulated crypto" }});

} // namespace
