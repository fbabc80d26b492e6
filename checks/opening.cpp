// P06: sessions open to the right peer, once, despite loss, glare, wrong candidates and redirects.
#include "net.hpp"
using namespace sim;
using pbt::Register;

namespace {

struct OpenCfg { bool glare, redirect, impostor, wrong, multihomed, lossy; int eps, flows; };

struct Opening : Net {
	OpenCfg c;
	std::map<Endpoint *, std::vector<Address> > redirectTo; // what a redirector answers
	std::vector<Endpoint *> honest;
	std::set<std::string> impostors;
	struct Want { SFlow *f; bool reachable; bool written; Time at; };
	std::vector<Want> wants;
	std::map<std::pair<SimCrypto *, SimCrypto *>, std::set<uint64_t> > dataKeys;
	unsigned long glares { 0 }, redirects { 0 }, exceptions { 0 }, delivered { 0 }, wrongHello { 0 };

	Opening(Src &s_, const OpenCfg &c_) : Net(s_), c(c_)
	{
		w.onSend.push_back([this] (Pkt &p) {
			if(!p.known) return;
			if(p.dec.mode() == 3) return;
			auto it = w.keyEnds.find(p.key);
			PBT_CHECK(it != w.keyEnds.end() && (it->second.i == &p.from->simCrypto || it->second.r == &p.from->simCrypto), "a session packet was encrypted with a key nobody agreed");
			PBT_CHECK(p.dec.mode() == (it->second.i == &p.from->simCrypto ? 1 : 2), "a session packet of the %s carries mode %d", it->second.i == &p.from->simCrypto ? "initiator" : "responder", p.dec.mode());
			for(auto &ch : p.dec.chunks)
				if(ch.isData())
				{
					SimCrypto *o = w.otherEnd(p.key, &p.from->simCrypto);
					PBT_CHECK(o, "data sent in a session with nobody");
					PBT_CHECK(!impostors.count(o->name) || w.keyEnds[p.key].i == o, "data sent to an impostor");
					if(ch.hasMeta && ch.metadata.size() >= 4)
					{
						auto f = app.sflows.find(ch.metadata[2] * 256 + ch.metadata[3]);
						if(f != app.sflows.end() && f->second->epd.size()) PBT_CHECK(selects(f->second->epd, o->name, o->group), "flow %u opened to '%s' sends data to %s", f->second->uid, std::string(f->second->epd.begin(), f->second->epd.end()).c_str(), o->name.c_str());
					}
					auto a = &p.from->simCrypto;
					dataKeys[{ std::min(a, o), std::max(a, o) }].insert(p.key);
				}
		});
	}

	void verify(SFlow *f)
	{
		if(!f->flow || f->closed || f->exceptions || !bound(f)) return;
		Bytes epd = f->flow->getFarCanonicalEPD(), cert = f->flow->getFarCertificate();
		std::string n(epd.begin() + (epd.size() ? 1 : 0), epd.end());
		Endpoint *e = named(n);
		PBT_CHECK(e, "flow %u is bound to a session with '%s'", f->uid, n.c_str());
		PBT_CHECK(f->epd.empty() || selects(f->epd, n, e->simCrypto.group), "flow %u opened to '%s' is bound to a session with %s", f->uid, std::string(f->epd.begin(), f->epd.end()).c_str(), n.c_str());
		PBT_CHECK(cert == encodeCert(n, e->simCrypto.group), "the far certificate of flow %u is not that of %s", f->uid, n.c_str());
		if(RFlow *r = f->peer)
			if(r->flow && !r->completes && !r->closed)
			{
				PBT_CHECK(r->ep == e, "flow %u bound to %s was announced at %s", f->uid, n.c_str(), r->ep->simCrypto.name.c_str());
				PBT_CHECK(f->flow->getNearNonce().size() && f->flow->getNearNonce() == r->flow->getFarNonce() && f->flow->getFarNonce() == r->flow->getNearNonce(), "the ends of flow %u disagree about the session's nonces", f->uid);
				Bytes back = r->flow->getFarCanonicalEPD();
				PBT_CHECK(back == f->ep->epd(), "%s believes flow %u comes from '%s'", n.c_str(), f->uid, std::string(back.begin(), back.end()).c_str());
			}
	}
	void verifyAll() { for(auto &x : app.sflows) verify(x.second.get()); }

	Bytes genEPD(Endpoint *from, Endpoint *&to)
	{
		to = nullptr;
		if(c.wrong && s.chance(1, 8)) return s.flip() ? canonicalEPD("nobody") : groupEPD("nogroup");
		std::vector<Endpoint *> o;
		for(auto *e : honest) if(e != from) o.push_back(e);
		to = s.pick(o);
		if(to->simCrypto.group.size() && from->simCrypto.group != to->simCrypto.group && s.chance(2, 5)) return groupEPD(to->simCrypto.group);
		return to->epd();
	}

	void open(Endpoint *from)
	{
		Endpoint *to;
		Bytes epd = genEPD(from, to);
		SFlow *f = app.open(from, epd, Priority(s.below(8)));
		PBT_CHECK(f, "openFlow answered nothing");
		Want wnt { f, false, false, w.now };
		std::vector<std::pair<Address, double> > cands;
		auto when = [&] { return s.chance(1, 3) ? s.pick<double>({ 0.01, 0.5, 2, 6 }) : 0.0; };
		Endpoint *red = nullptr;
		for(auto &x : redirectTo) red = x.first;
		if(to)
		{
			bool direct = !c.redirect || !red || red == from || s.flip();
			if(direct && !(c.wrong && s.chance(1, 12))) { cands.push_back({ s.pick<Address>({ to->addr(1), to->addr(int(to->ifaces.size())) }), when() }); wnt.reachable = true; }
			else if(c.redirect && red && red != from)
			{
				cands.push_back({ red->addr(1), when() });
				if(red == to || selects(epd, red->simCrypto.name, red->simCrypto.group)) wnt.reachable = true;
				else for(auto &a : redirectTo[red]) if(a == to->addr(1)) wnt.reachable = true;
				// the redirector's other addresses may reach another member of the group: still right
			}
		}
		if(c.wrong)
			for(int n = s.below(4); n--; )
				switch(s.below(3))
				{
				case 0: cands.push_back({ ip(200 + int(s.below(5)), 1), when() }); break; // nobody there
				default: { Endpoint *e = eps[s.below(eps.size())].get(); if(e != from) cands.push_back({ e->addr(1), when() }); } break;
				}
		if(c.impostor) for(auto &e : eps) if(impostors.count(e->simCrypto.name) && s.flip()) cands.push_back({ e->addr(1), when() });
		for(size_t i = cands.size(); i > 1; i--) std::swap(cands[i - 1], cands[s.below(i)]);
		from->enter([&] { for(auto &x : cands) { w.log("  candidate %s after %g", x.first.toPresentation().c_str(), x.second); f->flow->addCandidateAddress(x.first, x.second); } });
		if(s.chance(3, 4)) { wnt.written = true; for(int n = s.irange(1, 3); n--; ) app.write(f, s.below(3000)); }
		f->onWritable = [this, f] { verify(f); return false; };
		if(s.flip()) from->enter([&] { f->flow->notifyWhenWritable(); });
		wants.push_back(wnt);
	}

	void go()
	{
		static const char *names[] = { "alice", "bob", "carol", "dave", "erin" };
		static const char *groups[] = { "", "red", "red", "blue", "" };
		int rot = s.below(5);
		for(int i = 0; i < c.eps; i++) honest.push_back(add(names[(i + rot) % 5], groups[s.below(5)], c.multihomed ? s.irange(1, 2) : 1));
		for(auto *e : honest)
		{
			if(s.chance(1, 3)) e->simCrypto.asyncDelay = s.pick<double>({ 0.001, 0.3 });
			if(s.chance(1, 3)) e->threadDelay = s.pick<double>({ 0.001, 0.3 });
		}
		if(c.impostor)
		{
			// shows somebody's certificate that is not authentic, or its own for any discriminator
			Endpoint *m = add("mallory");
			m->simCrypto.selectAll = true;
			if(s.flip()) m->simCrypto.certOverride = encodeCert(s.pick(honest)->simCrypto.name, "", false);
			impostors.insert("mallory");
		}
		if(c.redirect)
		{
			Endpoint *r = s.flip() ? add("router") : s.pick(honest);
			std::vector<Address> l;
			for(auto *e : honest) if(s.chance(4, 5)) l.push_back(e->addr(1));
			for(int n = s.below(3); n--; ) l.push_back(ip(210 + n, 1));
			for(size_t i = l.size(); i > 1; i--) std::swap(l[i - 1], l[s.below(i)]);
			redirectTo[r] = l;
			r->rtmfp->onUnmatchedIHello = [this, r, l] (const void *epd, size_t, const void *tag, size_t tagLen, int ifc, const struct sockaddr *addr) { redirects++; r->rtmfp->sendResponderRedirect(tag, tagLen, l, ifc, addr); };
		}
		faults(c.lossy);
		app.onAnnounce = [this] (RFlow &r) {
			PBT_CHECK(r.from->epd.empty() || selects(r.from->epd, r.ep->simCrypto.name, r.ep->simCrypto.group), "flow %u opened to '%s' was announced at %s", r.from->uid, std::string(r.from->epd.begin(), r.from->epd.end()).c_str(), r.ep->simCrypto.name.c_str());
			app.accept(r);
			verify(r.from);
		};
		int n = s.irange(1, c.flows);
		Endpoint *opener = s.pick(honest);
		std::vector<Endpoint *> openers { opener };
		if(c.glare) openers = honest;
		Time t0 = w.now;
		while(w.now < t0 + 15)
		{
			if(n > 0) { open(s.pick(openers)); n--; }
			else if(s.chance(1, 6)) { auto v = sending(); if(v.size()) { SFlow *f = s.pick(v); app.close(f); } }
			else if(s.chance(1, 3)) { auto v = sending(); if(v.size()) { SFlow *f = s.pick(v); app.write(f, s.below(2500)); for(auto &x : wants) if(x.f == f) x.written = true; } }
			else if(n <= 0 && s.chance(1, 2)) break;
			verifyAll();
			w.run(s.pick<double>({ 0, 0, 0.001, 0.02, 0.1, 0.5, 1, 3 }));
		}
		verifyAll();
		w.run(s.below(4));
		heal();
		auto why = std::string();
		bool ok = w.runWhile([&] {
			for(auto &x : wants)
			{
				if(x.f->closed || x.f->closedUnopened) continue;
				if(!x.reachable) continue;
				PBT_CHECK(!x.f->exceptions, "flow %u to '%s', whose peer is reachable, got an exception %.1f seconds after it was opened", x.f->uid, std::string(x.f->epd.begin(), x.f->epd.end()).c_str(), double(x.f->exceptionAt - x.at));
				if(!bound(x.f)) { why = "flow " + std::to_string(x.f->uid) + " has no session"; return true; }
				if(x.written && !app.reliableComplete(*x.f)) { why = "what was written to flow " + std::to_string(x.f->uid) + " was not delivered"; return true; }
			}
			return false;
		}, 75);
		PBT_CHECK(ok, "75 seconds after the network healed: %s", why.c_str());
		verifyAll();
		w.run(110);
		verifyAll();
		std::map<std::pair<Endpoint *, Endpoint *>, std::set<Bytes> > sessions;
		for(auto &x : wants)
		{
			if(x.f->closed) continue;
			if(!bound(x.f)) { PBT_CHECK(x.f->exceptions, "flow %u to an unreachable peer got no exception", x.f->uid); exceptions++; continue; }
			if(x.f->exceptions) { exceptions++; continue; }
			PBT_CHECK(app.reliableComplete(*x.f), "what was written to flow %u, which is open, was not delivered", x.f->uid);
			Bytes e = x.f->flow->getFarCanonicalEPD();
			Endpoint *peer = named(std::string(e.begin() + 1, e.end()));
			auto k = std::minmax(x.f->ep, peer);
			Bytes a = x.f->flow->getNearNonce(), b = x.f->flow->getFarNonce();
			if(b < a) std::swap(a, b);
			a.insert(a.end(), b.begin(), b.end());
			sessions[{ k.first, k.second }].insert(a);
			delivered++;
		}
		for(auto &p : sessions)
			PBT_CHECK(p.second.size() == 1, "%zu sessions between %s and %s carry open flows", p.second.size(), p.first.first->simCrypto.name.c_str(), p.first.second->simCrypto.name.c_str());
		for(auto &p : dataKeys)
			PBT_CHECK(p.second.size() == 1, "data went through %zu sessions between %s and %s", p.second.size(), p.first.first->name.c_str(), p.first.second->name.c_str());
		// flows opened now use the same session
		for(auto &p : sessions)
		{
			Endpoint *a = p.first.first, *b = p.first.second;
			if(s.flip()) std::swap(a, b);
			SFlow *f = app.open(a, b->epd());
			PBT_CHECK(f && bound(f), "a flow to %s, with which %s has an open session, is not bound to it", b->simCrypto.name.c_str(), a->simCrypto.name.c_str());
			Bytes x = f->flow->getNearNonce(), y = f->flow->getFarNonce();
			if(y < x) std::swap(x, y);
			x.insert(x.end(), y.begin(), y.end());
			PBT_CHECK(x == *p.second.begin(), "a later flow from %s to %s uses another session", a->simCrypto.name.c_str(), b->simCrypto.name.c_str());
			app.write(f, s.below(500));
			if(b->simCrypto.group.size() && s.flip())
			{
				SFlow *g = app.open(a, groupEPD(b->simCrypto.group));
				a->enter([&] { g->flow->addCandidateAddress(b->addr(1)); });
				w.run(3);
				PBT_CHECK(bound(g), "a flow to the group of %s was not bound within 3 seconds", b->simCrypto.name.c_str());
				if(g->flow->getFarCanonicalEPD() == f->flow->getFarCanonicalEPD()) PBT_CHECK(g->flow->getNearNonce() == f->flow->getNearNonce(), "a flow to the group of %s uses another session", b->simCrypto.name.c_str());
			}
		}
		w.run(3);
		verifyAll();
		shutdownAll();
		destroy();
		std::set<std::pair<std::string, std::string> > dirs;
		s.label("flows", wants.size());
		s.label("bound", delivered);
		s.label("unreachable", exceptions);
		s.label("redirects", redirects);
		s.label("late keying requests lost", lateKeying);
		s.label("pairs", sessions.size());
		if(sessions.size() && wants.size() > 1) s.nontrivial();
	}
};

void run(Src &s, OpenCfg c) { Opening o(s, c); o.go(); }
//                                glare  redir  impos  wrong  multi  lossy eps flows
void pair(Src &s)  { run(s, OpenCfg { true, false, false, false, false, true, 2, 5 }); }
void many(Src &s)  { run(s, OpenCfg { true, false, false, true, false, true, s.irange(3, 4), 8 }); }
void intro(Src &s) { run(s, OpenCfg { true, true, false, true, false, true, s.irange(2, 4), 7 }); }
void impostor(Src &s) { run(s, OpenCfg { false, false, true, true, false, true, s.irange(2, 3), 5 }); }
void homes(Src &s) { run(s, OpenCfg { false, true, false, true, true, true, s.irange(2, 3), 6 }); }

// A peer stops without a word and starts again, with the same identity and usually at the same address (so its
// session IDs repeat), while the other end still holds the old session.
struct Restarting : Net {
	explicit Restarting(Src &s_) : Net(s_) {}
	void go()
	{
		w.admit = nullptr; // keying requests for a peer that has a session here are the point
		Endpoint *b = add("bob"), *a = nullptr;
		int na = 0;
		Address home = ip(50, 1);
		unsigned lives = 0, bound_ = 0;
		for(int n = s.irange(2, 4); n--; lives++)
		{
			if(na && s.chance(1, 5)) home = ip(50 + na, 1);
			a = new Endpoint(w, "alice");
			eps.emplace_back(a);
			a->addInterface(1, home);
			na++;
			app.attach(a);
			if(s.chance(1, 4)) a->simCrypto.asyncDelay = s.pick<double>({ 0.001, 0.3 });
			if(s.chance(1, 4)) a->threadDelay = s.pick<double>({ 0.001, 0.3 });
			w.log("alice starts, life %u", lives);
			bool lossy = s.chance(1, 3);
			double delay = s.pick<double>({ 0.001, 0.05, 0.2 });
			for(auto *x : { a, b }) { Path &q = w.path(x, x == a ? b : a); q = Path(); q.delay = delay; if(lossy) q.loss = s.pick<double>({ 0.1, 0.4 }); }
			std::vector<SFlow *> mine;
			bool fromB = lives == 0 && s.chance(1, 3); // the first session can be opened by the other end
			for(int k = s.irange(1, 3); k--; )
			{
				SFlow *f = app.open(fromB ? b : a, fromB ? a->epd() : b->epd());
				PBT_CHECK(f, "openFlow answered nothing");
				(fromB ? b : a)->enter([&] { f->flow->addCandidateAddress(fromB ? a->addr(1) : b->addr(1)); });
				for(int m = s.irange(1, 3); m--; ) app.write(f, s.below(2500));
				mine.push_back(f);
			}
			if(lossy) { w.run(s.below(8)); for(auto &q : w.paths) q.second.loss = 0; }
			std::string why;
			bool ok = w.runWhile([&] {
				for(auto *f : mine)
				{
					PBT_CHECK(!f->exceptions, "life %u: flow %u got an exception", lives, f->uid);
					if(!bound(f)) { why = "flow " + std::to_string(f->uid) + " has no session"; return true; }
					if(!app.reliableComplete(*f)) { why = "what was written to flow " + std::to_string(f->uid) + " was not delivered"; return true; }
					PBT_CHECK(!f->peer || !f->peer->flow || f->flow->getFarNonce() == f->peer->flow->getNearNonce(), "the ends of flow %u disagree about the session's nonces", f->uid);
				}
				return false;
			}, 75);
			PBT_CHECK(ok, "life %u, 75 seconds after the network healed: %s", lives, why.c_str());
			bound_ += mine.size();
			w.run(s.pick<double>({ 0, 0.1, 3, 20 }));
			if(!n) break;
			w.log("alice stops without a word");
			for(auto &x : app.sflows) if(x.second->ep == a) { x.second->flow.reset(); for(auto &m : x.second->msgs) m.receipt.reset(); }
			for(auto &r : app.rflows) if(r->ep == a) r->flow.reset();
			a->destroy();
			a->ifaces[1] = ip(250 - na, 1); // nothing reaches it
			// what it had sent arrives before it starts again
			w.run(s.pick<double>({ 1, 5, 40, 100 }));
		}
		for(auto &x : app.sflows) if(x.second->ep == b && !x.second->closed && !x.second->exceptions && x.second->flow && s.flip()) app.close(x.second.get());
		s.label("lives", lives);
		s.label("flows", bound_);
		if(lives > 1) s.nontrivial();
		w.run(3);
		app.dropAll();
		for(auto &e : eps) e->destroy();
		w.events.clear();
	}
};
void restarts(Src &s) { Restarting(s).go(); }

Register r({"P06", "histories of 2 to 5 endpoints opening flows to canonical, group and unknown discriminators, at once and later, from one or both ends, with right, wrong, dead and delayed candidate addresses, redirectors, impostors, asynchronous crypto, and loss, duplication and reordering during startup; initiators that stop without a word and start again at the same or another address; each flow's peer, both ends' nonces and certificates, the sessions that carry data and liveness judged; non-trivial: more than one flow and a session opened", {
	{"glare", pair, 14000, 100000},
	{"peers", many, 7000, 60000},
	{"redirects", intro, 7000, 60000},
	{"impostors", impostor, 7000, 60000},
	{"multihomed", homes, 7000, 60000},
	{"restarts", restarts, 5000, 60000},
}, { "a keying request arriving after a session with that peer has opened is lost (by the protocol it would replace the session)", "faults end within 20 seconds", "multi-homed peers open from one side only", "virtual clock, simulated crypto" }});

} // namespace
