// P18: hellos for others reach the application or the right peer, forwarding modes are obeyed, redirects are followed exactly.
#include "net.hpp"
#include <algorithm>
using namespace sim;
using pbt::Register;

namespace {

struct Hello { Bytes epd, tag; };
Bytes helloBody(const Bytes &epd, const Bytes &tag) { Bytes b; putField(b, epd); b.insert(b.end(), tag.begin(), tag.end()); return b; }
struct Reply { Bytes tag, rest; };
Reply parseReply(const Bytes &b) { Reply r; const uint8_t *p = b.data(), *l = p + b.size(); r.tag = field(p, l); r.rest.assign(p, l); return r; }
Bytes encodeAll(const std::vector<Address> &v) { Bytes b; for(auto &a : v) { Bytes e = a.encode(); b.insert(b.end(), e.begin(), e.end()); } return b; }
Address ip6(int n, int port)
{
	Bytes b(16, 0);
	b[0] = 0x20; b[1] = 0x01; b[15] = uint8_t(n);
	Address a;
	a.setIPAddress(b.data(), b.size());
	a.setPort(port);
	return a;
}
Address somewhere(Src &s)
{
	Address a = s.chance(1, 3) ? ip6(int(s.below(9)), 4000 + int(s.below(3))) : ip(100 + int(s.below(9)), 1, 5000 + int(s.below(3)));
	a.setOrigin(Address::Origin(s.below(4)));
	return a;
}
std::string show(const Bytes &b) { std::string t; for(auto c : b) t += c >= 32 && c < 127 ? char(c) : '.'; return t.size() > 40 ? t.substr(0, 40) + "..." : t; }

// --- hellos for somebody else at a real endpoint with sessions to the targets

struct Hellos : Net {
	struct Link { Endpoint *e, *f; std::shared_ptr<Flow> flow; };
	std::vector<Link> links;
	std::map<std::pair<Endpoint *, Endpoint *>, FIHelloResponseMode> modes; // of the first's session with the second
	struct Call { Endpoint *e; Bytes epd, tag; int iface; Address a; };
	struct Out { Endpoint *e; int iface; Address a; uint8_t type; Bytes tag, rest; };
	std::vector<Call> calls;
	std::vector<Out> outs;
	std::vector<Flow *> dead;
	int hops { 0 };
	bool armed { false };
	unsigned long total { 0 }, handed { 0 }, forwarded { 0 }, redirected { 0 }, answered { 0 }, ignored { 0 }, tooLong { 0 }, chained { 0 };
	explicit Hellos(Src &s_) : Net(s_) {}

	void expectOut(Endpoint *e, int iface, const Address &a, uint8_t type, const Bytes &tag, const Bytes &rest)
	{
		for(auto &i : e->ifaces) if(iface < 0 || iface == i.first) outs.push_back({ e, i.first, a, type, tag, rest });
	}
	void arrive(Endpoint *e, const Bytes &epd, const Bytes &tag, int iface, const Address &a, FIHelloResponseMode mode)
	{
		if(mode == FI_IGNORE) { ignored++; return; }
		if(!selects(epd, e->simCrypto.name, e->simCrypto.group))
		{
			if(e->rtmfp->onUnmatchedIHello) calls.push_back({ e, epd, tag, iface, a });
			else ignored++;
		}
		else if(mode == FI_SEND_REDIRECT) { redirected++; expectOut(e, iface, a, 0x71, tag, Bytes()); }
		else { answered++; expectOut(e, iface, a, 0x70, tag, Bytes()); }
	}
	void forward(const Link &l, const Bytes &epd, const Bytes &tag, const Address &a)
	{
		size_t vl = epd.size() < 128 ? 1 : 2, size = 3 + vl + epd.size() + a.encode().size() + tag.size();
		bool ok = false;
		l.e->enter([&] { ok = l.flow->forwardIHello(epd.data(), epd.size(), a, tag.data(), tag.size()); });
		w.log("  %s forwards it to %s: %d", l.e->simCrypto.name.c_str(), l.f->simCrypto.name.c_str(), ok);
		if(size <= 1100) PBT_CHECK(ok, "a hello of %zu bytes could not be forwarded", size);
		if(size > 1200) PBT_CHECK(!ok, "a hello of %zu bytes was forwarded in a session packet", size);
		if(!ok) { tooLong++; return; }
		forwarded++;
		if(++hops > 1) chained++;
		arrive(l.f, epd, tag, -1, a, modes[{ l.f, l.e }]);
	}
	void redirect(Endpoint *e, const Bytes &tag, int iface, const Address &a)
	{
		std::vector<Address> to;
		for(int n = s.pick<int>({ 1, 0, 2, 5, 30 }); n--; ) to.push_back(somewhere(s));
		int over = s.chance(1, 4) ? -1 : iface;
		w.log("  %s redirects to %zu addresses on interface %d", e->simCrypto.name.c_str(), to.size(), over);
		e->enter([&] { e->rtmfp->sendResponderRedirect(tag.data(), tag.size(), to, over, a.getSockaddr()); });
		expectOut(e, over, a, 0x71, tag, encodeAll(to));
		redirected++;
	}
	void onUnmatched(Endpoint *e, const Bytes &epd, const Bytes &tag, int iface, const Address &a)
	{
		PBT_CHECK(armed, "the application of %s was told of a hello nobody sent", e->simCrypto.name.c_str());
		auto it = std::find_if(calls.begin(), calls.end(), [&] (const Call &c) { return c.e == e && c.epd == epd && c.tag == tag && c.iface == iface && c.a == a; });
		PBT_CHECK(it != calls.end(), "the application of %s was told of a hello with discriminator '%s' (%zu), tag of %zu bytes, interface %d, from %s, which is not what was sent", e->simCrypto.name.c_str(), show(epd).c_str(), epd.size(), tag.size(), iface, a.toPresentation().c_str());
		calls.erase(it);
		handed++;
		w.log("  unmatched at %s", e->simCrypto.name.c_str());
		for(int n = s.weighted({ 4, 8, 2 }); n--; )
		{
			std::vector<Link *> mine;
			for(auto &l : links) if(l.e == e && hops < 4) mine.push_back(&l);
			double later = s.chance(1, 4) ? s.pick<double>({ 0.01, 0.5 }) : 0;
			if(mine.size() && s.chance(2, 3))
			{
				Link l = *s.pick(mine);
				if(later) w.after(later, [this, l, epd, tag, a] { forward(l, epd, tag, a); });
				else forward(l, epd, tag, a);
			}
			else if(later) w.after(later, [this, e, tag, iface, a] { redirect(e, tag, iface, a); });
			else redirect(e, tag, iface, a);
		}
	}

	void link(Endpoint *a, Endpoint *b, bool again = false)
	{
		SFlow *f = app.open(a, b->epd());
		if(!again) a->enter([&] { f->flow->addCandidateAddress(b->addr(s.irange(1, int(b->ifaces.size())))); });
		app.write(f, 5);
		w.runWhile([&] { return !f->peer; }, 20);
		PBT_CHECK(f->peer, "a flow did not open");
		links.push_back({ a, b, f->flow });
		links.push_back({ b, a, f->peer->flow });
		PBT_CHECK(again || f->flow->getSessionFIHelloMode() == FI_IGNORE, "a new session's forwarding mode is not to ignore");
		modes[{ a, b }]; modes[{ b, a }];
		if(!again) modes[{ a, b }] = modes[{ b, a }] = FI_IGNORE;
	}
	void setMode()
	{
		Link l = s.pick(links);
		FIHelloResponseMode m = s.pick<FIHelloResponseMode>({ FI_SEND_RHELLO, FI_SEND_REDIRECT, FI_IGNORE });
		w.log("mode of %s's session with %s: %d", l.e->simCrypto.name.c_str(), l.f->simCrypto.name.c_str(), int(m));
		l.e->enter([&] { l.flow->setSessionFIHelloMode(m); });
		modes[{ l.e, l.f }] = m;
		for(auto &x : links) { auto it = modes.find({ x.e, x.f }); PBT_CHECK(x.flow->getSessionFIHelloMode() == it->second, "the forwarding mode of %s's session with %s reads %d, it was set to %d", x.e->simCrypto.name.c_str(), x.f->simCrypto.name.c_str(), int(x.flow->getSessionFIHelloMode()), int(it->second)); }
	}

	void hello()
	{
		Endpoint *e = s.chance(2, 3) ? eps[0].get() : s.pick(eps).get();
		int iface = s.irange(1, int(e->ifaces.size()));
		Bytes epd, tag;
		switch(s.weighted({ 8, 2, 2 }))
		{
		case 0: epd = s.pick(eps)->epd(); break;
		case 1: epd = groupEPD(s.pick<std::string>({ "blue", "red" })); break;
		default: epd = s.bytes(s.pick<size_t>({ 0, 1, 20, 127, 128, 400, 1000, 1500 })); break;
		}
		tag = s.bytes(s.pick<size_t>({ 16, 0, 1, 32, 300, 1050, 1150 + s.below(40), 1500 }));
		Address a = s.chance(1, 6) ? ip6(int(s.below(9)), 4000) : ip(100 + int(s.below(9)), 1, 5000 + int(s.below(3)));
		w.log("hello '%s' (%zu), tag %zu bytes, to %s interface %d from %s", show(epd).c_str(), epd.size(), tag.size(), e->simCrypto.name.c_str(), iface, a.toPresentation().c_str());
		Bytes chunks;
		putChunk(chunks, 0x30, helloBody(epd, tag));
		calls.clear(); outs.clear(); hops = 0; armed = true;
		total++;
		arrive(e, epd, tag, iface, a, FI_SEND_RHELLO);
		w.inject(makePacket(0, 0, s.u64(), 3, chunks), a, e->addr(iface));
		w.run(4);
		PBT_CHECK(calls.empty(), "the application of %s was not told of a hello for somebody else", calls.empty() ? "" : calls[0].e->simCrypto.name.c_str());
		PBT_CHECK(outs.empty(), "%s did not send %s to %s on interface %d", outs[0].e->simCrypto.name.c_str(), outs[0].type == 0x70 ? "a hello answer" : "a redirect", outs[0].a.toPresentation().c_str(), outs[0].iface);
		armed = false;
	}

	void go()
	{
		Endpoint *r = add("rita", "", s.irange(1, 2)), *t1 = add("alice", "blue", s.irange(1, 2)), *t2 = add("bob", "blue", s.irange(1, 2)), *t3 = add("carol", "red");
		for(auto &x : eps)
		{
			Endpoint *e = x.get();
			e->simCrypto.txMargin = s.below(17);
			if(s.chance(1, 4)) e->simCrypto.asyncDelay = 0.01;
			if(s.chance(7, 8)) e->rtmfp->onUnmatchedIHello = [this, e] (const void *epd, size_t en, const void *tag, size_t tn, int iface, const struct sockaddr *a) {
				const uint8_t *p = (const uint8_t *)epd, *t = (const uint8_t *)tag;
				onUnmatched(e, Bytes(p, p + en), Bytes(t, t + tn), iface, Address(a));
			};
			e->enter([&] { e->rtmfp->setDefaultSessionKeepalivePeriod(1e6); e->rtmfp->setDefaultSessionRetransmitLimit(1e6); });
		}
		for(auto *t : { t1, t2, t3 }) { if(s.flip()) link(t, r); else link(r, t); }
		if(s.flip()) link(t1, t2);
		if(s.flip()) link(t1, r, false);
		w.run(3);
		w.onSend.push_back([this] (Pkt &p) {
			PBT_CHECK(p.known && p.dec.err.empty(), "a malformed packet: %s", p.dec.err.c_str());
			int i;
			if(w.find(p.dst, &i)) { PBT_CHECK(p.dec.mode() != 3, "a startup packet to %s, which sent nothing", p.dst.toPresentation().c_str()); return; }
			PBT_CHECK(p.dec.mode() == 3 && p.key == 0 && wireSessionID(p.bytes) == 0 && p.dec.chunks.size() == 1, "%s sent an originator something other than an answer", p.from->simCrypto.name.c_str());
			const Chunk &c = p.dec.chunks[0];
			PBT_CHECK(c.type == 0x70 || c.type == 0x71, "%s sent an originator chunk %02x", p.from->simCrypto.name.c_str(), c.type);
			Reply r = parseReply(c.body);
			auto it = std::find_if(outs.begin(), outs.end(), [&] (const Out &o) { return o.e == p.from && o.iface == p.iface && o.a == p.dst && o.type == c.type && o.tag == r.tag && (c.type == 0x70 || o.rest == r.rest); });
			PBT_CHECK(it != outs.end(), "%s sent %s to %s on interface %d (tag of %zu bytes, %zu bytes of addresses), which is not what should answer the hello", p.from->simCrypto.name.c_str(), c.type == 0x70 ? "a hello answer" : "a redirect", p.dst.toPresentation().c_str(), p.iface, r.tag.size(), r.rest.size());
			if(c.type == 0x70)
			{
				const uint8_t *q = r.rest.data(), *l = q + r.rest.size();
				Bytes cookie = field(q, l);
				PBT_CHECK(cookie.size() && Bytes(q, l) == encodeCert(p.from->simCrypto.name, p.from->simCrypto.group), "a hello answer of %s lacks its cookie or certificate", p.from->simCrypto.name.c_str());
			}
			outs.erase(it);
		});
		for(int n = s.irange(3, 25); n--; )
		{
			for(int k = s.below(4); k--; ) setMode();
			hello();
		}
		w.onSend.pop_back();
		if(s.chance(1, 4))
		{
			// a flow with no session forwards nothing
			Link l = s.pick(links);
			std::weak_ptr<Flow> weak = l.flow;
			l.e->enter([&] { l.e->rtmfp->shutdown(true); });
			w.run(1);
			bool ok = true;
			l.e->enter([&] { ok = l.flow->forwardIHello("x", 1, ip(1, 1), "t", 1); });
			PBT_CHECK(!ok, "a flow of a closed session forwarded a hello");
		}
		links.clear();
		s.label("hellos", total);
		s.label("handed to the application", handed);
		s.label("forwarded", forwarded);
		s.label("forwarded on", chained);
		s.label("too long to forward", tooLong);
		s.label("redirects", redirected);
		s.label("hello answers", answered);
		s.label("ignored", ignored);
		if(forwarded && redirected && answered) s.nontrivial();
		destroy(false);
	}
};

// --- a real originator that is redirected

struct Redirected : Net {
	explicit Redirected(Src &s_) : Net(s_) {}
	struct Try { Time from; bool must; std::map<int, std::vector<Time> > sent; };
	std::map<Address, Try> tries;
	Bytes tag, epd;
	unsigned long hellos { 0 }, followed { 0 }, ignored { 0 }, full { 0 };

	void permit(const Address &a, Time at, bool must)
	{
		auto it = tries.find(a);
		if(it == tries.end()) tries[a] = { at, must, {} };
		else { if(must) it->second.must = true; it->second.from = std::min(it->second.from, at); }
	}

	void go()
	{
		Endpoint *o = add("olive", "", s.irange(1, 2));
		epd = s.chance(1, 4) ? s.bytes(s.below(600)) : canonicalEPD("target");
		bool over = false;
		w.onSend.push_back([&] (Pkt &p) {
			PBT_CHECK(p.known && p.dec.err.empty() && p.dec.mode() == 3 && p.dec.chunks.size() == 1 && p.dec.chunks[0].type == 0x30, "something other than a hello was sent");
			Reply r = parseReply(p.dec.chunks[0].body);
			PBT_CHECK(r.tag == epd, "a hello's discriminator is not the one opened to");
			if(tag.empty()) tag = r.rest;
			PBT_CHECK(r.rest == tag && tag.size(), "a hello's tag changed");
			PBT_CHECK(!over, "a hello to %s after the opening ended", p.dst.toPresentation().c_str());
			auto it = tries.find(p.dst);
			PBT_CHECK(it != tries.end(), "a hello to %s, which is no candidate and no redirect gave", p.dst.toPresentation().c_str());
			PBT_CHECK(p.sent >= it->second.from - 1e-6, "a hello to %s before its time", p.dst.toPresentation().c_str());
			it->second.sent[p.iface].push_back(p.sent);
			hellos++;
		});
		SFlow *f = app.open(o, epd);
		size_t used = 0;
		std::set<Address> counted;
		auto candidate = [&] {
			Address a = somewhere(s);
			double d = s.chance(1, 3) ? s.pick<double>({ 0.5, 3, 10 }) : 0;
			w.log("candidate %s after %g", a.toPresentation().c_str(), d);
			// a later candidate time for an address being tried changes nothing
			if(counted.insert(a).second) { used++; permit(a, w.now + d, true); }
			o->enter([&] { f->flow->addCandidateAddress(a, d); });
		};
		Time began = w.now;
		for(int n = s.pick<int>({ 1, 2, 6, 22, 24, 30 }); n--; ) candidate();
		w.run(0.2);
		for(int n = s.below(10); n--; )
		{
			if(w.now > began + 80) break;
			switch(s.weighted({ 6, 1 }))
			{
			case 0:
			{
				if(tag.empty()) { w.run(1); break; }
				std::vector<Address> to;
				for(int k = s.pick<int>({ 1, 0, 2, 3, 8, 30 }); k--; ) to.push_back(somewhere(s));
				if(to.size() && s.chance(1, 5)) to.push_back(s.pick(to));
				Bytes t = tag, list = encodeAll(to), body, chunks;
				bool right = !s.chance(1, 5), whole = true;
				if(!right) { if(s.flip()) t.pop_back(); else t[s.below(t.size())] ^= 1; }
				if(list.size() > 1 && s.chance(1, 6)) { list.resize(s.range(1, list.size() - 1)); whole = false; }
				putField(body, t);
				body.insert(body.end(), list.begin(), list.end());
				putChunk(chunks, 0x71, body);
				Address from = ip(60 + int(s.below(5)), 1, 7000);
				w.log("redirect to %zu addresses from %s%s%s", to.size(), from.toPresentation().c_str(), right ? "" : ", wrong tag", whole ? "" : ", cut off");
				if(right)
				{
					if(to.empty()) to.push_back(from);
					for(auto &a : to)
					{
						if(counted.count(a)) continue;
						// there is a limit to how many redirects make an opening try; it keeps at least those that fit
						if(whole && used < 24) { counted.insert(a); used++; permit(a, w.now, true); followed++; }
						else if(!whole) { permit(a, w.now, false); }
						else full++;
					}
				}
				else ignored++;
				w.inject(makePacket(0, 0, s.u64(), 3, chunks), from, o->addr(s.irange(1, int(o->ifaces.size()))));
				w.run(0.05);
				if(!whole && right)
				{
					// what it made of it decides how many more fit
					for(auto &x : tries) if(x.second.sent.size() && counted.insert(x.first).second) used++;
					for(auto it = tries.begin(); it != tries.end(); ) if(!it->second.must && it->second.sent.empty()) it = tries.erase(it); else ++it;
				}
				break;
			}
			default: candidate(); break;
			}
			if(s.flip()) w.run(s.pick<double>({ 0.01, 0.3, 2, 8 }));
		}
		bool closeEarly = s.flip();
		if(closeEarly)
		{
			w.run(s.pick<double>({ 0, 0.5, 20 }));
			w.log("close");
			over = true;
			app.close(f);
		}
		else
		{
			w.runUntil(began + 94);
			PBT_CHECK(!f->exceptions, "opening was given up before its time");
			w.runUntil(began + 101);
			PBT_CHECK(f->exceptions == 1, "opening was never given up");
			over = true;
		}
		Time end = w.now;
		w.run(30);
		for(auto &x : tries)
		{
			if(x.second.must && x.second.from < end - 6.5)
				PBT_CHECK(x.second.sent.size() == o->ifaces.size(), "no hello was sent to %s on %zu of %zu interfaces", x.first.toPresentation().c_str(), o->ifaces.size() - x.second.sent.size(), o->ifaces.size());
			for(auto &i : x.second.sent)
			{
				auto &v = i.second;
				if(x.second.must && x.second.from < end - 6.5) PBT_CHECK(v[0] <= x.second.from + 0.05, "the first hello to %s was %Lg s late", x.first.toPresentation().c_str(), v[0] - x.second.from);
				for(size_t k = 1; k < v.size(); k++)
				{
					PBT_CHECK(v[k] - v[k - 1] >= 0.99, "hellos to %s %Lg s apart", x.first.toPresentation().c_str(), v[k] - v[k - 1]);
					if(k > 1) PBT_CHECK(v[k] - v[k - 1] >= v[k - 1] - v[k - 2] - 0.01, "hellos to %s come faster over time", x.first.toPresentation().c_str());
				}
				if(!closeEarly && x.second.must && v[0] < began + 20) PBT_CHECK(v.size() >= 5, "%zu hellos to %s", v.size(), x.first.toPresentation().c_str());
			}
		}
		PBT_CHECK(f->exceptions == (closeEarly ? 0 : 1), "%d exceptions", f->exceptions);
		s.label("hellos", hellos);
		s.label("addresses from redirects", followed);
		s.label("redirects ignored", ignored);
		s.label("addresses over the limit", full);
		if(followed) s.nontrivial();
		app.dropAll();
		w.run(100); // a timer remembers it that long
		PBT_CHECK(o->simCrypto.live.size() == 1, "the abandoned opening still holds %zu keys", o->simCrypto.live.size());
		o->destroy();
	}
};

// --- originators open to targets they know only by an introducer

struct Introduced : Net {
	explicit Introduced(Src &s_) : Net(s_) {}
	unsigned long introductions { 0 }, unselected { 0 };
	std::set<std::pair<Endpoint *, Address> > allowed;
	std::map<Address, std::set<Address> > punched; // by own address, whom it has sent to
	std::map<Endpoint *, bool> natted;

	void go()
	{
		bool natO = s.chance(1, 3), natT = s.chance(1, 2), careless = s.chance(1, 3);
		Endpoint *r = add("rita", "", s.irange(1, 2));
		std::vector<Endpoint *> ts, os;
		static const char *tn[] = { "alice", "bob", "carol" };
		for(int i = 0, n = s.irange(1, 3); i < n; i++) ts.push_back(add(tn[i], s.chance(1, 3) ? "blue" : "", natT ? 1 : s.irange(1, 2)));
		for(int i = 0, n = s.irange(1, 2); i < n; i++) os.push_back(add(i ? "oscar" : "zelda", "", s.irange(1, 2)));
		Endpoint *d = add("dora");
		for(auto *e : ts) natted[e] = natT;
		for(auto *e : os) natted[e] = natO;
		std::map<Endpoint *, std::shared_ptr<Flow> > reg;
		std::map<Endpoint *, FIHelloResponseMode> mode;
		for(auto *t : ts)
		{
			SFlow *f = app.open(t, r->epd());
			t->enter([&] { f->flow->addCandidateAddress(r->addr(s.irange(1, int(r->ifaces.size())))); });
			app.write(f, 5);
			w.runWhile([&] { return !f->peer; }, 20);
			PBT_CHECK(f->peer, "a target's flow to the introducer did not open");
			reg[t] = f->peer->flow;
			mode[t] = natT ? s.pick<FIHelloResponseMode>({ FI_SEND_RHELLO, FI_SEND_REDIRECT }) : s.pick<FIHelloResponseMode>({ FI_SEND_RHELLO, FI_SEND_REDIRECT, FI_IGNORE });
			t->enter([&] { f->flow->setSessionFIHelloMode(mode[t]); });
		}
		bool healed = false;
		r->rtmfp->onUnmatchedIHello = [&] (const void *epd, size_t en, const void *tag, size_t tn, int iface, const struct sockaddr *sa) {
			const uint8_t *p = (const uint8_t *)epd, *tg = (const uint8_t *)tag;
			Bytes e(p, p + en), t(tg, tg + tn);
			Address a(sa);
			std::vector<Endpoint *> match;
			for(auto *x : ts) if(selects(e, x->simCrypto.name, x->simCrypto.group)) match.push_back(x);
			if(match.empty() || (careless && !healed && s.chance(1, 3))) return;
			Endpoint *to = s.pick(match);
			bool fwd = mode[to] != FI_IGNORE && (natT || natO || s.flip());
			bool red = !fwd || natO || s.flip();
			introductions++;
			if(red)
			{
				std::vector<Address> list;
				for(int n = s.below(3); n--; ) list.push_back(s.flip() ? ip(120 + int(s.below(3)), 1) : d->addr(1));
				list.insert(list.begin() + s.below(list.size() + 1), reg[to]->getFarAddress());
				if(natO && s.flip()) for(auto *x : match) list.push_back(reg[x]->getFarAddress());
				r->rtmfp->sendResponderRedirect(t.data(), t.size(), list, iface, sa);
			}
			if(fwd)
			{
				bool ok = reg[to]->forwardIHello(e.data(), e.size(), a, t.data(), t.size());
				PBT_CHECK(ok, "the introducer could not forward a hello");
				if(careless && s.chance(1, 3) && ts.size() > 1) { Endpoint *x = s.pick(ts); reg[x]->forwardIHello(e.data(), e.size(), a, t.data(), t.size()); }
			}
			if(careless && natO) for(auto *x : match) if(mode[x] != FI_IGNORE) reg[x]->forwardIHello(e.data(), e.size(), a, t.data(), t.size());
		};
		for(auto *x : ts) x->rtmfp->onUnmatchedIHello = [this] (const void *, size_t, const void *, size_t, int, const struct sockaddr *) { unselected++; };
		d->rtmfp->onUnmatchedIHello = [this] (const void *, size_t, const void *, size_t, int, const struct sockaddr *) { unselected++; };
		std::map<Endpoint *, std::map<Bytes, SFlow *> > tags;
		w.onSend.push_back([&] (Pkt &p) {
			punched[p.src].insert(p.dst);
			if(!p.known || p.dec.mode() != 3) return;
			for(auto &c : p.dec.chunks)
				if(c.type == 0x30 && std::find(os.begin(), os.end(), p.from) != os.end())
					PBT_CHECK(allowed.count({ p.from, p.dst }), "%s sent a hello to %s, which is no candidate and which it was not redirected to", p.from->simCrypto.name.c_str(), p.dst.toPresentation().c_str());
		});
		// a natted endpoint receives only from those it has sent to
		auto before = w.admit;
		w.admit = [&, before] (Pkt &p, Endpoint *to) {
			if(natted[to] && p.from != r && to != r && !punched[p.dst].count(p.src)) return false;
			if(!before(p, to)) return false;
			if(p.known && p.dec.mode() == 3)
				for(auto &c : p.dec.chunks)
					if(c.type == 0x71)
					{
						Reply rep = parseReply(c.body);
						const uint8_t *q = rep.rest.data(), *l = q + rep.rest.size();
						if(q == l) allowed.insert({ to, p.src });
						while(q < l) { Address x; size_t k = x.setFromEncoding(q, l); PBT_CHECK(k, "a redirect with a malformed address"); q += k; allowed.insert({ to, x }); }
					}
			return true;
		};
		std::vector<SFlow *> flows;
		faults();
		for(int n = s.irange(1, 4); n--; )
		{
			Endpoint *o = s.pick(os), *t = s.pick(ts);
			Bytes epd = t->simCrypto.group.size() && s.flip() ? groupEPD(t->simCrypto.group) : t->epd();
			SFlow *f = app.open(o, epd);
			std::vector<Address> c;
			for(int k = s.below(3); k--; ) c.push_back(s.flip() ? ip(120 + int(s.below(3)), 1) : d->addr(1));
			c.insert(c.begin() + s.below(c.size() + 1), r->addr(s.irange(1, int(r->ifaces.size()))));
			for(auto &a : c) { allowed.insert({ o, a }); o->enter([&] { f->flow->addCandidateAddress(a); }); }
			for(int k = s.irange(1, 3); k--; ) app.write(f, s.below(3000));
			flows.push_back(f);
			if(s.flip()) w.run(s.pick<double>({ 0.1, 1, 5 }));
		}
		w.run(s.pick<double>({ 0.5, 3, 10 }));
		heal();
		healed = true;
		w.runWhile([&] { for(auto *f : flows) { if(!f->peer) return true; for(auto &m : f->msgs) if(!m.finished) return true; } return false; }, 75);
		for(auto *f : flows)
		{
			PBT_CHECK(f->peer && !f->exceptions, "flow %u to '%s' through the introducer did not open", f->uid, show(f->epd).c_str());
			PBT_CHECK(f->peer->ep != r && f->peer->ep != d, "flow %u opened to %s", f->uid, f->peer->ep->simCrypto.name.c_str());
			PBT_CHECK(selects(f->epd, f->peer->ep->simCrypto.name, f->peer->ep->simCrypto.group), "flow %u to '%s' opened to %s", f->uid, show(f->epd).c_str(), f->peer->ep->simCrypto.name.c_str());
			PBT_CHECK(f->flow->getFarCanonicalEPD() == f->peer->ep->epd(), "flow %u's far end is not %s", f->uid, f->peer->ep->simCrypto.name.c_str());
			bool here = false;
			for(auto &i : f->peer->ep->ifaces) if(i.second == f->flow->getFarAddress()) here = true;
			PBT_CHECK(here, "flow %u's session is at %s", f->uid, f->flow->getFarAddress().toPresentation().c_str());
			for(auto &m : f->msgs) PBT_CHECK(m.finished && m.delivered, "message %d of flow %u was not delivered", m.index, f->uid);
		}
		for(auto *o : os) for(auto *x : { r, d }) PBT_CHECK(w.liveWith(&o->simCrypto, &x->simCrypto) == 0, "%s has a session with %s, which it opened nothing to", o->simCrypto.name.c_str(), x->simCrypto.name.c_str());
		s.label("introductions", introductions);
		s.label("flows", flows.size());
		s.label("behind NAT", natO || natT);
		s.label("hellos at the wrong endpoint", unselected);
		if(introductions) s.nontrivial();
		r->rtmfp->onUnmatchedIHello = nullptr;
		reg.clear();
		destroy(false);
	}
};

void hellos(Src &s) { Hellos h(s); h.go(); }
void redirected(Src &s) { Redirected r(s); r.go(); }
void introduced(Src &s) { Introduced i(s); i.go(); }
Register r({"P18", "four endpoints with sessions among them, whose forwarding modes change, get raw hellos from unrouted addresses for themselves, for each other, for groups and for nobody, with discriminators and tags of 0 to 1500 bytes; the applications ignore, redirect or forward at random, at once or later, over several hops, and every callback and every answer on the wire must be exactly the one predicted; an opening with no peer is given redirects with right and wrong tags, empty, long, repeated and cut off lists, and every hello it sends is judged; and originators open flows through an introducer, directly or behind address translators, over a lossy network, and must end with the target only; non-trivial: hellos forwarded, redirected and answered; redirects followed; introductions made", {
	{"hellos", hellos, 6000, 300000},
	{"redirected", redirected, 6000, 300000},
	{"introduced", introduced, 5000, 250000},
}, { "a redirect whose address list is cut off may be followed in part or ignored", "an opening follows redirects while it has fewer than 24 addresses", "virtual clock, simulated crypto" }});

} // namespace
