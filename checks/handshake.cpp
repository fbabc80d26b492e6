// P15: a responder keeps no state before a valid cookie comes back, and startup packets nobody asked for disturb nothing.
#include "net.hpp"
#include <algorithm>
using namespace sim;
using pbt::Register;

namespace {

struct RawHello { Bytes tag, cookie, cert; };
RawHello parseRHello(const Bytes &b) { RawHello h; const uint8_t *p = b.data(), *l = p + b.size(); h.tag = field(p, l); h.cookie = field(p, l); h.cert.assign(p, l); return h; }
struct RIKeying { uint32_t rsid { 0 }; Bytes skrc, sig, signedPart; };
RIKeying parseRIKeying(const Bytes &b)
{
	RIKeying k;
	if(b.size() < 5) return k;
	memcpy(&k.rsid, b.data(), 4);
	const uint8_t *p = b.data() + 4, *l = b.data() + b.size();
	k.skrc = field(p, l);
	k.signedPart.assign(b.data(), p);
	k.sig.assign(p, l);
	return k;
}

struct Base {
	Src &s;
	World w;
	App app;
	Endpoint bob;
	size_t base { 0 }; // keys there are before any session
	std::vector<Pkt> out; // what bob sent since last looked at
	explicit Base(Src &s_) : s(s_), w(s_), app(w), bob(w, "bob", "blue")
	{
		bob.addInterface(1, ip(1, 1));
		bob.addInterface(2, ip(1, 2));
		app.attach(&bob);
		bob.simCrypto.txMargin = s.below(17);
		if(s.chance(1, 3)) bob.simCrypto.asyncDelay = s.pick<double>({ 0.001, 0.05 });
		if(s.chance(1, 3)) bob.threadDelay = s.pick<double>({ 0.001, 0.05 });
		bob.enter([&] { bob.rtmfp->setDefaultSessionKeepalivePeriod(1e6); bob.rtmfp->setDefaultSessionRetransmitLimit(1e6); bob.rtmfp->setDefaultSessionIdleLimit(1e6); });
		base = bob.simCrypto.live.size();
		w.onSend.push_back([this] (Pkt &p) {
			if(p.from != &bob) return;
			PBT_CHECK(p.known && p.dec.err.empty(), "bob sent a malformed packet: %s", p.dec.err.c_str());
			out.push_back(p);
		});
	}
	void startup(const Bytes &chunks, const Address &from, int iface, uint32_t sid = 0) { w.inject(makePacket(sid, 0, s.u64(), 3, chunks), from, bob.addr(iface)); }
	void settle() { w.run(0.5); }
	Address place(int i) { return ip(100 + i / 3, 1, 5000 + i % 3); }
	// a change that leaves something different
	Bytes alter(Bytes b)
	{
		Bytes o = b;
		switch(s.below(5))
		{
		case 0: case 1: if(b.size()) b[s.below(b.size())] ^= uint8_t(1 << s.below(8)); break;
		case 2: b.resize(s.below(b.size() + 1)); break;
		case 3: b.push_back(uint8_t(s.below(256))); break;
		default: b = s.bytes(s.below(80)); break;
		}
		if(b == o) b.push_back(0);
		return b;
	}
};

struct Responding : Base {
	struct Cookie { Bytes b; Address a; Time at; };
	struct Session { Address a; int iface; uint32_t isid; Bytes skic; std::string name; uint32_t rsid; uint64_t key; bool live; uint64_t order; };
	std::vector<Cookie> cookies;
	std::vector<Bytes> foreign; // cookies of another endpoint
	std::vector<Session> sessions;
	unsigned long created { 0 }, refused { 0 }, changes { 0 }, again { 0 }, hellos { 0 }, pings { 0 }, replaced { 0 };
	explicit Responding(Src &s_) : Base(s_) {}

	size_t liveCount() { size_t n = 0; for(auto &x : sessions) n += x.live; return n; }
	void noState(const char *what) { PBT_CHECK(bob.simCrypto.live.size() == base + liveCount(), "after %s, the responder has %zu sessions or keys, %zu were opened", what, bob.simCrypto.live.size() - base, liveCount()); }

	void hello()
	{
		Address from = place(s.below(5));
		int iface = s.irange(1, 2);
		Bytes epd = s.chance(4, 5) ? s.pick<Bytes>({ canonicalEPD("bob"), groupEPD("blue") }) : s.pick<Bytes>({ canonicalEPD("bo"), canonicalEPD("bobb"), groupEPD("red"), Bytes() });
		bool mine = selects(epd, "bob", "blue");
		Bytes tag = s.bytes(s.len(60)), body;
		putField(body, epd);
		body.insert(body.end(), tag.begin(), tag.end());
		Bytes chunks;
		putChunk(chunks, 0x30, body);
		w.log("hello '%s' from %s", std::string(epd.begin(), epd.end()).c_str(), from.toPresentation().c_str());
		startup(chunks, from, iface);
		settle();
		hellos++;
		noState("a hello");
		if(!mine) { PBT_CHECK(out.empty(), "a hello for somebody else was answered"); return; }
		PBT_CHECK(out.size() == 1 && out[0].dec.chunks.size() == 1 && out[0].dec.chunks[0].type == 0x70, "a hello got %zu answers", out.size());
		Pkt &p = out[0];
		PBT_CHECK(p.dst == from && p.iface == iface, "a hello from %s on interface %d was answered to %s on %d", from.toPresentation().c_str(), iface, p.dst.toPresentation().c_str(), p.iface);
		PBT_CHECK(p.dec.mode() == 3 && wireSessionID(p.bytes) == 0 && p.key == 0, "a hello's answer is not a startup packet");
		RawHello h = parseRHello(p.dec.chunks[0].body);
		PBT_CHECK(h.tag == tag, "a hello's tag was echoed as something else");
		PBT_CHECK(h.cert == encodeCert("bob", "blue"), "a hello's answer shows another certificate");
		for(auto &c : cookies) PBT_CHECK(c.b != h.cookie || c.a == from, "the same cookie was issued to two addresses");
		cookies.push_back({ h.cookie, from, p.sent });
	}

	enum Verdict { NOTHING, CHANGE, OK, EITHER_OK_OR_NOTHING, EITHER_CHANGE_OR_NOTHING };
	Verdict judge(const Bytes &c, const Address &from, double in = 0)
	{
		bool prefix = false, exact = false, old = false, fresh = false;
		for(auto &x : cookies)
		{
			if(x.b.size() != c.size() || x.b.size() < 33 || memcmp(x.b.data(), c.data(), c.size() - 32)) continue;
			prefix = true;
			if(x.b == c && x.a == from) exact = true;
			if(w.now + in - x.at >= 96) old = true;
			if(w.now + in - x.at <= 95) fresh = true;
		}
		if(!prefix || old) return NOTHING;
		if(fresh) return exact ? OK : CHANGE;
		return exact ? EITHER_OK_OR_NOTHING : EITHER_CHANGE_OR_NOTHING;
	}

	void keying()
	{
		std::string name = s.pick<std::string>({ "alice", "mallory", "zoe" });
		Address from = place(s.below(5));
		int iface = s.irange(1, 2);
		uint32_t isid = s.pick<uint32_t>({ 2, 3, 0x01020304, 0, 0xffffffff });
		Bytes cookie, cert = encodeCert(name, ""), skic = s.bytes(s.pick<size_t>({ 8, 16, 3, 0, 40 }));
		bool badCert = false, badSig = false;
		const Session *retry = nullptr;
		if(s.chance(1, 3) && sessions.size())
		{
			retry = &s.pick(sessions);
			name = retry->name; isid = retry->isid; skic = retry->skic; cert = encodeCert(name, "");
			if(s.chance(4, 5)) { from = retry->a; iface = retry->iface; }
			switch(s.below(6)) { case 0: isid++; break; case 1: skic = alter(skic); break; default: break; }
		}
		// a cookie for here if there is one
		std::vector<size_t> here;
		for(size_t i = 0; i < cookies.size(); i++) if(cookies[i].a == from) here.push_back(i);
		if(here.size() && s.chance(3, 4)) cookie = cookies[here[here.size() - 1 - s.below(std::min<size_t>(here.size(), 3))]].b;
		else if(cookies.size() && s.chance(3, 4)) cookie = s.pick(cookies).b;
		else if(foreign.size() && s.flip()) cookie = s.pick(foreign);
		else cookie = s.bytes(s.pick<size_t>({ 0, 1, 65, 66, 67, 64, 100 }));
		if(s.chance(1, 4))
		{
			if(cookies.size() && s.chance(1, 3))
			{
				// parts of two
				const Bytes &o = s.pick(cookies).b;
				size_t at = s.below(std::min(o.size(), cookie.size()) + 1);
				if(s.flip()) at = o.size() >= 32 && cookie.size() >= o.size() ? o.size() - 32 : at;
				cookie = Bytes(o.begin(), o.begin() + at);
				const Bytes &q = here.size() ? cookies[s.pick(here)].b : o;
				if(q.size() > at) cookie.insert(cookie.end(), q.begin() + at, q.end());
			}
			else cookie = alter(cookie);
		}
		if(s.chance(1, 8)) { badCert = true; cert = s.flip() ? encodeCert(name, "", false) : alter(cert); if(cert == encodeCert(name, "")) badCert = false; }
		bool undecodable = false;
		if(badCert) { bob.enter([&] { undecodable = !bob.simCrypto.decodeCertificate(cert.data(), cert.size()); }); }
		Bytes body(4);
		memcpy(body.data(), &isid, 4);
		putField(body, cookie); putField(body, cert); putField(body, skic);
		Bytes sig = signAs(name, body);
		if(s.chance(1, 8))
		{
			badSig = true;
			switch(s.below(3))
			{
			case 0: sig = alter(sig); break;
			case 1: sig = signAs("eve", body); break;
			default: { Bytes x = body; x[s.below(4)] ^= 1; sig = signAs(name, x); } break;
			}
		}
		body.insert(body.end(), sig.begin(), sig.end());
		Bytes chunks;
		putChunk(chunks, 0x38, body);

		Verdict v = judge(cookie, from);
		Session *dup = nullptr, *there = nullptr;
		for(auto &x : sessions)
			if(x.live && x.a == from && (!there || x.order > there->order)) there = &x;
		if(there && there->iface == iface && there->isid == isid && there->skic == skic) dup = there;
		int copies = s.chance(1, 4) ? s.irange(2, 3) : 1;
		if(judge(cookie, from, 0.7) != v || v == EITHER_OK_OR_NOTHING || v == EITHER_CHANGE_OR_NOTHING) copies = 1;
		w.log("keying as %s from %s, isid %x, skic %zu bytes%s%s%s%s, cookie verdict %d, %d copies", name.c_str(), from.toPresentation().c_str(), isid, skic.size(), badCert ? ", bad certificate" : "", badSig ? ", bad signature" : "", dup ? ", again" : "", there && !dup ? ", a session is there" : "", int(v), copies);
		for(int i = 0; i < copies; i++) { startup(chunks, from, iface); if(s.chance(1, 3)) w.run(s.pick<double>({ 0.001, 0.02, 0.2 })); }
		settle();

		for(auto &p : out)
		{
			PBT_CHECK(p.dst == from && p.iface == iface, "a keying request from %s on interface %d was answered to %s on %d", from.toPresentation().c_str(), iface, p.dst.toPresentation().c_str(), p.iface);
			PBT_CHECK(p.dec.mode() == 3 && p.key == 0 && p.dec.chunks.size() == 1 && wireSessionID(p.bytes) == isid, "the answer to a keying request is not a startup packet for its session");
		}
		bool isChange = out.size() && out[0].dec.chunks[0].type == 0x79;
		bool none = out.empty() && bob.simCrypto.live.size() == base + liveCount();
		if(v == EITHER_OK_OR_NOTHING) v = none ? NOTHING : OK;
		if(v == EITHER_CHANGE_OR_NOTHING) v = none ? NOTHING : CHANGE;
		if(v == NOTHING)
		{
			refused++;
			PBT_CHECK(out.empty(), "a keying request with a cookie never issued, or expired, was answered");
			noState("a keying request with a bad cookie");
			return;
		}
		if(v == CHANGE)
		{
			changes++;
			PBT_CHECK(int(out.size()) == copies, "%d keying requests with a cookie of another address got %zu answers", copies, out.size());
			noState("a keying request with a cookie of another address");
			for(auto &p : out)
			{
				PBT_CHECK(p.dec.chunks[0].type == 0x79, "a keying request with a cookie of another address was answered with chunk %02x", p.dec.chunks[0].type);
				const Bytes &b = p.dec.chunks[0].body;
				const uint8_t *q = b.data(), *l = q + b.size();
				PBT_CHECK(field(q, l) == cookie, "a replacement is for another cookie");
				Bytes n(q, l);
				for(auto &c : cookies) PBT_CHECK(c.b != n || c.a == from, "a replacement cookie is that of another address");
				cookies.push_back({ n, from, p.sent });
			}
			return;
		}
		PBT_CHECK(!isChange, "a keying request with a fresh cookie of its address got another cookie");
		if(dup)
		{
			again++;
			noState("a keying request sent again");
			if(!undecodable && !badCert && !badSig) PBT_CHECK(int(out.size()) == copies, "%d keying requests sent again got %zu answers", copies, out.size());
			for(auto &p : out)
			{
				RIKeying k = parseRIKeying(p.dec.chunks[0].body);
				PBT_CHECK(p.dec.chunks[0].type == 0x78 && k.rsid == dup->rsid, "a keying request sent again was answered with another session");
			}
			return;
		}
		bool good = !badCert && !badSig && skic.size() >= 4 && (!there || there->name == name);
		if(!good)
		{
			refused++;
			PBT_CHECK(out.empty(), "a keying request %s was answered", badCert ? "with a bad certificate" : badSig ? "with a bad signature" : there ? "from the address of another peer" : "that cannot be combined");
			noState("a bad keying request");
			return;
		}
		if(there) { there->live = false; replaced++; }
		PBT_CHECK(out.size() >= 1 && int(out.size()) <= copies, "%d copies of a good keying request got %zu answers", copies, out.size());
		RIKeying k = parseRIKeying(out[0].dec.chunks[0].body);
		PBT_CHECK(out[0].dec.chunks[0].type == 0x78, "a good keying request was answered with chunk %02x", out[0].dec.chunks[0].type);
		for(auto &p : out) PBT_CHECK(p.dec.chunks[0].body == out[0].dec.chunks[0].body, "copies of a keying request got different answers");
		for(auto &x : sessions) PBT_CHECK(!x.live || x.rsid != k.rsid, "two live sessions have the same id");
		Bytes sp = k.signedPart;
		sp.insert(sp.end(), skic.begin(), skic.end());
		PBT_CHECK(k.sig == signAs("bob", sp), "the answer to a keying request is not signed over both components");
		sessions.push_back({ from, iface, isid, skic, name, k.rsid, keyFromNonces(skic, k.skrc), true, created });
		created++;
		noState("a good keying request");
	}

	void ping()
	{
		if(sessions.empty()) return;
		Session &x = sessions[s.below(sessions.size())];
		Bytes b = s.bytes(s.irange(1, 40)), chunks;
		b[0] = 'P';
		putChunk(chunks, 0x01, b);
		w.log("ping in the session of %s at %s", x.name.c_str(), x.a.toPresentation().c_str());
		w.inject(makePacket(x.rsid, x.key, s.u64(), 1, chunks), x.a, bob.addr(x.iface));
		settle();
		pings++;
		if(!x.live)
		{
			for(auto &p : out) PBT_CHECK(p.key != x.key, "a session that was replaced still answers");
			return;
		}
		PBT_CHECK(out.size() == 1 && out[0].key == x.key && out[0].dst == x.a && wireSessionID(out[0].bytes) == x.isid && out[0].dec.mode() == 2 && out[0].dec.chunks.size() && out[0].dec.chunks[0].type == 0x41 && out[0].dec.chunks[0].body == b, "an open session answered a ping with %zu packets", out.size());
	}
	void junk()
	{
		// answers nobody asked for
		Bytes chunks, body;
		uint8_t type = s.pick<uint8_t>({ 0x70, 0x71, 0x79, 0x78, 0x38, 0x30, 0x0f, 0x0c, 0x10, 0x01 });
		switch(type)
		{
		case 0x70: putField(body, s.bytes(s.below(20))); putField(body, s.bytes(65)); { Bytes c = encodeCert("alice", ""); body.insert(body.end(), c.begin(), c.end()); } break;
		case 0x71: putField(body, s.bytes(s.below(20))); break;
		default: body = s.bytes(s.below(60)); if(type == 0x30) body.insert(body.begin(), 0x7f); break;
		}
		putChunk(chunks, type, body);
		w.log("junk %02x", type);
		startup(chunks, place(s.below(5)), s.irange(1, 2), s.pick<uint32_t>({ 0, 0, 1, 2, 3, 4 }));
		settle();
		PBT_CHECK(out.empty(), "a startup packet of type %02x nobody asked for was answered", type);
		noState("startup packets nobody asked for");
	}

	void go()
	{
		{
			// another responder's cookies
			Endpoint other(w, "carol");
			other.addInterface(1, ip(2, 1));
			std::vector<Bytes> got;
			w.onSend.push_back([&got] (Pkt &p) { if(p.from->simCrypto.name == "carol" && p.known) for(auto &c : p.dec.chunks) if(c.type == 0x70) got.push_back(parseRHello(c.body).cookie); });
			for(int i = 0; i < 3; i++)
			{
				Bytes body, chunks;
				putField(body, canonicalEPD("carol")); body.push_back('t');
				putChunk(chunks, 0x30, body);
				w.inject(makePacket(0, 0, 1, 3, chunks), place(i), other.addr(1));
			}
			w.run(0.1);
			PBT_CHECK(got.size() == 3, "another endpoint answered %zu of 3 hellos", got.size());
			foreign = got;
			w.onSend.pop_back();
			other.destroy();
		}
		w.run(s.pick<double>({ 0, 0.3, 5, 200 }));
		for(int n = s.irange(4, 50); n--; )
		{
			out.clear();
			switch(s.weighted({ 4, 8, 2, 2 }))
			{
			case 0: hello(); break;
			case 1: keying(); break;
			case 2: ping(); break;
			default: junk(); break;
			}
			out.clear();
			if(s.chance(1, 4)) w.run(s.pick<double>({ 1, 0.3, 20, 47, 94, 95, 95.5, 96, 120 }));
			PBT_CHECK(out.empty(), "the responder sent something nobody asked for");
			noState("waiting");
		}
		s.label("hellos", hellos);
		s.label("sessions", created);
		s.label("sessions replaced by their peer", replaced);
		s.label("answered again", again);
		s.label("cookies replaced", changes);
		s.label("refused", refused);
		s.label("pings", pings);
		if(created && (refused + changes)) s.nontrivial();
		bob.destroy();
	}
};

struct OpeningAlone : Base {
	Bytes epd;
	std::string peer, group;
	std::set<Address> candidates;
	std::vector<std::pair<Bytes, Address> > offers; // valid hello answers given: cookie and whence
	Bytes tag, skic, cookie;
	uint32_t isid { 0 };
	Address dest;
	bool helloSeen { false }, keyed { false }, changeSent { false }, changed { false };
	Bytes newCookie;
	std::vector<Bytes> changesOffered;
	bool opened { false };
	unsigned long junked { 0 }, unmatched { 0 }, unmatchedExpected { 0 };
	SFlow *f { nullptr };
	explicit OpeningAlone(Src &s_) : Base(s_) {}

	// judge what bob sends
	void look()
	{
		for(auto &p : out)
		{
			if(p.dec.mode() != 3)
			{
				PBT_CHECK(opened, "session packets before the session opened");
				PBT_CHECK(p.dst == dest, "session packets go to %s, the session opened at %s", p.dst.toPresentation().c_str(), dest.toPresentation().c_str());
				continue;
			}
			PBT_CHECK(p.dec.chunks.size() == 1 && p.key == 0 && wireSessionID(p.bytes) == 0, "a startup packet to somewhere with %zu chunks", p.dec.chunks.size());
			const Chunk &c = p.dec.chunks[0];
			if(c.type == 0x30)
			{
				const uint8_t *q = c.body.data(), *l = q + c.body.size();
				Bytes e = field(q, l), t(q, l);
				PBT_CHECK(e == epd, "a hello for somebody else");
				if(helloSeen) PBT_CHECK(t == tag, "the tag of a hello changed");
				PBT_CHECK(candidates.count(p.dst), "a hello to %s, which is no candidate", p.dst.toPresentation().c_str());
				PBT_CHECK(!keyed, "a hello after keying began");
				tag = t; helloSeen = true;
			}
			else if(c.type == 0x38)
			{
				IIKeying k = parseIIKeying(c.body);
				PBT_CHECK(k.cert == encodeCert("bob", "blue"), "a keying request shows another certificate");
				PBT_CHECK(k.sig == signAs("bob", Bytes(c.body.begin(), c.body.end() - k.sig.size())), "a keying request is not signed over all of it");
				if(!keyed)
				{
					bool offered = false;
					for(auto &o : offers) if(o.first == k.cookie && o.second == p.dst) offered = true;
					PBT_CHECK(offered, "a keying request to %s with a cookie that was not offered by the right peer there", p.dst.toPresentation().c_str());
					keyed = true; cookie = k.cookie; skic = k.skic; isid = k.isid; dest = p.dst;
				}
				PBT_CHECK(p.dst == dest, "a keying request moved from %s to %s", dest.toPresentation().c_str(), p.dst.toPresentation().c_str());
				PBT_CHECK(k.skic == skic && k.isid == isid, "a keying request sent again differs");
				if(k.cookie != cookie)
				{
					PBT_CHECK(std::find(changesOffered.begin(), changesOffered.end(), k.cookie) != changesOffered.end() && !changed, "a keying request changed its cookie for no good reason");
					changed = true; cookie = k.cookie;
				}
				PBT_CHECK(!opened || p.sent <= openedAt + 0.2, "a keying request after the session opened");
			}
			else PBT_FAIL("bob sent chunk %02x", c.type);
		}
		out.clear();
		PBT_CHECK(bob.simCrypto.live.size() == base + 1, "bob has %zu session keys, one session is opening", bob.simCrypto.live.size() - base);
	}
	Time openedAt { 0 };

	void rhello(const Bytes &t, const Bytes &ck, const Bytes &cert, const Address &from)
	{
		Bytes body, chunks;
		putField(body, t); putField(body, ck);
		body.insert(body.end(), cert.begin(), cert.end());
		putChunk(chunks, 0x70, body);
		startup(chunks, from, s.irange(1, 2));
	}
	void validHello()
	{
		Address from = s.chance(2, 3) ? *candidates.begin() : place(s.below(6));
		Bytes ck = s.bytes(s.pick<size_t>({ 66, 0, 1, 200 }));
		if(offers.size() && s.flip()) { auto o = s.pick(offers); ck = o.first; from = o.second; }
		offers.push_back({ ck, from });
		w.log("the peer answers from %s", from.toPresentation().c_str());
		rhello(tag, ck, encodeCert(peer, group), from);
	}
	void cookieChange(uint32_t sid, const Bytes &oldC, const Bytes &newC)
	{
		Bytes body, chunks;
		putField(body, oldC);
		body.insert(body.end(), newC.begin(), newC.end());
		putChunk(chunks, 0x79, body);
		startup(chunks, s.chance(2, 3) ? dest : place(s.below(6)), 1, sid);
	}
	void rikeying(uint32_t sid, const Bytes &skrc, const std::string &signer, const Bytes &overSkic, bool alterSig)
	{
		Bytes body(4), chunks;
		uint32_t rsid = 77;
		memcpy(body.data(), &rsid, 4);
		putField(body, skrc);
		Bytes sp = body;
		sp.insert(sp.end(), overSkic.begin(), overSkic.end());
		Bytes sig = signAs(signer, sp);
		if(alterSig) sig = alter(sig);
		body.insert(body.end(), sig.begin(), sig.end());
		putChunk(chunks, 0x78, body);
		startup(chunks, s.chance(2, 3) ? dest : place(s.below(6)), 1, sid);
	}
	void junk()
	{
		junked++;
		bool bound0 = Net::bound(f);
		switch(s.below(8))
		{
		case 0: // another tag
		{
			Bytes t = helloSeen && s.flip() ? alter(tag) : s.bytes(s.below(20));
			if(t == tag) return;
			w.log("an answer with another tag");
			unmatchedExpected++;
			rhello(t, s.bytes(66), encodeCert(peer, group), place(s.below(6)));
			break;
		}
		case 1: // somebody else's certificate, or none
		{
			Bytes cert = s.pick<Bytes>({ encodeCert("mallory", ""), encodeCert(peer, group, false), Bytes(), encodeCert(peer + "x", "xred") });
			if(s.chance(1, 3)) { cert = alter(encodeCert(peer, group)); if(cert == encodeCert(peer, group)) return; }
			w.log("an answer with a bad certificate");
			if(keyed) unmatchedExpected++;
			rhello(tag, s.bytes(66), cert, place(s.below(6)));
			break;
		}
		case 2: w.log("a cookie change for another cookie"); { Bytes o = keyed ? alter(cookie) : s.bytes(66); cookieChange(keyed && s.chance(3, 4) ? isid : s.irange(0, 4) << 24, o, s.bytes(66)); } break;
		case 3: if(keyed) { uint32_t sid = isid ^ (1u << s.below(32)); w.log("a cookie change for another session"); cookieChange(sid, cookie, s.bytes(66)); } break;
		case 4: w.log("keying signed by another"); rikeying(keyed ? isid : s.pick<uint32_t>({ 2, 3, 0x02000000 }), s.bytes(12), "mallory", skic, false); break;
		case 5: w.log("keying with a bad signature"); rikeying(keyed ? isid : s.pick<uint32_t>({ 2, 3, 0x02000000 }), s.bytes(12), peer, skic, true); break;
		case 6: w.log("keying signed over another component"); rikeying(keyed ? isid : s.pick<uint32_t>({ 2, 3, 0x02000000 }), s.bytes(12), peer, alter(skic), false); break;
		default:
		{
			Bytes body, chunks;
			Bytes t = s.bytes(s.below(20));
			if(t == tag) return;
			w.log("a redirect with another tag");
			putField(body, t);
			Bytes a = place(s.below(6)).encode();
			body.insert(body.end(), a.begin(), a.end());
			putChunk(chunks, 0x71, body);
			startup(chunks, place(s.below(6)), 1);
		}
		}
		settle();
		look();
		PBT_CHECK(bound0 == Net::bound(f), "a startup packet nobody asked for changed whether the flow has a session");
	}

	void go()
	{
		peer = s.pick<std::string>({ "alice", "zoe" });
		group = s.flip() ? "red" : "";
		epd = group.size() && s.flip() ? groupEPD(group) : canonicalEPD(peer);
		f = app.open(&bob, epd);
		for(int n = s.irange(1, 3); n--; ) { Address a = place(s.below(6)); candidates.insert(a); bob.enter([&] { f->flow->addCandidateAddress(a, s.pick<double>({ 0, 0.3 })); }); }
		bool watch = s.flip();
		if(watch)
			bob.rtmfp->onUnmatchedRHello = [this] (const void *t, size_t tn, const void *, size_t, const void *, size_t, int, const struct sockaddr *) {
				PBT_CHECK(keyed || opened || Bytes((const uint8_t *)t, (const uint8_t *)t + tn) != tag || !helloSeen || offers.size(), "the answer to our own hello was handed to the application");
				unmatched++;
			};
		app.write(f, s.below(500));
		w.run(1);
		look();
		PBT_CHECK(helloSeen, "no hello was sent to the candidate addresses");
		for(int n = s.below(12); n--; ) { junk(); if(s.chance(1, 4)) { w.run(s.pick<double>({ 0.5, 3 })); look(); } }
		validHello();
		for(int n = s.below(4); n--; ) { if(s.flip()) w.run(0.01); validHello(); }
		settle();
		look();
		PBT_CHECK(keyed, "the right answer to a hello led to no keying request");
		for(int n = s.below(14); n--; )
		{
			switch(s.weighted({ 5, 2, 2 }))
			{
			case 0: junk(); break;
			case 1: validHello(); settle(); look(); break;
			default:
			{
				Bytes was = cookie, n = s.bytes(66);
				if(s.flip() && changesOffered.size()) n = changesOffered.back();
				bool first = !changeSent;
				changeSent = true;
				changesOffered.push_back(n);
				w.log("cookie change");
				cookieChange(isid, cookie, n);
				settle();
				look();
				if(first && n != was) PBT_CHECK(changed && cookie == n, "a cookie change was not followed");
			}
			}
			if(s.chance(1, 4)) { w.run(s.pick<double>({ 0.5, 3, 9 })); look(); }
		}
		PBT_CHECK(!Net::bound(f), "the flow has a session before keying was answered");
		w.log("the peer answers the keying request");
		Bytes skrc = s.bytes(12);
		opened = true; openedAt = w.now;
		uint64_t key = keyFromNonces(skic, skrc);
		w.keyEnds[key] = { &bob.simCrypto, nullptr, skic, skrc };
		rikeying(isid, skrc, peer, skic, false);
		for(int n = s.below(3); n--; ) rikeying(isid, skrc, peer, skic, s.flip());
		bool data = false;
		w.onSend.push_back([&data, key] (Pkt &p) { if(p.known && p.key == key && p.dec.hasData()) data = true; });
		settle();
		look();
		w.onSend.pop_back();
		PBT_CHECK(Net::bound(f), "the flow has no session after the right keying answer");
		PBT_CHECK(f->flow->getFarCanonicalEPD() == canonicalEPD(peer) && f->flow->getFarCertificate() == encodeCert(peer, group), "the flow's session is with another peer");
		PBT_CHECK(f->flow->getFarAddress() == dest, "the flow's session is with %s, it opened at %s", f->flow->getFarAddress().toPresentation().c_str(), dest.toPresentation().c_str());
		PBT_CHECK(data, "nothing was sent in the new session");
		if(watch) PBT_CHECK(unmatched >= unmatchedExpected, "%lu hello answers matched nothing, the application was told of %lu", unmatchedExpected, unmatched);
		s.label("junk", junked);
		s.label("cookie changed", changed);
		s.label("answers", offers.size());
		if(junked) s.nontrivial();
		app.dropAll();
		bob.destroy();
	}
};

void responder(Src &s) { Responding r(s); r.go(); }
void initiator(Src &s) { OpeningAlone o(s); o.go(); }
Register r({"P15", "a real responder, and raw initiators at 5 addresses and 2 interfaces that send hellos, keying requests with cookies fresh, expired, altered, spliced, of other addresses or endpoints, bad certificates and signatures, and copies at once or later; every answer and the number of session keys are predicted by a model of the cookies issued; and a real initiator given answers with wrong tags, certificates, cookies, signatures and session ids in between the right ones; non-trivial: a session created and a request refused or redirected to a new cookie, or junk sent to an opening session", {
	{"responder", responder, 12000, 600000},
	{"initiator", initiator, 8000, 400000},
}, { "a cookie between 95 and 96 seconds old is either", "a cookie altered only in its address binding cannot be told from one of another address, and gets a replacement", "virtual clock, simulated crypto" }});

} // namespace
