// P14: sessions follow their peer's address, and only to addresses proven to be its.
#include "net.hpp"
#include <algorithm>
using namespace sim;
using pbt::Register;

namespace {

struct MobCfg { bool moves, outsider, hostile, multihomed, longWaits; int eps; };

const char FINAL = 90;

struct Challenge { Bytes body; Address addr; int iface; Time at; uint64_t ts; };
struct End {
	Endpoint *e { nullptr };
	uint64_t key { 0 };
	bool known { false };
	int iface { 0 };
	Address dest;
	std::set<std::pair<Address, int> > old; // at the start of this instant and during it
	Time acceptedAt { -1 };
	uint64_t lastTs { 0 };
	std::vector<Challenge> challenges;
	unsigned long accepted { 0 };
	bool maybe { false }; // an answer around the end of its life may have been taken
	Address maybeAddr;
	int maybeIface { 0 };
	std::map<Flow *, unsigned long> acceptedBefore; // answers accepted before the flow existed
	uint32_t sid { 0 }; // session id this end receives on
	bool sidKnown { false };
};

struct Mobility : Net {
	MobCfg c;
	std::map<std::pair<int, uint64_t>, End> ends;
	std::vector<Pkt> captured;       // what an outsider saw
	std::vector<std::pair<Pkt, Endpoint *> > answersSeen;
	std::vector<Pkt> challengesSeen; // challenges that reached the outsider
	bool attacking { false };
	bool hijacked { false };
	int nextAddr { 50 };
	unsigned long moves { 0 }, moved { 0 }, challenges { 0 }, forged { 0 }, spoofs { 0 }, relays { 0 }, rejected { 0 };

	explicit Mobility(Src &s_, const MobCfg &c_) : Net(s_), c(c_)
	{
		w.onSend.push_back([this] (Pkt &p) { sent(p); });
		w.onDelivered.push_back([this] (Pkt &p, Endpoint *to, bool) { arrived(p, to); });
		w.unrouted = [this] (Pkt &p) { if(p.known && p.dec.mode() != 3 && challengeOf(p)) challengesSeen.push_back(p); return true; };
	}
	static const Chunk *challengeOf(const Pkt &p)
	{
		for(auto &ch : p.dec.chunks) if(ch.type == 0x01 && ch.body.size() > 1) return &ch;
		return nullptr;
	}
	End &end(Endpoint *e, uint64_t key) { End &x = ends[{ e->index, key }]; x.e = e; x.key = key; return x; }

	void sent(Pkt &p)
	{
		if(!p.known || p.dec.mode() == 3) return;
		End &x = end(p.from, p.key);
		SimCrypto *o = w.otherEnd(p.key, &p.from->simCrypto);
		Endpoint *other = o ? named(o->name) : nullptr;
		if(other) { End &y = end(other, p.key); y.sid = wireSessionID(p.bytes); y.sidKnown = true; }
		if(attacking && captured.size() < 400) captured.push_back(p);
		if(const Chunk *ch = challengeOf(p))
		{
			challenges++;
			Challenge h { ch->body, p.dst, p.iface, w.now, 0 };
			ref::getVLU(ch->body.data() + 1, ch->body.size() - 1, &h.ts);
			x.challenges.push_back(h);
			w.log("  a challenge");
			return;
		}
		if(!x.known) { x.known = true; x.iface = p.iface; x.dest = p.dst; }
		if(w.now <= x.acceptedAt && x.old.count({ p.dst, p.iface })) return; // was queued as the answer came
		if(x.maybe && p.dst == x.maybeAddr && p.iface == x.maybeIface) { x.dest = p.dst; x.iface = p.iface; }
		PBT_CHECK(p.dst == x.dest && p.iface == x.iface, "%s sends to %s on interface %d, its peer was last proven to be at %s on %d", p.from->simCrypto.name.c_str(), p.dst.toPresentation().c_str(), p.iface, x.dest.toPresentation().c_str(), x.iface);
	}

	std::vector<SFlow *> sendersOf(End &x) { std::vector<SFlow *> v; for(auto *f : sending(x.e)) if(bound(f) && keyOf(f->flow.get()) == x.key) v.push_back(f); return v; }
	std::vector<RFlow *> receiversOf(End &x) { std::vector<RFlow *> v; for(auto *f : receiving(x.e)) if(keyOf(f->flow.get()) == x.key) v.push_back(f); return v; }
	uint64_t keyOf(Flow *f)
	{
		Bytes a = f->getNearNonce(), b = f->getFarNonce();
		if(a.empty()) return 0;
		uint64_t k = keyFromNonces(a, b);
		return w.keyEnds.count(k) ? k : keyFromNonces(b, a);
	}

	void arrived(Pkt &p, Endpoint *to)
	{
		if(p.bytes.size() < 12) return;
		int iface = -1;
		if(w.find(p.dst, &iface) != to) return;
		Bytes sealed(p.bytes.begin() + 4, p.bytes.end()), plain;
		for(auto &k : w.keyEnds)
		{
			if(k.second.i != &to->simCrypto && k.second.r != &to->simCrypto) continue;
			End &x = end(to, k.first);
			if(!x.sidKnown || wireSessionID(p.bytes) != x.sid || !unseal(k.first, sealed, plain)) continue;
			Decoded d = decode(plain);
			if(d.mode() != (k.second.i == &to->simCrypto ? 2 : 1)) continue;
			for(auto &ch : d.chunks)
			{
				if(ch.type != 0x41 || ch.body.size() < 2) continue;
				uint64_t ts = 0;
				ref::getVLU(ch.body.data() + 1, ch.body.size() - 1, &ts);
				bool valid = false, stale = false;
				for(auto &h : x.challenges) if(h.body == ch.body && h.addr == p.src && h.iface == iface) { if(w.now > h.at + 119) stale = true; else valid = true; }
				if(ts <= x.lastTs) { valid = false; stale = false; }
				if(stale && !valid)
				{
					// around the end of an answer's life either is right
					bool young = false;
					for(auto &h : x.challenges) if(h.body == ch.body && w.now < h.at + 122) young = true;
					if(young) { x.accepted++; x.maybe = true; x.maybeAddr = p.src; x.maybeIface = iface; } // may have been taken
				}
				if(!valid) { rejected++; w.log("  an answer to ignore"); continue; }
				w.log("  a valid answer: %s is at %s", w.otherEnd(k.first, &to->simCrypto)->name.c_str(), p.src.toPresentation().c_str());
				bool change = x.known && !(x.dest == p.src);
				if(change) moved++;
				if(x.acceptedAt < w.now) x.old.clear();
				x.old.insert({ x.dest, x.iface }); x.acceptedAt = w.now;
				x.maybe = false;
				x.known = true; x.dest = p.src; x.iface = iface; x.lastTs = ts; x.accepted++;
				if(change)
				{
					std::vector<std::pair<SFlow *, int> > sv; std::vector<std::pair<RFlow *, int> > rv;
					for(auto *f : sendersOf(x)) sv.push_back({ f, countBefore(f) });
					for(auto *f : receiversOf(x)) rv.push_back({ f, countBefore(f) });
					w.after(0, [this, sv, rv] {
						for(auto &q : sv) if(q.first->open()) PBT_CHECK(q.first->addrChanges > q.second, "flow %u was not told of its peer's new address", q.first->uid);
						for(auto &q : rv) if(q.first->open()) PBT_CHECK(q.first->addrChanges > q.second, "receiving flow %u was not told of its peer's new address", q.first->uid);
					});
				}
			}
		}
		w.after(0, [this] { verify(); });
	}
	std::map<void *, int> seenChanges; // as of the last verification
	template<class F> int countBefore(F *f) { return seenChanges.count(f) ? seenChanges[f] : 0; }

	bool ended { false };
	void verify()
	{
		if(ended) return;
		for(auto &i : ends)
		{
			End &x = i.second;
			auto each = [&] (Flow *f, int changes, unsigned uid, void *id) {
				if(!x.acceptedBefore.count(f)) x.acceptedBefore[f] = changes ? 0 : x.accepted;
				PBT_CHECK(changes + x.acceptedBefore[f] <= x.accepted, "flow %u was told %d times that its peer's address changed, after %lu verifications", uid, changes, x.accepted - x.acceptedBefore[f]);
				seenChanges[id] = changes;
				if(x.maybe && f->getFarAddress() == x.maybeAddr) x.dest = x.maybeAddr;
				if(x.known) PBT_CHECK(f->getFarAddress() == x.dest, "the peer of flow %u is said to be at %s, it was last proven to be at %s", uid, f->getFarAddress().toPresentation().c_str(), x.dest.toPresentation().c_str());
			};
			for(auto *f : sendersOf(x)) each(f->flow.get(), f->addrChanges, f->uid, f);
			for(auto *f : receiversOf(x)) each(f->flow.get(), f->addrChanges, f->uid, f);
		}
	}

	Endpoint *otherOf(End &x) { SimCrypto *o = w.otherEnd(x.key, &x.e->simCrypto); return o ? named(o->name) : nullptr; }
	bool right(End &x) { Endpoint *o = otherOf(x); int i; return o && x.known && w.find(x.dest, &i) == o; }
	// may every peer of e lose track of it: only if e knows where they are
	bool knowsPeers(Endpoint *e)
	{
		bool any = false;
		for(auto &i : ends) if(i.second.e == e) { if(!right(i.second)) return false; any = true; }
		return any;
	}

	// answers from where it was may still be on their way
	std::map<Endpoint *, Time> lastMove;
	bool settled(Endpoint *e) { return !lastMove.count(e) || w.now > lastMove[e] + 8; }
	std::vector<Address> vacated;
	void move(Endpoint *e)
	{
		if(!knowsPeers(e)) return;
		for(auto &o : eps) if(o.get() != e && !settled(o.get())) return;
		auto it = e->ifaces.begin();
		std::advance(it, s.below(e->ifaces.size()));
		Address now;
		int dummy;
		if(vacated.size() && s.chance(1, 2)) now = s.pick(vacated);
		else now = s.chance(1, 3) ? ip(it->second.getSockaddr()->sa_family == AF_INET ? nextAddr++ : nextAddr++, 1) : ip(nextAddr++, 1, int(2000 + s.below(5)));
		if(w.find(now, &dummy)) return;
		moves++;
		lastMove[e] = w.now;
		w.log("%s moves from %s to %s", e->simCrypto.name.c_str(), it->second.toPresentation().c_str(), now.toPresentation().c_str());
		vacated.push_back(it->second);
		it->second = now;
	}
	Address somewhere()
	{
		if(vacated.size() && s.chance(1, 3)) return s.pick(vacated);
		return s.chance(1, 6) ? s.pick(eps)->addr(1) : ip(220 + int(s.below(4)), 1);
	}
	// an address almost the same
	Address near(Address a)
	{
		if(s.flip()) a.setPort(a.getPort() ^ (1 << s.below(16)));
		else { sockaddr_in i; memcpy(&i, a.getSockaddr(), sizeof(i)); i.sin_addr.s_addr ^= htonl(1u << s.below(24)); a.setSockaddr((const sockaddr *)&i); }
		return a;
	}
	// whoever sees packets but has no keys
	void outsider()
	{
		if(s.chance(1, 3) && challengesSeen.size())
		{
			// show a challenge that came here to the peer, as if from here or its maker
			Pkt p = challengesSeen[challengesSeen.size() - 1 - s.below(std::min<size_t>(challengesSeen.size(), 4))];
			if(p.sent < w.now - 4) return;
			SimCrypto *o = w.otherEnd(p.key, &p.from->simCrypto);
			if(!o) return;
			relays++;
			Endpoint *t = named(o->name);
			w.log("an outsider relays challenge #%llu", (unsigned long long)p.id);
			w.inject(p.bytes, s.flip() ? p.src : p.dst, t->ifaces.begin()->second);
			return;
		}
		// a replayed echo is a round trip as long as it is old (the protocol leaves replays to the crypto), so not older than this
		captured.erase(std::remove_if(captured.begin(), captured.end(), [&] (const Pkt &p) { return p.sent < w.now - 4; }), captured.end());
		if(captured.empty()) return;
		std::vector<size_t> replies;
		for(size_t i = 0; i < captured.size(); i++) for(auto &ch : captured[i].dec.chunks) if(ch.type == 0x41 && ch.body.size() > 1) replies.push_back(i);
		size_t pickOne = replies.size() && s.flip() ? s.pick(replies) : captured.size() - 1 - s.below(std::min<size_t>(captured.size(), 30));
		Pkt p = captured[pickOne];
		SimCrypto *o = w.otherEnd(p.key, &p.from->simCrypto);
		if(!o) return;
		Endpoint *t = named(o->name);
		if(t->ifaces.empty()) return;
		auto it = t->ifaces.begin();
		std::advance(it, s.below(t->ifaces.size()));
		Address from = s.chance(1, 4) ? near(p.src) : somewhere();
		if(s.flip()) for(auto &ch : p.dec.chunks) if(ch.type == 0x41) for(auto &h : end(t, p.key).challenges) if(h.body == ch.body) from = s.flip() ? h.addr : near(h.addr);
		// as the target's and the peer's address must not both be lost, the outsider does not pass a challenge on both ways unless the other end is well
		for(auto &ch : p.dec.chunks)
			if(ch.type == 0x41)
			{
				int i;
				End &x = end(t, p.key), &y = end(p.from, p.key);
				bool wouldWork = false;
				for(auto &h : x.challenges) if(h.body == ch.body && h.addr == from) wouldWork = true;
				if(wouldWork && (!right(y) || !w.find(p.src, &i) || !settled(t))) return;
				if(wouldWork) hijacked = true;
			}
		spoofs++;
		w.log("an outsider replays #%llu from %s", (unsigned long long)p.id, from.toPresentation().c_str());
		w.inject(p.bytes, from, it->second);
	}
	// a peer that lies about where it is
	void hostile()
	{
		std::vector<End *> v;
		for(auto &i : ends) if(i.second.sidKnown && i.second.known) v.push_back(&i.second);
		if(v.empty()) return;
		End &x = *s.pick(v);
		Endpoint *peer = otherOf(x);
		if(!peer || !right(end(peer, x.key))) return;
		auto it = x.e->ifaces.begin();
		std::advance(it, s.below(x.e->ifaces.size()));
		Address from = somewhere();
		Bytes body;
		if(x.challenges.size() && s.chance(5, 6))
		{
			Challenge &h = x.challenges[x.challenges.size() - 1 - s.below(std::min<size_t>(x.challenges.size(), 5))];
			body = h.body;
			if(s.flip()) { from = h.addr; if(s.flip()) from = near(from); }
			switch(s.below(6))
			{
			case 0: case 1: break;
			case 2: body[s.below(body.size())] ^= uint8_t(1 << s.below(8)); break;
			case 3: body.resize(s.below(body.size())); break;
			case 4: body.push_back(uint8_t(s.below(256))); break;
			default:
			{
				// another moment, same proof
				uint64_t ts;
				size_t n = ref::getVLU(h.body.data() + 1, h.body.size() - 1, &ts);
				Bytes b { h.body[0] };
				ref::putVLU(b, s.pick<uint64_t>({ ts + 1, ts - 1, ts + 100, uint64_t(-1), uint64_t(-1) - 120, 0 }));
				b.insert(b.end(), h.body.begin() + 1 + n, h.body.end());
				body = b;
			}
			}
		}
		else { body = s.bytes(s.below(45)); if(body.size() && s.flip()) body[0] = 'M'; }
		Bytes chunks;
		if(s.flip()) putChunk(chunks, 0x01, s.bytes(s.below(4)));
		putChunk(chunks, 0x41, body);
		if(s.chance(1, 4)) putChunk(chunks, 0x41, body);
		int mode = w.keyEnds[x.key].i == &x.e->simCrypto ? 2 : 1;
		for(auto &h : x.challenges) if(h.body == body && h.addr == from && !settled(x.e)) return;
		forged++;
		w.log("%s claims to be at %s: answers %zu bytes", peer->simCrypto.name.c_str(), from.toPresentation().c_str(), body.size());
		w.inject(makePacket(x.sid, x.key, s.u64(), uint8_t(mode), chunks), from, it->second);
	}

	void go()
	{
		static const char *names[] = { "alice", "bob", "carol" };
		for(int i = 0; i < c.eps; i++)
		{
			Endpoint *e = add(names[i], "", c.multihomed ? s.irange(1, 2) : 1);
			e->simCrypto.txMargin = s.below(17);
			e->epoch = w.now;
			double kp = s.pick<double>({ 2, 1, 5 });
			e->enter([&] { e->rtmfp->setDefaultSessionKeepalivePeriod(kp); e->rtmfp->setDefaultSessionRetransmitLimit(1000); e->rtmfp->setDefaultSessionIdleLimit(5000); });
		}
		w.run(s.pick<double>({ 1.5, 0, 0.3, 7 }));
		for(size_t i = 0; i < eps.size(); i++) for(size_t j = i + 1; j < eps.size(); j++)
		{
			Endpoint *a = eps[i].get(), *b = eps[j].get();
			if(s.flip()) std::swap(a, b);
			SFlow *f = app.open(a, b->epd());
			a->enter([&] { f->flow->addCandidateAddress(b->addr(s.irange(1, int(b->ifaces.size())))); });
			app.write(f, s.below(2000));
			w.run(s.pick<double>({ 1, 3 }));
		}
		if(s.chance(2, 3)) for(auto &a : eps) for(auto &b : eps) if(a != b)
		{
			Path &q = w.path(a.get(), b.get());
			q.delay = s.pick<double>({ 0.02, 0, 0.2, 1.2 });
			if(s.flip()) q.jitter = s.pick<double>({ 0.05, 2.5 });
			if(s.chance(1, 3)) q.loss = s.pick<double>({ 0.1, 0.4 });
			if(s.chance(1, 3)) q.dup = 0.3;
			q.fifo = s.flip();
		}
		attacking = true;
		bool delivered = false;
		for(int n = s.irange(5, 60); n--; )
		{
			Endpoint *e = s.pick(eps).get();
			switch(s.weighted({ 4, c.moves ? 3u : 0u, c.outsider ? 5u : 0u, c.hostile ? 5u : 0u, 2, 1 }))
			{
			case 0: { auto v = sending(e); if(v.size()) app.write(s.pick(v), s.len(6000)); break; }
			case 1: move(e); break;
			case 2: outsider(); break;
			case 3: hostile(); break;
			case 4:
				if(app.sflows.size() < 12)
				{
					auto ss = sending(e); auto rr = receiving(e);
					SFlow *f = nullptr;
					if(rr.size() && s.flip()) f = app.openOn(s.pick(rr));
					else if(ss.size()) f = app.openOn(s.pick(ss));
					if(f) app.write(f, s.below(1000));
				}
				break;
			default: break;
			}
			w.run(s.pick<double>({ 0.05, 0, 0.01, 0.3, 1, 1, 2, 5, c.longWaits ? 118 : 1.5 }));
			verify();
		}
		attacking = false;
		heal();
		for(auto *f : sending()) app.write(f, s.below(1000));
		std::string why;
		bool ok = w.runWhile([&] {
			for(auto &i : ends) if(!right(i.second)) { why = i.second.e->simCrypto.name + " does not know where its peer is"; return true; }
			for(auto *f : sending()) if(!app.reliableComplete(*f)) { why = "what was written to flow " + std::to_string(f->uid) + " was not delivered"; return true; }
			return false;
		}, FINAL);
		PBT_CHECK(ok, "%d seconds after the network healed: %s", FINAL, why.c_str());
		for(auto &x : app.sflows) PBT_CHECK(!x.second->exceptions, "flow %u failed", x.second->uid);
		verify();
		for(auto &r : app.rflows) if(r->got.size()) delivered = true;
		for(auto &i : ends) PBT_CHECK(i.second.known, "an end of a session never sent anything");
		ended = true;
		s.label("moves", moves);
		s.label("verified changes of address", moved);
		s.label("challenges", challenges);
		s.label("answers to ignore", rejected);
		s.label("replays from elsewhere", spoofs);
		s.label("challenges relayed", relays);
		s.label("forged answers", forged);
		s.label("hijacks by relaying everything", hijacked);
		if(delivered && challenges && (moved || rejected)) s.nontrivial();
	}
};

void run(Src &s, const MobCfg &c) { Mobility m(s, c); m.go(); m.destroy(false); }
void moving(Src &s) { run(s, { true, false, false, false, false, s.irange(2, 3) }); }
void outsiders(Src &s) { run(s, { s.flip(), true, false, s.flip(), s.chance(1, 4), s.irange(2, 3) }); }
void liars(Src &s) { run(s, { s.flip(), s.chance(1, 4), true, s.flip(), s.chance(1, 3), 2 }); }
Register r({"P14", "histories of 2 or 3 endpoints whose addresses change, to new ones and to ones others left, on one or two interfaces, while outsiders replay captured packets from other addresses and relay challenges, and peers answer challenges altered, late, twice or from elsewhere; every packet's destination, getFarAddress and the change callback follow a model fed by decoded challenges and answers, and data must flow again after the network heals; non-trivial: data delivered, a challenge sent and an address change verified or an answer to be ignored", {
	{"moving", moving, 3000, 150000},
	{"outsiders", outsiders, 3500, 150000},
	{"liars", liars, 3500, 150000},
}, { "at most one end of a session loses track of the other at a time", "an answer 119 to 122 seconds old may be accepted or not", "virtual clock, simulated crypto" }});

} // namespace
