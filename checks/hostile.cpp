// P08: datagrams from strangers, from a malicious authenticated peer, and malformed ones within an honest session.
#include "net.hpp"
using namespace sim;
using pbt::Register;

namespace {

Bytes cat(Bytes a, const Bytes &b) { a.insert(a.end(), b.begin(), b.end()); return a; }
Bytes vlu(uint64_t v) { Bytes b; ref::putVLU(b, v); return b; }

struct Hostile : Net {
	Endpoint *alice, *bob, *mallory { nullptr };
	std::vector<SFlow *> honest;
	unsigned long injected { 0 }, chunksIn { 0 }, foreign { 0 }, foreignMsgs { 0 }, answered { 0 }, cookies { 0 }, intruders { 0 };
	bool opened { false };

	struct Chan { uint64_t key { 0 }; uint32_t sid { 0 }; uint8_t mode { 0 }; }; // what one needs to speak to alice as somebody
	std::map<Endpoint *, Chan> chan;
	std::vector<std::pair<bool, Bytes> > seen; // packets that travelled to alice, to replay; not keying requests
	std::vector<Pkt> keyings;
	std::vector<Bytes> stolen;              // cookies alice gave strangers
	std::set<uint32_t> sids;
	uint64_t iv { 1 };

	struct Foreign {
		std::shared_ptr<RecvFlow> flow;
		bool accepted { false }, closed { false };
		int completes { 0 };
		uint64_t lastSN { 0 };
		bool everNetwork { false };
	};
	std::vector<std::unique_ptr<Foreign> > foreigns;
	std::vector<std::shared_ptr<SendFlow> > returns;
	bool allowForeign { false };
	std::shared_ptr<SendFlow> own; // mallory's

	explicit Hostile(Src &s_) : Net(s_)
	{
		alice = add("alice"); bob = add("bob");
		w.onSend.push_back([this] (Pkt &p) {
			if(!p.known) return;
			Endpoint *to = nullptr;
			for(auto &e : eps) if(p.dst == e->addr(1)) to = e.get();
			if(to == alice)
			{
				bool keying = false;
				if(p.dec.mode() == 3) { for(auto &c : p.dec.chunks) if(c.type == 0x38) keying = true; }
				else { Chan &c = chan[p.from]; c.key = p.key; c.sid = wireSessionID(p.bytes); c.mode = uint8_t(p.dec.mode()); }
				uint32_t sid = wireSessionID(p.bytes);
				if(sid) sids.insert(sid);
				if(keying) keyings.push_back(p);
				else if(p.from != mallory) seen.push_back({ p.dec.mode() == 3, p.bytes });
			}
		});
		w.unrouted = [this] (Pkt &p) {
			if(p.from == alice && p.known && p.dec.mode() == 3)
				for(auto &c : p.dec.chunks)
					if(c.type == 0x70)
					{
						const uint8_t *q = c.body.data(), *l = q + c.body.size();
						field(q, l);
						stolen.push_back(field(q, l));
						cookies++;
					}
			if(p.from == alice) answered++;
			return true;
		};
		app.onForeign = [this] (Endpoint *ep, std::shared_ptr<RecvFlow> flow) { announced(ep, flow); };
	}

	void announced(Endpoint *ep, std::shared_ptr<RecvFlow> flow)
	{
		PBT_CHECK(allowForeign && ep == alice, "a flow nobody opened was announced to %s", ep->simCrypto.name.c_str());
		foreign++;
		Foreign *f = new Foreign;
		foreigns.emplace_back(f);
		f->flow = flow;
		w.log("alice is told of a foreign flow");
		flow->onMessage = [this, f] (const uint8_t *p, size_t n, uintmax_t sn, size_t fragments) {
			PBT_CHECK(f->accepted && !f->closed && !f->completes, "message on a foreign flow that ended");
			PBT_CHECK(fragments > 0, "message of no fragments");
			if(!f->everNetwork) { PBT_CHECK(sn > f->lastSN || (sn == 0 && f->lastSN == 0) , "foreign flow delivers sequence number %llu after %llu", (unsigned long long)sn, (unsigned long long)f->lastSN); f->lastSN = sn + fragments - 1; }
			volatile uint8_t x = 0;
			for(size_t i = 0; i < n; i++) x ^= p[i];
			foreignMsgs++;
			act(f, true);
		};
		flow->onComplete = [this, f] (bool) {
			PBT_CHECK(f->accepted && !f->closed, "completion of a foreign flow that was not open");
			PBT_CHECK(++f->completes == 1, "foreign flow completed %d times", f->completes);
			if(s.chance(1, 4)) act(f, true);
		};
		flow->onCumulativeAckDidMerge = [this, f] { PBT_CHECK(!f->closed && !f->completes, "merge reported on a foreign flow that ended"); };
		flow->onFarAddressDidChange = [] {};
		switch(s.weighted({ 8, 1, 2 }))
		{
		case 0: case 2: flow->accept(); f->accepted = true; break;
		default: if(s.flip()) { flow->close(s.u64()); f->closed = true; } break;
		}
		if(s.chance(1, 3)) { flow->setReceiveOrder(RO_NETWORK); f->everNetwork = true; }
		if(s.chance(1, 4)) flow->setBufferCapacity(s.sized(200000));
		if(s.chance(1, 5)) returnFlow(f);
	}
	void returnFlow(Foreign *f)
	{
		if(returns.size() > 40) return;
		auto r = f->flow->openReturnFlow(Bytes { 'x' });
		if(!r) return;
		r->onException = [] (uintmax_t) {};
		r->onWritable = [] { return false; };
		r->notifyWhenWritable();
		r->onRecvFlow = [this] (std::shared_ptr<RecvFlow> flow) { announced(alice, flow); };
		if(s.flip()) r->write(Bytes(s.below(3000)), s.chance(1, 3) ? 0.1 : INFINITY);
		returns.push_back(r);
	}
	void act(Foreign *f, bool inside)
	{
		switch(s.weighted({ inside ? 30u : 2u, 2, 2, 2, 1, 1, 1 }))
		{
		case 0: break;
		case 1: if(!f->closed) { f->closed = true; f->flow->close(s.below(10)); } break;
		case 2: { ReceiveOrder o = s.pick<ReceiveOrder>({ RO_SEQUENCE, RO_NETWORK, RO_HOLD }); if(o == RO_NETWORK) f->everNetwork = true; f->flow->setReceiveOrder(o); } break;
		case 3: returnFlow(f); break;
		case 4: f->flow->setBufferCapacity(s.sized(100000)); break;
		case 5: if(returns.size()) { auto r = s.pick(returns); if(s.flip()) r->close(); else r->write(Bytes(s.below(2000))); } break;
		default: f->flow->setWindowLimit(s.sized(100000)); break;
		}
	}

	// ---

	bool synchronous { true };
	uint64_t txMark { 0 };
	void inject(const Bytes &b, const Address &from)
	{
		injected++;
		uint64_t before = alice->txPackets;
		w.inject(b, from, alice->addr(1));
		uint64_t n = alice->txPackets - before;
		PBT_CHECK(n <= 600, "%llu packets were sent on one packet received", (unsigned long long)n);
	}
	Address anyAddress()
	{
		switch(s.below(4))
		{
		case 0: return bob->addr(1);
		case 1: return mallory ? mallory->addr(1) : ip(77, 1);
		default: return ip(70 + int(s.below(4)), 1, s.pick<int>({ 1935, 1, 65535 }));
		}
	}
	Bytes mutate(Bytes b)
	{
		for(int n = s.irange(1, 4); n--; )
			switch(s.below(5))
			{
			case 0: if(b.size()) b[s.below(b.size())] ^= uint8_t(1 << s.below(8)); break;
			case 1: if(b.size()) b.resize(s.below(b.size() + 1)); break;
			case 2: b = cat(b, s.bytes(s.below(30))); break;
			case 3: if(b.size()) b[s.below(b.size())] = s.pick<uint8_t>({ 0, 0x7f, 0x80, 0xff }); break;
			default: if(b.size() > 4) b.erase(b.begin() + s.below(b.size()), b.end() - s.below(2)); break;
			}
		return b;
	}
	uint64_t num() { switch(s.below(6)) { case 0: return s.sized(UINT64_MAX); case 1: return s.pick<uint64_t>({ INT64_MAX, uint64_t(INT64_MAX) + 1, UINT64_MAX, UINT64_MAX - 1, uint64_t(1) << 32, 0 }); default: return s.below(12); } }
	Bytes num(uint64_t v) { if(s.chance(1, 30)) return Bytes(s.irange(1, 14), uint8_t(0x80 | s.below(128))); Bytes b = vlu(v); if(s.chance(1, 20)) b.insert(b.begin(), s.irange(1, 12), 0x80); return b; }

	Bytes startupChunk(uint8_t &type)
	{
		Bytes b;
		Bytes tag = s.flip() ? s.bytes(16) : s.bytes(s.len(600));
		switch(s.weighted({ 4, 2, 2, 6, 2, 2, 1 }))
		{
		case 0:
			type = 0x30;
			putField(b, s.chance(2, 3) ? alice->epd() : s.bytes(s.len(200)));
			b = cat(b, s.chance(1, 10) ? s.bytes(s.len(3000)) : tag);
			break;
		case 1:
			type = 0x70;
			putField(b, tag); putField(b, s.bytes(s.len(200)));
			b = cat(b, s.flip() ? encodeCert("bob", "") : s.bytes(s.len(100)));
			break;
		case 2:
			type = 0x71;
			putField(b, tag);
			for(int n = s.below(40); n--; ) { Bytes e = ip(s.below(300), 1).encode(); b = cat(b, s.chance(1, 10) ? s.bytes(s.below(20)) : e); }
			break;
		case 3:
		{
			type = 0x38;
			for(int i = 0; i < 4; i++) b.push_back(uint8_t(s.chance(3, 4) ? (i ? 0 : s.below(10)) : s.below(256)));
			Bytes c = stolen.size() && s.chance(4, 5) ? s.pick(stolen) : s.bytes(s.len(80));
			if(s.chance(1, 6)) c = mutate(c);
			putField(b, c);
			std::string who = s.pick<std::string>({ "bob", "eve", "oscar", "alice", "mallory" });
			Bytes cert = encodeCert(who, "", !s.chance(1, 4));
			if(s.chance(1, 8)) cert = mutate(cert);
			putField(b, cert);
			putField(b, s.chance(1, 8) ? s.bytes(s.len(2000)) : s.bytes(16));
			// a stranger can sign as himself, not as bob
			b = cat(b, s.chance(1, 4) ? s.bytes(s.len(64)) : signAs(who == "eve" || who == "oscar" ? who : "eve", b));
			break;
		}
		case 4:
			type = 0x78;
			b = cat(Bytes { uint8_t(s.below(6)), 0, 0, 0 }, Bytes());
			putField(b, s.bytes(s.len(40)));
			b = cat(b, s.bytes(16));
			break;
		case 5:
			type = 0x79;
			putField(b, s.bytes(s.len(80))); b = cat(b, s.bytes(s.len(80)));
			break;
		default: type = uint8_t(s.below(256)); b = s.bytes(s.len(100)); break;
		}
		if(s.chance(1, 6)) b = mutate(b);
		return b;
	}
	Bytes chunks(const std::function<Bytes(uint8_t &)> &gen, int max)
	{
		Bytes d;
		for(int n = s.irange(1, max); n--; ) { uint8_t t = 0; Bytes b = gen(t); if(d.size() + b.size() > 4000) break; putChunk(d, t, b); chunksIn++; }
		switch(s.below(12))
		{
		case 0: d.resize(s.below(d.size() + 1)); break;
		case 1: d = cat(d, Bytes(s.below(20), s.pick<uint8_t>({ 0, 0xff }))); break;
		case 2: d = cat(d, s.bytes(s.below(5))); break;
		default: break;
		}
		return d;
	}

	void outsider()
	{
		switch(s.weighted({ 2, 3, 3, 3, 8, 1 }))
		{
		case 0: inject(s.bytes(s.len(3000)), anyAddress()); break;
		case 1: // something for a session of alice's that does not decrypt
		{
			uint32_t sid = sids.size() && s.flip() ? *std::next(sids.begin(), s.below(sids.size())) : uint32_t(s.below(8));
			Bytes b = s.bytes(4 + s.len(1400));
			uint32_t x[3] = { 0, 0, 0 };
			memcpy(x, b.data(), std::min<size_t>(12, b.size()));
			x[0] = sid ^ x[1] ^ x[2];
			memcpy(b.data(), x, 4);
			inject(b, anyAddress());
			break;
		}
		case 2: case 3: // a replay, perhaps altered
			if(seen.size())
			{
				auto &x = s.pick(seen);
				bool opening = false;
				for(auto *f : honest) if(!bound(f)) opening = true;
				if(!(x.first && opening)) inject(s.flip() ? mutate(x.second) : x.second, anyAddress());
			}
			break;
		case 4:
		{
			Address from = anyAddress();
			Bytes d = chunks([this] (uint8_t &t) { return startupChunk(t); }, 3);
			uint32_t sid = s.chance(1, 4) && sids.size() ? *std::next(sids.begin(), s.below(sids.size())) : 0;
			inject(makePacket(sid, 0, iv++, s.chance(1, 8) ? uint8_t(s.below(4)) : 3, d, s.chance(1, 6) ? long(s.below(65536)) : -1, s.chance(1, 6) ? long(s.below(65536)) : -1), from);
			break;
		}
		default: // somebody's keying request, from elsewhere
			if(keyings.size()) inject(s.pick(keyings).bytes, ip(70 + int(s.below(4)), 1));
			break;
		}
	}

	// a malicious peer
	std::map<uint64_t, uint64_t> nextSN;
	uint64_t flowID() { return s.weighted({ 10, 1 }) ? num() : 2 + s.below(4); }
	Bytes options()
	{
		Bytes b;
		auto opt = [&] (uint64_t type, const Bytes &v) { Bytes t = vlu(type); ref::putVLU(b, t.size() + v.size()); b = cat(cat(b, t), v); };
		if(!s.chance(1, 12)) opt(0, s.chance(1, 10) ? s.bytes(s.len(900)) : Bytes { 'y' });
		if(s.chance(1, 3)) opt(0x0a, s.chance(1, 12) ? Bytes() : num(num()));
		if(s.chance(1, 10)) opt(s.chance(1, 2) ? 0x2000 + s.below(10) : s.below(0x2000), s.bytes(s.below(20)));
		if(!s.chance(1, 15)) b.push_back(0);
		return b;
	}
	Bytes peerChunk(uint8_t &type)
	{
		Bytes b;
		switch(s.weighted({ 16, 6, 8, 2, 3, 1, 1, 1, 2, 2, 1, 1 }))
		{
		case 0: case 1:
		{
			uint64_t f = flowID();
			uint64_t &next = nextSN[f];
			bool fresh = !next;
			if(!next) next = 1;
			uint64_t sn;
			switch(s.weighted({ 12, 3, 3, 1 })) { case 0: sn = next; break; case 1: sn = next + s.below(4); break; case 2: sn = s.below(next + 2); break; default: sn = num(); break; }
			if(sn < UINT64_MAX - 10 && sn < next + 100) next = std::max(next, sn + 1);
			uint8_t fl = uint8_t(s.below(4) << 4);
			if(s.chance(1, 10)) fl |= 2;
			if(s.chance(1, 25)) fl |= 1;
			if(s.chance(1, 20)) fl |= 0x4c;
			bool opt = fresh || s.chance(1, 10);
			if(opt) fl |= 0x80;
			type = 0x10;
			b.push_back(fl);
			b = cat(b, num(f)); b = cat(b, num(sn));
			uint64_t off = s.chance(3, 4) ? sn : s.below(6);
			if(s.chance(1, 40)) off = sn + 1;
			b = cat(b, num(off));
			if(opt) b = cat(b, options());
			if(!(fl & 2) || s.chance(1, 4)) b = cat(b, s.bytes(s.len(40)));
			break;
		}
		case 2:
			type = 0x11;
			b.push_back(uint8_t(s.below(4) << 4 | (s.chance(1, 12) ? 2 : 0) | (s.chance(1, 25) ? 1 : 0)));
			b = cat(b, s.bytes(s.len(30)));
			break;
		case 3:
			type = s.chance(1, 4) ? 0x50 : 0x51;
			b = cat(b, num(s.chance(4, 5) ? 1 + s.below(8) : num())); b = cat(b, num(num())); b = cat(b, num(s.chance(1, 2) ? s.below(6) : num()));
			for(int n = s.below(s.chance(1, 10) ? 300 : 5); n--; ) { b = cat(b, num(num())); b = cat(b, num(num())); }
			break;
		case 4: type = 0x01; b = s.bytes(s.len(1100)); if(b.size() && s.flip()) b[0] = 'M'; break;
		case 5: type = 0x41; b = s.bytes(s.len(60)); if(b.size() && s.flip()) b[0] = 'M'; break;
		case 6: type = 0x5e; b = cat(num(s.chance(4, 5) ? 1 + s.below(8) : num()), num(num())); break;
		case 7: type = 0x18; b = num(flowID()); break;
		case 8: type = 0xec; b = s.bytes(s.below(3)); break;
		case 9:
			type = 0x0f;
			putField(b, s.chance(1, 3) ? alice->epd() : s.chance(1, 2) ? bob->epd() : s.bytes(s.len(100)));
			b = cat(b, s.chance(1, 6) ? s.bytes(s.below(20)) : anyAddress().encode());
			b = cat(b, s.bytes(s.len(100)));
			break;
		case 10: return startupChunk(type);
		case 11: type = s.chance(1, 12) ? s.pick<uint8_t>({ 0x0c, 0x4c }) : uint8_t(s.below(256)); b = s.bytes(s.len(200)); break;
		default: break;
		}
		if(s.chance(1, 14)) b = mutate(b);
		return b;
	}
	void peer()
	{
		auto it = chan.find(mallory);
		if(it == chan.end()) return;
		Chan c = it->second;
		Bytes d = chunks([this] (uint8_t &t) { return peerChunk(t); }, 8);
		inject(makePacket(c.sid, c.key, iv++, s.chance(1, 25) ? uint8_t(s.below(4)) : c.mode, d, s.chance(1, 3) ? long(s.below(65536)) : -1, s.chance(1, 8) ? long(s.below(65536)) : -1), s.chance(1, 10) ? anyAddress() : mallory->addr(1));
	}

	// in bob's name, nothing that means anything
	Bytes nonsense(uint8_t &type)
	{
		Bytes b;
		uint64_t big = s.pick<uint64_t>({ 5000, uint64_t(INT64_MAX) + 1, UINT64_MAX });
		switch(s.below(16))
		{
		case 0: type = s.pick<uint8_t>({ 0x02, 0x12, 0x20, 0x40, 0x52, 0x5f, 0x7f, 0xed, 0xc0 }); b = s.bytes(s.len(200)); break;
		case 1: type = 0x10; break;                                                        // no flags
		case 2: type = 0x10; b = Bytes { 0, 2 }; break;                                    // no sequence number
		case 3: type = 0x10; b = cat(Bytes { 0 }, cat(vlu(2), cat(vlu(3), vlu(4)))); break;  // forwards to before zero
		case 4: type = 0x10; b = cat(Bytes { 0x80 }, cat(vlu(2), cat(vlu(1), vlu(1)))); b = cat(b, Bytes { 0x20, 0x00, 0x41 }); break; // options cut short
		case 5: type = 0x11; b = s.bytes(s.len(20)); break;                                // next to nothing
		case 6: type = 0x51; b = s.pick<Bytes>({ Bytes(), Bytes { 2 }, Bytes { 2, 0x40 }, Bytes { 2, 0x40, 0x81 } }); break;
		case 7: type = 0x51; b = cat(vlu(big), cat(vlu(10), vlu(s.sized(UINT64_MAX)))); break; // for no flow
		case 8: type = 0x5e; b = s.pick<Bytes>({ Bytes(), Bytes { 2 }, Bytes { 2, 0x81 }, cat(vlu(big), vlu(1)) }); break;
		case 9: type = 0x18; b = s.flip() ? Bytes() : vlu(big); break;
		case 10: type = 0x0f; b = s.pick<Bytes>({ Bytes(), Bytes { 3, 1 }, Bytes { 1, 0x66, 0x02, 1, 2, 3 }, Bytes { 1, 0x66, 0x82, 1, 2, 3, 4, 5, 6, 7 } }); break;
		case 11: type = 0xec; break;
		case 12: type = 0x41; b = cat(Bytes { 'M' }, s.bytes(s.len(60))); break;            // not a challenge of ours
		case 13: type = 0x10; b = cat(cat(Bytes { 0 }, vlu(big)), cat(vlu(s.below(5)), vlu(0))); b = cat(b, s.bytes(s.len(20))); break; // a flow that was never introduced
		case 14: type = s.pick<uint8_t>({ 0x30, 0x70, 0x71, 0x38, 0x78, 0x79 }); b = s.bytes(s.len(100)); break;
		default: type = 0x10; b = cat(Bytes { 0x80 }, cat(vlu(big), cat(vlu(1), vlu(1)))); b = cat(b, cat(Bytes { uint8_t(2), 0x00, 'z' }, Bytes { 2, uint8_t(1 + s.below(9)), 1, 0 })); break; // an option that must be understood
		}
		return b;
	}
	void malformed()
	{
		auto it = chan.find(bob);
		if(it == chan.end()) return;
		Chan c = it->second;
		uint8_t mode = c.mode;
		Bytes d;
		bool self = s.chance(1, 10); // as a packet of alice's own would be
		for(int n = s.irange(1, 6); n--; )
		{
			uint8_t t; Bytes b = nonsense(t);
			bool dataBefore = false; // a next chunk after real data would be data
			if(t == 0x11) for(size_t i = 0; i + 2 < d.size(); ) { if(d[i] == 0x10) dataBefore = true; i += 3 + d[i + 1] * 256 + d[i + 2]; }
			if(!dataBefore) { putChunk(d, t, b); chunksIn++; }
		}
		if(s.chance(1, 6)) d.resize(d.size() - s.below(std::min<size_t>(d.size(), 3) + 1));
		else if(s.chance(1, 10)) d = cat(d, Bytes { s.pick<uint8_t>({ 0x0c, 0x10, 0x51 }), 0xff, uint8_t(s.below(256)) }); // a chunk longer than its packet
		if(self) mode = s.pick<uint8_t>({ 0, uint8_t(3 - mode) });
		else if(s.chance(1, 10)) mode = 3;
		Bytes p;
		if(self || mode == 3) { if(s.flip()) putChunk(d, 0x0c, Bytes()); p = makePacket(c.sid, c.key, iv++, mode, d); } // a close that is none
		else if(s.chance(1, 8)) { Bytes plain { uint8_t(mode | 8), 1 }; if(s.flip()) plain.clear(); p = makePacketRaw(c, plain); } // cut within its header
		else p = makePacket(c.sid, c.key, iv++, mode, d);
		inject(p, bob->addr(1));
	}
	Bytes makePacketRaw(const Chan &c, const Bytes &plain)
	{
		Bytes sealed = seal(c.key, iv++, plain), rv(4 + sealed.size());
		memcpy(rv.data() + 4, sealed.data(), sealed.size());
		uint32_t x[3] = { c.sid, 0, 0 };
		memcpy(x + 1, sealed.data(), std::min<size_t>(8, sealed.size()));
		uint32_t e = x[0] ^ x[1] ^ x[2];
		memcpy(rv.data(), &e, 4);
		return rv;
	}

	void go(bool outside, bool inside, bool junk)
	{
		for(auto &a : eps) { a->simCrypto.txMargin = s.below(17); a->simCrypto.rxMargin = s.below(40); }
		if(s.chance(1, 3)) alice->threadDelay = s.pick<double>({ 0.001, 0.05 });
		if(inside)
		{
			mallory = add("mallory");
			allowForeign = true;
			if(s.flip()) mallory->enter([&] { own = mallory->rtmfp->openFlow(alice->epd(), Bytes { 'z' }); own->addCandidateAddress(alice->addr(1)); own->write(Bytes(10)); });
			else { SFlow *m = app.open(alice, mallory->epd()); alice->enter([&] { m->flow->addCandidateAddress(mallory->addr(1)); }); app.write(m, 10); }
		}
		if(outside) allowForeign = true; // a stranger with a certificate of his own may open a session
		int lateStart = s.chance(1, 4); // while bob's session is opening
		auto openHonest = [&] {
			Endpoint *from = s.flip() ? alice : bob, *to = from == alice ? bob : alice;
			SFlow *f = app.open(from, to->epd(), Priority(s.below(8)));
			from->enter([&] { f->flow->addCandidateAddress(to->addr(1)); });
			honest.push_back(f);
			app.write(f, s.len(8000));
		};
		openHonest();
		if(!lateStart) w.run(2);
		bool mute = inside && s.chance(1, 3);
		if(mute) w.filters.push_back([this] (Pkt &p) { return p.from != mallory; });
		if(s.chance(1, 3)) faults(s.chance(1, 3));
		int n = s.irange(10, 80);
		for(int i = 0; i < n; i++)
		{
			std::vector<unsigned> wt { outside ? 10u : 0, inside ? 10u : 0, junk ? 10u : 0, 3, 2, 1, inside || outside ? 2u : 0, inside ? 2u : 0 };
			switch(s.weighted(wt))
			{
			case 0: outsider(); break;
			case 1: peer(); break;
			case 2: malformed(); break;
			case 3: if(honest.size()) app.write(s.pick(honest), s.len(6000)); break;
			case 4: w.run(s.pick<double>({ 0.001, 0.02, 0.1, 0.3, 1 })); break;
			case 5: if(honest.size() < 5) openHonest(); break;
			case 6: if(foreigns.size()) { Foreign *f = foreigns[s.below(foreigns.size())].get(); alice->enter([&] { act(f, false); }); } break;
			case 7: { auto v = sending(alice); for(auto i = v.begin(); i != v.end(); ) if((*i)->epd == mallory->epd()) ++i; else i = v.erase(i); if(v.size() && v.size() < 8 && s.chance(1, 2)) app.write(s.pick(v), s.len(5000)); else { SFlow *f = app.open(alice, mallory->epd()); if(f) alice->enter([&] { f->flow->addCandidateAddress(mallory->addr(1)); }); } } break;
			}
			if(s.chance(1, 2)) w.run(s.pick<double>({ 0, 0.001, 0.01 }));
		}
		heal();
		std::string why;
		bool ok = w.runWhile([&] {
			for(auto *f : honest)
			{
				PBT_CHECK(!f->exceptions, "flow %u of well-behaved peers got an exception", f->uid);
				if(!bound(f) || !app.reliableComplete(*f)) { why = "flow " + std::to_string(f->uid) + (bound(f) ? " did not deliver what was written" : " has no session"); return true; }
			}
			return false;
		}, 110);
		PBT_CHECK(ok, "well-behaved peers: %s", why.c_str());
		for(auto *f : honest) if(f->ep == alice) PBT_CHECK(f->flow->getFarAddress() == bob->addr(1), "the session with bob moved to %s", f->flow->getFarAddress().toPresentation().c_str());
		for(auto *f : honest) PBT_CHECK(!f->addrChanges, "flow %u was told of an address change", f->uid);
		w.run(s.below(5));
		for(auto &f : foreigns) if(!f->accepted) f->flow.reset();
		shutdownAll();
		for(auto &f : foreigns) if(f->accepted && !f->closed) PBT_CHECK(f->completes == 1, "a foreign flow completed %d times by the end", f->completes);
		std::vector<std::weak_ptr<RecvFlow> > weak;
		for(auto &f : foreigns) { if(f->flow) weak.push_back(f->flow); if(f->flow) { f->flow->onMessage = nullptr; f->flow->onComplete = nullptr; } f->flow.reset(); }
		returns.clear();
		own.reset();
		destroy();
		for(auto &x : weak) PBT_CHECK(x.expired(), "a foreign flow was never freed");
		s.label("packets injected", injected);
		s.label("chunks injected", chunksIn);
		s.label("foreign flows", foreign);
		s.label("foreign messages", foreignMsgs);
		s.label("answers to nowhere", answered);
		s.label("cookies given", cookies);
		if(injected >= 5) s.nontrivial();
	}
};

void outsiders(Src &s) { Hostile h(s); h.go(true, false, false); }
void peer(Src &s) { Hostile h(s); h.go(false, true, false); }
void junk(Src &s) { Hostile h(s); h.go(false, false, true); }
void all(Src &s) { Hostile h(s); h.go(true, true, true); }

Register r({"P08", "two honest endpoints exchanging flows while one of them receives: arbitrary, mutated and replayed datagrams and forged startup chunks from any address; structured, mutated and contradictory chunks from an authenticated peer whose flows the application accepts, rejects and answers; and malformed but correctly encrypted chunks within the honest session. Judged by sanitizers, output per packet, callbacks on hostile flows, delivery of everything honest, and complete release in the end; non-trivial: at least 5 packets injected", {
	{"outsiders", outsiders, 5000, 200000},
	{"peer", peer, 8000, 300000},
	{"malformed", junk, 4000, 100000},
	{"everything", all, 3000, 150000},
}, { "attackers do not know the random tags of hellos under way, and cannot break or replay-protect the session encryption", "virtual clock, simulated crypto" }});

} // namespace
