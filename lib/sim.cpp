#include "sim.hpp"
#include "guard.hpp"
#include <cmath>
#include <cstdarg>

namespace sim {

// --- crypto

static uint64_t hashB(const Bytes &b, uint64_t seed) { return pbt::hash64(b.data(), b.size(), seed); }

bool selects(const Bytes &epd, const std::string &name, const std::string &group)
{
	if(epd.empty()) return false;
	std::string rest(epd.begin() + 1, epd.end());
	if(epd[0] == 'C') return rest == name;
	if(epd[0] == 'G') return group.size() && rest == group;
	return false;
}
Bytes canonicalEPD(const std::string &name) { Bytes b(1, 'C'); b.insert(b.end(), name.begin(), name.end()); return b; }
Bytes groupEPD(const std::string &group) { Bytes b(1, 'G'); b.insert(b.end(), group.begin(), group.end()); return b; }

static Bytes certTag(const std::string &name, const std::string &group)
{
	uint64_t h = pbt::hash64(name.data(), name.size(), pbt::hash64(group.data(), group.size(), 77));
	Bytes b; for(int i = 0; i < 4; i++) b.push_back(uint8_t(h >> (8 * i)));
	return b;
}
Bytes encodeCert(const std::string &name, const std::string &group, bool genuine)
{
	Bytes b { 'S', 'C' };
	b.push_back(uint8_t(name.size())); b.insert(b.end(), name.begin(), name.end());
	b.push_back(uint8_t(group.size())); b.insert(b.end(), group.begin(), group.end());
	Bytes t = certTag(name, group);
	if(!genuine) t[0] ^= 1;
	b.insert(b.end(), t.begin(), t.end());
	return b;
}
Bytes signAs(const std::string &name, const Bytes &msg)
{
	Bytes rv;
	for(int k = 0; k < 2; k++) { uint64_t h = pbt::mix64(hashB(msg, pbt::hash64(name.data(), name.size(), 1234 + k))); for(int i = 0; i < 8; i++) rv.push_back(uint8_t(h >> (8 * i))); }
	return rv;
}

static void maybeLater(World *w, Duration d, const Task &t)
{
	if(d > 0) w->after(d, t);
	else t();
}

void SimCert::isAuthentic(const Task &onauthentic) { if(genuine) maybeLater(world, delay, onauthentic); }
bool SimCert::isSelectedByEPD(const uint8_t *epd, size_t epdLen) { return selects(Bytes(epd, epd + epdLen), name, group); }
Bytes SimCert::getCanonicalEPD() { return canonicalEPD(name); }
void SimCert::checkSignature(const uint8_t *msg, size_t msgLen, const uint8_t *sig, size_t sigLen, const Task &ongood)
{
	if(signAs(name, Bytes(msg, msg + msgLen)) == Bytes(sig, sig + sigLen)) maybeLater(world, delay, ongood);
}
bool SimCert::doesCertOverrideSession(std::shared_ptr<CryptoCert> other) { auto *o = dynamic_cast<SimCert *>(other.get()); return o && o->name == name; }
Bytes SimCert::encode() { return encodeCert(name, group, genuine); }

uint64_t keyFromNonces(const Bytes &ni, const Bytes &nr) { uint64_t k = hashB(nr, hashB(ni, 4242)); return k ? k : 1; }

static void stream(uint64_t key, uint64_t iv, uint8_t *p, size_t n)
{
	uint64_t x = 0;
	for(size_t i = 0; i < n; i++) { if(i % 8 == 0) x = pbt::mix64(pbt::mix64(key ^ 0x5555) + iv * 3 + i + 1); p[i] ^= uint8_t(x >> (8 * (i % 8))); }
}
Bytes seal(uint64_t key, uint64_t iv, const Bytes &plain)
{
	Bytes b(8 + plain.size() + 8);
	for(int i = 0; i < 8; i++) b[i] = uint8_t(iv >> (8 * i));
	if(plain.size()) memcpy(b.data() + 8, plain.data(), plain.size());
	uint64_t mac = pbt::mix64(pbt::hash64(b.data(), 8 + plain.size(), key));
	stream(key, iv, b.data() + 8, plain.size());
	for(int i = 0; i < 8; i++) b[8 + plain.size() + i] = uint8_t(mac >> (8 * i));
	return b;
}
bool unseal(uint64_t key, const Bytes &s, Bytes &plain)
{
	if(s.size() < 16) return false;
	Bytes b = s;
	uint64_t iv = 0; for(int i = 0; i < 8; i++) iv |= uint64_t(b[i]) << (8 * i);
	size_t n = b.size() - 16;
	stream(key, iv, b.data() + 8, n);
	uint64_t mac = pbt::mix64(pbt::hash64(b.data(), 8 + n, key));
	for(int i = 0; i < 8; i++) if(b[8 + n + i] != uint8_t(mac >> (8 * i))) return false;
	plain.assign(b.begin() + 8, b.begin() + 8 + n);
	return true;
}

SimKey::SimKey(SimCrypto *a) : adapter(a)
{
	nearNonce.resize(8 + a->rng.below(9));
	for(auto &c : nearNonce) c = uint8_t(a->rng.next());
	a->keysAlive++;
	a->live.insert(this);
}
SimKey::~SimKey() { adapter->keysAlive--; adapter->live.erase(this); }
size_t SimKey::getEncryptSrcFrontMargin() { return adapter->txMargin; }

bool SimKey::encrypt(uint8_t *dst, size_t &ioDstLen, uint8_t *src, size_t srcLen, size_t srcFrontMargin)
{
	PBT_CHECK(srcFrontMargin == adapter->txMargin && srcLen >= srcFrontMargin, "encrypt called with margin %zu of %zu bytes, expected margin %zu", srcFrontMargin, srcLen, adapter->txMargin);
	Bytes plain(src + srcFrontMargin, src + srcLen);
	// both allowed by the interface
	memset(src, 0xee, srcFrontMargin);
	memset(src + srcLen, 0xdd, 63);
	Bytes c = seal(key, adapter->rng.next(), plain);
	if(c.size() > ioDstLen) return false;
	memcpy(dst, c.data(), c.size());
	ioDstLen = c.size();
	adapter->lastKey = key; adapter->lastPlain = plain; adapter->lastMargin = srcFrontMargin; adapter->lastValid = true;
	return true;
}
bool SimKey::decrypt(uint8_t *dst, size_t &ioDstLen, size_t &dstFrontMargin, const uint8_t *src, size_t srcLen)
{
	Bytes p;
	if(!unseal(key, Bytes(src, src + srcLen), p)) return false;
	if(p.size() + adapter->rxMargin > ioDstLen) return false;
	memset(dst, 0xcc, adapter->rxMargin);
	if(p.size()) memcpy(dst + adapter->rxMargin, p.data(), p.size());
	memset(dst + adapter->rxMargin + p.size(), 0xbb, std::min<size_t>(64, ioDstLen - adapter->rxMargin - p.size()));
	dstFrontMargin = adapter->rxMargin;
	ioDstLen = p.size() + adapter->rxMargin;
	return true;
}
bool SimKey::generateInitiatorKeyingComponent(std::shared_ptr<CryptoCert>, Bytes *out) { *out = nearNonce; adapter->world->initiators[nearNonce] = adapter; return true; }
bool SimKey::initiatorCombineResponderKeyingComponent(const uint8_t *rc, size_t len)
{
	if(len < 4) return false;
	farNonce.assign(rc, rc + len);
	key = keyFromNonces(nearNonce, farNonce);
	return true;
}
bool SimKey::generateResponderKeyingComponent(std::shared_ptr<CryptoCert>, const uint8_t *ic, size_t len, Bytes *out)
{
	if(len < 4) return false;
	farNonce.assign(ic, ic + len);
	*out = nearNonce;
	key = keyFromNonces(farNonce, nearNonce);
	auto it = adapter->world->initiators.find(farNonce);
	adapter->world->keyEnds[key] = { it == adapter->world->initiators.end() ? nullptr : it->second, adapter, farNonce, nearNonce };
	return true;
}

std::shared_ptr<SessionCryptoKey> SimCrypto::getKeyForNewSession() { return share_ref(new SimKey(this), false); }
Bytes SimCrypto::getNearEncodedCertForEPD(const uint8_t *, size_t) { return certOverride.size() ? certOverride : encodeCert(name, group); }
bool SimCrypto::isSelectedByEPD(const uint8_t *epd, size_t n) { return selectAll || selects(Bytes(epd, epd + n), name, group); }
Bytes SimCrypto::sign(const uint8_t *msg, size_t n, std::shared_ptr<CryptoCert>) { return signAs(signOverride.size() ? signOverride : name, Bytes(msg, msg + n)); }
bool SimCrypto::checkNearWinsGlare(std::shared_ptr<CryptoCert> far) { return name > static_cast<SimCert *>(far.get())->name; }
std::shared_ptr<CryptoCert> SimCrypto::decodeCertificate(const uint8_t *p, size_t n)
{
	std::shared_ptr<CryptoCert> none;
	if(n < 4 || p[0] != 'S' || p[1] != 'C') return none;
	size_t o = 2, l = p[o++];
	if(o + l + 1 > n) return none;
	std::string nm((const char *)p + o, l); o += l;
	l = p[o++];
	if(o + l + 4 != n) return none;
	std::string gr((const char *)p + o, l); o += l;
	bool ok = certTag(nm, gr) == Bytes(p + o, p + o + 4);
	return share_ref(new SimCert(world, nm, gr, ok, asyncDelay), false);
}
void SimCrypto::pseudoRandomBytes(uint8_t *dst, size_t n) { while(n--) *dst++ = uint8_t(rng.next()); }
void SimCrypto::cryptoHash256(uint8_t *dst, const uint8_t *msg, size_t n)
{
	for(int k = 0; k < 4; k++) { uint64_t h = pbt::mix64(pbt::hash64(msg, n, 9000 + k)); memcpy(dst + 8 * k, &h, 8); }
}

// --- wire

static uint64_t vlu(const uint8_t *&p, const uint8_t *l, std::string &err, const char *what)
{
	uint64_t v = 0;
	size_t n = ref::getVLU(p, l - p, &v);
	if(!n) { if(err.empty()) err = std::string("truncated ") + what; p = l; return 0; }
	if(ref::vlu(v) != Bytes(p, p + n) && err.empty()) err = std::string("integer not minimally encoded: ") + what;
	p += n;
	return v;
}

Decoded decode(const Bytes &b)
{
	Decoded d;
	const uint8_t *p = b.data(), *l = p + b.size();
	if(p == l) { d.err = "empty packet"; return d; }
	d.flags = *p++;
	if(d.flags & 0x30) d.err = "reserved header bits set";
	if((d.flags & 3) == 0) d.err = "mode 0";
	if(d.flags & 0x08) { if(l - p < 2) { d.err = "truncated timestamp"; return d; } d.ts = p[0] * 256 + p[1]; p += 2; }
	if(d.flags & 0x04) { if(l - p < 2) { d.err = "truncated timestamp echo"; return d; } d.tse = p[0] * 256 + p[1]; p += 2; }
	uint64_t flow = 0, sn = 0, fsn = 0; bool seen = false;
	while(p < l)
	{
		Chunk c;
		if(l - p < 3) { d.err = "truncated chunk header"; return d; }
		c.type = p[0];
		size_t n = p[1] * 256 + p[2];
		p += 3;
		if(n > size_t(l - p)) { d.err = "truncated chunk"; return d; }
		c.body.assign(p, p + n);
		const uint8_t *q = p, *e = p + n;
		std::string &err = d.err;
		switch(c.type)
		{
		case 0x10: case 0x11:
			if(q == e) { err = "user data without flags"; break; }
			c.flags = *q++;
			if(c.flags & 0x4c) err = "reserved user data flags set";
			if(c.type == 0x10)
			{
				c.flowID = vlu(q, e, err, "flow id"); c.sn = vlu(q, e, err, "sequence number");
				uint64_t off = vlu(q, e, err, "fsn offset");
				if(off > c.sn) err = "fsn offset beyond sequence number";
				c.fsn = c.sn - off;
			}
			else
			{
				if(!seen) err = "next user data without predecessor";
				c.flowID = flow; c.sn = sn + 1; c.fsn = fsn;
			}
			if(c.flags & 0x80)
				for(;;)
				{
					ref::Opt o;
					size_t k = ref::getOpt(q, e - q, &o);
					if(!k) { err = "bad option list"; q = e; break; }
					q += k;
					if(o.marker) break;
					if(o.type == 0) { c.hasMeta = true; c.metadata = o.value; }
					else if(o.type == 0x0a) { c.hasAssoc = true; if(ref::getVLU(o.value.data(), o.value.size(), &c.assoc) != o.value.size()) err = "bad association option"; }
					else err = "unknown option";
				}
			c.data.assign(q, e);
			flow = c.flowID; sn = c.sn; fsn = c.fsn; seen = true;
			break;
		case 0x51:
			{
				c.flowID = vlu(q, e, err, "flow id"); c.blocks = vlu(q, e, err, "buffer blocks"); c.cum = vlu(q, e, err, "cumulative ack");
				uint64_t cur = c.cum;
				while(q < e)
				{
					// truncation inside the list is allowed by the protocol
					uint64_t h, r;
					size_t k = ref::getVLU(q, e - q, &h);
					if(!k) { c.truncated = true; break; }
					q += k;
					k = ref::getVLU(q, e - q, &r);
					if(!k) { c.truncated = true; break; }
					q += k;
					cur += h + 2;
					c.ranges.push_back({ cur, cur + r });
					cur += r;
				}
			}
			break;
		case 0x18: c.flowID = vlu(q, e, err, "flow id"); if(q != e) err = "trailing bytes in buffer probe"; break;
		case 0x5e: c.flowID = vlu(q, e, err, "flow id"); c.code = vlu(q, e, err, "exception code"); if(q != e) err = "trailing bytes in exception"; break;
		case 0x0c: case 0x4c: if(n) err = "close with a body"; break;
		case 0xec: if(n != 1) err = "bad ECN report"; break;
		case 0x01: case 0x41: case 0x30: case 0x0f: case 0x70: case 0x71: case 0x79: case 0x38: case 0x78: break;
		default: { char t[40]; snprintf(t, sizeof t, "unknown chunk type %02x", c.type); err = t; } break;
		}
		d.chunks.push_back(c);
		p += n;
	}
	return d;
}

uint32_t wireSessionID(const Bytes &b)
{
	uint32_t x[3] = { 0, 0, 0 };
	memcpy(x, b.data(), std::min<size_t>(b.size(), 12));
	return x[0] ^ x[1] ^ x[2];
}

// --- world

World::World(Src &s) : src(s), rng(s.below(1u << 30))
{
	trace = s.verbose;
}
World::~World()
{
	events.clear();
}

void World::log(const char *fmt, ...)
{
	if(!trace) return;
	char buf[1500];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(buf, sizeof buf, fmt, ap);
	va_end(ap);
	src.log("[%.4f] %s", double(now - 1000), buf);
}

bool World::step(Time limit)
{
	for(size_t i = 0; i < endpoints.size(); i++) endpoints[i]->drain();
	Time te = events.empty() ? INFINITY : events.begin()->first;
	Time tt = INFINITY;
	Endpoint *who = nullptr;
	for(auto *e : endpoints)
		if(e->alive && e->rtmfp)
		{
			Time t = now + std::max<Duration>(0, e->rtmfp->howLongToSleep());
			if(t < tt) { tt = t; who = e; }
		}
	Time t = std::min(te, tt);
	if(t > limit) { if(limit > now) now = limit; return false; }
	if(t > now) now = t;
	PBT_CHECK(++steps < maxSteps, "simulation does not settle: %llu steps by %.6f (unbounded activity)", (unsigned long long)steps, double(now - 1000));
	if(te <= tt)
	{
		auto fn = events.begin()->second;
		events.erase(events.begin());
		fn();
	}
	else
		who->enter([&] { who->rtmfp->doTimerWork(); });
	return true;
}

void World::runUntil(Time t)
{
	while(step(t)) ;
	for(size_t i = 0; i < endpoints.size(); i++) endpoints[i]->drain();
}

bool World::runWhile(const std::function<bool()> &pred, Duration maxDuration)
{
	Time limit = now + maxDuration;
	while(pred())
		if(!step(limit)) return !pred();
	return true;
}

SimCrypto *World::otherEnd(uint64_t key, SimCrypto *me)
{
	auto it = keyEnds.find(key);
	if(it == keyEnds.end()) return nullptr;
	return it->second.i == me ? it->second.r : it->second.r == me ? it->second.i : nullptr;
}
size_t World::liveWith(SimCrypto *me, SimCrypto *peer, const Bytes *except)
{
	size_t n = 0;
	for(auto *k : me->live)
		if(k->key && otherEnd(k->key, me) == peer && !(except && (k->nearNonce == *except || k->farNonce == *except))) n++;
	return n;
}

Path &World::path(Endpoint *a, Endpoint *b)
{
	auto k = std::make_pair(a ? a->index : -1, b ? b->index : -1);
	auto it = paths.find(k);
	if(it == paths.end()) it = paths.insert({ k, defaultPath }).first;
	return it->second;
}

Endpoint *World::find(const Address &a, int *iface)
{
	for(auto *e : endpoints)
		for(auto &i : e->ifaces)
			if(i.second == a) { *iface = i.first; return e; }
	return nullptr;
}

void World::route(Pkt p)
{
	packets++;
	for(auto &f : filters) if(!f(p)) { log("  dropped by filter #%llu", (unsigned long long)p.id); return; }
	int iface;
	Endpoint *to = find(p.dst, &iface);
	if(!to) { if(unrouted) unrouted(p); return; }
	Path &q = path(p.from, to);
	if(!q.up || rng.chance(q.loss)) { log("  lost #%llu", (unsigned long long)p.id); return; }
	bool startup = startupFifo && p.known && p.dec.mode() == 3;
	int copies = rng.chance(q.dup) && !startup ? 2 : 1;
	for(int i = 0; i < copies; i++)
	{
		Duration d = q.delay + (q.jitter > 0 ? q.jitter * rng.unit() : 0);
		if(rng.chance(q.late)) d += q.lateBy * rng.unit();
		if(i) d += 0.001 + 0.2 * rng.unit();
		Pkt c = p;
		if((c.tos & 3) && rng.chance(q.ce)) c.tos |= 3;
		Time t = now + d;
		if(q.fifo && t < q.lastArrival) t = q.lastArrival;
		q.lastArrival = std::max(q.lastArrival, t);
		if(startup) { Time &l = lastStartup[{ p.from ? p.from->index : -1, to->index }]; t = l = std::max(l, t); }
		at(t, [this, c] {
			int ifc;
			Endpoint *e = find(c.dst, &ifc); // it may have moved meanwhile
			if(e) deliver(c, e, ifc);
		});
	}
}

void World::deliver(Pkt p, Endpoint *to, int iface)
{
	if(!to->alive || !to->rtmfp) return;
	if(admit && !admit(p, to)) { log("  not admitted #%llu", (unsigned long long)p.id); return; }
	for(auto &f : onDeliver) f(p, to);
	bool rv = false;
	to->rxPackets++;
	to->enter([&] {
		Guarded g(p.bytes);
		log("%s <- #%llu", to->simCrypto.name.c_str(), (unsigned long long)p.id);
		rv = to->rtmfp->onReceivePacket(g.p, g.n, iface, p.src.getSockaddr(), p.tos);
		for(auto &f : onDelivered) f(p, to, rv);
	});
}

void World::inject(const Bytes &bytes, const Address &from, const Address &to, int tos)
{
	Pkt p;
	p.id = nextPkt++; p.sent = now; p.src = from; p.dst = to; p.bytes = bytes; p.tos = tos;
	int iface;
	Endpoint *e = find(to, &iface);
	if(e) deliver(p, e, iface);
}

// --- endpoint

Address ip(int a, int b, int port)
{
	Address rv;
	uint8_t x[4] = { 10, uint8_t(a >> 8), uint8_t(a), uint8_t(b) };
	rv.setIPAddress(x, 4);
	rv.setPort(port);
	return rv;
}

Endpoint::Endpoint(World &w_, const std::string &name, const std::string &group, ICryptoAdapter *alt) : w(w_), index(int(w_.endpoints.size()))
{
	simCrypto.world = &w;
	simCrypto.name = name;
	simCrypto.group = group;
	simCrypto.rng = Rng(w.rng.next());
	crypto = alt ? alt : &simCrypto;
	epoch = w.now;
	w.endpoints.push_back(this);
	rtmfp = share_ref(new RTMFP(this, crypto), false);
}
Endpoint::~Endpoint()
{
	destroy();
	for(auto &e : w.endpoints) if(e == this) { w.endpoints.erase(w.endpoints.begin() + (&e - w.endpoints.data())); break; }
}
void Endpoint::destroy()
{
	alive = false;
	gen++;
	tasks.clear();
	writable.clear();
	rtmfp.reset();
}
void Endpoint::addInterface(int id, const Address &a)
{
	ifaces[id] = a;
	rtmfp->addInterface(id);
}
void Endpoint::enter(const std::function<void()> &fn)
{
	depth++;
	fn();
	depth--;
	if(depth == 0) drain();
}
void Endpoint::drain()
{
	if(depth) return;
	depth++;
	size_t n = 0;
	while(tasks.size())
	{
		Task t = tasks.front();
		tasks.pop_front();
		t();
		PBT_CHECK(++n < 1000000, "endless chain of perform() tasks");
	}
	depth--;
}
bool Endpoint::notifyWhenInterfaceWritable(int id, const std::function<bool(void)> &fn)
{
	PBT_CHECK(ifaces.count(id), "notifyWhenInterfaceWritable for unknown interface %d", id);
	PBT_CHECK(!writable.count(id), "notifyWhenInterfaceWritable for interface %d while already being notified", id);
	writable[id] = fn;
	uint64_t g = gen;
	w.at(std::max(w.now, freeAt[id]), [this, id, g] { if(g == gen && alive) pump(id); });
	return true;
}
void Endpoint::pump(int id)
{
	bool more = false;
	enter([&] {
		auto it = writable.find(id);
		if(it == writable.end()) return;
		auto fn = it->second;
		uint64_t tx = txPackets;
		more = fn();
		PBT_CHECK(txPackets <= tx + 1, "%llu packets written in one writable notification", (unsigned long long)(txPackets - tx));
		if(!more) writable.erase(id);
	});
	if(more)
	{
		uint64_t g = gen;
		w.at(std::max(w.now, freeAt[id]), [this, id, g] { if(g == gen && alive) pump(id); });
	}
}
bool Endpoint::writePacket(const void *bytes, size_t len, int id, const struct sockaddr *sa, socklen_t saLen, int tos)
{
	PBT_CHECK(ifaces.count(id), "packet written to unknown interface %d", id);
	PBT_CHECK(saLen == Address::getSockaddrLen(sa), "address length %d does not fit the family", int(saLen));
	Pkt p;
	p.id = w.nextPkt++;
	p.sent = w.now;
	p.from = this;
	p.iface = id;
	p.src = ifaces[id];
	p.dst.setSockaddr(sa);
	p.bytes.assign((const uint8_t *)bytes, (const uint8_t *)bytes + len);
	p.tos = tos;
	if(simCrypto.lastValid)
	{
		p.known = true;
		p.key = simCrypto.lastKey;
		p.plain.swap(simCrypto.lastPlain);
		p.margin = simCrypto.lastMargin;
		p.dec = decode(p.plain);
		simCrypto.lastValid = false;
	}
	txPackets++;
	txBytes += len;
	if(serialize > 0) freeAt[id] = std::max(freeAt[id], w.now) + serialize * len;
	if(w.trace)
	{
		std::string d;
		char t[200];
		for(auto &c : p.dec.chunks)
		{
			if(c.isData()) snprintf(t, sizeof t, " DATA(f%llu sn%llu fsn%llu fl%02x %zub)", (unsigned long long)c.flowID, (unsigned long long)c.sn, (unsigned long long)c.fsn, c.flags, c.data.size());
			else if(c.isAck()) { int n = snprintf(t, sizeof t, " ACK(f%llu bl%llu cum%llu", (unsigned long long)c.flowID, (unsigned long long)c.blocks, (unsigned long long)c.cum); for(auto &r : c.ranges) if(n < 150) n += snprintf(t + n, sizeof t - n, " %llu-%llu", (unsigned long long)r.from, (unsigned long long)r.to); snprintf(t + n, sizeof t - n, ")"); }
			else snprintf(t, sizeof t, " %02x(%zub)", c.type, c.body.size());
			d += t;
		}
		w.log("%s -> %s #%llu tos%d mode%d%s", simCrypto.name.c_str(), p.dst.toPresentation().c_str(), (unsigned long long)p.id, tos, p.dec.mode(), d.substr(0, 1000).c_str());
	}
	for(auto &f : w.onSend) f(p);
	w.route(p);
	return true;
}
bool Endpoint::perform(unsigned long thread, const Task &task)
{
	if(thread == 0 || threadDelay <= 0) { tasks.push_back(task); return true; }
	Time t = std::max(threadBusy[thread], w.now + threadDelay);
	threadBusy[thread] = t;
	uint64_t g = gen;
	w.at(t, [this, task, g] { if(g == gen && alive) enter(task); });
	return true;
}

// --- application layer

App::~App() {}

// a callback's own captures must outlive the call, whatever is done in it
namespace { struct Captured {
	uint64_t a { 0x5a5a5a5a5a5a5a5aull }, b { a }, c { a };
	void intact() const { PBT_CHECK(*(volatile const uint64_t *)&a == 0x5a5a5a5a5a5a5a5aull && *(volatile const uint64_t *)&c == 0x5a5a5a5a5a5a5a5aull, "a callback's state was destroyed while it was running"); }
}; }

Bytes App::content(uint32_t uid, int index, size_t len)
{
	Bytes b(len);
	uint64_t x = 0;
	for(size_t i = 0; i < len; i++)
	{
		if(i == 0) b[i] = uint8_t(index);
		else if(i == 1) b[i] = uint8_t(index >> 8);
		else if(i == 2) b[i] = uint8_t(uid);
		else { if(i % 8 == 3) x = pbt::mix64(uid * 0x10001ull + uint64_t(index) * 0x9e37 + i * 0x1234567); b[i] = uint8_t(x >> (8 * ((i + 5) % 8))); }
	}
	return b;
}

Bytes App::makeMeta(uint32_t uid, size_t extra)
{
	Bytes m { 'm', 'F', uint8_t(uid >> 8), uint8_t(uid) };
	Rng r(uid * 77 + extra);
	for(size_t i = 0; i < extra; i++) m.push_back(uint8_t(r.next()));
	return m;
}

void App::attach(Endpoint *ep)
{
	ep->rtmfp->onRecvFlow = [this, ep] (std::shared_ptr<RecvFlow> flow) { announce(ep, flow, nullptr); };
}

SFlow *App::track(Endpoint *ep, std::shared_ptr<SendFlow> flow, uint32_t uid, const Bytes &meta, const Bytes &epd, Priority pri, RFlow *assoc)
{
	std::unique_ptr<SFlow> sf(new SFlow);
	SFlow *f = sf.get();
	f->app = this; f->ep = ep; f->uid = uid; f->flow = flow; f->weak = flow; f->metadata = meta; f->epd = epd; f->pri = pri; f->assocOf = assoc;
	sflows[uid] = std::move(sf);
	Captured state;
	flow->onWritable = [f, state] () -> bool {
		PBT_CHECK(!f->closed && !f->exceptions, "onWritable called on flow %u after it was closed", f->uid);
		PBT_CHECK(f->flow->isWritable(), "onWritable called on flow %u while it is not writable", f->uid);
		f->writables++;
		bool rv = f->onWritable ? f->onWritable() : false;
		state.intact();
		return rv;
	};
	flow->onException = [f, state] (uintmax_t code) {
		f->app->w.log("%s flow %u exception %llu", f->ep->simCrypto.name.c_str(), f->uid, (unsigned long long)code);
		PBT_CHECK(!f->closed, "onException called on flow %u after the application closed it", f->uid);
		PBT_CHECK(!f->exceptions, "onException called twice on flow %u", f->uid);
		f->exceptions++;
		f->exceptionCode = code;
		f->exceptionAt = f->app->w.now;
		if(f->onException) f->onException(code);
		state.intact();
	};
	flow->onRecvFlow = [this, f, ep, state] (std::shared_ptr<RecvFlow> flow) { announce(ep, flow, f); state.intact(); };
	flow->onFarAddressDidChange = [this, f, state] { PBT_CHECK(!f->closed && !f->exceptions, "onFarAddressDidChange on closed sending flow %u", f->uid); f->addrChanges++; if(onAnyAddrChange) onAnyAddrChange(f->ep); state.intact(); };
	return f;
}

SFlow *App::open(Endpoint *ep, const Bytes &epd, Priority pri, size_t extra)
{
	uint32_t uid = nextUID++;
	Bytes meta = makeMeta(uid, extra);
	std::shared_ptr<SendFlow> flow;
	ep->enter([&] { flow = ep->rtmfp->openFlow(epd, meta, pri); });
	if(!flow) return nullptr;
	w.log("%s opens flow %u", ep->simCrypto.name.c_str(), uid);
	return track(ep, flow, uid, meta, epd, pri, nullptr);
}
SFlow *App::openOn(RFlow *r, Priority pri, size_t extra)
{
	uint32_t uid = nextUID++;
	Bytes meta = makeMeta(uid, extra);
	std::shared_ptr<SendFlow> flow;
	SFlow *rv = nullptr;
	r->ep->enter([&] { flow = r->flow->openReturnFlow(meta, pri); if(flow) rv = track(r->ep, flow, uid, meta, Bytes(), pri, r); });
	if(rv) w.log("%s opens flow %u in return to %u", r->ep->simCrypto.name.c_str(), uid, r->uid);
	return rv;
}
SFlow *App::openOn(SFlow *s, Priority pri, size_t extra)
{
	uint32_t uid = nextUID++;
	Bytes meta = makeMeta(uid, extra);
	std::shared_ptr<SendFlow> flow;
	SFlow *rv = nullptr;
	s->ep->enter([&] { flow = s->flow->openFlow(meta, pri); if(flow) rv = track(s->ep, flow, uid, meta, s->epd, pri, nullptr); });
	if(rv) w.log("%s opens flow %u beside %u", s->ep->simCrypto.name.c_str(), uid, s->uid);
	return rv;
}

Msg *App::write(SFlow *f, size_t len, Duration startWithin, Duration finishWithin)
{
	int index = int(f->msgs.size());
	Bytes data = content(f->uid, index, len);
	std::shared_ptr<WriteReceipt> r;
	f->ep->enter([&] {
		size_t before = f->flow->getBufferedSize();
		r = f->flow->write(data, startWithin, finishWithin);
		PBT_CHECK(bool(r) == f->open(), "write on flow %u (%s) answered %s", f->uid, f->open() ? "open" : "closed", r ? "a receipt" : "nothing");
		if(!r) return;
		f->msgs.emplace_back();
		Msg &m = f->msgs.back();
		m.index = index; m.data = data; m.receipt = r; m.written = w.now;
		m.reliable = std::isinf(double(startWithin)) && std::isinf(double(finishWithin));
		m.weak = r; m.startBy = w.now + startWithin; m.finishBy = w.now + finishWithin;
		size_t grew = f->flow->getBufferedSize() - before;
		PBT_CHECK(grew > len && (grew - len) % 64 == 0, "writing %zu bytes grew the buffered size by %zu", len, grew);
		size_t n = (grew - len) / 64;
		PBT_CHECK(n * 1200 >= len && (n == 1 || (n - 1) * 500 < len), "a message of %zu bytes became %zu fragments", len, n);
		m.firstSN = f->nextSN; f->nextSN += n; m.lastSN = f->nextSN - 1;
		Captured state;
		r->onFinished = [f, index, state] (bool abandoned) {
			Msg &m = f->msgs[index];
			PBT_CHECK(++m.finished == 1, "onFinished called %d times for message %d of flow %u", m.finished, index, f->uid);
			m.finAbandoned = abandoned;
			m.finishedAt = f->app->w.now;
			auto rc = m.weak.lock();
			PBT_CHECK(!rc || (rc->isFinished() && rc->isAbandoned() == abandoned && rc->isDelivered() == !abandoned), "receipt of message %d of flow %u disagrees with its callback", index, f->uid);
			f->app->w.log("flow %u message %d %s", f->uid, index, abandoned ? "abandoned" : "delivered");
			if(f->app->onAnyFinished) f->app->onAnyFinished(*f, m, abandoned);
			if(f->onFinished) f->onFinished(m, abandoned);
			state.intact();
		};
	});
	if(!r) return nullptr;
	w.log("%s writes %zu bytes to flow %u (message %d)", f->ep->simCrypto.name.c_str(), len, f->uid, index);
	return &f->msgs.back();
}

const Msg *SFlow::message(uint64_t sn) const
{
	size_t lo = 0, hi = msgs.size();
	while(lo < hi)
	{
		size_t mid = (lo + hi) / 2;
		if(msgs[mid].lastSN < sn) lo = mid + 1;
		else hi = mid;
	}
	return lo < msgs.size() && msgs[lo].firstSN <= sn ? &msgs[lo] : nullptr;
}

void App::setPriority(SFlow *f, Priority pri)
{
	if(pri == f->pri) return;
	f->pri = pri; f->priAt = w.now;
	w.log("%s flow %u priority %d", f->ep->simCrypto.name.c_str(), f->uid, int(pri));
	f->ep->enter([&] { f->flow->setPriority(pri); });
}

void App::close(SFlow *f)
{
	if(f->closed) return;
	f->closed = true; f->closedAt = w.now;
	f->closedUnopened = f->flow->getCongestionWindow() == 0;
	w.log("%s closes flow %u", f->ep->simCrypto.name.c_str(), f->uid);
	f->ep->enter([&] { f->flow->close(); });
}
void App::close(RFlow *r, uint64_t code)
{
	if(r->closed) return;
	r->closed = true; r->closedAt = w.now; r->closeCode = code;
	w.log("%s closes receiving flow %u with %llu", r->ep->simCrypto.name.c_str(), r->uid, (unsigned long long)code);
	r->ep->enter([&] { if(code || w.rng.chance(0.5)) r->flow->close(code); else r->flow->close(); });
}

void App::setOrder(RFlow &r, ReceiveOrder order)
{
	if(order == RO_NETWORK) r.everNetwork = true;
	r.held = order == RO_HOLD;
	r.orderAt = w.now;
	w.log("%s receiving flow %u order %d", r.ep->simCrypto.name.c_str(), r.uid, int(order));
	r.ep->enter([&] { r.flow->setReceiveOrder(order); });
}

void App::accept(RFlow &r, ReceiveOrder order)
{
	r.flow->accept();
	r.accepted = r.flow->isOpen(); // not if the session was closed while the flow was being announced
	if(order != RO_SEQUENCE) setOrder(r, order);
}

void App::announce(Endpoint *ep, std::shared_ptr<RecvFlow> flow, SFlow *via)
{
	Bytes meta = flow->getMetadata();
	uint32_t uid = meta.size() >= 4 && meta[0] == 'm' && meta[1] == 'F' ? meta[2] * 256 + meta[3] : 0;
	auto it = sflows.find(uid);
	if(it == sflows.end())
	{
		if(onForeign) { onForeign(ep, flow); return; }
		PBT_FAIL("a flow was announced whose metadata nobody sent (%zu bytes)", meta.size());
	}
	SFlow *f = it->second.get();
	PBT_CHECK(meta == f->metadata, "flow %u announced with %zu bytes of metadata other than the %zu its opener gave", uid, meta.size(), f->metadata.size());
	PBT_CHECK(++f->announcements == 1, "flow %u announced %d times", uid, f->announcements);
	PBT_CHECK(!via || (!via->closed && !via->exceptions), "return flow %u announced to flow %u which is closed", uid, via ? via->uid : 0);
	if(f->assocOf)
		PBT_CHECK(via && via == f->assocOf->from && flow->getAssociatedSendFlow() == via->flow, "return flow %u was announced to %s instead of flow %u", uid, via ? "another flow" : "the endpoint", f->assocOf->uid);
	else
		PBT_CHECK(!via && !flow->getAssociatedSendFlow(), "flow %u which answers no flow was announced as a return flow", uid);
	PBT_CHECK(!flow->isOpen(), "receiving flow %u is open before it was accepted", uid);
	std::unique_ptr<RFlow> rf(new RFlow);
	RFlow *r = rf.get();
	r->app = this; r->ep = ep; r->uid = uid; r->from = f; r->flow = flow; r->weak = flow; r->announcedAt = w.now;
	f->peer = r;
	rflows.push_back(std::move(rf));
	w.log("%s is told of flow %u", ep->simCrypto.name.c_str(), uid);
	Captured state;
	flow->onMessage = [this, r, state] (const uint8_t *p, size_t n, uintmax_t sn, size_t fragments) {
		SFlow *f = r->from;
		PBT_CHECK(!r->closed && !r->completes, "onMessage on receiving flow %u after it ended", r->uid);
		PBT_CHECK(r->accepted, "message delivered on flow %u which was not accepted", r->uid);
		PBT_CHECK(!r->held, "message delivered on flow %u while its order is hold", r->uid);
		Delivery d { sn, fragments, Bytes(p, p + n), w.now, -1, r->flow->getReceiveOrder() };
		w.log("%s gets message sn %llu (%zu fragments, %zu bytes) on flow %u", r->ep->simCrypto.name.c_str(), (unsigned long long)sn, fragments, n, r->uid);
		if(checkContent)
		{
			const Msg *m = f->message(sn);
			PBT_CHECK(m && m->firstSN == sn, "flow %u: delivered %zu bytes with sequence number %llu, where no message begins", r->uid, n, (unsigned long long)sn);
			PBT_CHECK(!m->delivered, "flow %u: message %d (sn %llu) delivered again", r->uid, m->index, (unsigned long long)sn);
			if(!r->everNetwork && r->got.size()) PBT_CHECK(sn > r->got.back().sn, "flow %u: message with sequence number %llu delivered after %llu", r->uid, (unsigned long long)sn, (unsigned long long)r->got.back().sn);
			PBT_CHECK(d.data.size() == m->data.size(), "flow %u: message %d of %zu bytes delivered as %zu bytes", r->uid, m->index, m->data.size(), d.data.size());
			PBT_CHECK(d.data == m->data, "flow %u: message %d delivered with altered content", r->uid, m->index);
			PBT_CHECK(fragments == m->lastSN - m->firstSN + 1, "flow %u: message %d of %llu fragments reported as %zu", r->uid, m->index, (unsigned long long)(m->lastSN - m->firstSN + 1), fragments);
			d.msg = m->index;
			f->msgs[d.msg].delivered++;
		}
		r->got.push_back(d);
		if(onAnyMessage) onAnyMessage(*r, r->got.back());
		if(r->onMessage) { auto fn = r->onMessage; fn(r->got.back()); }
		PBT_CHECK(r->got.back().data == Bytes(p, p + n), "the message changed under its callback");
		state.intact();
	};
	flow->onComplete = [this, r, state] (bool error) {
		w.log("%s receiving flow %u complete%s", r->ep->simCrypto.name.c_str(), r->uid, error ? " with error" : "");
		PBT_CHECK(!r->closed, "onComplete on receiving flow %u after the application closed it", r->uid);
		PBT_CHECK(r->accepted, "onComplete on receiving flow %u which was not accepted", r->uid);
		PBT_CHECK(++r->completes == 1, "onComplete called twice on flow %u", r->uid);
		r->error = error; r->completedAt = w.now;
		if(r->onComplete) r->onComplete(error);
		state.intact();
	};
	flow->onCumulativeAckDidMerge = [r, state] {
		PBT_CHECK(!r->closed && !r->completes, "onCumulativeAckDidMerge on flow %u after it ended", r->uid);
		r->merges++;
		if(r->app->onAnyMerge) r->app->onAnyMerge(*r);
		if(r->onMerge) r->onMerge();
		state.intact();
	};
	flow->onFarAddressDidChange = [this, r, state] { PBT_CHECK(!r->closed && !r->completes, "onFarAddressDidChange on closed receiving flow %u", r->uid); r->addrChanges++; if(onAnyAddrChange) onAnyAddrChange(r->ep); state.intact(); };
	auto hook = via ? via->onRecvFlow : std::function<void(RFlow &)>();
	if(onAnyAnnounced) onAnyAnnounced(*r);
	if(hook) hook(*r);
	else if(onAnnounce) onAnnounce(*r);
	else accept(*r);
}

bool App::reliableComplete(SFlow &f)
{
	for(auto &m : f.msgs) if(m.reliable && !m.delivered) return false;
	return true;
}

void App::dropAll()
{
	for(auto &f : sflows) { f.second->flow.reset(); for(auto &m : f.second->msgs) m.receipt.reset(); }
	for(auto &r : rflows) r->flow.reset();
}

} // namespace sim
