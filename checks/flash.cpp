// P20: Flash crypto sessions agree and reject forgeries. P21: certificates and discriminators select consistently.
#include "pbt.hpp"
#include "ref.hpp"
#include "guard.hpp"
#include "rtmfp/FlashCryptoAdapter_OpenSSL.hpp"
#include "rtmfp/Hex.hpp"
#include <algorithm>
#include <memory>
#include <set>
using namespace com::zenomt;
using namespace com::zenomt::rtmfp;
using pbt::Src;
using pbt::Register;
using Bytes = std::vector<uint8_t>;

namespace {

// --- a cheap stand-in for the big groups, to reach many combinations

struct Gen { uint64_t s; uint64_t next() { s += 0x9e3779b97f4a7c15ull; return pbt::mix64(s); } };
const uint64_t TOY_P = (1ull << 61) - 1;
uint64_t mul(uint64_t a, uint64_t b) { return uint64_t((unsigned __int128)a * b % TOY_P); }
uint64_t power(uint64_t b, uint64_t e) { uint64_t r = 1; for(; e; e >>= 1, b = mul(b, b)) if(e & 1) r = mul(r, b); return r; }
Bytes be(uint64_t v) { Bytes b; for(int i = 56; i >= 0; i -= 8) if(b.size() || (v >> i)) b.push_back(uint8_t(v >> i)); return b; }

struct ToyDH : DH_Context {
	Gen *g; uint64_t x { 0 }; int group { 0 }; Bytes pub;
	explicit ToyDH(Gen *g_) : g(g_) {}
	bool init(int groupID) override { if(groupID < 100 || groupID > 104) return false; group = groupID; x = g->next() % (TOY_P - 3) + 2; pub = be(power(uint64_t(groupID), x)); return true; }
	Bytes getPublicKey() const override { return pub; }
	bool computeSharedSecret(const void *p, size_t len, Bytes &dst) const override
	{
		uint64_t v = 0;
		if(len < 1 || len > 8) return false;
		for(size_t i = 0; i < len; i++) v = v << 8 | ((const uint8_t *)p)[i];
		if(v < 2 || v >= TOY_P - 1) return false;
		dst = be(power(v, x));
		return true;
	}
};

// encrypts something else than it was asked to, when told to
struct Crafted : AES_Context {
	std::shared_ptr<AES_Context> real; const Bytes **instead; bool enc { false };
	Crafted(std::shared_ptr<AES_Context> r, const Bytes **i) : real(r), instead(i) {}
	bool init(const void *key, size_t len, bool encrypt) override { enc = encrypt; return real->init(key, len, encrypt); }
	bool crypt_cbc(void *dst, const void *src, size_t len, uint8_t *iv) override { return real->crypt_cbc(dst, enc && *instead && (*instead)->size() == len ? (*instead)->data() : src, len, iv); }
};

struct Adapter : FlashCryptoAdapter_OpenSSL {
	const Bytes *instead { nullptr };
	std::shared_ptr<AES_Context> makeAES_Context() override { return share_ref(new Crafted(FlashCryptoAdapter_OpenSSL::makeAES_Context(), &instead), false); }
	std::vector<int> groups;
	mutable Gen gen { 1 };
	std::vector<int> getSupportedDHGroups() const override { return groups; }
	void pseudoRandomBytes(uint8_t *dst, size_t len) override { while(len--) *dst++ = uint8_t(gen.next()); }
	std::shared_ptr<DH_Context> makeDH_Context() override
	{
		if(groups.size() && groups[0] < 100) return FlashCryptoAdapter_OpenSSL::makeDH_Context();
		return share_ref(new ToyDH(&gen), false);
	}
};

bool oneIn(Src &s, int n) { return s.chance(1, n); }

struct Side {
	Adapter a;
	bool server, ephemeral;
	std::string host; bool hasHost;
	bool hmacSend, hmacReq, sseqSend, sseqReq;
	size_t hmacLen;
	void make(Src &s, const std::vector<int> &pool, const char *who)
	{
		a.gen.s = s.u64();
		std::vector<int> p = pool;
		for(size_t i = p.size(); i > 1; i--) std::swap(p[i - 1], p[s.below(i)]);
		p.resize(s.range(1, p.size()));
		a.groups = p;
		server = s.flip(); ephemeral = s.chance(2, 3) ? server : s.flip();
		hasHost = s.flip();
		host = s.pick<std::string>({ "example.com", "", "a" });
		PBT_CHECK(a.init(server, ephemeral, hasHost ? host.c_str() : nullptr), "init failed");
		hmacSend = s.flip(); hmacReq = s.flip(); sseqSend = s.flip(); sseqReq = s.flip();
		size_t ask = s.chance(1, 8) ? s.sized(1u << 20) : s.range(4, 32);
		hmacLen = std::min<size_t>(std::max<size_t>(ask, 4), 32);
		a.setHMACSendAlways(hmacSend); a.setHMACRecvRequired(hmacReq); a.setSSeqSendAlways(sseqSend); a.setSSeqRecvRequired(sseqReq); a.setHMACLength(ask);
		PBT_CHECK(a.getHMACLength() == hmacLen, "an HMAC length of %zu was taken as %zu", ask, a.getHMACLength());
		PBT_CHECK(a.getHMACSendAlways() == hmacSend && a.getHMACRecvRequired() == hmacReq && a.getSSeqSendAlways() == sseqSend && a.getSSeqRecvRequired() == sseqReq && a.isServer() == server && a.isStatic() == !ephemeral, "a setting reads back different");
		std::string g; for(int x : a.groups) g += std::to_string(x) + " ";
		s.log("%s: groups %s%s%s, hmac %s%s%zu, sseq %s%s", who, g.c_str(), server ? "server " : "", ephemeral ? "ephemeral" : "static", hmacSend ? "send " : "", hmacReq ? "required " : "", hmacLen, sseqSend ? "send " : "", sseqReq ? "required" : "");
	}
	Bytes cert() { Bytes e = a.getCanonicalEPD(); return a.getNearEncodedCertForEPD(e.data(), e.size()); }
};

std::shared_ptr<CryptoCert> decodeCert(Adapter &at, const Bytes &b) { Guarded g(b); return at.decodeCertificate(g.p, g.n); }

// one direction of a session
struct Way {
	SessionCryptoKey *tx, *rx;
	Adapter *from;
	bool hmac, sseq;
	size_t hmacLen;
	uint64_t next { 0 }; // sequence number of the next packet
	std::set<uint64_t> got; uint64_t newest { 0 }; bool any { false };
	struct P { uint64_t n; Bytes plain, wire; };
	std::vector<P> sent;
};

Bytes encrypt(Src &s, Way &w, size_t want, Bytes &plain)
{
	size_t margin = w.tx->getEncryptSrcFrontMargin();
	size_t expect = w.hmac ? 0 : 2;
	if(w.sseq) expect += ref::vlu(w.next).size();
	PBT_CHECK(margin == expect, "the margin before packet %llu is %zu, with%s HMAC and with%s sequence numbers it should be %zu", (unsigned long long)w.next, margin, w.hmac ? "" : "out", w.sseq ? "" : "out", expect);
	plain = s.bytes(want);
	size_t len = margin + want, padded = (len + 15) / 16 * 16;
	std::unique_ptr<uint8_t[]> src(new uint8_t[padded]), dst;
	memset(src.get(), 0xaa, padded);
	if(want) memcpy(src.get() + margin, plain.data(), want);
	if(oneIn(s, 10))
	{
		// not enough room: refused, without a write past the end
		size_t room = s.below(padded + (w.hmac ? w.hmacLen : 0));
		std::unique_ptr<uint8_t[]> small(new uint8_t[room]);
		size_t n = room;
		std::unique_ptr<uint8_t[]> copy(new uint8_t[padded]);
		memcpy(copy.get(), src.get(), padded);
		PBT_CHECK(!w.tx->encrypt(small.get(), n, copy.get(), len, margin), "a packet of %zu bytes was encrypted into %zu", padded, room);
	}
	size_t n = padded + 32 + s.below(20);
	dst.reset(new uint8_t[n]);
	size_t room = n;
	PBT_CHECK(w.tx->encrypt(dst.get(), n, src.get(), len, margin), "encrypting %zu bytes failed", len);
	PBT_CHECK(n <= room && n == padded + (w.hmac ? w.hmacLen : 0), "%zu bytes with margin %zu became a packet of %zu", want, margin, n);
	for(size_t i = len; i < padded; i++) plain.push_back(0xff);
	w.next++;
	return Bytes(dst.get(), dst.get() + n);
}

bool decrypt(Src &s, SessionCryptoKey *rx, const Bytes &wire, Bytes &plain)
{
	Guarded g(wire);
	size_t room = wire.size() + s.below(3), n = room, margin = 0x5555;
	std::unique_ptr<uint8_t[]> dst(new uint8_t[room]);
	if(!rx->decrypt(dst.get(), n, margin, g.p, g.n)) return false;
	PBT_CHECK(n <= room && margin <= n, "a packet of %zu bytes decrypted to %zu after a margin of %zu", wire.size(), n, margin);
	plain.assign(dst.get() + margin, dst.get() + n);
	return true;
}

void exchange(Src &s, Way &w, const char *dir)
{
	unsigned long replayed = 0, late = 0, forged = 0;
	int rounds = s.irange(1, 60);
	auto receive = [&] (const Way::P &p) {
		Bytes got;
		bool old = w.sseq && w.got.count(p.n);
		bool behind = w.sseq && w.any && w.newest > p.n;
		uint64_t gap = behind ? w.newest - p.n : 0;
		bool ok = decrypt(s, w.rx, p.wire, got);
		if(old) { PBT_CHECK(!ok, "packet %llu of %s was accepted twice", (unsigned long long)p.n, dir); replayed++; return; }
		if(gap > 32) PBT_CHECK(!ok, "packet %llu of %s was accepted %llu packets late", (unsigned long long)p.n, dir, (unsigned long long)gap);
		else if(gap < 32) PBT_CHECK(ok, "packet %llu of %s, %llu packets late, was rejected", (unsigned long long)p.n, dir, (unsigned long long)gap);
		if(gap) late++;
		if(!ok) return;
		PBT_CHECK(got == p.plain, "packet %llu of %s of %zu bytes decrypts to %zu other bytes", (unsigned long long)p.n, dir, p.plain.size(), got.size());
		w.got.insert(p.n);
		if(!w.any || p.n > w.newest) w.newest = p.n;
		w.any = true;
	};
	for(int i = 0; i < rounds; i++)
	{
		int burst = s.chance(1, 10) ? int(s.below(60)) : 1;
		while(burst--)
		{
			Way::P p;
			p.n = w.next;
			p.wire = encrypt(s, w, s.len(1200) + 1, p.plain);
			w.sent.push_back(p);
		}
		if(w.sent.empty()) continue;
		int act = int(s.weighted({ 6, 3, 3, 1, 1 }));
		if(act == 0) receive(w.sent.back());
		else if(act == 1) receive(w.sent[w.sent.size() - 1 - s.below(std::min<size_t>(w.sent.size(), 50))]);
		else if(act == 2)
		{
			const Way::P &p = w.sent[w.sent.size() - 1 - s.below(std::min<size_t>(w.sent.size(), 5))];
			Bytes f = p.wire;
			switch(s.below(5))
			{
			case 0: f[s.below(f.size())] ^= uint8_t(1 << s.below(8)); break;
			case 1: f.resize(s.below(f.size())); break;
			case 2: { Bytes x = s.bytes(s.pick<size_t>({ 1, 16, 4, 32, s.below(40) + 1 })); f.insert(f.end(), x.begin(), x.end()); break; }
			case 3: { Bytes x = s.bytes(16); f.insert(f.begin(), x.begin(), x.end()); break; }
			default: if(f.size() > 32) f.erase(f.begin(), f.begin() + 16); else f = s.bytes(48); break;
			}
			if(f == p.wire) continue;
			Bytes got;
			bool ok = decrypt(s, w.rx, f, got);
			if(w.hmac) PBT_CHECK(!ok, "an altered packet of %s (%zu bytes, was %zu) was accepted", dir, f.size(), p.wire.size());
			else if(ok) return; // a checksum does not protect: what the receiver thinks of sequence numbers is unknown now
			forged++;
		}
		else if(act == 4)
		{
			// the peer itself seals something malformed
			size_t n = 16 * s.range(1, 3);
			Bytes bad = s.bytes(n), got, dst(n + 64), src(n);
			size_t lead = s.below(n + 1);
			for(size_t k = 0; k < lead; k++) bad[k] |= 0x80;
			if(lead < n) bad[lead] &= 0x7f;
			w.from->instead = &bad;
			size_t dn = dst.size();
			bool did = w.tx->encrypt(dst.data(), dn, src.data(), n, 0);
			w.from->instead = nullptr;
			PBT_CHECK(did, "encrypting failed");
			if(w.sseq) w.next++;
			dst.resize(dn);
			bool ok = decrypt(s, w.rx, dst, got);
			uint64_t num = 0;
			size_t at = w.sseq ? ref::getVLU(bad.data(), n, &num) : 0;
			if(w.sseq && !at) PBT_CHECK(!ok, "a packet without a whole sequence number was accepted");
			else if(!w.hmac && n - at < 2) PBT_CHECK(!ok, "a packet without a whole checksum was accepted");
			else if(w.sseq && (w.got.count(num) || (w.any && w.newest > 32 && num < w.newest - 32))) PBT_CHECK(!ok, "a packet with the old sequence number %llu was accepted", (unsigned long long)num);
			else if(w.hmac && !(w.sseq && w.any && w.newest > 31 && num <= w.newest - 32)) PBT_CHECK(ok && got == Bytes(bad.begin() + at, bad.end()), "a sealed packet decrypts to something else");
			s.label("malformed sealed packets");
			if(ok && w.sseq) return;
			if(!w.sseq && !ok) continue;
		}
		else
		{
			Bytes f = s.bytes(s.below(100)), got;
			bool ok = decrypt(s, w.rx, f, got);
			if(w.hmac) PBT_CHECK(!ok, "random bytes were accepted as a packet of %s", dir);
			else if(ok) return;
			forged++;
		}
	}
	s.label("replays", replayed);
	s.label("packets late", late);
	s.label("forgeries", forged);
	s.label("packets", w.sent.size());
}

// a component that cannot be combined
Bytes hostile(Src &s, const Bytes &good)
{
	Bytes b;
	std::vector<ref::Opt> v;
	for(size_t at = 0; at < good.size(); ) { ref::Opt o; size_t k = ref::getOpt(good.data() + at, good.size() - at, &o); if(!k) break; v.push_back(o); at += k; }
	if(s.chance(1, 5)) { b = good; ref::mutate(s, b); return b; }
	for(int n = s.irange(1, 3); n--; )
	{
		if(v.empty()) break;
		size_t i = s.below(v.size());
		switch(s.below(6))
		{
		case 0: v.erase(v.begin() + i); break;
		case 1: v[i].value = s.bytes(s.below(10)); break;
		case 2: if(v[i].value.size()) v[i].value[s.below(std::min<size_t>(v[i].value.size(), 3))] = uint8_t(s.below(256)); break;
		case 3: v.insert(v.begin() + i, v[s.below(v.size())]); break;
		case 4: v[i].type = s.pick<uint64_t>({ 0x0d, 0x0e, 0x1d, 0x1a, 0x1e, 5 }); break;
		default: { ref::Opt m; m.marker = true; v.insert(v.begin() + s.below(v.size() + 1), m); break; }
		}
	}
	for(auto &o : v) { if(o.marker) b.push_back(0); else ref::putOpt(b, o.type, o.value); }
	return b;
}

struct Offer { bool sseq { false }; uint8_t sseqFlags { 0 }, hmacFlags { 0 }; uint64_t hmacLen { 0 }; };
Offer readOffer(const Bytes &b)
{
	Offer o;
	bool gotS = false, gotH = false;
	for(size_t at = 0; at < b.size(); )
	{
		ref::Opt p;
		size_t k = ref::getOpt(b.data() + at, b.size() - at, &p);
		if(!k || p.marker) break;
		at += k;
		if(p.type == 0x1e && !gotS) { gotS = true; if(p.value.size()) o.sseqFlags = p.value[0]; }
		if(p.type == 0x1a && !gotH) { gotH = true; if(p.value.size()) { o.hmacFlags = p.value[0]; if(p.value.size() > 1) { uint64_t n; if(ref::getVLU(p.value.data() + 1, p.value.size() - 1, &n)) o.hmacLen = n; } } }
	}
	return o;
}
bool combineFlags(Src &s, SessionCryptoKey *k, const Bytes &b) { Guarded g(b); return k->initiatorCombineResponderKeyingComponent(g.p, g.n); }

void agree(Src &s, const std::vector<int> &pool, bool noise)
{
	Side i, r;
	i.make(s, pool, "initiator"); r.make(s, pool, "responder");
	auto rc = decodeCert(i.a, r.cert()), ic = decodeCert(r.a, i.cert());
	PBT_CHECK(rc && ic, "a certificate does not decode");
	auto ik = i.a.getKeyForNewSession(), rk = r.a.getKeyForNewSession();
	PBT_CHECK(ik && rk, "no key for a new session");
	int group = -1;
	for(int g : i.a.groups) if(group < 0 && std::find(r.a.groups.begin(), r.a.groups.end(), g) != r.a.groups.end()) group = g;

	// before keying, anyone's packets decrypt at anyone's
	{
		Way w { ik.get(), rk.get(), &i.a, false, false, 0 };
		Way::P p;
		p.wire = encrypt(s, w, s.len(300) + 1, p.plain);
		Bytes got;
		PBT_CHECK(decrypt(s, rk.get(), p.wire, got) && got == p.plain, "a startup packet does not decrypt");
	}
	Bytes skic, skrc;
	bool ok = ik->generateInitiatorKeyingComponent(rc, &skic);
	PBT_CHECK(ok == (group >= 0), "the initiator %s keying, the best common group is %d", ok ? "began" : "refused", group);
	if(!ok) { s.label("no common group"); return; }

	if(noise)
		for(int n = s.below(3); n--; )
		{
			// another responder key is offered nonsense
			Bytes bad = hostile(s, skic), out;
			auto k = r.a.getKeyForNewSession();
			Guarded g(bad);
			bool got = k->generateResponderKeyingComponent(ic, g.p, g.n, &out);
			Offer o = readOffer(bad);
			if(r.hmacReq && !(o.hmacFlags & 6)) PBT_CHECK(!got, "a responder that requires HMACs accepted a peer that cannot send them");
			if(r.sseqReq && !(o.sseqFlags & 6)) PBT_CHECK(!got, "a responder that requires sequence numbers accepted a peer that cannot send them");
			if((r.hmacReq || (o.hmacFlags & 4)) && (o.hmacLen < 4 || o.hmacLen > 32)) PBT_CHECK(!got, "a responder accepted HMACs of %llu bytes", (unsigned long long)o.hmacLen);
			bool hm = r.hmacSend || (o.hmacFlags & 1), sq = r.sseqSend || (o.sseqFlags & 1);
			size_t margin = k->getEncryptSrcFrontMargin();
			if(got) PBT_CHECK(margin == (hm ? 0u : 2u) + (sq ? 1u : 0u), "a responder asked for%s HMACs and%s sequence numbers has margin %zu", hm ? "" : " no", sq ? "" : " no", margin);
			else PBT_CHECK(margin == 2, "a failed keying changed the key");
			s.label(got ? "odd components accepted" : "odd components refused");
			if(got) { Offer back = readOffer(out); PBT_CHECK((back.hmacFlags & 6) && (back.sseqFlags & 6) && back.hmacLen == r.hmacLen && bool(back.hmacFlags & 4) == hm && bool(back.sseqFlags & 4) == sq, "a responder's answer misstates what it will send"); }
		}

	{
		Guarded g(skic);
		PBT_CHECK(rk->generateResponderKeyingComponent(ic, g.p, g.n, &skrc), "the responder refused keying in group %d", group);
	}
	if(noise)
		for(int n = s.below(4); n--; )
		{
			// nonsense reaches the initiator before the answer does
			Bytes bad = hostile(s, skrc);
			Offer o = readOffer(bad);
			bool got;
			bool must = (i.hmacReq && !(o.hmacFlags & 6)) || (i.sseqReq && !(o.sseqFlags & 6)) || ((i.hmacReq || (o.hmacFlags & 4)) && (o.hmacLen < 4 || o.hmacLen > 32));
			got = combineFlags(s, ik.get(), bad);
			if(must) PBT_CHECK(!got, "an initiator accepted an answer without something required");
			s.label(got ? "odd answers accepted" : "odd answers refused");
			if(got) return; // keyed with that peer now
			PBT_CHECK(ik->getEncryptSrcFrontMargin() == 2, "a failed keying changed the key");
			s.log("a bad answer was refused");
		}
	PBT_CHECK(combineFlags(s, ik.get(), skrc), "the initiator refused the responder's answer in group %d", group);
	for(int n = s.below(3); n--; )
	{
		// the answer may arrive again, and others after it
		Bytes again = s.flip() ? skrc : hostile(s, skrc);
		s.log("another answer after keying");
		combineFlags(s, ik.get(), again);
		s.label("answers after keying");
		if(again != skrc && !noise) break;
	}
	PBT_CHECK(ik->getNearNonce() == rk->getFarNonce() && ik->getFarNonce() == rk->getNearNonce(), "the nonces do not match crosswise");
	PBT_CHECK(ik->getNearNonce() != ik->getFarNonce() && ik->getNearNonce().size() == 32, "both nonces are the same");
	s.label("agreed");
	s.label(i.ephemeral ? (r.ephemeral ? "ephemeral with ephemeral" : "ephemeral with static") : (r.ephemeral ? "static with ephemeral" : "static with static"));
	bool hir = i.hmacSend || r.hmacReq, hri = r.hmacSend || i.hmacReq, sir = i.sseqSend || r.sseqReq, sri = r.sseqSend || i.sseqReq;
	Way a { ik.get(), rk.get(), &i.a, hir, sir, i.hmacLen }, b { rk.get(), ik.get(), &r.a, hri, sri, r.hmacLen };
	exchange(s, a, "the initiator");
	exchange(s, b, "the responder");
	// nobody else's packets
	if(hir && a.sent.size()) { Bytes got; PBT_CHECK(!decrypt(s, ik.get(), a.sent[0].wire, got) || !hri, "an end accepted its own packet"); }
	auto ok2 = i.a.getKeyForNewSession(); auto rk2 = r.a.getKeyForNewSession();
	Bytes c2, r2;
	PBT_CHECK(ok2->generateInitiatorKeyingComponent(rc, &c2) && rk2->generateResponderKeyingComponent(ic, c2.data(), c2.size(), &r2) && combineFlags(s, ok2.get(), r2), "a second session failed");
	PBT_CHECK(rk2->getNearNonce() != rk->getNearNonce() && rk2->getFarNonce() != rk->getFarNonce() && c2 != skic && r2 != skrc, "two sessions have the same secrets");
	if(hir && a.sent.size()) { Bytes got; PBT_CHECK(!decrypt(s, rk2.get(), a.sent[0].wire, got), "a session accepted a packet of another session"); }
	if(hir || hri || sir || sri) s.nontrivial();
}

void toy(Src &s) { agree(s, { 101, 102, 103, 104 }, true); }
void real(Src &s) { agree(s, s.chance(1, 12) ? std::vector<int> { 2, 14, 16 } : s.chance(1, 4) ? std::vector<int> { 2, 14 } : std::vector<int> { 2 }, s.flip()); }

// public keys no honest peer has
void publics(Src &s)
{
	Adapter i, r;
	i.groups = r.groups = { 2 };
	i.gen.s = s.u64(); r.gen.s = s.u64();
	bool stat = s.flip();
	PBT_ASSERT(i.init(true, true, nullptr) && r.init(!stat, !stat, nullptr));
	Bytes epd = r.getCanonicalEPD(), icb = i.getNearEncodedCertForEPD(epd.data(), epd.size());
	auto ic = decodeCert(r, icb);
	auto rk = r.getKeyForNewSession();
	Bytes pub;
	bool bad = true;
	switch(s.below(8))
	{
	case 0: break;
	case 1: pub = { uint8_t(s.below(3)) }; break;
	case 2: pub = Bytes(128, 0xff); break;
	case 3: pub = Bytes(128, 0xff); for(int k = 0; k < 3; k++) pub[125 + k] = uint8_t(s.below(256)); break; // greater than the modulus less 2^24
	case 4: pub = { 1, 0, 0, 0 }; pub[3] = 0; break;  // too few ones
	case 5: pub = Bytes(128, 0); pub[s.below(128)] = uint8_t(1 << s.below(8)); break;
	case 6: pub = Bytes(s.range(1, 3), 0xff); break;  // less than 2^24
	default: bad = false; { auto c = i.FlashCryptoAdapter_OpenSSL::makeDH_Context(); PBT_ASSERT(c->init(2)); pub = c->getPublicKey(); break; }
	}
	Bytes opt = { 2 }, comp, out;
	opt.insert(opt.end(), pub.begin(), pub.end());
	ref::putOpt(comp, 0x0d, opt);
	ref::putOpt(comp, 0x1a, { 7, 16 });
	ref::putOpt(comp, 0x1e, { 7 });
	Guarded g(comp);
	bool got = rk->generateResponderKeyingComponent(ic, g.p, g.n, &out);
	PBT_CHECK(got == !bad, "a public key of %zu bytes (%s) was %s", pub.size(), pbt::hex(pub, 8).c_str(), got ? "accepted" : "refused");
	s.label(bad ? "bad public keys" : "good public keys");
	s.nontrivial();
}

// arbitrary input to everything that takes input from the network
void junk(Src &s)
{
	Side i, r;
	std::vector<int> pool { 101, 102, 103 };
	i.make(s, pool, "near"); r.make(s, pool, "far");
	Bytes cb = r.cert();
	if(s.chance(3, 4)) cb = s.flip() ? hostile(s, cb) : s.rawBytes(s.below(40));
	auto c = decodeCert(i.a, cb);
	s.label(c ? "certificates decoded" : "certificates refused");
	Bytes skic;
	if(c)
	{
		auto k = i.a.getKeyForNewSession();
		if(k->generateInitiatorKeyingComponent(c, &skic))
		{
			Bytes b = s.flip() ? hostile(s, skic) : s.rawBytes(s.below(60));
			combineFlags(s, k.get(), b);
			s.label("initiators");
		}
		auto k2 = i.a.getKeyForNewSession();
		Bytes b = s.flip() && skic.size() ? hostile(s, skic) : s.rawBytes(s.below(60)), out;
		if(s.chance(1, 3)) { b.clear(); for(int n = s.irange(1, 5); n--; ) ref::putOpt(b, s.pick<uint64_t>({ 0x0d, 0x1d, 0x1a, 0x1e, 0x0e }), s.rawBytes(s.below(12))); }
		Guarded g(b);
		k2->generateResponderKeyingComponent(c, g.p, g.n, &out);
		for(int n = s.below(4); n--; ) { Bytes got; decrypt(s, s.flip() ? k.get() : k2.get(), s.bytes(s.pick<size_t>({ 0, 1, 15, 16, 32, 48, s.below(200) })), got); }
		s.nontrivial();
	}
}

// --- P21

struct CertModel { bool wellFormed { true }, lateMess { false }; Bytes canon, canonM; bool stat { false }, eph { false }, anc { false }; std::vector<Bytes> hosts; std::vector<ref::Opt> opts; };
CertModel readCert(const Bytes &b)
{
	CertModel m;
	bool marker = false;
	for(size_t at = 0; at < b.size(); )
	{
		ref::Opt o;
		size_t k = ref::getOpt(b.data() + at, b.size() - at, &o);
		if(!k) { m.wellFormed = false; m.lateMess = marker; break; }
		if(!marker) { if(!o.marker) m.canon.insert(m.canon.end(), b.begin() + at, b.begin() + at + k); m.canonM.insert(m.canonM.end(), b.begin() + at, b.begin() + at + k); }
		at += k;
		if(o.marker) { marker = true; continue; }
		if(marker) continue;
		m.opts.push_back(o);
		if(o.type == 0) m.hosts.push_back(o.value);
		if(o.type == 0x0a) m.anc = true;
		if(o.type == 0x15) m.eph = true;
		if(o.type == 0x1d) m.stat = true;
	}
	return m;
}
struct EPDModel { bool wellFormed { true }; bool hasF { false }, hasH { false }, hasA { false }; int nF { 0 }, nH { 0 }, nA { 0 }; Bytes f, h, a; };
EPDModel readEPD(const Bytes &b)
{
	EPDModel m;
	for(size_t at = 0; at < b.size(); )
	{
		ref::Opt o;
		size_t k = ref::getOpt(b.data() + at, b.size() - at, &o);
		if(!k) { m.wellFormed = false; break; }
		at += k;
		if(o.marker) continue;
		if(o.type == 0) { m.hasH = true; m.h = o.value; m.nH++; }
		if(o.type == 0x0a) { m.hasA = true; m.a = o.value; m.nA++; }
		if(o.type == 0x0f) { m.hasF = true; m.f = o.value; m.nF++; }
	}
	return m;
}
enum Answer { NO, YES, EITHER };
Answer selectedBy(const EPDModel &e, const Bytes &fp, const std::vector<Bytes> &hosts, bool anc)
{
	if(!e.wellFormed) return NO;
	if(e.nF > 1 || e.nH > 1) return EITHER; // which counts is not said
	if(e.hasF) return e.f == fp ? YES : NO;
	if(!e.hasH && !e.hasA) return NO;
	if(e.hasA && !anc) return NO;
	if(e.hasH)
	{
		bool in = std::find(hosts.begin(), hosts.end(), e.h) != hosts.end();
		if(!in) return NO;
		if(hosts.size() > 1) return EITHER;
	}
	return YES;
}

Bytes genEPD(Src &s, const std::vector<Bytes> &fps, const std::vector<Bytes> &hosts)
{
	Bytes e;
	if(s.chance(1, 10)) return s.rawBytes(s.below(50));
	for(int n = s.weighted({ 1, 6, 6, 3, 1 }); n--; )
		switch(s.weighted({ 4, 4, 4, 1, 1 }))
		{
		case 0: { Bytes f = s.pick(fps); if(s.chance(1, 5)) { if(s.flip()) f.resize(s.below(40)); else if(f.size()) f[s.below(f.size())] ^= uint8_t(1 << s.below(8)); } ref::putOpt(e, 0x0f, f); break; }
		case 1: { Bytes h = s.pick(hosts); if(s.chance(1, 5)) { if(s.flip() || h.empty()) h.push_back('x'); else h.pop_back(); } ref::putOpt(e, 0, h); break; }
		case 2: ref::putOpt(e, 0x0a, s.pick<Bytes>({ ref::str("rtmfp://example.com/app"), Bytes(), ref::str("?") })); break;
		case 3: ref::putOpt(e, s.pick<uint64_t>({ 1, 0x15, 0x1d, 300 }), s.bytes(s.below(5))); break;
		default: e.push_back(0); break;
		}
	if(s.chance(1, 8)) ref::mutate(s, e);
	return e;
}

Bytes sha(Adapter &a, const Bytes &b) { Bytes d(32); a.sha256(d.data(), b.data(), b.size()); return d; }
bool certSelected(CryptoCert *c, const Bytes &e) { Guarded g(e); return c->isSelectedByEPD(g.p, g.n); }
bool adapterSelected(Adapter &a, const Bytes &e) { Guarded g(e); return a.isSelectedByEPD(g.p, g.n); }

// adapters and the certificates they show
void adapters(Src &s)
{
	std::vector<std::unique_ptr<Side> > sides;
	std::vector<Bytes> hosts { ref::str("example.com"), Bytes(), ref::str("a"), ref::str("b.example.com") }, fps, certs;
	int n = s.irange(2, 4);
	for(int i = 0; i < n; i++)
	{
		sides.emplace_back(new Side);
		Side &x = *sides.back();
		x.make(s, { 101, 102, 103, 104 }, "peer");
		fps.push_back(x.a.getFingerprint());
		certs.push_back(x.cert());
		CertModel m = readCert(certs[i]);
		PBT_CHECK(m.wellFormed && m.stat == !x.ephemeral && m.eph == x.ephemeral && m.anc == x.server && m.hosts.size() == (x.hasHost ? 1u : 0u) && (!x.hasHost || m.hosts[0] == ref::str(x.host)), "the certificate of an adapter misstates its settings");
		PBT_CHECK(fps[i] == sha(x.a, m.canon) || fps[i] == sha(x.a, m.canonM), "an adapter's fingerprint is not its certificate's");
		uint8_t raw[32];
		x.a.getFingerprint(raw);
		PBT_CHECK(Bytes(raw, raw + 32) == fps[i], "two fingerprints of the same adapter");
		Bytes want;
		ref::putOpt(want, 0x0f, fps[i]);
		PBT_CHECK(x.a.getCanonicalEPD() == want && FlashCryptoAdapter::makeEPD(raw) == want, "the canonical discriminator of an adapter is not its fingerprint");
	}
	for(int i = 0; i < n; i++)
	{
		Side &me = *sides[i];
		for(int j = 0; j < n; j++)
		{
			auto c = decodeCert(me.a, certs[j]);
			PBT_CHECK(c, "an adapter's certificate does not decode");
			PBT_CHECK(c->encode() == certs[j] && c->getCanonicalEPD() == sides[j]->a.getCanonicalEPD(), "a decoded certificate is another");
			auto fc = std::dynamic_pointer_cast<FlashCryptoCert>(c);
			PBT_CHECK(fc && fc->getFingerprint() == fps[j] && fc->isStatic() == !sides[j]->ephemeral && fc->doesAcceptAncillaryData() == sides[j]->server, "a decoded certificate misstates its adapter's settings");
			for(int g = 99; g < 106; g++) PBT_CHECK(fc->supportsDHGroup(g) == sides[j]->a.supportsDHGroup(g), "a decoded certificate and its adapter disagree about group %d", g);
			for(int k = 0; k < n; k++)
			{
				Bytes e = sides[k]->a.getCanonicalEPD();
				PBT_CHECK(certSelected(c.get(), e) == (fps[j] == fps[k]), "the canonical discriminator of peer %d %s the certificate of peer %d", k, j == k ? "does not select" : "selects", j);
				PBT_CHECK(adapterSelected(sides[j]->a, e) == (fps[j] == fps[k]), "the canonical discriminator of peer %d %s peer %d", k, j == k ? "does not select" : "selects", j);
			}
			if(i != j)
			{
				auto mine = decodeCert(sides[j]->a, certs[i]);
				bool a = me.a.checkNearWinsGlare(c), b = sides[j]->a.checkNearWinsGlare(mine);
				PBT_CHECK(a != b, "in a glare of two peers %s", a ? "both win" : "neither wins");
				PBT_CHECK(!c->doesCertOverrideSession(mine) && !mine->doesCertOverrideSession(c), "a certificate overrides another peer's session");
			}
			auto again = decodeCert(me.a, c->encode());
			PBT_CHECK(again && c->doesCertOverrideSession(again), "a certificate does not override its own session");
		}
	}
	unsigned long yes = 0;
	for(int t = s.irange(1, 12); t--; )
	{
		Bytes e = genEPD(s, fps, hosts);
		EPDModel m = readEPD(e);
		for(int i = 0; i < n; i++)
		{
			Side &x = *sides[i];
			std::vector<Bytes> h;
			if(x.hasHost) h.push_back(ref::str(x.host));
			Answer want = selectedBy(m, fps[i], h, x.server);
			auto c = decodeCert(x.a, certs[i]);
			bool bc = certSelected(c.get(), e), ba = adapterSelected(x.a, e);
			PBT_CHECK(ba == bc, "discriminator %s: the adapter answers %d, its certificate %d", pbt::hex(e).c_str(), ba, bc);
			PBT_CHECK(want == EITHER || bc == (want == YES), "discriminator %s %s a certificate (%s, %s)", pbt::hex(e).c_str(), bc ? "selects" : "does not select", x.server ? "server" : "client", x.hasHost ? x.host.c_str() : "no host");
			if(bc) yes++;
			// an application's opinion of the ancillary data
			int asked = 0; bool say = s.flip(); Bytes seen;
			x.a.isSelectedByAncillaryData = [&] (const uint8_t *p, size_t k) { asked++; seen.assign(p, p + k); return say; };
			bool bf = adapterSelected(x.a, e);
			x.a.isSelectedByAncillaryData = nullptr;
			if(m.wellFormed && m.hasA && !m.hasF && ba && m.nA == 1) PBT_CHECK(bf == say && asked == 1 && seen == m.a, "the application's opinion of ancillary data was %s", asked ? "not followed" : "not asked");
			else if(!asked) PBT_CHECK(bf == ba, "selection changed by an opinion not asked for");
			if(!ba) PBT_CHECK(!bf, "an opinion selected what does not match");
			PBT_CHECK(x.server || !asked, "a client was asked about ancillary data");
		}
	}
	s.label("selected", yes);
	if(yes) s.nontrivial();
}

// certificates of any form
void certificates(Src &s)
{
	Adapter a;
	a.groups = { 101, 102 };
	PBT_ASSERT(a.init(s.flip(), s.flip(), "example.com"));
	std::vector<Bytes> hosts { ref::str("example.com"), Bytes(), ref::str("a") };
	std::vector<Bytes> raws;
	std::vector<std::shared_ptr<CryptoCert> > certs;
	std::vector<CertModel> models;
	std::vector<Bytes> fps;
	for(int n = s.irange(1, 4); n--; )
	{
		Bytes b;
		if(raws.size() && s.chance(1, 3)) { b = s.pick(raws); if(s.flip()) ref::mutate(s, b); else { b.push_back(0); ref::putOpt(b, s.pick<uint64_t>({ 0, 0x0a, 0x1d, 0x15, 7 }), s.bytes(s.below(6))); } }
		else
		{
			bool stat = s.flip();
			for(int k = s.below(7); k--; )
				switch(s.weighted({ 5, 2, 2, 1, 1, 1 }))
				{
				case 0: { Bytes v = ref::vlu(s.pick<uint64_t>({ 101, 102, 2, 14, 0x80000000ull, UINT64_MAX })); bool st = s.chance(1, 12) ? !stat : stat; if(st) { Bytes k2 = s.bytes(s.below(9)); v.insert(v.end(), k2.begin(), k2.end()); } if(s.chance(1, 12)) v.clear(); ref::putOpt(b, st ? 0x1d : 0x15, v); break; }
				case 1: ref::putOpt(b, 0, s.pick(hosts)); break;
				case 2: ref::putOpt(b, 0x0a, s.bytes(s.below(3))); break;
				case 3: ref::putOpt(b, 0x0e, s.bytes(s.below(40))); break;
				case 4: ref::putOpt(b, s.pick<uint64_t>({ 9, 1000 }), s.bytes(s.below(4))); break;
				default: if(s.chance(1, 3)) b.push_back(0); break;
				}
		}
		CertModel m = readCert(b);
		auto c = decodeCert(a, b);
		raws.push_back(b);
		bool valid = m.wellFormed && m.stat != m.eph;
		if(m.wellFormed || !m.lateMess) PBT_CHECK(bool(c) == valid, "certificate %s was %s", pbt::hex(b).c_str(), c ? "accepted" : "refused");
		s.label(c ? "decoded" : "refused");
		if(!c) continue;
		certs.push_back(c);
		models.push_back(m);
		Bytes f = std::dynamic_pointer_cast<FlashCryptoCert>(c)->getFingerprint();
		PBT_CHECK(f == sha(a, m.canon) || f == sha(a, m.canonM), "the fingerprint of %s is not that of its canonical part", pbt::hex(b).c_str());
		fps.push_back(f);
		PBT_CHECK(c->encode() == b, "a certificate does not encode to itself");
		Bytes want;
		ref::putOpt(want, 0x0f, f);
		PBT_CHECK(c->getCanonicalEPD() == want, "a canonical discriminator is not the fingerprint");
		auto fc = std::dynamic_pointer_cast<FlashCryptoCert>(c);
		PBT_CHECK(fc->isStatic() == m.stat && fc->doesAcceptAncillaryData() == m.anc, "a certificate's properties are misread");
		for(int g : { 101, 102, 2, 14, 3, 0, INT32_MAX })
		{
			Answer yes = NO;
			Bytes key;
			for(auto &o : m.opts)
				if(o.type == (m.stat ? 0x1d : 0x15))
				{
					uint64_t v;
					size_t k = ref::getVLU(o.value.data(), o.value.size(), &v);
					if(!k || v > INT32_MAX) { yes = EITHER; break; } // what follows a malformed entry may be overlooked
					if(v == uint64_t(g)) { yes = YES; key.assign(o.value.begin() + k, o.value.end()); break; }
				}
			bool got = fc->supportsDHGroup(g);
			PBT_CHECK(yes == EITHER || got == (yes == YES), "certificate %s %s group %d", pbt::hex(b).c_str(), got ? "supports" : "does not support", g);
			const uint8_t *kp = nullptr; size_t kn = 0;
			bool gotKey = fc->getPublicKey(g, &kp, &kn);
			PBT_CHECK(gotKey == (got && m.stat), "certificate %s: public key for group %d: %d", pbt::hex(b).c_str(), g, gotKey);
			if(gotKey && yes == YES) PBT_CHECK(Bytes(kp, kp + kn) == key, "a certificate answers another public key");
		}
	}
	if(certs.empty()) return;
	for(size_t i = 0; i < certs.size(); i++)
		for(size_t j = 0; j < certs.size(); j++)
		{
			PBT_CHECK(certSelected(certs[i].get(), certs[j]->getCanonicalEPD()) == (fps[i] == fps[j]), "a canonical discriminator selects the wrong certificate");
			if(models[i].canonM == models[j].canonM) PBT_CHECK(fps[i] == fps[j], "two certificates with the same canonical part have different fingerprints");
			if(models[i].canon != models[j].canon) PBT_CHECK(fps[i] != fps[j], "two certificates with different canonical parts have the same fingerprint");
			PBT_CHECK(certs[i]->doesCertOverrideSession(certs[j]) == (certs[i]->encode() == certs[j]->encode()), "a certificate overrides a session of another certificate");
		}
	for(int t = s.irange(1, 10); t--; )
	{
		Bytes e = genEPD(s, fps, hosts);
		EPDModel m = readEPD(e);
		for(size_t i = 0; i < certs.size(); i++)
		{
			Answer want = selectedBy(m, fps[i], models[i].hosts, models[i].anc);
			bool got = certSelected(certs[i].get(), e);
			PBT_CHECK(want == EITHER || got == (want == YES), "discriminator %s %s certificate %s", pbt::hex(e).c_str(), got ? "selects" : "does not select", pbt::hex(certs[i]->encode()).c_str());
			if(got) s.label("selected");
		}
	}
	s.nontrivial();
}

// discriminators made from text
void making(Src &s)
{
	Bytes f = s.chance(2, 3) ? s.bytes(32) : s.bytes(s.below(40));
	std::string hex, anc = s.text(s.below(20), "abc:/?&=."), host = s.text(s.below(12), "abc.-1");
	static const char *lo = "0123456789abcdef", *up = "0123456789ABCDEF";
	bool bad = false;
	for(auto b : f)
	{
		if(s.chance(1, 20)) hex += " \t\n"[s.below(3)];
		hex += (s.flip() ? lo : up)[b >> 4];
		hex += (s.flip() ? lo : up)[b & 15];
	}
	if(s.chance(1, 5)) { bad = true; switch(s.below(3)) { case 0: hex.insert(hex.begin() + s.below(hex.size() + 1), 'g'); break; case 1: hex += "7"; break; default: hex += "0x"; } }
	bool uf = s.flip(), ua = s.flip(), uh = s.flip(), pre = s.chance(1, 4);
	Bytes out, was;
	if(pre) out = was = s.bytes(s.below(9));
	bool ok = FlashCryptoAdapter::makeEPD(uf ? hex.c_str() : nullptr, ua ? anc.c_str() : nullptr, uh ? host.c_str() : nullptr, out);
	bool want = (uf || ua || uh) && !(uf && bad);
	PBT_CHECK(ok == want, "a discriminator of %s was %s", uf ? pbt::quote(hex).c_str() : "no fingerprint", ok ? "made" : "refused");
	Bytes direct = FlashCryptoAdapter::makeEPD(uf ? hex.c_str() : nullptr, ua ? anc.c_str() : nullptr, uh ? host.c_str() : nullptr);
	PBT_CHECK(out.size() >= was.size() && std::equal(was.begin(), was.end(), out.begin()), "making a discriminator changed what was there");
	Bytes tail(out.begin() + was.size(), out.end());
	PBT_CHECK(direct == tail && (ok || tail.empty()), "two ways of making a discriminator differ");
	if(!ok) { s.label("refused"); return; }
	FlashCryptoAdapter::EPDParseState p;
	Guarded g(tail);
	PBT_CHECK(p.parse(g.p, g.n), "a discriminator that was made does not parse");
	auto get = [] (const uint8_t *q, size_t n) { return Bytes(q, q + n); };
	PBT_CHECK(bool(p.fingerprint) == uf && bool(p.ancillaryData) == ua && bool(p.requiredHostname) == uh, "a discriminator's parts are not those given");
	if(uf) PBT_CHECK(get(p.fingerprint, p.fingerprintLen) == f, "a fingerprint is misread");
	if(ua) PBT_CHECK(get(p.ancillaryData, p.ancillaryDataLen) == ref::str(anc), "ancillary data are misread");
	if(uh) PBT_CHECK(get(p.requiredHostname, p.requiredHostnameLen) == ref::str(host), "a host name is misread");
	PBT_CHECK(Hex::encode(f).size() == 2 * f.size(), "hex of %zu bytes has %zu digits", f.size(), Hex::encode(f).size());
	Bytes back;
	PBT_CHECK(Hex::decode(Hex::encode(f).c_str(), back) && back == f, "hex does not round trip");
	s.nontrivial();
}

Register r20({"P20", "pairs of adapters with any settings, certificates static or ephemeral and groups with or without overlap make sessions, mostly over a cheap stand-in group and some over the real ones; odd components are tried first and the right answer is repeated after; then packets of 1 to 1200 bytes go both ways, late, repeated, altered, cut, extended and random, and every answer is predicted by a model of negotiation and of the replay window; out of range public keys; arbitrary certificates, components and packets in exactly sized memory; non-trivial: HMACs or sequence numbers in use, a public key judged, or a certificate decoded", {
	{"toy", toy, 12000, 600000},
	{"real", real, 900, 40000},
	{"publics", publics, 600, 20000},
	{"junk", junk, 25000, 1200000},
}, { "an HMAC of 4 bytes or more is not guessed by chance", "packets protected by a checksum alone may be altered unnoticed", "a packet exactly 32 behind the newest may be accepted or not" }});
Register r21({"P21", "adapters and certificates of any form, made, altered and arbitrary, against discriminators that name them rightly, almost or not at all, checked with an independent parser and selection model; non-trivial: something was selected, a certificate decoded, or a discriminator made", {
	{"adapters", adapters, 8000, 400000},
	{"certificates", certificates, 60000, 3000000},
	{"making", making, 60000, 2000000},
}, { "a discriminator or certificate with two host names or two fingerprints may count either", "the fingerprint is the SHA-256 of the part before the first marker, with or without that marker", "when a fingerprint is given it alone decides" }});

} // namespace
