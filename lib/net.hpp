#pragma once
// Several simulated endpoints on one network, for histories of opening, moving, introducing and ending sessions.
#include "sim.hpp"
#include <cmath>

namespace sim {

inline Bytes field(const uint8_t *&p, const uint8_t *l)
{
	uint64_t n;
	size_t k = ref::getVLU(p, l - p, &n);
	if(!k || n > uint64_t(l - p - k)) { p = l; return Bytes(); }
	Bytes b(p + k, p + k + n);
	p += k + n;
	return b;
}

struct IIKeying { uint32_t isid { 0 }; Bytes cookie, cert, skic, sig; };
inline IIKeying parseIIKeying(const Bytes &b)
{
	IIKeying k;
	if(b.size() < 4) return k;
	memcpy(&k.isid, b.data(), 4);
	const uint8_t *p = b.data() + 4, *l = b.data() + b.size();
	k.cookie = field(p, l); k.cert = field(p, l); k.skic = field(p, l);
	k.sig.assign(p, l);
	return k;
}

// chunk of a startup or session packet
inline void putChunk(Bytes &d, uint8_t type, const Bytes &body)
{
	d.push_back(type); d.push_back(uint8_t(body.size() >> 8)); d.push_back(uint8_t(body.size()));
	d.insert(d.end(), body.begin(), body.end());
}
inline void putField(Bytes &d, const Bytes &v) { ref::putVLU(d, v.size()); d.insert(d.end(), v.begin(), v.end()); }

// a packet for session id, under key
inline Bytes makePacket(uint32_t sid, uint64_t key, uint64_t iv, uint8_t mode, const Bytes &chunks, long ts = -1, long tse = -1)
{
	Bytes plain;
	plain.push_back(uint8_t(mode | (ts >= 0 ? 8 : 0) | (tse >= 0 ? 4 : 0)));
	if(ts >= 0) { plain.push_back(uint8_t(ts >> 8)); plain.push_back(uint8_t(ts)); }
	if(tse >= 0) { plain.push_back(uint8_t(tse >> 8)); plain.push_back(uint8_t(tse)); }
	plain.insert(plain.end(), chunks.begin(), chunks.end());
	Bytes sealed = seal(key, iv, plain), rv(4 + sealed.size());
	memcpy(rv.data() + 4, sealed.data(), sealed.size());
	uint32_t x[3] = { sid, 0, 0 };
	memcpy(x + 1, sealed.data(), std::min<size_t>(8, sealed.size()));
	uint32_t e = x[0] ^ x[1] ^ x[2];
	memcpy(rv.data(), &e, 4);
	return rv;
}

struct Net {
	Src &s;
	World w;
	App app;
	std::vector<std::unique_ptr<Endpoint> > eps;
	unsigned long lateKeying { 0 };

	explicit Net(Src &s_) : s(s_), w(s_), app(w)
	{
		// a keying request that arrives after a session with that peer opened counts as the peer having restarted; it is lost here
		w.admit = [this] (Pkt &p, Endpoint *to) {
			if(!p.known || p.dec.mode() != 3) return true;
			for(auto &c : p.dec.chunks)
				if(c.type == 0x38)
				{
					IIKeying k = parseIIKeying(c.body);
					auto it = w.initiators.find(k.skic);
					if(it != w.initiators.end() && w.liveWith(&to->simCrypto, it->second, &k.skic)) { lateKeying++; return false; }
				}
			return true;
		};
	}

	Endpoint *add(const std::string &name, const std::string &group = "", int ifaces = 1)
	{
		Endpoint *e = new Endpoint(w, name, group);
		eps.emplace_back(e);
		for(int i = 1; i <= ifaces; i++) e->addInterface(i, ip(int(eps.size()), i));
		app.attach(e);
		return e;
	}
	Endpoint *named(const std::string &n) { for(auto &e : eps) if(e->simCrypto.name == n) return e.get(); return nullptr; }

	// loss, duplication, delay and reordering on every path
	void faults(bool lossy = true)
	{
		for(auto &a : eps) for(auto &b : eps)
			if(a != b)
			{
				Path &q = w.path(a.get(), b.get());
				q = Path();
				q.delay = s.pick<double>({ 0.0, 0.001, 0.02, 0.1, 0.4 });
				if(s.flip()) q.jitter = s.pick<double>({ 0.01, 0.1, 1.0 });
				q.fifo = s.flip();
				if(lossy && s.flip()) q.loss = s.pick<double>({ 0.1, 0.3, 0.6, 0.9 });
				if(s.flip()) q.dup = s.pick<double>({ 0.1, 0.5 });
				if(s.chance(1, 3)) { q.late = s.pick<double>({ 0.1, 0.4 }); q.lateBy = s.pick<double>({ 0.5, 4.0 }); }
			}
	}
	void heal()
	{
		w.log("heal");
		for(auto &p : w.paths) { Path q; q.delay = std::min<Duration>(p.second.delay, 0.1L); p.second = q; }
	}

	std::vector<SFlow *> sending(Endpoint *e = nullptr) { std::vector<SFlow *> v; for(auto &x : app.sflows) if(x.second->open() && (!e || x.second->ep == e)) v.push_back(x.second.get()); return v; }
	std::vector<RFlow *> receiving(Endpoint *e = nullptr) { std::vector<RFlow *> v; for(auto &x : app.rflows) if(x->open() && (!e || x->ep == e)) v.push_back(x.get()); return v; }

	static bool bound(SFlow *f) { return f->flow && f->flow->getCongestionWindow() > 0; }

	// everything is freed once the application lets go
	void destroy(bool expectFreed = true)
	{
		app.dropAll();
		for(auto &e : eps) e->destroy();
		w.events.clear();
		if(!expectFreed) return;
		for(auto &x : app.sflows) { PBT_CHECK(x.second->weak.expired(), "flow %u was never freed", x.second->uid); for(auto &m : x.second->msgs) PBT_CHECK(m.weak.expired(), "receipt of message %d of flow %u was never freed", m.index, x.second->uid); }
		for(auto &r : app.rflows) PBT_CHECK(r->weak.expired(), "receiving flow %u was never freed", r->uid);
		for(auto &e : eps) PBT_CHECK(e->simCrypto.keysAlive == 0, "%ld session keys of %s were never freed", e->simCrypto.keysAlive, e->simCrypto.name.c_str());
	}

	// shut every endpoint down, and check that all is told
	void shutdownAll()
	{
		bool now = s.chance(1, 3);
		for(auto &e : eps) { e->enter([&] { e->rtmfp->shutdown(now); }); if(s.chance(1, 3)) w.run(s.below(20)); }
		bool ok = w.runWhile([&] { for(auto &e : eps) if(!e->shutdownComplete) return true; return false; }, 250);
		PBT_CHECK(ok, "shutdown did not complete");
		w.run(200);
		for(auto &e : eps) PBT_CHECK(e->shutdownComplete == 1, "%s reported shutdown completion %d times", e->simCrypto.name.c_str(), e->shutdownComplete);
		for(auto &x : app.sflows) if(x.second->flow && !x.second->closed) PBT_CHECK(x.second->exceptions == 1, "flow %u got %d exceptions by the end of its endpoint", x.second->uid, x.second->exceptions);
		for(auto &r : app.rflows) if(r->flow && r->accepted && !r->closed) PBT_CHECK(r->completes == 1, "receiving flow %u completed %d times by the end of its endpoint", r->uid, r->completes);
		for(auto &x : app.sflows) for(auto &m : x.second->msgs) PBT_CHECK(m.finished == 1, "message %d of flow %u finished %d times by the end of its endpoint", m.index, x.second->uid, m.finished);
	}
};

} // namespace sim
