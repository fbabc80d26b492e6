// P39: redirector clients, against a scripted redirector.
#include "net.hpp"
#include "simtimers.hpp"
#include "rtmfp/RedirectorClient.hpp"
#include "rtmfp/VLU.hpp"
#include <openssl/hmac.h>
#include <algorithm>
using namespace sim;
using pbt::Register;
using pbt::hex;

namespace {

const std::string META = "http://zenomt.com/ns/rtmfp#redirector";
Bytes raw(const std::string &t) { return Bytes(t.begin(), t.end()); }
Bytes hmac(const Bytes &key, const Bytes &msg)
{
	Bytes md(32);
	unsigned n = 32;
	static const uint8_t none = 0;
	HMAC(EVP_sha256(), key.empty() ? &none : key.data(), int(key.size()), msg.data(), msg.size(), md.data(), &n);
	return md;
}

struct Rig : Net {
	explicit Rig(Src &s_) : Net(s_) {}
	Endpoint *c { nullptr }, *v { nullptr };

	struct Client : public RedirectorClient {
		Rig &rig;
		Client(Rig &r, RTMFP *rtmfp, const Bytes &epd) : RedirectorClient(rtmfp, epd), rig(r) {}
		~Client() { PBT_CHECK(!rig.freed, "freed twice"); rig.freed = true; }
		std::shared_ptr<Timer> scheduleTimer(Time when) override { return rig.timers->schedule(when); }
		void hmacSHA256(void *dst, const void *key, size_t kl, const void *msg, size_t ml) override
		{
			Bytes x = hmac(Bytes((const uint8_t *)key, (const uint8_t *)key + kl), Bytes((const uint8_t *)msg, (const uint8_t *)msg + ml));
			memcpy(dst, x.data(), 32);
		}
		SendFlow *flow() { return m_send.get(); }
	};

	// --- the client

	std::unique_ptr<SimTimers> timers;
	std::shared_ptr<Client> cl;
	bool freed { false }, over { false }; // over: closed, or let go of
	int status { RedirectorClient::STATUS_IDLE };
	Time lastAttempt { -INFINITY }, lastEnd { -INFINITY };
	unsigned attempts { 0 }, connections { 0 }, losses { 0 }, badAuths { 0 }, nested { 0 }, forwardedUser { 0 }, reflexives { 0 };
	int depth { 0 };
	bool inConnected { false };

	struct State { bool active, reflexive; std::set<Address> more; };
	std::vector<State> states; // what the redirector may be told, in order
	bool active { true }, paused { false }, reflexive { true };
	std::set<Address> more;
	std::map<Bytes, std::vector<Bytes> > auth; // passwords each key ever had
	std::set<Bytes> authNow; // keys at the last connection
	std::vector<uint64_t> loads { 0 };
	Duration interval { 0 }, minInterval { INFINITY };
	Duration rtx { 10 }, ka { 10 };
	FIHelloResponseMode mode { FI_SEND_RHELLO };
	unsigned nextData { 0 };
	std::map<unsigned, unsigned> dataConn; // connection each was sent on
	std::map<unsigned, Bytes> data;

	void note()
	{
		State st { active, reflexive, more };
		if(active && paused) return;
		if(!active) { st.more.clear(); st.reflexive = false; }
		if(states.size() && states.back().active == st.active && states.back().reflexive == st.reflexive && states.back().more == st.more) return;
		states.push_back(st);
	}
	void called(const char *what)
	{
		w.log("client is called: %s", what);
		PBT_CHECK(!over && !freed, "%s was called after the client was %s", what, freed ? "freed" : "closed");
	}
	struct Canary { std::string text; };
	std::shared_ptr<Canary> canary() { auto k = std::make_shared<Canary>(); k->text = std::string(40, 'c'); return k; }
	static void alive(const std::shared_ptr<Canary> &k) { PBT_CHECK(k->text == std::string(40, 'c'), "a callback was destroyed while running"); }
	void react()
	{
		if(depth >= 2 || quiet) return;
		depth++;
		for(int n = s.chance(1, 4) ? s.irange(1, 3) : 0; n--; ) { nested++; op(s.chance(1, 15)); }
		depth--;
	}
	bool quiet { false }, ending { false };

	void make()
	{
		cl = share_ref(new Client(*this, c->rtmfp.get(), v->epd()), false);
		auto k = canary();
		Client *p = cl.get();
		p->onStatus = [=] (RedirectorClient::Status st) {
			static const char *names[] = { "idle", "connecting", "connected", "disconnected", "bad auth", "closed" };
			called(names[st]);
			PBT_CHECK(p->getStatus() == st, "onStatus(%s) and getStatus() is %s", names[st], names[p->getStatus()]);
			PBT_CHECK(p->isConnected() == (st == RedirectorClient::STATUS_CONNECTED), "onStatus(%s) and isConnected() is %d", names[st], p->isConnected());
			switch(st)
			{
			case RedirectorClient::STATUS_CONNECTING:
			{
				PBT_CHECK(status != RedirectorClient::STATUS_CONNECTING && status != RedirectorClient::STATUS_CONNECTED, "connecting from %s", names[status]);
				double least = std::max<double>(p->minimumReconnectInterval, 5);
				if(attempts)
				{
					PBT_CHECK(w.now - lastAttempt >= least - 0.001, "connects again %.3f s after the last attempt", double(w.now - lastAttempt));
					PBT_CHECK(w.now <= std::max<Time>(lastAttempt + least, lastEnd) + 0.01, "disconnected at %.3f, last attempt at %.3f, connects again at %.3f", double(lastEnd - start), double(lastAttempt - start), double(w.now - start));
				}
				attempts++;
				lastAttempt = w.now;
				break;
			}
			case RedirectorClient::STATUS_CONNECTED:
				PBT_CHECK(status == RedirectorClient::STATUS_CONNECTING, "connected from %s", names[status]);
				connections++;
				authNow.clear();
				for(auto &a : auth) authNow.insert(a.first);
				PBT_CHECK(p->getRedirectorAddress() == v->addr(1) || p->getRedirectorAddress() == v->addr(2), "connected to %s", p->getRedirectorAddress().toPresentation().c_str());
				break;
			case RedirectorClient::STATUS_DISCONNECTED:
			case RedirectorClient::STATUS_DISCONNECTED_BAD_AUTH:
				PBT_CHECK(status == RedirectorClient::STATUS_CONNECTING || status == RedirectorClient::STATUS_CONNECTED || ending, "disconnected from %s", names[status]);
				PBT_CHECK(st != RedirectorClient::STATUS_DISCONNECTED_BAD_AUTH || refusedAuth, "authentication was reported bad, the redirector never said so");
				if(st == RedirectorClient::STATUS_DISCONNECTED_BAD_AUTH) badAuths++;
				else if(quietNet && rejectedWith == RedirectorClient::EXCEPTION_BAD_AUTH) PBT_FAIL("the redirector refused the authentication, reported as disconnected");
				PBT_CHECK(!p->isReflexiveAddressValid(), "disconnected, the reflexive address is valid");
				lastEnd = w.now;
				losses++;
				break;
			default: PBT_FAIL("onStatus(%s)", names[st]);
			}
			status = st;
			bool was = inConnected;
			inConnected = st == RedirectorClient::STATUS_CONNECTED;
			if(inConnected) { clientMsgs.clear(); }
			react();
			inConnected = was;
			alive(k);
		};
		p->onReflexiveAddress = [=] (const Address &a) {
			called("onReflexiveAddress");
			reflexives++;
			PBT_CHECK(p->isReflexiveAddressValid() && p->getReflexiveAddress() == a, "onReflexiveAddress and the address is not valid");
			Bytes m = { RedirectorClient::CMD_REFLEXIVE_ADDR_REPORT };
			Bytes e = a.encode();
			m.insert(m.end(), e.begin(), e.end());
			arrived(m);
			react();
			alive(k);
		};
		p->onUserData = [=] (const uint8_t *b, size_t n) {
			called("onUserData");
			forwardedUser++;
			Bytes m = { RedirectorClient::CMD_USER_DATA };
			m.insert(m.end(), b, b + n);
			arrived(m);
			react();
			alive(k);
		};
	}
	Time start { 0 };
	Address address() { return ip(50 + int(s.below(6)), 1); }
	void op(bool fatal)
	{
		if(!cl) return;
		Client *p = cl.get();
		if(fatal)
		{
			bool drop = s.flip();
			w.log("client is %s", drop ? "let go of" : "closed");
			auto t = cl;
			if(s.flip()) p->close();
			else if(!drop) p->close();
			over = true;
			status = RedirectorClient::STATUS_CLOSED;
			if(drop) cl.reset();
			return;
		}
		switch(s.weighted({ 3, 2, 3, 4, 1, 2, 4, 4, 1, 1, 1, 1, 1, 1, 1 }))
		{
		case 0:
			active = s.flip();
			if(over) break;
			w.log("client setActive(%d)", active); p->setActive(active); PBT_CHECK(p->isActive() == active, "isActive"); note();
			break;
		case 1: paused = s.flip(); w.log("client setPaused(%d)", paused); p->setPaused(paused); note(); break;
		case 2: reflexive = s.flip(); w.log("client setAdvertiseReflexiveAddress(%d)", reflexive); p->setAdvertiseReflexiveAddress(reflexive); PBT_CHECK(p->getAdvertiseReflexiveAddress() == reflexive, "getAdvertiseReflexiveAddress"); note(); break;
		case 3:
		{
			for(int n = s.irange(1, 3); n--; )
			{
				uint64_t x = s.chance(1, 8) ? s.u64() : s.below(6);
				w.log("client setLoadFactor(%llu)", (unsigned long long)x);
				p->setLoadFactor(x);
				loads.push_back(x);
				PBT_CHECK(p->getLoadFactor() == x, "getLoadFactor");
			}
			break;
		}
		case 4:
			if(fixedInterval) break;
			interval = s.pick<double>({ 0, 0.5, 3, 20, -1 });
			w.log("client setLoadFactorUpdateInterval(%g)", double(interval));
			p->setLoadFactorUpdateInterval(interval);
			interval = std::max<Duration>(interval, 0);
			PBT_CHECK(p->getLoadFactorUpdateInterval() == interval, "getLoadFactorUpdateInterval");
			break;
		case 5: // an atomic change
			w.log("client changes addresses at once");
			p->setPaused(true); paused = true;
			p->clearAdditionalAddresses(); more.clear();
			for(int n = s.below(4); n--; ) { Address a = address(); p->addAdditionalAddress(a); more.insert(a); }
			p->setPaused(false); paused = false; note();
			break;
		case 6: { Address a = address(); w.log("client addAdditionalAddress(%s)", a.toPresentation().c_str()); more.insert(a); p->addAdditionalAddress(a); note(); break; }
		case 7: if(s.chance(1, 4)) { more.clear(); w.log("client clearAdditionalAddresses()"); p->clearAdditionalAddresses(); } else { Address a = address(); more.erase(a); w.log("client removeAdditionalAddress(%s)", a.toPresentation().c_str()); p->removeAdditionalAddress(a); } note(); break;
		case 8: rtx = s.pick<double>({ 5, 10, 20 }); w.log("client setRetransmitLimit(%g)", double(rtx)); p->setRetransmitLimit(rtx); PBT_CHECK(p->getRetransmitLimit() == rtx, "getRetransmitLimit"); break;
		case 9: ka = s.pick<double>({ 5, 10, 30 }); w.log("client setKeepalivePeriod(%g)", double(ka)); p->setKeepalivePeriod(ka); PBT_CHECK(p->getKeepalivePeriod() == ka, "getKeepalivePeriod"); break;
		case 10: mode = s.pick<FIHelloResponseMode>({ FI_IGNORE, FI_SEND_RHELLO, FI_SEND_REDIRECT }); w.log("client setFIHelloMode(%d)", mode); p->setFIHelloMode(mode); PBT_CHECK(p->getFIHelloMode() == mode, "getFIHelloMode"); break;
		case 11:
			if(inConnected || depth) break;
			{
				Bytes k = raw("key" + std::to_string(s.below(3))), pw = s.rawBytes(s.len(100));
				auth[k].push_back(pw);
				w.log("client addSimpleAuth");
				if(std::find(pw.begin(), pw.end(), 0) == pw.end() && s.flip()) p->addSimpleAuth(std::string(k.begin(), k.end()).c_str(), std::string(pw.begin(), pw.end()).c_str());
				else p->addSimpleAuth(k, pw);
			}
			break;
		case 12: p->addRedirectorAddress(v->addr(1 + int(s.below(2)))); w.log("client addRedirectorAddress"); break;
		case 13: { w.log("client connect()"); auto t = cl; t->connect(); break; }
		default: user();
		}
	}
	void user()
	{
		Bytes m = s.bytes(s.len(300));
		unsigned id = nextData++;
		m.push_back(uint8_t(id >> 8)); m.push_back(uint8_t(id));
		bool was = cl->isConnected();
		auto r = cl->sendUserData(m.data(), m.size());
		PBT_CHECK(!!r == was, "sendUserData answered %s while %sconnected", r ? "a receipt" : "nothing", was ? "" : "not ");
		if(r) { w.log("client sends data %u", id); data[id] = m; dataConn[id] = connections; clientMsgs.push_back(id); }
	}
	std::vector<unsigned> clientMsgs; // data sent on this connection

	// --- the redirector

	struct Conn {
		int id;
		std::shared_ptr<RecvFlow> in;
		std::vector<std::shared_ptr<SendFlow> > out;
		std::vector<Bytes> outMsgs; // what the first accepted return flow carries
		Bytes nonce;
		size_t auths { 0 }, others { 0 }, lf { 0 }, st { 0 }, loadMsgs { 0 };
		std::set<Bytes> keys;
		bool done { false }, rejected { false };
		bool known { false }; State last; // last of settings and draining
		bool lfKnown { false }; uint64_t load { 0 };
		std::vector<unsigned> data;
		size_t delivered { 0 };
		bool decoyed { false };
		Time since { 0 }, loadAt { -INFINITY };
	};
	std::vector<std::unique_ptr<Conn> > conns;
	bool refusedAuth { false }, quietNet { true }, fixedInterval { false };
	long rejectedWith { -1 };
	unsigned long received { 0 };

	void announced(std::shared_ptr<RecvFlow> flow)
	{
		Bytes m = flow->getMetadata();
		if(m == raw("other")) { flow->accept(); return; }
		PBT_CHECK(m == raw(META), "the client opened a flow with metadata %s", hex(m).c_str());
		if(refusing) { w.log("redirector rejects the flow"); rejectedWith = 0; return; }
		std::unique_ptr<Conn> x(new Conn);
		Conn *k = x.get();
		k->id = int(conns.size());
		k->since = w.now;
		k->in = flow;
		k->nonce = flow->getNearNonce();
		conns.push_back(std::move(x));
		w.log("redirector has connection %d", k->id);
		rejectedWith = -1;
		flow->onMessage = [=] (const uint8_t *b, size_t n, uintmax_t, size_t) { message(k, Bytes(b, b + n)); };
		flow->onComplete = [=] (bool) { w.log("connection %d ended", k->id); k->done = true; };
		flow->accept();
	}
	bool refusing { false };
	void message(Conn *k, const Bytes &m)
	{
		received++;
		PBT_CHECK(m.size(), "an empty message");
		Bytes b(m.begin() + 1, m.end());
		w.log("redirector receives %02x (%zu bytes) on connection %d", m[0], b.size(), k->id);
		if(m[0] == RedirectorClient::CMD_SIMPLE_AUTH)
		{
			PBT_CHECK(!k->others, "authentication was sent after other commands");
			PBT_CHECK(b.size() >= 32, "authentication of %zu bytes", b.size());
			Bytes key(b.begin() + 32, b.end()), md(b.begin(), b.begin() + 32);
			PBT_CHECK(auth.count(key), "authentication with unknown key %s", hex(key).c_str());
			PBT_CHECK(k->keys.insert(key).second, "authenticated twice with a key");
			bool ok = false;
			for(auto &pw : auth[key]) ok = ok || hmac(pw, k->nonce) == md;
			PBT_CHECK(ok, "the authentication for %s is wrong", hex(key).c_str());
			k->auths++;
			if(s.chance(1, 12)) reject(k, RedirectorClient::EXCEPTION_BAD_AUTH);
			return;
		}
		k->others++;
		switch(m[0])
		{
		case RedirectorClient::CMD_SETTINGS:
		{
			State st { true, false, {} };
			const uint8_t *p = b.data(), *l = p + b.size();
			while(p < l)
			{
				ref::Opt o;
				size_t on = ref::getOpt(p, size_t(l - p), &o);
				PBT_CHECK(on, "settings %s", hex(b).c_str());
				p += on;
				if(o.marker) continue;
				if(o.type == RedirectorClient::SETTINGS_OPT_INCLUDE_REFLEXIVE) st.reflexive = true;
				else if(o.type == RedirectorClient::SETTINGS_OPT_ADD_ADDRESS)
				{
					Address a;
					PBT_CHECK(a.setFromEncoding(o.value.data(), o.value.data() + o.value.size()) && st.more.insert(a).second, "settings have address %s", hex(o.value).c_str());
				}
				else PBT_FAIL("settings option %llu", (unsigned long long)o.type);
			}
			told(k, st);
			break;
		}
		case RedirectorClient::CMD_DRAINING: PBT_CHECK(b.empty(), "draining %s", hex(b).c_str()); told(k, State { false, false, {} }); break;
		case RedirectorClient::CMD_LOAD_FACTOR:
		{
			uint64_t x = 0;
			size_t n = ref::getVLU(b.data(), b.size(), &x);
			PBT_CHECK(n && n == b.size(), "load factor %s", hex(b).c_str());
			while(k->lf < loads.size() && loads[k->lf] != x) k->lf++;
			PBT_CHECK(k->lf < loads.size(), "load factor %llu, which the client has not, or had before a later one it sent", (unsigned long long)x);
			k->lfKnown = true; k->load = x;
			loadTotal++;
			if(fixedInterval && quietNet && w.now > k->since + 1) // later than what is sent on connecting
			{
				PBT_CHECK(w.now - k->loadAt > interval - 0.2L, "load factors were sent %.2f s apart, the interval is %g s", double(w.now - k->loadAt), double(interval));
				k->loadAt = w.now;
			}
			break;
		}
		case RedirectorClient::CMD_USER_DATA:
		{
			PBT_CHECK(b.size() >= 2, "user data %s", hex(b).c_str());
			unsigned id = b[b.size() - 2] << 8 | b[b.size() - 1];
			PBT_CHECK(data.count(id) && data[id] == b, "user data %u was altered", id);
			PBT_CHECK(k->data.empty() || dataConn[id] == dataConn[k->data[0]], "user data of two connections");
			unsigned before = 0; // sent on that connection before this
			for(auto &x : dataConn) if(x.first < id && x.second == dataConn[id]) before++;
			PBT_CHECK(before == k->data.size(), "user data %u is number %u of its connection, received after %zu", id, before, k->data.size());
			k->data.push_back(id);
			break;
		}
		default: PBT_FAIL("command %02x", m[0]);
		}
	}
	unsigned long loadTotal { 0 };
	void told(Conn *k, const State &st)
	{
		auto same = [&] (const State &a) { return a.active == st.active && a.reflexive == st.reflexive && a.more == st.more; };
		while(k->st < states.size() && !same(states[k->st])) k->st++;
		PBT_CHECK(k->st < states.size(), "the redirector was told %s with %zu addresses%s, which the client never had set while unpaused, or had before what it sent last", st.active ? "settings" : "draining", st.more.size(), st.reflexive ? " and its reflexive one" : "");
		k->last = st; k->known = true;
	}
	void reject(Conn *k, long code)
	{
		if(k->done || k->rejected) return;
		w.log("redirector rejects connection %d with %ld", k->id, code);
		k->rejected = true;
		rejectedWith = code;
		if(code == RedirectorClient::EXCEPTION_BAD_AUTH) refusedAuth = true;
		auto in = k->in;
		in->close(uintmax_t(code));
		for(auto &o : k->out) o->close();
	}
	Conn *liveConn() { Conn *k = conns.empty() ? nullptr : conns.back().get(); return k && !k->done && !k->rejected ? k : nullptr; }
	void serverOp()
	{
		Conn *k = liveConn();
		if(!k) return;
		if(s.chance(1, 20)) { reject(k, s.pick<long>({ 0, 1, 10, 10, 11, 266 })); return; }
		if(s.chance(1, 60)) { w.log("redirector closes the session"); k->rejected = true; k->in->closeSession(); return; }
		if(k->out.empty())
		{
			if(!k->decoyed && s.chance(1, 8)) // not a redirector's
			{
				k->decoyed = true;
				auto f = k->in->openReturnFlow(raw(s.flip() ? META.substr(0, META.size() - 1) : s.flip() ? META + "x" : "x"), PRI_ROUTINE);
				if(f) { Bytes m = { RedirectorClient::CMD_USER_DATA, 'b', 'a', 'd' }; f->write(m); f->close(); }
			}
			Bytes meta = raw(META);
			if(s.chance(1, 4)) { meta.push_back(0); Bytes x = s.rawBytes(s.below(8)); meta.insert(meta.end(), x.begin(), x.end()); }
			auto f = k->in->openReturnFlow(meta, PRI_ROUTINE);
			if(!f) return;
			k->out.push_back(f);
			f->onException = [=] (uintmax_t) { w.log("the return flow of connection %d was rejected", k->id); };
		}
		else if(s.chance(1, 10) && k->out.size() == 1 && k->delivered) // a second one, of which nothing is delivered
		{
			auto f = k->in->openReturnFlow(raw(META), PRI_ROUTINE);
			if(f) { Bytes m = { RedirectorClient::CMD_USER_DATA, 'b', 'a', 'd' }; f->write(m); f->close(); k->out.push_back(f); }
		}
		for(int n = s.irange(1, 3); n--; )
		{
			Bytes m;
			bool counts = true;
			switch(s.weighted({ 4, 3, 1, 1 }))
			{
			case 0: m = s.bytes(s.len(200)); m.insert(m.begin(), RedirectorClient::CMD_USER_DATA); break;
			case 1:
			{
				Bytes e = ip(60 + int(s.below(20)), 1 + int(s.below(3))).encode();
				e[0] = uint8_t((e[0] & 0x80) | s.below(4)); // any origin
				m = e;
				m.insert(m.begin(), RedirectorClient::CMD_REFLEXIVE_ADDR_REPORT);
				break;
			}
			case 2: // malformed
				m = { RedirectorClient::CMD_REFLEXIVE_ADDR_REPORT };
				if(s.flip()) { Bytes e = ip(9, 1).encode(); e.resize(s.below(e.size())); m.insert(m.end(), e.begin(), e.end()); }
				counts = false;
				break;
			default: m = s.rawBytes(s.below(5)); if(m.size() && (m[0] == RedirectorClient::CMD_USER_DATA || m[0] == RedirectorClient::CMD_REFLEXIVE_ADDR_REPORT)) m[0] = 0x77; counts = false;
			}
			if(k->out[0]->write(m) && counts) k->outMsgs.push_back(m);
		}
	}
	// the client's application was given a message
	void arrived(const Bytes &m)
	{
		// of the connection the client is on, which the redirector may have ended
		if(arrivedConn != connections)
		{
			arrivedConn = connections;
			arrivedFrom = nullptr;
		}
		if(!arrivedFrom)
			for(size_t i = conns.size(); i-- && !arrivedFrom; ) if(conns[i]->delivered == 0 && conns[i]->outMsgs.size() && conns[i]->outMsgs[0] == m) arrivedFrom = conns[i].get();
		PBT_CHECK(arrivedFrom, "the client was given %s, which the redirector did not send first", hex(m).c_str());
		Conn *k = arrivedFrom;
		PBT_CHECK(k->delivered < k->outMsgs.size() && k->outMsgs[k->delivered] == m, "message %zu from the redirector was given as %s", k->delivered, hex(m).c_str());
		k->delivered++;
	}
	unsigned arrivedConn { 0 };
	Conn *arrivedFrom { nullptr };

	bool settled(bool report)
	{
		auto no = [&] (const char *f, ...) { if(report) { char b[300]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); PBT_FAIL("%s", b); } return false; };
		if(over || freed) return true;
		if(status != RedirectorClient::STATUS_CONNECTED) return no("the client is not connected again (status %d)", status);
		Conn *k = liveConn();
		if(!k) return no("the redirector has no connection");
		if(k->keys.size() != authNow.size()) return no("the client authenticated with %zu of %zu keys", k->keys.size(), authNow.size());
		if(!active) { if(!k->known || k->last.active) return no("the client is inactive and the redirector was not told last"); }
		else if(!paused)
		{
			if(!k->known || !k->last.active) return no("the client is active and the redirector was not told last");
			if(k->last.reflexive != reflexive || k->last.more != more) return no("the redirector has %zu addresses%s, the client set %zu%s", k->last.more.size(), k->last.reflexive ? " and the reflexive" : "", more.size(), reflexive ? " and the reflexive" : "");
		}
		if(!k->lfKnown || k->load != loads.back()) return no("the redirector has load factor %llu, the client set %llu", (unsigned long long)k->load, (unsigned long long)loads.back());
		if(k->data != clientMsgs) return no("the redirector received %zu of %zu user data messages", k->data.size(), clientMsgs.size());
		if(k->out.size() && k->delivered != k->outMsgs.size()) return no("the client was given %zu of %zu messages", k->delivered, k->outMsgs.size());
		return true;
	}

	void go()
	{
		start = w.now;
		c = add("client");
		v = add("redirector", "", 2);
		timers.reset(new SimTimers(w, c));
		app.onForeign = [this] (Endpoint *e, std::shared_ptr<RecvFlow> flow) { if(e == v) announced(flow); };
		w.admit = nullptr; // the client starts over after losing its session
		make();
		std::shared_ptr<SendFlow> other;
		if(s.chance(1, 3)) c->enter([&] { other = c->rtmfp->openFlow(v->epd(), raw("other")); other->addCandidateAddress(v->addr(1)); other->onException = [] (uintmax_t) {}; if(s.flip()) other->write(raw("x")); });
		if(s.chance(1, 3)) w.run(1);
		fixedInterval = s.flip();
		bool late = !other && s.chance(1, 6);
		c->enter([&] {
			if(s.flip()) cl->minimumReconnectInterval = s.pick<double>({ 0, 6, 30, 50 });
			if(fixedInterval) { interval = s.pick<double>({ 0.5, 5, 20 }); cl->setLoadFactorUpdateInterval(interval); }
			if(!late) cl->addRedirectorAddress(v->addr(1 + int(s.below(2))));
			note();
			for(int n = s.below(5); n--; ) op(false);
			auto t = cl;
			if(t) t->connect();
			PBT_CHECK(over || t->getStatus() == RedirectorClient::STATUS_CONNECTING, "connect() made the status %d", t->getStatus());
			if(t && !over) t->connect();
		});
		if(late) // an address learned while connecting is tried at once
		{
			w.run(s.pick<double>({ 0.01, 1, 20, 60 }));
			c->enter([&] { if(cl && !over) { w.log("client learns an address"); cl->addRedirectorAddress(v->addr(1 + int(s.below(2)))); } });
			w.run(5);
			PBT_CHECK(over || connections, "an address of the redirector was added while connecting, 5 s later the client has not connected");
		}
		if(s.flip()) { faults(); quietNet = false; }
		refusing = s.chance(1, 10);
		for(int n = 10 + s.sized(90); n--; )
		{
			switch(s.weighted({ 8, 8, 1 }))
			{
			case 0: c->enter([&] { op(s.chance(1, 150)); }); break;
			case 1: v->enter([&] { serverOp(); }); break;
			default:
				if(s.chance(1, 3)) { refusing = s.chance(1, 3); }
				else if(s.chance(1, 3))
				{
					double t = s.pick<double>({ 3, 30, 100 });
					w.log("the network is down for %g s", t);
					quietNet = false;
					w.path(c, v).up = w.path(v, c).up = false;
					w.run(t);
					if(t == 100 && !freed && !over) PBT_CHECK(status != RedirectorClient::STATUS_CONNECTED, "the redirector was unreachable for 100 s, the client still connected");
					w.path(c, v).up = w.path(v, c).up = true;
				}
				break;
			}
			if(s.flip()) w.run(s.pick<double>({ 0.001, 0.03, 0.3, 2, 10 }));
		}
		refusing = false;
		heal();
		quiet = true;
		for(int i = 0; i < 40 && !settled(false); i++)
		{
			// a rejection that was lost is repeated when the client sends again
			if(i % 3 == 0) c->enter([&] { if(cl && !over && cl->isConnected()) user(); });
			w.runWhile([&] { return !settled(false); }, 15);
		}
		settled(true);
		if(cl && !over && status == RedirectorClient::STATUS_CONNECTED)
		{
			SendFlow *f = cl->flow();
			PBT_CHECK(f && f->getSessionKeepalivePeriod() == ka, "the keepalive period is %g s, %g were asked for", double(f->getSessionKeepalivePeriod()), double(ka));
			PBT_CHECK(f->getSessionRetransmitLimit() == rtx, "the retransmission limit is %g s, %g were asked for", double(f->getSessionRetransmitLimit()), double(rtx));
			PBT_CHECK(f->getSessionFIHelloMode() == mode, "the hello mode is %d, %d was asked for", f->getSessionFIHelloMode(), mode);
			// nothing more is said while nothing changes
			w.run(30);
			unsigned long before = received;
			w.run(interval + 100);
			PBT_CHECK(received == before || !quietNet, "%lu messages were sent though nothing changed", received - before);
			settled(true);
		}
		if(fixedInterval) PBT_CHECK(double(loadTotal) <= 2.0 * (connections + 1) + double(w.now - start) / double(interval), "the load factor was sent %lu times in %.1f s, the interval is %g s", loadTotal, double(w.now - start), double(interval));
		bool ends = s.flip();
		if(ends) c->enter([&] { if(cl && !over) op(true); });
		if(ends && s.flip()) { unsigned n = attempts; w.run(200); PBT_CHECK(attempts == n, "closed, and connecting again"); }
		if(other) { c->enter([&] { other->close(); other.reset(); }); }
		// the client reports the end of its endpoint
		ending = true;
		shutdownAll();
		if(!over && cl) PBT_CHECK(status == RedirectorClient::STATUS_DISCONNECTED || status == RedirectorClient::STATUS_DISCONNECTED_BAD_AUTH, "its endpoint ended, the client's status is %d", status);
		c->enter([&] { if(cl) { over = true; cl->close(); PBT_CHECK(cl->getStatus() == RedirectorClient::STATUS_CLOSED, "closed, and the status is %d", cl->getStatus()); cl.reset(); } });
		PBT_CHECK(freed, "the client was never freed");
		conns.clear();
		destroy(false);
		timers.reset();
		s.label("connections", connections);
		s.label("disconnections", losses);
		s.label("bad authentications", badAuths);
		s.label("changes from callbacks", nested);
		s.label("messages to the redirector", received);
		s.label("user data to the client", forwardedUser);
		s.label("reflexive addresses", reflexives);
		if(connections > 1 && received > 5) s.nontrivial();
	}
};

void redirector(Src &s) { Rig(s).go(); }

Register r({ "P39", "redirector clients changed from outside and from callbacks, under loss, outages, rejections and malformed messages; non-trivial: connected at least twice and over five commands arrived", {
	{ "client", redirector, 8000, 600000 },
}, {
	"passwords are added outside callbacks",
} });

} // namespace
