// P13: dead sessions are detected and live ones kept, on time.
#include "net.hpp"
using namespace sim;
using pbt::Register;

namespace {

struct LifetimeCfg { int eps; bool lossy; unsigned dark, closes, limits, windows; double longest; };

const double EPS = 1e-6, LINGER = 131;

struct Sess {
	Endpoint *e { nullptr };
	uint64_t key { 0 };
	int role { 0 };
	Time openAt { 0 };
	double kp { 0 }, rl { 0 }, il { 0 };
	Time limitSet { 0 }, keepSet { 0 }, idleSet { 0 };
	Time epoch { INFINITY };      // first transmission that wants an answer since the last answer
	Time heard { -INFINITY };     // the last answer
	Time lastTxBefore { 0 };      // the one before this instant
	Time lastTx { 0 };            // last packet that counts as a sign of life to the peer
	Time lastNew { 0 };           // last packet with data never sent before, or first of a series of probes
	Time hadFlow { 0 };           // last time a flow was open here
	Time active { 0 };            // last data or acknowledgement sent or received
	bool blockedAtHeard { false }; // something was still unanswered then
	bool confirmed { false }, closed { false };
	bool pinging { false };
	long lastEcho { -1 };
	double srtt { -1 }, rttvar { 0 };
	double mrto() const { return srtt < 0 ? 3 : (srtt + 4 * rttvar) * (srtt > 2 ? 1.5 : 1) + 0.25; }
	double pending { 0 };         // the longest timeout that may have been set when last it was
	double maxTimeout() const { return std::max(std::max(10.0, mrto()) + 0.6, pending); }
	void armed() { pending = 0; pending = maxTimeout(); }
	unsigned long refusals { 0 }; // exceptions the peer sent
	std::map<uint64_t, uint64_t> sent, acked; // flow ID, highest sequence number
};

struct Lifetimes : Net {
	LifetimeCfg c;
	std::map<std::pair<Endpoint *, uint64_t>, Sess> all;
	struct Defaults { double kp, rl, il; };
	std::map<Endpoint *, Defaults> defaults;
	std::map<uint64_t, std::pair<Time, Defaults> > answered; // when the initiator first got the responder's keying, and its defaults then
	bool over { false };
	unsigned long timeouts { 0 }, idles { 0 }, pings { 0 }, sets { 0 }, survived { 0 }, darkness { 0 };

	Lifetimes(Src &s_, const LifetimeCfg &c_) : Net(s_), c(c_)
	{
		w.onSend.push_back([this] (Pkt &p) { sent(p); });
		w.onDeliver.push_back([this] (Pkt &p, Endpoint *to) { arriving(p, to); });
		w.onDelivered.push_back([this] (Pkt &p, Endpoint *to, bool) {
			if(p.known && !over)
				for(auto &ch : p.dec.chunks)
					if(ch.type == 0x78 && ch.body.size() > 4)
					{
						const uint8_t *q = ch.body.data() + 4, *l = ch.body.data() + ch.body.size();
						Bytes nr = field(q, l);
						for(auto &k : w.keyEnds) if(k.second.nr == nr && k.second.i == &to->simCrypto && !answered.count(k.first)) answered[k.first] = { w.now, defaults[to] };
					}
			 discover(to); w.after(0, [this, to] { if(!over) discover(to); }); });
	}

	Sess *find(Endpoint *e, uint64_t key) { auto i = all.find({ e, key }); return i == all.end() ? nullptr : &i->second; }
	static std::pair<uint64_t, uint64_t> keysOf(Flow *f) { Bytes a = f->getNearNonce(), b = f->getFarNonce(); if(a.empty()) return { 0, 0 }; return { keyFromNonces(a, b), keyFromNonces(b, a) }; }
	Sess *sessOf(Endpoint *e, Flow *f) { auto k = keysOf(f); if(!k.first) return nullptr; Sess *x = find(e, k.first); return x ? x : find(e, k.second); }

	Sess *create(Endpoint *e, uint64_t key, int role)
	{
		Sess &n = all[{ e, key }];
		n.e = e; n.key = key; n.role = role;
		n.openAt = n.lastTxBefore = n.lastTx = n.lastNew = n.hadFlow = n.active = n.limitSet = n.keepSet = n.idleSet = w.now;
		Defaults d = defaults[e];
		if(role == 1 && answered.count(key))
		{
			d = answered[key].second;
			n.openAt = n.lastTx = n.lastTxBefore = n.hadFlow = n.active = answered[key].first;
		}
		n.kp = std::max(1.0, d.kp); n.rl = std::max(1.0, d.rl); n.il = std::max(1.0, d.il);
		return &n;
	}
	// sessions that just opened
	void discover(Endpoint *e)
	{
		for(auto &k : w.keyEnds) if(k.second.r == &e->simCrypto && !find(e, k.first)) create(e, k.first, 2);
		for(auto &x : app.sflows)
		{
			SFlow *f = x.second.get();
			if(!f->open() || f->ep != e || !bound(f) || sessOf(e, f->flow.get())) continue;
			auto k = keysOf(f->flow.get());
			auto i = w.keyEnds.find(k.first);
			if(i == w.keyEnds.end() || i->second.i != &e->simCrypto) continue;
			Sess *n = create(e, k.first, 1);
			n->confirmed = true;
			getters(f->flow.get(), n, "as its session opened");
		}
	}
	void getters(Flow *f, Sess *n, const char *when)
	{
		PBT_CHECK(f->getSessionKeepalivePeriod() == Duration(n->kp), "%s, keepalive period is %g where %g was set", when, double(f->getSessionKeepalivePeriod()), n->kp);
		PBT_CHECK(f->getSessionRetransmitLimit() == Duration(n->rl), "%s, retransmit limit is %g where %g was set", when, double(f->getSessionRetransmitLimit()), n->rl);
		PBT_CHECK(f->getSessionIdleLimit() == Duration(n->il), "%s, idle limit is %g where %g was set", when, double(f->getSessionIdleLimit()), n->il);
	}

	bool hasFlow(Sess *n, bool unfinishedToo)
	{
		for(auto &x : app.sflows)
		{
			SFlow *f = x.second.get();
			if(f->ep != n->e || !f->flow || f->exceptions || sessOf(n->e, f->flow.get()) != n) continue;
			if(!f->closed) return true;
			if(unfinishedToo) for(auto &m : f->msgs) if(!m.finished) return true;
		}
		for(auto &r : app.rflows) if(r->ep == n->e && r->open() && sessOf(n->e, r->flow.get()) == n) return true;
		return false;
	}

	void sent(Pkt &p)
	{
		if(!p.known || p.dec.mode() == 3 || over) return;
		if(!find(p.from, p.key)) discover(p.from);
		if(!find(p.from, p.key) && answered.count(p.key)) create(p.from, p.key, 1);
		Sess *n = find(p.from, p.key);
		if(!n) return;
		const char *who = p.from->simCrypto.name.c_str();
		n->confirmed = true;
		if(n->lastTx < w.now) n->lastTxBefore = n->lastTx; // a probe decided upon may be written after another packet of that instant
		for(auto &ch : p.dec.chunks)
		{
			if(ch.isData())
			{
				n->epoch = std::min(n->epoch, w.now);
				n->lastTx = n->active = w.now;
				n->armed();
				uint64_t &top = n->sent[ch.flowID];
				if(ch.sn > top) { top = ch.sn; n->lastNew = w.now; }
			}
			else if(ch.isAck() || ch.type == 0x5e) n->lastTx = n->active = w.now;
			else if(ch.type == 0x41) n->lastTx = w.now;
			else if(ch.type == 0x18) n->active = w.now; // an ended flow is blocked
			else if(ch.type == 0x01 && ch.body.empty())
			{
				pings++;
				if(!n->pinging) PBT_CHECK(w.now >= n->lastTxBefore + n->kp - EPS, "%s probes its peer %.3f seconds after it last sent, its keepalive period is %g", who, double(w.now - n->lastTxBefore), n->kp);
				if(!n->pinging) n->lastNew = w.now;
				n->pinging = true;
				n->armed();
				n->lastTx = w.now;
				n->epoch = std::min(n->epoch, w.now);
			}
			else if(ch.type == 0x0c && !n->closed)
			{
				n->closed = true;
				bool wanting = n->pinging;
				for(auto &x : n->sent) if(n->acked[x.first] < x.second) wanting = true;
				double silence = double(w.now - (std::isinf(n->heard) ? n->openAt : n->heard));
				if(!n->blockedAtHeard && !std::isinf(n->heard) && !std::isinf(n->epoch) && n->epoch > n->heard + n->maxTimeout()) silence = double(w.now - n->epoch); // it wanted nothing for a while
				bool dead = wanting && silence >= n->rl - EPS;
				Time quiet = std::max(n->openAt, n->hadFlow);
				bool idle = !hasFlow(n, true) && w.now >= quiet + n->il - EPS;
				w.log("%s closes its session%s%s", who, dead ? ": no answers" : "", idle ? ": idle" : "");
				PBT_CHECK(dead || idle, "%s closed its session, %s: heard nothing for %.3f s of %g%s, %s for %.3f s of %g", who, hasFlow(n, false) ? "which has open flows" : hasFlow(n, true) ? "which has data to deliver" : "which has no flows", silence, n->rl, wanting ? "" : " and wanted nothing", "without flows", double(w.now - quiet), n->il);
				if(dead) timeouts++; else idles++;
			}
			else if(ch.type == 0x4c) n->closed = true;
		}
	}
	void arriving(Pkt &p, Endpoint *to)
	{
		if(!p.known || p.dec.mode() == 3 || over) return;
		Sess *n = find(to, p.key);
		if(!n || p.from == to) return;
		if(p.dec.tse >= 0 && p.dec.tse != n->lastEcho)
		{
			n->lastEcho = p.dec.tse;
			uint16_t ticks = uint16_t(uint16_t(uint64_t((w.now - to->epoch) * 250)) - p.dec.tse);
			if(ticks < 32768)
			{
				double rtt = ticks * 0.004;
				if(n->srtt >= 0) { n->rttvar = (3 * n->rttvar + std::fabs(n->srtt - rtt)) / 4; n->srtt = (7 * n->srtt + rtt) / 8; }
				else { n->srtt = rtt; n->rttvar = rtt / 2; }
			}
		}
		for(auto &ch : p.dec.chunks)
		{
			if(ch.isAck() && ch.cum > n->acked[ch.flowID]) n->acked[ch.flowID] = ch.cum;
			if((ch.isAck() && n->sent.count(ch.flowID)) || ch.type == 0x41) { n->epoch = INFINITY; n->heard = w.now; n->active = w.now; n->pinging = false; n->armed(); n->blockedAtHeard = false; for(auto &x : n->sent) if(n->acked[x.first] < x.second) n->blockedAtHeard = true; }
			else if(ch.isData()) n->active = w.now;
			else if(ch.type == 0x5e) n->refusals++;
			else if(ch.type == 0x0c || ch.type == 0x4c) n->closed = true;
		}
	}

	bool keyAlive(Sess &n) { for(auto *k : n.e->simCrypto.live) if(k->key == n.key) return true; return false; }

	void verify()
	{
		for(auto &x : all)
		{
			Sess &n = x.second;
			if(n.closed || !n.confirmed || !keyAlive(n)) continue;
			const char *who = n.e->simCrypto.name.c_str();
			if(hasFlow(&n, true)) n.hadFlow = w.now;
			if(!std::isinf(n.epoch))
			{
				Time t = std::max(n.epoch + n.rl, std::max(n.lastNew, std::max(n.limitSet, n.keepSet))) + n.maxTimeout();
				if(n.keepSet > n.epoch) t += n.maxTimeout(); // the probe it causes may postpone a timeout once more
				PBT_CHECK(w.now <= t, "%s keeps a session whose peer has not answered for %.1f seconds, its retransmit limit is %g (round trip %.3f, variation %.3f)", who, double(w.now - n.epoch), n.rl, n.srtt, n.rttvar);
			}
			{ Time t = std::max(std::max(n.lastTx, n.heard) + std::max(n.kp + n.mrto(), n.maxTimeout()), n.keepSet + n.maxTimeout()) + 0.6; PBT_CHECK(w.now <= t, "%s has not probed its peer for %.1f seconds, its keepalive period is %g (round trip %.3f, variation %.3f)", who, double(w.now - n.lastTx), n.kp, n.srtt, n.rttvar); }
			{ Time t = std::max(std::max(n.hadFlow, n.active) + LINGER + n.il, n.idleSet) + 2; PBT_CHECK(w.now <= t, "%s keeps a session %.1f seconds after its last flow ended, its idle limit is %g", who, double(w.now - n.hadFlow), n.il); }
		}
		for(auto &x : app.sflows)
		{
			SFlow *f = x.second.get();
			if(!f->flow) continue;
			Sess *n = sessOf(f->ep, f->flow.get());
			if(!n) continue;
			if(f->exceptions) PBT_CHECK(n->closed || n->refusals, "flow %u failed but its session was not closed by either end", f->uid);
			else if(!f->closed && n->confirmed && !n->closed) getters(f->flow.get(), n, "later");
			else if(!f->closed && n->closed) PBT_FAIL("flow %u is open but its session ended", f->uid);
		}
		for(auto &r : app.rflows) if(r->flow && r->completes && r->error) { Sess *n = sessOf(r->ep, r->flow.get()); if(n) PBT_CHECK(n->closed, "receiving flow %u failed but its session was not closed by either end", r->uid); }
	}
	void pass(double t)
	{
		Time until = w.now + t;
		while(w.now < until - EPS) { w.runUntil(std::min<Time>(until, w.now + 0.5)); verify(); }
	}

	void go()
	{
		static const char *names[] = { "alice", "bob", "carol" };
		auto keep = [&] { return s.pick<double>({ 5, 0.2, 1, 2, 3, 11, 30, 3600 }); };
		auto limit = [&] { return s.pick<double>({ 20, 0.3, 1, 2, 5, 12, 60, 120 }); };
		auto idle = [&] { return s.pick<double>({ 20, 0.1, 1, 3, 8, 60, 300 }); };
		for(int i = 0; i < c.eps; i++)
		{
			Endpoint *e = add(names[i]);
			e->simCrypto.txMargin = s.below(17);
			Defaults d = { keep(), limit(), idle() };
			defaults[e] = d;
			e->enter([&] { e->rtmfp->setDefaultSessionKeepalivePeriod(d.kp); e->rtmfp->setDefaultSessionRetransmitLimit(d.rl); e->rtmfp->setDefaultSessionIdleLimit(d.il); });
			PBT_CHECK(e->rtmfp->getDefaultSessionKeepalivePeriod() == Duration(d.kp) && e->rtmfp->getDefaultSessionRetransmitLimit() == Duration(d.rl) && e->rtmfp->getDefaultSessionIdleLimit() == Duration(d.il), "defaults differ from what was set");
		}
		auto paths = [&] (bool dark) {
			for(auto &a : eps) for(auto &b : eps) if(a != b)
			{
				Path &q = w.path(a.get(), b.get());
				q = Path();
				q.delay = s.pick<double>({ 0.02, 0, 0.1, 0.3 });
				if(s.chance(1, 3)) q.jitter = 0.1;
				q.fifo = s.flip();
				if(c.lossy && s.chance(1, 3)) q.loss = s.pick<double>({ 0.1, 0.5 });
				if(dark && s.flip()) q.up = false;
			}
			w.log("paths change%s", dark ? ", some go down" : "");
			if(dark) darkness++;
		};
		paths(false);
		int n = s.irange(5, 40);
		bool delivered = false;
		for(int i = 0; i < n; i++)
		{
			Endpoint *e = eps[s.below(eps.size())].get();
			auto ss = sending(e); auto rr = receiving(e);
			switch(s.weighted({ 5, 6, c.closes, c.dark, 3, c.limits, c.windows, 2 }))
			{
			case 0:
				if(app.sflows.size() < 14)
				{
					SFlow *f = nullptr;
					if(rr.size() && s.flip()) f = app.openOn(s.pick(rr));
					else if(ss.size() && s.flip()) f = app.openOn(s.pick(ss));
					else
					{
						std::vector<Endpoint *> o;
						for(auto &x : eps) if(x.get() != e) o.push_back(x.get());
						Endpoint *to = s.pick(o);
						f = app.open(e, to->epd());
						if(f) e->enter([&] { f->flow->addCandidateAddress(to->addr(1)); });
					}
					if(f && s.chance(7, 8)) app.write(f, s.len(3000));
				}
				break;
			case 1: if(ss.size()) app.write(s.pick(ss), s.len(4000)); break;
			case 2: if(ss.size()) app.close(s.pick(ss)); break;
			case 3: paths(true); break;
			case 4: paths(false); break;
			case 5:
			{
				std::vector<std::pair<Flow *, Sess *> > v;
				for(auto *f : ss) if(Sess *x = sessOf(e, f->flow.get())) if(!x->closed && bound(f)) v.push_back({ f->flow.get(), x });
				for(auto *r : rr) if(Sess *x = sessOf(e, r->flow.get())) if(!x->closed) v.push_back({ r->flow.get(), x });
				if(v.empty() || s.chance(1, 6))
				{
					Defaults d = { keep(), limit(), idle() };
					defaults[e] = d;
					w.log("%s defaults: keepalive %g retransmit %g idle %g", e->simCrypto.name.c_str(), d.kp, d.rl, d.il);
					e->enter([&] { e->rtmfp->setDefaultSessionKeepalivePeriod(d.kp); e->rtmfp->setDefaultSessionRetransmitLimit(d.rl); e->rtmfp->setDefaultSessionIdleLimit(d.il); });
				}
				else
				{
					sets++;
					auto x = s.pick(v);
					Sess *y = x.second;
					double v;
					switch(s.below(3))
					{
					case 0: v = keep(); y->kp = std::max(1.0, v); y->keepSet = w.now; w.log("%s session keepalive %g", e->simCrypto.name.c_str(), v); e->enter([&] { x.first->setSessionKeepalivePeriod(v); }); break;
					case 1: v = limit(); y->rl = std::max(1.0, v); y->limitSet = w.now; w.log("%s session retransmit limit %g", e->simCrypto.name.c_str(), v); e->enter([&] { x.first->setSessionRetransmitLimit(v); }); break;
					default: v = idle(); y->il = std::max(1.0, v); y->idleSet = w.now; w.log("%s session idle limit %g", e->simCrypto.name.c_str(), v); e->enter([&] { x.first->setSessionIdleLimit(v); }); break;
					}
				}
				break;
			}
			case 6: if(rr.size()) { RFlow *r = s.pick(rr); size_t v = s.pick<size_t>({ 65536, 0, 2000 }); w.log("receiving flow %u capacity %zu", r->uid, v); e->enter([&] { r->flow->setBufferCapacity(v); }); } break;
			default: for(auto &x : eps) for(auto *f : sending(x.get())) if(s.flip()) app.close(f); break;
			}
			pass(s.pick<double>({ 0.1, 0, 0.02, 0.5, 1, 2, 5, 12, 40, c.longest }));
		}
		for(auto &x : all) if(!x.second.closed && x.second.confirmed && keyAlive(x.second)) survived++;
		for(auto &r : app.rflows) if(r->got.size()) delivered = true;
		over = true;
		heal();
		shutdownAll();
		destroy();
		s.label("sessions", all.size());
		s.label("closed for want of answers", timeouts);
		s.label("closed for idleness", idles);
		s.label("probes", pings);
		s.label("limits set", sets);
		s.label("sessions open at the end", survived);
		s.label("path failures", darkness);
		if(delivered && (timeouts + idles + pings)) s.nontrivial();
	}
};

void run(Src &s, const LifetimeCfg &c) { Lifetimes l(s, c); l.go(); }
void dying(Src &s) { run(s, { s.irange(2, 3), true, 4, 1, 2, 1, 150 }); }
void quiet(Src &s) { run(s, { 2, false, 0, 3, 3, 0, 300 }); }
void blocked(Src &s) { run(s, { 2, true, 2, 1, 2, 4, 100 }); }
Register r({"P13", "histories of 2 or 3 endpoints with generated default and per-session keepalive periods, retransmit and idle limits, flows in both directions, and paths that fail in one or both directions for times around the limits; every session closing must have a cause computed from the decoded wire and the applications' flows, and be neither early nor late; non-trivial: data delivered and a session closed for a limit or a probe sent", {
	{"dying paths", dying, 5000, 200000},
	{"quiet", quiet, 3000, 120000},
	{"blocked", blocked, 3000, 120000},
}, { "a retransmission timeout is at most 10 s after the last transmission, and a timed-out session is noticed at a timeout", "ended flows linger up to 131 s before the idle limit counts", "virtual clock, simulated crypto" }});

} // namespace
