#include "monitor.hpp"
#include <cmath>

namespace sim {

typedef unsigned long long ull;

void ISet::add(uint64_t a, uint64_t b)
{
	auto it = r.upper_bound(a);
	if(it != r.begin()) { auto q = std::prev(it); if(q->second >= a || q->second + 1 == a) { a = q->first; b = std::max(b, q->second); it = r.erase(q); } }
	while(it != r.end() && (it->first <= b || it->first == b + 1)) { b = std::max(b, it->second); it = r.erase(it); }
	r[a] = b;
}
bool ISet::has(uint64_t v) const { return hasAll(v, v); }
bool ISet::hasAll(uint64_t a, uint64_t b) const
{
	auto it = r.upper_bound(a);
	if(it == r.begin()) return false;
	--it;
	return it->second >= b;
}

Monitor::Monitor(World &w_, App &a, const std::set<std::string> &p) : w(w_), app(a), props(p)
{
	w.onSend.push_back([this] (Pkt &p) { sent(p); });
	w.onDeliver.push_back([this] (Pkt &p, Endpoint *e) { arriving(p, e); });
	w.onDelivered.push_back([this] (Pkt &p, Endpoint *e, bool ok) { arrived(p, e, ok); });
	app.onAnyFinished = [this] (SFlow &sf, Msg &m, bool abandoned) {
		if(!on("P03") || abandoned) return;
		WFlow *f = nullptr;
		auto it = sess.find(sf.key);
		if(it != sess.end()) for(auto &x : it->second->flows[sf.mode]) if(x.second->sf == &sf) f = x.second.get();
		if(!f && sf.assocOf) return; // sent without options, cannot be told apart
		PBT_CHECK(f, "message %d of flow %u reported delivered though nothing of the flow was sent", m.index, sf.uid);
		PBT_CHECK(f->gotData.hasAll(m.firstSN, m.lastSN), "message %d of flow %u (sn %llu-%llu) reported delivered but its peer did not receive all of it", m.index, sf.uid, (ull)m.firstSN, (ull)m.lastSN);
	};
	app.onAnyMerge = [this] (RFlow &r) {
		if(!on("P02")) return;
		auto fl = r.weak.lock();
		if(!fl) return;
		uint64_t cum = fl->getCumulativeAckSequenceNumber();
		auto it = sess.find(r.from->key);
		if(it == sess.end()) return;
		WFlow *f = nullptr;
		for(auto &x : it->second->flows[r.from->mode]) if(x.second->sf == r.from) f = x.second.get();
		if(!f) return;
		for(auto &m : r.from->msgs)
		{
			if(m.lastSN > cum) break;
			if(f->gotData.hasAll(m.firstSN, m.lastSN)) PBT_CHECK(m.delivered, "onCumulativeAckDidMerge on flow %u at %llu before message sn %llu was delivered", r.uid, (ull)cum, (ull)m.firstSN);
		}
	};
}

WSess *Monitor::session(const Pkt &p)
{
	if(!p.known || p.dec.mode() == 3 || p.dec.mode() == 0 || !p.key) return nullptr;
	auto &x = sess[p.key];
	if(!x) { x.reset(new WSess); x->key = p.key; }
	return x.get();
}
WFlow *Monitor::flow(WSess &s, int mode, uint64_t id)
{
	auto it = s.flows[mode].find(id);
	return it == s.flows[mode].end() ? nullptr : it->second.get();
}

size_t Monitor::flightLowerBound(WFlow &f)
{
	size_t n = 0;
	for(auto sn : f.flying) { Frag &x = f.frags[sn]; if(x.last > w.now - 0.2499L) n += x.len; }
	return n;
}

uint64_t Monitor::sessOutstanding(WSess &s, int mode, size_t *cwnd)
{
	uint64_t n = 0;
	*cwnd = 0;
	for(auto &x : s.flows[mode])
	{
		if(!x.second->sf) continue;
		auto fl = x.second->sf->weak.lock();
		if(!fl) continue;
		n += fl->getOutstandingBytes();
		if(fl->getCongestionWindow()) *cwnd = fl->getCongestionWindow();
	}
	return n;
}

// the flow has something never sent, and its receiver's window permits
bool Monitor::ready(WFlow &f)
{
	if(!f.sf || f.sf->exceptions) return false;
	auto fl = f.sf->weak.lock();
	if(!fl) return false;
	if(fl->getRecvBufferBytesAvailable() <= fl->getOutstandingBytes()) return false;
	for(size_t i = f.sf->msgs.size(); i-- > 0; )
	{
		auto &m = f.sf->msgs[i];
		if(m.lastSN <= f.maxFirst) break;
		auto rc = m.weak.lock();
		if(!m.finished && rc && !rc->isFinished() && rc->finishBy > w.now && rc->startBy > w.now) return true;
	}
	return false;
}

void Monitor::sent(Pkt &p)
{
	if(p.known)
	{
		if(on("P10"))
		{
			PBT_CHECK(p.dec.err.empty(), "%s sent a malformed packet: %s: %s", p.from->simCrypto.name.c_str(), p.dec.err.c_str(), pbt::hex(p.plain, 200).c_str());
			size_t size = p.plain.size() + p.margin;
			bool viaStartup = p.dec.mode() == 3;
			for(auto &c : p.dec.chunks) if(c.type != 0x10 && c.type != 0x11 && c.type != 0x51 && c.type != 0x5e && c.type != 0xec) viaStartup = viaStartup || c.type == 0x0f;
			if(p.dec.mode() == 3)
				PBT_CHECK(size <= 4256, "startup packet of %zu bytes", size);
			else
				PBT_CHECK(size <= 1200, "session packet of %zu bytes exceeds 1200", size);
			PBT_CHECK(p.plain.size() >= 1, "empty packet");
			if(p.dec.ts >= 0) { long want = long(uint64_t((w.now - p.from->epoch) * 250) & 0xffff); PBT_CHECK(p.dec.ts == want, "timestamp %ld sent at %.6f, should be %ld", p.dec.ts, double(w.now - 1000), want); }
		}
	}
	WSess *s = session(p);
	if(!s)
	{
		if(on("P16") && p.known && p.dec.mode() == 3) PBT_CHECK(p.tos == 0, "startup packet with traffic class %d", p.tos);
		return;
	}
	int mode = p.dec.mode();
	if(!s->ep[mode]) { s->ep[mode] = p.from; s->firstOpen[mode] = w.now; }
	PBT_CHECK(s->ep[mode] == p.from, "two endpoints use one session in the same role");
	if(on("P16"))
	{
		auto it = w.tos.find({ p.from->index, p.key });
		int want = it == w.tos.end() ? 0 : it->second & ~3;
		PBT_CHECK((p.tos & ~3) == want, "packet sent with traffic class %d, the session's is %d", p.tos, want);
		PBT_CHECK((p.tos & 3) == 0 || (p.tos & 3) == 2, "packet sent with ECN bits %d", p.tos & 3);
		PBT_CHECK((p.tos & 3) == 0 || p.dec.hasData(), "packet without data marked ECT");
	}
	if(p.dec.has(0x0c) || p.dec.has(0x4c)) s->closing = s->closing < 0 ? w.now : s->closing;
	bool data = false, ack = false;
	WFlow *df = nullptr;
	std::set<uint64_t> firsts;
	for(auto &c : p.dec.chunks)
	{
		if(c.isData())
		{
			data = true;
			auto &x = s->flows[mode][c.flowID];
			uint32_t uid = c.metadata.size() >= 4 ? c.metadata[2] * 256 + c.metadata[3] : 0;
			if(!x || (c.hasMeta && x->sf && x->sf->uid != uid)) // new, or the flow id was reused
			{
				if(x) { live.erase(x.get()); s->old.push_back(std::move(x)); }
				x.reset(new WFlow);
				live.insert(x.get());
				x->s = s; x->mode = mode; x->id = c.flowID; x->tx = p.from;
				if(c.hasMeta) { auto it = app.sflows.find(uid); if(it != app.sflows.end() && it->second->metadata == c.metadata) { x->sf = it->second.get(); x->sf->key = p.key; x->sf->mode = mode; } }
				bool orphan = false; // the options of a return flow are dropped once the flow it answers has ended
				for(auto &q : app.sflows) if(q.second->ep == p.from && q.second->assocOf && (q.second->assocOf->completes || q.second->assocOf->closed || q.second->assocOf->from->closed || q.second->assocOf->from->exceptions)) orphan = true;
				if(on("P10")) PBT_CHECK(x->sf || c.hasMeta || orphan, "first packet of flow %llu carries no metadata", (ull)c.flowID);
			}
			if(on("P10") && c.hasMeta && x->sf) PBT_CHECK(c.metadata == x->sf->metadata, "flow %u sent with other metadata than its opener gave", x->sf->uid);
			df = x.get();
			bool first = firsts.insert(c.flowID).second;
			if(c.type == 0x11) nextChunks++;
			sentData(p, *s, *x, c, first);
		}
		else if(c.isAck()) { ack = true; sentAck(p, *s, c); }
		else if(c.type == 0x18) probes++;
		else if(c.type == 0xec && on("P16") && !s->ecnUnknown)
		{
			PBT_CHECK(!c.body.empty() && c.body[0] == (s->ce[mode] & 0xff), "ECN report of %d congestion marks, %u were received", c.body.empty() ? -1 : c.body[0], s->ce[mode]);
		}
	}
	if(data)
	{
		dataPackets++;
		s->nextTSN[mode]++;
		if(on("P41"))
		{
			s->dataSent[mode]++;
			auto fl = df && df->sf ? df->sf->weak.lock() : nullptr;
			s->dLo[mode] = fl ? w.now + fl->getERTO() : w.now;
			s->dHi[mode] = fl ? w.now + fl->getERTO() : INFINITY;
			sentPaced(p, *s, mode);
			dueTimeout(*s, mode);
		}
		if(on("P10")) PBT_CHECK(firsts.size() >= 1, "data");
		if(on("P09"))
		{
			size_t cwnd, out = sessOutstanding(*s, mode, &cwnd);
			if(cwnd) PBT_CHECK(out <= cwnd + 1200, "%s has %zu bytes outstanding, its congestion window is %zu", p.from->simCrypto.name.c_str(), out, cwnd);
		}
		if(df && df->sf)
		{
			auto fl = df->sf->weak.lock();
			if(fl)
			{
				if(on("P09"))
				{
					size_t out = fl->getOutstandingBytes(), lb = flightLowerBound(*df);
					PBT_CHECK(out >= lb, "flow %u reports %zu bytes outstanding, at least %zu are in flight", df->sf->uid, out, lb);
					PBT_CHECK(fl->getRecvBufferBytesAvailable() == df->advert, "flow %u thinks its receiver advertised %zu bytes, the last advertisement was %llu", df->sf->uid, fl->getRecvBufferBytesAvailable(), (ull)df->advert);
					PBT_CHECK(out <= df->advert + 1200 && df->advert > 0, "flow %u has %zu bytes outstanding, its receiver advertised %llu", df->sf->uid, out, (ull)df->advert);
					PBT_CHECK(lb <= df->advert + 1200, "flow %u has %zu bytes in flight, its receiver advertised %llu", df->sf->uid, lb, (ull)df->advert);
				}
				int pri = fl->getPriority();
				if(on("P12"))
				{
					PBT_CHECK(bool(p.dec.flags & 0x80) == (pri > PRI_ROUTINE), "data of priority %d sent %s the time critical flag", pri, (p.dec.flags & 0x80) ? "with" : "without");
					PBT_CHECK(firsts.size() == 1, "data of several flows in one packet");
					for(auto &x : s->flows[mode])
					{
						WFlow &o = *x.second;
						if(&o == df || !o.sf) continue;
						auto ol = o.sf->weak.lock();
						if(!ol) continue;
						bool rdy = ready(o);
						if(rdy && ol->getPriority() > pri)
						{
							PBT_FAIL("data of flow %u with priority %d sent while flow %u with priority %d had data to send", df->sf->uid, pri, o.sf->uid, int(ol->getPriority()));
						}
						if(rdy && ol->getPriority() < pri) priContest++;
						if(rdy && ol->getPriority() == pri)
						{
							priContest++;
							PBT_CHECK(++o.passedOver <= 3 * s->flows[mode].size() + 3, "flow %u was passed over %u times in a row by flows of its own priority", o.sf->uid, o.passedOver);
						}
						else
							o.passedOver = 0;
					}
					df->passedOver = 0;
				}
			}
		}
	}
	else if(on("P12") && (p.dec.flags & 0x80)) PBT_FAIL("time critical flag on a packet without data");
	if(ack)
	{
		ackPackets++;
		s->dataSinceAck[mode] = 0;
		if(on("P16"))
			PBT_CHECK(!s->newEcn[mode] || s->ecnUnknown || p.dec.has(0xec), "ECN marks were received but the next acknowledgement does not report them");
		if(p.dec.has(0xec)) s->newEcn[mode] = false;
	}
}

void Monitor::sentData(Pkt &p, WSess &s, WFlow &f, Chunk &c, bool first)
{
	bool abn = c.flags & 2, fin = c.flags & 1;
	int fra = (c.flags >> 4) & 3; // 0 whole, 1 begin, 2 end, 3 middle
	Frag &x = f.frags[c.sn];
	if(x.txData + x.txAbn) retransmissions++;
	if(abn) abnSent++;
	SFlow *sf = f.sf;
	if(sf)
	{
		if(on("P10") && first && !f.gotAck && !sf->assocOf)
			PBT_CHECK(c.hasMeta && !c.hasAssoc, "flow %u is not acknowledged yet but data was sent without its metadata", sf->uid);
		if(on("P10") && first && !f.gotAck && sf->assocOf && !sf->assocOf->completes && !sf->assocOf->closed && !sf->assocOf->from->closed && !sf->assocOf->from->exceptions)
		{
			PBT_CHECK(c.hasMeta && c.hasAssoc, "return flow %u is not acknowledged yet but data was sent without its options", sf->uid);
			WFlow *a = flow(s, 3 - f.mode, c.assoc);
			PBT_CHECK(a && a->sf == sf->assocOf->from, "return flow %u is associated on the wire to flow id %llu, not that of flow %u", sf->uid, (ull)c.assoc, sf->assocOf->from->uid);
		}
		const Msg *m = sf->message(c.sn);
		if(on("P10"))
		{
			PBT_CHECK(c.fsn <= c.sn, "forward sequence number beyond the sequence number");
			if(!m) PBT_CHECK(c.sn == sf->nextSN && (sf->closed || sf->exceptions) && abn && fin && c.data.empty() && fra == 0, "flow %u: sequence number %llu was sent, messages end at %llu", sf->uid, (ull)c.sn, (ull)(sf->nextSN - 1));
			PBT_CHECK(!fin || sf->closed || sf->exceptions, "flow %u: final flag sent though the flow was not closed", sf->uid);
			PBT_CHECK(!fin || c.sn >= sf->nextSN - 1, "flow %u: final flag on sequence number %llu of %llu", sf->uid, (ull)c.sn, (ull)(sf->nextSN - 1));
			if(fin) f.finSent = true;
		}
		if(m)
		{
			auto rc = m->weak.lock();
			uint64_t n = m->lastSN - m->firstSN + 1, k = c.sn - m->firstSN;
			int wantFra = n == 1 ? 0 : k == 0 ? 1 : k == n - 1 ? 2 : 3;
			if(n > 1) multi++;
			if(on("P10"))
			{
				PBT_CHECK(fra == wantFra, "flow %u sn %llu: fragment %llu of %llu sent with fragment control %d", sf->uid, (ull)c.sn, (ull)k, (ull)n, fra);
				if(abn) PBT_CHECK(c.data.empty(), "abandoned fragment sent with data");
				else
				{
					size_t L = m->data.size(), off;
					if(k == n - 1) { PBT_CHECK(c.data.size() <= L, "fragment longer than its message"); off = L - c.data.size(); }
					else { PBT_CHECK(c.data.size() && (L + c.data.size() - 1) / c.data.size() == n, "flow %u sn %llu: fragment of %zu bytes in a message of %zu bytes and %llu fragments", sf->uid, (ull)c.sn, c.data.size(), L, (ull)n); off = k * c.data.size(); }
					PBT_CHECK(off + c.data.size() <= L && std::equal(c.data.begin(), c.data.end(), m->data.begin() + off), "flow %u sn %llu: fragment content differs from the message written", sf->uid, (ull)c.sn);
				}
			}
			if(on("P03"))
			{
				bool finished = m->finished, ab = rc ? rc->isAbandoned() : m->finAbandoned;
				if(ab) PBT_CHECK(abn && c.data.empty(), "flow %u: message %d is abandoned but its data was transmitted", sf->uid, m->index);
				else PBT_CHECK(!abn, "flow %u: message %d was declared abandoned on the wire but its receipt is not abandoned", sf->uid, m->index);
				if(!abn)
				{
					const Msg *up = m->parent >= 0 ? &sf->msgs[m->parent] : nullptr;
					PBT_CHECK(!up || !up->finished || !up->finAbandoned || up->finishedAt >= w.now, "flow %u: data of message %d transmitted after its parent, message %d, was abandoned", sf->uid, m->index, m->parent);
					if(rc) PBT_CHECK(w.now <= rc->finishBy, "flow %u: data of message %d transmitted after its finish deadline", sf->uid, m->index);
					bool startedBefore = false;
					for(uint64_t sn = m->firstSN; sn <= m->lastSN; sn++) { auto it = f.frags.find(sn); if(it != f.frags.end() && (it->second.txData + it->second.txAbn) && !(sn == c.sn && !x.txData && !x.txAbn)) startedBefore = true; }
					if(rc && !startedBefore) PBT_CHECK(w.now <= rc->startBy, "flow %u: message %d started after its start deadline", sf->uid, m->index);
					PBT_CHECK(!m->noRtx || x.txData == 0, "flow %u: fragment sn %llu of a message not to be retransmitted was retransmitted", sf->uid, (ull)c.sn);
					(void)finished;
				}
				if(rc) PBT_CHECK(rc->isStarted(), "flow %u: message %d was transmitted but is not reported started", sf->uid, m->index);
			}
		}
		if(on("P11") || on("P01") || on("P03"))
			for(uint64_t sn = f.fsnChecked + 1; sn <= c.fsn && sn < sf->nextSN; sn++)
			{
				const Msg *q = sf->message(sn);
				if(!q) continue;
				auto rc = q->weak.lock();
				bool ab = rc ? rc->isAbandoned() : q->finAbandoned;
				auto it = f.frags.find(sn);
				PBT_CHECK(ab || (it != f.frags.end() && it->second.acked), "flow %u: forward sequence number %llu skips %llu, which is neither acknowledged nor abandoned", sf->uid, (ull)c.fsn, (ull)sn);
			}
		f.fsnChecked = std::max(f.fsnChecked, c.fsn);
	}
	if(on("P12") || on("P01"))
		if(!(x.txData + x.txAbn)) PBT_CHECK(c.sn > f.maxFirst, "flow %u: sequence number %llu first transmitted after %llu", sf ? sf->uid : 0, (ull)c.sn, (ull)f.maxFirst);
	if(on("P09")) PBT_CHECK(!x.acked, "flow %u: sequence number %llu transmitted again though it was acknowledged", sf ? sf->uid : 0, (ull)c.sn);
	if(on("P19") && x.txData + x.txAbn && !x.acked && x.inFlight && sf)
	{
		PBT_CHECK(w.now - x.last >= 0.25L, "flow %u: sequence number %llu transmitted again after %g s though it was not negatively acknowledged three times", sf->uid, (ull)c.sn, double(w.now - x.last));
		auto fl = sf->weak.lock();
		if(fl && x.erto > 0 && s.heard[f.mode] < x.last && s.maxAcked[f.mode] < x.tsn)
		{
			backoffs++;
			PBT_CHECK(fl->getERTO() >= std::min<Duration>(10, x.erto * 1.41L) - 1e-9L, "flow %u: sequence number %llu transmitted again after a timeout but the effective timeout only went from %g to %g", sf->uid, (ull)c.sn, double(x.erto), double(fl->getERTO()));
		}
		if(delay >= 0) PBT_CHECK(w.now - x.last >= 2 * delay, "flow %u: sequence number %llu transmitted again after %g s, a round trip takes %g", sf->uid, (ull)c.sn, double(w.now - x.last), double(2 * delay));
	}
	if(on("P41")) transmitted(s, f, c, x);
	f.maxFirst = std::max(f.maxFirst, c.sn);
	if(abn) x.txAbn++; else x.txData++;
	x.len = c.data.size();
	x.inFlight = true;
	x.last = w.now;
	if(on("P19")) { auto fl = sf ? sf->weak.lock() : nullptr; x.erto = fl ? fl->getERTO() : -1; }
	x.tsn = s.nextTSN[f.mode];
	x.nak = 0;
	f.flying.insert(c.sn);
}

void Monitor::sentAck(Pkt &p, WSess &s, Chunk &c)
{
	int mode = p.dec.mode();
	WFlow *f = flow(s, 3 - mode, c.flowID);
	if(on("P11")) PBT_CHECK(f && f->any, "%s acknowledges flow %llu of which it received nothing", p.from->simCrypto.name.c_str(), (ull)c.flowID);
	if(!f) return;
	if(on("P11"))
	{
		uint32_t uid = f->sf ? f->sf->uid : 0;
		PBT_CHECK(c.cum <= f->got.firstEnd() || (!c.cum), "flow %u: acknowledged up to %llu, received only up to %llu", uid, (ull)c.cum, (ull)f->got.firstEnd());
		for(auto &r : c.ranges) PBT_CHECK(f->got.hasAll(r.from, r.to), "flow %u: acknowledged %llu-%llu, not all of which was received", uid, (ull)r.from, (ull)r.to);
		PBT_CHECK(!f->anyAckSent || c.cum >= f->cumSent, "flow %u: cumulative acknowledgement went back from %llu to %llu", uid, (ull)f->cumSent, (ull)c.cum);
		if(f->exact)
		{
			PBT_CHECK(c.cum == f->got.firstEnd(), "flow %u: acknowledged up to %llu, received up to %llu", uid, (ull)c.cum, (ull)f->got.firstEnd());
			size_t i = 0;
			auto it = f->got.r.begin(); ++it;
			for(; i < c.ranges.size(); i++, ++it)
			{
				PBT_CHECK(it != f->got.r.end() && it->first == c.ranges[i].from && it->second == c.ranges[i].to, "flow %u: range %zu acknowledged as %llu-%llu, received %llu-%llu", uid, i, (ull)c.ranges[i].from, (ull)c.ranges[i].to, it == f->got.r.end() ? 0ull : (ull)it->first, it == f->got.r.end() ? 0ull : (ull)it->second);
			}
			if(it != f->got.r.end())
				PBT_CHECK(p.plain.size() + p.margin + 20 >= 1200, "flow %u: only %zu of %zu received ranges were acknowledged in a packet of %zu bytes", uid, i, f->got.count() - 1, p.plain.size());
		}
	}
	f->anyAckSent = true;
	f->cumSent = std::max(f->cumSent, c.cum);
	f->lastAckSent = w.now;
	f->acksSent++;
	RFlow *r = f->sf ? f->sf->peer : nullptr;
	auto rl = r ? r->weak.lock() : nullptr;
	if(on("P09") && rl)
	{
		size_t cap = rl->getBufferCapacity(), have = rl->getBufferedSize(), lim = rl->getWindowLimit();
		size_t free_ = have >= cap ? 0 : std::min(cap - have, lim);
		size_t most = (free_ + 1023) / 1024;
		if(most == 0 && cap && lim && rl->getReceiveOrder() != RO_HOLD) most = 1;
		PBT_CHECK(c.blocks <= most, "flow %u: advertised %llu blocks with %zu of %zu bytes buffered and window limit %zu", r->uid, (ull)c.blocks, have, cap, lim);
		PBT_CHECK(c.blocks >= std::min<size_t>(free_ / 1024, 1ull << 40), "flow %u: advertised only %llu blocks with %zu of %zu bytes buffered and window limit %zu", r->uid, (ull)c.blocks, have, cap, lim);
		if(c.blocks == 0) blocked++;
		if(fifo && !r->capChanged)
		{
			size_t frags = 0;
			for(auto &g : f->gotData.r) frags += 0 * g.first;
			(void)frags;
		}
	}
}

void Monitor::dueAck(WSess &s, WFlow &f, Time by, const char *why)
{
	Time t = w.now;
	uint64_t acks = f.acksSent;
	WFlow *fp = &f; WSess *sp = &s;
	w.at(by + 1e-6L, [this, fp, sp, acks, why, t] {
		if(!live.count(fp)) return;
		if(sp->closing >= 0 || sp->moved) return;
		if(fp->acksSent > acks) return;
		if(!fp->rx || !fp->rx->alive) return;
		RFlow *r = fp->sf ? fp->sf->peer : nullptr;
		PBT_FAIL("flow %u: data received at %.6f (%s) was not acknowledged by %.6f", r ? r->uid : 0, double(t - 1000), why, double(w.now - 1000));
	});
}

size_t Monitor::congestionWindow(WSess &s, int mode)
{
	for(auto &x : s.flows[mode])
	{
		SFlow *sf = x.second->sf;
		auto fl = sf && !sf->closed && !sf->exceptions ? sf->weak.lock() : nullptr;
		if(fl && fl->getCongestionWindow()) return fl->getCongestionWindow();
	}
	return 0;
}

void Monitor::arriving(Pkt &p, Endpoint *e)
{
	expects.clear();
	WSess *s = session(p);
	if(!s) return;
	int mode = p.dec.mode();
	if(s->ep[mode] != p.from) return;
	int rmode = 3 - mode;
	if(s->ep[rmode] && s->ep[rmode] != e) return;
	s->heard[rmode] = w.now;
	if(on("P41")) { size_t cw; s->out0[rmode] = sessOutstanding(*s, rmode, &cw); s->cw0 = congestionWindow(*s, rmode); }
	if(on("P19") || on("P16"))
	{
		s->cw0 = congestionWindow(*s, rmode);
		size_t last = s->lastCw[rmode];
		if(on("P19") && last && s->cw0 && s->cw0 != last)
		{
			timeouts++;
			PBT_CHECK(s->cw0 == 3 * 1161 || s->cw0 == 2 * 1161, "congestion window went from %zu to %zu without a packet, which is neither its initial value nor that after a timeout", last, s->cw0);
		}
	}
	for(auto &c : p.dec.chunks)
		if(c.isData())
		{
			WFlow *f = flow(*s, mode, c.flowID);
			if(!f) continue;
			uint32_t uid = c.metadata.size() >= 4 ? c.metadata[2] * 256 + c.metadata[3] : 0;
			if(c.hasMeta && f->sf && f->sf->uid != uid) continue; // of an earlier flow with this id
			f->rx = e;
			Expect *x = nullptr;
			for(auto &q : expects) if(q.f == f) x = &q;
			RFlow *r = f->sf ? f->sf->peer : nullptr;
			if(!x)
			{
				expects.push_back({ f, 0, 0, r ? r->merges : 0, r && r->flow && r->open() && r->flow->getReceiveOrder() == RO_NETWORK, {} });
				x = &expects.back();
			}
			size_t pre = f->got.count(); uint64_t preC = f->got.firstEnd();
			if(!f->any) pre = 1;
			bool hadMsg = false, fresh = !f->got.has(c.sn);
			const Msg *m = f->sf ? f->sf->message(c.sn) : nullptr;
			if(m) hadMsg = f->gotData.hasAll(m->firstSN, m->lastSN);
			f->got.add(0, c.fsn);
			f->got.add(c.sn, c.sn);
			if(!(c.flags & 2) && fresh) f->gotData.add(c.sn, c.sn);
			f->any = true;
			f->fsn = std::max(f->fsn, c.fsn);
			if((c.flags & 1) && !f->finSeen) { f->finSeen = true; f->fin = c.sn; }
			if(f->got.count() > 1) gaps++;
			if(!fresh) x->atOnce = "a duplicate";
			if(c.flags & 2) x->atOnce = "an abandoned fragment";
			if(pre > 1) x->atOnce = "into a gap";
			bool complete = f->finSeen && f->got.count() == 1;
			if(f->got.count() < pre && f->got.firstEnd() > preC && !complete) x->wantMerges++;
			if(m && !hadMsg && f->gotData.hasAll(m->firstSN, m->lastSN)) x->completed.push_back(m->firstSN);
		}
}

void Monitor::arrived(Pkt &p, Endpoint *e, bool ok)
{
	WSess *s = session(p);
	if(!s) return;
	int mode = p.dec.mode(), rmode = 3 - mode;
	if(s->ep[mode] != p.from || (s->ep[rmode] && s->ep[rmode] != e)) return;
	if((p.tos & 3) && rmode == 1 && !s->ep[1]) s->ecnUnknown = true; // kept and replayed by an initiator that is still opening
	if(!ok) return;
	if(s->closing >= 0) expects.clear(); // what is received from now on may be ignored
	bool anyRF = false;
	// ECN
	for(auto &x : expects)
	{
		WFlow &f = *x.f;
		if(!live.count(x.f)) continue;
		RFlow *r = f.sf ? f.sf->peer : nullptr;
		if(!r) { f.exact = false; continue; }
		anyRF = true;
		auto rl = r->weak.lock();
		bool stable = r->orderAt < w.now && r->announcedAt < w.now;
		if(rl && r->open() && !f.finSeen) stable = stable && true;
		if(rl && r->open())
		{
			ReceiveOrder o = rl->getReceiveOrder();
			if(on("P02") && x.network && o == RO_NETWORK && stable)
			{
				for(auto sn : x.completed) { netDelivered++; const Msg *m = f.sf->message(sn); PBT_CHECK(m->delivered, "flow %u in network order: message sn %llu was completely received but not delivered", r->uid, (ull)sn); }
				mergesExpected += x.wantMerges;
				PBT_CHECK(r->merges >= x.mergesBefore + x.wantMerges, "flow %u in network order: a gap closed at %llu without onCumulativeAckDidMerge", r->uid, (ull)f.got.firstEnd());
			}
			if((on("P01") || on("P02")) && f.exact && stable && o != RO_HOLD)
			{
				uint64_t cum = f.got.firstEnd();
				for(auto it = f.sf->msgs.begin(); it != f.sf->msgs.end() && it->lastSN <= cum; ++it)
					if(!it->delivered && f.gotData.hasAll(it->firstSN, it->lastSN)) PBT_FAIL("flow %u: message sn %llu-%llu was received completely and nothing before it is missing, but it was not delivered", r->uid, (ull)it->firstSN, (ull)it->lastSN);
			}
		}
		if(on("P11") && e->serialize <= 0 && rl)
		{
			dueAck(*s, f, w.now + 0.2L, "delayed");
			if(f.exact && x.atOnce) { dueAck(*s, f, w.now, x.atOnce); hurried++; }
			if(f.exact && (f.got.count() > 1)) dueAck(*s, f, w.now, "with a gap");
			if(f.exact && f.finSeen && f.got.count() == 1) dueAck(*s, f, w.now, "at the end of the flow");
		}
	}
	if(p.dec.hasData() && anyRF && s->closing < 0)
	{
		s->dataSinceAck[rmode]++;
		if(on("P11") && e->serialize <= 0 && s->dataSinceAck[rmode] >= 2)
			for(auto &x : expects) if(live.count(x.f) && x.f->sf && x.f->sf->peer) dueAck(*s, *x.f, w.now, "second data packet");
	}
	if(p.tos & 3)
	{
		s->newEcn[rmode] = true;
		if((p.tos & 3) == 3) s->ce[rmode]++;
	}
	// acknowledgements
	if(on("P41")) lossAcks(p, e, *s, rmode);
	bool any = false;
	unsigned newly = 0;
	for(auto &c : p.dec.chunks)
		if(c.isAck())
		{
			WFlow *f = flow(*s, rmode, c.flowID);
			if(!f) continue;
			auto fl = f->sf ? f->sf->weak.lock() : nullptr;
			any = true;
			f->gotAck = true;
			f->advert = c.blocks > (UINT64_MAX >> 10) ? UINT64_MAX : c.blocks * 1024;
			auto take = [&](uint64_t a, uint64_t b) {
				for(auto it = f->frags.lower_bound(a); it != f->frags.end() && it->first <= b; ++it)
				{
					if(it->second.inFlight && it->second.tsn > s->maxAcked[rmode]) s->maxAcked[rmode] = it->second.tsn;
					if(!it->second.acked) newly++;
					it->second.acked = true; it->second.inFlight = false; f->flying.erase(it->first);
				}
			};
			take(0, c.cum);
			for(auto &r : c.ranges) take(r.from, r.to);
		}
	if(any)
		for(auto &x : s->flows[rmode])
		{
			WFlow &f = *x.second;
			for(auto it = f.flying.begin(); it != f.flying.end(); )
			{
				Frag &g = f.frags[*it];
				if(g.tsn <= s->maxAcked[rmode] && ++g.nak >= 3) { losses++; g.inFlight = false; it = f.flying.erase(it); }
				else ++it;
			}
		}
	expects.clear();
	if(on("P19") || on("P16"))
	{
		bool mark = false;
		for(auto &c : p.dec.chunks)
			if(c.type == 0xec && !c.body.empty())
			{
				uint8_t d = uint8_t(c.body[0] - s->ece[rmode]);
				if(d && d < 0xe0) { s->ece[rmode] = c.body[0]; mark = true; }
			}
		size_t cw1 = congestionWindow(*s, rmode), cw0 = s->cw0;
		if(mark) marks++;
		if(cw0 && cw1)
		{
			if(cw1 > cw0)
			{
				grows++;
				if(on("P19"))
				{
					PBT_CHECK(any, "congestion window grew from %zu to %zu on a packet without acknowledgements", cw0, cw1);
					PBT_CHECK(newly || cw1 <= 3 * 1161, "congestion window grew from %zu to %zu though nothing was acknowledged", cw0, cw1);
					PBT_CHECK(cw1 - cw0 <= 1161, "congestion window grew from %zu to %zu on one packet", cw0, cw1);
				}
			}
			bool cut = cw1 + 1 < cw0;
			uint64_t upTo = s->cutTSN[rmode];
			bool recovering = s->wasCut[rmode] && s->maxAcked[rmode] < upTo;
			if(on("P16") && steady && (!steadyFor || steadyFor == e))
			{
				if(cut)
				{
					cuts++;
					PBT_CHECK(mark, "congestion window cut from %zu to %zu though no new congestion mark was reported", cw0, cw1);
					PBT_CHECK(!recovering, "congestion window cut again, from %zu to %zu, within a round trip", cw0, cw1);
				}
				if(mark && any && !recovering && cw0 > 3 * 1161)
					PBT_CHECK(cw1 <= std::max<size_t>(3 * 1161, cw0 - cw0 / 8 + 1), "a new congestion mark was reported but the congestion window went from %zu to %zu", cw0, cw1);
			}
			if(cut || (mark && any && !recovering)) { s->wasCut[rmode] = true; s->cutTSN[rmode] = s->nextTSN[rmode] - 1; }
		}
		s->lastCw[rmode] = cw1;
	}
	if(on("P19") || on("P09"))
		for(auto &x : s->flows[rmode])
		{
			WFlow &f = *x.second;
			auto fl = f.sf ? f.sf->weak.lock() : nullptr;
			if(!fl) continue;
			if(on("P09"))
			{
				PBT_CHECK(f.sf->exceptions || f.sf->closed || fl->getOutstandingBytes() == 0 || fl->getBufferedSize() > 0, "flow %u has %zu bytes outstanding but nothing buffered", f.sf->uid, fl->getOutstandingBytes());
			}
			if(on("P19") && fl->getCongestionWindow())
			{
				PBT_CHECK(fl->getCongestionWindow() >= 2 * 1161, "congestion window fell to %zu", fl->getCongestionWindow());
				PBT_CHECK(fl->getERTO() >= 0.25L && fl->getERTO() >= fl->getMRTO(), "effective timeout %g below the minimum or the measured timeout %g", double(fl->getERTO()), double(fl->getMRTO()));
				if(fl->getSRTT() >= 0)
				{
					PBT_CHECK(fl->getLastRTT() >= 0 && fl->getRTTVariance() >= 0 && fl->getBaseRTT() >= 0, "negative round trip measurement");
					PBT_CHECK(fl->getBaseRTT() <= fl->getLastRTT(), "base round trip %g above the last sample %g", double(fl->getBaseRTT()), double(fl->getLastRTT()));
					if(delay >= 0)
					{
						samples++;
						Duration rtt = 2 * delay;
						PBT_CHECK(fl->getLastRTT() >= rtt - 0.0045L && fl->getLastRTT() <= rtt + 0.0085L, "round trip measured as %g, it is %g", double(fl->getLastRTT()), double(rtt));
						PBT_CHECK(fl->getSRTT() >= rtt - 0.0045L && fl->getSRTT() <= rtt + 0.0085L, "smoothed round trip %g, it is %g", double(fl->getSRTT()), double(rtt));
						PBT_CHECK(fl->getBaseRTT() >= rtt - 0.0045L, "base round trip %g, it is %g", double(fl->getBaseRTT()), double(rtt));
					}
					PBT_CHECK(fl->getMRTO() >= fl->getSRTT(), "measured timeout %g below the smoothed round trip %g", double(fl->getMRTO()), double(fl->getSRTT()));
				}
			}
			break;
		}
}

// every flow of the session this side sends is one the application can be asked about
bool Monitor::known(WSess &s, int mode)
{
	for(auto &x : s.flows[mode]) if(!x.second->sf) return false;
	return true;
}

void Monitor::timedOut(WSess &s, int mode, bool certain)
{
	bool any = false;
	for(auto &x : s.flows[mode])
		for(auto sn : x.second->flying)
		{
			Frag &g = x.second->frags[sn];
			if(!g.sure || g.last >= w.now) continue;
			g.sure = false;
			g.lost = certain;
			if(certain) x.second->missing.insert(sn);
			any = true;
		}
	if(any && certain) lossTimeouts++;
	s.recLo[mode] = 0;
	if(certain) s.recHi[mode] = 0;
}

// a fragment is about to be recorded as transmitted
void Monitor::transmitted(WSess &s, WFlow &f, Chunk &c, Frag &x)
{
	int mode = f.mode;
	uint32_t uid = f.sf ? f.sf->uid : 0;
	if(x.sure)
	{
		PBT_CHECK(w.now >= s.dLo[mode] - 1e-6L, "flow %u: sequence number %llu transmitted again though acknowledgements passed it %d times and no timeout is due for %g s", uid, (ull)c.sn, x.nakHi, double(s.dLo[mode] - w.now));
		timedOut(s, mode, true);
	}
	else if(w.now > s.dHi[mode] + 1e-6L) timedOut(s, mode, true);
	else if(w.now >= s.dLo[mode] - 1e-6L) timedOut(s, mode, false);
	if(x.lost) repairs++;
	auto it = f.missing.upper_bound(c.fsn);
	if(it != f.missing.end()) PBT_CHECK(*it >= c.sn, "flow %u: sequence number %llu transmitted before %llu, which was lost", uid, (ull)c.sn, (ull)*it);
	f.missing.erase(c.sn);
	x.sure = true;
	x.lost = false;
	x.lastAbn = c.flags & 2;
	x.nakLo = x.nakHi = 0;
}

// this side's acknowledgements in a packet were processed
void Monitor::lossAcks(Pkt &p, Endpoint *e, WSess &s, int mode)
{
	bool any = false, anySure = false, mark = false;
	for(auto &c : p.dec.chunks)
		if(c.type == 0xec && !c.body.empty()) { uint8_t d = uint8_t(c.body[0] - s.marksSeen[mode]); if(d) mark = true; if(d < 0xe0) s.marksSeen[mode] = c.body[0]; }
	for(auto &c : p.dec.chunks)
		if(c.isAck())
		{
			WFlow *f = flow(s, mode, c.flowID);
			if(!f) continue;
			any = true;
			if(f->sf && !f->sf->closed && !f->sf->exceptions && !f->sf->weak.expired()) anySure = true;
		}
	if(!any) return;
	if(w.now >= s.dLo[mode] - 1e-6L) timedOut(s, mode, w.now > s.dHi[mode] + 1e-6L);
	for(auto &c : p.dec.chunks)
		if(c.isAck())
		{
			WFlow *f = flow(s, mode, c.flowID);
			if(!f) continue;
			auto take = [&](uint64_t a, uint64_t b) {
				for(auto it = f->frags.lower_bound(a); it != f->frags.end() && it->first <= b; ++it)
				{
					Frag &g = it->second;
					if(!g.acked && g.txData + g.txAbn) s.maxHi[mode] = std::max(s.maxHi[mode], g.tsn);
					if(g.sure && !g.acked && anySure) s.maxLo[mode] = std::max(s.maxLo[mode], g.tsn);
					g.sure = g.lost = false;
					g.gone = true;
					f->missing.erase(it->first);
				}
			};
			take(0, c.cum);
			for(auto &r : c.ranges) take(r.from, r.to);
		}
	bool lossLo = false, lossHi = false, lossData = false;
	for(auto &x : s.flows[mode])
		for(auto sn : x.second->flying)
		{
			Frag &g = x.second->frags[sn];
			if(g.gone) continue;
			if(!g.sure) { if(g.tsn <= s.maxHi[mode]) { if(!g.lost) lossHi = lossData = true; } continue; }
			if(g.tsn <= s.maxHi[mode]) g.nakHi++;
			if(g.tsn <= s.maxLo[mode] && anySure) g.nakLo++;
			if(g.nakHi >= 3) { g.sure = false; lossHi = true; if(!g.lastAbn) lossData = true; }
			if(g.nakLo >= 3) { g.lost = true; x.second->missing.insert(sn); surelyLost++; if(!g.lastAbn) lossLo = true; }
		}
	// the timeout is put off
	SendFlow *fp = nullptr;
	for(auto &x : s.flows[mode]) if(x.second->sf && !x.second->sf->closed && !x.second->sf->exceptions && !fp) { auto fl = x.second->sf->weak.lock(); if(fl && fl->getCongestionWindow()) fp = fl.get(); }
	if(fp && anySure) s.dLo[mode] = s.dHi[mode] = w.now + fp->getERTO();
	else { s.dLo[mode] = std::min(s.dLo[mode], w.now); s.dHi[mode] = INFINITY; }
	dueTimeout(s, mode);
	// the congestion window
	size_t cw, out1 = sessOutstanding(s, mode, &cw), cw0 = s.cw0, cw1 = congestionWindow(s, mode);
	size_t d = s.out0[mode] > out1 ? s.out0[mode] - out1 : 0;
	if(!known(s, mode)) { s.recLo[mode] = 0; s.recHi[mode] = SIZE_MAX / 4; }
	else if(cw0 && cw1 && anySure && s.closing < 0)
	{
		bool in = s.recLo[mode] > d, out = s.recHi[mode] <= d, cut = cw1 + 1 < cw0;
		size_t more = d + (d + 1) / 2 + 2;
		if(cut) PBT_CHECK(lossHi || mark, "congestion window cut from %zu to %zu though no data was lost nor congestion reported", cw0, cw1);
		if(cut && out) PBT_CHECK(lossData || mark, "congestion window cut from %zu to %zu though only abandoned data was lost", cw0, cw1);
		if(cut && in) PBT_CHECK(cw0 - cw1 <= more, "congestion window cut from %zu to %zu within the round trip of an earlier cut, though at most %zu bytes were lost", cw0, cw1, d);
		if(out && lossLo)
		{
			if(cw0 > 3 * 1161) lossCuts++;
			PBT_CHECK(cw1 <= std::max<size_t>(3 * 1161, cw0 - cw0 / 8 + 2), "data was lost but the congestion window went from %zu to %zu", cw0, cw1);
		}
		if(out && !lossHi && !mark) s.recLo[mode] = s.recHi[mode] = 0;
		else if(out && lossLo) s.recLo[mode] = s.recHi[mode] = out1;
		else if(in) { s.recLo[mode] -= d; s.recHi[mode] -= d; if(lossHi) { s.recHi[mode] += more; if(cut) s.recLo[mode] += cw0 - cw1; } }
		else { s.recLo[mode] = 0; s.recHi[mode] = std::max(s.recHi[mode] > d ? s.recHi[mode] - d : 0, lossHi || mark ? out1 + more : 0); }
	}
	else { s.recLo[mode] = 0; s.recHi[mode] = std::max(s.recHi[mode], out1 + 2 * d); }
	// and what was lost, or waits, is sent
	s.burst[mode] = 0;
	if(e->serialize > 0 || s.closing >= 0 || s.moved || !anySure) return;
	uint64_t n = s.dataSent[mode];
	WSess *sp = &s;
	w.at(w.now + 1e-6L, [this, sp, mode, n] {
		if(sp->dataSent[mode] != n) return;
		conserved++;
		std::string why;
		PBT_CHECK(!maySend(*sp, mode, why), "%s though an acknowledgement just arrived", why.c_str());
	});
}

// something is waiting that both windows permit to send
bool Monitor::maySend(WSess &s, int mode, std::string &why)
{
	if(s.closing >= 0 || !known(s, mode)) return false;
	size_t cw, out = sessOutstanding(s, mode, &cw);
	if(!cw || out >= cw) return false;
	for(auto &x : s.flows[mode])
	{
		WFlow &f = *x.second;
		if(f.sf->exceptions || f.sf->closed) continue;
		auto fl = f.sf->weak.lock();
		if(!fl || fl->getRecvBufferBytesAvailable() <= fl->getOutstandingBytes()) continue;
		char t[200];
		auto lost = f.missing.upper_bound(f.fsnChecked);
		if(lost != f.missing.end()) { snprintf(t, sizeof t, "flow %u: sequence number %llu is lost and may be sent (%zu bytes of a congestion window of %zu in flight) but was not", f.sf->uid, (ull)*lost, out, cw); why = t; return true; }
		if(ready(f)) { snprintf(t, sizeof t, "flow %u has data to send and may (%zu bytes of a congestion window of %zu in flight) but nothing was sent", f.sf->uid, out, cw); why = t; return true; }
	}
	return false;
}

// if nothing happens until then the timeout comes and what is in flight is sent again
void Monitor::dueTimeout(WSess &s, int mode)
{
	Time t = s.dHi[mode];
	if(!(t < w.now + 1000) || (s.ep[mode] && s.ep[mode]->serialize > 0)) return;
	WSess *sp = &s;
	w.at(t + 3e-6L, [this, sp, mode, t] {
		std::string why;
		if(sp->dHi[mode] != t || sp->moved || sp->closing >= 0 || !known(*sp, mode)) return;
		timedOut(*sp, mode, true);
		if(maySend(*sp, mode, why)) PBT_FAIL("%s though the retransmission timeout has come", why.c_str());
	});
}

void Monitor::sentPaced(Pkt &p, WSess &s, int mode)
{
	if(p.from->serialize > 0 || s.closing >= 0 || s.moved) return;
	Duration srtt = -1;
	for(auto &x : s.flows[mode]) { auto fl = x.second->sf ? x.second->sf->weak.lock() : nullptr; if(fl && fl->getCongestionWindow()) { srtt = fl->getSRTT(); break; } }
	if(s.burstAt[mode] != w.now) { s.burst[mode] = 0; s.burstAt[mode] = w.now; }
	if(srtt >= 0.0045L) PBT_CHECK(s.burst[mode] < 6 * 1161, "%zu bytes of data were already sent at once, and more", s.burst[mode]);
	for(auto &c : p.dec.chunks) if(c.isData()) s.burst[mode] += c.data.size();
	if(s.burst[mode] >= 5 * 1000) bursts++;
	uint64_t n = s.dataSent[mode];
	WSess *sp = &s;
	w.at(w.now + 1e-6L, [this, sp, mode, n, srtt] {
		std::string why;
		if(sp->dataSent[mode] != n || !maySend(*sp, mode, why)) return;
		PBT_CHECK(srtt >= 0.0045L - 1e-9L, "%s", why.c_str());
		size_t cw = congestionWindow(*sp, mode);
		if(!cw) return;
		Duration pause = srtt * (1161 + 1200) / cw + 1e-5L;
		Time t = w.now;
		w.at(w.now + pause, [this, sp, mode, n, t] {
			std::string why;
			paced++;
			if(sp->dataSent[mode] == n && maySend(*sp, mode, why)) PBT_FAIL("%s for %g s", why.c_str(), double(w.now - t));
		});
	});
}

void Monitor::finish()
{
	for(auto &q : app.sflows)
	{
		SFlow &sf = *q.second;
		WFlow *f = nullptr;
		auto it = sess.find(sf.key);
		if(it != sess.end()) for(auto &x : it->second->flows[sf.mode]) if(x.second->sf == &sf) f = x.second.get();
		if(on("P03"))
			for(auto &m : sf.msgs)
			{
				auto rc = m.weak.lock();
				if(!rc) continue;
				bool sent = false;
				if(f) for(uint64_t sn = m.firstSN; sn <= m.lastSN; sn++) { auto g = f->frags.find(sn); if(g != f->frags.end() && g->second.txData + g->second.txAbn) sent = true; }
				if(!f && sf.assocOf) continue; // its options were dropped because the flow it answers had ended
				PBT_CHECK(rc->isStarted() == sent, "flow %u message %d: started is reported as %d, transmitted: %d", sf.uid, m.index, int(rc->isStarted()), int(sent));
			}
	}
}

void Monitor::labels()
{
	Src &s = w.src;
	s.label("data packets", dataPackets);
	s.label("retransmitted fragments", retransmissions);
	s.label("fragments of longer messages", multi);
	s.label("acknowledgement packets", ackPackets);
	if(on("P11")) s.label("acknowledgements due at once for duplicates, abandonment or a gap being filled", hurried);
	s.label("arrivals leaving a gap", gaps);
	s.label("next-data chunks", nextChunks);
	s.label("negatively acknowledged losses", losses);
	s.label("abandoned fragments sent", abnSent);
	s.label("zero windows advertised", blocked);
	s.label("buffer probes", probes);
	if(on("P16") || on("P19")) { s.label("congestion window cuts", cuts); s.label("congestion window growth", grows); s.label("new congestion marks reported", marks); s.label("congestion window changes without a packet", timeouts); s.label("round trip samples judged", samples); s.label("retransmission timeouts judged for backing off", backoffs); }
	if(on("P41")) { s.label("fragments surely lost", surelyLost); s.label("retransmission timeouts", lossTimeouts); s.label("congestion window cuts for loss", lossCuts); s.label("lost fragments sent again", repairs); s.label("acknowledgements leaving nothing sent", conserved); s.label("pauses between bursts judged", paced); s.label("packets in long bursts", bursts); }
	s.label("packets with competing flows", priContest);
	s.label("merges", mergesExpected);
	s.label("network order deliveries", netDelivered);
	if(dataPackets) s.label("sessions", sess.size());
}

} // namespace sim
