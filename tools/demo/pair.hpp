// Two (or more) endpoints on a perfect virtual network, for demonstrations.
#pragma once
#include "rtmfp/rtmfp.hpp"
#include "rtmfp/PlainCryptoAdapter.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <string>
#include <vector>
using namespace com::zenomt;
using namespace com::zenomt::rtmfp;

#define EXPECT(c, ...) do { if(!(c)) { printf("FAILED: "); printf(__VA_ARGS__); printf("\n"); exit(1); } } while(0)

// like PlainCryptoAdapter, with a group every member of which "group:<name>" selects
struct DemoCert : CryptoCert {
	std::string name, group;
	DemoCert(const std::string &n, const std::string &g) : name(n), group(g) {}
	static bool selected(const std::string &name, const std::string &group, const uint8_t *e, size_t n) { std::string x((const char *)e, n); return x == name || (group.size() && x == "group:" + group); }
	void isAuthentic(const Task &t) override { t(); }
	bool isSelectedByEPD(const uint8_t *e, size_t n) override { return selected(name, group, e, n); }
	Bytes getCanonicalEPD() override { return Bytes(name.begin(), name.end()); }
	void checkSignature(const uint8_t *, size_t, const uint8_t *, size_t, const Task &t) override { t(); }
	bool doesCertOverrideSession(std::shared_ptr<CryptoCert> o) override { return name == static_cast<DemoCert *>(o.get())->name; }
	Bytes encode() override { std::string x = name + "/" + group; return Bytes(x.begin(), x.end()); }
};
struct DemoCrypto : PlainCryptoAdapter {
	DemoCert me;
	DemoCrypto(const char *id, const char *group) : PlainCryptoAdapter(id), me(id, group) {}
	Bytes getNearEncodedCertForEPD(const uint8_t *, size_t) override { return me.encode(); }
	bool isSelectedByEPD(const uint8_t *e, size_t n) override { return me.isSelectedByEPD(e, n); }
	bool checkNearWinsGlare(std::shared_ptr<CryptoCert> f) override { return me.name > static_cast<DemoCert *>(f.get())->name; }
	std::shared_ptr<CryptoCert> decodeCertificate(const uint8_t *b, size_t n) override
	{
		std::string x((const char *)b, n);
		size_t p = x.find('/');
		if(p == std::string::npos) return nullptr;
		return share_ref(new DemoCert(x.substr(0, p), x.substr(p + 1)), false);
	}
};

struct Peer;
struct Packet { Peer *from; Address src, dst; Bytes bytes; int tos; };
struct Net {
	Time now { 1000 };
	double delay { 0.02 };
	std::multimap<Time, std::function<void()> > events;
	std::vector<Peer *> peers;
	std::function<bool(Packet &)> filter;        // false drops the packet
	std::function<double(Packet &)> extraDelay;
	void at(Time t, std::function<void()> f) { events.insert({ t, f }); }
	void send(Packet p);
	void run(double seconds);
};

struct Peer : IPlatformAdapter {
	Net &net;
	std::string name;
	Address addr;
	DemoCrypto crypto;
	double threadDelay { 0 };
	std::shared_ptr<RTMFP> rtmfp;
	std::deque<Task> tasks;
	std::vector<std::function<bool(void)> > writers;
	int shutdowns { 0 };
	Peer(Net &n, const char *id, const char *group = "") : net(n), name(id), crypto(id, group)
	{
		char t[64]; snprintf(t, sizeof t, "10.0.0.%d", int(n.peers.size()) + 1);
		addr.setFromPresentation(t, false); addr.setPort(1935);
		rtmfp = share_ref(new RTMFP(this, &crypto), false);
		rtmfp->addInterface(1);
		n.peers.push_back(this);
	}
	Time getCurrentTime() override { return net.now; }
	bool notifyWhenInterfaceWritable(int, const std::function<bool(void)> &w) override { writers.push_back(w); return true; }
	bool writePacket(const void *b, size_t len, int, const struct sockaddr *a, socklen_t, int tos) override
	{
		Packet p { this, addr, Address(a), Bytes((const uint8_t *)b, (const uint8_t *)b + len), tos };
		net.send(p);
		return true;
	}
	bool perform(unsigned long thread, const Task &t) override
	{
		if(thread && threadDelay > 0) net.at(net.now + threadDelay, [this, t] { if(rtmfp) tasks.push_back(t); });
		else tasks.push_back(t);
		return true;
	}
	void onShutdownComplete() override { shutdowns++; }
	bool pump()
	{
		bool any = false;
		if(!rtmfp) return false;
		while(tasks.size()) { auto t = tasks.front(); tasks.pop_front(); t(); any = true; }
		if(rtmfp->howLongToSleep() <= 0) { rtmfp->doTimerWork(); any = true; }
		auto w = writers; writers.clear();
		for(auto &f : w) { any = true; if(f()) writers.push_back(f); }
		return any;
	}
};

inline void Net::send(Packet p)
{
	if(filter && !filter(p)) return;
	double d = delay + (extraDelay ? extraDelay(p) : 0);
	at(now + d, [this, p] {
		for(auto *q : peers) if(q->addr == p.dst && q->rtmfp) q->rtmfp->onReceivePacket(p.bytes.data(), p.bytes.size(), 1, p.src.getSockaddr(), p.tos);
	});
}
inline void Net::run(double seconds)
{
	Time end = now + seconds;
	for(long steps = 0; ; steps++)
	{
		EXPECT(steps < 20000000, "the simulation does not come to rest");
		bool any = false;
		for(auto *p : peers) any = p->pump() || any;
		if(any) continue;
		Time next = end;
		if(events.size() && events.begin()->first < next) next = events.begin()->first;
		for(auto *p : peers) if(p->rtmfp) { Time t = now + p->rtmfp->howLongToSleep(); if(t < next) next = t; }
		if(next > now) now = next;
		while(events.size() && events.begin()->first <= now) { auto f = events.begin()->second; events.erase(events.begin()); f(); any = true; }
		for(auto *p : peers) any = p->pump() || any;
		if(now >= end && !any) break;
	}
}
inline std::shared_ptr<SendFlow> openTo(Peer &a, Peer &b, const char *meta = "flow", Priority pri = PRI_ROUTINE)
{
	auto f = a.rtmfp->openFlow(b.name.data(), b.name.size(), meta, strlen(meta), pri);
	f->addCandidateAddress(b.addr);
	return f;
}
