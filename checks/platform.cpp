// P42: the POSIX platform adapters over real UDP sockets.
#include "pbt.hpp"
#include "rtmfp/RunLoops.hpp"
#include "rtmfp/Performer.hpp"
#include "rtmfp/PerformerPosixPlatformAdapter.hpp"
#include "rtmfp/PlainCryptoAdapter.hpp"
#include <algorithm>
#include <arpa/inet.h>
#include <atomic>
#include <deque>
#include <dirent.h>
#include <fcntl.h>
#include <map>
#include <memory>
#include <netinet/in.h>
#include <set>
#include <signal.h>
#include <sys/socket.h>
#include <thread>
#include <unistd.h>
using namespace com::zenomt;
using namespace com::zenomt::rtmfp;
using pbt::Src;
using pbt::Register;
using Buf = std::vector<uint8_t>;

namespace {

void stuck(int) { PBT_FAIL("the run did not come to an end"); }
struct Watchdog { explicit Watchdog(unsigned secs) { signal(SIGALRM, stuck); alarm(secs); } ~Watchdog() { alarm(0); } };

std::shared_ptr<RunLoop> makeLoop(Src &s)
{
	if(s.flip()) { s.label("select"); return share_ref(new SelectRunLoop(), false); }
	s.label("epoll");
	return share_ref(new EPollRunLoop(), false);
}

int openFds()
{
	int n = 0;
	DIR *d = opendir("/proc/self/fd");
	if(!d) return -1;
	while(readdir(d)) n++;
	closedir(d);
	return n;
}

Address loopback(int family, unsigned port)
{
	Address a;
	a.setFamily(family);
	if(family == AF_INET) { uint8_t ip[4] = { 127, 0, 0, 1 }; a.setIPAddress(ip, 4); }
	else { uint8_t ip[16] = { 0 }; ip[15] = 1; a.setIPAddress(ip, 16); }
	a.setPort(port);
	return a;
}

bool haveV6()
{
	static int have = -1;
	if(have < 0)
	{
		int fd = socket(AF_INET6, SOCK_DGRAM, 0);
		Address a = loopback(AF_INET6, 0);
		have = fd >= 0 && !bind(fd, a.getSockaddr(), a.getSockaddrLen());
		if(fd >= 0) ::close(fd);
	}
	return have;
}

// a socket of the harness
struct Sock {
	int fd { -1 }, family;
	Address addr;
	explicit Sock(int fam) : family(fam)
	{
		fd = socket(fam, SOCK_DGRAM, 0);
		Address a = loopback(fam, 0);
		int on = 1;
		if(fam == AF_INET) setsockopt(fd, IPPROTO_IP, IP_RECVTOS, &on, sizeof on);
		else { setsockopt(fd, IPPROTO_IPV6, IPV6_RECVTCLASS, &on, sizeof on); setsockopt(fd, IPPROTO_IPV6, IPV6_V6ONLY, &on, sizeof on); }
		int z = 1 << 20;
		setsockopt(fd, SOL_SOCKET, SO_RCVBUF, &z, sizeof z);
		fcntl(fd, F_SETFL, fcntl(fd, F_GETFL) | O_NONBLOCK);
		Address::in_sockaddr b; socklen_t n = sizeof b;
		if(fd < 0 || bind(fd, a.getSockaddr(), a.getSockaddrLen()) || getsockname(fd, &b.s, &n)) { perror("a socket on the loopback"); _exit(2); }
		addr = Address(&b.s);
	}
	Sock(const Sock &) = delete;
	~Sock() { if(fd >= 0) ::close(fd); }
	bool recv(Buf &data, Address &from, int &tos)
	{
		Address::in_sockaddr a; uint8_t buf[9000];
		union { struct cmsghdr h; uint8_t b[256]; } c;
		struct iovec v { buf, sizeof buf };
		struct msghdr m; memset(&m, 0, sizeof m);
		m.msg_name = &a; m.msg_namelen = sizeof a; m.msg_iov = &v; m.msg_iovlen = 1; m.msg_control = c.b; m.msg_controllen = sizeof c.b;
		ssize_t n = recvmsg(fd, &m, 0);
		if(n < 0) return false;
		tos = 0;
		for(struct cmsghdr *h = CMSG_FIRSTHDR(&m); h; h = CMSG_NXTHDR(&m, h))
		{
			if(h->cmsg_level == IPPROTO_IP && h->cmsg_type == IP_TOS) tos = *(uint8_t *)CMSG_DATA(h);
			if(h->cmsg_level == IPPROTO_IPV6 && h->cmsg_type == IPV6_TCLASS) memcpy(&tos, CMSG_DATA(h), sizeof tos);
		}
		data.assign(buf, buf + n);
		from = Address(&a.s);
		return true;
	}
	bool send(const Buf &data, const Address &to, int tos)
	{
		union { struct cmsghdr h; uint8_t b[CMSG_SPACE(sizeof(int))]; } c;
		memset(&c, 0, sizeof c);
		struct iovec v { (void *)data.data(), data.size() };
		struct msghdr m; memset(&m, 0, sizeof m);
		m.msg_name = (void *)to.getSockaddr(); m.msg_namelen = to.getSockaddrLen(); m.msg_iov = &v; m.msg_iovlen = 1; m.msg_control = &c; m.msg_controllen = sizeof c.b;
		c.h.cmsg_len = CMSG_LEN(sizeof(int));
		c.h.cmsg_level = family == AF_INET ? IPPROTO_IP : IPPROTO_IPV6;
		c.h.cmsg_type = family == AF_INET ? IP_TOS : IPV6_TCLASS;
		memcpy(CMSG_DATA(&c.h), &tos, sizeof tos);
		return sendmsg(fd, &m, 0) == ssize_t(data.size());
	}
};

// the plain packet format
uint16_t cksum(const uint8_t *p, size_t n)
{
	uint32_t sum = 0;
	for(size_t i = 0; i + 1 < n; i += 2) sum += (p[i] << 8) + p[i + 1];
	if(n & 1) sum += p[n - 1]; // as the library does it
	while(sum >> 16) sum = (sum & 0xffff) + (sum >> 16);
	return ~sum & 0xffff;
}
uint32_t sessionOf(const Buf &p)
{
	uint8_t x[12] = { 0 };
	memcpy(x, p.data(), std::min<size_t>(p.size(), 12));
	for(int i = 0; i < 4; i++) x[i] ^= x[i + 4] ^ x[i + 8];
	uint32_t r; memcpy(&r, x, 4);
	return ntohl(r);
}
Buf startupPacket(uint8_t type, const Buf &body)
{
	Buf p { 0, 0, 0, 0, 3, type, uint8_t(body.size() >> 8), uint8_t(body.size()) };
	p.insert(p.end(), body.begin(), body.end());
	p.insert(p.end(), 16, 0xff);
	uint16_t c = cksum(p.data() + 4, p.size() - 4);
	p.push_back(c >> 8); p.push_back(c);
	for(int i = 0; i < 4; i++) p[i] = p[4 + i] ^ p[8 + i];
	return p;
}
struct Chunk { uint8_t type; Buf body; };
std::vector<Chunk> chunksOf(const Buf &p, size_t *headerAt = nullptr)
{
	std::vector<Chunk> r;
	if(p.size() < 4 + 1 + 2) return r;
	size_t i = 4, end = p.size() - 2;
	uint8_t flags = p[i++];
	if(flags & 0x08) i += 2;
	if(flags & 0x04) i += 2;
	while(i + 3 <= end)
	{
		size_t n = (p[i + 1] << 8) + p[i + 2];
		if(n > end - i - 3) break;
		r.push_back({ p[i], Buf(p.begin() + i + 3, p.begin() + i + 3 + n) });
		i += 3 + n;
	}
	return r;
}
Buf field(const Buf &b) { Buf r; if(b.size() > 127) r.push_back(0x80 | b.size() >> 7); r.push_back(b.size() & 127); r.insert(r.end(), b.begin(), b.end()); return r; }
Buf str(const std::string &s) { return Buf(s.begin(), s.end()); }

// --- one adapter, operation by operation, against a model of its interfaces
struct Box {
	Src &s;
	std::shared_ptr<RunLoop> loop;
	PlainCryptoAdapter crypto { "me" };
	std::shared_ptr<Performer> mainPerf, workPerf;
	std::shared_ptr<RunLoop> workLoop;
	std::thread workThread;
	std::shared_ptr<PosixPlatformAdapter> pa;
	std::shared_ptr<RTMFP> rtmfp;
	struct If { int id, family; Address bound, at; };
	std::vector<If> ifs;
	std::vector<std::unique_ptr<Sock>> socks;
	struct Hello { size_t sock; std::string epd; Buf tag; };
	std::map<int, std::deque<Hello>> incoming;          // per interface, in order
	struct Out { int ifc; Buf bytes; uint8_t chunk; int tos; }; // chunk: bytes are the body of this startup chunk
	std::map<size_t, std::deque<Out>> direct;           // per socket and in order
	std::map<size_t, std::vector<Out>> queued;          // startup packets, when the interface is writable
	std::deque<int> tasks; int nextTask { 1 };
	std::atomic<int> workTasks { 0 };
	struct W { unsigned left, calls, cycle, maxPerCycle; };
	std::map<int, W> writing;
	unsigned hidden { 0 };
	bool closed { false };
	int closeIn { 0 }; // 1: in the next hello, 2: in the next task, 3: in the next writable callback
	unsigned cycle { 0 }, done { 0 };
	int shutdowns { 0 }, wantShutdowns { 0 };
	size_t maxWrites;

	explicit Box(Src &s_) : s(s_)
	{
		loop = makeLoop(s);
		loop->onEveryCycle = [this] { cycle++; };
		if(s.chance(1, 3))
		{
			s.label("performer adapters");
			mainPerf = share_ref(new Performer(loop.get()), false);
			pa = std::make_shared<PerformerPosixPlatformAdapter>(loop.get(), mainPerf.get());
		}
		else pa = std::make_shared<PosixPlatformAdapter>(loop.get());
		maxWrites = pa->maxWritesPerInterfaceWritable;
		if(s.chance(1, 3)) pa->maxWritesPerInterfaceWritable = maxWrites = s.range(1, 6);
		pa->onShutdownCompleteCallback = [this] { shutdowns++; };
		rtmfp = share_ref(new RTMFP(pa.get(), &crypto), false);
		pa->setRtmfp(rtmfp.get());
		PBT_CHECK(pa->getRtmfp() == rtmfp.get() && pa->getRunLoop() == loop.get(), "the adapter answers another instance or run loop");
		rtmfp->onUnmatchedIHello = [this] (const void *epd, size_t epdLen, const void *tag, size_t tagLen, int ifc, const struct sockaddr *src) {
			PBT_CHECK(!closed, "a packet was received after close");
			auto &q = incoming[ifc];
			PBT_CHECK(!q.empty(), "a packet was received on interface %d which was not sent there", ifc);
			Hello h = q.front(); q.pop_front();
			Buf t((const uint8_t *)tag, (const uint8_t *)tag + tagLen), e((const uint8_t *)epd, (const uint8_t *)epd + epdLen);
			PBT_CHECK(e == str(h.epd) && t == h.tag, "the packet received on interface %d is not the next one that was sent there", ifc);
			PBT_CHECK(Address(src) == socks[h.sock]->addr, "a packet from %s was reported as from %s", socks[h.sock]->addr.toPresentation().c_str(), Address(src).toPresentation().c_str());
			done++;
			s.log("  hello received on interface %d", ifc);
			if(closeIn == 1) doClose("a received packet");
			else if(s.chance(1, 8)) step();
		};
	}
	void spin(Duration d) { loop->run(d); cycle++; } // a stopped cycle does not call onEveryCycle
	If *anIf() { return ifs.empty() ? nullptr : &ifs[s.below(ifs.size())]; }

	void doClose(const char *where)
	{
		closeIn = 0;
		s.log("  close, from %s", where);
		s.label("closes");
		int before = openFds();
		pa->close();
		int after = openFds();
		if(before >= 0) PBT_CHECK(!closed ? after == before - int(ifs.size() + hidden) : after == before, "close released %d descriptors, %zu interfaces were open", before - after, closed ? 0 : ifs.size() + hidden);
		closed = true;
	}
	void add()
	{
		int v6 = haveV6() && s.chance(1, 3);
		int fam = v6 ? AF_INET6 : AF_INET;
		unsigned how = s.below(6);
		int id = -77;
		std::shared_ptr<Address> got;
		bool fails = false, sure = true, hide = false;
		unsigned port = 0;
		int before = openFds();
		Address want = loopback(fam, 0);
		if(how == 5) { s.log("  add an interface of no family"); fails = true; got = s.flip() ? pa->addUdpInterface(0, s.pick<int>({ AF_UNIX, 77, AF_UNSPEC }), &id) : nullptr; struct sockaddr sa; memset(&sa, 0, sizeof sa); sa.sa_family = AF_UNIX; if(!got) got = pa->addUdpInterface(&sa, &id); }
		else
		{
			If *other = anIf();
			if(how == 4 && other)
			{
				port = other->bound.getPort();
				for(auto &i : ifs) if(i.bound.getPort() == port && i.family == fam) fails = true;
				sure = fails; // someone else may have the port
				if(s.flip()) { s.log("  add an interface on port %u again, family %d", port, fam); got = pa->addUdpInterface(port, fam, &id); }
				else { Address a; a.setFamily(fam); a.setPort(port); s.log("  add an interface at %s", a.toPresentation().c_str()); got = pa->addUdpInterface(a.getSockaddr(), &id); }
			}
			else if(s.flip()) { s.log("  add an interface of family %d", fam); got = pa->addUdpInterface(0, fam, &id); }
			else { s.log("  add an interface at %s", want.toPresentation().c_str()); hide = s.chance(1, 10); got = pa->addUdpInterface(want.getSockaddr(), hide ? nullptr : &id); }
		}
		int after = openFds();
		if(fails)
		{
			PBT_CHECK(!got, "an interface that cannot be added was added");
			PBT_CHECK(id == -77, "an interface that was not added has an identifier");
		}
		else if(!got)
		{
			// a port that nobody has must be given
			int fd = socket(fam, SOCK_DGRAM, 0), on = 1;
			if(fam == AF_INET6) setsockopt(fd, IPPROTO_IPV6, IPV6_V6ONLY, &on, sizeof on);
			Address a; a.setFamily(fam); a.setPort(port);
			bool can = !bind(fd, a.getSockaddr(), a.getSockaddrLen());
			::close(fd);
			PBT_CHECK(!can, "an interface of family %d could not be added at port %u, which is free", fam, port);
		}
		if(!fails && sure) PBT_CHECK(!!got, "an interface of family %d could not be added", fam);
		if(before >= 0) PBT_CHECK(after == before + (got ? 1 : 0), "adding an interface%s took %d descriptors", got ? "" : " failed and", after - before);
		if(!got) { s.label("interfaces not added"); return; }
		PBT_CHECK(got->getFamily() == fam && got->getPort() != 0 && (!port || got->getPort() == port), "the interface was bound to %s", got->toPresentation().c_str());
		if(hide) { hidden++; return; } // nobody knows its identifier
		for(auto &i : ifs) PBT_CHECK(i.id != id, "two interfaces have the identifier %d", id);
		PBT_CHECK(id >= 0, "the interface has the identifier %d", id);
		s.log("    interface %d at %s", id, got->toPresentation().c_str());
		ifs.push_back({ id, fam, *got, loopback(fam, got->getPort()) });
		s.label("interfaces");
	}
	size_t sockOf(int fam) // any of that family
	{
		std::vector<size_t> c;
		for(size_t i = 0; i < socks.size(); i++) if(socks[i]->family == fam) c.push_back(i);
		return c[s.below(c.size())];
	}
	void incomingPacket()
	{
		If *i = anIf();
		if(!i || closed) return; // somebody else may have the port by now
		size_t k = sockOf(i->family);
		if(s.chance(1, 5))
		{
			Buf junk = s.bytes(s.pick<size_t>({ 0, 1, 3, 4, 7, 20, 1400 }));
			if(junk.size() >= 4) junk[0] ^= 0x5a;
			if(junk.size() >= 12 && sessionOf(junk) == 0) junk[0] ^= 1;
			s.log("  %zu meaningless bytes to interface %d", junk.size(), i->id);
			socks[k]->send(junk, i->at, 0);
			s.label("meaningless packets");
			return;
		}
		std::string epd = "not me";
		epd.resize(s.pick<size_t>({ 6, 6, 1, 100 }), 'e');
		Buf tag = s.bytes(s.pick<size_t>({ 1, 16, 0, 127, 128, 900, 1300, 4000 }));
		Buf body = field(str(epd)); body.insert(body.end(), tag.begin(), tag.end());
		int tos = s.pick<int>({ 0, 0xb8, 3, 0xff });
		s.log("  a hello with a tag of %zu bytes from socket %zu to interface %d", tag.size(), k, i->id);
		// received by the adapter only if it is still open when the run loop gets there
		if(socks[k]->send(startupPacket(0x30, body), i->at, tos)) { if(!closed) incoming[i->id].push_back({ k, epd, tag }); }
		s.label("packets to the adapter");
	}
	void write()
	{
		If *i = anIf();
		bool unknown = !i || s.chance(1, 8);
		int id = unknown ? s.pick<int>({ 0, -1, 99, 1000000 }) : i->id;
		int fam = i && !s.chance(1, 6) ? i->family : haveV6() && s.flip() ? AF_INET6 : AF_INET;
		size_t k = sockOf(fam);
		Buf bytes = s.bytes(s.pick<size_t>({ 1, 4, 40, 500, 1200, 1472, 0, 8000 }));
		int tos = s.pick<int>({ 0, 0, 2, 3, 1, 0xb8, 0x20, 0x2a, 0xff });
		bool ok = pa->writePacket(bytes.data(), bytes.size(), id, socks[k]->addr.getSockaddr(), socks[k]->addr.getSockaddrLen(), tos);
		bool want = !unknown && !closed && i->family == fam;
		s.log("  write %zu bytes to socket %zu by interface %d, traffic class %d: %d", bytes.size(), k, id, tos, ok);
		if(want && !ok && (errno == EAGAIN || errno == ENOBUFS)) { s.label("full"); return; }
		PBT_CHECK(ok == want, "writing %zu bytes by interface %d%s to a family %d address answered %s", bytes.size(), id, unknown ? " (none)" : closed ? " (closed)" : "", fam, ok ? "true" : "false");
		if(ok) { direct[k].push_back({ id, bytes, 0, tos }); s.label("packets written"); }
		else s.label("writes refused");
	}
	void startup()
	{
		if(closed || ifs.empty()) return;
		If *i = anIf();
		bool all = !hidden && s.chance(1, 3);
		for(auto &w : writing) if(all || w.first == i->id) return; // would take the callback's place
		bool redirect = s.flip();
		int fam = s.chance(4, 5) ? i->family : haveV6() && s.flip() ? AF_INET6 : AF_INET;
		size_t k = sockOf(fam);
		Buf tag = s.bytes(s.pick<size_t>({ 1, 16, 100, 900 }));
		Buf body;
		if(redirect)
		{
			std::vector<Address> to;
			for(unsigned n = s.below(4); n; n--) to.push_back(loopback(AF_INET, 1 + s.below(65535)));
			body = field(tag);
			for(auto &a : to) { Buf e = a.encode(); body.insert(body.end(), e.begin(), e.end()); }
			rtmfp->sendResponderRedirect(tag.data(), tag.size(), to, all ? INTERFACE_ID_ALL : i->id, socks[k]->addr.getSockaddr());
		}
		else
		{
			body = field(str("them")); body.insert(body.end(), tag.begin(), tag.end());
			rtmfp->sendIHello("them", 4, tag.data(), tag.size(), all ? INTERFACE_ID_ALL : i->id, socks[k]->addr.getSockaddr());
		}
		s.log("  send a %s to socket %zu by %s %d", redirect ? "redirect" : "hello", k, all ? "all interfaces, not only" : "interface", i->id);
		for(auto &f : ifs) if(all || f.id == i->id) busy.insert(f.id);
		for(auto &f : ifs) if((all || f.id == i->id) && f.family == fam) queued[k].push_back({ f.id, body, uint8_t(redirect ? 0x71 : 0x30), 0 });
		s.label("startup packets");
	}
	void notify()
	{
		If *i = anIf();
		bool unknown = !i || s.chance(1, 8);
		int id = unknown ? s.pick<int>({ 0, -1, 99 }) : i->id;
		if(!unknown && busy.count(id)) return; // the instance wants to know about it
		bool want = !unknown && !closed;
		unsigned n = s.pick<unsigned>({ 0, 1, 3, 4, 5, 9 });
		if(want) writing[id] = { n, 0, 0, 0 };
		unsigned gen = nextGen++;
		if(want) gens[id] = gen;
		bool ok = pa->notifyWhenInterfaceWritable(id, [this, id, gen] () -> bool {
			PBT_CHECK(!closed, "an interface was reported writable after close");
			PBT_CHECK(gens[id] == gen, "a replaced action was called when the interface was writable");
			auto it = writing.find(id);
			PBT_CHECK(it != writing.end(), "an action that had answered false was called again when the interface was writable");
			W &w = it->second;
			if(w.cycle != cycle) w.cycle = cycle, w.calls = 0;
			w.calls++;
			PBT_CHECK(w.calls <= maxWrites, "%u calls in a row for a writable interface, the most is %zu", w.calls, maxWrites);
			done++;
			if(closeIn == 3) { doClose("an action for a writable interface"); return false; } // answering true would ask for more
			if(w.left) { w.left--; return true; }
			writing.erase(it);
			return false;
		});
		s.log("  say when interface %d is writable, %u more times: %d", id, n, ok);
		PBT_CHECK(ok == want, "asking to know when interface %d%s is writable answered %s", id, unknown ? " (none)" : closed ? " (closed)" : "", ok ? "true" : "false");
		s.label("writable actions");
	}
	unsigned nextGen { 1 };
	std::map<int, unsigned> gens;
	void task()
	{
		int id = nextTask++;
		unsigned long thread = s.below(3);
		s.log("  perform task %d on thread %lu", id, thread);
		if(!closed) tasks.push_back(id);
		bool ok = pa->perform(thread, [this, id] {
			PBT_CHECK(!closed, "task %d ran after close", id);
			PBT_CHECK(!tasks.empty() && tasks.front() == id, "task %d ran, expected %d", id, tasks.empty() ? 0 : tasks.front());
			tasks.pop_front();
			done++;
			if(closeIn == 2) doClose("a task");
			else if(s.chance(1, 6)) step();
		});
		if(!closed) PBT_CHECK(ok, "perform answered false");
		s.label("tasks");
	}
	void step()
	{
		switch(s.weighted({ 5, 5, 3, 2, 2, 2 }))
		{
		case 0: incomingPacket(); break;
		case 1: write(); break;
		case 2: startup(); break;
		case 3: notify(); break;
		case 4: task(); break;
		case 5: if(!closed && ifs.size() < 5) add(); break;
		}
	}
	bool pending() const
	{
		for(auto &q : direct) if(!q.second.empty()) return true;
		for(auto &q : queued) if(!q.second.empty() && !closed) return true;
		if(closed) return false;
		for(auto &q : incoming) if(!q.second.empty()) return true;
		return !tasks.empty() || !writing.empty();
	}
	const If *byId(int id) { for(auto &i : ifs) if(i.id == id) return &i; return nullptr; }
	void drain()
	{
		for(size_t k = 0; k < socks.size(); k++)
		{
			Buf b; Address from; int tos;
			while(socks[k]->recv(b, from, tos))
			{
				done++;
				bool hello = b.size() >= 12 && sessionOf(b) == 0;
				auto cs = hello ? chunksOf(b) : std::vector<Chunk>();
				if(hello && cs.size() == 1)
				{
					auto &q = queued[k];
					auto it = std::find_if(q.begin(), q.end(), [&] (const Out &o) { return cs[0].type == o.chunk && cs[0].body == o.bytes && byId(o.ifc)->at == from; });
					if(it != q.end())
					{
						PBT_CHECK(tos == it->tos, "a startup packet has traffic class %d", tos);
						PBT_CHECK(cksum(b.data() + 4, b.size() - 6) == ((b[b.size() - 2] << 8) | b[b.size() - 1]), "a startup packet was damaged");
						q.erase(it);
						continue;
					}
				}
				auto &q = direct[k];
				PBT_CHECK(!q.empty(), "socket %zu received %zu bytes from %s which were not sent to it", k, b.size(), from.toPresentation().c_str());
				Out o = q.front(); q.pop_front();
				PBT_CHECK(b == o.bytes, "socket %zu received %zu bytes which are not the %zu bytes written", k, b.size(), o.bytes.size());
				PBT_CHECK(from == byId(o.ifc)->at, "a packet written by interface %d came from %s", o.ifc, from.toPresentation().c_str());
				PBT_CHECK(tos == o.tos, "a packet written with traffic class 0x%x arrived with 0x%x", o.tos, tos);
			}
		}
	}
	std::set<int> busy; // startup packets to go, whether they can or not
	void settle()
	{
		spin(0); spin(0);
		for(unsigned n = 0; n < 4000 && pending(); n++) { spin(n < 20 ? 0 : 0.0005); drain(); }
		spin(0); spin(0);
		busy.clear();
		for(auto &q : direct) PBT_CHECK(q.second.empty(), "a packet written by interface %d was not sent", q.second.front().ifc);
		if(!closed)
		{
			for(auto &q : queued) PBT_CHECK(q.second.empty(), "a startup packet was not sent by interface %d", q.second.front().ifc);
			for(auto &q : incoming) PBT_CHECK(q.second.empty(), "a packet sent to interface %d was not received", q.first);
			PBT_CHECK(tasks.empty(), "task %d did not run", tasks.front());
			PBT_CHECK(writing.empty(), "the action for writable interface %d was not called enough", writing.begin()->first);
		}
	}
	void run()
	{
		for(int i = 0; i < 2; i++) socks.emplace_back(new Sock(AF_INET));
		if(haveV6()) for(int i = 0; i < 2; i++) socks.emplace_back(new Sock(AF_INET6));
		else s.label("no IPv6");
		add();
		int n = s.irange(3, 40);
		for(int i = 0; i < n; i++)
		{
			if(s.chance(1, 5)) { s.log("  run"); if(s.flip()) settle(); else { spin(0); drain(); } }
			else step();
			if(!closed && !closeIn && s.chance(1, 40)) closeIn = s.below(4), closeIn ? (void)0 : doClose("outside");
		}
		settle();
		if(!closed && s.flip())
		{
			s.log("  shut down");
			rtmfp->shutdown(s.flip());
			if(s.flip()) rtmfp->shutdown(s.flip());
			for(int i = 0; i < 400 && !shutdowns; i++) spin(0.0005);
			spin(0);
			PBT_CHECK(shutdowns == 1, "the end of the shutdown was reported %d times", shutdowns);
			s.label("shut downs");
		}
		int had = shutdowns;
		if(!closed) { step(); doClose("outside"); }
		for(int i = s.below(3); i > 0; i--) step();
		if(s.chance(1, 3)) doClose("outside, again");
		if(s.flip()) { rtmfp.reset(); s.log("  the instance is gone"); }
		for(int i = 0; i < 3; i++) spin(0);
		drain();
		for(auto &q : direct) PBT_CHECK(q.second.empty(), "a packet written by interface %d was not sent", q.second.front().ifc);
		PBT_CHECK(shutdowns == had, "a shutdown was reported after close");
		if(done >= 5) s.nontrivial();
		pa.reset();
		rtmfp.reset();
		for(int i = 0; i < 2; i++) spin(0);
		if(mainPerf) mainPerf->close();
		loop->clear();
	}
};

void adapter(Src &s)
{
	Watchdog dog(30);
	srand(unsigned(s.below(1u << 30)));
	int before = openFds();
	{ Box b(s); b.run(); }
	int after = openFds();
	if(before >= 0) PBT_CHECK(before == after, "%d descriptors were left open", after - before);
}

// --- the instance's timers: calls to addresses that come up after a delay, while others are repeated
void punctual(Src &s)
{
	Watchdog dog(60);
	srand(unsigned(s.below(1u << 30)));
	auto loop = makeLoop(s);
	PlainCryptoAdapter crypto("me");
	auto pa = std::make_shared<PosixPlatformAdapter>(loop.get());
	auto rtmfp = share_ref(new RTMFP(pa.get(), &crypto), false);
	pa->setRtmfp(rtmfp.get());
	int fam = haveV6() && s.flip() ? AF_INET6 : AF_INET;
	PBT_CHECK(!!pa->addUdpInterface(loopback(fam, 0).getSockaddr()), "no interface");
	struct Call { std::unique_ptr<Sock> sock; std::shared_ptr<SendFlow> flow; Time due; bool checked { false }, seen { false }; };
	std::vector<std::unique_ptr<Call>> calls;
	int n = s.irange(1, 10), left = n;
	double longest = 0;
	auto look = [&] (Call &c) {
		Buf b; Address from; int tos;
		while(c.sock->recv(b, from, tos))
		{
			auto cs = chunksOf(b);
			PBT_CHECK(cs.size() == 1 && cs[0].type == 0x30, "something other than a hello was sent");
			PBT_CHECK(loop->getCurrentTimeNoCache() >= c.due, "a hello to an address was sent %.4Lf s before its delay had passed", c.due - loop->getCurrentTimeNoCache());
			c.seen = true;
		}
	};
	std::function<void(Call *, int)> judge = [&] (Call *c, int cycles) {
		// the loop itself may be late on a busy machine, but then the instance's timer is due before this
		if(cycles) { loop->doLater([&judge, c, cycles] { judge(c, cycles - 1); }); return; }
		look(*c);
		PBT_CHECK(c->seen, "no hello was sent to an address %.2Lf s after its delay had passed", loop->getCurrentTimeNoCache() - c->due);
		c->checked = true;
		c->flow->close(); // while others go on
		left--;
	};
	auto start = [&] {
		calls.emplace_back(new Call);
		Call *c = calls.back().get();
		c->sock.reset(new Sock(fam));
		double d = s.pick<double>({ 0, 0.001, 0.02, 0.05, 0.1, 0.3, 0.35 });
		longest = std::max(longest, d);
		c->flow = rtmfp->openFlow(str("far" + std::to_string(calls.size())), str("flow"));
		c->flow->addCandidateAddress(c->sock->addr, d);
		c->due = rtmfp->getCurrentTime() + d;
		s.log("call %zu after %.3f s", calls.size(), d);
		loop->schedule(Timer::makeAction([&judge, c] { judge(c, 3); }), c->due + 0.25);
	};
	int early = s.irange(0, n);
	for(int i = 0; i < early; i++) start();
	Time t0 = loop->getCurrentTimeNoCache();
	for(int i = early; i < n; i++) loop->schedule(Timer::makeAction(start), t0 + s.below(200) * 0.001L);
	bool closeEarly = s.chance(1, 3);
	Time closeAt = t0 + s.below(100) * 0.001L;
	while(left && loop->getCurrentTimeNoCache() - t0 < 20)
	{
		loop->run(0.003);
		for(auto &c : calls) look(*c);
		if(closeEarly && loop->getCurrentTimeNoCache() >= closeAt) break;
	}
	PBT_CHECK(closeEarly || !left, "%d calls were not judged", left);
	s.label("calls", calls.size());
	s.nontrivial();
	loop->clear(); // the harness's timers
	if(closeEarly) s.label("closed with timers to come");
	pa->close();
	for(auto &c : calls) c->flow.reset();
	rtmfp.reset();
	loop->run(0.002);
	if(s.flip()) pa.reset();
	loop->run(0);
}

// the alarm of a closed adapter does not wake an instance that is gone
void alarms(Src &s)
{
	Watchdog dog(60);
	srand(unsigned(s.below(1u << 30)));
	auto loop = makeLoop(s);
	PlainCryptoAdapter crypto("me");
	bool performer = s.flip();
	Performer perf(loop.get());
	std::shared_ptr<PosixPlatformAdapter> pa;
	if(performer) pa = std::make_shared<PerformerPosixPlatformAdapter>(loop.get(), &perf);
	else pa = std::make_shared<PosixPlatformAdapter>(loop.get());
	auto rtmfp = share_ref(new RTMFP(pa.get(), &crypto), false);
	pa->setRtmfp(rtmfp.get());
	pa->addUdpInterface(loopback(AF_INET, 0).getSockaddr());
	Sock far(AF_INET);
	std::shared_ptr<SendFlow> f;
	for(int n = s.below(3); n >= 0; n--)
	{
		f = rtmfp->openFlow(str("far" + std::to_string(n)), str("flow"));
		f->addCandidateAddress(far.addr, s.pick<double>({ 0, 0.001, 0.003, 0.006 }));
		if(s.flip()) loop->run(0.001);
	}
	bool afterwards = s.flip();
	if(!afterwards) pa->close();
	else loop->scheduleRel(Timer::makeAction([&] { pa->close(); f.reset(); rtmfp.reset(); }), 0.001);
	if(!afterwards) { f.reset(); rtmfp.reset(); }
	loop->run(0.009);
	s.nontrivial();
	pa.reset();
	perf.close();
	loop->clear();
}

// --- whole endpoints, several pairs at once, with a relay between each pair
struct Link;
struct End {
	Link *link { nullptr };
	std::string name;
	std::unique_ptr<PlainCryptoAdapter> crypto;
	std::shared_ptr<PosixPlatformAdapter> pa;
	std::shared_ptr<RTMFP> rtmfp;
	Address at;
	int tc { 0 };
	std::shared_ptr<SendFlow> out;
	std::vector<std::shared_ptr<RecvFlow>> in;
	std::vector<Buf> toSend;
	size_t sent { 0 }, got { 0 };
	bool tcSeen { false };
	unsigned packets { 0 }, ce { 0 }; long reported { -1 };
	int shutdowns { 0 };
	bool closed { false };
};
struct Link {
	End a, b;
	std::unique_ptr<Sock> ra, rb; // facing a, facing b
	uint64_t seed { 0 }; unsigned loss { 0 }, dup { 0 }, swap { 0 }, mark { 0 };
	uint64_t count[2] { 0, 0 };
	struct Held { Buf data; int tos; }; std::vector<Held> held[2];
	unsigned dropped { 0 }, ceMarks { 0 }, dups { 0 }, swaps { 0 }, forwarded { 0 };
	bool cut { false };
};

struct Farm {
	Src &s;
	std::shared_ptr<RunLoop> loop, workLoop;
	std::shared_ptr<Performer> mainPerf, workPerf;
	std::thread workThread;
	std::vector<std::unique_ptr<Link>> links;
	bool ending { false };
	explicit Farm(Src &s_) : s(s_) {}

	void relay(Link &l, int dir) // 0: from a to b
	{
		Sock &in = dir ? *l.rb : *l.ra, &out = dir ? *l.ra : *l.rb;
		End &from = dir ? l.b : l.a, &to = dir ? l.a : l.b;
		Buf p; Address src; int tos;
		while(in.recv(p, src, tos))
		{
			PBT_CHECK(src == from.at, "a packet of %s came from %s, not from the interface it was received on, at %s", from.name.c_str(), src.toPresentation().c_str(), from.at.toPresentation().c_str());
			from.packets++;
			PBT_CHECK(p.size() >= 12 && p.size() <= 1300, "%s sent a packet of %zu bytes", from.name.c_str(), p.size());
			uint32_t sid = sessionOf(p);
			auto cs = chunksOf(p);
			bool data = false;
			for(auto &c : cs)
			{
				if(c.type == 0x10 || c.type == 0x11) data = true;
				if(c.type == 0xec && c.body.size() == 1) from.reported = c.body[0];
			}
			if(sid == 0) PBT_CHECK(tos == 0 || tos == from.tc, "%s sent a startup packet with traffic class 0x%x", from.name.c_str(), tos);
			else
			{
				PBT_CHECK((tos & 0xfc) == 0 || (tos & 0xfc) == from.tc, "%s sent with traffic class 0x%x, its session has 0x%x", from.name.c_str(), tos, from.tc);
				if((tos & 0xfc) == from.tc) from.tcSeen = true;
				else PBT_CHECK(!data || !from.tcSeen || from.tc == 0, "%s sent data with traffic class 0x%x, its session has 0x%x", from.name.c_str(), tos, from.tc);
				if(data) PBT_CHECK((tos & 3) == 2, "%s sent data with congestion bits %d although marks are reported", from.name.c_str(), tos & 3);
				else PBT_CHECK((tos & 3) == 0, "%s sent other than data with congestion bits %d", from.name.c_str(), tos & 3);
			}
			uint64_t n = l.count[dir]++;
			uint64_t h = pbt::mix64(l.seed ^ (n * 2 + dir + 1) * 0x9e3779b97f4a7c15ull);
			if(l.cut) continue;
			if(h % 100 < l.loss) { l.dropped++; flush(l, dir); continue; }
			int t = tos;
			if((tos & 3) == 2 && (h >> 8) % 100 < l.mark) { t |= 3; l.ceMarks++; to.ce++; }
			if((h >> 16) % 100 < l.swap && l.held[dir].empty()) { l.held[dir].push_back({ p, t }); l.swaps++; continue; }
			forward(l, dir, p, t);
			if((h >> 24) % 100 < l.dup) { l.dups++; if((t & 3) == 3) to.ce++; forward(l, dir, p, t); }
			flush(l, dir);
		}
	}
	void forward(Link &l, int dir, const Buf &p, int tos) { (dir ? l.ra : l.rb)->send(p, (dir ? l.a : l.b).at, tos); l.forwarded++; }
	void flush(Link &l, int dir)
	{
		for(auto &h : l.held[dir]) forward(l, dir, h.data, h.tos);
		l.held[dir].clear();
	}
	void setUp(End &e, Link &l, const std::string &name, int family)
	{
		e.link = &l; e.name = name;
		e.crypto.reset(new PlainCryptoAdapter(name.c_str()));
		if(mainPerf) e.pa = std::make_shared<PerformerPosixPlatformAdapter>(loop.get(), mainPerf.get(), workPerf.get());
		else e.pa = std::make_shared<PosixPlatformAdapter>(loop.get());
		e.rtmfp = share_ref(new RTMFP(e.pa.get(), e.crypto.get()), false);
		e.pa->setRtmfp(e.rtmfp.get());
		End *ep = &e;
		e.pa->onShutdownCompleteCallback = [ep] { ep->shutdowns++; };
		std::vector<int> fams { family };
		for(unsigned n = s.below(3); n; n--) fams.push_back(haveV6() && s.flip() ? AF_INET6 : AF_INET);
		size_t use = &e == &l.a ? 0 : s.below(fams.size());
		if(use) std::swap(fams[0], fams[use]);
		for(size_t i = 0; i < fams.size(); i++)
		{
			// a peer that has several interfaces of a family says hello on all of them: one of each family here
			if(&e == &l.a && i && fams[i] == family) continue;
			int id;
			auto a = s.flip() ? e.pa->addUdpInterface(0, fams[i], &id) : e.pa->addUdpInterface(loopback(fams[i], 0).getSockaddr(), &id);
			PBT_CHECK(!!a, "no interface");
			if(i == use) e.at = loopback(fams[i], a->getPort());
		}
		e.tc = s.pick<int>({ 0, 0x20, 0xb8, 0x28, 0xfc });
		size_t n = s.range(1, 12);
		for(size_t i = 0; i < n; i++) e.toSend.push_back(s.bytes(s.pick<size_t>({ 1, 30, 900, 1100, 1300, 5000, 20000, 0 })));
		s.label("messages", n);
	}
	void receive(End &e, End &far, const std::shared_ptr<RecvFlow> &f)
	{
		End *ep = &e, *fp = &far;
		e.in.push_back(f);
		PBT_CHECK(e.in.size() == 1, "%s was given a second flow", e.name.c_str());
		const Address &want = &e == &e.link->a ? e.link->ra->addr : e.link->rb->addr;
		PBT_CHECK(f->getFarAddress() == want, "%s says its peer is at %s, not %s", e.name.c_str(), f->getFarAddress().toPresentation().c_str(), want.toPresentation().c_str());
		f->onMessage = [ep, fp] (const uint8_t *p, size_t n, uintmax_t, size_t) {
			PBT_CHECK(!ep->closed, "a message was delivered after close");
			PBT_CHECK(ep->got < fp->toSend.size() && fp->toSend[ep->got] == Buf(p, p + n), "%s received %zu bytes which are not message %zu of %zu", ep->name.c_str(), n, ep->got, fp->toSend.size());
			ep->got++;
		};
		f->accept();
	}
	void sendMore(End &e)
	{
		// a message at a time as the flow is writable
		End *ep = &e;
		e.out->onWritable = [ep] () -> bool {
			if(ep->sent >= ep->toSend.size()) return false;
			ep->out->write(ep->toSend[ep->sent++]);
			return true;
		};
		e.out->onException = [this, ep] (uintmax_t r) { if(!ending) PBT_FAIL("%s had an exception %ju", ep->name.c_str(), r); };
		e.out->notifyWhenWritable();
	}
	void start(Link &l)
	{
		l.b.rtmfp->onRecvFlow = [this, &l] (std::shared_ptr<RecvFlow> f) {
			f->setSessionTrafficClass(l.b.tc);
			PBT_CHECK(f->getSessionTrafficClass() == l.b.tc, "the traffic class was not set");
			receive(l.b, l.a, f);
			l.b.out = f->openReturnFlow(str("back"));
			PBT_CHECK(!!l.b.out, "no return flow");
			sendMore(l.b);
		};
		l.a.out = l.a.rtmfp->openFlow(str(l.b.name), str("flow"));
		l.a.out->onRecvFlow = [this, &l] (std::shared_ptr<RecvFlow> f) { receive(l.a, l.b, f); };
		l.a.out->addCandidateAddress(l.ra->addr);
		End *ap = &l.a;
		bool first = true;
		sendMore(l.a);
		auto fn = l.a.out->onWritable;
		l.a.out->onWritable = [ap, fn, &l] () -> bool {
			if(!ap->sent)
			{
				ap->out->setSessionTrafficClass(ap->tc);
				PBT_CHECK(ap->out->getFarAddress() == l.ra->addr, "%s says its peer is at %s, not %s", ap->name.c_str(), ap->out->getFarAddress().toPresentation().c_str(), l.ra->addr.toPresentation().c_str());
			}
			return fn();
		};
	}
	bool doneSending() const
	{
		for(auto &l : links) if(l->a.got < l->b.toSend.size() || l->b.got < l->a.toSend.size()) return false;
		return true;
	}
	void turn(Duration d)
	{
		loop->run(d);
	}
	template<class F> double until(const F &cond, double limit)
	{
		Time begin = loop->getCurrentTimeNoCache();
		while(!cond() && loop->getCurrentTimeNoCache() - begin < limit) turn(0.004);
		return loop->getCurrentTimeNoCache() - begin;
	}
	void run()
	{
		loop = makeLoop(s);
		bool perf = s.chance(1, 3);
		if(perf)
		{
			s.label("performer adapters");
			mainPerf = share_ref(new Performer(loop.get()), false);
			workLoop = makeLoop(s);
			workPerf = share_ref(new Performer(workLoop.get()), false);
			auto wl = workLoop;
			workThread = std::thread([wl] { wl->run(); });
		}
		bool faults = s.chance(2, 3);
		int k = s.irange(1, 12);
		for(int i = 0; i < k; i++)
		{
			std::unique_ptr<Link> lp(new Link);
			Link &l = *lp;
			int fam = haveV6() && s.chance(1, 3) ? AF_INET6 : AF_INET;
			l.ra.reset(new Sock(fam)); l.rb.reset(new Sock(fam));
			l.seed = s.u64();
			if(faults) { l.loss = s.pick<unsigned>({ 0, 0, 2, 6 }); l.dup = s.pick<unsigned>({ 0, 5, 30 }); l.swap = s.pick<unsigned>({ 0, 10, 30 }); }
			l.mark = s.pick<unsigned>({ 0, 0, 5, 40 });
			setUp(l.a, l, "a" + std::to_string(i), fam);
			setUp(l.b, l, "b" + std::to_string(i), fam);
			// b is reached at an interface of the relay's family
			PBT_CHECK(l.a.at.getFamily() == fam && l.b.at.getFamily() == fam, "families");
			s.log("link %d: family %d, loss %u%%, duplicates %u%%, reordering %u%%, marks %u%%; %zu and %zu messages", i, fam, l.loss, l.dup, l.swap, l.mark, l.a.toSend.size(), l.b.toSend.size());
			loop->registerDescriptor(l.ra->fd, RunLoop::READABLE, Task([this, &l] { relay(l, 0); }));
			loop->registerDescriptor(l.rb->fd, RunLoop::READABLE, Task([this, &l] { relay(l, 1); }));
			links.push_back(std::move(lp));
		}
		auto flushing = loop->scheduleRel(Timer::makeAction([this] { for(auto &l : links) for(int d = 0; d < 2; d++) flush(*l, d); }), 0.02, 0.02);
		for(auto &l : links) start(*l);
		double took = until([this] { return doneSending(); }, 45);
		for(auto &l : links)
		{
			PBT_CHECK(l->b.got == l->a.toSend.size(), "%zu of %zu messages arrived from %s in %.1f s (%u packets dropped)", l->b.got, l->a.toSend.size(), l->a.name.c_str(), took, l->dropped);
			PBT_CHECK(l->a.got == l->b.toSend.size(), "%zu of %zu messages arrived from %s in %.1f s (%u packets dropped)", l->a.got, l->b.toSend.size(), l->b.name.c_str(), took, l->dropped);
			if(!l->loss && !l->swap && !l->dup) s.label("links without faults");
			s.label("packets", l->forwarded); s.label("packets dropped", l->dropped); s.label("packets duplicated", l->dups); s.label("packets held back", l->swaps); s.label("packets marked", l->ceMarks);
		}
		if(!faults) PBT_CHECK(took < 20, "without loss everything arrived only after %.1f s", took);
		// acknowledgements come within 0.2 s, so every mark has been reported. (Lost ones are repeated by retransmission.)
		until([] { return false; }, 0.3);
		until([this] { for(auto &l : links) if(l->a.out->getBufferedSize() + l->b.out->getBufferedSize()) return false; return true; }, 30);
		for(auto &l : links)
			for(End *e : { &l->a, &l->b })
			{
				if(e->ce) PBT_CHECK(e->reported == long(e->ce & 0xff), "%s received %u marked packets and reported %ld", e->name.c_str(), e->ce, e->reported);
				PBT_CHECK(e->tcSeen || e->tc == 0, "%s never sent with its session's traffic class", e->name.c_str());
				if(e->ce) s.label("ends that report marks");
			}
		// the end
		ending = true;
		// closes that cross, one of them lost or late, leave one end asking for 90 s
		for(auto &l : links) { l->loss = l->swap = 0; for(int d = 0; d < 2; d++) flush(*l, d); }
		size_t how = s.chance(1, 25) ? 0 : 1 + s.below(2); // an orderly one takes 20 s
		if(how < 2)
		{
			for(auto &l : links)
			{
				if(s.flip()) l->a.out->close();
				(s.flip() ? l->a : l->b).rtmfp->shutdown(how == 1);
			}
			until([] { return false; }, 0.01);
			for(auto &l : links) { l->a.rtmfp->shutdown(how == 1); l->b.rtmfp->shutdown(how == 1); }
			double t = until([this] { for(auto &l : links) if(!l->a.shutdowns || !l->b.shutdowns) return false; return true; }, how == 1 ? 20 : 60);
			for(auto &l : links) for(End *e : { &l->a, &l->b }) PBT_CHECK(e->shutdowns == 1, "the end of %s's %s shutdown was reported %d times in %.1f s", e->name.c_str(), how == 1 ? "immediate" : "orderly", e->shutdowns, t);
			s.label(how == 1 ? "immediate shutdowns" : "orderly shutdowns");
		}
		else s.label("closed without a shutdown");
		for(auto &l : links) { loop->unregisterDescriptor(l->ra->fd); loop->unregisterDescriptor(l->rb->fd); }
		flushing->cancel();
		if(workPerf) workPerf->perform(Task(), true);
		for(auto &l : links)
			for(End *e : { &l->a, &l->b })
			{
				unsigned n0 = e->packets;
				e->pa->close(); e->closed = true;
				if(how == 2 && s.flip()) { e->out->write(str("too late")); e->out->notifyWhenWritable(); }
			}
		turn(0.002);
		unsigned late = 0;
		for(auto &l : links) for(int d = 0; d < 2; d++) { Buf b; Address f; int t; while((d ? l->rb : l->ra)->recv(b, f, t)) late++; }
		turn(0.002);
		for(auto &l : links) for(int d = 0; d < 2; d++) { Buf b; Address f; int t; PBT_CHECK(!(d ? l->rb : l->ra)->recv(b, f, t), "a packet was sent after close"); }
		for(auto &l : links)
			for(End *e : { &l->a, &l->b })
			{
				e->out.reset(); e->in.clear();
				e->rtmfp.reset();
				e->pa.reset();
			}
		turn(0);
		s.label("links", links.size());
		s.label("performer links", perf ? links.size() : 0);
		s.nontrivial();
		if(workPerf)
		{
			workPerf->perform([this] { workLoop->stop(); });
			workThread.join();
			workPerf->close(); mainPerf->close();
			workLoop->clear();
		}
		loop->clear();
		links.clear();
	}
};

void endpoints(Src &s)
{
	Watchdog dog(170);
	srand(unsigned(s.below(1u << 30)));
	Farm f(s);
	f.run();
}

Register p42({ "P42", "histories of one adapter on a select or epoll loop: interfaces of both families added (also on a port in use or of no family), packets to and from sockets of the harness, startup packets on one interface or all, writable actions, tasks, closing from anywhere; calls to addresses with a delay, timed on the same loop; adapters closed with timers to come; and up to twelve pairs of endpoints over loopback UDP with a relay between each pair that drops, duplicates, holds back and marks packets. Non-trivial: at least five packets, tasks or actions; every pair",
	{ { "adapter", adapter, 20000, 600000, true }, { "punctual", punctual, 120, 6000, true, 60 }, { "alarms", alarms, 1500, 40000, true }, { "endpoints", endpoints, 80, 3000, true, 170 } },
	{ "packets written to a loopback socket whose buffer has room arrive, in order and at once", "the plain crypto adapter, so that the harness can read packets", "real time: a failure counts only if it repeats three times" } });

} // anonymous namespace
