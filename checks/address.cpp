// P28: addresses against an independent reading of socket addresses, the wire encoding and presentation text.
#include "pbt.hpp"
#include "guard.hpp"
#include "rtmfp/Address.hpp"
#include <arpa/inet.h>
#include <netdb.h>
#include <algorithm>
using namespace com::zenomt::rtmfp;
using namespace pbt;

namespace {

struct Model { bool v6 = false, set = false; Bytes ip; unsigned port = 0; int origin = 0; };

Bytes genIp(Src &s, bool v6)
{
	Bytes ip(v6 ? 16 : 4);
	switch(s.below(v6 ? 5 : 3))
	{
	case 0: for(auto &x : ip) x = s.below(256); break;
	case 1: for(auto &x : ip) x = s.below(3) ? 0 : s.below(256); break;
	case 2: for(auto &x : ip) x = s.flip() ? 255 : 0; break;
	case 3: ip[10] = ip[11] = 255; for(int i = 12; i < 16; i++) ip[i] = s.below(256); break; // mapped IPv4
	default: ip[0] = 0x20; ip[1] = 1; ip[15] = s.below(256); ip[s.below(16)] = s.below(256); break;
	}
	return ip;
}

Model genModel(Src &s)
{
	Model m;
	m.set = true; m.v6 = s.flip(); m.ip = genIp(s, m.v6);
	m.port = s.flip() ? s.below(65536) : s.pick(std::vector<unsigned> { 0, 1, 255, 256, 1935, 65535 });
	m.origin = s.below(4);
	return m;
}

sockaddr_storage toSock(const Model &m)
{
	sockaddr_storage st; memset(&st, 0, sizeof(st));
	if(m.v6) { auto *p = (sockaddr_in6 *)&st; p->sin6_family = AF_INET6; p->sin6_port = htons(m.port); memcpy(&p->sin6_addr, m.ip.data(), 16); }
	else { auto *p = (sockaddr_in *)&st; p->sin_family = AF_INET; p->sin_port = htons(m.port); memcpy(&p->sin_addr, m.ip.data(), 4); }
	return st;
}

Address make(const Model &m) { sockaddr_storage st = toSock(m); return Address((sockaddr *)&st, Address::Origin(m.origin)); }

Bytes refEncode(const Model &m)
{
	Bytes b { uint8_t((m.v6 ? 0x80 : 0) + m.origin) };
	b.insert(b.end(), m.ip.begin(), m.ip.end());
	b.push_back(m.port / 256); b.push_back(m.port % 256);
	return b;
}

std::string show(const Model &m) { return hex(m.ip) + "/" + std::to_string(m.port) + " origin " + std::to_string(m.origin); }

void verify(const Address &a, const Model &m, const char *how)
{
	PBT_CHECK(a.getFamily() == (m.v6 ? AF_INET6 : AF_INET), "%s: family %d", how, a.getFamily());
	PBT_CHECK(a.getPort() == m.port, "%s: port %u want %u", how, a.getPort(), m.port);
	PBT_CHECK(a.getIPAddress() == m.ip && a.getIPAddressLength() == m.ip.size() && !memcmp(a.getIPAddressPtr(), m.ip.data(), m.ip.size()), "%s: address %s want %s", how, hex(a.getIPAddress()).c_str(), hex(m.ip).c_str());
	PBT_CHECK(a.getOrigin() == m.origin, "%s: origin %d want %d", how, a.getOrigin(), m.origin);
	sockaddr_storage st = toSock(m);
	size_t len = m.v6 ? sizeof(sockaddr_in6) : sizeof(sockaddr_in);
	PBT_CHECK(a.getSockaddrLen() == len && Address::getSockaddrLen((sockaddr *)&st) == len && !memcmp(a.getSockaddr(), &st, len), "%s: socket address", how);
	Bytes w = refEncode(m);
	PBT_CHECK(a.encode() == w && a.getEncodedLength() == w.size(), "%s: encoding %s want %s", how, hex(a.encode()).c_str(), hex(w).c_str());
	uint8_t *exact = (uint8_t *)malloc(w.size()); PBT_ASSERT(a.encode(exact) == w.size() && !memcmp(exact, w.data(), w.size())); free(exact);
}

// reference presentation of IPv4
std::string text(const Model &m, bool port)
{
	char buf[80]; inet_ntop(m.v6 ? AF_INET6 : AF_INET, m.ip.data(), buf, sizeof(buf));
	std::string t = buf;
	if(!m.v6) { t.clear(); for(int i = 0; i < 4; i++) t += (i ? "." : "") + std::to_string(m.ip[i]); }
	return port ? (m.v6 ? "[" + t + "]:" : t + ":") + std::to_string(m.port) : t;
}

Address stale(Src &s) { return s.flip() ? Address() : make(genModel(s)); } // whatever an address held before must not show

void roundTrip(Src &s)
{
	Model m = genModel(s);
	s.log("%s", show(m).c_str());
	Address a = make(m);
	verify(a, m, "from sockaddr");
	Address b = stale(s);
	PBT_ASSERT(b.setSockaddr(a.getSockaddr())); b.setOrigin(a.getOrigin()); verify(b, m, "set from sockaddr");
	Address c = stale(s); c = a; verify(c, m, "assigned"); Address d(a); verify(d, m, "copied");
	Bytes e = a.encode(), tail = s.bytes(s.below(8)), et = e; et.insert(et.end(), tail.begin(), tail.end());
	Guarded g(et);
	Address f = stale(s); PBT_ASSERT(f.setFromEncoding(g.p, g.limit) == e.size()); 
	Model stripped = m; verify(f, stripped, "decoded");
	PBT_ASSERT(a == b && a == c && a == f && !(a < f) && !(f < a));
	for(int port = 0; port < 2; port++)
	{
		std::string t = text(m, port);
		PBT_CHECK(a.toPresentation(port) == t, "presentation %s want %s", a.toPresentation(port).c_str(), t.c_str());
		char buf[Address::MAX_PRESENTATION_LENGTH]; a.toPresentation(buf, port); PBT_ASSERT(t == buf);
		Address h = stale(s);
		unsigned had = h.getPort();
		Guarded gt(Bytes(t.c_str(), t.c_str() + t.size() + 1));
		PBT_CHECK(h.setFromPresentation((const char *)gt.p, port), "%s refused", t.c_str());
		h.setOrigin(Address::Origin(m.origin));
		Model want = m; if(!port) want.port = had;
		verify(h, want, "from presentation");
		if(!port && m.v6) { std::string br = "[" + t + "]"; Address k; PBT_ASSERT(k.setFromPresentation(br.c_str(), false) && k.getIPAddress() == m.ip); }
	}
	Address z = stale(s); unsigned zp = z.getPort(); int zo = z.getOrigin();
	PBT_ASSERT(z.setIPAddress(m.ip.data(), m.ip.size())); Model zm = m; zm.port = zp; zm.origin = zo; verify(z, zm, "set ip");
	z.setPort(m.port); zm.port = m.port; verify(z, zm, "set port");
	PBT_ASSERT(!z.setIPAddress(m.ip.data(), s.pick(std::vector<size_t> { 0, 1, 2, 3 }))); verify(z, zm, "refused ip");
	if(m.v6) s.nontrivial();
}

void family(Src &s)
{
	Model m = genModel(s);
	s.log("%s", show(m).c_str());
	Address a = make(m);
	bool mapped = m.v6 && std::all_of(m.ip.begin(), m.ip.begin() + 10, [](uint8_t x) { return !x; }) && m.ip[10] == 255 && m.ip[11] == 255;
	PBT_ASSERT(a.canMapToFamily(AF_INET6));
	PBT_CHECK(a.canMapToFamily(AF_INET) == (!m.v6 || mapped), "canMapToFamily(AF_INET)");
	PBT_ASSERT(!a.canMapToFamily(AF_UNIX) && !a.setFamily(AF_UNIX) && !a.setFamily(AF_UNSPEC));
	verify(a, m, "after refused family");
	bool to6 = s.flip();
	PBT_ASSERT(a.setFamily(to6 ? AF_INET6 : AF_INET));
	Model w = m; w.v6 = to6;
	if(to6 && !m.v6) { w.ip = Bytes(16); w.ip[10] = w.ip[11] = 255; std::copy(m.ip.begin(), m.ip.end(), w.ip.begin() + 12); }
	if(!to6 && m.v6) w.ip = mapped ? Bytes(m.ip.begin() + 12, m.ip.end()) : Bytes(4);
	verify(a, w, "family changed");
	if(m.v6 != to6 && (mapped || to6)) { a.setFamily(m.v6 ? AF_INET6 : AF_INET); verify(a, m, "mapped there and back"); s.nontrivial(); }
	Address e; PBT_ASSERT(e.getFamily() != AF_INET && e.getFamily() != AF_INET6 && e.getPort() == 0 && e.getIPAddressLength() == 0 && e.getEncodedLength() == 0 && e.encode().empty() && e.getSockaddrLen() == 0 && e.toPresentation().empty());
	a.erase(); PBT_ASSERT(a == e);
	sockaddr_storage un; memset(&un, 0, sizeof(un)); un.ss_family = AF_UNIX;
	PBT_ASSERT(!e.setSockaddr((sockaddr *)&un) && !e.setSockaddr(nullptr) && e.getEncodedLength() == 0);
}

void ordering(Src &s)
{
	Model m[3];
	m[0] = genModel(s);
	for(int i = 1; i < 3; i++)
	{
		m[i] = s.chance(1, 3) ? genModel(s) : m[s.below(i)];
		if(s.chance(1, 3)) m[i].port = (m[i].port + s.pick(std::vector<unsigned> { 1, 255, 256, 65535 })) % 65536;
		if(s.chance(1, 3)) m[i].ip[s.below(m[i].ip.size())] ^= 1 << s.below(8);
		m[i].origin = s.below(4);
	}
	std::vector<Address> a; for(auto &x : m) { a.push_back(make(x)); s.log("%s", show(x).c_str()); }
	for(int i = 0; i < 3; i++) for(int j = 0; j < 3; j++)
	{
		// identity is address and port; where an address was learned does not matter
		bool same = m[i].ip == m[j].ip && m[i].port == m[j].port;
		PBT_CHECK((a[i] == a[j]) == same, "equality of %s and %s", show(m[i]).c_str(), show(m[j]).c_str());
		PBT_CHECK((a[i] < a[j]) + (a[j] < a[i]) == (same ? 0 : 1), "%s and %s are not ordered one way", show(m[i]).c_str(), show(m[j]).c_str());
		if(m[i].v6 == m[j].v6 && m[i].ip != m[j].ip) PBT_CHECK((a[i] < a[j]) == (m[i].ip < m[j].ip), "addresses out of order");
		for(int k = 0; k < 3; k++) if(a[i] < a[j] && a[j] < a[k]) PBT_CHECK(a[i] < a[k], "order not transitive");
		if(i < j && m[i].ip == m[j].ip && !same) s.nontrivial();
	}
	for(auto &x : m) { Address e; PBT_ASSERT(!(e == make(x)) && (e < make(x)) != (make(x) < e)); }
}

void arbitraryEncoding(Src &s)
{
	Bytes b = s.rawBytes(s.below(24));
	s.log("%s", hex(b).c_str());
	Guarded g(b);
	Model m;
	size_t need = b.empty() ? 1 : b[0] & 0x80 ? 19 : 7;
	Model before = genModel(s); Address a = make(before);
	size_t n = a.setFromEncoding(g.p, g.limit);
	PBT_CHECK(n == (b.size() >= need ? need : 0), "consumed %zu", n);
	if(n)
	{
		m.v6 = need == 19; m.ip = Bytes(b.begin() + 1, b.begin() + need - 2); m.port = b[need - 2] * 256 + b[need - 1]; m.origin = b[0] & 3;
		verify(a, m, "decoded");
		if(m.v6) s.nontrivial();
	}
	else verify(a, before, "after refused encoding");
	PBT_ASSERT(a.setFromEncoding(g.p + g.n, g.p) == 0);
}

void arbitraryText(Src &s)
{
	Model m = genModel(s);
	bool port = s.flip();
	std::string t = s.chance(1, 4) ? s.text(s.len(70), "0123456789abcdef.:[]% -gx") : text(m, port);
	std::string orig = t;
	int edits = s.below(4);
	for(int i = 0; i < edits; i++)
	{
		size_t at = s.below(t.size() + 1);
		switch(s.below(4)) { case 0: t.insert(at, s.text(1, "0123456789abcdef.:[]% -gx")); break; case 1: if(at < t.size()) t.erase(at, 1); break; case 2: t.insert(at, s.text(1 + s.below(60), "0123456789.:a")); break; default: t.resize(at); }
	}
	s.log("%s port=%d", quote(t).c_str(), port);
	Guarded g(Bytes(t.c_str(), t.c_str() + t.size() + 1));
	Model before = genModel(s); Address a = make(before);
	bool ok = a.setFromPresentation((const char *)g.p, port);
	if(!ok) { verify(a, before, "after refused text"); s.label("refused"); }
	else
	{
		s.label("accepted");
		// whatever was accepted begins with a well formed address equal to the result
		PBT_ASSERT(a.getFamily() == AF_INET || a.getFamily() == AF_INET6);
		size_t i = 0; while(i < t.size() && (t[i] == ' ')) i++;
		bool br = i < t.size() && t[i] == '['; if(br) i++;
		size_t e = i; if(br || port) while(e < t.size() && (isxdigit(uint8_t(t[e])) || t[e] == '.' || (t[e] == ':' && (br || !port)))) e++; else while(e < t.size() && t[e] != ' ') e++;
		std::string host = t.substr(i, e - i); uint8_t bin[16];
		PBT_CHECK(inet_pton(a.getFamily(), host.c_str(), bin) == 1 && !memcmp(bin, a.getIPAddressPtr(), a.getIPAddressLength()), "%s accepted as %s", quote(t).c_str(), a.toPresentation(port).c_str());
		if(port)
		{
			size_t k = e; if(br) { PBT_CHECK(k < t.size() && t[k] == ']', "%s accepted", quote(t).c_str()); k++; }
			PBT_CHECK(k < t.size() && t[k] == ':', "%s accepted without a port", quote(t).c_str());
			k++;
			long long v = strtoll(t.c_str() + k, nullptr, 10);
			PBT_CHECK(v >= 0 && v <= 65535, "%s accepted, its port is out of range", quote(t).c_str());
			PBT_CHECK(a.getPort() == v, "%s has port %u", quote(t).c_str(), a.getPort());
		}
		else PBT_CHECK(a.getPort() == before.port, "port changed");
		if(t != orig) s.nontrivial();
	}
	if(t == text(m, port)) PBT_CHECK(ok, "%s refused", t.c_str());
}

void lookup(Src &s)
{
	Model m = genModel(s);
	s.log("%s", show(m).c_str());
	int err = -1;
	auto v = Address::lookup(text(m, false).c_str(), std::to_string(m.port).c_str(), &err, AI_NUMERICHOST | AI_NUMERICSERV);
	PBT_ASSERT(err == 0);
	PBT_CHECK(v.size() == 1, "%zu addresses", v.size());
	m.origin = 0; verify(v[0], m, "looked up");
	v = Address::lookup("not numeric", "1", &err, AI_NUMERICHOST);
	PBT_ASSERT(v.empty() && err);
	s.nontrivial();
}

Register r({"P28", "IPv4 and IPv6 addresses (random, sparse, mapped) with all ports and origins, near-equal triples for the order, random and edited encodings and texts; non-trivial: IPv6, mapped addresses, same address with other port, edited text that is still accepted", {
	{"round-trip", roundTrip, 20000, 2000000},
	{"family", family, 20000, 2000000},
	{"ordering", ordering, 20000, 2000000},
	{"encoding", arbitraryEncoding, 30000, 3000000},
	{"text", arbitraryText, 30000, 3000000},
	{"lookup", lookup, 2000, 100000},
}, { "text following a complete [address]:port or address is ignored by the parser and not judged", "name lookup is exercised with numeric hosts only" }});

} // namespace
