// P22: variable-length integers, counted fields and options against an independent decoder.
#include "pbt.hpp"
#include "guard.hpp"
#include "rtmfp/VLU.hpp"
using namespace com::zenomt::rtmfp;
using namespace pbt;

namespace {

Bytes refEncode(uintmax_t v)
{
	Bytes groups;
	do { groups.push_back(v % 128); v /= 128; } while(v);
	Bytes rv;
	for(size_t i = groups.size(); i-- > 0; ) rv.push_back(groups[i] | (i ? 0x80 : 0));
	return rv;
}

// reference parse of p[0..n): consumed count or 0
size_t refParse(const uint8_t *p, size_t n, bool saturate, uintmax_t *out)
{
	unsigned __int128 exact = 0; // clamped
	bool over = false;
	uintmax_t wrap = 0;
	for(size_t i = 0; i < n; i++)
	{
		exact = exact * 128 + (p[i] % 128);
		wrap = wrap * 128 + (p[i] % 128);
		if(exact > UINTMAX_MAX) { over = true; exact = (unsigned __int128)UINTMAX_MAX + 1; }
		if(p[i] < 128) { *out = (over && saturate) ? UINTMAX_MAX : wrap; return i + 1; }
	}
	return 0;
}

void roundTrip(Src &s)
{
	uintmax_t v = s.sized(UINT64_MAX);
	s.log("value %llu", (unsigned long long)v);
	Bytes ref = refEncode(v);
	uint8_t *exact = (uint8_t *)malloc(ref.size());
	size_t n = VLU::encode(v, exact);
	PBT_CHECK(n == ref.size(), "encode(%llu) length %zu, minimal is %zu", (unsigned long long)v, n, ref.size());
	PBT_CHECK(!memcmp(exact, ref.data(), n), "encode(%llu) = %s want %s", (unsigned long long)v, hex(exact, n).c_str(), hex(ref).c_str());
	free(exact);
	PBT_ASSERT(VLU::encode(v, nullptr) == n);
	PBT_ASSERT(n <= VLU::MAX_VLU_SIZE);
	Bytes pre = s.bytes(s.len(12)), dst = pre;
	VLU::append(v, dst);
	PBT_ASSERT(dst.size() == pre.size() + n && std::equal(pre.begin(), pre.end(), dst.begin()) && std::equal(ref.begin(), ref.end(), dst.begin() + pre.size()));
	Bytes tail = s.bytes(s.len(20));
	Guarded g(ref, tail);
	for(int sat = 0; sat < 2; sat++)
	{
		uintmax_t got = 7;
		PBT_ASSERT(VLU::parse(g.p, g.limit, &got, sat) == n);
		PBT_CHECK(got == v, "parsed %llu, wrote %llu", (unsigned long long)got, (unsigned long long)v);
	}
	PBT_ASSERT(VLU::parse(g.p, g.limit, nullptr) == n);
	{ uintmax_t got = 7; PBT_ASSERT(VLU::parse(g.p, g.limit, &got) == n && got == v); } // defaults
	{ uintmax_t got = 7; PBT_ASSERT(VLU::parse(g.p, nullptr, &got) == n && got == v); } // no limit
	for(size_t cut = 0; cut < n; cut++) { Guarded t(Bytes(ref.begin(), ref.begin() + cut)); uintmax_t got = 7; PBT_CHECK(VLU::parse(t.p, t.limit, &got) == 0, "truncated value accepted"); }
	if(n > 1) s.nontrivial();
	s.label(n >= 9 ? "encoded length 9-10" : n > 1 ? "encoded length 2-8" : "encoded length 1");
}

void arbitrary(Src &s)
{
	// biased to continuation bytes so that long and overlong encodings are common
	Bytes b;
	size_t n = s.len(30);
	unsigned cont = s.irange(0, 8);
	for(size_t i = 0; i < n; i++) b.push_back(uint8_t((s.below(8) < cont ? 0x80 : 0) | (s.below(3) ? s.below(128) : s.flip() ? 0 : 127)));
	s.log("bytes %s", hex(b).c_str());
	Guarded g(b);
	for(int sat = 0; sat < 2; sat++)
	{
		uintmax_t want = 0, got = 0;
		size_t rn = refParse(b.data(), b.size(), sat, &want);
		size_t gn = VLU::parse(g.p, g.limit, &got, sat);
		PBT_CHECK(gn == rn, "parse(%s) consumed %zu want %zu", hex(b).c_str(), gn, rn);
		if(rn) PBT_CHECK(got == want, "parse(%s, saturate=%d) = %llu want %llu", hex(b).c_str(), sat, (unsigned long long)got, (unsigned long long)want);
		if(rn > 1) s.nontrivial();
		if(sat) s.label(rn == 0 ? "truncated" : want == UINTMAX_MAX ? "saturated" : "parsed");
	}
	// counted field
	{
		uintmax_t L = 0;
		size_t rn = refParse(b.data(), b.size(), true, &L);
		bool ok = rn && L <= b.size() - rn;
		const uint8_t *pl = nullptr; size_t pln = 12345;
		size_t gn = VLU::parseField(g.p, g.limit, &pl, &pln);
		PBT_CHECK(gn == (ok ? rn + L : 0), "parseField(%s) = %zu want %zu", hex(b).c_str(), gn, ok ? size_t(rn + L) : size_t(0));
		if(ok) PBT_ASSERT(pl == g.p + rn && pln == L);
		PBT_ASSERT(VLU::parseField(g.p, g.limit, nullptr, nullptr) == gn);
		// option
		uintmax_t type = 99; const uint8_t *val = (const uint8_t *)1; size_t vln = 777;
		size_t on = Option::parse(g.p, g.limit, &type, &val, &vln);
		if(!ok) PBT_ASSERT(on == 0);
		else if(L == 0) { PBT_ASSERT(on == rn && val == nullptr && vln == 0); s.label("marker option"); }
		else
		{
			uintmax_t t = 0;
			size_t tn = refParse(b.data() + rn, L, true, &t);
			if(!tn) { PBT_CHECK(on == 0, "option with truncated type accepted"); s.label("option with truncated type"); }
			else { PBT_ASSERT(on == rn + L && type == t && val == g.p + rn + tn && vln == L - tn); s.label("option"); }
		}
		PBT_ASSERT(Option::parse(g.p, g.limit, nullptr, nullptr, nullptr) == on);
	}
}

void optionList(Src &s)
{
	struct O { int kind; uintmax_t type; Bytes val; };
	std::vector<O> opts;
	Bytes wire, ref;
	size_t n = s.len(12);
	for(size_t i = 0; i < n; i++)
	{
		O o; o.kind = s.irange(0, 4); o.type = s.sized(UINT64_MAX);
		switch(o.kind)
		{
		case 0: o.val = s.bytes(s.len(300)); Option::append(o.type, o.val, wire); break;
		case 1: o.val = s.bytes(s.len(300)); Option::append(o.type, o.val.data(), o.val.size(), wire); break;
		case 2: { uintmax_t v = s.sized(UINT64_MAX); o.val = refEncode(v); Option::append(o.type, v, wire); } break;
		case 3: Option::append(o.type, wire); break;
		case 4: Option::append(wire); break;
		}
		if(o.kind == 4) ref.push_back(0);
		else
		{
			Bytes t = refEncode(o.type), l = refEncode(t.size() + o.val.size());
			ref.insert(ref.end(), l.begin(), l.end()); ref.insert(ref.end(), t.begin(), t.end()); ref.insert(ref.end(), o.val.begin(), o.val.end());
		}
		opts.push_back(o);
		s.log("option kind %d type %llu len %zu", o.kind, (unsigned long long)o.type, o.val.size());
	}
	PBT_CHECK(wire == ref, "encoded option list differs from reference: %s want %s", hex(wire).c_str(), hex(ref).c_str());
	size_t cut = s.chance(1, 4) && wire.size() ? s.below(wire.size()) : wire.size();
	Guarded g(Bytes(wire.begin(), wire.begin() + cut));
	const uint8_t *c = g.p;
	size_t i = 0;
	while(c < g.limit)
	{
		uintmax_t type = 0; const uint8_t *val = nullptr; size_t vn = 0;
		size_t r = Option::parse(c, g.limit, &type, &val, &vn);
		if(!r) { PBT_CHECK(cut < wire.size(), "valid option %zu refused", i); break; }
		PBT_ASSERT(i < opts.size());
		if(opts[i].kind == 4) PBT_ASSERT(!val && vn == 0 && r == 1);
		else { PBT_CHECK(val && type == opts[i].type, "option %zu type differs", i); PBT_ASSERT(Bytes(val, val + vn) == opts[i].val); }
		c += r; i++;
	}
	PBT_ASSERT(size_t(c - g.p) <= cut);
	if(cut == wire.size()) PBT_ASSERT(i == opts.size() && c == g.limit);
	if(n >= 2) s.nontrivial();
}

pbt::Register r({"P22", "values biased to 7-bit and power-of-two boundaries, byte strings biased to continuation bytes, option lists of up to 12 mixed options; inputs are placed in exactly sized heap buffers so that any overread is a sanitizer report. Non-trivial: value or parse longer than one byte, or a list of two or more options.",
	{ {"round-trip", roundTrip, 150000, 4000000}, {"arbitrary-bytes", arbitrary, 150000, 6000000}, {"option-list", optionList, 30000, 1500000} }, {}});
}
