// P24: media flow metadata and message headers against an independent reading of the format.
#include "pbt.hpp"
#include "guard.hpp"
#include "ref.hpp"
#include "rtmfp/Media.hpp"
#include <cmath>
using namespace com::zenomt;
using namespace com::zenomt::rtmfp;
using namespace pbt;

namespace {

const std::string SIG = std::string("http://zenomt.com/ns/rtmfp#media") + '\0';

struct Ref {
	uint64_t sid = 0, tid = 0, ticks = 1000, per = 1;
	std::string codec, type, name;
	bool network = false, hasReorder = false;
	uint64_t reorderTicks = 0;
	long double origin = 0;
};

// reference reading of flow metadata
bool refRead(const Bytes &m, Ref &r)
{
	if(m.size() < SIG.size() || memcmp(m.data(), SIG.data(), SIG.size())) return false;
	size_t at = SIG.size();
	bool sid = false, codec = false;
	while(at < m.size())
	{
		ref::Opt o;
		size_t n = ref::getOpt(m.data() + at, m.size() - at, &o);
		if(!n) return false;
		at += n;
		if(o.marker) continue;
		const Bytes &v = o.value;
		std::string str(v.begin(), v.end());
		switch(o.type)
		{
		case 0x1d: if(!ref::getVLU(v.data(), v.size(), &r.sid)) return false; sid = true; break;
		case 0x4c: r.codec = str; codec = true; break;
		case 0x44: r.type = str; break;
		case 0x00:
			{
				if(v.size() < 16 || v[0] >= 0x80) return false;
				uint64_t s = 0, f = 0;
				for(int i = 0; i < 8; i++) { s = s * 256 + v[i]; f = f * 256 + v[8 + i]; }
				r.origin = (long double)s + (long double)f / 18446744073709551616.0L;
			}
			break;
		case 0x01:
			{
				uint64_t a, b;
				size_t k = ref::getVLU(v.data(), v.size(), &a);
				if(!k || !ref::getVLU(v.data() + k, v.size() - k, &b) || !a || !b) return false;
				r.ticks = a; r.per = b;
			}
			break;
		case 0x0a: r.network = true; break;
		case 0x0b: if(!ref::getVLU(v.data(), v.size(), &r.reorderTicks)) return false; r.hasReorder = true; break;
		case 0x21: r.name = str; break;
		case 0x2d: if(!ref::getVLU(v.data(), v.size(), &r.tid)) return false; break;
		default: break;
		}
	}
	return sid && codec;
}

bool close(long double a, long double b, long double tol) { return std::fabs(a - b) <= tol + 1e-14L * std::fabs(b); }

void compare(const Media &m, const Ref &r)
{
	PBT_CHECK(m.streamID == r.sid, "stream id %ju want %ju", m.streamID, (uintmax_t)r.sid);
	PBT_CHECK(m.trackID == r.tid && m.getTrackID() == r.tid, "track id %ju want %ju", m.trackID, (uintmax_t)r.tid);
	PBT_CHECK(m.codec == r.codec && m.mediaType == r.type && m.trackName == r.name, "strings differ");
	uintmax_t a = 0, b = 0; m.getTimescale(&a, &b);
	PBT_CHECK(a == r.ticks && b == r.per, "timescale %ju/%ju want %ju/%ju", a, b, (uintmax_t)r.ticks, (uintmax_t)r.per);
	m.getTimescale(nullptr, nullptr);
	long double tick = (long double)r.per / (long double)r.ticks;
	PBT_CHECK(close(m.getTickDuration(), tick, 0), "tick duration %g", double(m.getTickDuration()));
	PBT_CHECK(m.getReceiveIntent() == (r.network ? RO_NETWORK : RO_SEQUENCE), "receive intent");
	PBT_CHECK(close(m.getOrigin(), r.origin, 0), "origin %.17g want %.17g", double(m.getOrigin()), double(r.origin));
	if(r.hasReorder) PBT_CHECK(close(m.reorderSuggestion, r.reorderTicks * tick, 0), "reorder suggestion %g want %g", double(m.reorderSuggestion), double(r.reorderTicks * tick));
	else PBT_CHECK(m.reorderSuggestion < 0, "reorder suggestion %g from nowhere", double(m.reorderSuggestion));
}

std::string genStr(Src &s) { static const std::vector<std::string> v { "", "audio", "video", "text", "a", "opus", "avc1.42e01e" }; return s.chance(3, 4) ? s.pick(v) : [&]{ Bytes b = s.rawBytes(s.len(40)); return std::string(b.begin(), b.end()); }(); }

double genTime(Src &s)
{
	switch(s.below(5))
	{
	case 0: return 0;
	case 1: return double(s.below(100000)) / 1000.0;
	case 2: return double(s.sized(1ull << 40)) + s.unit();
	case 3: return std::ldexp(double(s.below(1 << 20)) + 1, -int(s.below(60)));
	default: return double(s.sized((1ull << 62)));
	}
}

void setUp(Src &s, Media &m, bool small = false)
{
	m.streamID = s.sized(UINT64_MAX); m.trackID = s.flip() ? s.below(3) : s.sized(UINT64_MAX);
	m.codec = genStr(s); m.mediaType = genStr(s); m.trackName = genStr(s);
	double o = small ? double(s.below(1u << 30)) / 64.0 * s.below(2) : genTime(s);
	PBT_ASSERT(m.setOrigin(o) && m.getOrigin() == o);
	if(s.flip())
	{
		uintmax_t t = small ? 1 + s.sized(1000000) : 1 + s.sized(UINT64_MAX - 1), p = small ? 1 + s.below(1001) : 1 + (s.flip() ? s.below(3) : s.sized(UINT64_MAX - 1));
		PBT_ASSERT(m.setTimescale(t, p));
	}
	if(s.chance(1, 3)) PBT_ASSERT(m.setReceiveIntent(RO_NETWORK));
	if(s.flip()) m.reorderSuggestion = s.below(5) ? m.getTickDuration() * double(s.sized(1ull << 45)) + m.getTickDuration() * s.unit() : 0;
	s.log("sid=%ju tid=%ju codec=%s type=%s name=%s origin=%.17g tick=%g reorder=%g", m.streamID, m.trackID, quote(m.codec).c_str(), quote(m.mediaType).c_str(), quote(m.trackName).c_str(), o, double(m.getTickDuration()), double(m.reorderSuggestion));
}

void metadata(Src &s)
{
	Media m;
	setUp(s, m);
	// refused settings change nothing
	PBT_ASSERT(!m.setReceiveIntent(RO_HOLD) && !m.setTimescale(0, 5) && !m.setTimescale(5, 0) && !m.setOrigin(-1e-9) && !m.setOrigin(INFINITY) && !m.setOrigin(NAN));
	Bytes b = m.toMetadata();
	s.log("metadata %s", hex(b, 200).c_str());
	Ref r;
	PBT_CHECK(refRead(b, r), "metadata does not follow the format");
	uintmax_t t, p; m.getTimescale(&t, &p);
	PBT_ASSERT(r.sid == m.streamID && r.tid == m.trackID && r.codec == m.codec && r.type == m.mediaType && r.name == m.trackName && r.ticks == t && r.per == p && r.network == (m.getReceiveIntent() == RO_NETWORK));
	PBT_CHECK(close(r.origin, m.getOrigin(), 1e-18L), "origin written %.17g as %.17g", double(m.getOrigin()), double(r.origin));
	PBT_ASSERT(r.hasReorder == (m.reorderSuggestion >= 0));
	if(r.hasReorder) PBT_CHECK(std::fabs((long double)m.reorderSuggestion / m.getTickDuration() - r.reorderTicks) <= 0.5001L, "reorder suggestion %g ticks written as %ju", double(m.reorderSuggestion / m.getTickDuration()), (uintmax_t)r.reorderTicks);
	auto back = Media::fromMetadata(b);
	PBT_CHECK(!!back, "own metadata refused");
	compare(*back, r);
	Media again; PBT_ASSERT(again.setFromMetadata(b) == b.size());
	PBT_ASSERT(back->codec == again.codec);
	PBT_CHECK(*back == again && !(*back != again), "two readings of the same metadata differ");
	if(close(m.getOrigin(), back->getOrigin(), 0)) PBT_CHECK(m.parametersEqual(*back) && *back == m, "read-back metadata not equal to the original");
	Media copy(m);
	PBT_ASSERT(copy == m && copy.streamID == m.streamID && copy.getOrigin() == m.getOrigin() && copy.reorderSuggestion == m.reorderSuggestion);
	PBT_ASSERT(copy.toMetadata() == b);
	if(r.network || r.hasReorder || r.tid || r.ticks != 1000) s.nontrivial();
}

void foreign(Src &s)
{
	Bytes b;
	b.insert(b.end(), SIG.begin(), SIG.end());
	if(s.chance(1, 16)) b[s.below(b.size())] ^= 1 << s.below(8);
	bool need[2] = { s.chance(11, 12), s.chance(11, 12) };
	int n = s.irange(0, 6);
	std::vector<Bytes> opts;
	auto val = [&](uint64_t type) {
		Bytes v;
		switch(type)
		{
		case 0x00: v = s.rawBytes(s.chance(9, 10) ? 16 : s.below(20)); if(v.size() && s.chance(9, 10)) v[0] &= 0x7f; break;
		case 0x01: { ref::putVLU(v, s.chance(9, 10) ? 1 + s.sized(1000000) : 0); if(s.chance(15, 16)) ref::putVLU(v, s.chance(9, 10) ? 1 + s.sized(2000) : 0); } break;
		case 0x1d: case 0x0b: case 0x2d: if(s.chance(15, 16)) ref::putVLU(v, s.sized(UINT64_MAX)); else v = s.rawBytes(s.below(3)); break;
		case 0x4c: case 0x44: case 0x21: v = ref::str(genStr(s)); break;
		default: v = s.rawBytes(s.len(20));
		}
		if(s.chance(1, 12)) { Bytes x = s.rawBytes(s.below(4)); v.insert(v.end(), x.begin(), x.end()); }
		return v;
	};
	static const std::vector<uint64_t> types { 0x00, 0x01, 0x0a, 0x0b, 0x1d, 0x21, 0x2d, 0x44, 0x4c, 0x4d, 0x90, 0x109c };
	for(int i = 0; i < 2; i++) if(need[i]) { Bytes o; ref::putOpt(o, i ? 0x4c : 0x1d, val(i ? 0x4c : 0x1d)); opts.push_back(o); }
	for(int i = 0; i < n; i++)
	{
		Bytes o;
		if(s.chance(1, 8)) o = Bytes { 0 };
		else { uint64_t t = s.pick(types); ref::putOpt(o, t, val(t)); }
		opts.insert(opts.begin() + s.below(opts.size() + 1), o);
	}
	for(auto &o : opts) b.insert(b.end(), o.begin(), o.end());
	if(s.chance(1, 4)) ref::mutate(s, b);
	s.log("metadata %s", hex(b, 200).c_str());
	Ref r;
	bool want = refRead(b, r);
	Bytes tight(b); tight.shrink_to_fit();
	auto m = Media::fromMetadata(tight);
	PBT_CHECK(!!m == want, "metadata %s, the format says %s", m ? "accepted" : "refused", want ? "valid" : "invalid");
	Media m2; size_t n2 = m2.setFromMetadata(tight);
	PBT_ASSERT(n2 == (want ? b.size() : 0));
	if(m) { compare(*m, r); s.nontrivial(); s.label("accepted"); }
	else s.label("refused");
}

// options for a message: a terminated list
Bytes genOptions(Src &s, bool terminated = true)
{
	Bytes o;
	for(uint64_t n = s.below(4); n--; ) ref::putOpt(o, s.sized(300), s.rawBytes(s.len(20)));
	if(terminated) o.push_back(0);
	return o;
}

void header(Src &s)
{
	bool rai = s.flip(); int type = s.irange(0, 40);
	uint64_t dts = s.flip() ? s.sized(UINT64_MAX) : s.below(10), pts = s.chance(1, 3) ? dts : s.flip() ? s.sized(UINT64_MAX) : s.below(10);
	Bytes opts = s.flip() ? genOptions(s) : Bytes(), payload = s.bytes(s.len(300));
	s.log("rai=%d type=%d dts=%ju pts=%ju options=%s payload %zu", rai, type, (uintmax_t)dts, (uintmax_t)pts, hex(opts).c_str(), payload.size());
	Bytes m = Media::basicMakeMessage(rai, type, dts, pts, opts.data(), opts.size(), payload.data(), payload.size());
	// reference layout
	Bytes w; int tss = !dts && !pts ? 0 : dts == pts ? 1 : pts > dts ? 2 : 3;
	w.push_back((rai ? 0x80 : 0) | (opts.size() ? 0x40 : 0) | tss << 4 | (type & 15));
	if(tss) ref::putVLU(w, dts);
	if(tss > 1) ref::putVLU(w, pts > dts ? pts - dts : dts - pts);
	size_t optAt = w.size();
	w.insert(w.end(), opts.begin(), opts.end());
	size_t at = w.size();
	w.insert(w.end(), payload.begin(), payload.end());
	PBT_CHECK(m == w, "message %s want %s", hex(m).c_str(), hex(w).c_str());
	Guarded g(m);
	bool r2 = !rai; int t2 = -1; uintmax_t d2 = 99, p2 = 99; size_t o2 = 0;
	size_t n = Media::basicParseHeader(g.p, g.n, &r2, &t2, &d2, &p2, &o2);
	PBT_CHECK(n == at && r2 == rai && t2 == (type & 15) && d2 == dts && p2 == pts && o2 == optAt, "parsed payload at %zu (want %zu) rai=%d type=%d dts=%ju pts=%ju options at %zu (want %zu)", n, at, r2, t2, d2, p2, o2, optAt);
	PBT_ASSERT(Media::basicParseHeader(g.p, g.n, nullptr, nullptr, nullptr, nullptr, nullptr) == at);
	// every truncation of the header is refused
	for(size_t c = 0; c < at; c++) { Guarded t(Bytes(m.begin(), m.begin() + c)); PBT_CHECK(!Media::basicParseHeader(t.p, t.n, &r2, &t2, &d2, &p2, &o2), "header cut to %zu of %zu bytes accepted", c, at); }
	if(tss > 1 || opts.size()) s.nontrivial();
}

void times(Src &s)
{
	Media m; setUp(s, m, true);
	long double tick = m.getTickDuration(), org = m.getOrigin();
	auto gen = [&] { double t = double(org) + double(tick) * double(s.sized(1ull << 36)) + double(tick) * s.unit(); if(s.chance(1, 10)) t = double(org) - s.unit() * 10; return t; };
	double dts = gen(), pts = s.chance(1, 4) ? -1.0 - s.unit() : s.chance(1, 3) ? dts + double(tick) * s.irange(-3, 3) : gen();
	if(s.chance(1, 20)) dts = s.flip() ? INFINITY : NAN;
	s.log("dts %.17g pts %.17g", dts, pts);
	Bytes opts = s.chance(1, 3) ? genOptions(s) : Bytes(), payload = s.bytes(s.len(100));
	bool rai = s.flip(); int type = s.irange(0, 15);
	Bytes b = m.makeMessage(rai, type, dts, pts, opts, payload);
	PBT_ASSERT(b == m.makeMessage(rai, type, dts, pts, opts.data(), opts.size(), payload.data(), payload.size()));
	if(opts.empty()) { PBT_ASSERT(b == m.makeMessage(rai, type, dts, pts, payload)); PBT_ASSERT(b == m.makeMessage(rai, type, dts, pts, payload.data(), payload.size())); }
	Guarded g(b);
	bool r2; int t2; Time d2 = -5, p2 = -5; size_t o2 = 0;
	size_t n = m.parseHeader(g.p, g.n, &r2, &t2, &d2, &p2, &o2);
	PBT_CHECK(n && n + payload.size() == b.size() && o2 + opts.size() == n && r2 == rai && t2 == type, "offsets %zu %zu", o2, n);
	PBT_ASSERT(m.parseHeader(g.p, g.n, nullptr, nullptr, nullptr, nullptr, nullptr) == n);
	if(pts < 0) pts = dts;
	auto want = [&](double t) { return !std::isfinite(t) || t < org ? double(org) : t; };
	long double tol = tick * 0.501L + 1e-12L * (std::fabs(org) + std::fabs((long double)want(dts)) + std::fabs((long double)want(pts)));
	PBT_CHECK(std::fabs(d2 - (long double)want(dts)) <= tol, "dts %.17g read back %.17g (tick %Lg)", dts, d2, tick);
	PBT_CHECK(std::fabs(p2 - (long double)want(pts)) <= tol, "pts %.17g read back %.17g (tick %Lg)", pts, p2, tick);
	uint64_t k = s.sized(1ull << 36);
	PBT_CHECK(std::fabs(m.ticksToTime(k) - (org + k * tick)) <= 1e-12L * (org + k * tick), "ticksToTime(%ju)", (uintmax_t)k);
	if(k * tick * 1e-14 < tick * 0.4 && org * 1e-14L < tick * 0.1L) PBT_CHECK(m.timeToTicks(m.ticksToTime(k)) == k, "tick %ju converts to time and back as %ju", (uintmax_t)k, m.timeToTicks(m.ticksToTime(k)));
	if(d2 != p2) s.nontrivial();
}

void arbitraryHeader(Src &s)
{
	Bytes b;
	if(s.flip()) b = s.rawBytes(s.len(40));
	else
	{
		Bytes o = s.flip() ? genOptions(s, s.chance(2, 3)) : Bytes();
		uint64_t d = s.sized(UINT64_MAX);
		b = Media::basicMakeMessage(s.flip(), s.irange(0, 15), d, s.flip() ? d : s.sized(UINT64_MAX), o.data(), o.size(), nullptr, 0);
		ref::mutate(s, b);
	}
	s.log("bytes %s", hex(b, 120).c_str());
	// reference reading
	size_t at = 0, optAt = 0; uint64_t d = 0, off = 0; bool ok = b.size() > 0; int tss = 0; unsigned __int128 pts = 0;
	if(ok)
	{
		at = 1; tss = b[0] >> 4 & 3;
		for(int i = 0; ok && i < (tss == 0 ? 0 : tss == 1 ? 1 : 2); i++) { size_t k = ref::getVLU(b.data() + at, b.size() - at, i ? &off : &d); ok = k; at += k; }
		if(tss == 3 && off > d) ok = false;
		pts = tss == 3 ? (unsigned __int128)d - off : (unsigned __int128)d + off;
		optAt = at;
		while(ok && (b[0] & 0x40)) { ref::Opt o; size_t k = ref::getOpt(b.data() + at, b.size() - at, &o); if(!k) ok = false; at += k; if(ok && o.marker) break; }
	}
	Guarded g(b);
	bool r2 = false; int t2 = 0; uintmax_t d2 = 0, p2 = 0; size_t o2 = 0;
	size_t n = Media::basicParseHeader(g.p, g.n, &r2, &t2, &d2, &p2, &o2);
	PBT_CHECK(n == (ok ? at : 0), "header of %s: payload at %zu want %zu", hex(b).c_str(), n, ok ? at : 0);
	if(n)
	{
		PBT_CHECK(r2 == !!(b[0] & 0x80) && t2 == (b[0] & 15) && d2 == d && o2 == optAt, "fields");
		if(pts <= UINT64_MAX) PBT_CHECK(p2 == uint64_t(pts), "pts %ju", p2);
		s.nontrivial();
	}
	Media m; PBT_ASSERT(m.parseHeader(g.p, g.n, nullptr, nullptr, nullptr, nullptr, nullptr) == n);
	s.label(n ? "accepted" : "refused");
}

int sgn(int x) { return x < 0 ? -1 : x > 0; }

void ordering(Src &s)
{
	Media m[3];
	static const std::vector<std::string> types { "", "a", "audio", "audiq", "video", "videos", std::string("a\0b", 3), "\xff" };
	for(auto &x : m) { x.streamID = s.flip() ? s.below(2) : s.sized(UINT64_MAX); x.trackID = s.flip() ? s.below(2) : s.sized(UINT64_MAX); x.mediaType = s.pick(types); x.codec = s.flip() ? "a" : "b"; x.trackName = s.flip() ? "x" : "y"; if(s.chance(1, 4)) x.setTimescale(90000, 1); if(s.chance(1, 4)) x.setReceiveIntent(RO_NETWORK); if(s.chance(1, 3)) x.setOrigin(double(s.below(3))); }
	auto key = [](const Media &x) { std::string k; for(int i = 7; i >= 0; i--) k += char(x.trackID >> 8 * i); return k + x.mediaType; };
	for(auto &a : m) for(auto &b : m)
	{
		int c = key(a).compare(key(b)), cs = a.streamID != b.streamID ? (a.streamID < b.streamID ? -1 : 1) : c;
		PBT_CHECK(sgn(a.track_compare(b)) == sgn(c), "track_compare %d want sign %d", a.track_compare(b), sgn(c));
		PBT_CHECK(sgn(a.stream_track_compare(b)) == sgn(cs), "stream_track_compare");
		PBT_ASSERT(Media::track_less(a, b) == (c < 0) && Media::stream_track_less(a, b) == (cs < 0));
		uintmax_t at, ap, bt, bp; a.getTimescale(&at, &ap); b.getTimescale(&bt, &bp);
		bool enc = at == bt && ap == bp && a.getReceiveIntent() == b.getReceiveIntent() && a.codec == b.codec && a.mediaType == b.mediaType && a.getOrigin() == b.getOrigin();
		bool tr = enc && a.trackID == b.trackID && a.trackName == b.trackName, par = tr && a.streamID == b.streamID;
		PBT_CHECK(a.encodingParametersEqual(b) == enc, "encodingParametersEqual"); 
		PBT_CHECK(a.encodingAndTrackParametersEqual(b) == tr, "encodingAndTrackParametersEqual");
		PBT_CHECK(a.parametersEqual(b) == par && (a == b) == par && (a != b) == !par, "parametersEqual");
		if(&a != &b && c) s.nontrivial();
	}
	m[0].clearTrackID(); PBT_ASSERT(m[0].trackID == 0 && m[0].hasTrackID()); m[0].setTrackID(7); PBT_ASSERT(m[0].trackID == 7);
}

Register r({"P24", "metadata and message headers generated from field values and by editing encodings, read by the library and by an independent reader; non-trivial: optional parameters present, or accepted input", {
	{"metadata", metadata, 15000, 1500000},
	{"foreign-metadata", foreign, 20000, 2000000},
	{"header", header, 15000, 1500000},
	{"times", times, 20000, 2000000},
	{"arbitrary-header", arbitraryHeader, 30000, 3000000},
	{"ordering", ordering, 15000, 1000000},
}, { "times are below 2^62 seconds and 2^45 ticks; the reorder suggestion is finite; the presentation time of a header whose time and offset sum beyond 2^64 is not judged" }});

} // namespace
