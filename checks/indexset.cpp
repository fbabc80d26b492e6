// P29: IndexSet against a set of integers defined by replaying the history at every interesting point.
#include "pbt.hpp"
#include "rtmfp/IndexSet.hpp"
#include <algorithm>
#include <memory>
using namespace com::zenomt;
using namespace pbt;

namespace {

using U = uintmax_t;
struct Op { bool add; std::vector<std::pair<U, U>> ranges; };

struct Model {
	// membership is decided by the last operation that covers an index
	std::vector<Op> ops;
	bool contains(U x) const {
		for(size_t i = ops.size(); i-- > 0; )
			for(auto &r : ops[i].ranges) if(r.first <= x && x <= r.second) return ops[i].add;
		return false;
	}
	std::vector<std::pair<U, U>> ranges() const {
		std::vector<U> cuts { 0 }; // first index of each stretch of constant membership
		for(auto &o : ops) for(auto &r : o.ranges) { cuts.push_back(r.first); if(r.second != UINTMAX_MAX) cuts.push_back(r.second + 1); }
		std::sort(cuts.begin(), cuts.end());
		cuts.erase(std::unique(cuts.begin(), cuts.end()), cuts.end());
		std::vector<std::pair<U, U>> rv;
		bool in = false;
		for(U c : cuts) {
			bool now = contains(c);
			if(now && !in) rv.push_back({ c, UINTMAX_MAX });
			if(!now && in) rv.back().second = c - 1;
			in = now;
		}
		return rv;
	}
};

void compare(Src &s, const IndexSet &set, const Model &m, const std::vector<U> &probe)
{
	auto want = m.ranges();
	std::vector<std::pair<U, U>> got;
	PBT_ASSERT(set.extentsDo([&] (U a, U b) { got.push_back({ a, b }); return true; }));
	if(got != want)
	{
		std::string g, w;
		for(auto &r : got) g += " " + std::to_string(r.first) + "-" + std::to_string(r.second);
		for(auto &r : want) w += " " + std::to_string(r.first) + "-" + std::to_string(r.second);
		PBT_FAIL("ranges are%s, want%s", g.c_str(), w.c_str());
	}
	PBT_ASSERT(set.countRanges() == want.size());
	PBT_ASSERT(set.empty() == want.empty());
	U total = 0;
	for(auto &r : want) total += r.second - r.first + 1;
	if(want.size() == 1 && want[0].first == 0 && want[0].second == UINTMAX_MAX) total = UINTMAX_MAX; // 2^64 is not representable
	PBT_CHECK(set.size() == total, "size %llu want %llu", (unsigned long long)set.size(), (unsigned long long)total);
	PBT_ASSERT(set.lowestIndex() == (want.empty() ? 0 : want.front().first));
	PBT_ASSERT(set.highestIndex() == (want.empty() ? 0 : want.back().second));
	Range f = set.firstRange(), l = set.lastRange();
	PBT_ASSERT(f.start == (want.empty() ? 0 : want.front().first) && f.end == (want.empty() ? 0 : want.front().second));
	PBT_ASSERT(l.start == (want.empty() ? 0 : want.back().first) && l.end == (want.empty() ? 0 : want.back().second));
	for(U x : probe) for(U d = 0; d < 3; d++) PBT_CHECK(set.contains(x - 1 + d) == m.contains(x - 1 + d), "contains(%llu) is wrong", (unsigned long long)(x - 1 + d));
	// iteration over indices, when there are few enough
	if(total <= 300 && !want.empty())
	{
		std::vector<U> idx, ref;
		for(auto &r : want) for(U x = r.first; ; x++) { ref.push_back(x); if(x == r.second) break; }
		bool done = set.indicesDo([&] (U x) { idx.push_back(x); return idx.size() < 400; });
		PBT_CHECK(idx == ref && done, "indicesDo visits %zu indices, want %zu", idx.size(), ref.size());
		if(want.back().second == UINTMAX_MAX) s.label("iterated up to the top index");
		// early stop
		size_t stop = s.below(ref.size()), n = 0;
		PBT_ASSERT(!set.indicesDo([&] (U) { return n++ < stop; }) && n == stop + 1);
	}
	else if(!want.empty())
	{
		size_t n = 0, r = 0; U x = want[0].first;
		PBT_ASSERT(!set.indicesDo([&] (U v) { PBT_ASSERT(v == x); n++; if(x == want[r].second) { r++; x = r < want.size() ? want[r].first : 0; } else x++; return n < 200; }));
	}
	if(want.size()) { size_t stop = s.below(want.size()), n = 0; PBT_ASSERT(!set.extentsDo([&] (U, U) { return n++ < stop; }) && n == stop + 1); }
}

U point(Src &s, int mode, U base)
{
	switch(mode)
	{
	case 0: return s.below(40);
	case 1: return UINTMAX_MAX - s.below(40);
	case 2: return base + s.below(40);
	case 3: return s.flip() ? s.below(20) : UINTMAX_MAX - s.below(20);
	default: return s.sized(UINTMAX_MAX);
	}
}

void history(Src &s)
{
	IndexSet a, b;
	Model ma, mb;
	std::vector<U> probe;
	int mode = s.irange(0, 4);
	U base = s.sized(UINTMAX_MAX);
	size_t n = 1 + s.len(40);
	bool merged = false;
	for(size_t i = 0; i < n; i++)
	{
		bool useB = s.chance(1, 4);
		IndexSet &set = useB ? b : a;
		Model &m = useB ? mb : ma;
		U x = point(s, mode, base), y = s.chance(1, 4) ? point(s, mode, base) : x + s.below(6);
		size_t before = m.ranges().size();
		switch(s.weighted({ 8, 4, 5, 2, 1, 1, 1, 1, 1, 1, 1 }))
		{
		case 0: set.add(x, y); if(x <= y) m.ops.push_back({ true, { { x, y } } }); s.log("%c add %llu %llu", useB ? 'b' : 'a', (unsigned long long)x, (unsigned long long)y); break;
		case 1: set.add(x); m.ops.push_back({ true, { { x, x } } }); s.log("%c add %llu", useB ? 'b' : 'a', (unsigned long long)x); break;
		case 2: set.remove(x, y); if(x <= y) m.ops.push_back({ false, { { x, y } } }); s.log("%c remove %llu %llu", useB ? 'b' : 'a', (unsigned long long)x, (unsigned long long)y); break;
		case 3: set.remove(x); m.ops.push_back({ false, { { x, x } } }); s.log("%c remove %llu", useB ? 'b' : 'a', (unsigned long long)x); break;
		case 4: { auto o = (useB ? ma : mb).ranges(); set.add(useB ? a : b); m.ops.push_back({ true, o }); s.log("add whole set"); s.label("whole-set add"); } break;
		case 5: { auto o = (useB ? ma : mb).ranges(); set.remove(useB ? a : b); m.ops.push_back({ false, o }); s.log("remove whole set"); s.label("whole-set remove"); } break;
		case 6: if(s.chance(1, 4)) { set.clear(); m.ops.clear(); s.log("clear"); } break;
		case 7: { IndexSet c(set); compare(s, c, m, probe); c.add(x, y); c.remove(point(s, mode, base)); s.log("copy"); } break;
		case 8: set.add(set); s.log("add self"); break;
		case 9: if(s.chance(1, 4)) { set.remove(set); m.ops.clear(); s.log("remove self"); s.label("remove self"); } break;
		case 10: set.add(0, UINTMAX_MAX); m.ops.push_back({ true, { { 0, UINTMAX_MAX } } }); s.log("add everything"); break;
		}
		if(m.ranges().size() < before) merged = true;
		probe.push_back(x); probe.push_back(y);
		if(probe.size() > 8) probe.erase(probe.begin(), probe.begin() + 2);
		compare(s, set, m, probe);
		if(ma.ops.size() > 60 || mb.ops.size() > 60) break;
	}
	compare(s, a, ma, probe);
	compare(s, b, mb, probe);
	if(merged) { s.nontrivial(); s.label("ranges merged or removed"); }
	static const char *modes[] = { "near zero", "near the top", "around a base", "both extremes", "anywhere" };
	s.label(modes[mode]);
}

void rangeOps(Src &s)
{
	// Range itself, with every operand up to 8 and shifted to the top of the integers
	U off = s.flip() ? UINTMAX_MAX - 9 : 0;
	U a = off + s.below(10), b = off + s.below(10), c = off + s.below(10), d = off + s.below(10);
	if(a > b) std::swap(a, b);
	if(c > d) std::swap(c, d);
	Range r(a, b), q(c, d);
	bool meet = false, touch = false;
	for(int i = 0; i < 10; i++) for(int j = 0; j < 10; j++)
	{
		U x = off + i, y = off + j;
		if(x < a || x > b || y < c || y > d) continue;
		if(x == y) meet = touch = true;
		if((x != UINTMAX_MAX && x + 1 == y) || (y != UINTMAX_MAX && y + 1 == x)) touch = true;
	}
	PBT_ASSERT(r.intersects(q) == meet && q.intersects(r) == meet && r.intersects(c, d) == meet);
	PBT_ASSERT(r.contiguousWith(q) == touch && q.contiguousWith(r) == touch && r.contiguousWith(c, d) == touch);
	PBT_ASSERT(r.contains(q) == (a <= c && d <= b) && r.contains(c, d) == (a <= c && d <= b) && r.contains(c) == (a <= c && c <= b));
	PBT_ASSERT(r.size() == b - a + 1);
	Range e(r); e.extend(q);
	PBT_ASSERT(e.start == std::min(a, c) && e.end == std::max(b, d));
	e = r; if(c != d) { e.extend(d, c); PBT_ASSERT(e.start == a && e.end == b); }
	PBT_ASSERT(Range(0, UINTMAX_MAX).size() == UINTMAX_MAX);
	if(touch && !meet) s.nontrivial();
}

pbt::Register r({"P29", "histories of up to 40 adds, removes, whole-set operations, clears and copies over two sets, with endpoints near zero, near the top, around a random base, at both extremes or anywhere; membership is decided by replaying the history at every cut point. Non-trivial: some operation merged or removed a range (history), ranges that touch without meeting (range operations).",
	{ {"history", history, 24000, 1200000}, {"range-operations", rangeOps, 40000, 400000} }, {}});
}
