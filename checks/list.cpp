// P30: List and SumList against a vector model.
#include "pbt.hpp"
#include "rtmfp/List.hpp"
#include <algorithm>
#include <memory>
#include <set>
using namespace com::zenomt;
using namespace pbt;

namespace {

using Val = std::string; // heap allocated when long, so dangling references are seen by the sanitizer
struct El { long name; Val v; };

Val mk(Src &s, int &ctr) { return std::string(s.flip() ? 1 + s.below(8) : 24 + s.below(20), 'a' + (ctr++ % 26)); }

template<class L> void verify(L &l, const std::vector<El> &m, const std::set<long> &dead)
{
	PBT_CHECK(l.size() == m.size(), "size %zu want %zu", l.size(), m.size());
	PBT_ASSERT(l.empty() == m.empty());
	std::vector<long> fwd, back;
	for(long n = l.first(); n > 0; n = l.next(n)) { fwd.push_back(n); PBT_CHECK(fwd.size() <= m.size(), "forward navigation is too long"); }
	for(long n = l.last(); n > 0; n = l.prev(n)) { back.push_back(n); PBT_CHECK(back.size() <= m.size(), "backward navigation is too long"); }
	std::reverse(back.begin(), back.end());
	PBT_CHECK(fwd == back, "forward and backward navigation disagree");
	PBT_ASSERT(fwd.size() == m.size());
	std::set<long> names;
	const L &cl = l;
	for(size_t i = 0; i < m.size(); i++)
	{
		PBT_CHECK(fwd[i] == m[i].name, "element %zu is name %ld, want %ld", i, fwd[i], m[i].name);
		PBT_CHECK(names.insert(fwd[i]).second, "name shared");
		PBT_CHECK(l.at(fwd[i]) == m[i].v && cl.at(fwd[i]) == m[i].v, "element %zu has the wrong value", i);
		PBT_ASSERT(l.has(fwd[i]) && l.isUsing(fwd[i]));
	}
	PBT_ASSERT(l.first() == (m.empty() ? 0 : m.front().name) && l.last() == (m.empty() ? 0 : m.back().name));
	PBT_ASSERT(!l.has(0) && l.isUsing(0) && !l.has(-1) && !l.has(1) && !l.isUsing(1) && !l.has(1000000));
	if(m.size()) { PBT_ASSERT(l.firstValue() == m.front().v && l.lastValue() == m.back().v && cl.firstValue() == m.front().v && cl.lastValue() == m.back().v); }
	else { bool threw = false; try { l.firstValue(); } catch(const std::out_of_range &) { threw = true; } PBT_ASSERT(threw); }
	for(long d : dead)
	{
		PBT_CHECK(!l.has(d) && !l.isUsing(d) && l.next(d) == -1 && l.prev(d) == -1, "removed name %ld still in use", d);
		bool threw = false;
		try { l.at(d); } catch(const std::out_of_range &) { threw = true; }
		PBT_CHECK(threw, "at(removed) did not throw");
	}
}

template<class L> void step(Src &s, L &l, std::vector<El> &m, std::set<long> &dead, int &ctr, size_t growTo, bool valueOnly)
{
	auto pick = [&] () -> size_t { return s.below(m.size()); };
	auto added = [&] (long n, size_t pos, const Val &v) {
		PBT_CHECK(n > 0, "insertion answered %ld", n);
		for(auto &e : m) PBT_CHECK(e.name != n, "name %ld of a live element was given out again", n);
		m.insert(m.begin() + pos, El { n, v });
		dead.erase(n);
	};
	auto drop = [&] (size_t i) { dead.insert(m[i].name); m.erase(m.begin() + i); };
	unsigned addW = m.size() < growTo ? 8 : 2;
	switch(s.weighted({ addW, addW, 3, 3, 4, 2, 2, 2, 2, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1 }))
	{
	case 0: { Val v = mk(s, ctr); s.log("append"); added(l.append(v), m.size(), v); } break;
	case 1: { Val v = mk(s, ctr); s.log("prepend"); added(l.prepend(v), 0, v); } break;
	case 2: { Val v = mk(s, ctr); size_t i = m.empty() ? 0 : pick(); s.log("addAfter #%zu", i); if(m.empty()) added(l.addAfter(v, 0), 0, v); else added(l.addAfter(v, m[i].name), i + 1, v); } break;
	case 3: { Val v = mk(s, ctr); size_t i = m.empty() ? 0 : pick(); s.log("addBefore #%zu", i); if(m.empty()) added(l.addBefore(v, 0), 0, v); else added(l.addBefore(v, m[i].name), i, v); } break;
	case 4: if(m.size()) { size_t i = pick(); s.log("remove #%zu", i); PBT_ASSERT(l.remove(m[i].name)); drop(i); } break;
	case 5: s.log("removeFirst"); PBT_ASSERT(l.removeFirst() == !m.empty()); if(m.size()) drop(0); break;
	case 6: s.log("removeLast"); PBT_ASSERT(l.removeLast() == !m.empty()); if(m.size()) drop(m.size() - 1); break;
	case 7: if(m.size()) { size_t i = pick(); s.log("rotateToHead #%zu", i); PBT_ASSERT(l.rotateNameToHead(m[i].name)); std::rotate(m.begin(), m.begin() + i, m.end()); } break;
	case 8: if(m.size()) { size_t i = pick(); s.log("rotateToTail #%zu", i); PBT_ASSERT(l.rotateNameToTail(m[i].name)); std::rotate(m.begin(), m.begin() + i + 1, m.end()); } break;
	case 9: if(m.size()) { size_t i = pick(); s.log("moveToHead #%zu", i); PBT_ASSERT(l.moveNameToHead(m[i].name)); El e = m[i]; m.erase(m.begin() + i); m.insert(m.begin(), e); } break;
	case 10: if(m.size()) { size_t i = pick(); s.log("moveToTail #%zu", i); PBT_ASSERT(l.moveNameToTail(m[i].name)); El e = m[i]; m.erase(m.begin() + i); m.push_back(e); } break;
	case 11: if(s.chance(1, 3)) { s.log("clear"); for(auto &e : m) dead.insert(e.name); m.clear(); l.clear(); } break;
	case 12: { // operations on names that are not in the list
		long bad = dead.size() ? *std::next(dead.begin(), s.below(dead.size())) : s.flip() ? -1 : 999;
		s.log("bad name %ld", bad);
		PBT_ASSERT(!l.remove(bad) && !l.rotateNameToHead(bad) && !l.rotateNameToTail(bad) && !l.moveNameToHead(bad) && !l.moveNameToTail(bad));
		PBT_ASSERT(l.addAfter(bad) == -1 && l.addBefore(bad) == -1 && l.next(bad) == -1 && l.prev(bad) == -1);
		PBT_ASSERT(l.rotateNameToHead(0) && l.rotateNameToTail(0) && l.moveNameToHead(0) && l.moveNameToTail(0) && !l.remove(0));
		try { long r = l.addAfter(Val("x"), bad); PBT_ASSERT(r <= 0); } catch(const std::out_of_range &) { }
	} break;
	case 13: if(m.size() && m.size() < 200) { size_t i = pick(); Val v = m[i].v; s.log("append copy of own element #%zu", i); added(l.append(l.at(m[i].name)), m.size(), v); s.label("aliased append"); } break;
	case 14: { // values appended from another list
		List<Val> o; std::vector<Val> vs;
		size_t k = s.below(5);
		for(size_t i = 0; i < k; i++) { vs.push_back(mk(s, ctr)); o.append(vs.back()); }
		s.log("appendValuesFrom %zu", k);
		long before = l.last();
		l.appendValuesFrom(o);
		long n = l.next(before);
		for(auto &v : vs) { added(n, m.size(), v); n = l.next(n); }
	} break;
	case 15: if(m.size() && m.size() < 60) { // from itself
		s.log("appendValuesFrom self");
		auto copy = m;
		long before = l.last();
		l.appendValuesFrom(l);
		PBT_CHECK(l.size() == 2 * copy.size(), "appending a list to itself");
		long n = l.next(before);
		for(auto &e : copy) { added(n, m.size(), e.v); n = l.next(n); }
		s.label("self append");
	} break;
	case 16: { // find
		if(m.size()) { Val v = m[pick()].v; long want = 0; for(auto &e : m) if(e.v == v) { want = e.name; break; } PBT_ASSERT(l.find(v) == want); }
		PBT_ASSERT(l.find("no such value") == 0);
	} break;
	case 17: { // plain iteration, with early stop
		std::vector<Val> seen;
		PBT_ASSERT(l.valuesDo([&] (Val &v) { seen.push_back(v); return true; }));
		PBT_ASSERT(seen.size() == m.size());
		for(size_t i = 0; i < m.size(); i++) PBT_ASSERT(seen[i] == m[i].v);
		if(m.size()) { size_t stop = pick(), n = 0; PBT_ASSERT(!l.valuesDo([&] (Val &) { return n++ < stop; }) && n == stop + 1); }
	} break;
	case 18: { // safe iteration: edits from inside do not change what is visited
		std::vector<Val> seen, want;
		for(auto &e : m) want.push_back(e.v);
		s.log("edits from inside safeValuesDo");
		bool all = l.safeValuesDo([&] (Val &v) {
			seen.push_back(v);
			if(s.chance(1, 2)) {
				if(s.flip() && m.size()) { size_t i = pick(); PBT_ASSERT(l.remove(m[i].name)); drop(i); }
				else { Val nv = mk(s, ctr); added(l.append(nv), m.size(), nv); }
				s.label("edited during iteration");
			}
			return true;
		});
		PBT_ASSERT(all);
		PBT_CHECK(seen == want, "safe iteration visited %zu elements, %zu were present", seen.size(), want.size());
	} break;
	}
}

void listHistory(Src &s)
{
	List<Val> l(s.flip() ? Val() : Val("blankblankblankblankblank"));
	std::vector<El> m;
	std::set<long> dead;
	int ctr = 0;
	size_t n = 1 + s.len(80), growTo = s.pick(std::vector<size_t> { 3, 10, 16, 40 });
	size_t most = 0;
	for(size_t i = 0; i < n; i++) { step(s, l, m, dead, ctr, growTo, false); verify(l, m, dead); most = std::max(most, m.size()); }
	if(dead.size() && m.size()) s.nontrivial();
	s.label(most > 14 ? "grew beyond the initial capacity" : "small");
}

void sumHistory(Src &s)
{
	SumList<Val> l([] (const Val &v) { return v.size(); });
	std::vector<El> m;
	std::set<long> dead;
	int ctr = 0;
	size_t n = 1 + s.len(80), growTo = s.pick(std::vector<size_t> { 3, 10, 16, 40 });
	for(size_t i = 0; i < n; i++)
	{
		step(s, l, m, dead, ctr, growTo, true);
		verify(l, m, dead);
		size_t want = 0;
		for(auto &e : m) want += e.v.size();
		PBT_CHECK(l.sum() == want, "sum %zu, elements total %zu", l.sum(), want);
	}
	if(dead.size() && m.size()) s.nontrivial();
}

struct Counted { // identity of values: the list must let go of what is removed
	std::shared_ptr<int> p;
};

void values(Src &s)
{
	// removed elements' values are dropped at once, valuesDo can modify in place and follow appended elements
	List<Counted> l;
	std::vector<std::weak_ptr<int>> w;
	std::vector<long> names;
	size_t n = 1 + s.below(40);
	for(size_t i = 0; i < n; i++) { Counted c { std::make_shared<int>(int(i)) }; w.push_back(c.p); names.push_back(l.append(c)); }
	for(size_t i = 0; i < n; i++) if(s.flip()) { PBT_ASSERT(l.remove(names[i])); PBT_CHECK(w[i].expired(), "removed value kept"); names[i] = 0; }
	size_t visited = 0, extra = s.below(20), live = l.size();
	l.valuesDo([&] (Counted &c) { visited++; if(extra) { extra--; Counted d { std::make_shared<int>(7) }; l.append(d); live++; } return true; });
	PBT_CHECK(visited == live, "iteration saw %zu of %zu", visited, live);
	l.clear();
	for(auto &x : w) PBT_ASSERT(x.expired());
	s.nontrivial();
}

pbt::Register r({"P30", "histories of up to 80 edits with list sizes beyond the initial and grown capacities, including bad names, self-append, aliased values and edits from inside iteration; compared with a vector model after every step. Non-trivial: elements were removed and elements remain.",
	{ {"list", listHistory, 20000, 700000}, {"sum-list", sumHistory, 15000, 500000}, {"value-lifetime", values, 4000, 80000} },
	{ "sum lists are used with a blank value of size zero and elements are not resized in place" }});
}
