// P37 (first part): Retainer, share_ref and raw retains against a reference count model.
#include "pbt.hpp"
#include "rtmfp/Object.hpp"
#include "rtmfp/Retainer.hpp"
#include <map>
#include <set>
using namespace com::zenomt;
using namespace pbt;

namespace {

struct Obj : public Object {
	static std::map<Obj *, int> alive; // -> id
	static uint64_t deaths;
	int id;
	std::vector<Retainer<Obj>> members; // references held by the object itself
	Retainer<Obj> next;
	std::vector<char> pad;
	explicit Obj(int i) : id(i), pad(40, 'p') { alive[this] = i; }
	~Obj() { if(!alive.count(this)) { PBT_FAIL("object destroyed twice"); } alive.erase(this); deaths++; }
	int hello() const { return id; }
};
std::map<Obj *, int> Obj::alive;
uint64_t Obj::deaths;
struct Sub : public Obj { explicit Sub(int i) : Obj(i) { } std::vector<int> more { 1, 2, 3 }; };
struct Custom { // not an Object: anything with retain and release
	int refs { 1 }; static int live;
	Custom() { live++; } ~Custom() { live--; }
	void retain() { refs++; } void release() { if(--refs == 0) delete this; }
};
int Custom::live;

struct World {
	Src &s;
	std::map<int, long> refs;  // id -> references the model counts from outside
	std::map<int, Obj *> ptr;
	std::map<int, std::vector<int>> holds; // id -> ids it holds (members) ; next
	std::map<int, int> nextOf;
	int ids { 0 };
	std::vector<Retainer<Obj>> ret;
	std::vector<Retainer<Sub>> subs;
	std::vector<int> retId, subId;
	std::vector<std::shared_ptr<Obj>> sh; std::vector<int> shId;
	std::vector<int> raw;
	World(Src &s_) : s(s_) { }

	void inc(int id) { if(id) refs[id]++; }
	void dec(int id)
	{
		if(!id) return;
		if(--refs[id] == 0)
		{
			refs.erase(id); ptr.erase(id);
			auto h = holds[id]; holds.erase(id);
			int n = nextOf[id]; nextOf.erase(id);
			for(int x : h) dec(x);
			dec(n);
		}
	}
	void check()
	{
		PBT_CHECK(Obj::alive.size() == refs.size(), "%zu objects alive, %zu referenced", Obj::alive.size(), refs.size());
		for(auto &p : ptr) { PBT_ASSERT(Obj::alive.count(p.second)); PBT_ASSERT(p.second->hello() == p.first); }
		for(size_t i = 0; i < ret.size(); i++)
		{
			Obj *want = retId[i] ? ptr[retId[i]] : nullptr;
			PBT_CHECK(ret[i].get() == want, "retainer holds the wrong object");
			PBT_ASSERT(ret[i].empty() == !want && bool(ret[i]) == bool(want) && (ret[i] == nullptr) == !want && (nullptr != ret[i]) == bool(want) && (ret[i] != nullptr) == bool(want) && (nullptr == ret[i]) == !want);
			if(want) PBT_ASSERT(ret[i]->hello() == retId[i] && (*ret[i]).id == retId[i]);
			PBT_ASSERT((ret[i] < nullptr) == false && (ret[i] >= nullptr) == true && (nullptr > ret[i]) == false && (nullptr <= ret[i]) == true);
			PBT_ASSERT((ret[i] > nullptr) == bool(want) && (nullptr < ret[i]) == bool(want) && (ret[i] <= nullptr) == !want && (nullptr >= ret[i]) == !want);
		}
		if(ret.size() >= 2)
		{
			auto &a = ret[s.below(ret.size())], &b = ret[s.below(ret.size())];
			PBT_ASSERT((a == b) == (a.get() == b.get()) && (a != b) == (a.get() != b.get()));
			PBT_ASSERT((a < b) == std::less<Obj *>()(a.get(), b.get()) && (a > b) == (b < a) && (a <= b) == !(b < a) && (a >= b) == !(a < b));
		}
	}
};

void history(Src &s)
{
	Obj::alive.clear();
	World w(s);
	uint64_t deaths0 = Obj::deaths;
	size_t n = 1 + s.len(100);
	bool nested = false;
	w.ret.reserve(300);
	auto dropRet = [&] (size_t i) { w.ret.erase(w.ret.begin() + i); int id = w.retId[i]; w.retId.erase(w.retId.begin() + i); w.dec(id); };
	for(size_t i = 0; i < n; i++)
	{
		size_t R = w.ret.size();
		auto any = [&] { return s.below(R); };
		switch(s.weighted({ 6, 3, 4, 4, 3, 3, 3, 2, 2, 2, 2, 3, 3, 2, 2, 8, 3, 1 }))
		{
		case 0: { // create
			int id = ++w.ids; Obj *o = s.flip() ? new Obj(id) : new Sub(id);
			w.ptr[id] = o; w.refs[id] = 1;
			s.log("new %d", id);
			switch(s.below(3)) {
			case 0: w.ret.push_back(claim_ref(o)); break;
			case 1: w.ret.push_back(Retainer<Obj>(o, false)); break;
			case 2: { w.ret.push_back(o); o->release(); } break;
			}
			w.retId.push_back(id);
		} break;
		case 1: { int id = ++w.ids; Sub *o = new Sub(id); w.ptr[id] = o; w.refs[id] = 1; s.log("new sub %d", id); w.subs.push_back(claim_ref(o)); w.subId.push_back(id); } break;
		case 2: if(R) { size_t a = any(); s.log("copy construct %d", w.retId[a]); Retainer<Obj> c(w.ret[a]); w.ret.push_back(c); w.retId.push_back(w.retId[a]); w.inc(w.retId[a]); } break;
		case 3: if(R) { size_t a = any(); s.log("drop %d", w.retId[a]); dropRet(a); } break;
		case 4: if(R) { size_t a = any(), b = any(); s.log("copy assign %d <- %d", w.retId[a], w.retId[b]); w.ret[a] = w.ret[b]; int old = w.retId[a]; w.retId[a] = w.retId[b]; w.inc(w.retId[a]); w.dec(old); } break;
		case 5: if(R) { size_t a = any(), b = any(); if(a == b) break; s.log("move assign %d <- %d", w.retId[a], w.retId[b]); w.ret[a] = std::move(w.ret[b]); int old = w.retId[a]; w.retId[a] = w.retId[b]; w.retId[b] = 0; w.dec(old); } break;
		case 6: if(R) { size_t a = any(); s.log("move construct from %d", w.retId[a]); w.ret.emplace_back(std::move(w.ret[a])); w.retId.push_back(w.retId[a]); w.retId[a] = 0; } break;
		case 7: if(R) { size_t a = any(); s.log("reset %d", w.retId[a]); if(s.flip()) w.ret[a].reset(); else w.ret[a] = nullptr; int old = w.retId[a]; w.retId[a] = 0; w.dec(old); } break;
		case 8: if(R) { size_t a = any(), b = any(); s.log("swap"); w.ret[a].swap(w.ret[b]); std::swap(w.retId[a], w.retId[b]); } break;
		case 9: if(R && w.subs.size()) { size_t a = any(), b = s.below(w.subs.size()); s.log("assign from derived"); int old = w.retId[a];
			if(s.flip()) { w.ret[a] = w.subs[b]; w.retId[a] = w.subId[b]; w.inc(w.subId[b]); w.dec(old); }
			else { w.ret[a] = std::move(w.subs[b]); PBT_ASSERT(w.subs[b].empty()); w.retId[a] = w.subId[b]; w.subs.erase(w.subs.begin() + b); w.subId.erase(w.subId.begin() + b); w.dec(old); } } break;
		case 10: if(w.subs.size()) { size_t b = s.below(w.subs.size()); s.log("construct from derived");
			if(s.flip()) { w.ret.push_back(Retainer<Obj>(w.subs[b])); w.inc(w.subId[b]); w.retId.push_back(w.subId[b]); }
			else { Retainer<Obj> t(std::move(w.subs[b])); w.ret.push_back(t); w.retId.push_back(w.subId[b]); PBT_ASSERT(w.subs[b].empty()); w.subs.erase(w.subs.begin() + b); w.subId.erase(w.subId.begin() + b); } } break;
		case 11: if(R) { size_t a = any(); int id = w.retId[a]; if(!id) break; s.log("share_ref %d", id);
			if(s.flip()) { w.sh.push_back(share_ref(w.ret[a].get())); w.inc(id); }
			else { w.ret[a]->retain(); w.sh.push_back(share_ref(w.ret[a].get(), false)); w.inc(id); }
			w.shId.push_back(id); } break;
		case 12: if(w.sh.size()) { size_t a = s.below(w.sh.size()); s.log("drop shared %d", w.shId[a]);
			if(s.chance(1, 3)) { auto copy = w.sh[a]; w.sh[a].reset(); PBT_ASSERT(Obj::alive.count(copy.get())); }
			int id = w.shId[a]; w.sh.erase(w.sh.begin() + a); w.shId.erase(w.shId.begin() + a); w.dec(id); } break;
		case 13: if(R) { size_t a = any(); int id = w.retId[a]; if(!id) break; s.log("raw retain %d", id); if(s.flip()) w.ret[a]->retain(); else Object::retain(w.ret[a].get()); w.raw.push_back(id); w.inc(id); } break;
		case 14: if(w.raw.size()) { size_t a = s.below(w.raw.size()); int id = w.raw[a]; s.log("raw release %d", id); if(s.flip()) w.ptr[id]->release(); else Object::release(w.ptr[id]); w.raw.erase(w.raw.begin() + a); w.dec(id); } break;
		case 15: if(R >= 2) { // references held by objects (kept acyclic: older objects hold newer ones)
			size_t a = any(), b = any(); int x = w.retId[a], y = w.retId[b]; if(!x || !y || x >= y) break;
			s.log("object %d holds %d", x, y);
			if(s.flip()) { w.ptr[x]->members.push_back(w.ret[b]); w.holds[x].push_back(y); w.inc(y); }
			else { w.ptr[x]->next = w.ret[b]; int old = w.nextOf[x]; w.nextOf[x] = y; w.inc(y); w.dec(old); }
			nested = true; } break;
		case 16: if(R) { // walk: r = r->next, the classic way to destroy the source while assigning from it
			size_t a = any(); int x = w.retId[a]; if(!x) break;
			int y = w.nextOf[x];
			s.log("advance %d to next %d", x, y);
			if(s.flip()) { w.ret[a] = w.ret[a]->next; w.retId[a] = y; w.inc(y); w.dec(x); }
			else { Retainer<Obj> &src = w.ret[a]->next; w.ret[a] = std::move(src); w.nextOf[x] = 0; w.retId[a] = y; w.dec(x); }
			s.label("advanced along a chain"); } break;
		case 17: if(R) { auto r2 = retain_ref(w.ret[any()].get()); Object::retain(nullptr); Object::release(nullptr); Retainer<Obj> none; PBT_ASSERT(none.empty() && none == nullptr); Retainer<Obj> nul(nullptr); PBT_ASSERT(!nul); } break;
		}
		w.check();
	}
	size_t created = w.ids;
	w.ret.clear(); w.subs.clear(); w.sh.clear();
	for(int id : w.raw) w.ptr[id]->release();
	PBT_CHECK(Obj::alive.empty(), "%zu objects leaked", Obj::alive.size());
	PBT_CHECK(Obj::deaths - deaths0 == created, "%zu created, %llu destroyed", created, (unsigned long long)(Obj::deaths - deaths0));
	if(created >= 2 && nested) s.nontrivial();
	s.label("objects", created);
	{ auto c = claim_ref(new Custom()); Retainer<Custom> d = c; c.reset(); PBT_ASSERT(Custom::live == 1); }
	PBT_ASSERT(Custom::live == 0);
}

pbt::Register r({"P37", "histories of up to 100 creations, copies, moves, assignments, swaps, resets, conversions, shared and raw references, references held by other objects and chain walks, against a reference-count model checked after every step. Non-trivial: at least two objects, one held by another.",
	{ {"references", history, 25000, 1200000} }, { "object graphs are acyclic" }});
}
