// P04: write receipts and receipt chains against a model.
#include "pbt.hpp"
#include "rtmfp/WriteReceipt.hpp"
#include <cmath>
using namespace com::zenomt;
using pbt::Src; using pbt::Register;

namespace {

struct R {
	std::shared_ptr<IssuerWriteReceipt> real;
	Time origin = 0, startBy = 0, finishBy = 0;
	int parent = -1, uses = 1;
	bool started = false, abandoned = false, finishedCalled = false, wasAbandoned = false;
	int calls = 0; // real callback
	bool finished() const { return abandoned || !uses; }
};

void chain(Src &s)
{
	std::vector<R> r;
	r.reserve(100);
	struct C { std::shared_ptr<WriteReceiptChain> real = share_ref(new WriteReceiptChain(), false); std::vector<int> in; };
	std::vector<C> chains(2);
	Time now = 100;
	std::string problem;
	unsigned inherited = 0, expired = 0;

	auto finish = [&](int i, bool ab) { if(r[i].finishedCalled) return; r[i].finishedCalled = true; r[i].wasAbandoned = ab; r[i].parent = -1; };
	auto abandon = [&](int i) { if(r[i].uses && !r[i].abandoned) { r[i].abandoned = true; finish(i, true); } };
	auto duration = [&]() -> Duration { return s.chance(1, 3) ? INFINITY : s.below(40) / 4.0; };

	for(int step = s.irange(5, 60); step--; )
	{
		int i = r.empty() ? -1 : int(s.below(r.size()));
		switch(i < 0 ? 0 : s.weighted({ 5, 5, 2, 2, 3, 1, 5, 3, 2, 2, 1, 1 }))
		{
		case 0: // issue a receipt, as for a written message
			{
				R x; Duration a = duration(), b = duration();
				x.origin = now; x.startBy = now + a; x.finishBy = now + b;
				x.real = share_ref(new IssuerWriteReceipt(now, a, b), false);
				x.real->useCountUp();
				size_t k = r.size();
				x.real->onFinished = [&, k](bool ab) {
					r[k].calls++;
					if(ab != r[k].real->isAbandoned() || !r[k].real->isFinished()) problem = "callback disagrees with the receipt";
				};
				s.log("%zu issued at %g start %g finish %g", k, double(now), double(x.startBy), double(x.finishBy));
				r.push_back(x);
			}
			// fall through: usually chain it
			i = int(r.size()) - 1;
			if(s.chance(1, 4)) break;
		case 1:
			{
				bool chained = false; for(auto &c : chains) for(int k : c.in) if(k == i) chained = true;
				if(chained || (r[i].finished())) break;
				int c = s.below(2);
				s.log("%d appended to chain %d", i, c);
				if(!chains[c].in.empty()) r[i].parent = chains[c].in.back();
				chains[c].real->append(r[i].real);
				chains[c].in.push_back(i);
				// a finished parent that was delivered has no effect
				break;
			}
		case 2: if(!r[i].finished()) { s.log("%d fragment", i); r[i].uses++; r[i].real->useCountUp(); } break;
		case 3: s.log("%d start", i); r[i].started = true; r[i].real->start(); break;
		case 4: if(r[i].uses) { s.log("%d fragment done", i); if(!--r[i].uses && !r[i].abandoned) finish(i, false); r[i].real->useCountDown(); } break;
		case 5: s.log("%d abandon", i); abandon(i); r[i].real->abandon(); break;
		case 6: // the issuer checks its queue in order
			s.log("check at %g", double(now));
			for(size_t k = 0; k < r.size(); k++)
			{
				bool byParent = r[k].parent >= 0 && r[r[k].parent].abandoned;
				if(!r[k].abandoned && (now > r[k].finishBy || (!r[k].started && now > r[k].startBy) || byParent)) { if(byParent && r[k].uses && !r[k].abandoned) inherited++; abandon(k); }
				r[k].real->abandonIfNeeded(now);
			}
			break;
		case 7: now += s.below(20) / 4.0; break;
		case 8:
			{
				int c = s.below(2); Time st = s.chance(1, 4) ? Time(INFINITY) : now + s.irange(-8, 30) / 4.0, fi = s.flip() ? st : s.chance(1, 4) ? Time(INFINITY) : now + s.irange(-8, 30) / 4.0;
				s.log("expire chain %d at %g/%g", c, double(st), double(fi));
				for(int k : chains[c].in) { if(!r[k].finished() && (st < r[k].startBy || fi < r[k].finishBy)) expired++; r[k].startBy = std::min(r[k].startBy, st); r[k].finishBy = std::min(r[k].finishBy, fi); }
				chains[c].in.clear();
				if(st == fi) chains[c].real->expire(st); else chains[c].real->expire(st, fi);
				break;
			}
		case 9: { Duration d = duration(); s.log("%d start within %g", i, double(d)); r[i].startBy = r[i].origin + d; r[i].real->setStartWithin(d); } break;
		case 10: { Duration d = duration(); s.log("%d finish within %g", i, double(d)); r[i].finishBy = r[i].origin + d; r[i].real->setFinishWithin(d); } break;
		case 11: chains[s.below(2)].real->append(nullptr); break;
		}
		PBT_CHECK(problem.empty(), "%s", problem.c_str());
		for(size_t k = 0; k < r.size(); k++)
		{
			auto &x = r[k];
			PBT_CHECK(x.real->isFinished() == x.finished() && x.real->isAbandoned() == x.abandoned && x.real->isDelivered() == (x.finished() && !x.abandoned) && x.real->isStarted() == x.started && x.real->createdAt() == x.origin,
				"receipt %zu finished %d abandoned %d started %d, want %d %d %d", k, x.real->isFinished(), x.real->isAbandoned(), x.real->isStarted(), x.finished(), x.abandoned, x.started);
			PBT_CHECK(x.calls == x.finishedCalled, "receipt %zu: finish callback ran %d times, want %d", k, x.calls, x.finishedCalled);
			if(!x.finished())
			{
				PBT_CHECK(x.real->startBy == x.startBy && x.real->finishBy == x.finishBy, "receipt %zu deadlines %g/%g want %g/%g", k, double(x.real->startBy), double(x.real->finishBy), double(x.startBy), double(x.finishBy));
				// the parent is the receipt chained before it; which finished receipts are still referred to does not matter unless they were abandoned
				WriteReceipt *p = x.real->parent.get();
				if(x.parent < 0) PBT_CHECK(!p, "receipt %zu has a parent", k);
				else if(!r[x.parent].finished() || r[x.parent].abandoned) PBT_CHECK(p == r[x.parent].real.get(), "receipt %zu does not have receipt %d as its parent", k, x.parent);
			}
		}
	}
	// a whole line of descent goes with its head
	auto head = share_ref(new IssuerWriteReceipt(now, INFINITY, INFINITY), false); head->useCountUp();
	auto line = share_ref(new WriteReceiptChain(), false); line->append(head);
	std::vector<std::shared_ptr<IssuerWriteReceipt>> kids;
	for(uint64_t n = s.below(8); n--; ) { auto k = share_ref(new IssuerWriteReceipt(now, INFINITY, INFINITY), false); k->useCountUp(); line->append(k); kids.push_back(k); }
	head->abandon();
	for(auto &k : kids) { k->abandonIfNeeded(now); PBT_CHECK(k->isAbandoned(), "descendant survived"); }
	for(auto &x : r) { x.real->onFinished = nullptr; }
	if(inherited || expired) s.nontrivial();
	if(inherited) s.label("abandoned with the parent");
	if(expired) s.label("expired by the chain");
}

Register r({"P04", "histories of issuing, chaining, starting, finishing, abandoning, checking and expiring receipts, compared with a model after every step; non-trivial: a receipt abandoned because of its parent, or a deadline lowered by expiring a chain", {
	{"chain", chain, 20000, 2000000},
}, { "a receipt is chained after it was issued, at most once; whether flows act on the receipts is P03" }});

} // namespace
