// P40: PacketAssembler against a byte-vector model.
#include "pbt.hpp"
#include "guard.hpp"
#include "rtmfp/rtmfp.hpp"
#include "rtmfp/packet.hpp"
#include "rtmfp/VLU.hpp"
#include "rtmfp/PacketAssembler.hpp"
using namespace com::zenomt::rtmfp;
using namespace pbt;

namespace {

void vlu(uintmax_t v, Bytes &d) { Bytes t; do { t.push_back(v % 128); v /= 128; } while(v); for(size_t i = t.size(); i-- > 0; ) d.push_back(t[i] | (i ? 0x80 : 0)); }

void history(Src &s)
{
	bool header = s.chance(3, 4);
	long ts = s.flip() ? -1 : long(s.below(65536)), tse = s.flip() ? -1 : long(s.below(65536));
	uint8_t flags = uint8_t(s.below(256));
	size_t front = s.flip() ? 0 : s.below(24);
	size_t hlen = header ? 1 + (ts >= 0 ? 2 : 0) + (tse >= 0 ? 2 : 0) : 0;
	size_t maxLen = front + hlen + (s.chance(1, 3) ? s.below(30) : s.chance(1, 3) ? 900 + s.below(400) : s.below(300));
	uint8_t *buf = (uint8_t *)malloc(maxLen ? maxLen : 1); // exactly sized: writing past the limit is a sanitizer report
	memset(buf, 0xa5, maxLen);
	Bytes model(front, 0xa5);
	PacketAssembler pa;
	if(header)
	{
		pa.init(buf, front, maxLen, flags, ts, tse);
		uint8_t f = (flags & ~0x0c) | (ts >= 0 ? 0x08 : 0) | (tse >= 0 ? 0x04 : 0);
		model.push_back(f);
		if(ts >= 0) { model.push_back(ts >> 8); model.push_back(ts); }
		if(tse >= 0) { model.push_back(tse >> 8); model.push_back(tse); }
	}
	else pa.init(buf, front, maxLen);
	s.log("front %zu max %zu header %zu", front, maxLen, hlen);
	auto same = [&] (const char *what) {
		PBT_CHECK(pa.toVector() == model, "after %s: packet %s want %s", what, hex(pa.toVector(), 200).c_str(), hex(model, 200).c_str());
		PBT_CHECK(pa.remaining() == maxLen - model.size(), "after %s: remaining %zu want %zu", what, pa.remaining(), maxLen - model.size());
	};
	same("init");
	bool open = false; size_t start = 0; unsigned refused = 0, committed = 0;
	size_t n = s.len(60);
	for(size_t i = 0; i < n; i++)
	{
		size_t rem = maxLen - model.size();
		auto dlen = [&] { return s.chance(1, 5) ? rem - std::min<size_t>(rem, s.below(4)) + s.below(3) : s.len(40); };
		auto put = [&] (bool ok, const Bytes &what, const char *name) {
			bool fits = what.size() <= rem;
			PBT_CHECK(ok == fits, "%s of %zu bytes with %zu remaining answered %d", name, what.size(), rem, ok);
			if(fits) model.insert(model.end(), what.begin(), what.end()); else refused++;
			s.log("%s %zu %s", name, what.size(), ok ? "ok" : "refused");
			same(name);
		};
		switch(s.weighted({ 4, 3, 3, 3, 3, 3, 4, 2, 1 }))
		{
		case 0: if(!open) { uint8_t t = uint8_t(s.below(256)); bool ok = pa.startChunk(t); put(ok, Bytes { t, 0, 0 }, "startChunk"); if(ok) { open = true; start = model.size(); } } break;
		case 1: { uint8_t b = uint8_t(s.below(256)); put(pa.push(b), Bytes { b }, "push byte"); } break;
		case 2: { Bytes b = s.bytes(dlen()); Guarded g(b); put(pa.push(g.p, g.n), b, "push bytes"); } break;
		case 3: { Bytes b = s.bytes(dlen()); put(pa.push(b), b, "push vector"); } break;
		case 4: { Bytes b = s.bytes(dlen()), w; vlu(b.size(), w); w.insert(w.end(), b.begin(), b.end()); put(s.flip() ? pa.pushField(b) : pa.pushField(b.data(), b.size()), w, "push field"); } break;
		case 5: { uintmax_t v = s.sized(UINT64_MAX); Bytes w; vlu(v, w); put(pa.pushVLU(v), w, "push VLU"); } break;
		case 6: if(open) { pa.commitChunk(); size_t L = model.size() - start; model[start - 2] = L >> 8; model[start - 1] = L; open = false; committed++; s.log("commit %zu", L); same("commit"); } break;
		case 7: pa.rollbackChunk(); if(open) { model.resize(start - 3); open = false; s.label("rolled back"); } s.log("rollback"); same("rollback"); break;
		case 8: if(header) { PBT_ASSERT(pa.getTimeCriticalFlag() == bool(model[front] & 0x80)); if(s.flip()) { pa.setTimeCriticalFlag(); model[front] |= 0x80; } PBT_ASSERT(pa.getTimeCriticalFlag() == bool(model[front] & 0x80)); same("time critical"); } break;
		}
	}
	if(refused) s.label("something did not fit", 1);
	if(committed) s.label("chunks committed", committed);
	if(refused && committed) s.nontrivial();
	free(buf);
}

pbt::Register r({"P40", "sequences of up to 60 chunk starts, pushes, commits and rollbacks into exactly sized buffers, with sizes biased to the space left. Non-trivial: at least one append was refused and one chunk committed.",
	{ {"history", history, 40000, 2000000} },
	{ "appends are made by a caller that has room for the packet header, as the constructor of every packet in the library ensures" }});
}
