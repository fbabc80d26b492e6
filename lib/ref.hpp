#pragma once
// Independent reference encoders and decoders shared by several checks.
#include "pbt.hpp"

namespace ref {
using pbt::Bytes;

inline void putVLU(Bytes &d, uint64_t v)
{
	Bytes g;
	do { g.push_back(v % 128); v /= 128; } while(v);
	for(size_t i = g.size(); i-- > 0; ) d.push_back(g[i] | (i ? 0x80 : 0));
}

inline size_t getVLU(const uint8_t *p, size_t n, uint64_t *out)
{
	unsigned __int128 v = 0; bool over = false;
	for(size_t i = 0; i < n; i++)
	{
		v = v * 128 + (p[i] % 128);
		if(v > UINT64_MAX) { over = true; v = (unsigned __int128)UINT64_MAX + 1; }
		if(p[i] < 128) { *out = over ? UINT64_MAX : uint64_t(v); return i + 1; }
	}
	return 0;
}

struct Opt { bool marker = false; uint64_t type = 0; Bytes value; };

// one option at p: consumed or 0
inline size_t getOpt(const uint8_t *p, size_t n, Opt *o)
{
	uint64_t len, type;
	size_t a = getVLU(p, n, &len);
	if(!a || len > n - a) return 0;
	*o = Opt();
	if(!len) { o->marker = true; return a; }
	size_t b = getVLU(p + a, len, &type);
	if(!b) return 0;
	o->type = type;
	o->value.assign(p + a + b, p + a + len);
	return a + len;
}

inline void putOpt(Bytes &d, uint64_t type, const Bytes &value)
{
	Bytes t; putVLU(t, type);
	putVLU(d, t.size() + value.size());
	d.insert(d.end(), t.begin(), t.end());
	d.insert(d.end(), value.begin(), value.end());
}

inline Bytes vlu(uint64_t v) { Bytes r; putVLU(r, v); return r; }
inline Bytes str(const std::string &s) { return Bytes(s.begin(), s.end()); }

// random edits of a byte string
inline void mutate(pbt::Src &s, Bytes &b)
{
	int n = s.irange(1, 4);
	for(int i = 0; i < n; i++)
		switch(s.below(6))
		{
		case 0: if(b.size()) b.resize(s.below(b.size())); break;
		case 1: if(b.size()) b[s.below(b.size())] = s.below(256); break;
		case 2: if(b.size()) b[s.below(b.size())] ^= 1 << s.below(8); break;
		case 3: b.insert(b.begin() + s.below(b.size() + 1), uint8_t(s.below(256))); break;
		case 4: if(b.size()) b.erase(b.begin() + s.below(b.size())); break;
		case 5: { Bytes x = s.rawBytes(s.below(6)); b.insert(b.end(), x.begin(), x.end()); } break;
		}
}

} // namespace ref
