#pragma once
// bytes in an exactly sized heap allocation: with AddressSanitizer, any read past either end is reported
#include "pbt.hpp"
#include <cstdlib>
struct Guarded {
	uint8_t *p; const uint8_t *limit; size_t n;
	explicit Guarded(const pbt::Bytes &b, const pbt::Bytes &tail = pbt::Bytes()) {
		n = b.size() + tail.size();
		p = (uint8_t *)malloc(n ? n : 1);
		limit = p + n;
		if(b.size()) memcpy(p, b.data(), b.size());
		if(tail.size()) memcpy(p + b.size(), tail.data(), tail.size());
		if(!n) { free(p); p = (uint8_t *)malloc(16) + 16; limit = p; off = true; } // one past the end
	}
	~Guarded() { free(off ? p - 16 : p); }
	Guarded(const Guarded &) = delete;
	bool off { false };
};
