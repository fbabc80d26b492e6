#pragma once
// A small property-based testing engine.
//
// A case is a pure function of a sequence of bounded integer choices drawn from
// Src. The engine generates choice sequences from VERIF_SEED, runs cases in
// forked workers (so that crashes, sanitizer reports, uncaught exceptions and
// hangs are observed as failures of the case), shrinks the choice sequence of a
// failing case, replays it three times, and writes it as the replay file.

#include <cstdint>
#include <cstdio>
#include <cstdarg>
#include <cstring>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace pbt {

using Bytes = std::vector<uint8_t>;

class Src {
public:
	// uniform in [0, n); n == 0 means the full 64 bit range
	uint64_t below(uint64_t n);
	uint64_t range(uint64_t lo, uint64_t hi) { return lo + below(hi - lo + 1 == 0 ? 0 : hi - lo + 1); } // inclusive
	int irange(int lo, int hi) { return lo + int(below(uint64_t(int64_t(hi) - lo) + 1)); }
	// true with probability num/den; shrinks to false
	bool chance(unsigned num, unsigned den) { return below(den) >= den - num; }
	bool flip() { return chance(1, 2); }
	uint64_t u64() { return below(0); }
	// index distributed by weights; shrinks to 0
	size_t weighted(const std::vector<unsigned> &w);
	template<class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
	// magnitude-biased integer: small, boundary-ish and full range values, up to max
	uint64_t sized(uint64_t max);
	// [0,n] size biased small, occasionally large
	size_t len(size_t max);
	Bytes bytes(size_t n); // deterministic content, one choice for all (cheap)
	Bytes rawBytes(size_t n); // one choice per byte
	std::string text(size_t n, const std::string &alphabet);
	double unit() { return double(below(1u << 20)) / double(1u << 20); }

	// --- logging, classification
	bool verbose { false };
	std::string trace;
	void log(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
	void label(const char *name, uint64_t n = 1); // classification counters for the evidence file
	void nontrivial() { m_nontrivial = true; }
	bool isNontrivial() const { return m_nontrivial; }

	// --- engine internals
	uint64_t m_state { 0 };
	bool m_replay { false };
	const uint64_t *m_rec { nullptr };
	size_t m_recLen { 0 };
	size_t m_pos { 0 };
	bool m_nontrivial { false };
};

[[noreturn]] void fail(const char *file, int line, const char *fmt, ...) __attribute__((format(printf, 3, 4)));

#define PBT_FAIL(...) ::pbt::fail(__FILE__, __LINE__, __VA_ARGS__)
#define PBT_CHECK(cond, ...) do { if(!(cond)) ::pbt::fail(__FILE__, __LINE__, __VA_ARGS__); } while(0)
#define PBT_ASSERT(cond) do { if(!(cond)) ::pbt::fail(__FILE__, __LINE__, "%s", #cond); } while(0)

struct Sub {
	std::string name;
	std::function<void(Src &)> fn;
	unsigned long quick;     // cases in the quick tier
	unsigned long thorough;  // cases in the thorough tier
	bool timing { false };   // real time or threads involved: a failure that does not replay is inconclusive, not a violation
	unsigned cpuLimit { 60 }; // CPU seconds after which a case counts as hung
};

struct Prop {
	std::string id;
	std::string rule; // how cases are made and what is non-trivial
	std::vector<Sub> subs;
	std::vector<std::string> assumptions;
};

std::vector<Prop> &props();

struct Register {
	Register(const Prop &p) { props().push_back(p); }
};

// the text of known findings for a property: see known_findings.txt
bool isKnownFinding(const std::string &prop, const std::string &key);
void reportKnownFinding(const std::string &prop, const std::string &key); // prints the KNOWN-FINDING line at the end of the run

std::string hex(const void *p, size_t n, size_t max = 64);
inline std::string hex(const Bytes &b, size_t max = 64) { return hex(b.data(), b.size(), max); }
uint64_t hash64(const void *p, size_t n, uint64_t seed = 0);
uint64_t mix64(uint64_t x);
std::string quote(const std::string &s, size_t max = 200);

} // namespace pbt
