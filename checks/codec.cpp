// P27: Hex and checksums against independent definitions.
#include "pbt.hpp"
#include "guard.hpp"
#include "rtmfp/Hex.hpp"
#include "rtmfp/Checksums.hpp"
using namespace com::zenomt;
using namespace pbt;

namespace {

void encodeDecode(Src &s)
{
	Bytes b = s.flip() ? s.rawBytes(s.len(40)) : s.bytes(s.len(600));
	Guarded g(b);
	std::string want;
	for(uint8_t c : b) { char t[3]; snprintf(t, 3, "%02x", c); want += t; }
	PBT_ASSERT(Hex::encode(b) == want && Hex::encode(g.p, g.n) == want && Hex::encode(g.p, (const void *)g.limit) == want);
	// insert whitespace between bytes and vary the case
	std::string in; bool spaces = false;
	for(size_t i = 0; i < want.size(); i += 2)
	{
		while(s.chance(1, 6)) { in += s.pick(std::vector<char> { ' ', '\t', '\n', '\r', '\v', '\f' }); spaces = true; }
		for(int j = 0; j < 2; j++) in += s.flip() ? want[i + j] : char(toupper(want[i + j]));
	}
	if(s.chance(1, 4)) in += " ";
	Bytes pre = s.bytes(s.len(6)), dst = pre;
	PBT_CHECK(Hex::decode(in.c_str(), dst), "refused %s", quote(in).c_str());
	Bytes all = pre; all.insert(all.end(), b.begin(), b.end());
	PBT_CHECK(dst == all, "decoded %s from %s", hex(dst).c_str(), quote(in).c_str());
	if(b.size() > 1) s.nontrivial();
	if(spaces) s.label("with whitespace");
	s.log("%s", quote(in).c_str());
}

int refDigit(unsigned char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
bool refSpace(unsigned char c) { return c == ' ' || (c >= 9 && c <= 13); }

void arbitraryText(Src &s)
{
	std::string in;
	size_t n = s.len(40);
	static const std::string alpha = "0123456789abcdefABCDEF0123456789abcdef \t\n";
	bool wild = s.chance(1, 3);
	for(size_t i = 0; i < n; i++) in.push_back(wild && s.chance(1, 8) ? char(1 + s.below(255)) : alpha[s.below(alpha.size())]);
	// reference: whitespace is allowed between bytes, digits come in pairs, nothing else is allowed
	bool ok = true; Bytes ref; int hi = -1;
	for(unsigned char c : in)
	{
		int d = refDigit(c);
		if(d >= 0) { if(hi < 0) hi = d; else { ref.push_back(hi * 16 + d); hi = -1; } }
		else if(!(refSpace(c) && hi < 0)) { ok = false; break; }
	}
	if(hi >= 0) ok = false;
	Bytes pre = s.bytes(s.len(6)), dst = pre;
	char *exact = strdup(in.c_str());
	bool got = Hex::decode(exact, dst);
	PBT_CHECK(got == ok, "decode(%s) answered %d", quote(in).c_str(), got);
	Bytes all = pre; if(ok) all.insert(all.end(), ref.begin(), ref.end());
	PBT_CHECK(dst == all, "decode(%s) left %s", quote(in).c_str(), hex(dst).c_str());
	int b = in.size() >= 2 && refDigit(in[0]) >= 0 && refDigit(in[1]) >= 0 ? refDigit(in[0]) * 16 + refDigit(in[1]) : -1;
	PBT_ASSERT(Hex::decodeByte(exact) == b);
	for(unsigned char c : in) PBT_ASSERT(refDigit(c) >= 0 ? Hex::decodeDigit(char(c)) == refDigit(c) : Hex::decodeDigit(char(c)) < 0);
	free(exact);
	s.label(ok ? "accepted" : "refused");
	if(n > 2) s.nontrivial();
	s.log("%s %d", quote(in).c_str(), ok);
}

// polynomial long division over the bit string
uint32_t refCrcBe(uint32_t reg, const Bytes &b)
{
	for(uint8_t c : b) for(int i = 7; i >= 0; i--)
	{
		bool top = (reg >> 31) & 1, in = (c >> i) & 1;
		reg <<= 1;
		if(top != in) reg ^= 0x04C11DB7u;
	}
	return reg;
}
uint32_t rev32(uint32_t x) { uint32_t r = 0; for(int i = 0; i < 32; i++) if(x >> i & 1) r |= 1u << (31 - i); return r; }
uint8_t rev8(uint8_t x) { uint8_t r = 0; for(int i = 0; i < 8; i++) if(x >> i & 1) r |= 1 << (7 - i); return r; }
uint32_t refCrcLe(uint32_t reg, const Bytes &b) { Bytes t; for(uint8_t c : b) t.push_back(rev8(c)); return rev32(refCrcBe(rev32(reg), t)); }
// one's complement sum of big-endian words; a trailing odd byte counts as the low half of a word, as the repository's own test has it
uint16_t refIn(const Bytes &b)
{
	uint64_t sum = 0;
	for(size_t i = 0; i + 1 < b.size(); i += 2) sum += b[i] * 256u + b[i + 1];
	if(b.size() % 2) sum += b.back();
	while(sum > 0xffff) sum = (sum & 0xffff) + (sum >> 16);
	return uint16_t(~sum);
}

void checksums(Src &s)
{
	Bytes b;
	switch(s.below(4))
	{
	case 0: b = s.rawBytes(s.len(64)); break;
	case 1: b = s.bytes(s.len(2000)); break;
	case 2: b = Bytes(s.len(3000), 0xff); break;
	case 3: b = s.chance(1, 40) ? Bytes(s.below(131074), s.flip() ? 0xff : uint8_t(s.below(256))) : s.bytes(s.len(200)); break;
	}
	uint32_t init = s.flip() ? 0xffffffff : uint32_t(s.u64());
	for(size_t off : { size_t(0), size_t(1), size_t(s.below(16)) })
	{
		uint8_t *m = (uint8_t *)malloc(b.size() + off + 1);
		uint8_t *p = m + off;
		if(b.size()) memcpy(p, b.data(), b.size());
		uint8_t *ex = (uint8_t *)realloc(m, b.size() + off ? b.size() + off : 1); p = ex + off;
		PBT_CHECK(in_cksum(p, b.size()) == refIn(b), "in_cksum of %s (%zu) is %04x want %04x", hex(b).c_str(), b.size(), in_cksum(p, b.size()), refIn(b));
		PBT_ASSERT(crc32_be(init, p, b.size()) == refCrcBe(init, b) && crc32_le(init, p, b.size()) == refCrcLe(init, b));
		PBT_ASSERT(crc32_be(p, b.size()) == refCrcBe(0xffffffff, b) && crc32_le(p, b.size()) == refCrcLe(0xffffffff, b));
		size_t cut = s.below(b.size() + 1);
		PBT_ASSERT(crc32_le(crc32_le(init, p, cut), p + cut, b.size() - cut) == refCrcLe(init, b));
		PBT_ASSERT(crc32_be(crc32_be(init, p, cut), p + cut, b.size() - cut) == refCrcBe(init, b));
		free(ex);
	}
	// detection: a single changed bit always changes each checksum
	if(b.size())
	{
		Bytes c = b; size_t i = s.below(b.size()); c[i] ^= 1 << s.below(8);
		PBT_ASSERT(crc32_le(c.data(), c.size()) != crc32_le(b.data(), b.size()) && crc32_be(c.data(), c.size()) != crc32_be(b.data(), b.size()));
		PBT_ASSERT(in_cksum(c.data(), c.size()) != in_cksum(b.data(), b.size()));
	}
	if(b.size() > 2) s.nontrivial();
	s.label(b.size() % 2 ? "odd length" : "even length");
	s.log("%zu bytes %s", b.size(), hex(b, 16).c_str());
}

pbt::Register r({"P27", "byte strings up to 600 bytes with whitespace and case variation, arbitrary text over hex digits, whitespace and any other byte, and buffers up to 128 KiB at several alignments. Non-trivial: more than two bytes or characters.",
	{ {"hex-round-trip", encodeDecode, 30000, 900000}, {"hex-arbitrary-text", arbitraryText, 60000, 3000000}, {"checksums", checksums, 5000, 150000} }, {}});
}
