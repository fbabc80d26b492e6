// P25: TC metadata, messages and media classification.
#include "pbt.hpp"
#include "guard.hpp"
#include "ref.hpp"
#include "rtmfp/TCMessage.hpp"
#include <cmath>
using namespace com::zenomt;
using namespace com::zenomt::rtmfp;
using namespace com::zenomt::rtmp;
using namespace pbt;

namespace {

void metadata(Src &s)
{
	uint32_t id = s.sized(UINT32_MAX);
	ReceiveOrder order = s.flip() ? RO_NETWORK : RO_SEQUENCE;
	s.log("id %u order %d", id, order);
	Bytes m = TCMetadata::encode(id, order), w { 'T', 'C', uint8_t(4 | (order == RO_NETWORK)) };
	ref::putVLU(w, id);
	PBT_CHECK(m == w, "encoded %s want %s", hex(m).c_str(), hex(w).c_str());
	Bytes tail = s.bytes(s.len(10));
	w.insert(w.end(), tail.begin(), tail.end());
	Guarded g(w);
	uint32_t id2 = ~id; ReceiveOrder o2 = RO_HOLD;
	PBT_ASSERT(TCMetadata::parse(g.p, g.limit, &id2, &o2) == m.size() && id2 == id && o2 == order);
	id2 = ~id; o2 = RO_HOLD;
	PBT_ASSERT(TCMetadata::parse(w, &id2, &o2) == m.size() && id2 == id && o2 == order);
	PBT_ASSERT(TCMetadata::parse(g.p, g.limit, nullptr, nullptr) == m.size());
	for(size_t c = 0; c < m.size(); c++) { Guarded t(Bytes(m.begin(), m.begin() + c)); PBT_CHECK(!TCMetadata::parse(t.p, t.limit, &id2, &o2), "truncated metadata accepted"); }
	if(id > 127) s.nontrivial();
}

void foreignMetadata(Src &s)
{
	Bytes b { 'T', 'C', uint8_t(s.flip() ? 4 | s.below(2) : s.below(256)) };
	ref::putVLU(b, s.chance(3, 4) ? s.sized(UINT32_MAX) : s.flip() ? UINT32_MAX + s.below(4) : s.sized(UINT64_MAX));
	if(s.flip()) ref::mutate(s, b);
	s.log("bytes %s", hex(b).c_str());
	uint64_t id = 0; size_t k = 0;
	bool ok = b.size() >= 4 && b[0] == 'T' && b[1] == 'C' && (b[2] & 4) && (k = ref::getVLU(b.data() + 3, b.size() - 3, &id)) && id <= UINT32_MAX;
	Guarded g(b);
	uint32_t id2 = 77; ReceiveOrder o2 = RO_HOLD;
	size_t n = TCMetadata::parse(g.p, g.limit, &id2, &o2);
	PBT_CHECK(n == (ok ? 3 + k : 0), "parsed %zu want %zu", n, ok ? 3 + k : 0);
	if(ok) PBT_CHECK(id2 == id && o2 == (b[2] & 1 ? RO_NETWORK : RO_SEQUENCE), "parsed id %u order %d", id2, o2);
	s.label(ok ? "accepted" : "refused");
	if(ok && k > 1) s.nontrivial();
}

void message(Src &s)
{
	uint8_t type = s.below(256); uint32_t ts = s.flip() ? s.sized(UINT32_MAX) : s.below(0) >> 32;
	Bytes payload = s.bytes(s.len(400));
	s.log("type %u time %u payload %zu", type, ts, payload.size());
	Bytes w { type, uint8_t(ts >> 24), uint8_t(ts >> 16), uint8_t(ts >> 8), uint8_t(ts) };
	w.insert(w.end(), payload.begin(), payload.end());
	Bytes m = TCMessage::message(type, ts, payload);
	PBT_CHECK(m == w, "message %s want %s", hex(m).c_str(), hex(w).c_str());
	PBT_ASSERT(m == TCMessage::message(type, ts, payload.data(), payload.size()));
	Guarded g(m);
	uint8_t t2 = ~type; uint32_t ts2 = ~ts;
	PBT_CHECK(TCMessage::parseHeader(g.p, g.limit, &t2, &ts2) == 5 && t2 == type && ts2 == ts, "header read back type %u time %u", t2, ts2);
	PBT_ASSERT(TCMessage::parseHeader(g.p, g.limit, nullptr, nullptr) == 5);
	for(size_t c = 0; c < 5; c++) { Guarded t(Bytes(m.begin(), m.begin() + c)); PBT_ASSERT(!TCMessage::parseHeader(t.p, t.limit, &t2, &ts2)); }
	if(ts > 0xffffff) s.nontrivial();
}

// reference AMF0 writing of the few kinds of values used here
void refString(Bytes &d, const std::string &v)
{
	if(v.size() > 65535) { d.push_back(12); for(int i = 24; i >= 0; i -= 8) d.push_back(v.size() >> i); }
	else { d.push_back(2); d.push_back(v.size() >> 8); d.push_back(v.size()); }
	d.insert(d.end(), v.begin(), v.end());
}
void refNumber(Bytes &d, double v) { uint64_t u; memcpy(&u, &v, 8); d.push_back(0); for(int i = 56; i >= 0; i -= 8) d.push_back(u >> i); }

std::shared_ptr<AMF0> genValue(Src &s, Bytes &w)
{
	switch(s.below(5))
	{
	case 0: w.push_back(5); return AMF0::Null();
	case 1: { double d = s.flip() ? double(s.below(100)) : std::ldexp(double(s.below(1 << 20)), s.irange(-30, 30)); refNumber(w, d); return AMF0::Number(d); }
	case 2: { bool b = s.flip(); w.push_back(1); w.push_back(b); return b ? AMF0::True() : AMF0::False(); }
	case 3: { std::string t = s.text(s.len(40), "abcXYZ 0_"); refString(w, t); return AMF0::String(t.c_str()); }
	default:
		{
			auto o = AMF0::Object(); w.push_back(3);
			std::map<std::string, int> keys; 
			for(uint64_t n = s.below(4); n--; ) keys[s.text(1 + s.below(4), "abc")] = 1;
			for(auto &k : keys) { Bytes kb; refString(kb, k.first); w.insert(w.end(), kb.begin() + 1, kb.end()); auto v = genValue(s, w); o->putValueAtKey(v, k.first.c_str()); }
			w.push_back(0); w.push_back(0); w.push_back(9);
			return o;
		}
	}
}

void command(Src &s)
{
	std::string name = s.chance(1, 30) ? std::string(s.flip() ? 65535 : 65536, 'n') : s.text(s.len(30), "abcdefXYZ_.");
	double tx = s.flip() ? double(s.below(100)) : std::ldexp(double(s.below(1 << 30)), s.irange(-10, 30));
	bool ext = s.flip();
	int form = s.irange(0, 4);
	if(form == 2 || form == 3) ext = false;
	Bytes w, tail;
	if(ext) w.push_back(0);
	refString(w, name); refNumber(w, tx);
	std::shared_ptr<AMF0> obj, info;
	std::vector<std::shared_ptr<AMF0>> args;
	Bytes got, framed;
	if(form == 4)
	{
		for(uint64_t n = s.below(5); n--; ) args.push_back(genValue(s, w));
		got = Message::command(name.c_str(), tx, args, ext);
		framed = TCMessage::command(name.c_str(), tx, args, ext);
	}
	else
	{
		if(s.flip()) obj = genValue(s, w); else w.push_back(5);
		if(form < 2)
		{
			for(uint64_t n = s.below(4); n--; ) args.push_back(genValue(s, tail));
			w.insert(w.end(), tail.begin(), tail.end());
			got = form ? Message::command(name.c_str(), tx, obj.get(), tail, ext) : Message::command(name.c_str(), tx, obj.get(), tail.data(), tail.size(), ext);
			framed = form ? TCMessage::command(name.c_str(), tx, obj.get(), tail, ext) : TCMessage::command(name.c_str(), tx, obj.get(), tail.data(), tail.size(), ext);
		}
		else
		{
			// an info object that is not given adds nothing
			if(s.flip()) info = genValue(s, w);
			got = form == 2 ? Message::command(name.c_str(), tx, obj.get(), info.get()) : Message::command(name.c_str(), tx, obj.get(), info);
			framed = form == 2 ? TCMessage::command(name.c_str(), tx, obj.get(), info.get()) : TCMessage::command(name.c_str(), tx, obj.get(), info);
		}
	}
	s.log("form %d ext %d name %s tx %g", form, ext, quote(name, 40).c_str(), tx);
	PBT_CHECK(got == w, "command form %d is %s want %s", form, hex(got, 120).c_str(), hex(w, 120).c_str());
	Bytes f { uint8_t(ext ? 17 : 20), 0, 0, 0, 0 };
	f.insert(f.end(), w.begin(), w.end());
	PBT_CHECK(framed == f, "framed command is %s want %s", hex(framed, 120).c_str(), hex(f, 120).c_str());
	// and it decodes to exactly the name, transaction and arguments
	std::vector<std::shared_ptr<AMF0>> values;
	Guarded g(got);
	const uint8_t *cursor = g.p + (ext ? 1 : 0);
	PBT_CHECK(AMF0::decode(cursor, g.limit, values), "own command does not decode");
	PBT_ASSERT(values.size() >= 2 && values[0]->isString() && values[1]->isNumber());
	PBT_ASSERT(name == values[0]->stringValue() && values[1]->doubleValue() == tx);
	if(form != 4) PBT_ASSERT(values.size() == 3 + (form < 2 ? args.size() : info ? 1 : 0) && (obj || values[2]->isNull()));
	else PBT_ASSERT(values.size() == 2 + args.size());
	if(values.size() > 3 && ext) s.nontrivial();
}

// decision table, from the FLV and enhanced RTMP layouts
struct VideoClass { bool enhanced = false, multi = false, meta = false, init = false, special = false, key = false; uint32_t codec = 0; };
VideoClass refVideo(const Bytes &b)
{
	VideoClass c;
	if(b.empty()) { c.special = true; return c; }
	unsigned low = b[0] % 16, frame = b[0] / 16 % 8;
	c.enhanced = b[0] >= 128 && b.size() >= 5;
	if(c.enhanced)
	{
		c.multi = low == 6; c.meta = low == 4; c.init = low == 0 || low == 5;
		c.special = low != 1 && low != 3 && low != 6;
		if(!c.multi) for(int i = 1; i <= 4; i++) c.codec = c.codec * 256 + b[i];
	}
	else
	{
		c.codec = low;
		if(low == 7 && b.size() >= 2) { c.init = b[1] == 0; c.special = b[1] != 1; }
	}
	c.key = frame == 1 && !c.special;
	return c;
}
struct AudioClass { bool enhanced = false, multi = false, channels = false, init = false, end = false, special = false; uint32_t codec = 0; };
AudioClass refAudio(const Bytes &b)
{
	AudioClass c;
	if(b.empty()) { c.end = c.special = true; return c; }
	unsigned low = b[0] % 16, kind = b[0] / 16;
	c.enhanced = kind == 9 && b.size() >= 5;
	c.codec = kind * 16;
	if(c.enhanced)
	{
		c.multi = low == 5; c.channels = low == 4; c.init = low == 0;
		if(!c.multi) { c.codec = 0; for(int i = 1; i <= 4; i++) c.codec = c.codec * 256 + b[i]; }
	}
	else c.init = kind == 10 && b.size() >= 2 && b[1] == 0;
	c.end = b[0] == 0x92;
	c.special = c.end || c.init || c.channels;
	return c;
}

void classifyBytes(const Bytes &b)
{
	Guarded g(b); const uint8_t *p = g.p; size_t n = g.n;
	VideoClass v = refVideo(b);
	PBT_CHECK(Message::isVideoEnhanced(p, n) == v.enhanced, "isVideoEnhanced(%s)", hex(b).c_str());
	PBT_CHECK(Message::isVideoEnhancedMultitrack(p, n) == v.multi, "isVideoEnhancedMultitrack(%s)", hex(b).c_str());
	PBT_CHECK(Message::isVideoEnhancedMetadata(p, n) == v.meta, "isVideoEnhancedMetadata(%s)", hex(b).c_str());
	PBT_CHECK(Message::isVideoInit(p, n) == v.init, "isVideoInit(%s)", hex(b).c_str());
	PBT_CHECK(Message::isVideoSequenceSpecial(p, n) == v.special, "isVideoSequenceSpecial(%s)", hex(b).c_str());
	PBT_CHECK(Message::isVideoKeyframe(p, n) == v.key, "isVideoKeyframe(%s)", hex(b).c_str());
	PBT_CHECK(Message::getVideoCodec(p, n) == v.codec, "getVideoCodec(%s) = %x want %x", hex(b).c_str(), Message::getVideoCodec(p, n), v.codec);
	AudioClass a = refAudio(b);
	PBT_CHECK(Message::isAudioEnhanced(p, n) == a.enhanced, "isAudioEnhanced(%s)", hex(b).c_str());
	PBT_CHECK(Message::isAudioEnhancedMultitrack(p, n) == a.multi, "isAudioEnhancedMultitrack(%s)", hex(b).c_str());
	PBT_CHECK(Message::isAudioEnhancedMultichannelConfig(p, n) == a.channels, "isAudioEnhancedMultichannelConfig(%s)", hex(b).c_str());
	PBT_CHECK(Message::isAudioInit(p, n) == a.init, "isAudioInit(%s)", hex(b).c_str());
	PBT_CHECK(Message::isAudioSequenceEnd(p, n) == a.end, "isAudioSequenceEnd(%s)", hex(b).c_str());
	PBT_CHECK(Message::isAudioSequenceSpecial(p, n) == a.special, "isAudioSequenceSpecial(%s)", hex(b).c_str());
	PBT_CHECK(Message::getAudioCodec(p, n) == a.codec, "getAudioCodec(%s) = %x want %x", hex(b).c_str(), Message::getAudioCodec(p, n), a.codec);
}

// every combination of the bytes that matter, at one second byte per case
void classify(Src &s)
{
	uint8_t second = s.flip() ? s.below(4) : s.below(256);
	Bytes fill = s.rawBytes(3);
	s.log("second byte %u rest %s", second, hex(fill).c_str());
	for(int first = 0; first < 256; first++)
		for(size_t n = 0; n <= 7; n++)
		{
			Bytes b { uint8_t(first), second, fill[0], fill[1], fill[2], 1, 2 };
			b.resize(n);
			classifyBytes(b);
		}
	s.nontrivial();
}

void endOfSequence(Src &s)
{
	static const std::vector<uint32_t> known { 7, 0x61763031, 0x61766331, 0x68766331, 0x76703038, 0x76703039, 0, 2, 15, 16 };
	uint32_t codec = s.flip() ? s.pick(known) : s.sized(UINT32_MAX);
	Bytes b = Message::makeVideoEndOfSequence(codec);
	s.log("codec %x: %s", codec, hex(b).c_str());
	Bytes w;
	if(codec > 15) { w = { 0x92 }; for(int i = 24; i >= 0; i -= 8) w.push_back(codec >> i); }
	else if(codec == 7) w = { 0x17, 2, 0, 0, 0 };
	PBT_CHECK(b == w, "end of sequence %s want %s", hex(b).c_str(), hex(w).c_str());
	Guarded g(b);
	PBT_CHECK(Message::isVideoSequenceSpecial(g.p, g.n) && !Message::isVideoKeyframe(g.p, g.n) && !Message::isVideoInit(g.p, g.n), "end of sequence not classified as special");
	if(codec > 15 || codec == 7) { PBT_ASSERT(Message::getVideoCodec(g.p, g.n) == codec); s.nontrivial(); }
}

void timestamps(Src &s)
{
	uint32_t l = s.flip() ? s.sized(UINT32_MAX) : s.below(1ull << 32), r = s.chance(3, 4) ? l + uint32_t(s.chance(1, 3) ? s.irange(-5, 5) : s.flip() ? int64_t(0x80000000u) + s.irange(-3, 3) : int64_t(s.below(1ull << 32))) : s.sized(UINT32_MAX);
	s.log("l %u r %u", l, r);
	uint32_t fwd = l - r; // how far l is after r, going round
	bool gt = Message::timestamp_gt(l, r), lt = Message::timestamp_lt(l, r);
	int32_t d = Message::timestamp_diff(l, r);
	PBT_ASSERT(lt == Message::timestamp_gt(r, l));
	PBT_CHECK(uint32_t(d) == fwd, "timestamp_diff(%u, %u) = %d is not congruent to the difference", l, r, d);
	if(fwd != 0x80000000u)
	{
		bool after = fwd != 0 && fwd < 0x80000000u;
		PBT_CHECK(gt == after && lt == (fwd != 0 && !after), "timestamp order of %u and %u: gt %d lt %d", l, r, gt, lt);
		PBT_CHECK(d == -Message::timestamp_diff(r, l), "difference not antisymmetric");
		PBT_CHECK((d > 0) == gt && (d < 0) == lt, "difference %d disagrees with the order", d);
		if((l < r) == after) s.nontrivial(); // wrapped
	}
	else { s.label("half way round"); }
}

Register r({"P25", "fields encoded by the library and by an independent writer, edited metadata, and every first byte and length of media payloads per case; non-trivial: multi-byte ids, extended commands with arguments, wrapped timestamps", {
	{"metadata", metadata, 20000, 2000000},
	{"foreign-metadata", foreignMetadata, 30000, 3000000},
	{"message", message, 20000, 2000000},
	{"command", command, 15000, 1000000},
	{"classify", classify, 400, 20000},
	{"end-of-sequence", endOfSequence, 5000, 300000},
	{"timestamps", timestamps, 40000, 5000000},
}, { "two timestamps exactly half way round apart have no defined order" }});

} // namespace
