// P23: AMF0 against an independent tree model with its own encoder, decoder and JSON reader.
#include "pbt.hpp"
#include "guard.hpp"
#include "rtmfp/AMF.hpp"
#include <cmath>
#include <memory>
using namespace com::zenomt::rtmp;
using namespace pbt;

namespace {

enum K { NUM, BOOL, STR, OBJ, TOBJ, ECMA, ARR, NUL, UNDEF };
struct T;
using P = std::shared_ptr<T>;
struct T { K k; double n { 0 }; bool b { false }; std::string s; std::map<std::string, P> m; std::vector<P> a; };

uint64_t bits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
double fromBits(uint64_t u) { double d; memcpy(&d, &u, 8); return d; }

bool same(const P &x, const P &y)
{
	if(x->k != y->k || x->s != y->s || x->b != y->b || bits(x->n) != bits(y->n) || x->m.size() != y->m.size() || x->a.size() != y->a.size()) return false;
	for(auto &e : x->m) { auto it = y->m.find(e.first); if(it == y->m.end() || !same(e.second, it->second)) return false; }
	for(size_t i = 0; i < x->a.size(); i++) if(!same(x->a[i], y->a[i])) return false;
	return true;
}

void be(Bytes &d, uint64_t v, int n) { for(int i = n - 1; i >= 0; i--) d.push_back(uint8_t(v >> (8 * i))); }
void str(Bytes &d, const std::string &s, int n) { be(d, s.size(), n); d.insert(d.end(), s.begin(), s.end()); }

void enc(const P &t, Bytes &d)
{
	switch(t->k)
	{
	case NUM: d.push_back(0); be(d, bits(t->n), 8); break;
	case BOOL: d.push_back(1); d.push_back(t->b); break;
	case STR: if(t->s.size() > 65535) { d.push_back(12); str(d, t->s, 4); } else { d.push_back(2); str(d, t->s, 2); } break;
	case OBJ: d.push_back(3); break;
	case TOBJ: d.push_back(16); str(d, t->s, 2); break;
	case ECMA: d.push_back(8); be(d, t->m.size(), 4); break;
	case ARR: d.push_back(10); be(d, t->a.size(), 4); for(auto &e : t->a) enc(e, d); break;
	case NUL: d.push_back(5); break;
	case UNDEF: d.push_back(6); break;
	}
	if(t->k == OBJ || t->k == TOBJ || t->k == ECMA) { for(auto &e : t->m) { str(d, e.first, 2); enc(e.second, d); } d.push_back(0); d.push_back(0); d.push_back(9); }
}

struct Dec {
	const uint8_t *c, *l;
	bool need(size_t n) { return size_t(l - c) >= n; }
	uint64_t get(int n) { uint64_t v = 0; while(n--) v = v << 8 | *c++; return v; }
	bool gstr(int n, std::string &s) { if(!need(n)) return false; size_t L = get(n); if(!need(L)) return false; s.assign((const char *)c, L); c += L; return true; }
	P value(size_t depth)
	{
		if(depth > 32 || !need(1)) return nullptr;
		auto t = std::make_shared<T>();
		switch(get(1))
		{
		case 0: t->k = NUM; if(!need(8)) return nullptr; t->n = fromBits(get(8)); return t;
		case 1: t->k = BOOL; if(!need(1)) return nullptr; t->b = get(1) != 0; return t;
		case 2: t->k = STR; return gstr(2, t->s) ? t : nullptr;
		case 12: t->k = STR; return gstr(4, t->s) ? t : nullptr;
		case 3: t->k = OBJ; break;
		case 5: t->k = NUL; return t;
		case 6: case 13: t->k = UNDEF; return t;
		case 8: t->k = ECMA; if(!need(4)) return nullptr; c += 4; break;
		case 10: { t->k = ARR; if(!need(4)) return nullptr; uint64_t n = get(4); for(uint64_t i = 0; i < n; i++) { P e = value(depth + 1); if(!e) return nullptr; t->a.push_back(e); } return t; }
		case 16: t->k = TOBJ; if(!gstr(2, t->s)) return nullptr; break;
		default: return nullptr;
		}
		for(;;)
		{
			std::string key;
			if(!gstr(2, key)) return nullptr;
			if(!need(1)) return nullptr;
			if(key.empty() && *c == 9) { c++; return t; }
			P v = value(depth + 1);
			if(!v) return nullptr;
			t->m[key] = v;
		}
	}
};

std::shared_ptr<AMF0> build(Src &s, const P &t)
{
	switch(t->k)
	{
	case NUM: return AMF0::Number(t->n);
	case BOOL: return s.flip() ? AMF0::Boolean(t->b) : t->b ? AMF0::True() : AMF0::False();
	case STR: return AMF0::String(t->s);
	case NUL: return AMF0::Null();
	case UNDEF: return AMF0::Undefined();
	case OBJ: case TOBJ: case ECMA: {
		std::shared_ptr<AMF0Object> o = t->k == OBJ ? AMF0::Object() : t->k == ECMA ? std::shared_ptr<AMF0Object>(AMF0::ECMAArray()) : std::shared_ptr<AMF0Object>(AMF0::TypedObject(t->s.c_str()));
		for(auto &e : t->m) {
			if(e.second->k == UNDEF && s.chance(1, 3)) o->putValueAtKey(std::shared_ptr<AMF0>(), e.first);
			else if(s.flip()) o->putValueAtKey(build(s, e.second), e.first);
			else { auto v = build(s, e.second); o->putValueAtKey(v.get(), e.first); }
		}
		return o; }
	case ARR: {
		auto a = AMF0::Array();
		for(size_t i = 0; i < t->a.size(); i++) {
			if(t->a[i]->k == UNDEF && s.chance(1, 3)) { a->resize(i + 1); continue; }
			auto v = build(s, t->a[i]);
			switch(s.below(3)) { case 0: a->appendValue(v); break; case 1: a->putValueAtIndex(v, i); break; case 2: a->appendValue(v.get()); break; }
		}
		return a; }
	}
	return nullptr;
}

P read(const std::shared_ptr<AMF0> &v)
{
	auto t = std::make_shared<T>();
	PBT_ASSERT(v);
	int kinds = v->isNumber() + v->isBoolean() + v->isString() + v->isObject() + v->isNull() + v->isUndefined() + v->isArray();
	PBT_CHECK(kinds == 1, "value is of %d kinds", kinds);
	PBT_ASSERT(bool(v->asNumber()) == v->isNumber() && bool(v->asBoolean()) == v->isBoolean() && bool(v->asString()) == v->isString() && bool(v->asObject()) == v->isObject() && bool(v->asNull()) == v->isNull() && bool(v->asUndefined()) == v->isUndefined() && bool(v->asArray()) == v->isArray());
	PBT_ASSERT(bool(v->asECMAArray()) == v->isECMAArray() && bool(v->asTypedObject()) == v->isTypedObject() && !v->isDate() && !v->isXMLDocument() && AMF0::asNumber(v.get()) == v->asNumber());
	bool truthy = false;
	switch(v->getType())
	{
	case AMF0::AMF0_NUMBER: t->k = NUM; t->n = v->doubleValue(); truthy = t->n == t->n && t->n != 0; PBT_ASSERT(v->isNumber()); break;
	case AMF0::AMF0_BOOLEAN: t->k = BOOL; t->b = v->booleanValue(); truthy = t->b; PBT_ASSERT(v->isBoolean()); break;
	case AMF0::AMF0_STRING: t->k = STR; t->s.assign(v->stringValue(), v->asString()->size()); truthy = t->s.size(); break;
	case AMF0::AMF0_NULL: t->k = NUL; PBT_ASSERT(v->isNull()); break;
	case AMF0::AMF0_UNDEFINED: t->k = UNDEF; PBT_ASSERT(v->isUndefined()); break;
	case AMF0::AMF0_ARRAY: { t->k = ARR; truthy = true; auto a = v->asArray(); PBT_ASSERT(a); for(size_t i = 0; i < a->size(); i++) t->a.push_back(read(a->getValueAtIndex(i))); PBT_ASSERT(a->getValueAtIndex(a->size())->isUndefined()); break; }
	case AMF0::AMF0_OBJECT: t->k = OBJ; PBT_ASSERT(v->isObject() && !v->isTypedObject() && !v->isECMAArray()); break;
	case AMF0::AMF0_TYPED_OBJECT: t->k = TOBJ; PBT_ASSERT(v->isTypedObject()); t->s = v->asTypedObject()->className(); break;
	case AMF0::AMF0_ECMAARRAY: t->k = ECMA; PBT_ASSERT(v->isECMAArray()); break;
	default: PBT_FAIL("type");
	}
	if(v->isObject())
	{
		truthy = true;
		auto o = v->asObject();
		for(auto &e : *o) { t->m[e.first] = e.second ? read(e.second) : std::make_shared<T>(T { UNDEF }); PBT_ASSERT(o->has(e.first)); if(e.second) PBT_ASSERT(o->getValueAtKey(e.first) == e.second); }
		PBT_ASSERT(o->size() == t->m.size());
	}
	else PBT_ASSERT(v->getValueAtKey("x")->isUndefined());
	if(t->k != NUM) PBT_ASSERT(std::isnan(v->doubleValue()));
	PBT_CHECK(v->isTruthy() == truthy && bool(*v) == truthy, "truthiness is wrong");
	return t;
}

double number(Src &s)
{
	switch(s.below(8))
	{
	case 0: return double(int64_t(s.below(200)) - 100);
	case 1: return fromBits(s.u64()); // anything, including nan and denormals
	case 2: return (double(s.below(2000000)) - 1000000) / double(1 + s.below(10000));
	case 3: return s.pick(std::vector<double> { 0.0, -0.0, INFINITY, -INFINITY, NAN, 1e-4, 9.999999999999999e-5, 1e15, 1e16, 9007199254740993.0, 18446744073709549568.0, 18446744073709551616.0, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, 0.99999999999999989, 9.9999999999999982, 0.1, 0.3, 1e21, 1e22, 1e-5 });
	case 4: { double d = pow(10, double(s.irange(-20, 25))); uint64_t u = bits(d) + s.below(5) - 2; return fromBits(u); }
	case 5: return double(s.sized(UINT64_MAX));
	case 6: { uint64_t e = 1023 - 20 + s.below(90); return fromBits((s.flip() ? 1ull << 63 : 0) | e << 52 | (s.u64() & ((1ull << 52) - 1))); }
	default: return -double(s.sized(1ull << 40)) / 1024;
	}
}

std::string text(Src &s)
{
	switch(s.below(8))
	{
	case 0: return "";
	case 1: return s.text(s.len(12), "abcdefghij");
	case 2: { Bytes b = s.rawBytes(s.len(20)); return std::string(b.begin(), b.end()); }
	case 3: return s.text(s.len(10), std::string("\"\\/\b\f\n\r\t\x01\x1f\x7f\0az", 14));
	case 4: if(s.chance(1, 60)) { size_t n = s.pick(std::vector<size_t> { 65534, 65535, 65536, 65537, 70000 }); return std::string(n, 'L'); } return "x";
	default: return s.text(1 + s.below(3), "abc");
	}
}

P gen(Src &s, int depth, int &budget)
{
	auto t = std::make_shared<T>();
	budget--;
	size_t w = depth <= 0 || budget <= 0 ? s.weighted({ 4, 2, 4, 1, 1 }) : s.weighted({ 4, 2, 4, 1, 1, 3, 2, 2, 3 });
	t->k = (const K[]) { NUM, BOOL, STR, NUL, UNDEF, OBJ, TOBJ, ECMA, ARR }[w];
	switch(t->k)
	{
	case NUM: t->n = number(s); break;
	case BOOL: t->b = s.flip(); break;
	case STR: t->s = text(s); break;
	case TOBJ: t->s = s.text(s.len(10), "abcXYZ."); // then members
	case OBJ: case ECMA: { size_t n = s.len(6); for(size_t i = 0; i < n; i++) { std::string k = text(s); if(k.size() < 65536) t->m[k] = gen(s, depth - 1, budget); } } break;
	case ARR: { size_t n = s.len(6); for(size_t i = 0; i < n; i++) t->a.push_back(gen(s, depth - 1, budget)); } break;
	default: break;
	}
	return t;
}

size_t depthOf(const P &t) { size_t d = 0; for(auto &e : t->m) d = std::max(d, 1 + depthOf(e.second)); for(auto &e : t->a) d = std::max(d, 1 + depthOf(e)); return d; }
size_t countOf(const P &t) { size_t d = 1; for(auto &e : t->m) d += countOf(e.second); for(auto &e : t->a) d += countOf(e); return d; }

// --- strict JSON reader

struct J {
	const std::string &in; size_t i { 0 };
	explicit J(const std::string &s) : in(s) { }
	void ws() { while(i < in.size() && (in[i] == ' ' || in[i] == '\n' || in[i] == '\t' || in[i] == '\r')) i++; }
	[[noreturn]] void bad(const char *w) { PBT_FAIL("not well-formed JSON (%s at %zu): %s", w, i, quote(in).c_str()); }
	char peek() { if(i >= in.size()) bad("end"); return in[i]; }
	std::string str()
	{
		std::string r;
		if(peek() != '"') bad("string"); i++;
		for(;;)
		{
			unsigned char c = peek(); i++;
			if(c == '"') return r;
			if(c < 0x20) bad("control character");
			if(c == '\\')
			{
				char e = peek(); i++;
				switch(e) { case '"': case '\\': case '/': r.push_back(e); break; case 'b': r.push_back(8); break; case 'f': r.push_back(12); break; case 'n': r.push_back(10); break; case 'r': r.push_back(13); break; case 't': r.push_back(9); break;
				case 'u': { unsigned v = 0; for(int k = 0; k < 4; k++) { char h = peek(); i++; if(!isxdigit((unsigned char)h)) bad("hex"); v = v * 16 + (isdigit((unsigned char)h) ? h - '0' : (tolower(h) - 'a' + 10)); } if(v > 0x7f) bad("unexpected code point"); r.push_back(char(v)); } break;
				default: bad("escape"); }
			}
			else r.push_back(char(c));
		}
	}
	void number(double want)
	{
		size_t b = i;
		if(peek() == '-') i++;
		if(!isdigit((unsigned char)peek())) bad("number");
		if(in[i] == '0') i++; else while(i < in.size() && isdigit((unsigned char)in[i])) i++;
		if(i < in.size() && in[i] == '.') { i++; if(!isdigit((unsigned char)peek())) bad("fraction"); while(i < in.size() && isdigit((unsigned char)in[i])) i++; }
		if(i < in.size() && (in[i] == 'e' || in[i] == 'E')) { i++; if(peek() == '+' || peek() == '-') i++; if(!isdigit((unsigned char)peek())) bad("exponent"); while(i < in.size() && isdigit((unsigned char)in[i])) i++; }
		std::string tok = in.substr(b, i - b);
		if(std::isinf(want)) { double d = strtod(tok.c_str(), nullptr); PBT_CHECK(d == want, "infinity printed as %s", tok.c_str()); return; }
		long double v = strtold(tok.c_str(), nullptr);
		long double err = fabsl(v - (long double)want);
		PBT_CHECK(err <= fabsl((long double)want) * 5e-15L, "number %.17g printed as %s", want, tok.c_str());
		PBT_CHECK(std::signbit(want) == (tok[0] == '-'), "sign of %.17g printed as %s", want, tok.c_str());
	}
	void lit(const char *l) { size_t n = strlen(l); if(in.compare(i, n, l)) bad(l); i += n; }
	void value(const P &t)
	{
		ws();
		switch(t->k)
		{
		case NUM: if(std::isnan(t->n)) lit("null"); else number(t->n); break;
		case BOOL: lit(t->b ? "true" : "false"); break;
		case STR: { std::string r = str(); PBT_CHECK(r == t->s, "string %s printed as %s", quote(t->s).c_str(), quote(r).c_str()); } break;
		case NUL: case UNDEF: lit("null"); break;
		case ARR: if(peek() != '[') bad("array"); i++; for(size_t k = 0; k < t->a.size(); k++) { ws(); if(k) { if(peek() != ',') bad("comma"); i++; } value(t->a[k]); } ws(); if(peek() != ']') bad("end of array"); i++; break;
		default: {
			if(peek() != '{') bad("object"); i++;
			bool first = true;
			for(auto &e : t->m) if(e.second->k != UNDEF) { ws(); if(!first) { if(peek() != ',') bad("comma"); i++; ws(); } first = false; std::string r = str(); PBT_CHECK(r == e.first, "key %s printed as %s", quote(e.first).c_str(), quote(r).c_str()); ws(); if(peek() != ':') bad("colon"); i++; value(e.second); }
			ws(); if(peek() != '}') bad("end of object"); i++;
		} }
		ws();
	}
};

void checkJson(Src &s, const std::shared_ptr<AMF0> &v, const P &t)
{
	size_t indent = s.below(5);
	std::string j = v->toJSON(indent);
	J r(j);
	r.value(t);
	PBT_CHECK(r.i == j.size(), "JSON has trailing text: %s", quote(j).c_str());
	if(!indent) for(char c : j) { if(c == '\n') PBT_FAIL("compact JSON has a newline"); }
	PBT_ASSERT(v->repr(indent).size() > 0);
}

void roundTrip(Src &s)
{
	int budget = 60;
	P t = gen(s, s.irange(0, 6), budget);
	auto v = build(s, t);
	Bytes want; enc(t, want);
	Bytes got = AMF0::encode(v.get());
	PBT_CHECK(got == want, "encoded %s want %s", hex(got, 100).c_str(), hex(want, 100).c_str());
	PBT_CHECK(same(read(v), t), "value read back from the object differs");
	Bytes tail = s.bytes(s.len(12));
	Guarded g(want, tail);
	const uint8_t *c = g.p;
	auto d = AMF0::decode(&c, g.limit);
	PBT_CHECK(d, "own encoding refused: %s", hex(want, 100).c_str());
	PBT_CHECK(c == g.p + want.size(), "decode consumed %zu of %zu", size_t(c - g.p), want.size());
	PBT_CHECK(same(read(d), t), "decoded value differs");
	PBT_CHECK(AMF0::encode(d.get()) == want, "re-encoding differs");
	auto dup = v->duplicate();
	PBT_ASSERT(dup && dup != v && same(read(dup), t));
	// truncations are refused with the cursor unmoved
	for(int k = 0; k < 4 && want.size(); k++)
	{
		size_t n = s.below(want.size());
		Guarded h(Bytes(want.begin(), want.begin() + n));
		const uint8_t *p = h.p;
		auto x = AMF0::decode(&p, h.limit);
		PBT_CHECK(!x && p == h.p, "truncated value accepted or cursor moved");
	}
	checkJson(s, v, t);
	s.log("%s", v->toJSON(0).substr(0, 300).c_str());
	if(countOf(t) > 3) s.nontrivial();
	s.label(depthOf(t) >= 3 ? "depth 3 or more" : depthOf(t) ? "depth 1-2" : "scalar");
}

void lists(Src &s)
{
	std::vector<P> ts; std::vector<std::shared_ptr<AMF0>> vs; Bytes want;
	size_t n = s.len(6);
	for(size_t i = 0; i < n; i++) { int b = 8; ts.push_back(gen(s, 2, b)); vs.push_back(build(s, ts.back())); enc(ts.back(), want); }
	PBT_ASSERT(AMF0::encode(vs) == want);
	Bytes pre = s.bytes(3), app = pre; AMF0::encode(vs, app);
	PBT_ASSERT(Bytes(app.begin() + 3, app.end()) == want && Bytes(app.begin(), app.begin() + 3) == pre);
	Guarded g(want);
	std::vector<std::shared_ptr<AMF0>> out;
	PBT_ASSERT(AMF0::decode(g.p, g.limit, out) && out.size() == n);
	for(size_t i = 0; i < n; i++) PBT_ASSERT(same(read(out[i]), ts[i]));
	if(n > 1) s.nontrivial();
}

void depth(Src &s)
{
	// chains of nested containers around the limit
	size_t n = 26 + s.below(12);
	if(s.chance(1, 20)) n = 33 + s.below(60000);
	auto leaf = std::make_shared<T>(); leaf->k = NUL;
	P t = leaf;
	Bytes want;
	int kind = s.irange(0, 4);
	std::vector<int> kinds;
	for(size_t i = 0; i < n; i++) kinds.push_back(kind == 4 ? s.irange(0, 3) : kind);
	Bytes head, foot;
	for(size_t i = 0; i < n; i++) switch(kinds[i])
	{
	case 0: head.push_back(3); head.push_back(0); head.push_back(1); head.push_back('k'); break;
	case 1: head.push_back(10); be(head, 1, 4); break;
	case 2: head.push_back(8); be(head, 1, 4); head.push_back(0); head.push_back(0); break;
	case 3: head.push_back(16); str(head, "C", 2); head.push_back(0); head.push_back(1); head.push_back('k'); break;
	}
	for(size_t i = n; i-- > 0; ) if(kinds[i] != 1) { foot.push_back(0); foot.push_back(0); foot.push_back(9); }
	Bytes b = head; bool truncated = s.chance(1, 3);
	if(!truncated) { b.push_back(5); b.insert(b.end(), foot.begin(), foot.end()); }
	Guarded g(b);
	const uint8_t *c = g.p;
	auto v = AMF0::decode(&c, g.limit);
	bool ok = !truncated && n <= 32;
	PBT_CHECK(bool(v) == ok, "nesting of %zu %s", n, v ? "accepted" : "refused");
	PBT_ASSERT(c == (ok ? g.limit : g.p));
	if(ok) { PBT_ASSERT(AMF0::encode(v.get()) == b); PBT_ASSERT(v->duplicate()); }
	s.label(ok ? "within the limit" : "beyond the limit");
	s.nontrivial();
}

void arbitrary(Src &s)
{
	Bytes b;
	if(s.flip()) { int budget = 20; P t = gen(s, 4, budget); enc(t, b); size_t m = 1 + s.below(4); for(size_t i = 0; i < m && b.size(); i++) { size_t at = s.below(b.size()); switch(s.below(4)) { case 0: b[at] = uint8_t(s.below(256)); break; case 1: b[at] = uint8_t(s.below(18)); break; case 2: b.erase(b.begin() + at); break; case 3: b.insert(b.begin() + at, uint8_t(s.below(18))); break; } } }
	else { size_t n = s.len(60); for(size_t i = 0; i < n; i++) b.push_back(s.chance(3, 4) ? uint8_t(s.below(18)) : uint8_t(s.below(256))); }
	if(s.chance(1, 10)) { Bytes h { 10, uint8_t(s.below(256)), 0xff, 0xff, 0xff }; b.insert(b.begin(), h.begin(), h.end()); }
	Guarded g(b);
	const uint8_t *c = g.p;
	auto v = AMF0::decode(&c, g.limit);
	Dec d { b.data(), b.data() + b.size() };
	P t = d.value(0);
	PBT_CHECK(bool(v) == bool(t), "decode of %s %s", hex(b, 200).c_str(), v ? "accepted" : "refused");
	if(!v) PBT_CHECK(c == g.p, "cursor moved by a failed decode");
	else
	{
		PBT_CHECK(size_t(c - g.p) == size_t(d.c - b.data()), "consumed %zu want %zu", size_t(c - g.p), size_t(d.c - b.data()));
		// class names with NUL bytes cannot be read back in full through className()
		P r = read(v);
		std::function<void(const P &)> cut = [&] (const P &x) { if(x->k == TOBJ) x->s = x->s.c_str(); for(auto &e : x->m) cut(e.second); for(auto &e : x->a) cut(e); };
		Bytes e1; enc(t, e1);
		PBT_CHECK(AMF0::encode(v.get()) == e1, "re-encoding of a decoded value differs");
		cut(t);
		PBT_CHECK(same(r, t), "decoded value differs from the reference decoder's");
		checkJson(s, v, t);
		if(countOf(t) > 1) s.nontrivial();
	}
	std::vector<std::shared_ptr<AMF0>> out;
	bool all = AMF0::decode(g.p, g.limit, out);
	Dec dl { b.data(), b.data() + b.size() }; size_t cnt = 0; bool allRef = true;
	while(dl.c < dl.l) { if(!dl.value(0)) { allRef = false; break; } cnt++; }
	PBT_ASSERT(all == allRef && out.size() == cnt);
	s.label(v ? "accepted" : "refused");
	s.log("%s", hex(b, 80).c_str());
}

void numbers(Src &s)
{
	auto t = std::make_shared<T>(); t->k = NUM; t->n = number(s);
	auto v = AMF0::Number(t->n);
	checkJson(s, v, t);
	s.log("%.17g %s", t->n, v->toJSON(0).c_str());
	if(t->n != floor(t->n) || fabs(t->n) > 1e15) s.nontrivial();
}

void containers(Src &s)
{
	// edits of objects and arrays
	auto o = AMF0::Object(); std::map<std::string, double> m;
	auto a = AMF0::Array(); std::vector<double> av; // NaN: empty slot
	size_t n = s.len(30);
	for(size_t i = 0; i < n; i++)
	{
		std::string k = text(s); double x = double(s.below(1000));
		switch(s.below(10))
		{
		case 0: case 1: o->putValueAtKey(AMF0::Number(x), k); if(k.size() < 65536) m[k] = x; break;
		case 2: if(s.flip()) { o->erase(k); m.erase(k); } else { std::string z = k.c_str(); o->erase(z.c_str()); m.erase(z); } break;
		case 3: if(s.chance(1, 5)) { o->clear(); m.clear(); } break;
		case 4: { uint32_t at = s.below(20); a->putValueAtIndex(AMF0::Number(x), at); if(at >= av.size()) av.resize(at + 1, NAN); av[at] = x; } break;
		case 5: a->appendValue(AMF0::Number(x)); av.push_back(x); break;
		case 6: { uint32_t at = s.below(24); a->reset(at); if(at < av.size()) av[at] = NAN; } break;
		case 7: { uint32_t from = s.below(24); size_t c = s.below(10); a->remove(from, c); for(size_t q = 0; q < c && from < av.size(); q++) av.erase(av.begin() + from); } break;
		case 8: { size_t z = s.below(24); a->resize(z); av.resize(z, NAN); } break;
		case 9: if(s.chance(1, 5)) { a->clear(); av.clear(); } break;
		}
		PBT_ASSERT(o->size() == m.size() && a->size() == av.size());
		for(auto &e : m) PBT_ASSERT(o->has(e.first) && o->getValueAtKey(e.first)->doubleValue() == e.second);
		PBT_ASSERT(o->getValueAtKey("not there")->isUndefined() && !o->has("not there"));
		for(size_t q = 0; q < av.size() + 2; q++) { auto v = a->getValueAtIndex(q); PBT_ASSERT(v); if(q >= av.size() || std::isnan(av[q])) PBT_ASSERT(v->isUndefined()); else PBT_ASSERT(v->doubleValue() == av[q]); }
	}
	if(n > 3) s.nontrivial();
}

pbt::Register r({"P23", "random trees of every supported type (numbers of any bit pattern, strings with any bytes, empty keys, null members, lengths around 65535), chains nested around the depth limit, mutated encodings and marker-biased byte strings in exactly sized buffers; compared with an independent encoder, decoder and JSON reader. Non-trivial: more than three values in a tree, an accepted container, a number with a fraction or above 1e15, every depth case.",
	{ {"round-trip", roundTrip, 12000, 900000}, {"value-lists", lists, 4000, 200000}, {"depth", depth, 1500, 60000}, {"arbitrary-bytes", arbitrary, 30000, 3000000}, {"numbers-in-json", numbers, 40000, 4000000}, {"container-edits", containers, 4000, 300000} },
	{ "date, XML and reference values are unsupported by the library and are expected to be refused" }});
}
