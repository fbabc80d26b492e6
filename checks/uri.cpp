// P26: URI splitting, reference resolution, percent coding and splitting helpers.
#include "pbt.hpp"
#include "rtmfp/URIParse.hpp"
using namespace com::zenomt;
using namespace pbt;

namespace {

// reference decomposition, one character at a time (RFC 3986 appendix B; a scheme starts with a letter)
struct RefUri {
	std::string scheme, authority, path, query, fragment;
	bool hasScheme = false, hasAuthority = false, hasQuery = false, hasFragment = false;
	RefUri(const std::string &s)
	{
		size_t i = 0;
		std::string run;
		for(size_t k = 0; k < s.size() && s[k] != '/' && s[k] != '?' && s[k] != '#'; k++)
		{
			if(s[k] == ':') { hasScheme = run.size() && ((run[0] | 32) >= 'a' && (run[0] | 32) <= 'z' && !(run[0] & 0x80)); if(hasScheme) { scheme = run; i = k + 1; } break; }
			run += s[k];
		}
		if(s.compare(i, 2, "//") == 0) { hasAuthority = true; for(i += 2; i < s.size() && !strchr("/?#", s[i]) | (i < s.size() && !s[i]); i++) authority += s[i]; }
		for(; i < s.size() && s[i] != '?' && s[i] != '#'; i++) path += s[i];
		if(i < s.size() && s[i] == '?') { hasQuery = true; for(i++; i < s.size() && s[i] != '#'; i++) query += s[i]; }
		if(i < s.size()) { hasFragment = true; fragment = s.substr(i + 1); }
	}
	std::string text() const { return (hasScheme ? scheme + ":" : "") + (hasAuthority ? "//" + authority : "") + path + (hasQuery ? "?" + query : "") + (hasFragment ? "#" + fragment : ""); }
};

std::string lower(std::string s) { for(auto &c : s) if(c >= 'A' && c <= 'Z') c += 32; return s; }

std::string genSegment(Src &s)
{
	switch(s.below(8))
	{
	case 0: return "";
	case 1: return ".";
	case 2: return "..";
	case 3: return s.text(1 + s.below(3), ".a");
	default: return s.text(s.len(12), "abcXYZ019-._~%!$&'()*+,;=:@");
	}
}
std::string genPath(Src &s) { std::string p = s.flip() ? "/" : ""; for(uint64_t n = s.below(6); n--; ) { p += genSegment(s); if(n || s.flip()) p += "/"; } return p; }
std::string genAuthority(Src &s)
{
	std::string a;
	if(s.chance(1, 3)) { a += s.text(s.len(8), "abU%41!;"); if(s.flip()) a += ":" + s.text(s.len(8), "abP%41!;:"); a += "@"; }
	switch(s.below(4)) { case 0: a += "[" + s.text(s.len(20), "0123456789abcdef:.v") + "]"; break; case 1: break; default: a += s.text(s.len(15), "abcHOST.-0123456789%"); }
	if(s.flip()) a += ":" + s.text(s.len(5), "0123456789");
	return a;
}
std::string genUri(Src &s)
{
	if(s.chance(1, 5)) return s.text(s.len(30), "abZ01:/?#@[].%-_\n\r \xff" + std::string(1, '\0'));
	static const std::vector<std::string> schemes { "http", "HTTPS", "ws", "wss", "rtmfp", "RTMP", "rtmps", "a", "x+y-z.1", "1a", "Rtmfp" };
	std::string u;
	if(s.chance(3, 4)) u += s.pick(schemes) + ":";
	if(s.chance(3, 4)) u += "//" + genAuthority(s);
	std::string p = genPath(s);
	if(p.size() && p[0] != '/' && u.size() && u.back() != ':') p = "/" + p;
	u += p;
	if(s.chance(1, 3)) u += "?" + s.text(s.len(12), "abc=&/?%20:@\n");
	if(s.chance(1, 3)) u += "#" + s.text(s.len(12), "abc=&/?%20:@#\r\n");
	return u;
}

void check(const std::string &text, const URIParse &u)
{
	RefUri r(text);
	PBT_ASSERT(r.text() == text); // the reference loses nothing
#define SAME(what, want) do { std::string w_ = (want); PBT_CHECK(u.what == w_, "%s of %s is %s, want %s", #what, quote(text).c_str(), quote(u.what).c_str(), quote(w_).c_str()); } while(0)
	SAME(uri, text);
	SAME(scheme, r.scheme);
	SAME(schemePart, r.hasScheme ? r.scheme + ":" : "");
	SAME(canonicalScheme, lower(r.scheme));
	SAME(authority, r.authority);
	SAME(authorityPart, r.hasAuthority ? "//" + r.authority : "");
	SAME(path, r.path);
	SAME(hierpart, (r.hasAuthority ? "//" + r.authority : "") + r.path);
	SAME(query, r.query);
	SAME(queryPart, r.hasQuery ? "?" + r.query : "");
	SAME(fragment, r.fragment);
	SAME(fragmentPart, r.hasFragment ? "#" + r.fragment : "");
	PBT_CHECK(u.schemePart + u.hierpart + u.queryPart + u.fragmentPart == text, "parts of %s do not reassemble", quote(text).c_str());
	PBT_CHECK(u.userinfoPart + u.hostinfo == u.authority && u.user + u.passwordPart == u.userinfo, "authority of %s does not reassemble", quote(text).c_str());
	// user info: up to the first @; user up to the first colon in it
	std::string user, pass, ui, host;
	bool hasUi = r.authority.find('@') != std::string::npos, hasPass = false;
	if(hasUi)
	{
		for(char c : r.authority) { if(c == '@') break; ui += c; if(c == ':' && !hasPass) hasPass = true; else (hasPass ? pass : user) += c; }
		host = r.authority.substr(ui.size() + 1);
	}
	else host = r.authority;
	// a second colon inside the password cannot be part of the user's name
	SAME(userinfo, ui); SAME(userinfoPart, hasUi ? ui + "@" : "");
	SAME(user, user); SAME(password, pass); SAME(passwordPart, hasPass ? ":" + pass : "");
	SAME(hostinfo, host);
	// well formed host [ ":" port ]
	std::string h, p;
	size_t i = 0;
	bool ok = true;
	if(host.size() && host[0] == '[') { for(i = 1; i < host.size() && host[i] != ']'; i++) h += host[i]; ok = i < host.size() && h.size(); i++; }
	else for(; i < host.size() && host[i] != ':'; i++) h += host[i];
	if(ok && i < host.size()) { ok = host[i] == ':'; p = host.substr(i + 1); for(char c : p) if(c < '0' || c > '9') ok = false; }
	if(ok) { SAME(host, h); SAME(port, p); }
	else p = u.port;
	std::string eff = p, sch = lower(r.scheme);
	if(eff.empty() && host.size()) eff = sch == "http" || sch == "ws" ? "80" : sch == "https" || sch == "wss" || sch == "rtmps" ? "443" : sch == "rtmfp" || sch == "rtmp" ? "1935" : "";
	SAME(effectivePort, eff);
	SAME(origin, r.scheme.size() && host.size() ? r.scheme + "://" + host : "");
	SAME(publicUri, (r.hasScheme ? r.scheme + ":" : "") + (r.hasAuthority ? "//" + host : "") + r.path + (r.hasQuery ? "?" + r.query : ""));
}

void parse(Src &s)
{
	std::string t = genUri(s);
	s.log("%s", quote(t).c_str());
	URIParse u(t);
	check(t, u);
	// an object can be used again
	std::string t2 = genUri(s);
	s.log("then %s", quote(t2).c_str());
	u.parse(t2);
	check(t2, u);
	RefUri r(t);
	if(r.hasAuthority && r.path.size() && r.hasScheme) s.nontrivial();
}

void longUri(Src &s)
{
	std::string t = "rtmfp://h/";
	size_t n = 1000 + s.below(120000);
	switch(s.below(5)) { case 0: t += std::string(n, 'a'); break; case 1: t = std::string(n, 'a') + ":b"; break; case 2: t = "x://" + std::string(n, 'h') + ":1/"; break; case 3: t += "?" + std::string(n, '?') + "#" + std::string(n, '#'); break; default: t = "x://" + std::string(n, 'u') + ":" + std::string(n, 'p') + "@h"; }
	s.log("%zu characters: %s", t.size(), quote(t, 40).c_str());
	check(t, URIParse(t));
	s.nontrivial();
}

// RFC 3986 5.2.4, literally
std::string refDots(std::string in)
{
	std::string out;
	auto starts = [&](const char *p) { return in.compare(0, strlen(p), p) == 0; };
	while(in.size())
	{
		if(starts("../")) in = in.substr(3);
		else if(starts("./")) in = in.substr(2);
		else if(starts("/./")) in = in.substr(2);
		else if(in == "/.") in = "/";
		else if(starts("/../") || in == "/..") { in = in == "/.." ? "/" : in.substr(3); size_t k = out.rfind('/'); out = k == std::string::npos ? "" : out.substr(0, k); }
		else if(in == "." || in == "..") in = "";
		else { size_t k = 0; if(in[0] == '/') k = 1; while(k < in.size() && in[k] != '/') k++; out += in.substr(0, k); in = in.substr(k); }
	}
	return out;
}

std::string refMerge(const RefUri &b, const std::string &rel)
{
	if(b.hasAuthority && b.path.empty()) return "/" + rel;
	std::string d = b.path;
	while(d.size() && d.back() != '/') d.pop_back();
	return d + rel;
}

std::string refResolve(const std::string &base, const std::string &ref)
{
	RefUri b(base), r(ref), t("");
	t.fragment = r.fragment; t.hasFragment = r.hasFragment;
	auto copyAuth = [&](const RefUri &x) { t.authority = x.authority; t.hasAuthority = x.hasAuthority; };
	auto copyQuery = [&](const RefUri &x) { t.query = x.query; t.hasQuery = x.hasQuery; };
	auto copyScheme = [&](const RefUri &x) { t.scheme = x.scheme; t.hasScheme = x.hasScheme; };
	if(r.hasScheme) { copyScheme(r); copyAuth(r); t.path = refDots(r.path); copyQuery(r); return t.text(); }
	copyScheme(b);
	if(r.hasAuthority) { copyAuth(r); t.path = refDots(r.path); copyQuery(r); return t.text(); }
	copyAuth(b);
	if(r.path.empty()) { t.path = b.path; copyQuery(r.hasQuery ? r : b); }
	else { t.path = refDots(r.path[0] == '/' ? r.path : refMerge(b, r.path)); copyQuery(r); }
	return t.text();
}

void resolve(Src &s)
{
	std::string base = genUri(s), rel = s.flip() ? genUri(s) : genPath(s) + (s.chance(1, 3) ? "?q" : "") + (s.chance(1, 3) ? "#f" : "");
	s.log("base %s reference %s", quote(base).c_str(), quote(rel).c_str());
	URIParse u(base);
	std::string got = u.transformRelativeReference(rel), want = refResolve(base, rel);
	PBT_CHECK(got == want, "%s in %s is %s, want %s", quote(rel).c_str(), quote(base).c_str(), quote(got).c_str(), quote(want).c_str());
	check(base, u);
	std::string p = genPath(s);
	PBT_CHECK(URIParse::removeDotSegments(p) == refDots(p), "removeDotSegments(%s) = %s want %s", quote(p).c_str(), quote(URIParse::removeDotSegments(p)).c_str(), quote(refDots(p)).c_str());
	if(p.size() && p[0] != '/') PBT_CHECK(u.mergedRelativePath(p) == refMerge(RefUri(base), p), "mergedRelativePath(%s)", quote(p).c_str());
	else PBT_ASSERT(u.mergedRelativePath(p) == p);
	if(rel.find("..") != std::string::npos) s.nontrivial();
}

int hexv(unsigned char c) { return c >= '0' && c <= '9' ? c - '0' : (c | 32) >= 'a' && (c | 32) <= 'f' ? (c | 32) - 'a' + 10 : -1; }

void percent(Src &s)
{
	// encode any string without NULs, escaping at least what must be
	Bytes raw = s.rawBytes(s.len(40));
	std::string plain, enc;
	const char *dig = s.flip() ? "0123456789abcdef" : "0123456789ABCDEF";
	for(auto c : raw) { if(!c) c = 1; plain += char(c); if(c == '%' || s.flip()) { enc += '%'; enc += dig[c >> 4]; enc += dig[c & 15]; } else enc += char(c); }
	enc.shrink_to_fit();
	s.log("%s", quote(enc).c_str());
	PBT_CHECK(URIParse::percentDecode(enc) == plain, "%s decodes to %s", quote(enc).c_str(), quote(URIParse::percentDecode(enc)).c_str());
	PBT_ASSERT(URIParse::safePercentDecode(enc) == plain);
	// edited: reference decoder; NUL and anything malformed is refused as a whole
	std::string t = enc;
	for(int k = s.irange(1, 3); k--; ) { size_t at = s.below(t.size() + 1); switch(s.below(4)) { case 0: t.insert(at, "%"); break; case 1: t.resize(at); break; case 2: t.insert(at, s.text(1, "0gG/:@`%")); break; default: t.insert(at, "%00"); } }
	t.shrink_to_fit();
	s.log("edited %s", quote(t).c_str());
	std::string want; bool ok = true;
	for(size_t i = 0; i < t.size(); i++)
		if(t[i] != '%') want += t[i];
		else { int a = i + 1 < t.size() ? hexv(t[i + 1]) : -1, b = i + 2 < t.size() ? hexv(t[i + 2]) : -1; if(a < 0 || b < 0 || !(a | b)) { ok = false; break; } want += char(a << 4 | b); i += 2; }
	if(!ok) want.clear();
	PBT_CHECK(URIParse::percentDecode(t) == want, "%s decodes to %s want %s", quote(t).c_str(), quote(URIParse::percentDecode(t)).c_str(), quote(want).c_str());
	PBT_CHECK(URIParse::safePercentDecode(t) == (want.empty() ? t : want), "safePercentDecode");
	std::string up = s.text(s.len(20), "aAzZ09[]@`{-_."); PBT_ASSERT(URIParse::lowercase(up) == lower(up));
	if(!ok) s.nontrivial();
}

void splitting(Src &s)
{
	std::string t = s.text(s.len(30), "ab,;|.");
	std::string seps = s.text(1 + s.below(3), ",;|");
	size_t max = s.flip() ? 0 : s.below(6);
	s.log("split(%s, %s, %zu)", quote(t).c_str(), seps.c_str(), max);
	auto parts = URIParse::split(t, seps, max);
	std::vector<std::string> want(1);
	for(char c : t) if(seps.find(c) != std::string::npos && (!max || want.size() < max)) want.push_back(""); else want.back() += c;
	PBT_CHECK(parts == want, "%zu parts want %zu", parts.size(), want.size());
	if(seps.size() == 1) { PBT_ASSERT(URIParse::split(t, seps[0], max) == want); }
	char sep = seps[0];
	auto p1 = URIParse::split(t, sep);
	std::string j; for(size_t i = 0; i < p1.size(); i++) j += (i ? std::string(1, sep) : "") + p1[i];
	PBT_CHECK(j == t, "joined %s", quote(j).c_str());
	if(want.size() > 2) s.nontrivial();
}

Register r({"P26", "URIs composed from generated parts, or random text including line terminators and NULs, against a character-at-a-time reference; non-trivial: scheme, authority and path all present, dot segments in the reference, refused escapes, several parts", {
	{"parse", parse, 30000, 3000000},
	{"long", longUri, 60, 3000},
	{"resolve", resolve, 30000, 3000000},
	{"percent", percent, 20000, 2000000},
	{"split", splitting, 20000, 2000000},
}, { "host and port of an authority that is not [userinfo@]host[:digits] are not judged", "percent-decoded NULs are refused, as documented in the source" }});

} // namespace
