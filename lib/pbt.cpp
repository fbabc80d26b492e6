#include "pbt.hpp"

#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdlib>
#include <exception>
#include <fstream>
#include <set>
#include <sstream>
#include <typeinfo>
#include <unordered_set>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define PBT_ASAN 1
#endif
#endif

#ifdef PBT_ASAN
extern "C" void __asan_set_error_report_callback(void (*cb)(const char *));
extern "C" const char *__asan_default_options() { return "exitcode=99:detect_leaks=0:abort_on_error=0:allocator_may_return_null=0:max_allocation_size_mb=2000:quarantine_size_mb=48:malloc_context_size=12:detect_stack_use_after_return=0:handle_abort=0:handle_segv=1"; }
extern "C" const char *__ubsan_default_options() { return "print_stacktrace=1"; }
#endif

namespace pbt {

static const size_t CAP = 1 << 18;

struct Shm {
	uint64_t caseIndex;
	uint32_t sub;
	uint32_t finished;
	uint64_t evaluations;
	uint64_t n;
	int failed;
	char msg[8192];
	uint64_t choices[CAP];
};

static Shm *g_shm;
static Src *g_src;
static unsigned g_cpuLimit = 60;

std::vector<Prop> &props() { static std::vector<Prop> p; return p; }

uint64_t mix64(uint64_t x)
{
	x += 0x9e3779b97f4a7c15ull;
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
	x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
	return x ^ (x >> 31);
}

uint64_t hash64(const void *p, size_t n, uint64_t seed)
{
	uint64_t h = mix64(seed ^ n);
	const uint8_t *c = (const uint8_t *)p;
	while(n >= 8) { uint64_t v; memcpy(&v, c, 8); h = mix64(h ^ v) * 3 + 1; c += 8; n -= 8; }
	uint64_t v = 0;
	if(n) { memcpy(&v, c, n); h = mix64(h ^ v); }
	return mix64(h);
}

std::string hex(const void *p, size_t n, size_t max)
{
	static const char d[] = "0123456789abcdef";
	std::string rv;
	const uint8_t *c = (const uint8_t *)p;
	for(size_t i = 0; i < n && i < max; i++) { rv.push_back(d[c[i] >> 4]); rv.push_back(d[c[i] & 15]); }
	if(n > max) rv += "...(" + std::to_string(n) + " bytes)";
	return rv;
}

std::string quote(const std::string &s, size_t max)
{
	std::string rv = "\"";
	size_t n = 0;
	for(unsigned char c : s) {
		if(n++ >= max) { rv += "...(" + std::to_string(s.size()) + ")"; break; }
		if(c == '"' || c == '\\') { rv.push_back('\\'); rv.push_back(c); }
		else if(c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); rv += b; }
		else rv.push_back(c);
	}
	return rv + "\"";
}

// --- Src

uint64_t Src::below(uint64_t n)
{
	uint64_t v;
	if(n == 1)
		return 0; // no choice
	if(m_replay)
	{
		v = m_pos < m_recLen ? m_rec[m_pos] : 0;
		if(n && v >= n)
			v = n - 1;
	}
	else
	{
		m_state += 0x9e3779b97f4a7c15ull;
		v = mix64(m_state);
		if(n)
			v = uint64_t((unsigned __int128)v * n >> 64);
	}
	if(m_pos < CAP)
		g_shm->choices[m_pos] = v;
	else
		v = 0;
	m_pos++;
	g_shm->n = std::min(m_pos, CAP);
	return v;
}

size_t Src::weighted(const std::vector<unsigned> &w)
{
	uint64_t tot = 0;
	for(unsigned x : w) tot += x;
	uint64_t v = below(tot);
	for(size_t i = 0; i < w.size(); i++) { if(v < w[i]) return i; v -= w[i]; }
	return 0;
}

uint64_t Src::sized(uint64_t max)
{
	uint64_t v;
	switch(below(8))
	{
	case 0: case 1: v = below(4); break;
	case 2: v = below(256); break;
	case 3: { unsigned b = unsigned(below(64)); v = (uint64_t(1) << b) + below(5) - 2; } break; // around powers of two
	case 4: { unsigned b = 1 + unsigned(below(64)); v = below(0) >> (64 - b); } break; // uniform bit length
	case 5: v = max - std::min<uint64_t>(below(4), max); break;
	case 6: { unsigned b = 7 * (1 + unsigned(below(9))); v = (uint64_t(1) << b) + below(3) - 1; } break;
	default: v = below(0); break;
	}
	if(v > max)
		v = max == UINT64_MAX ? v : v % (max + 1);
	return v;
}

size_t Src::len(size_t max)
{
	size_t v;
	switch(below(6))
	{
	case 0: case 1: case 2: v = below(std::min<size_t>(max, 8) + 1); break;
	case 3: case 4: v = below(std::min<size_t>(max, 64) + 1); break;
	default: v = below(max + 1); break;
	}
	return v;
}

Bytes Src::bytes(size_t n)
{
	Bytes rv(n);
	uint64_t s = below(1u << 30);
	uint64_t x = s;
	for(size_t i = 0; i < n; i++) { if(i % 8 == 0) x = mix64(s + i + 1); rv[i] = s == 0 ? uint8_t(i) : uint8_t(x >> (8 * (i % 8))); }
	return rv;
}

Bytes Src::rawBytes(size_t n)
{
	Bytes rv(n);
	for(size_t i = 0; i < n; i++) rv[i] = uint8_t(below(256));
	return rv;
}

std::string Src::text(size_t n, const std::string &alphabet)
{
	std::string rv;
	for(size_t i = 0; i < n; i++) rv.push_back(alphabet[below(alphabet.size())]);
	return rv;
}

void Src::log(const char *fmt, ...)
{
	if(!verbose)
		return;
	char buf[2048];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(buf, sizeof buf, fmt, ap);
	va_end(ap);
	if(trace.size() < (1 << 20))
	{
		trace += buf;
		trace += "\n";
	}
}

static std::map<std::string, uint64_t> g_labels;
void Src::label(const char *name, uint64_t n) { g_labels[name] += n; }

// --- failure

static int g_traceFd = -1;

static void dumpTrace()
{
	if(g_src && g_src->verbose && g_traceFd >= 0 && g_src->trace.size())
	{
		ssize_t r = write(g_traceFd, g_src->trace.data(), g_src->trace.size());
		(void)r;
	}
}

void fail(const char *file, int line, const char *fmt, ...)
{
	char buf[6000];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(buf, sizeof buf, fmt, ap);
	va_end(ap);
	const char *base = strrchr(file, '/');
	snprintf(g_shm->msg, sizeof(g_shm->msg), "%s:%d: %s", base ? base + 1 : file, line, buf);
	g_shm->failed = 1;
	dumpTrace();
	_exit(3);
}

static void onTerminate()
{
	const char *what = "unknown";
	std::string w;
	if(auto e = std::current_exception())
	{
		try { std::rethrow_exception(e); }
		catch(const std::exception &x) { w = std::string(typeid(x).name()) + ": " + x.what(); what = w.c_str(); }
		catch(...) { }
	}
	snprintf(g_shm->msg, sizeof(g_shm->msg), "terminate (uncaught exception): %s", what);
	g_shm->failed = 1;
	dumpTrace();
	_exit(5);
}

static void onHang(int)
{
	snprintf(g_shm->msg, sizeof(g_shm->msg), "hang: case did not finish within %u CPU seconds", g_cpuLimit);
	g_shm->failed = 1;
	_exit(4);
}

static void onAbort(int)
{
	if(!g_shm->failed)
		snprintf(g_shm->msg, sizeof(g_shm->msg), "abort() called (assertion?)");
	g_shm->failed = 1;
	dumpTrace();
	_exit(6);
}

#ifdef PBT_ASAN
static void onAsan(const char *report)
{
	snprintf(g_shm->msg, sizeof(g_shm->msg), "sanitizer report: %.7000s", report);
	g_shm->failed = 1;
	dumpTrace();
}
#endif

static double nowWall() { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }

static void armCpu(unsigned sec)
{
	g_cpuLimit = sec;
	struct itimerval it { };
	it.it_value.tv_sec = sec;
	setitimer(ITIMER_PROF, &it, nullptr);
}

static void childInit(const std::string &errFile)
{
	std::set_terminate(onTerminate);
	signal(SIGPROF, onHang);
	signal(SIGABRT, onAbort);
	signal(SIGPIPE, SIG_IGN);
#ifdef PBT_ASAN
	__asan_set_error_report_callback(onAsan);
#endif
	int fd = open(errFile.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
	if(fd >= 0) { dup2(fd, 2); close(fd); }
	fd = open("/dev/null", O_WRONLY);
	if(fd >= 0) { dup2(fd, 1); close(fd); } // library code prints to stdout in places
	struct rlimit rl { 0, 0 };
	setrlimit(RLIMIT_CORE, &rl);
}

static void runOne(const Sub &sub, Src &src)
{
	g_src = &src;
	g_shm->failed = 0;
	g_shm->msg[0] = 0;
	g_shm->n = 0;
	armCpu(sub.cpuLimit);
	try { sub.fn(src); }
	catch(const std::exception &x) { snprintf(g_shm->msg, sizeof(g_shm->msg), "uncaught exception %s: %s", typeid(x).name(), x.what()); g_shm->failed = 1; dumpTrace(); _exit(5); }
	armCpu(0);
	g_src = nullptr;
}

struct Outcome { bool failed { false }; int kind { 0 }; std::string msg; };

static std::string g_tmp;

static std::string readFile(const std::string &p, size_t max = 1 << 20)
{
	std::ifstream f(p, std::ios::binary);
	std::stringstream ss; ss << f.rdbuf();
	std::string s = ss.str();
	if(s.size() > max) s = s.substr(0, max);
	return s;
}

static int statusKind(int st) { return WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st); }

static std::string describe(Shm *shm, int st, const std::string &errFile)
{
	std::string m = shm->msg;
	if(m.empty())
	{
		m = WIFSIGNALED(st) ? std::string("killed by signal ") + std::to_string(WTERMSIG(st)) : std::string("exit ") + std::to_string(WEXITSTATUS(st));
		std::string e = readFile(errFile, 6000);
		if(e.size()) m += "\n" + e;
	}
	return m;
}

static Shm *newShm()
{
	void *p = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if(p == MAP_FAILED) { perror("mmap"); exit(2); }
	return (Shm *)p;
}

// run one recorded case in a fresh child
static Outcome replayCase(const Sub &sub, std::vector<uint64_t> &rec, bool verbose, std::string *trace, unsigned cpu)
{
	static Shm *shm = newShm();
	Outcome o;
	std::string err = g_tmp + "/replay.err", tr = g_tmp + "/replay.trace";
	fflush(stdout);
	shm->failed = 0; shm->msg[0] = 0; shm->n = 0;
	pid_t pid = fork();
	if(pid == 0)
	{
		g_shm = shm;
		childInit(err);
		Src s;
		s.m_replay = true;
		s.m_rec = rec.data();
		s.m_recLen = rec.size();
		s.verbose = verbose;
		if(verbose) g_traceFd = open(tr.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
		Sub sb = sub;
		sb.cpuLimit = cpu;
		runOne(sb, s);
		if(verbose && g_traceFd >= 0) { ssize_t r = write(g_traceFd, s.trace.data(), s.trace.size()); (void)r; }
		_exit(0);
	}
	int st = 0;
	while(waitpid(pid, &st, 0) < 0 && errno == EINTR) { }
	if(st != 0)
	{
		o.failed = true;
		o.kind = statusKind(st);
		o.msg = describe(shm, st, err);
		rec.assign(shm->choices, shm->choices + std::min<uint64_t>(shm->n, CAP)); // canonical: what was really consumed
	}
	if(trace) *trace = readFile(tr);
	return o;
}

static void shrink(const Sub &sub, std::vector<uint64_t> &best, Outcome &bestOut, double budget)
{
	double until = nowWall() + budget;
	unsigned attempts = 0;
	unsigned cpu = std::min(sub.cpuLimit, 10u);
	if(bestOut.kind == 4)
		return; // shrinking hangs costs too much
	auto attempt = [&] (std::vector<uint64_t> cand) -> bool {
		if(nowWall() > until) return false;
		attempts++;
		std::vector<uint64_t> before = cand;
		Outcome o = replayCase(sub, cand, false, nullptr, cpu);
		if(!o.failed || o.kind != bestOut.kind) return false;
		if(cand.size() > best.size()) return false;
		if(cand.size() == best.size() && !(cand < best)) return false;
		best = cand;
		bestOut = o;
		return true;
	};
	bool progress = true;
	while(progress && nowWall() < until)
	{
		progress = false;
		// drop tails
		for(size_t keep = 0; keep < best.size() && nowWall() < until; keep = keep ? keep * 2 : 1)
		{
			if(keep >= best.size()) break;
			std::vector<uint64_t> c(best.begin(), best.begin() + keep);
			if(attempt(c)) { progress = true; break; }
		}
		// delete blocks
		for(size_t block = std::max<size_t>(1, best.size() / 2); block >= 1 && nowWall() < until; block /= 2)
		{
			for(size_t pos = best.size(); pos > 0 && nowWall() < until; )
			{
				size_t start = pos > block ? pos - block : 0;
				if(start + block > best.size()) { pos = std::min(start, best.size()); if(start == 0) break; continue; }
				std::vector<uint64_t> c = best;
				c.erase(c.begin() + start, c.begin() + start + block);
				if(attempt(c)) { progress = true; pos = std::min(pos, best.size()); }
				else
				{
					// deleting something counted: also try decrementing an earlier count
					bool ok = false;
					if(block <= 8)
						for(size_t back = 1; back <= 3 && start >= back && !ok && nowWall() < until; back++)
							if(best[start - back] > 0)
							{
								std::vector<uint64_t> d = best;
								d[start - back]--;
								d.erase(d.begin() + start, d.begin() + start + block);
								ok = attempt(d);
							}
					if(ok) { progress = true; pos = std::min(pos, best.size()); }
					else pos = start;
				}
			}
			if(block == 1) break;
		}
		// zero blocks
		for(size_t block = std::max<size_t>(1, best.size() / 4); block >= 1 && nowWall() < until; block /= 2)
		{
			for(size_t start = 0; start < best.size() && nowWall() < until; start += block)
			{
				std::vector<uint64_t> c = best;
				bool any = false;
				for(size_t i = start; i < std::min(start + block, c.size()); i++) { any |= c[i] != 0; c[i] = 0; }
				if(any && attempt(c)) progress = true;
			}
			if(block == 1) break;
		}
		// minimise values
		for(size_t i = 0; i < best.size() && nowWall() < until; i++)
		{
			uint64_t lo = 0;
			while(i < best.size() && lo < best[i] && nowWall() < until)
			{
				uint64_t mid = lo + (best[i] - lo) / 2;
				std::vector<uint64_t> c = best;
				c[i] = mid;
				if(attempt(c)) progress = true;
				else lo = mid + 1;
			}
		}
		if(attempts > 20000) break;
	}
}

static std::string jsonEsc(const std::string &s)
{
	std::string rv;
	for(unsigned char c : s) {
		if(c == '"' || c == '\\') { rv.push_back('\\'); rv.push_back(c); }
		else if(c == '\n') rv += "\\n";
		else if(c == '\t') rv += "\\t";
		else if(c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); rv += b; }
		else rv.push_back(c);
	}
	return rv;
}

// --- known findings: lines "finding: property=<id> key=<key> <text>" in known_findings.txt

static std::string g_verif = ".";
static std::map<std::string, std::string> &knownMap(const std::string &prop)
{
	static std::map<std::string, std::map<std::string, std::string>> m;
	static bool loaded = false;
	if(!loaded)
	{
		loaded = true;
		std::ifstream f(g_verif + "/known_findings.txt");
		std::string line;
		while(std::getline(f, line))
		{
			if(line.compare(0, 9, "finding: ")) continue;
			std::istringstream is(line.substr(9));
			std::string p, k, rest;
			is >> p >> k;
			std::getline(is, rest);
			if(p.compare(0, 9, "property=") || k.compare(0, 4, "key=")) continue;
			m[p.substr(9)][k.substr(4)] = rest;
		}
	}
	return m[prop];
}
bool isKnownFinding(const std::string &prop, const std::string &key) { return knownMap(prop).count(key); }

static std::set<std::string> g_kf;
void reportKnownFinding(const std::string &prop, const std::string &key)
{
	if(g_kf.insert(prop + " " + key).second && g_tmp.size())
	{
		std::ofstream f(g_tmp + "/kf." + std::to_string(getpid()), std::ios::app);
		f << prop << " " << key << "\n";
	}
}

} // namespace pbt

using namespace pbt;

static std::vector<uint64_t> parseReplay(const std::string &file, std::string &prop, std::string &sub)
{
	std::ifstream f(file);
	std::string line;
	std::vector<uint64_t> rec;
	while(std::getline(f, line))
	{
		if(!line.compare(0, 9, "property:")) prop = line.substr(10);
		else if(!line.compare(0, 4, "sub:")) sub = line.substr(5);
		else if(!line.compare(0, 8, "choices:")) { std::istringstream is(line.substr(8)); uint64_t v; while(is >> v) rec.push_back(v); }
	}
	return rec;
}

int main(int argc, char **argv)
{
	setvbuf(stdout, nullptr, _IOLBF, 0);
	std::string propId, tier = "quick", replayPath, onlySub;
	uint64_t seed = 1;
	unsigned jobs = 8;
	double scale = 1, wallCap = 0, shrinkBudget = 60;
	bool noEvidence = false;
	if(const char *e = getenv("VERIF_SEED")) seed = strtoull(e, nullptr, 10);
	if(const char *e = getenv("VERIF_TIER")) if(*e) tier = e;
	if(const char *e = getenv("VERIF_DIR")) g_verif = e;
	if(const char *e = getenv("VERIF_JOBS")) jobs = atoi(e);
	if(const char *e = getenv("VERIF_SCALE")) scale = atof(e);
	for(int i = 1; i < argc; i++)
	{
		std::string a = argv[i];
		auto next = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
		if(a == "--prop") propId = next();
		else if(a == "--tier") tier = next();
		else if(a == "--seed") seed = strtoull(next().c_str(), nullptr, 10);
		else if(a == "--jobs") jobs = atoi(next().c_str());
		else if(a == "--scale") scale = atof(next().c_str());
		else if(a == "--sub") onlySub = next();
		else if(a == "--replay") replayPath = next();
		else if(a == "--wall") wallCap = atof(next().c_str());
		else if(a == "--shrink") shrinkBudget = atof(next().c_str());
		else if(a == "--no-evidence") noEvidence = true;
		else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 2; }
	}
	char tmpl[] = "/tmp/pbtXXXXXX";
	if(!mkdtemp(tmpl)) { perror("mkdtemp"); return 2; }
	g_tmp = tmpl;
	auto cleanup = [&] {
		std::string c = "rm -rf '" + g_tmp + "'";
		if(g_tmp.compare(0, 8, "/tmp/pbt") == 0 && system(c.c_str())) { }
	};

	std::vector<uint64_t> rec;
	std::string recSub;
	if(replayPath.size()) rec = parseReplay(replayPath, propId, recSub);

	const Prop *prop = nullptr;
	for(auto &p : props()) if(p.id == propId || propId.empty()) { prop = &p; break; }
	if(!prop) { fprintf(stderr, "no property %s here\n", propId.c_str()); cleanup(); return 2; }
	propId = prop->id;
	knownMap(propId);

	if(replayPath.size())
	{
		for(auto &s : prop->subs) if(s.name == recSub)
		{
			std::string tr;
			Outcome o = replayCase(s, rec, true, &tr, s.cpuLimit);
			printf("%s", tr.c_str());
			if(o.failed) { printf("FAILED: %s\nVIOLATION property=%s replay=%s\n", o.msg.c_str(), propId.c_str(), replayPath.c_str()); cleanup(); return 1; }
			printf("passed\n");
			cleanup();
			return 0;
		}
		fprintf(stderr, "no sub %s\n", recSub.c_str());
		cleanup();
		return 2;
	}

	bool thorough = tier == "thorough";
	if(wallCap <= 0) wallCap = thorough ? 3000 : 240;
	double t0 = nowWall();
	double deadline = t0 + wallCap;

	uint64_t evaluations = 0, labelsTot = 0;
	(void)labelsTot;
	std::map<std::string, uint64_t> labels;
	std::unordered_set<uint64_t> distinct;
	std::vector<std::string> samples;
	std::map<std::string, uint64_t> subEval, subNontriv;
	int violations = 0, inconclusive = 0;
	bool capped = false;
	std::string violationLine;

	std::vector<Shm *> shms;
	for(unsigned w = 0; w < jobs; w++) shms.push_back(newShm());

	// cases per sub
	for(size_t si = 0; si < prop->subs.size() && !violations; si++)
	{
		const Sub &sub = prop->subs[si];
		if(onlySub.size() && sub.name != onlySub) continue;
		unsigned long total = (unsigned long)((thorough ? sub.thorough : sub.quick) * scale);
		if(total < 1) total = 1;
		unsigned J = std::min<unsigned long>(jobs, total);
		std::vector<pid_t> pids(J);
		uint64_t subSeed = mix64(seed * 0x100000001b3ull ^ hash64(sub.name.data(), sub.name.size(), 7));
		for(unsigned w = 0; w < J; w++)
		{
			Shm *shm = shms[w];
			shm->failed = 0; shm->msg[0] = 0; shm->evaluations = 0; shm->finished = 0; shm->n = 0;
			fflush(stdout);
			pid_t pid = fork();
			if(pid == 0)
			{
				g_shm = shm;
				childInit(g_tmp + "/w" + std::to_string(w) + ".err");
				std::unordered_set<uint64_t> mine;
				std::vector<std::string> mySamples;
				uint64_t nontriv = 0;
				bool cap = false;
				for(unsigned long i = w; i < total; i += J)
				{
					if((i / J) % 16 == 0 && nowWall() > deadline) { cap = true; break; }
					shm->caseIndex = i;
					Src s;
					s.m_state = mix64(subSeed + i * 0x9e3779b97f4a7c15ull);
					s.verbose = w == 0 && i / J < 12 && mySamples.size() < 2;
					runOne(sub, s);
					shm->evaluations++;
					if(s.isNontrivial())
					{
						nontriv++;
						if(mine.size() < 250000) mine.insert(hash64(shm->choices, shm->n * 8, si));
						if(s.verbose && s.trace.size()) mySamples.push_back(sub.name + ": " + s.trace.substr(0, 1800));
					}
				}
				std::ofstream f(g_tmp + "/w" + std::to_string(w) + ".out", std::ios::binary | std::ios::trunc);
				f << (cap ? 1 : 0) << " " << nontriv << " " << mine.size() << " " << g_labels.size() << " " << mySamples.size() << "\n";
				for(auto h : mine) f << h << "\n";
				for(auto &l : g_labels) f << l.second << " " << l.first << "\n";
				for(auto &m : mySamples) { std::string e = jsonEsc(m); f << e << "\n"; }
				f.close();
				shm->finished = 1;
				_exit(0);
			}
			pids[w] = pid;
		}
		int failedW = -1, failedSt = 0;
		unsigned left = J;
		while(left)
		{
			int st;
			pid_t p = wait(&st);
			if(p < 0) { if(errno == EINTR) continue; break; }
			for(unsigned w = 0; w < J; w++) if(pids[w] == p)
			{
				left--;
				pids[w] = 0;
				if(st != 0 && failedW < 0)
				{
					failedW = int(w);
					failedSt = st;
					for(unsigned k = 0; k < J; k++) if(pids[k]) kill(pids[k], SIGKILL);
				}
			}
		}
		for(unsigned w = 0; w < J; w++)
		{
			evaluations += shms[w]->evaluations;
			subEval[sub.name] += shms[w]->evaluations;
			if(!shms[w]->finished) continue;
			std::ifstream f(g_tmp + "/w" + std::to_string(w) + ".out");
			int cap; uint64_t nt, nd, nl, ns;
			f >> cap >> nt >> nd >> nl >> ns;
			capped |= cap;
			subNontriv[sub.name] += nt;
			for(uint64_t i = 0; i < nd; i++) { uint64_t h; f >> h; distinct.insert(h); }
			for(uint64_t i = 0; i < nl; i++) { uint64_t c; std::string n; f >> c; f.ignore(1); std::getline(f, n); labels[n] += c; }
			std::string line;
			if(nl == 0) std::getline(f, line);
			for(uint64_t i = 0; i < ns; i++) { std::getline(f, line); if(samples.size() < 8) samples.push_back(line); }
		}
		if(failedW >= 0)
		{
			Shm *shm = shms[failedW];
			std::string errf = g_tmp + "/w" + std::to_string(failedW) + ".err";
			Outcome o;
			o.failed = true;
			o.kind = statusKind(failedSt);
			o.msg = describe(shm, failedSt, errf);
			if(o.kind == 1000 + SIGKILL) { fprintf(stderr, "worker killed (out of memory?)\n"); cleanup(); return 2; }
			std::vector<uint64_t> orig(shm->choices, shm->choices + std::min<uint64_t>(shm->n, CAP));
			printf("case %llu of %s/%s failed: %.1500s\n", (unsigned long long)shm->caseIndex, propId.c_str(), sub.name.c_str(), o.msg.c_str());
			// reproduce in a fresh process
			std::vector<uint64_t> best = orig;
			Outcome first = replayCase(sub, best, false, nullptr, sub.cpuLimit);
			if(first.failed)
			{
				shrink(sub, best, first, shrinkBudget);
				int again = 0;
				for(int k = 0; k < 3; k++) { auto c = best; if(replayCase(sub, c, false, nullptr, sub.cpuLimit).failed) again++; }
				if(again < 3) { best = orig; again = 0; for(int k = 0; k < 3; k++) { auto c = best; if(replayCase(sub, c, false, nullptr, sub.cpuLimit).failed) again++; } }
				if(again == 3 || (again && !sub.timing))
				{
					std::string tr;
					auto c = best;
					Outcome fin = replayCase(sub, c, true, &tr, sub.cpuLimit);
					if(fin.failed) first = fin;
					mkdir((g_verif + "/replays").c_str(), 0777);
					std::string path = g_verif + "/replays/" + propId + "-" + sub.name + ".txt";
					std::ofstream f(path, std::ios::trunc);
					f << "property: " << propId << "\nsub: " << sub.name << "\nseed: " << seed << "\nchoices:";
					for(auto v : best) f << " " << v;
					f << "\n--- failure\n" << first.msg << "\n--- trace\n" << tr;
					f.close();
					printf("minimised to %zu choices: %.3000s\n%.6000s\n", best.size(), first.msg.c_str(), tr.size() > 6000 ? tr.substr(tr.size() - 6000).c_str() : tr.c_str());
					violationLine = "VIOLATION property=" + propId + " replay=" + path;
					violations = 1;
				}
				else inconclusive++;
			}
			else inconclusive++;
			if(!violations)
			{
				printf("failure did not reproduce in a fresh process\n");
				bool observed = !sub.timing && o.kind >= 3 && o.kind != 4 && o.kind < 1000 + 128;
				if(observed)
				{
					// the oracle or a sanitizer did observe the failure in the worker: it depends on state outside the case
					// (such as addresses of earlier allocations), so the replay file records the original choices.
					mkdir((g_verif + "/replays").c_str(), 0777);
					std::string path = g_verif + "/replays/" + propId + "-" + sub.name + ".txt";
					std::ofstream f(path, std::ios::trunc);
					f << "property: " << propId << "\nsub: " << sub.name << "\nseed: " << seed << "\ncase: " << shm->caseIndex << "\nchoices:";
					for(auto v : orig) f << " " << v;
					f << "\n--- failure (seen in the run, not on replay)\n" << o.msg << "\n";
					f.close();
					violationLine = "VIOLATION property=" + propId + " replay=" + path;
					violations = 1;
				}
				else if(!sub.timing) { cleanup(); return 2; }
			}
		}
	}

	double wall = nowWall() - t0;
	{
		// known findings seen
		std::set<std::string> kf;
		std::string cmd = "cat " + g_tmp + "/kf.* 2>/dev/null";
		if(FILE *p = popen(cmd.c_str(), "r")) { char b[512]; while(fgets(b, sizeof b, p)) { std::string s(b); while(s.size() && s.back() == '\n') s.pop_back(); kf.insert(s); } pclose(p); }
		for(auto &k : kf)
		{
			size_t sp = k.find(' ');
			std::string key = k.substr(sp + 1);
			printf("KNOWN-FINDING: property=%s key=%s%s\n", propId.c_str(), key.c_str(), knownMap(propId)[key].c_str());
		}
	}
	if(!noEvidence)
	{
		mkdir((g_verif + "/evidence").c_str(), 0777);
		std::ofstream f(g_verif + "/evidence/" + propId + ".json", std::ios::trunc);
		f << "{\n \"property\": \"" << propId << "\",\n \"tier\": \"" << (thorough ? "thorough" : "quick") << "\",\n \"seed\": " << seed
		  << ",\n \"level\": \"exploration\",\n \"coverage\": {\n  \"evaluations\": " << evaluations << ",\n  \"distinct_nontrivial\": " << distinct.size()
		  << ",\n  \"rule\": \"" << jsonEsc(prop->rule) << "\",\n  \"wall_cap_hit\": " << (capped ? "true" : "false") << ",\n  \"inconclusive\": " << inconclusive << ",\n  \"subchecks\": {";
		bool firstI = true;
		for(auto &s : subEval) { f << (firstI ? "" : ",") << "\n   \"" << jsonEsc(s.first) << "\": {\"evaluations\": " << s.second << ", \"nontrivial\": " << subNontriv[s.first] << "}"; firstI = false; }
		f << "\n  },\n  \"classes\": {";
		firstI = true;
		for(auto &l : labels) { f << (firstI ? "" : ",") << "\n   \"" << jsonEsc(l.first) << "\": " << l.second; firstI = false; }
		f << "\n  },\n  \"samples\": [";
		firstI = true;
		for(auto &s : samples) { f << (firstI ? "" : ",") << "\n   \"" << s << "\""; firstI = false; }
		f << "\n  ]\n },\n \"assumptions\": [";
		firstI = true;
		for(auto &s : prop->assumptions) { f << (firstI ? "" : ", ") << "\"" << jsonEsc(s) << "\""; firstI = false; }
		f << "],\n \"wall_s\": " << wall << ",\n \"violations\": " << violations << "\n}\n";
	}
	printf("%s %s seed=%llu: %llu cases, %zu distinct non-trivial, %.1f s%s\n", propId.c_str(), tier.c_str(), (unsigned long long)seed, (unsigned long long)evaluations, distinct.size(), wall, capped ? " (wall cap hit)" : "");
	if(!violations && evaluations == 0) { fprintf(stderr, "no cases ran\n"); cleanup(); return 2; }
	cleanup();
	if(violations) { printf("%s\n", violationLine.c_str()); return 1; }
	return 0;
}
