// P32: run loops. P33: performers.
#include "pbt.hpp"
#include "rtmfp/RunLoops.hpp"
#include "rtmfp/Performer.hpp"
#include "rtmfp/PerformerPosixPlatformAdapter.hpp"
#include <algorithm>
#include <atomic>
#include <condition_variable>
#include <deque>
#include <fcntl.h>
#include <map>
#include <memory>
#include <mutex>
#include <poll.h>
#include <set>
#include <signal.h>
#include <sys/socket.h>
#include <thread>
#include <unistd.h>
using namespace com::zenomt;
using namespace com::zenomt::rtmfp;
using pbt::Src;
using pbt::Register;

namespace {

std::shared_ptr<RunLoop> makeLoop(Src &s, bool *isSelect = nullptr)
{
	bool sel = s.flip(), shared = s.flip();
	if(isSelect) *isSelect = sel;
	s.log("%s run loop", sel ? "a select" : "an epoll");
	s.label(sel ? "select" : "epoll");
	if(sel) return share_ref(new SelectRunLoop(shared), false);
	return share_ref(new EPollRunLoop(shared), false);
}

void stuck(int) { PBT_FAIL("a run of the loop or a wait for it did not return"); }
struct Watchdog { explicit Watchdog(unsigned secs) { signal(SIGALRM, stuck); alarm(secs); } ~Watchdog() { alarm(0); } };

const char *condName(int c) { return c == 0 ? "readable" : c == 1 ? "writable" : "exceptional"; }

// --- P32: one scripted history over real descriptors. Nothing but the script changes readiness, so poll(2) just
// before a cycle says which registered conditions hold for that cycle.
struct Steps {
	Src &s;
	std::shared_ptr<RunLoop> loop;
	bool isSelect { false };
	struct F { int fd, peer, kind; };
	std::vector<F> fds;
	struct Reg { unsigned gen; unsigned missed { 0 }; };
	std::map<std::pair<size_t, int>, Reg> regs; // registered now
	unsigned nextGen { 1 };
	std::set<unsigned> must, may, called; // generations for this cycle
	std::set<unsigned> everyGen;
	bool running { false }, stopped { false }, inTimers { false }, stoppedInTimers { false };
	Time runStart { 0 };
	std::deque<int> later; std::set<int> nextCycle; int nextLater { 1 }; // nextCycle: deferred after the tasks of this cycle ran
	struct T { std::shared_ptr<Timer> t; Time due; bool live { true }; unsigned long cycle; bool exempt; };
	std::vector<T> timers;
	unsigned long cycles { 0 }, calls { 0 }, ops { 0 }, wantCycles { 0 }, tasksRun { 0 };
	unsigned budget { 400 };

	explicit Steps(Src &s_) : s(s_) {}

	void nonblock(int fd) { fcntl(fd, F_SETFL, fcntl(fd, F_GETFL) | O_NONBLOCK); }
	void add(int kind)
	{
		int p[2];
		F f; f.kind = kind;
		if(kind < 2) { if(pipe(p)) { perror("pipe"); _exit(2); } f.fd = p[kind]; f.peer = p[1 - kind]; if(kind == 1) fcntl(p[1], F_SETPIPE_SZ, 4096); }
		else { if(socketpair(AF_UNIX, kind == 2 ? SOCK_STREAM : SOCK_DGRAM, 0, p)) { perror("socketpair"); _exit(2); } int z = 4096; for(int i = 0; i < 2; i++) setsockopt(p[i], SOL_SOCKET, SO_SNDBUF, &z, sizeof z); f.fd = p[0]; f.peer = p[1]; }
		nonblock(f.fd); nonblock(f.peer);
		fds.push_back(f);
	}
	unsigned ready(size_t i) // bit per condition: held for certain; bits 8..: possible
	{
		struct pollfd p { fds[i].fd, POLLIN | POLLOUT | POLLPRI, 0 };
		poll(&p, 1, 0);
		unsigned r = 0;
		if(p.revents & (POLLIN | POLLHUP | POLLERR)) r |= 1;
		if(p.revents & (POLLOUT | POLLERR)) r |= 2;
		if(p.revents & (isSelect ? POLLPRI : POLLERR)) r |= 4;
		r |= r << 8;
		if(p.revents & (POLLPRI | POLLERR)) r |= 4 << 8;
		return r;
	}
	void snapshot()
	{
		must.clear(); may.clear(); called.clear();
		size_t n = 0;
		for(size_t i = 0; i < fds.size(); i++)
		{
			unsigned r = ready(i);
			bool any = false;
			for(int c = 0; c < 3; c++)
			{
				auto it = regs.find({ i, c });
				if(it == regs.end()) continue;
				if(r & (1u << c)) must.insert(it->second.gen), any = true;
				if(r & (256u << c)) may.insert(it->second.gen);
			}
			n += any;
		}
		if(n > 64) s.label("cycles with more than 64 ready descriptors");
	}
	void endOfCycle(const char *where)
	{
		for(auto &e : regs)
		{
			Reg &r = e.second;
			if(!must.count(r.gen) || called.count(r.gen)) { r.missed = 0; continue; }
			r.missed++;
			unsigned allow = isSelect || fds.size() <= 64 ? 0 : 4; // epoll takes 64 at a time
			PBT_CHECK(r.missed <= allow, "descriptor %zu (kind %d) was %s at the start of the cycle and registered throughout, but its action was not called (%s)", e.first.first, fds[e.first.first].kind, condName(e.first.second), where);
		}
		PBT_CHECK(later.empty() || nextCycle.count(later.front()), "%zu deferred tasks did not run in the cycle (%s)", later.size(), where);
		nextCycle.clear();
		Time now = loop->getCurrentTime();
		for(auto &t : timers)
			PBT_CHECK(!t.live || t.exempt || t.due > now, "a timer due %.6Lf s ago did not fire in the cycle (%s)", now - t.due, where);
		for(auto &t : timers) t.exempt = false;
		cycles++;
	}
	void act(size_t i, int c, unsigned gen, RunLoop *sender, int fd, RunLoop::Condition cond)
	{
		calls++;
		s.log("  action %u: descriptor %zu %s", gen, i, condName(c));
		PBT_CHECK(running, "an action was called outside a run");
		PBT_CHECK(!stopped, "descriptor %zu's action was called after the loop was stopped", i);
		if(sender) PBT_CHECK(sender == loop.get() && fd == fds[i].fd && int(cond) == c, "an action was called with descriptor %d, condition %d instead of %d, %d", fd, int(cond), fds[i].fd, c);
		auto it = regs.find({ i, c });
		PBT_CHECK(it != regs.end() && it->second.gen == gen, "descriptor %zu's action was called after it was %s", i, it == regs.end() ? "unregistered" : "replaced");
		PBT_CHECK(may.count(gen), "descriptor %zu's action for %s was called although it was not%s", i, condName(c), must.size() ? "" : " (nothing was)");
		PBT_CHECK(called.insert(gen).second, "descriptor %zu's action for %s was called twice in one cycle", i, condName(c));
		PBT_CHECK(loop->isRunningInThisThread(), "the loop says it is not running in this thread, from an action");
		PBT_CHECK(loop->getCurrentTime() <= loop->getCurrentTimeNoCache(), "the loop's time is ahead of the clock");
		PBT_CHECK(loop->getCurrentTime() >= runStart, "the loop's time is before its run began");
		script(0, 3);
	}
	void reg(size_t i, int c)
	{
		if(s.chance(1, 12))
		{
			s.log("  register descriptor %zu %s with no action", i, condName(c));
			loop->registerDescriptor(fds[i].fd, RunLoop::Condition(c), RunLoop::Action());
			regs.erase({ i, c });
			return;
		}
		unsigned gen = nextGen++;
		s.log("  register descriptor %zu %s: action %u", i, condName(c), gen);
		if(s.chance(1, 4)) loop->registerDescriptor(fds[i].fd, RunLoop::Condition(c), Task([this, i, c, gen] { act(i, c, gen, nullptr, 0, RunLoop::READABLE); }));
		else loop->registerDescriptor(fds[i].fd, RunLoop::Condition(c), RunLoop::Action([this, i, c, gen] (RunLoop *l, int fd, RunLoop::Condition cond) { act(i, c, gen, l, fd, cond); }));
		regs[{ i, c }] = Reg { gen };
	}
	void defer()
	{
		if(s.chance(1, 12)) { s.log("  defer nothing"); loop->doLater(Task()); return; }
		int id = nextLater++;
		s.log("  defer task %d", id);
		later.push_back(id);
		if(inTimers) nextCycle.insert(id);
		loop->doLater([this, id] {
			s.log("  task %d", id);
			PBT_CHECK(running && !stopped, "a deferred task ran %s", running ? "after the loop was stopped" : "outside a run");
			PBT_CHECK(!later.empty() && later.front() == id, "deferred task %d ran, expected %d", id, later.empty() ? 0 : later.front());
			later.pop_front();
			tasksRun++;
			script(0, 2);
		});
	}
	void timer()
	{
		size_t n = timers.size();
		Time now = loop->getCurrentTime();
		Duration d = s.pick<Duration>({ -1, -0.001L, 0, -1000, 1000, 100 });
		s.log("  timer %zu in %.3Lf s", n, d);
		timers.push_back({ nullptr, now + d, true, cycles, running && (inTimers || !timersLeft) });
		timers[n].t = loop->schedule(Timer::Action([this, n] (const std::shared_ptr<Timer> &t, Time at) {
			s.log("  timer %zu fires", n);
			T &e = timers[n];
			PBT_CHECK(running, "a timer fired outside a run");
			PBT_CHECK(!stopped || stoppedInTimers, "a timer fired after the loop was stopped from an action or task");
			PBT_CHECK(e.live, "timer %zu fired after it had fired or was cancelled", n);
			PBT_CHECK(e.due <= at && at <= loop->getCurrentTimeNoCache(), "timer %zu fired %.6Lf s early", n, e.due - at);
			e.live = false;
			inTimers = true;
			script(0, 2);
			inTimers = false;
		}), now + d);
	}
	bool timersLeft { true }; // the timer phase of this cycle is still to come
	void stop() { s.log("  stop"); loop->stop(); stopped = true; stoppedInTimers = inTimers; }
	void forget()
	{
		s.log("  clear");
		loop->clear();
		regs.clear(); later.clear();
		for(auto &t : timers) t.live = false;
		s.label("clears");
		if(running) stop(); // its interval was a timer too
	}
	void script(int lo, int hi)
	{
		if(!budget) return;
		for(int n = s.irange(lo, hi); n-- && budget; )
		{
			budget--;
			ops++;
			size_t i = s.below(fds.size());
			int c = int(s.weighted({ 6, 4, 1 }));
			F &f = fds[i];
			switch(s.weighted({ 8, 8, 5, 5, 4, 3, 3, 2, 3, 3, 2, 2, 1 }))
			{
			case 0: reg(i, c); break;
			case 1: s.log("  unregister descriptor %zu %s", i, condName(c)); loop->unregisterDescriptor(f.fd, RunLoop::Condition(c)); regs.erase({ i, c }); break;
			case 2: if(f.peer >= 0 && f.kind != 1) { s.log("  send to descriptor %zu", i); char b[50] {}; ssize_t r = ::write(f.peer, b, 1 + s.below(49)); (void)r; } break;
			case 3: if(f.kind != 1) { s.log("  drain descriptor %zu", i); char b[4096]; while(::read(f.fd, b, sizeof b) > 0) { } } break;
			case 4: if(f.kind != 0) { s.log("  fill descriptor %zu", i); char b[512] {}; while(::write(f.fd, b, sizeof b) > 0) { } } break;
			case 5: if(f.peer >= 0 && f.kind != 0) { s.log("  drain the other end of descriptor %zu", i); char b[4096]; while(::read(f.peer, b, sizeof b) > 0) { } } break;
			case 6: defer(); break;
			case 7: timer(); break;
			case 8: s.log("  unregister descriptor %zu", i); loop->unregisterDescriptor(f.fd); for(int k = 0; k < 3; k++) regs.erase({ i, k }); break;
			case 9: if(timers.size()) { size_t k = s.below(timers.size()); s.log("  cancel timer %zu", k); timers[k].t->cancel(); timers[k].live = false; } break;
			case 10: if(f.peer >= 0) { s.log("  close the other end of descriptor %zu", i); ::close(f.peer); f.peer = -1; s.label("other ends closed"); } break;
			case 11: if(running) { stop(); s.label("stops from inside"); } else { s.log("  stop while not running"); loop->stop(); } break;
			default: if(s.chance(1, 4)) forget(); else { s.log("  odd descriptors"); loop->registerDescriptor(-1, RunLoop::READABLE, Task([] { PBT_FAIL("descriptor -1 is readable"); })); loop->unregisterDescriptor(-1); } break;
			}
		}
	}
	void go()
	{
		Watchdog dog(40);
		loop = makeLoop(s, &isSelect);
		int n = s.chance(1, 60) ? s.irange(60, 140) : s.irange(1, 6);
		for(int i = 0; i < n; i++) add(int(s.below(4)));
		if(n > 6) { budget = 600; for(int i = 0; i < n; i++) { char b = 0; if(fds[i].kind != 1) { ssize_t r = ::write(fds[i].peer, &b, 1); (void)r; } if(s.chance(9, 10)) reg(i, 0); } }
		loop->onEveryCycle = [this] {
			PBT_CHECK(running && !stopped, "onEveryCycle was called %s", running ? "after the loop was stopped" : "outside a run");
			endOfCycle("every cycle");
			timersLeft = false;
			script(0, 2);
			timersLeft = true;
			if(stopped) return;
			if(cycles >= wantCycles) { stop(); return; }
			defer(); // so that the next cycle does not sleep
			loop->doLater(Task());
			snapshot();
		};
		for(int runs = s.irange(1, 12); runs--; )
		{
			script(0, 8);
			PBT_CHECK(!loop->isRunningInThisThread(), "the loop says it is running, outside a run");
			bool single = s.flip();
			wantCycles = cycles + s.range(1, 6);
			if(!single) { defer(); loop->doLater(Task()); }
			s.log("run %s", single ? "one cycle" : "several cycles");
			snapshot();
			stopped = false; running = true;
			Time t0 = loop->getCurrentTimeNoCache();
			runStart = t0;
			PBT_CHECK(loop->getCurrentTime() >= t0, "the loop's time is behind the clock outside a run");
			if(single) loop->run(0, s.chance(1, 8) ? 0.0005 : 0); else if(s.flip()) loop->run(); else loop->run(100);
			running = false;
			PBT_CHECK(single || stopped || loop->getCurrentTimeNoCache() - t0 >= 100, "the loop returned from a run before its interval without being stopped");
			if(!stopped) endOfCycle("a single cycle");
			s.label("runs");
		}
		loop->clear();
		loop.reset();
		for(auto &f : fds) { ::close(f.fd); if(f.peer >= 0) ::close(f.peer); }
		s.label("actions", calls);
		s.label("cycles", cycles);
		s.label("deferred tasks", tasksRun);
		if(calls >= 3 && cycles >= 2) s.nontrivial();
	}
};
void steps(Src &s) { Steps st(s); st.go(); }

// --- P32: real time
void clockwork(Src &s)
{
	Watchdog dog(40);
	auto loop = makeLoop(s);
	int p[2];
	if(pipe(p)) { perror("pipe"); _exit(2); }
	unsigned long reads = 0, cycles = 0;
	bool noisy = s.chance(1, 4);
	loop->registerDescriptor(p[0], RunLoop::READABLE, [&] { char b; ssize_t r = ::read(p[0], &b, 1); (void)r; reads++; });
	loop->onEveryCycle = [&] { cycles++; };
	struct T { Time due; Duration every; unsigned fired; Time last; std::shared_ptr<Timer> t; };
	std::vector<T> ts(s.below(6));
	Time t0 = loop->getCurrentTime();
	Time stopAt = s.chance(1, 3) ? t0 + 0.0005L * s.below(30) : -1;
	for(auto &t : ts)
	{
		t.every = s.chance(1, 3) ? 0.0005L * s.range(1, 10) : 0;
		t.fired = 0; t.last = -1;
		T *e = &t;
		Duration d = 0.00025L * s.below(100);
		t.due = t0 + d;
		t.t = loop->schedule(Timer::Action([e, &loop] (const std::shared_ptr<Timer> &me, Time now) {
			Time real = loop->getCurrentTimeNoCache();
			PBT_CHECK(real >= e->due && now >= e->due, "a timer fired %.6Lf s early", e->due - real);
			e->fired++;
			e->due += e->every;
			e->last = real;
		}), t.due, t.every);
	}
	Time stoppedAt = -1;
	if(stopAt >= 0) loop->schedule(Timer::makeAction([&] { loop->stop(); stoppedAt = loop->getCurrentTimeNoCache(); }), stopAt);
	unsigned long wrote = 0;
	std::thread writer;
	if(noisy) writer = std::thread([&] { for(int i = 0; i < 5; i++) { usleep(700); char b = 0; if(write(p[1], &b, 1) == 1) wrote++; } });
	Duration interval = 0.0005L * s.below(40), nap = s.chance(1, 4) ? 0.0005L * s.below(6) : 0;
	s.log("run for %.4Lf s, minimum sleep %.4Lf", interval, nap);
	Time start = loop->getCurrentTimeNoCache();
	loop->run(interval, nap);
	Time end = loop->getCurrentTimeNoCache();
	if(noisy) writer.join();
	bool early = stoppedAt >= 0;
	PBT_CHECK(early || end - start >= interval, "the loop ran %.6Lf s of %.6Lf", end - start, interval);
	Duration due = early ? stopAt - start : interval;
	PBT_CHECK(end - start <= std::max<Duration>(due, 0) + nap + 0.3L, "the loop ran %.6Lf s instead of %.6Lf", end - start, due);
	unsigned long fires = 0;
	for(auto &t : ts)
	{
		fires += t.fired;
		Time ran = early ? stopAt : start + interval;
		if(!t.every) PBT_CHECK(t.fired <= 1, "a single timer fired %u times", t.fired);
		bool pending = !t.fired;
		PBT_CHECK(!pending || t.due >= ran - 0.000001L, "a timer due %.6Lf s before the loop ended did not fire", ran - t.due);
		t.t->cancel();
	}
	if(!nap) PBT_CHECK(cycles <= 20 + 3 * (fires + reads) + (end - start) * 2000, "the loop went round %lu times in %.4Lf s with %lu timers and %lu reads", cycles, end - start, fires, reads);
	if(noisy) { for(int i = 0; i < 200 && reads < wrote; i++) loop->run(0.001); PBT_CHECK(reads == wrote, "%lu of %lu bytes were read", reads, wrote); }
	s.label("timers fired", fires);
	s.label("bytes from another thread", reads);
	if(fires || reads) s.nontrivial();
	loop->clear();
	::close(p[0]); ::close(p[1]);
}

Register p32({ "P32", "histories over 1 to 6 (sometimes up to 140) pipes and socket pairs of registering, replacing and unregistering actions, filling, draining and closing the other end, deferring tasks, scheduling and cancelling timers, stopping and clearing, done between runs and from inside actions, tasks, timers and the every-cycle hook, on either loop; poll(2) before each cycle says which actions that cycle owes; and short runs in real time. Non-trivial: at least three actions over at least two cycles, or something fired",
	{ { "clock", clockwork, 1500, 40000, true }, { "steps", steps, 40000, 1500000 } },
	{ "descriptors are pipes and sockets below FD_SETSIZE, unregistered before they are closed", "the exception condition is the operating system's: urgent data for select, a pending error for epoll", "clear() called inside a run also drops the end of its interval, so the script stops the loop then" } });

// --- P33

struct Shared {
	std::mutex m;
	std::condition_variable cv;
	std::string error;
	void bad(const std::string &e) { std::lock_guard<std::mutex> l(m); if(error.empty()) error = e; }
	void check() { std::lock_guard<std::mutex> l(m); PBT_CHECK(error.empty(), "%s", error.c_str()); }
};

// many threads hand tasks to one performer whose loop runs in a thread of its own
void threads(Src &s)
{
	Watchdog dog(20);
	Shared sh;
	for(int round = 0; round < 3; round++)
	{
		auto loop = makeLoop(s);
		auto perf = share_ref(new Performer(loop.get()), false);
		Performer stopper(loop.get());
		int k = s.irange(1, 4);
		struct Plan { bool wait; unsigned spin; unsigned nested; bool nestedWait; };
		std::vector<std::vector<Plan>> plans(k);
		size_t total = 0;
		for(auto &p : plans) for(int n = s.irange(1, 30); n--; ) { Plan x; x.wait = s.chance(1, 3); x.spin = s.chance(1, 3) ? unsigned(s.below(300)) : 0; x.nested = s.chance(1, 8) ? 1 : 0; x.nestedWait = s.flip(); p.push_back(x); total++; }
		bool closes = s.chance(1, 2);
		int closeBy = closes ? int(s.below(3)) : -1; // a task, a timer, or the descriptor loop being over
		size_t closeAfter = s.below(total + 1);
		s.log("%d threads, %zu tasks%s", k, total, closeBy == 0 ? ", closed from a task" : closeBy == 1 ? ", closed from a timer" : closeBy == 2 ? ", closed with the loop stopped" : "");
		std::atomic<bool> loopUp { false }, closed { false }, tearing { false };
		std::atomic<std::thread::id> loopThread { std::thread::id() };
		std::vector<int> last(k, -1);            // loop thread only
		std::vector<std::vector<std::atomic<int>>> ran(k);
		std::vector<int> nestedDue;              // loop thread only
		for(int i = 0; i < k; i++) { std::vector<std::atomic<int>> v(plans[i].size()); for(auto &a : v) a = 0; ran[i].swap(v); }
		size_t count = 0, nestedRan = 0, nestedMade = 0;
		std::atomic<int> finished { 0 };
		auto closeIt = [&] { perf->close(); closed = true; };
		auto body = [&] (int i, int j) {
			if(std::this_thread::get_id() != loopThread.load()) sh.bad("a task ran in a thread other than its loop's");
			if(closed) sh.bad("a task ran after its performer was closed");
			if(last[i] >= j) sh.bad("thread " + std::to_string(i) + "'s task " + std::to_string(j) + " ran after its task " + std::to_string(last[i]));
			last[i] = j;
			if(++ran[i][j] != 1) sh.bad("a task ran twice");
			count++;
			const Plan &p = plans[i][j];
			if(p.nested)
			{
				bool did = false, *flag = &did; bool w = p.nestedWait;
				nestedMade++;
				auto go = std::make_shared<bool>(false);
				perf->perform([&, go, w] { *go = true; nestedRan++; if(std::this_thread::get_id() != loopThread.load()) sh.bad("a task ran in a thread other than its loop's"); if(closed && !w) sh.bad("a task submitted by a task ran after its performer was closed"); }, w);
				(void)flag;
				if(w && !*go && !closed) sh.bad("a waiting submission from the loop's own thread returned before its task ran");
			}
			if(closeBy == 0 && count == closeAfter + 1 && !closed) closeIt();
		};
		std::shared_ptr<Timer> closer;
		if(closeBy == 1) closer = loop->schedule(Timer::makeAction([&] { if(!closed && count >= closeAfter) closeIt(); }), loop->getCurrentTime(), 0.0001, false);
		std::thread lt([&] {
			loopThread = std::this_thread::get_id();
			loopUp = true;
			loop->run(INFINITY);
		});
		std::vector<std::thread> ps;
		for(int i = 0; i < k; i++) ps.emplace_back([&, i] {
			for(size_t j = 0; j < plans[i].size(); j++)
			{
				for(volatile unsigned n = plans[i][j].spin * 10; n; n--) { }
				bool w = plans[i][j].wait;
				bool over = closed;
				perf->perform([&, i, j] { body(i, int(j)); }, w);
				if(w && !ran[i][j] && !closed && closeBy < 0) sh.bad("a waiting submission returned before its task ran");
				if(w && over && ran[i][j]) sh.bad("a task submitted after closing ran");
			}
			{ std::lock_guard<std::mutex> l(sh.m); finished++; }
			sh.cv.notify_all();
		});
		if(closeBy == 2)
		{
			// the loop ends while threads are still submitting, and the performer is closed then
			std::thread::id none;
			while(!loopUp) std::this_thread::yield();
			usleep(unsigned(s.below(300)));
			auto ended = std::make_shared<std::atomic<bool>>(false);
			perf->perform([&] { loop->stop(); });
			lt.join();
			closeIt();
		}
		{
			std::unique_lock<std::mutex> l(sh.m);
			bool ok = sh.cv.wait_for(l, std::chrono::seconds(8), [&] { return finished == k || !sh.error.empty(); });
			std::string e = sh.error;
			if(!e.empty()) PBT_FAIL("%s", e.c_str());
			PBT_CHECK(ok, "%d of %d submitting threads are blocked%s", k - finished.load(), k, closes ? " since the performer was closed" : "");
		}
		for(auto &t : ps) t.join();
		if(closeBy != 2)
		{
			if(closeBy < 0)
			{
				bool drained = false;
				perf->perform([&] { drained = true; }, true);
				PBT_CHECK(drained, "a waiting submission returned before its task ran");
				perf->perform([&] { drained = false; }, true); // tasks submitted by tasks above
				perf->perform([&] { loop->stop(); });
			}
			else
			{
				stopper.perform([&] { loop->stop(); });
			}
			lt.join();
		}
		sh.check();
		size_t sum = 0;
		for(auto &v : ran) for(auto &a : v) { PBT_CHECK(a <= 1, "a task ran %d times", a.load()); sum += a; }
		if(!closes) PBT_CHECK(sum == total, "%zu of %zu tasks ran", sum, total);
		if(!closes) PBT_CHECK(nestedRan == nestedMade, "%zu of %zu tasks submitted by tasks ran", nestedRan, nestedMade);
		s.label(closes ? "rounds with a close" : "rounds without a close");
		s.label("tasks", sum);
		if(closer) closer->cancel();
		bool late = false;
		perf->close();
		perf->perform([&] { late = true; });
		perf->perform([&] { late = true; }, true);
		loop->run(0);
		PBT_CHECK(!late, "a closed performer ran a task");
		perf.reset();
		stopper.close();
		loop->clear();
		if(total > 3) s.nontrivial();
	}
}

// one thread, the loop run by hand, and helper threads that are known to be blocked: exact order
void order(Src &s)
{
	Watchdog dog(20);
	Shared sh;
	auto loop = makeLoop(s);
	auto perf = share_ref(new Performer(loop.get()), false);
	std::deque<int> pending; int next = 1;
	bool closed = false, running = false;
	unsigned long ran = 0, waits = 0;
	int budget = 60;
	struct Waiter { std::thread t; std::shared_ptr<std::atomic<bool>> back; int id; };
	std::vector<Waiter> waiters;
	std::set<int> done;
	std::mutex dm;
	std::function<void()> some;
	auto task = [&] (int id, bool waiting) {
		return [&, id, waiting] {
			s.log("  task %d", id);
			PBT_CHECK(running, "task %d ran outside the loop", id);
			PBT_CHECK(!closed, "task %d ran after the performer was closed", id);
			bool first; { std::lock_guard<std::mutex> l(dm); first = done.insert(id).second; }
			PBT_CHECK(first, "task %d ran twice", id);
			ran++;
			if(waiting) return;
			PBT_CHECK(!pending.empty() && pending.front() == id, "task %d ran, expected %d", id, pending.empty() ? 0 : pending.front());
			pending.pop_front();
			some();
		};
	};
	auto submit = [&] {
		int id = next++;
		s.log("submit task %d%s", id, closed ? " (closed)" : "");
		if(!closed) pending.push_back(id);
		perf->perform(task(id, false));
	};
	auto blocked = [&] {
		// a thread that waits for its task, which may enter the queue at any time from now on
		int id = next++;
		s.log("another thread submits task %d and waits%s", id, closed ? " (closed)" : "");
		auto back = std::make_shared<std::atomic<bool>>(false);
		auto in = std::make_shared<std::atomic<bool>>(false);
		bool wasClosed = closed;
		auto t = task(id, true);
		waiters.push_back({ std::thread([&, back, in, id, t] { *in = true; perf->perform(t, true); *back = true; }), back, id });
		while(!*in) std::this_thread::yield();
		if(wasClosed) { for(int n = 0; !*back && n < 80000; n++) usleep(100); PBT_CHECK(*back, "a waiting submission to a closed performer does not return"); }
		else usleep(300); // most likely it is in the queue now
		waits++;
	};
	auto check = [&] (bool now) {
		for(auto &w : waiters)
		{
			bool d; { std::lock_guard<std::mutex> l(dm); d = done.count(w.id); }
			if(*w.back && !closed) PBT_CHECK(d, "the submission of task %d returned before the task ran", w.id);
			if(d || (closed && now)) { for(int n = 0; !*w.back && n < 80000; n++) usleep(100); PBT_CHECK(*w.back, "the thread that waits for task %d is blocked although %s", w.id, d ? "it ran" : "the performer was closed"); }
		}
	};
	some = [&] {
		for(int n = int(s.below(3)); n-- && budget-- > 0; )
			switch(s.weighted({ 5, 4, 1, 1 }))
			{
			case 0: submit(); break;
			case 1:
			{
				int id = next++;
				s.log("  submit task %d from the loop's thread and wait%s", id, closed ? " (closed)" : "");
				auto before = pending; bool was = closed;
				auto t = task(id, true);
				perf->perform([&, before] {
					std::lock_guard<std::mutex> l(dm);
					if(!closed) for(int b : before) PBT_CHECK(done.count(b), "a task submitted by the loop's thread with waiting ran before task %d submitted earlier", b);
				}, true);
				perf->perform(t, true);
				(void)was;
				bool d; { std::lock_guard<std::mutex> l(dm); d = done.count(id); }
				if(!closed) PBT_CHECK(d, "a waiting submission from the loop's own thread returned before its task ran");
				break;
			}
			case 2: perf->perform(Task()); break;
			default:
				if(!closed) { s.log("  close"); closed = true; pending.clear(); perf->close(); s.label("closed from inside"); check(true); }
				break;
			}
	};
	for(int n = s.irange(1, 12); n--; )
	{
		switch(s.weighted({ 5, 2, 5, 1, 1 }))
		{
		case 0: submit(); break;
		case 1: if(waiters.size() < 4) blocked(); break;
		case 2:
			s.log("run");
			running = true; loop->run(0); loop->run(0); running = false;
			if(!closed) { PBT_CHECK(pending.empty(), "%zu tasks were not run", pending.size()); }
			for(int k = 0; k < 80000; k++)
			{
				bool all = true;
				for(auto &w : waiters) all = all && *w.back;
				if(all || closed) break;
				running = true; loop->run(0); running = false;
				usleep(100);
			}
			if(!closed) for(auto &w : waiters) PBT_CHECK(*w.back, "the thread that waits for task %d is blocked although the loop runs", w.id);
			check(true);
			break;
		case 3: if(!closed && s.chance(1, 2)) { s.log("close"); closed = true; pending.clear(); perf->close(); s.label("closed from outside a run"); check(true); } break;
		default: perf->perform(Task()); break;
		}
	}
	bool dtor = s.flip();
	if(!closed && !dtor) { running = true; loop->run(0); loop->run(0); running = false; if(!closed) PBT_CHECK(pending.empty(), "%zu tasks were not run", pending.size()); check(true); }
	closed = true; pending.clear();
	perf->close();
	check(true);
	for(auto &w : waiters) w.t.join();
	perf.reset();
	loop->run(0);
	loop->clear();
	s.label("waiting threads", waits);
	s.label("tasks", ran);
	if(ran > 2) s.nontrivial();
}

// the platform adapter's tasks go to the right thread, and stop when it is closed
void platform(Src &s)
{
	Watchdog dog(20);
	Shared sh;
	auto mainLoop = makeLoop(s);
	auto workLoop = makeLoop(s);
	Performer mainPerf(mainLoop.get()), workPerf(workLoop.get());
	bool worker = s.chance(3, 4);
	auto pa = std::make_shared<PerformerPosixPlatformAdapter>(mainLoop.get(), &mainPerf, worker ? &workPerf : nullptr);
	std::atomic<std::thread::id> mainThread { std::this_thread::get_id() }, workThread { std::thread::id() };
	std::atomic<bool> up { false };
	std::thread wt([&] { workThread = std::this_thread::get_id(); up = true; workLoop->run(); });
	while(!up) std::this_thread::yield();
	std::atomic<int> ran { 0 };
	std::atomic<bool> closed { false };
	int lastBy[2] = { -1, -1 }, total = 0;
	int n = s.irange(1, 30);
	std::function<void(int)> chain;
	for(int j = 0; j < n; j++)
	{
		unsigned long where = s.below(3);
		bool bounce = s.chance(1, 3);
		total += bounce ? 2 : 1;
		pa->perform(where, [&, j, where, bounce] {
			bool onWork = worker && where;
			if(std::this_thread::get_id() != (onWork ? workThread : mainThread).load()) sh.bad("a platform task for thread " + std::to_string(where) + " ran in the wrong thread");
			if(closed) sh.bad("a platform task ran after close");
			if(lastBy[onWork] >= j) sh.bad("platform tasks ran out of order");
			lastBy[onWork] = j;
			ran++;
			if(bounce) pa->perform(onWork ? 0 : 1, [&, onWork] {
				if(std::this_thread::get_id() != (worker && !onWork ? workThread : mainThread).load()) sh.bad("a platform task answered in the wrong thread");
				ran++;
			});
		});
	}
	int closeAt = s.chance(1, 3) ? int(s.below(5)) : -1;
	for(int i = 0; i < 8000 && ran < total; i++)
	{
		if(closeAt == i)
		{
			// with the worker quiet: tasks that wait in the main queue are dropped
			workPerf.perform(Task(), true);
			pa->close(); closed = true;
			break;
		}
		mainLoop->run(0.0005);
		sh.check();
	}
	if(closed)
	{
		int had = ran;
		mainLoop->run(0); workPerf.perform(Task(), true); mainLoop->run(0);
		PBT_CHECK(ran == had, "a platform task ran after close");
		s.label("closed with tasks left", had < total);
	}
	else PBT_CHECK(ran == total, "%d of %d platform tasks ran", ran.load(), total);
	if(!closed) pa->close();
	workPerf.perform([&] { workLoop->stop(); });
	wt.join();
	sh.check();
	mainPerf.close(); workPerf.close();
	s.label("platform tasks", ran);
	if(total > 2) s.nontrivial();
	mainLoop->clear(); workLoop->clear();
}

Register p33({ "P33", "up to four threads submitting up to 30 tasks each, waiting or not, to a performer whose loop runs in its own thread, tasks that submit further tasks, and closing from a task, a timer or with the loop stopped while threads still submit; single-threaded histories with threads known to be blocked in a waiting submission, against an exact queue; and the platform adapter's two performers. Non-trivial: several tasks",
	{ { "order", order, 20000, 600000 }, { "threads", threads, 12000, 400000 }, { "platform", platform, 4000, 120000 } },
	{ "a performer is closed in its loop's thread or while the loop does not run", "the loop outlives the threads that submit" } });

} // anonymous namespace
