// P38: TC client connections, against a model over a recording transport, and over RTMFP against a scripted server.
#include "net.hpp"
#include "guard.hpp"
#include "simtimers.hpp"
#include "rtmfp/TCConnection.hpp"
#include <algorithm>
#include <deque>
using namespace sim;
using namespace com::zenomt::rtmp;
using pbt::Register;
using pbt::hex;

namespace {

using Args = std::vector<std::shared_ptr<AMF0> >;

std::string show(const std::shared_ptr<AMF0> &v) { return v ? hex(AMF0::encode(v.get()), 100000) : "nothing"; }
std::string show(const Args &a) { return hex(AMF0::encode(a), 100000); }
std::string num(double d) { char b[40]; snprintf(b, sizeof b, "%.17g", d); return b; }

std::shared_ptr<AMF0> value(Src &s, int depth = 0)
{
	switch(s.weighted({ 3, 3, 2, 1, 1, depth < 3 ? 3u : 0u }))
	{
	case 0: return AMF0::Number(s.chance(1, 4) ? s.unit() * 1e9 : double(s.below(10)));
	case 1: return AMF0::String(s.text(s.below(12), "abcdefgh"));
	case 2: return AMF0::Null();
	case 3: return AMF0::Boolean(s.flip());
	case 4: return AMF0::Undefined();
	default:
	{
		auto o = AMF0::Object();
		for(int n = s.below(4); n--; ) o->putValueAtKey(value(s, depth + 1), s.text(1 + s.below(4), "abcd"));
		return o;
	}
	}
}
Args values(Src &s) { Args a; for(int n = s.below(4); n--; ) a.push_back(value(s)); return a; }

struct Sent { uint32_t sid; uint8_t type; uint32_t ts; Bytes payload; Duration startWithin, finishWithin; };

struct Fake : public TCConnection {
	std::vector<Sent> sent;
	bool refuse { false };
	bool &freed;
	explicit Fake(bool &b) : TCConnection(0), freed(b) {}
	~Fake() { freed = true; }
	std::shared_ptr<WriteReceipt> write(uint32_t sid, uint8_t type, uint32_t ts, const void *p, size_t n, Duration sw, Duration fw) override
	{
		sent.push_back({ sid, type, ts, Bytes((const uint8_t *)p, (const uint8_t *)p + n), sw, fw });
		return refuse ? nullptr : share_ref(new WriteReceipt(0, INFINITY, INFINITY), false);
	}
	void receive(uint32_t sid, uint8_t type, uint32_t ts, const uint8_t *p, size_t n) { auto me = share_ref(this); onMessage(sid, type, ts, p, n); }
	void transportOpen() { m_transportOpen = true; auto f = onTransportOpen; if(f) f(); }
	void lost(bool error) { auto me = share_ref(this); basicClose(error); }
};

struct Logic {
	Src &s;
	std::shared_ptr<Fake> conn;
	Fake *f;
	using Step = std::function<std::string()>; // what must be called next, or nothing
	std::deque<Step> steps;

	struct St {
		int uid; std::shared_ptr<TCStream> ref; TCStream *raw; std::weak_ptr<TCStream> weak;
		bool userOpen { true }; uint32_t id { 0 };
		unsigned open { 0 }, status { 0 }, data { 0 }, audio { 0 }, video { 0 };
		std::vector<Bytes> queued;
		void clear() { open = status = data = audio = video = 0; }
	};
	std::vector<std::unique_ptr<St> > streams;
	enum Kind { CONNECT, TRANSACT, CREATE };
	struct Pend { Kind kind; unsigned handler; St *st; };
	std::map<double, Pend> pending;
	std::set<double> used;
	std::map<uint32_t, St *> ids;
	bool open { true }, transport { false }, tcOpen { false }, begun { false };
	unsigned onClose { 0 }, onStatus { 0 }, onCommand { 0 }, onTransportOpen { 0 };
	unsigned gen { 0 };
	double lastTID { 0 };
	std::vector<Sent> expect;
	int depth { 0 }, closes { 0 };
	unsigned long reentrant { 0 }, resolved { 0 }, failed { 0 }, bound { 0 }, refused { 0 }, malformed { 0 }, dispatched { 0 };

	bool freed { false };
	explicit Logic(Src &s_) : s(s_) { conn = share_ref(new Fake(freed), false); f = conn.get(); }

	// --- expectation

	void front(const std::vector<Step> &v) { steps.insert(steps.begin(), v.begin(), v.end()); }
	std::string next()
	{
		while(!steps.empty())
		{
			Step x = steps.front();
			steps.pop_front();
			std::string e = x();
			if(e.size()) return e;
		}
		return "";
	}
	void drain(const char *what)
	{
		std::string e = next();
		PBT_CHECK(e.empty(), "after %s this was never called: %s", what, e.c_str());
		check(what);
	}
	void check(const char *what)
	{
		size_t n = std::min(expect.size(), f->sent.size());
		for(size_t i = 0; i < n; i++)
		{
			const Sent &x = expect[i], &y = f->sent[i];
			PBT_CHECK(x.sid == y.sid && x.type == y.type && x.ts == y.ts && x.payload == y.payload && x.startWithin == y.startWithin && x.finishWithin == y.finishWithin,
				"after %s message %zu sent was stream %u type %d time %u %s (within %Lg %Lg), it should be stream %u type %d time %u %s (within %Lg %Lg)", what, i,
				y.sid, y.type, y.ts, hex(y.payload, 200).c_str(), y.startWithin, y.finishWithin, x.sid, x.type, x.ts, hex(x.payload, 200).c_str(), x.startWithin, x.finishWithin);
		}
		PBT_CHECK(f->sent.size() <= expect.size(), "after %s this was sent, and should not be: stream %u type %d %s", what, f->sent[n].sid, f->sent[n].type, hex(f->sent[n].payload, 200).c_str());
		PBT_CHECK(f->sent.size() >= expect.size(), "after %s this was never sent: stream %u type %d %s", what, expect[n].sid, expect[n].type, hex(expect[n].payload, 200).c_str());
		PBT_CHECK(f->isOpen() == (open && transport), "after %s isOpen() is %d", what, f->isOpen());
		PBT_CHECK(f->isConnected() == (open && transport && tcOpen), "after %s isConnected() is %d", what, f->isConnected());
		for(auto &x : streams) if(x->ref) PBT_CHECK(x->ref->isOpen() == (x->userOpen && x->id), "after %s isOpen() of stream %d is %d", what, x->uid, x->ref->isOpen());
	}
	// a callback ran
	void hit(const std::string &what)
	{
		s.log("  called %s", what.c_str());
		std::string e = next();
		PBT_CHECK(e == what, "called %s, instead of %s", what.c_str(), e.size() ? e.c_str() : "nothing");
		dispatched++;
		if(depth < 4)
		{
			depth++;
			for(int n = s.weighted({ 3, 3, 1 }); n--; ) { reentrant++; op(); }
			depth--;
		}
	}
	struct Canary { std::string text; };
	std::shared_ptr<Canary> canary() { auto c = std::make_shared<Canary>(); c->text = std::string(40, 'c'); return c; }
	static void alive(const std::shared_ptr<Canary> &c) { PBT_CHECK(c->text == std::string(40, 'c'), "a callback was destroyed while running"); }

	// --- model of closing

	Step closing(bool error)
	{
		return [=] () -> std::string {
			if(!open) return "";
			open = false;
			closes++;
			bool fail = error && !tcOpen;
			front({
				[=] () -> std::string {
					if(!onStatus) return "";
					auto o = AMF0::Object();
					o->putValueAtKey(AMF0::String(fail ? "error" : "status"), "level");
					o->putValueAtKey(AMF0::String(fail ? "NetConnection.Connect.Failed" : "NetConnection.Connect.Closed"), "code");
					return "status " + std::to_string(onStatus) + " " + show(share_ref(o.get()));
				},
				[=] () -> std::string {
					unsigned c = onClose;
					onClose = onStatus = onCommand = onTransportOpen = 0;
					std::vector<Step> v;
					for(auto &p : pending)
					{
						Pend x = p.second;
						v.push_back([=] () -> std::string {
							failed++;
							if(x.kind == CREATE) { gone(x.st); return ""; }
							if(x.kind == CONNECT) tcOpen = false;
							return x.handler ? "handler " + std::to_string(x.handler) + " 0 nothing" : "";
						});
						if(x.kind == CONNECT) v.push_back([=] () -> std::string { return onStatus ? "status " + std::to_string(onStatus) + " nothing" : ""; });
					}
					v.push_back([=] () -> std::string {
						pending.clear();
						auto copy = ids;
						for(auto &p : copy) gone(p.second);
						return c ? "close " + std::to_string(c) : "";
					});
					front(v);
					return "";
				},
			});
			return "";
		};
	}
	// a stream is deleted
	void gone(St *st)
	{
		st->userOpen = false;
		st->clear();
		if(st->id)
		{
			auto it = ids.find(st->id);
			if(it != ids.end() && it->second == st)
			{
				expect.push_back({ 0, TCMSG_COMMAND, 0, Message::command("deleteStream", 0, { AMF0::Null(), AMF0::Number(st->id) }), INFINITY, INFINITY });
				ids.erase(it);
			}
		}
		st->id = 0;
	}

	// run something that makes callbacks, from inside another or not
	void run(const char *what, const std::vector<Step> &v, const std::function<void()> &fn)
	{
		auto outer = std::move(steps);
		steps.assign(v.begin(), v.end());
		fn();
		drain(what);
		steps = std::move(outer);
	}

	// --- what the application does

	TCConnection::Handler handler(unsigned g)
	{
		auto c = canary();
		return [this, g, c] (bool ok, std::shared_ptr<AMF0> v) {
			PBT_CHECK(!ok || v, "a response succeeded with no value");
			resolved++;
			hit("handler " + std::to_string(g) + " " + std::to_string(ok) + " " + show(v));
			alive(c);
		};
	}
	// the transaction just queued
	void queued(bool rv, size_t before, const char *name, const Args &args, Pend p)
	{
		PBT_CHECK(f->sent.size() == before + 1, "%s sent %zu messages", name, f->sent.size() - before);
		Sent x = f->sent.back();
		const uint8_t *c = x.payload.data(), *l = c + x.payload.size();
		auto n = AMF0::decode(&c, l), t = AMF0::decode(&c, l);
		PBT_CHECK(n && n->isString() && std::string(n->stringValue()) == name && t && t->isNumber(), "%s was sent as %s", name, hex(x.payload).c_str());
		double tid = t->doubleValue();
		PBT_CHECK(Bytes(c, l) == AMF0::encode(args), "%s was sent with other arguments: %s", name, hex(x.payload, 300).c_str());
		PBT_CHECK(tid > lastTID, "%s has transaction ID %g after %g", name, tid, lastTID);
		PBT_CHECK(p.kind != CONNECT || tid == 1, "connect has transaction ID %g", tid);
		lastTID = tid;
		used.insert(tid);
		expect.push_back({ 0, TCMSG_COMMAND, 0, x.payload, INFINITY, INFINITY });
		PBT_CHECK(rv == !f->refuse, "%s answered %d", name, rv);
		if(rv) pending[tid] = p; else refused++;
	}

	void connect()
	{
		std::string host = s.text(1 + s.below(8), "abcdef"), app = s.text(s.below(8), "xyz/");
		while(app.size() && app[0] == '/') app.erase(0, 1);
		std::string q = s.flip() ? "?" + s.text(s.below(5), "k=v") : "";
		std::string url = "rtmfp://" + host + "/" + app + q;
		auto o = AMF0::Object();
		bool own = s.flip();
		if(own) for(int n = s.below(5); n--; ) o->putValueAtKey(value(s), s.pick<std::string>({ "tcUrl", "app", "objectEncoding", "flashVer", "x" }));
		auto e = o->duplicate();
		if(!e->getValueAtKey("tcUrl")->isString()) e->asObject()->putValueAtKey(AMF0::String(url), "tcUrl");
		if(!e->getValueAtKey("app")->isString()) e->asObject()->putValueAtKey(AMF0::String(app + q), "app");
		if(!e->getValueAtKey("objectEncoding")->isNumber()) e->asObject()->putValueAtKey(AMF0::Number(0), "objectEncoding");
		Args args = values(s), all = args;
		all.insert(all.begin(), e);
		unsigned g = s.chance(9, 10) ? ++gen : 0;
		bool can = open && !begun;
		size_t n = f->sent.size();
		s.log("connect %s, handler %u", url.c_str(), g);
		bool rv = f->connect(g ? handler(g) : TCConnection::Handler(), url, own ? o.get() : nullptr, args);
		if(!can) { PBT_CHECK(!rv && f->sent.size() == n, "connect was accepted %s", open ? "twice" : "after close"); return; }
		begun = true;
		queued(rv, n, "connect", all, { CONNECT, g, nullptr });
	}
	void create()
	{
		size_t n = f->sent.size();
		s.log("createStream");
		auto x = f->createStream();
		if(!open) { PBT_CHECK(!x && f->sent.size() == n, "createStream after close"); return; }
		begun = true;
		PBT_CHECK(!!x == !f->refuse, "createStream answered %s while messages were %srefused", x ? "a stream" : "nothing", f->refuse ? "" : "not ");
		std::unique_ptr<St> st(new St);
		st->uid = int(streams.size());
		st->raw = x.get();
		st->ref = x;
		st->weak = x;
		if(!x) st->userOpen = false;
		streams.push_back(std::move(st));
		St *p = streams.back().get();
		queued(!!x, n, "createStream", { AMF0::Null() }, { CREATE, 0, p });
		if(x) for(int i = 0; i < 5; i++) if(s.chance(4, 5)) callback(p, i);
	}
	void callback(St *st, int which)
	{
		unsigned g = s.chance(1, 5) ? 0 : ++gen;
		auto c = canary();
		std::string u = std::to_string(st->uid) + "." + std::to_string(g);
		switch(which)
		{
		case 0: st->open = g; if(g) st->ref->onOpen = [=] { hit("open " + u); alive(c); }; else st->ref->onOpen = nullptr; break;
		case 1: st->status = g; if(g) st->ref->onStatus = [=] (std::shared_ptr<AMF0> i) { hit("status " + u + " " + show(i)); alive(c); }; else st->ref->onStatus = nullptr; break;
		case 2: st->data = g; if(g) st->ref->onData = [=] (uint32_t ts, const std::string &cmd, const Args &a) { hit("data " + u + " " + std::to_string(ts) + " " + cmd + " " + show(a)); alive(c); }; else st->ref->onData = nullptr; break;
		case 3: st->audio = g; if(g) st->ref->onAudio = [=] (uint32_t ts, const uint8_t *p, size_t n) { hit("audio " + u + " " + std::to_string(ts) + " " + hex(p, n, 100000)); alive(c); }; else st->ref->onAudio = nullptr; break;
		default: st->video = g; if(g) st->ref->onVideo = [=] (uint32_t ts, const uint8_t *p, size_t n) { hit("video " + u + " " + std::to_string(ts) + " " + hex(p, n, 100000)); alive(c); }; else st->ref->onVideo = nullptr; break;
		}
	}
	void callback(int which)
	{
		if(!open) return; // after close the application has no more to say
		unsigned g = s.chance(1, 6) ? 0 : ++gen;
		auto c = canary();
		std::string u = std::to_string(g);
		switch(which)
		{
		case 0: onClose = g; if(g) f->onClose = [=] { hit("close " + u); alive(c); }; else f->onClose = nullptr; break;
		case 1: onStatus = g; if(g) f->onStatus = [=] (std::shared_ptr<AMF0> i) { hit("status " + u + " " + show(i)); alive(c); }; else f->onStatus = nullptr; break;
		case 2: onCommand = g; if(g) f->onCommand = [=] (const std::string &cmd, const Args &a) { hit("command " + u + " " + cmd + " " + show(a)); alive(c); }; else f->onCommand = nullptr; break;
		default: onTransportOpen = g; if(g) f->onTransportOpen = [=] { hit("transport " + u); alive(c); }; else f->onTransportOpen = nullptr; break;
		}
	}
	St *stream() { std::vector<St *> v; for(auto &x : streams) if(x->ref) v.push_back(x.get()); return v.empty() ? nullptr : s.pick(v); }

	void flush(St *st)
	{
		if(!st->id) return;
		for(auto &b : st->queued) expect.push_back({ st->id, TCMSG_COMMAND, 0, b, INFINITY, INFINITY });
		st->queued.clear();
	}
	void streamOp(St *st)
	{
		auto cmd = [&] (const char *name, std::shared_ptr<AMF0> ins, const Args &a) {
			Bytes b = Message::command(name, 0, { AMF0::Null() });
			if(ins) ins->encode(b);
			AMF0::encode(a, b);
			st->queued.push_back(b);
			flush(st);
		};
		uint32_t ts = uint32_t(s.sized(0xffffffff));
		switch(s.below(12))
		{
		case 0: { Args a = values(s); auto n = s.text(s.below(6), "pqr"); s.log("stream %d publish", st->uid); cmd("publish", AMF0::String(n), a); st->ref->publish(n, a); break; }
		case 1: { Args a = values(s); auto n = s.text(s.below(6), "pqr"); s.log("stream %d play", st->uid); cmd("play", AMF0::String(n), a); st->ref->play(n, a); break; }
		case 2: { bool b = s.flip(); s.log("stream %d pause", st->uid); cmd("pause", AMF0::Boolean(b), {}); st->ref->pause(b); break; }
		case 3: { bool b = s.flip(); s.log("stream %d receiveAudio", st->uid); cmd("receiveAudio", AMF0::Boolean(b), {}); st->ref->receiveAudio(b); break; }
		case 4: { bool b = s.flip(); s.log("stream %d receiveVideo", st->uid); cmd("receiveVideo", AMF0::Boolean(b), {}); st->ref->receiveVideo(b); break; }
		case 5: s.log("stream %d closeStream", st->uid); cmd("closeStream", nullptr, {}); st->ref->closeStream(); break;
		case 6:
		{
			auto n = s.text(s.below(6), "pqr");
			Args a = values(s);
			Bytes b;
			AMF0::String(n)->encode(b);
			AMF0::encode(a, b);
			bool timed = s.flip();
			s.log("stream %d send %s at %u", st->uid, n.c_str(), timed ? ts : 0);
			if(st->id) expect.push_back({ st->id, TCMSG_DATA, timed ? ts : 0, b, INFINITY, INFINITY });
			auto r = timed ? st->ref->send(ts, n, a) : st->ref->send(n, a);
			PBT_CHECK(!!r == (st->id && !f->refuse), "send answered %s", r ? "a receipt" : "nothing");
			break;
		}
		case 7: case 8:
		{
			bool audio = s.flip();
			Bytes b = s.bytes(s.below(20));
			Duration sw = s.pick<Duration>({ INFINITY, 1, 0.5 }), fw = s.pick<Duration>({ INFINITY, 2, 0 });
			if(st->id) expect.push_back({ st->id, uint8_t(audio ? TCMSG_AUDIO : TCMSG_VIDEO), ts, b, sw, fw });
			s.log("stream %d send %s at %u", st->uid, audio ? "audio" : "video", ts);
			auto r = audio ? s.flip() ? st->ref->sendAudio(ts, b, sw, fw) : st->ref->sendAudio(ts, b.data(), b.size(), sw, fw) : s.flip() ? st->ref->sendVideo(ts, b, sw, fw) : st->ref->sendVideo(ts, b.data(), b.size(), sw, fw);
			PBT_CHECK(!!r == (st->id && !f->refuse), "sending media answered %s", r ? "a receipt" : "nothing");
			if(r && s.flip()) st->ref->chain(r);
			break;
		}
		case 9: s.log("stream %d sync", st->uid); st->ref->sync(); break;
		case 10: s.log("stream %d expire chain", st->uid); st->ref->expireChain(s.pick<Time>({ 0, 5, INFINITY })); break;
		default: { int which = s.below(5); s.log("stream %d callback %d", st->uid, which); if(st->userOpen) callback(st, which); break; }
		}
	}

	void op()
	{
		switch(s.weighted({ 10, 6, 4, 3, 3, 3, 3, 2, 1 }))
		{
		case 0: { St *st = stream(); if(st) streamOp(st); break; }
		case 1: if(begun || s.chance(1, 30)) create(); break;
		case 2:
		{
			std::string n = s.pick<std::string>({ "doit", "createStream", "deleteStream", "connect", "other", "_result" });
			bool can = open && begun && n != "createStream" && n != "deleteStream" && n != "connect";
			Args a = values(s);
			unsigned g = s.chance(5, 6) ? ++gen : 0;
			size_t b = f->sent.size();
			s.log("transact %s, handler %u", n.c_str(), g);
			bool rv = f->transact(g ? handler(g) : TCConnection::Handler(), n, a);
			if(!can) { PBT_CHECK(!rv && f->sent.size() == b, "transact %s was accepted", n.c_str()); break; }
			queued(rv, b, n.c_str(), a, { TRANSACT, g, nullptr });
			break;
		}
		case 3:
		{
			std::string n = s.pick<std::string>({ "doit", "createStream", "deleteStream", "connect", "other" });
			bool can = open && n != "createStream" && n != "deleteStream" && n != "connect";
			Args a = values(s);
			s.log("command %s", n.c_str());
			if(can) expect.push_back({ 0, TCMSG_COMMAND, 0, Message::command(n.c_str(), 0, a), INFINITY, INFINITY });
			bool rv = f->command(n, a);
			PBT_CHECK(rv == (can && !f->refuse), "command %s answered %d", n.c_str(), rv);
			break;
		}
		case 4: { int which = s.below(4); s.log("callback %d", which); callback(which); break; }
		case 5:
		{
			St *st = stream();
			if(!st) break;
			s.log("stream %d deleteStream", st->uid);
			gone(st);
			st->ref->deleteStream();
			break;
		}
		case 6: { St *st = stream(); if(st) { s.log("stream %d dropped", st->uid); st->ref.reset(); } break; }
		case 7: if(s.chance(1, 3)) { s.log("close"); run("close()", { closing(false) }, [this] { f->close(); }); } break;
		default: connect(); break;
		}
	}

	// --- what the server does

	void receive(uint32_t sid, uint8_t type, uint32_t ts, const Bytes &p)
	{
		s.log("receive stream %u type %d time %u %s", sid, type, ts, hex(p, 60).c_str());
		std::vector<Step> v;
		if((type == TCMSG_COMMAND || type == TCMSG_COMMAND_EX) && p.size() && !(type == TCMSG_COMMAND_EX && p[0]))
		{
			const uint8_t *c = p.data() + (type == TCMSG_COMMAND_EX), *l = p.data() + p.size();
			auto n = AMF0::decode(&c, l), t = AMF0::decode(&c, l);
			AMF0::decode(&c, l);
			Args args;
			AMF0::decode(c, l, args);
			if(!n || !n->isString() || !t || !t->isNumber()) { malformed++; v.push_back(closing(true)); }
			else
			{
				std::string name = n->stringValue();
				auto arg = args.empty() ? AMF0::Undefined() : args[0];
				if(sid) v.push_back([=] () -> std::string { auto it = ids.find(sid); return it != ids.end() && name == "onStatus" && it->second->status ? "status " + std::to_string(it->second->uid) + "." + std::to_string(it->second->status) + " " + show(arg) : ""; });
				else if(name == "onStatus") v.push_back([=] () -> std::string { return onStatus ? "status " + std::to_string(onStatus) + " " + show(arg) : ""; });
				else if(name != "_result" && name != "_error") v.push_back([=] () -> std::string { return onCommand ? "command " + std::to_string(onCommand) + " " + name + " " + show(args) : ""; });
				else response(name == "_result", t->doubleValue(), arg, v);
			}
		}
		else if(sid && ids.count(sid))
		{
			St *st = ids[sid];
			std::string u = std::to_string(st->uid) + ".";
			if(type == TCMSG_AUDIO) v.push_back([=] () -> std::string { return st->audio ? "audio " + u + std::to_string(st->audio) + " " + std::to_string(ts) + " " + hex(p, 100000) : ""; });
			if(type == TCMSG_VIDEO) v.push_back([=] () -> std::string { return st->video ? "video " + u + std::to_string(st->video) + " " + std::to_string(ts) + " " + hex(p, 100000) : ""; });
			if(type == TCMSG_DATA || (type == TCMSG_DATA_EX && p.size() && !p[0]))
			{
				const uint8_t *c = p.data() + (type == TCMSG_DATA_EX), *l = p.data() + p.size();
				auto n = AMF0::decode(&c, l);
				Args args;
				AMF0::decode(c, l, args);
				if(n && n->isString()) { std::string name = n->stringValue(); v.push_back([=] () -> std::string { return st->data ? "data " + u + std::to_string(st->data) + " " + std::to_string(ts) + " " + name + " " + show(args) : ""; }); }
			}
		}
		Guarded g(p);
		run("a message", v, [&] { f->receive(sid, type, ts, g.p, g.n); });
	}
	void response(bool ok, double tid, std::shared_ptr<AMF0> arg, std::vector<Step> &v)
	{
		auto it = pending.find(tid);
		if(it == pending.end() || it->first != tid) return;
		Pend p = it->second;
		pending.erase(it);
		std::string h = "handler " + std::to_string(p.handler) + " " + std::to_string(ok) + " " + show(arg);
		if(p.kind == CONNECT)
		{
			v.push_back([=] () -> std::string { tcOpen = ok; return p.handler ? h : ""; });
			v.push_back([=] () -> std::string { return onStatus ? "status " + std::to_string(onStatus) + " " + show(arg) : ""; });
			if(!ok) v.push_back(closing(true));
		}
		else if(p.kind == TRANSACT) { if(p.handler) v.push_back([=] () -> std::string { return h; }); }
		else
		{
			double d = arg->doubleValue();
			bool good = ok && d >= 1 && d <= double(UINT32_MAX) && !ids.count(uint32_t(d));
			if(!good) { v.push_back([=] () -> std::string { gone(p.st); return ""; }); v.push_back(closing(true)); return; }
			uint32_t id = uint32_t(d);
			St *st = p.st;
			bound++;
			v.push_back([=] () -> std::string {
				ids[id] = st;
				if(!st->userOpen) { st->id = id; gone(st); return ""; } // deleted before the server answered
				st->id = id;
				unsigned o = st->open;
				st->open = 0;
				return o ? "open " + std::to_string(st->uid) + "." + std::to_string(o) : "";
			});
			v.push_back([=] () -> std::string {
				flush(st);
				return "";
			});
		}
	}
	void serverOp()
	{
		uint32_t sid = 0;
		if(s.chance(2, 3) && ids.size()) { auto it = ids.begin(); std::advance(it, s.below(ids.size())); sid = it->first; }
		else if(s.chance(1, 4)) sid = uint32_t(s.below(6));
		uint32_t ts = uint32_t(s.sized(0xffffffff));
		switch(s.weighted({ 8, 3, 3, 6, 2, 1 }))
		{
		case 0: // a response
		{
			double tid = s.below(8);
			if(pending.size() && s.chance(5, 6)) { auto it = pending.begin(); std::advance(it, s.below(pending.size())); tid = it->first; }
			else if(used.size() && s.flip()) { auto it = used.begin(); std::advance(it, s.below(used.size())); tid = *it; }
			else if(s.chance(1, 3)) tid = s.pick<double>({ NAN, INFINITY, -INFINITY, -1, 0.5, 1.5, 1e300, -0.0 });
			bool ok = s.chance(14, 15);
			Args a = values(s);
			auto it = pending.find(tid);
			if(it != pending.end() && it->first == tid && it->second.kind == CREATE)
			{
				a.clear();
				double id = 1 + s.below(8);
				if(s.chance(1, 12)) id = s.pick<double>({ 0, 0.5, 0.999999, 1.5, NAN, -1, INFINITY, 4294967295.0, 4294967295.5, 4294967296.0, 1e-300 });
				else for(int k = 0; k < 20 && ids.count(uint32_t(id)) && !s.chance(1, 20); k++) id = 1 + s.below(30);
				if(!s.chance(1, 40)) a.push_back(s.chance(1, 40) ? value(s) : AMF0::Number(id));
			}
			Args all = { AMF0::Null() };
			all.insert(all.end(), a.begin(), a.end());
			Bytes b = Message::command(ok ? "_result" : "_error", tid, all);
			bool ex = s.chance(1, 4);
			if(ex) b.insert(b.begin(), 0);
			receive(s.chance(1, 20) ? sid : 0, ex ? TCMSG_COMMAND_EX : TCMSG_COMMAND, 0, b);
			break;
		}
		case 1: // status
		case 2: // another command
		{
			Args all = values(s);
			Bytes b = Message::command(s.chance(2, 3) ? "onStatus" : s.text(s.below(5), "onCmd").c_str(), s.chance(1, 4) ? s.below(6) : 0, all);
			bool ex = s.chance(1, 4);
			if(ex) b.insert(b.begin(), s.chance(1, 6) ? 1 : 0);
			receive(sid, ex ? TCMSG_COMMAND_EX : TCMSG_COMMAND, ts, b);
			break;
		}
		case 3: // media and data
			switch(s.below(4))
			{
			case 0: receive(sid, TCMSG_AUDIO, ts, s.bytes(s.below(20))); break;
			case 1: receive(sid, TCMSG_VIDEO, ts, s.bytes(s.below(20))); break;
			default:
			{
				Bytes b;
				if(!s.chance(1, 5)) AMF0::String(s.text(s.below(5), "onData"))->encode(b);
				AMF0::encode(values(s), b);
				bool ex = s.flip();
				if(ex && !s.chance(1, 4)) b.insert(b.begin(), s.chance(1, 6) ? 1 : 0);
				receive(sid, ex ? TCMSG_DATA_EX : TCMSG_DATA, ts, b);
			}
			}
			break;
		case 4: // anything
		{
			Bytes b = Message::command(s.pick<std::string>({ "_result", "onStatus", "x" }).c_str(), s.below(4), values(s));
			uint8_t type = s.chance(2, 3) ? s.pick<uint8_t>({ 20, 17, 18, 15, 8, 9, 4, 0, 1, 22, 255 }) : uint8_t(s.below(256));
			bool kills = type == TCMSG_COMMAND || type == TCMSG_COMMAND_EX;
			if(kills && !s.chance(1, 4)) type = TCMSG_DATA_EX;
			if(s.flip()) b = s.rawBytes(s.below(5)); else ref::mutate(s, b);
			receive(sid, type, ts, b);
			break;
		}
		default:
			if(s.chance(1, 8))
			{
				bool e = s.flip();
				s.log("the transport is lost, error %d", e);
				run("losing the transport", { closing(e) }, [&] { f->lost(e); });
			}
		}
	}

	void go()
	{
		for(int i = 0; i < 4; i++) if(s.chance(9, 10)) callback(i);
		if(s.chance(1, 6)) op();
		if(!s.chance(1, 15)) connect();
		auto open = [&] { transport = true; s.log("transport opens"); run("opening", { [this] () -> std::string { return onTransportOpen ? "transport " + std::to_string(onTransportOpen) : ""; } }, [this] { f->transportOpen(); }); };
		bool early = s.flip();
		if(early) open();
		for(int n = 4 + s.sized(40); n--; )
		{
			if(!transport && s.chance(1, 6) && this->open) open();
			if(s.chance(1, 25)) { f->refuse = !f->refuse; s.log("messages are %s", f->refuse ? "refused" : "accepted"); }
			if(s.flip()) op(); else serverOp();
			check("that");
		}
		bool e = s.flip();
		s.log("the end");
		run("the end", { closing(e) }, [&] { f->lost(e); });
		for(int n = s.below(4); n--; ) serverOp();
		for(auto &x : streams) if(x->ref) PBT_CHECK(!x->ref->isOpen(), "stream %d is open after close", x->uid);
		PBT_CHECK(closes == 1, "closed %d times", closes);
		steps.clear();
		conn.reset();
		for(auto &x : streams) { x->ref.reset(); PBT_CHECK(x->weak.expired(), "stream %d was never freed", x->uid); }
		PBT_CHECK(freed, "the connection was never freed");
		s.label("callbacks", dispatched);
		s.label("operations from callbacks", reentrant);
		s.label("transactions resolved", resolved);
		s.label("transactions failed by close", failed);
		s.label("streams bound", bound);
		s.label("malformed commands", malformed);
		s.label("operations refused by transport", refused);
		if(bound && dispatched > 3) s.nontrivial();
	}
};


// --- over RTMFP

struct Rig : Net {
	explicit Rig(Src &s_) : Net(s_) {}
	Endpoint *c { nullptr }, *v { nullptr };
	bool hostile { false };

	// --- the client

	struct Reorder : public ReorderBuffer {
		Rig &rig;
		Reorder(Rig &r, Duration p) : ReorderBuffer(p), rig(r) {}
		Time getCurrentTime() const override { return rig.w.now; }
		std::shared_ptr<Timer> scheduleTimer(Time when) override { return rig.timers->schedule(when); }
	};
	struct Client : public RTMFPTCConnection {
		Rig &rig;
		explicit Client(Rig &r) : RTMFPTCConnection(0), rig(r) {}
		~Client() { PBT_CHECK(!rig.freed, "freed twice"); rig.freed = true; }
		std::shared_ptr<ReorderBuffer> reorderBufferFactory(Duration p) override { return share_ref(new Reorder(rig, p), false); }
	};
	std::unique_ptr<SimTimers> timers;
	std::shared_ptr<Client> conn;
	bool freed { false };
	bool ended { false }, opened { false }, connected { false }, userClosed { false };
	int statuses { 0 }, closes { 0 };
	std::map<unsigned, int> handlers; // times called
	unsigned nextHandler { 0 };
	struct St { int uid; std::shared_ptr<TCStream> ref; std::weak_ptr<TCStream> weak; bool open { false }, deleted { false }; uint32_t id { 0 }; };
	std::vector<std::unique_ptr<St> > streams;
	struct Out { uint32_t sid; uint8_t type; uint32_t ts; Bytes payload; bool reliable; std::string how; };
	std::map<std::pair<uint32_t, int>, std::vector<Out> > media; // by stream and class
	int depth { 0 };
	unsigned long calls { 0 }, reentrant { 0 }, deliveredToServer { 0 }, deliveredToClient { 0 }, rejected { 0 }, synced { 0 }, keepalives { 0 };

	static unsigned number(double x) { return x >= 0 && x < 4294967296.0 ? unsigned(x) : 0xffffffffu; }
	void called(const char *what)
	{
		w.log("client is called: %s", what);
		calls++;
		PBT_CHECK(!ended, "%s was called after the connection closed", what);
	}
	struct Canary { std::string text; };
	std::shared_ptr<Canary> canary() { auto c = std::make_shared<Canary>(); c->text = std::string(40, 'c'); return c; }
	static void alive(const std::shared_ptr<Canary> &c) { PBT_CHECK(c->text == std::string(40, 'c'), "a callback was destroyed while running"); }
	void react()
	{
		if(depth >= 3) return;
		depth++;
		if(s.chance(1, 6)) { reentrant++; clientOp(s.chance(1, 12)); }
		depth--;
	}

	TCConnection::Handler handler(double expectNumber, bool isConnect = false)
	{
		unsigned h = nextHandler++;
		handlers[h] = 0;
		auto k = canary();
		return [=] (bool ok, std::shared_ptr<AMF0> v) {
			called("a response handler");
			PBT_CHECK(++handlers[h] == 1, "response handler %u was called %d times", h, handlers[h]);
			PBT_CHECK(!ok || v, "a response succeeded with no value");
			if(isConnect) connected = ok;
			if(!hostile && !isConnect && v) PBT_CHECK(ok && v->isNumber() && v->doubleValue() == expectNumber, "transaction %g was answered %d %s", expectNumber, ok, show(v).c_str());
			react();
			alive(k);
		};
	}
	void makeClient()
	{
		conn = share_ref(new Client(*this), false);
		auto k = canary();
		Client *raw = conn.get();
		raw->onStatus = [=] (std::shared_ptr<AMF0> info) {
			called("onStatus");
			std::string code = info && info->isObject() && info->getValueAtKey("code")->isString() ? info->getValueAtKey("code")->stringValue() : "";
			if(code == "NetConnection.Connect.Closed" || code == "NetConnection.Connect.Failed")
			{
				statuses++;
				if(!hostile) PBT_CHECK(statuses == 1, "the end was reported %d times", statuses);
				if(!hostile && code == "NetConnection.Connect.Failed") PBT_CHECK(!connected && !userClosed, "a connection that %s reported failing to connect", userClosed ? "the application closed" : "had connected");
			}
			react();
			alive(k);
		};
		raw->onClose = [=] {
			called("onClose");
			PBT_CHECK(++closes == 1, "onClose ran %d times", closes);
			PBT_CHECK(statuses >= 1, "onClose ran before the end was reported");
			for(auto &h : handlers) PBT_CHECK(h.second == 1, "onClose ran before response handler %u", h.first);
			for(auto &x : streams) if(x->ref) PBT_CHECK(!x->ref->isOpen(), "onClose ran and stream %d is open", x->uid);
			ended = true;
			react();
			alive(k);
		};
		raw->onTransportOpen = [=] {
			called("onTransportOpen");
			PBT_CHECK(!opened, "the transport opened twice");
			opened = true;
			if(conn)
			{
				PBT_CHECK(conn->isOpen(), "the transport opened and isOpen() is false");
				PBT_CHECK(conn->sessionOpt(), "the transport opened and there is no session");
				PBT_CHECK(conn->getServerFingerprint() == v->epd(), "the server's fingerprint is %s", hex(conn->getServerFingerprint()).c_str());
			}
			react();
			alive(k);
		};
		raw->onCommand = [=] (const std::string &cmd, const Args &a) {
			called("onCommand");
			arrived(0, cmd, a);
			react();
			alive(k);
		};
	}
	void arrived(uint32_t sid, const std::string &cmd, const Args &a)
	{
		if(a.empty() || !a[0]->isNumber()) { PBT_CHECK(hostile, "a command the server never sent was delivered: %s", cmd.c_str()); return; }
		got(sid, number(a[0]->doubleValue()), TCMSG_COMMAND, nullptr, 0, 0);
	}
	void callbacks(St *st)
	{
		auto k = canary();
		TCStream *t = st->ref.get();
		t->onOpen = [=] { called("stream onOpen"); PBT_CHECK(!st->deleted && !st->open, "stream %d opened %s", st->uid, st->open ? "twice" : "after it was deleted"); st->open = true; if(!hostile) st->id = st->uid + 1; react(); alive(k); };
		t->onStatus = [=] (std::shared_ptr<AMF0> i) { called("stream onStatus"); use(st); if(i && i->isNumber()) got(st->id, number(i->doubleValue()), TCMSG_COMMAND, nullptr, 0, 0, st); else PBT_CHECK(hostile, "a status the server never sent: %s", show(i).c_str()); react(); alive(k); };
		t->onData = [=] (uint32_t ts, const std::string &cmd, const Args &a) { called("onData"); use(st); if(a.size() && a[0]->isNumber()) got(st->id, number(a[0]->doubleValue()), TCMSG_DATA, nullptr, 0, ts, st); else PBT_CHECK(hostile, "data the server never sent: %s", cmd.c_str()); react(); alive(k); };
		t->onAudio = [=] (uint32_t ts, const uint8_t *p, size_t n) { called("onAudio"); use(st); got(st->id, 0, TCMSG_AUDIO, p, n, ts, st); react(); alive(k); };
		t->onVideo = [=] (uint32_t ts, const uint8_t *p, size_t n) { called("onVideo"); use(st); got(st->id, 0, TCMSG_VIDEO, p, n, ts, st); react(); alive(k); };
	}
	void use(St *st) { PBT_CHECK(!st->deleted && st->open, "stream %d was called %s", st->uid, st->deleted ? "after it was deleted" : "before it opened"); }

	void queue(uint32_t sid, uint8_t type, uint32_t ts, const Bytes &payload, bool reliable)
	{
		media[{ sid, type == TCMSG_AUDIO ? 1 : type == TCMSG_VIDEO ? 2 : 0 }].push_back({ sid, type, ts, payload, reliable, "" });
	}
	void connect()
	{
		w.log("client connects");
		if(!conn->connect(handler(0, true), "rtmfp://server/app")) handlers.clear();
		asked = true;
	}
	void clientOp(bool fatal)
	{
		if(!conn || !asked) return;
		if(fatal)
		{
			bool drop = s.flip();
			w.log("client closes%s", drop ? " and forgets its connection" : "");
			userClosed = true;
			if(drop)
			{
				if(s.flip()) for(auto &x : streams) x->ref.reset();
				auto t = conn;
				conn.reset();
				t->close();
			}
			else { auto t = conn; t->close(); }
			return;
		}
		std::vector<St *> openStreams, all;
		for(auto &x : streams) if(x->ref && !x->deleted) { all.push_back(x.get()); if(x->open && x->id) openStreams.push_back(x.get()); }
		switch(s.weighted({ 3, 4, 12, 3, 2, 2, 1, 1 }))
		{
		case 0:
		{
			double n = double(s.below(1000));
			w.log("client queues transaction %g", n);
			unsigned h = nextHandler;
			if(!conn->transact(handler(n), "echo", { AMF0::Null(), AMF0::Number(n) })) handlers.erase(h);
			break;
		}
		case 1:
		{
			if(streams.size() > 5) break;
			auto x = conn->createStream();
			if(!x) break;
			w.log("client creates stream %zu", streams.size());
			std::unique_ptr<St> st(new St);
			st->uid = int(streams.size()); st->ref = x; st->weak = x;
			streams.push_back(std::move(st));
			callbacks(streams.back().get());
			for(int n = s.below(3); n--; ) x->publish("live" + std::to_string(n));
			break;
		}
		case 2: // media
		{
			if(openStreams.empty()) break;
			St *st = s.pick(openStreams);
			for(int n = s.irange(1, 3); n--; )
			{
				uint32_t ts = ++clock * 1000003u;
				Bytes b = s.bytes(s.len(3000));
				Duration fw = s.chance(1, 6) ? 0.1 : INFINITY;
				std::shared_ptr<WriteReceipt> r;
				uint8_t type;
				if(s.flip()) { type = TCMSG_AUDIO; r = st->ref->sendAudio(ts, b, fw, fw); }
				else { type = TCMSG_VIDEO; r = st->ref->sendVideo(ts, b, fw, fw); }
				w.log("client sends %s %u on stream %u: %s", type == TCMSG_AUDIO ? "audio" : "video", ts, st->id, r ? "taken" : "refused");
				if(r) queue(st->id, type, ts, b, fw > 1);
				if(s.chance(1, 8))
				{
					Bytes d;
					AMF0::String("data")->encode(d);
					AMF0::Number(ts)->encode(d);
					if(st->ref->send(ts, "data", { AMF0::Number(ts) })) queue(st->id, TCMSG_DATA, ts, d, true);
				}
			}
			break;
		}
		case 3: if(openStreams.size()) { St *st = s.pick(openStreams); Bytes d = Message::command("pause", 0, { AMF0::Null(), AMF0::True() }); st->ref->pause(true); queue(st->id, TCMSG_COMMAND, 0, d, true); } break;
		case 4: if(openStreams.size()) { synced++; w.log("client syncs stream %d", s.pick(openStreams)->uid); s.pick(openStreams)->ref->sync(); } break;
		case 5:
			if(all.size())
			{
				St *st = s.pick(all);
				w.log("client deletes stream %d", st->uid);
				st->deleted = true;
				auto t = st->ref;
				if(s.flip()) st->ref.reset();
				t->deleteStream();
			}
			break;
		case 6: if(opened) conn->refreshSession(); break;
		default:
			if(all.size() && s.flip()) { St *st = s.pick(all); w.log("client forgets stream %d", st->uid); st->ref.reset(); }
			else if(s.chance(1, 3)) { w.log("client forgets its connection"); forgotten = true; conn.reset(); }
			break;
		}
	}
	uint32_t clock { 0 };
	bool asked { false }, forgotten { false };

	// --- the server

	struct Back { std::shared_ptr<SendFlow> flow; uint32_t sid; ReceiveOrder order; unsigned last { 0 }; std::vector<unsigned> ids; bool dead { false }, closed { false }; };
	struct From { std::shared_ptr<RecvFlow> flow; uint32_t sid; int cls { -1 }; bool done { false }; };
	struct Sent { Back *via; bool reliable { true }; uint8_t type; uint32_t ts, sid; Bytes payload; int delivered { 0 }; double server { -1 }, peer { -1 }; size_t position { 0 }; };
	std::shared_ptr<RecvFlow> ctlIn;
	std::vector<std::unique_ptr<Back> > backs;
	std::vector<std::unique_ptr<From> > froms;
	Back *ctlOut { nullptr };
	std::map<unsigned, Sent> sent;
	unsigned nextID { 1 };
	double ka { -1 }, kaPeer { -1 }; // last asked for
	uint32_t nextSID { 1 };
	std::map<uint32_t, bool> announcedStreams;
	bool wrongFirst { false }, serverEnded { false };
	std::map<std::pair<uint32_t, int>, size_t> taken; // messages of the client received so far

	void sendID(Back *b, uint8_t type)
	{
		if(b->dead || b->closed) return;
		unsigned id = nextID++;
		Sent m;
		m.via = b; m.type = type; m.sid = b->sid; m.ts = type == TCMSG_COMMAND ? 0 : uint32_t(s.sized(0xffffffff));
		if(type == TCMSG_COMMAND) m.payload = Message::command(b->sid ? "onStatus" : "tell", 0, { AMF0::Null(), AMF0::Number(id) });
		else if(type == TCMSG_DATA) { AMF0::String("onData")->encode(m.payload); AMF0::Number(id)->encode(m.payload); }
		else
		{
			m.payload.push_back(s.chance(1, 3) ? uint8_t(s.below(256)) : 0x27);
			Bytes x = s.bytes(s.chance(1, 60) ? s.below(300000) : s.len(2500));
			m.payload.insert(m.payload.end(), x.begin(), x.end());
			for(int i = 3; i >= 0; i--) m.payload.push_back(uint8_t(id >> (8 * i)));
		}
		m.server = ka; m.peer = kaPeer;
		m.position = b->ids.size();
		if(b->sid && s.chance(1, 8)) m.reliable = false;
		Duration fw = m.reliable ? Duration(INFINITY) : 0.05;
		if(!b->flow->write(TCMessage::message(type, m.ts, m.payload), fw, fw)) { b->dead = true; return; }
		b->ids.push_back(id);
		sent[id] = m;
	}
	static bool special(const Sent &m)
	{
		if(m.type == TCMSG_VIDEO) return Message::isVideoSequenceSpecial(m.payload.data(), m.payload.size());
		if(m.type == TCMSG_AUDIO) return Message::isAudioSequenceSpecial(m.payload.data(), m.payload.size());
		return true;
	}
	// a message of the server's was delivered to the client's application
	void got(uint32_t, unsigned id, uint8_t type, const uint8_t *p, size_t n, uint32_t ts, St *st = nullptr)
	{
		if(p || (!id && (type == TCMSG_AUDIO || type == TCMSG_VIDEO)))
		{
			if(n < 5) { PBT_CHECK(hostile, "a media message of %zu bytes", n); return; }
			id = p[n - 4] << 24 | p[n - 3] << 16 | p[n - 2] << 8 | p[n - 1];
		}
		auto it = sent.find(id);
		if(hostile) return;
		PBT_CHECK(it != sent.end(), "a message nobody sent was delivered (%u)", id);
		Sent &m = it->second;
		deliveredToClient++;
		PBT_CHECK(++m.delivered == 1, "message %u was delivered %d times", id, m.delivered);
		PBT_CHECK(m.type == type && (type == TCMSG_COMMAND || m.ts == ts), "message %u of type %d time %u was delivered as type %d time %u", id, m.type, m.ts, type, ts);
		if(p) PBT_CHECK(m.payload == Bytes(p, p + n), "message %u was altered", id);
		PBT_CHECK((st ? st->id : 0) == m.sid, "message %u of stream %u was delivered to stream %u", id, m.sid, st ? st->id : 0);
		if(m.via->order == RO_SEQUENCE)
		{
			while(m.via->last < m.position && !sent[m.via->ids[m.via->last]].reliable) m.via->last++;
			PBT_CHECK(m.position == m.via->last, "message %u is number %zu of its flow, delivered after %u others", id, m.position, m.via->last);
			m.via->last++;
		}
		else if(!special(m))
		{
			PBT_CHECK(m.position >= m.via->last, "message %u is number %zu of its flow, delivered after number %u", id, m.position, m.via->last);
			m.via->last = unsigned(m.position + 1);
		}
		else m.via->last = std::max(m.via->last, unsigned(m.position + 1));
		if(!m.sid && m.server >= 0 && conn && conn->sessionOpt() && conn->isOpen())
		{
			double a = std::max(m.server, 5.0), b = std::max(m.peer, 5.0);
			bool ign = ignoring;
			double x = conn->sessionOpt()->getSessionKeepalivePeriod(), y = c->rtmfp->getDefaultSessionKeepalivePeriod();
			if(!ign) keepalives++;
			if(ign) { a = keep0; b = keep1; }
			PBT_CHECK(std::abs(x - a) < 0.0001, "the server asked for a keepalive period of %g s, it is %g", m.server, x);
			PBT_CHECK(std::abs(y - b) < 0.0001, "the server asked for a keepalive period for peers of %g s, it is %g", m.peer, y);
		}
	}
	bool ignoring { false };
	double keep0 { 0 }, keep1 { 0 };

	void askKeepalive()
	{
		if(!ctlOut || ctlOut->dead) return;
		uint32_t a = uint32_t(s.pick<uint64_t>({ 0, 4999, 5000, 5001, 60000, 3600000, 0x80000000u, 0xffffffffu, s.below(100000) })), b = uint32_t(s.pick<uint64_t>({ 0, 4999, 5000, 7000, 90000, 0xffffffffu, s.below(100000) }));
		Bytes p = { 0, 41 };
		for(uint32_t x : { a, b }) for(int i = 3; i >= 0; i--) p.push_back(uint8_t(x >> (8 * i)));
		bool whole = !s.chance(1, 6);
		if(!whole) p.resize(s.below(10));
		w.log("server asks for keepalives of %u and %u ms%s", a, b, whole ? "" : ", cut short");
		if(ctlOut->flow->write(TCMessage::message(TCMSG_USER_CONTROL, 0, p), INFINITY, INFINITY) && whole) { ka = a / 1000.0; kaPeer = b / 1000.0; }
		sendID(ctlOut, TCMSG_COMMAND);
	}
	Back *openBack(uint32_t sid, ReceiveOrder order, const Bytes *meta = nullptr)
	{
		if(!ctlIn || !ctlIn->isOpen()) return nullptr;
		auto f = ctlIn->openReturnFlow(meta ? *meta : TCMetadata::encode(sid, order), Priority(s.below(8)));
		if(!f) return nullptr;
		std::unique_ptr<Back> b(new Back);
		Back *p = b.get();
		p->flow = f; p->sid = sid; p->order = order;
		f->onException = [=] (uintmax_t) { p->dead = true; };
		f->onRecvFlow = [=] (std::shared_ptr<RecvFlow> r) { fromClient(r); };
		backs.push_back(std::move(b));
		return p;
	}
	void accepted(std::shared_ptr<RecvFlow> flow) // the client's control flow
	{
		uint32_t sid = 9;
		ReceiveOrder o = RO_NETWORK;
		PBT_CHECK(TCMetadata::parse(flow->getMetadata(), &sid, &o) && sid == 0 && o == RO_SEQUENCE, "the control flow has metadata %s", hex(flow->getMetadata()).c_str());
		PBT_CHECK(!ctlIn, "there are two control flows");
		w.log("server is told of the control flow");
		ctlIn = flow;
		flow->onMessage = [this] (const uint8_t *p, size_t n, uintmax_t, size_t) { onControl(Bytes(p, p + n)); };
		flow->onComplete = [this] (bool) { w.log("the control flow ended"); serverEnded = true; };
		flow->accept();
		if(hostile && s.chance(1, 12)) // nothing but a flow for a stream
		{
			wrongFirst = true;
			Back *b = openBack(1 + uint32_t(s.below(3)), s.flip() ? RO_SEQUENCE : RO_NETWORK);
			if(b) sendID(b, TCMSG_COMMAND);
			return;
		}
		if(hostile && s.chance(1, 4)) for(int n = s.irange(1, 3); n--; ) strange();
		if(hostile && s.chance(1, 8)) return;
		ctlOut = openBack(0, RO_SEQUENCE);
		if(ctlOut) sendID(ctlOut, TCMSG_COMMAND);
	}
	void onControl(const Bytes &b)
	{
		const uint8_t *p = b.data(), *l = p + b.size();
		uint8_t type = 0;
		uint32_t ts = 1;
		size_t rv = TCMessage::parseHeader(p, l, &type, &ts);
		if(!b.size()) return; // the session was refreshed
		PBT_CHECK(rv && type == TCMSG_COMMAND && ts == 0, "control message %s", hex(b).c_str());
		p += rv;
		auto n = AMF0::decode(&p, l), t = AMF0::decode(&p, l), o = AMF0::decode(&p, l), a = AMF0::decode(&p, l);
		PBT_CHECK(n && n->isString() && t && t->isNumber(), "control message %s", hex(b).c_str());
		std::string name = n->stringValue();
		double tid = t->doubleValue();
		w.log("server receives %s %g", name.c_str(), tid);
		deliveredToServer++;
		if(tid == 0) return;
		Bytes reply;
		bool ok = true;
		if(name == "connect") { ok = !s.chance(1, 12); reply = Message::command(ok ? "_result" : "_error", tid, { AMF0::Null(), AMF0::String("hello") }); }
		else if(name == "createStream")
		{
			uint32_t id = nextSID++;
			reply = Message::command("_result", tid, { AMF0::Null(), AMF0::Number(id) });
		}
		else reply = Message::command("_result", tid, { AMF0::Null(), a ? a : AMF0::Undefined() });
		if(hostile && s.chance(1, 5)) ref::mutate(s, reply);
		if(hostile && s.chance(1, 5)) return;
		Duration d = s.pick<Duration>({ 0, 0, 0.1, 1 });
		w.after(d, [=] { v->enter([&] { if(ctlOut && !ctlOut->dead) { bool ex = s.chance(1, 5); Bytes r = reply; if(ex) r.insert(r.begin(), 0); ctlOut->flow->write(TCMessage::message(ex ? TCMSG_COMMAND_EX : TCMSG_COMMAND, 0, r), INFINITY, INFINITY); } }); });
	}
	void fromClient(std::shared_ptr<RecvFlow> flow)
	{
		uint32_t sid = 0;
		ReceiveOrder o = RO_NETWORK;
		PBT_CHECK(TCMetadata::parse(flow->getMetadata(), &sid, &o) && sid && o == RO_SEQUENCE, "the client opened a flow with metadata %s", hex(flow->getMetadata()).c_str());
		w.log("server is told of a flow for stream %u", sid);
		if(s.chance(1, 20)) { rejected++; rejectedStreams.insert(sid); return; }
		std::unique_ptr<From> fr(new From);
		From *p = fr.get();
		p->flow = flow; p->sid = sid;
		froms.push_back(std::move(fr));
		flow->onMessage = [=] (const uint8_t *b, size_t n, uintmax_t, size_t) { onStream(p, Bytes(b, b + n)); };
		flow->onComplete = [=] (bool) { w.log("server is told the flow for stream %u ended", sid); p->done = true; };
		flow->accept();
		if(!announcedStreams[sid] && !hostile)
		{
			announcedStreams[sid] = true;
			for(int n = s.below(3); n--; ) openBack(sid, s.flip() ? RO_SEQUENCE : RO_NETWORK);
		}
		else if(hostile) openBack(s.flip() ? sid : uint32_t(s.below(4)), s.flip() ? RO_SEQUENCE : RO_NETWORK);
	}
	std::set<uint32_t> rejectedStreams;
	void onStream(From *f, const Bytes &b)
	{
		uint32_t id;
		size_t count;
		if(FlowSyncManager::parse(b.data(), b.size(), id, count))
		{
			PBT_CHECK(count == 3, "a stream was synchronised over %zu flows", count);
			syncFlows[id].insert(f);
			PBT_CHECK(hostile || syncFlows[id].size() <= 3 && (*syncFlows[id].begin())->sid == f->sid, "one synchronisation reached several streams");
			return;
		}
		uint8_t type = 0;
		uint32_t ts = 0;
		size_t rv = TCMessage::parseHeader(b.data(), b.data() + b.size(), &type, &ts);
		PBT_CHECK(rv, "stream message %s", hex(b).c_str());
		Bytes payload(b.begin() + rv, b.end());
		int cls = type == TCMSG_AUDIO ? 1 : type == TCMSG_VIDEO ? 2 : 0;
		if(f->cls < 0) f->cls = cls;
		PBT_CHECK(hostile || f->cls == cls, "a flow carries type %d besides class %d", type, f->cls);
		if(cls == 0 && type == TCMSG_COMMAND) { Bytes pub; AMF0::String("publish")->encode(pub); if(payload.size() > pub.size() && std::equal(pub.begin(), pub.end(), payload.begin())) return; }
		deliveredToServer++;
		if(hostile) return;
		auto &list = media[{ f->sid, cls }];
		size_t &k = taken[{ f->sid, cls }];
		// in order; those with deadlines may be missing
		while(k < list.size() && !(list[k].type == type && list[k].ts == ts && list[k].payload == payload)) { PBT_CHECK(!list[k].reliable, "message %zu of stream %u class %d (type %d time %u) never arrived; type %d time %u did", k, f->sid, cls, list[k].type, list[k].ts, type, ts); k++; }
		PBT_CHECK(k < list.size(), "a message the client never sent arrived: stream %u type %d time %u %s", f->sid, type, ts, hex(payload).c_str());
		k++;
	}
	std::map<uint32_t, std::set<From *> > syncFlows;

	// the unusual, from the server
	void strange()
	{
		switch(s.below(5))
		{
		case 0: { Bytes m = s.flip() ? TCMetadata::encode(uint32_t(s.below(5)), s.flip() ? RO_NETWORK : RO_SEQUENCE) : s.rawBytes(s.below(6)); Back *b = openBack(uint32_t(s.below(3)), RO_NETWORK, &m); if(b) junk(b); break; }
		case 1: if(Back *b = openBack(0, s.flip() ? RO_NETWORK : RO_SEQUENCE)) junk(b); break;
		case 2: if(backs.size()) junk(backs[s.below(backs.size())].get()); break;
		case 3: if(backs.size()) { Back *b = backs[s.below(backs.size())].get(); b->dead = true; b->flow->close(); } break;
		default: if(froms.size()) froms[s.below(froms.size())]->flow->close(s.below(3)); break;
		}
	}
	void junk(Back *b)
	{
		if(b->dead) return;
		for(int n = s.irange(1, 4); n--; )
		{
			Bytes m;
			switch(s.below(6))
			{
			case 0: m = s.rawBytes(s.below(12)); break;
			case 1: m = FlowSyncManager::makeSyncMessage(uint32_t(s.below(4)), s.below(4)); break;
			case 2: { Bytes p = { 0, 41 }; Bytes x = s.rawBytes(s.below(10)); p.insert(p.end(), x.begin(), x.end()); m = TCMessage::message(TCMSG_USER_CONTROL, 0, p); break; }
			case 3: m = TCMessage::message(uint8_t(s.pick<int>({ 15, 18, 8, 9, 17, 20, 22 })), uint32_t(s.below(100)), s.rawBytes(s.below(6))); break;
			default: m = TCMessage::message(s.flip() ? TCMSG_COMMAND : TCMSG_COMMAND_EX, 0, Message::command(s.pick<std::string>({ "_result", "_error", "onStatus", "x" }).c_str(), s.below(6), { AMF0::Null(), value(s) }, s.flip())); if(s.flip()) ref::mutate(s, m); break;
			}
			b->flow->write(m, INFINITY, INFINITY);
		}
	}
	void serverOp()
	{
		if(wrongFirst) return;
		if(hostile && s.chance(1, 3)) { strange(); return; }
		switch(s.weighted({ 2, 8, 2, 1, 1, 1 }))
		{
		case 0: if(ctlOut) sendID(ctlOut, TCMSG_COMMAND); break;
		case 1:
		{
			std::vector<Back *> b;
			for(auto &x : backs) if(x->sid && !x->dead) b.push_back(x.get());
			if(b.empty()) break;
			Back *x = s.pick(b);
			for(int n = s.irange(1, 6); n--; ) sendID(x, s.pick<uint8_t>({ TCMSG_AUDIO, TCMSG_VIDEO, TCMSG_DATA, TCMSG_COMMAND }));
			break;
		}
		case 2: if(!hostile) askKeepalive(); break;
		case 3: // a barrier over all flows of a stream
		{
			std::map<uint32_t, std::vector<Back *> > by;
			for(auto &x : backs) if(x->sid && !x->dead && !x->closed && x->order == RO_SEQUENCE) by[x->sid].push_back(x.get());
			if(by.empty()) break;
			auto it = by.begin();
			std::advance(it, s.below(by.size()));
			Bytes m = FlowSyncManager::makeSyncMessage(nextBarrier++, it->second.size());
			w.log("server synchronises %zu flows of stream %u", it->second.size(), it->first);
			for(auto *x : it->second) x->flow->write(m, INFINITY, INFINITY);
			break;
		}
		case 4: // ends a flow, everything sent on it is delivered
		{
			std::vector<Back *> b;
			for(auto &x : backs) if(x->sid && !x->dead && !x->closed) b.push_back(x.get());
			if(b.empty() || !s.flip()) break;
			Back *x = s.pick(b);
			for(int n = s.below(4); n--; ) sendID(x, s.flip() ? TCMSG_COMMAND : TCMSG_AUDIO);
			w.log("server ends a flow of stream %u", x->sid);
			x->closed = true;
			x->flow->close();
			break;
		}
		default:
			if(!s.chance(1, 6) || !ctlIn) break;
			if(s.flip()) { w.log("server rejects the control flow"); ctlIn->close(s.below(3)); }
			else if(ctlOut && !ctlOut->dead) { w.log("server ends its control flow"); ctlOut->dead = true; ctlOut->flow->close(); }
			serverEnded = true;
			break;
		}
	}
	uint32_t nextBarrier { 1 };

	void go()
	{
		c = add("client");
		v = add("server");
		timers.reset(new SimTimers(w, c));
		hostile = s.chance(1, 3);
		app.onForeign = [this] (Endpoint *e, std::shared_ptr<RecvFlow> flow) { if(e == v) accepted(flow); };
		makeClient();
		bool reach = !s.chance(1, 12), refuse = s.chance(1, 20);
		if(refuse) app.onForeign = [] (Endpoint *, std::shared_ptr<RecvFlow>) {};
		ignoring = s.chance(1, 6);
		conn->ignoreSetKeepaliveUserCommand = ignoring;
		c->enter([&] {
			PBT_CHECK(!conn->init(nullptr, v->epd()), "init with no RTMFP");
			PBT_CHECK(conn->init(c->rtmfp.get(), v->epd()), "init failed");
			PBT_CHECK(!conn->init(c->rtmfp.get(), v->epd()), "init succeeded twice");
			if(reach) conn->addCandidateAddress(v->addr(1));
			if(s.flip()) connect();
		});
		keep0 = keep1 = c->rtmfp->getDefaultSessionKeepalivePeriod();
		if(s.flip()) faults();
		w.run(s.pick<double>({ 0.01, 0.5, 3 }));
		c->enter([&] { if(conn && !asked) connect(); });
		for(int n = 12 + s.sized(80); n--; )
		{
			if(s.flip()) c->enter([&] { clientOp(s.chance(1, 60)); });
			else v->enter([&] { serverOp(); });
			if(s.flip()) w.run(s.pick<double>({ 0.001, 0.03, 0.3, 2 }));
		}
		bool dies = s.chance(1, 15);
		if(dies) { w.log("the server vanishes"); w.path(c, v).up = w.path(v, c).up = false; }
		else heal();
		w.run(10);
		// a rejection that was lost is repeated when the client sends again
		for(int i = 0; i < 3; i++) { c->enter([&] { if(conn && opened && !ended) conn->refreshSession(); }); w.run(7); }
		if(!dies && !hostile && opened && !ended && !serverEnded && !refuse && reach) settled();
		bool lost = forgotten && freed;
		if(refuse && reach && !forgotten && !userClosed && !dies && opened) PBT_CHECK(ended, "the server rejected the connection, the application was not told");
		if(serverEnded && !hostile && !dies && opened && !forgotten) PBT_CHECK(ended, "the server ended the connection, the application was not told");
		if(wrongFirst && !dies && opened && !forgotten) PBT_CHECK(ended, "the server's first flow was not the control flow, and the connection is open");
		if(!reach || dies) { w.run(300); if(!reach && !lost) PBT_CHECK(ended && !connected, "the server cannot be reached, the application was not told"); }
		bool byUser = conn && s.flip();
		if(byUser) c->enter([&] { userClosed = true; w.log("client closes at the end"); auto t = conn; if(s.flip()) conn.reset(); t->close(); });
		w.path(c, v).up = w.path(v, c).up = true;
		shutdownAll();
		if(forgotten && freed && !ended) handlers.clear(); // let go of unclosed: nothing more is told
		else PBT_CHECK(ended && closes == 1 && statuses >= 1, "by the end of the endpoints the connection closed %d times, reporting it %d times", closes, statuses);
		for(auto &h : handlers) PBT_CHECK(h.second == 1, "response handler %u was called %d times", h.first, h.second);
		for(auto &x : streams) if(x->ref) PBT_CHECK(!x->ref->isOpen(), "stream %d is open at the end", x->uid);
		conn.reset();
		for(auto &x : streams) x->ref.reset();
		backs.clear(); froms.clear(); ctlIn.reset(); ctlOut = nullptr;
		destroy(false);
		timers.reset();
		PBT_CHECK(freed, "the connection was never freed");
		for(auto &x : streams) PBT_CHECK(x->weak.expired(), "stream %d was never freed", x->uid);
		s.label("callbacks", calls);
		s.label("operations from callbacks", reentrant);
		s.label("messages to the server", deliveredToServer);
		s.label("messages to the client", deliveredToClient);
		s.label("rejected stream flows", rejected);
		s.label("stream synchronisations", synced);
		s.label("keepalive settings applied", keepalives);
		s.label("hostile server", hostile);
		s.label("server vanished", dies);
		if(deliveredToServer > 3 && deliveredToClient > 1) s.nontrivial();
	}
	St *live(uint32_t sid) { for(auto &x : streams) if(x->id == sid && !x->deleted) return x.get(); return nullptr; }
	std::set<uint32_t> deletedIDs() { std::set<uint32_t> r; for(auto &x : streams) if(x->deleted && x->id) r.insert(x->id); return r; }
	bool missing(bool report)
	{
		if(ended || serverEnded || (forgotten && freed)) return false;
		for(auto &m : sent)
		{
			Sent &x = m.second;
			if(x.delivered || !x.reliable || x.via->dead || (x.sid && !live(x.sid)) || (x.via->order == RO_NETWORK && !special(x))) continue;
			if(report) PBT_FAIL("message %u (stream %u, type %d, number %zu of its flow) was never delivered to the client", m.first, x.sid, x.type, x.position);
			return true;
		}
		for(auto &m : media)
		{
			if(!live(m.first.first) || rejectedStreams.count(m.first.first)) continue;
			for(size_t i = taken[m.first]; i < m.second.size(); i++)
			{
				if(!m.second[i].reliable) continue;
				if(report) PBT_FAIL("message %zu of stream %u class %d was never delivered to the server", i, m.first.first, m.first.second);
				return true;
			}
		}
		for(auto &f : froms) if(!f->done && deletedIDs().count(f->sid)) { if(report) PBT_FAIL("stream %u was deleted, and a flow of it is open", f->sid); return true; }
		for(auto &h : handlers) if(!h.second) { if(report) PBT_FAIL("transaction %u was never answered", h.first); return true; }
		return false;
	}
	void settled()
	{
		w.runWhile([&] { return missing(false); }, 150);
		missing(true);
	}
};

void overRTMFP(Src &s) { Rig(s).go(); }

void logic(Src &s) { Logic(s).go(); }

Register r({ "P38", "connections with transactions, streams and callbacks, and servers answering rightly and wrongly; non-trivial: a stream was bound and callbacks ran", {
	{ "model", logic, 20000, 2000000 },
	{ "rtmfp", overRTMFP, 8000, 400000 },
}, {
	"the application sets no callback on a connection or stream it closed",
} });

} // namespace
