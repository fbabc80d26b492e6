#pragma once
// A deterministic simulated world for RTMFP endpoints: virtual clock, faulty
// network, a crypto adapter whose traffic the harness can read, an independent
// wire decoder, and an application layer that records everything it is told.
//
// Only the public interfaces of the library are used (RTMFP, flows, platform
// and crypto adapters), and what it puts on the wire.

#include "pbt.hpp"
#include "ref.hpp"
#include "rtmfp/rtmfp.hpp"

#include <deque>
#include <map>
#include <memory>
#include <set>

namespace sim {

using namespace com::zenomt;
using namespace com::zenomt::rtmfp;
using pbt::Src;

struct World; struct Endpoint; struct SFlow; struct RFlow;

struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed = 0) : s(seed) {}
	uint64_t next() { s += 0x9e3779b97f4a7c15ull; return pbt::mix64(s); }
	uint64_t below(uint64_t n) { return n ? next() % n : 0; }
	double unit() { return double(next() >> 11) / 9007199254740992.0; }
	bool chance(double p) { return p > 0 && unit() < p; }
};

// --- crypto

struct SimKey;
struct SimCrypto;

struct SimCert : public CryptoCert {
	std::string name, group;
	bool genuine;
	World *world;
	Duration delay; // asynchronous answers
	SimCert(World *w, const std::string &n, const std::string &g, bool ok, Duration d) : name(n), group(g), genuine(ok), world(w), delay(d) {}
	void isAuthentic(const Task &onauthentic) override;
	bool isSelectedByEPD(const uint8_t *epd, size_t epdLen) override;
	Bytes getCanonicalEPD() override;
	void checkSignature(const uint8_t *msg, size_t msgLen, const uint8_t *sig, size_t sigLen, const Task &ongood) override;
	bool doesCertOverrideSession(std::shared_ptr<CryptoCert> other) override;
	Bytes encode() override;
};

bool selects(const Bytes &epd, const std::string &name, const std::string &group); // does the discriminator select this identity
Bytes canonicalEPD(const std::string &name);
Bytes groupEPD(const std::string &group);
Bytes encodeCert(const std::string &name, const std::string &group, bool genuine = true);
Bytes signAs(const std::string &name, const Bytes &msg);

uint64_t keyFromNonces(const Bytes &ni, const Bytes &nr);
Bytes seal(uint64_t key, uint64_t iv, const Bytes &plain);
bool unseal(uint64_t key, const Bytes &sealed, Bytes &plain);

struct SimCrypto;
struct SimKey : public SessionCryptoKey {
	SimCrypto *adapter;
	Bytes nearNonce, farNonce;
	uint64_t key { 0 };
	SimKey(SimCrypto *a);
	~SimKey();
	size_t getEncryptSrcFrontMargin() override;
	bool encrypt(uint8_t *dst, size_t &ioDstLen, uint8_t *src, size_t srcLen, size_t srcFrontMargin) override;
	bool decrypt(uint8_t *dst, size_t &ioDstLen, size_t &dstFrontMargin, const uint8_t *src, size_t srcLen) override;
	Bytes getNearNonce() override { return nearNonce; }
	Bytes getFarNonce() override { return farNonce; }
	bool generateInitiatorKeyingComponent(std::shared_ptr<CryptoCert> responder, Bytes *outComponent) override;
	bool initiatorCombineResponderKeyingComponent(const uint8_t *responderComponent, size_t len) override;
	bool generateResponderKeyingComponent(std::shared_ptr<CryptoCert> initiator, const uint8_t *initiatorComponent, size_t len, Bytes *outComponent) override;
};

struct SimCrypto : public ICryptoAdapter {
	World *world;
	std::string name, group;
	Rng rng;
	size_t txMargin { 0 }, rxMargin { 0 };
	Duration asyncDelay { 0 };
	long keysAlive { 0 };
	// impostors
	bool selectAll { false };       // claims every discriminator
	Bytes certOverride;             // shows this certificate instead of its own
	std::string signOverride;       // signs as
	std::set<SimKey *> live;        // keys of this endpoint
	// plaintext of the last packet encrypted
	uint64_t lastKey { 0 };
	Bytes lastPlain;
	size_t lastMargin { 0 };
	bool lastValid { false };

	std::shared_ptr<SessionCryptoKey> getKeyForNewSession() override;
	Bytes getNearEncodedCertForEPD(const uint8_t *epd, size_t epdLen) override;
	bool isSelectedByEPD(const uint8_t *epd, size_t epdLen) override;
	Bytes sign(const uint8_t *msg, size_t msgLen, std::shared_ptr<CryptoCert> recipient) override;
	bool checkNearWinsGlare(std::shared_ptr<CryptoCert> farCert) override;
	std::shared_ptr<CryptoCert> decodeCertificate(const uint8_t *bytes, size_t len) override;
	void pseudoRandomBytes(uint8_t *dst, size_t len) override;
	void cryptoHash256(uint8_t *dst, const uint8_t *msg, size_t len) override;
};

// --- wire

struct Range { uint64_t from, to; };
struct Chunk {
	uint8_t type { 0 };
	Bytes body;
	// user data
	uint8_t flags { 0 };
	uint64_t flowID { 0 }, sn { 0 }, fsn { 0 };
	bool hasMeta { false }, hasAssoc { false };
	Bytes metadata;
	uint64_t assoc { 0 };
	Bytes data;
	// acks
	uint64_t blocks { 0 }, cum { 0 };
	std::vector<Range> ranges;
	bool truncated { false };
	// exception code
	uint64_t code { 0 };
	bool isData() const { return type == 0x10 || type == 0x11; }
	bool isAck() const { return type == 0x51 || type == 0x50; }
};
struct Decoded {
	std::string err; // empty if well formed
	uint8_t flags { 0 };
	long ts { -1 }, tse { -1 };
	std::vector<Chunk> chunks;
	int mode() const { return flags & 3; }
	bool has(uint8_t type) const { for(auto &c : chunks) if(c.type == type) return true; return false; }
	bool hasData() const { for(auto &c : chunks) if(c.isData()) return true; return false; }
};
Decoded decode(const Bytes &plain);
uint32_t wireSessionID(const Bytes &packet);

struct Pkt {
	uint64_t id { 0 };
	Time sent { 0 };
	Endpoint *from { nullptr };
	int iface { -1 };
	Address src, dst;
	Bytes bytes;
	int tos { 0 };
	// what the harness knows of it
	uint64_t key { 0 };
	Bytes plain;
	size_t margin { 0 };
	Decoded dec;
	bool known { false };
};

// --- network

struct Path {
	Duration delay { 0.02 };
	Duration jitter { 0 };   // uniform extra, can reorder
	double loss { 0 };
	double dup { 0 };
	double late { 0 };       // probability of a large extra delay
	Duration lateBy { 0.5 };
	double ce { 0 };         // probability an ECT packet is marked
	bool up { true };
	Duration lastArrival { 0 };
	bool fifo { false };     // jitter does not reorder
};

struct World {
	Src &src;
	Rng rng;
	Time now { 1000.0L };
	std::multimap<Time, std::function<void()> > events;
	std::vector<Endpoint *> endpoints;
	std::map<std::pair<int, int>, Path> paths;
	Path defaultPath;
	// startup packets are neither reordered nor duplicated: a keying request that arrives after the
	// session it competes with opened rightly replaces that session (the peer may have restarted)
	bool startupFifo { false };
	std::map<std::pair<int, int>, Time> lastStartup;
	uint64_t nextPkt { 1 };
	uint64_t steps { 0 }, maxSteps { 2000000 };
	uint64_t packets { 0 };
	bool trace { false };

	std::map<std::pair<int, uint64_t>, int> tos; // traffic class the application set, by endpoint and session key
	// observers. onSend sees every packet an endpoint writes; filter may drop (false) or alter it;
	// onDeliver sees it before it is given to the endpoint, onDelivered after with the endpoint's answer.
	std::vector<std::function<void(Pkt &)> > onSend;
	std::vector<std::function<bool(Pkt &)> > filters;
	std::vector<std::function<void(Pkt &, Endpoint *)> > onDeliver;
	std::vector<std::function<void(Pkt &, Endpoint *, bool)> > onDelivered;
	std::function<bool(Pkt &)> unrouted; // destination is no endpoint
	std::function<bool(Pkt &, Endpoint *)> admit; // last chance to lose a packet, as it arrives

	// who holds which session keys
	std::map<Bytes, SimCrypto *> initiators;  // by initiator nonce
	struct Ends { SimCrypto *i, *r; Bytes ni, nr; };
	std::map<uint64_t, Ends> keyEnds;
	SimCrypto *otherEnd(uint64_t key, SimCrypto *me);
	size_t liveWith(SimCrypto *me, SimCrypto *peer, const Bytes *exceptInitiatorNonce = nullptr); // sessions with this peer

	explicit World(Src &s);
	~World();
	void at(Time t, const std::function<void()> &fn) { events.insert({ t < now ? now : t, fn }); }
	void after(Duration d, const std::function<void()> &fn) { at(now + d, fn); }
	void run(Duration d) { runUntil(now + d); }
	void runUntil(Time t);
	bool runWhile(const std::function<bool()> &pred, Duration maxDuration); // until pred is false; answers true if it became false
	void route(Pkt p);
	void deliver(Pkt p, Endpoint *to, int iface);
	void inject(const Bytes &bytes, const Address &from, const Address &to, int tos = 0);
	Path &path(Endpoint *a, Endpoint *b);
	Endpoint *find(const Address &a, int *iface);
	void log(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
private:
	bool step(Time limit);
};

struct Endpoint : public IPlatformAdapter {
	World &w;
	int index;
	SimCrypto simCrypto;
	ICryptoAdapter *crypto;
	std::shared_ptr<RTMFP> rtmfp;
	Time epoch;
	std::map<int, Address> ifaces; // our external address on each interface
	std::set<Address> staleAddrs;  // packets to these no longer arrive
	std::deque<Task> tasks;
	std::map<int, std::function<bool(void)> > writable;
	std::map<unsigned long, Time> threadBusy;
	Duration threadDelay { 0 };   // virtual time work on another thread takes
	Duration serialize { 0 };     // seconds per byte
	std::map<int, Time> freeAt;
	int shutdownComplete { 0 };
	Time shutdownCompleteAt { -1 };
	uint64_t gen { 0 };
	bool alive { true };
	uint64_t txPackets { 0 }, rxPackets { 0 };
	uint64_t txBytes { 0 };
	int depth { 0 };

	Endpoint(World &w, const std::string &name, const std::string &group = "", ICryptoAdapter *alt = nullptr);
	~Endpoint();
	void addInterface(int id, const Address &a);
	Address addr(int id = 0) { return ifaces.at(id); }
	Bytes epd() { return canonicalEPD(simCrypto.name); }
	void enter(const std::function<void()> &fn); // run fn as an event of this endpoint
	void drain();
	void destroy(); // drop the RTMFP

	Time getCurrentTime() override { return w.now; }
	void onHowLongToSleepDidChange() override {}
	bool notifyWhenInterfaceWritable(int interfaceID, const std::function<bool(void)> &onwritable) override;
	bool writePacket(const void *bytes, size_t len, int interfaceID, const struct sockaddr *addr, socklen_t addrLen, int tos) override;
	bool perform(unsigned long thread, const Task &task) override;
	void onShutdownComplete() override { shutdownComplete++; shutdownCompleteAt = w.now; }
	void pump(int iface);
};

Address ip(int a, int b, int port = 1935);

// --- application layer: every callback is recorded and checked against what must always hold

struct Msg {
	int index { 0 };
	Bytes data;
	std::shared_ptr<WriteReceipt> receipt;
	Time written { 0 };
	int finished { 0 };      // times onFinished ran
	bool finAbandoned { false };
	Time finishedAt { -1 };
	bool reliable { true };  // no deadline, never abandoned by the application
	bool noRtx { false };
	int parent { -1 };
	// harness knowledge from the wire
	uint64_t firstSN { 0 }, lastSN { 0 };
	Time startBy { INFINITY }, finishBy { INFINITY };
	std::weak_ptr<WriteReceipt> weak;
	int delivered { 0 };
};

struct App;
struct SFlow {
	App *app { nullptr };
	Endpoint *ep { nullptr };
	uint32_t uid { 0 };
	std::shared_ptr<SendFlow> flow;
	std::weak_ptr<SendFlow> weak;
	Bytes metadata, epd;
	Priority pri { PRI_ROUTINE };
	uint64_t nextSN { 1 };
	Time priAt { -1 };          // last change of priority
	uint64_t key { 0 };         // session it was seen in
	int mode { 0 };             // our role there
	const Msg *message(uint64_t sn) const; // containing a sequence number
	std::deque<Msg> msgs;
	RFlow *assocOf { nullptr }; // it is the return flow to this one
	RFlow *peer { nullptr };    // announced receiving end
	bool closed { false };      // by the application
	bool closedUnopened { false }; // before it had a session
	Time closedAt { -1 };
	int exceptions { 0 };
	uint64_t exceptionCode { 0 };
	Time exceptionAt { -1 };
	int writables { 0 };
	int announcements { 0 };
	int addrChanges { 0 };
	// hooks for checks
	std::function<bool()> onWritable;
	std::function<void(uintmax_t)> onException;
	std::function<void(RFlow &)> onRecvFlow;
	std::function<void(Msg &, bool)> onFinished;
	bool open() const { return flow && !closed && !exceptions; }
};

struct Delivery { uint64_t sn; size_t fragments; Bytes data; Time when; int msg; ReceiveOrder order; };
struct RFlow {
	App *app { nullptr };
	Endpoint *ep { nullptr };
	uint32_t uid { 0 }; // of the sender's SFlow
	SFlow *from { nullptr };
	std::shared_ptr<RecvFlow> flow;
	std::vector<Delivery> got;
	Time announcedAt { 0 };
	bool accepted { false };
	bool closed { false }; // by the application
	Time closedAt { -1 };
	uint64_t closeCode { 0 };
	int completes { 0 };
	bool error { false };
	Time completedAt { -1 };
	int merges { 0 };
	bool everNetwork { false }; // order was ever other than sequence
	bool held { false };
	int addrChanges { 0 };
	Time orderAt { -1 };        // last change of order
	size_t maxCapacity { 65536 };
	bool capChanged { false };
	std::weak_ptr<RecvFlow> weak;
	std::function<void(const Delivery &)> onMessage;
	std::function<void(bool)> onComplete;
	std::function<void()> onMerge;
	bool open() const { return flow && accepted && !closed && !completes; }
};

// what the application does with an announced flow
struct App {
	World &w;
	std::map<uint32_t, std::unique_ptr<SFlow> > sflows;
	std::vector<std::unique_ptr<RFlow> > rflows;
	uint32_t nextUID { 1 };
	bool checkContent { true }; // deliveries must be messages written, in order
	std::function<void(RFlow &)> onAnnounce; // decide: accept() etc. Default accepts
	std::function<void(SFlow &, Msg &, bool)> onAnyFinished;
	std::function<void(RFlow &)> onAnyMerge, onAnyAnnounced;
	std::function<void(RFlow &, const Delivery &)> onAnyMessage;
	std::function<void(Endpoint *)> onAnyAddrChange;
	std::function<void(Endpoint *, std::shared_ptr<RecvFlow>)> onForeign; // metadata unknown to the harness
	explicit App(World &w_) : w(w_) {}
	~App();

	void attach(Endpoint *ep); // sets rtmfp->onRecvFlow
	SFlow *open(Endpoint *ep, const Bytes &epd, Priority pri = PRI_ROUTINE, size_t extraMeta = 0);
	SFlow *openOn(RFlow *r, Priority pri = PRI_ROUTINE, size_t extraMeta = 0); // return flow
	SFlow *openOn(SFlow *s, Priority pri = PRI_ROUTINE, size_t extraMeta = 0); // another flow in the same session
	void setPriority(SFlow *f, Priority pri);
	Msg *write(SFlow *f, size_t len, Duration startWithin = INFINITY, Duration finishWithin = INFINITY);
	void close(SFlow *f);
	void close(RFlow *f, uint64_t code = 0);
	void accept(RFlow &r, ReceiveOrder order = RO_SEQUENCE);
	void setOrder(RFlow &r, ReceiveOrder order);
	void dropAll(); // forget every flow object

	static Bytes content(uint32_t uid, int index, size_t len);
	bool reliableComplete(SFlow &f); // every reliable message delivered to the peer
private:
	SFlow *track(Endpoint *ep, std::shared_ptr<SendFlow> flow, uint32_t uid, const Bytes &meta, const Bytes &epd, Priority pri, RFlow *assoc);
	void announce(Endpoint *ep, std::shared_ptr<RecvFlow> flow, SFlow *via);
	Bytes makeMeta(uint32_t uid, size_t extra);
};

} // namespace sim
