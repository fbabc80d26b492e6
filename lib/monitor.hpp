#pragma once
// Watches the decoded wire and the application layer of a simulated world, and
// judges the histories against the protocol guarantees (P01-P03, P05, P09-P12, P16, P19).
#include "sim.hpp"

namespace sim {

struct ISet { // set of disjoint inclusive ranges
	std::map<uint64_t, uint64_t> r;
	void add(uint64_t a, uint64_t b);
	bool has(uint64_t v) const;
	bool hasAll(uint64_t a, uint64_t b) const;
	size_t count() const { return r.size(); }
	uint64_t firstEnd() const { return r.empty() ? 0 : r.begin()->second; }
};

struct Frag {
	int txData { 0 }, txAbn { 0 };
	size_t len { 0 };
	bool acked { false }, inFlight { false };
	uint64_t tsn { 0 };
	int nak { 0 };
	Time last { -1 };
	Duration erto { -1 };  // when last transmitted
	// P41: what is certain about it
	bool sure { false }, lost { false }, lastAbn { false }, gone { false }; // in flight; considered lost and not sent since
	int nakLo { 0 }, nakHi { 0 };
};

struct WSess;
struct WFlow {
	WSess *s { nullptr };
	int mode { 0 }; // of the sender
	uint64_t id { 0 };
	SFlow *sf { nullptr };
	Endpoint *tx { nullptr }, *rx { nullptr };
	// sender
	std::map<uint64_t, Frag> frags;
	std::set<uint64_t> flying, missing; // missing: lost and not sent again
	uint64_t maxFirst { 0 };   // highest sequence number transmitted
	uint64_t fsnChecked { 0 };
	bool gotAck { false };
	uint64_t advert { 65536 }; // bytes, last received
	bool finSent { false };
	unsigned passedOver { 0 };
	// receiver
	ISet got, gotData;         // delivered to the endpoint: with what was skipped; with data
	uint64_t fsn { 0 };
	bool finSeen { false }; uint64_t fin { 0 };
	bool exact { true };       // everything delivered was processed by the flow
	bool any { false };
	uint64_t cumSent { 0 }; bool anyAckSent { false };
	Time lastAckSent { -1 };
	uint64_t acksSent { 0 };
	Time anyTimeSent { -1 };
};

struct WSess {
	uint64_t key { 0 };
	Endpoint *ep[3] { nullptr, nullptr, nullptr };
	std::map<uint64_t, std::unique_ptr<WFlow> > flows[3]; // by mode of the sender
	std::vector<std::unique_ptr<WFlow> > old;
	uint64_t nextTSN[3] { 1, 1, 1 }, maxAcked[3] { 0, 0, 0 };
	int dataSinceAck[3] { 0, 0, 0 };   // by mode of the receiver
	unsigned ce[3] { 0, 0, 0 };
	bool newEcn[3] { false, false, false };
	Time closing { -1 };
	bool moved { false }, ecnUnknown { false };
	size_t cw0 { 0 }, lastCw[3] { 0, 0, 0 };
	int ece[3] { 0, 0, 0 };            // congestion marks last reported to this side
	uint64_t cutTSN[3] { 0, 0, 0 };
	bool wasCut[3] { false, false, false };
	Time firstOpen[3] { -1, -1, -1 };
	Time heard[3] { -1, -1, -1 };       // last packet that arrived at this side
	// P41, by mode of the sender
	Time dLo[3] { INFINITY, INFINITY, INFINITY }, dHi[3] { INFINITY, INFINITY, INFINITY }; // next retransmission timeout
	uint64_t maxLo[3] { 0, 0, 0 }, maxHi[3] { 0, 0, 0 };
	size_t recLo[3] { 0, 0, 0 }, recHi[3] { 0, 0, 0 }; // bytes of the recovery period left
	size_t out0[3] { 0, 0, 0 };
	int marksSeen[3] { 0, 0, 0 };
	Time burstAt[3] { -1, -1, -1 };
	size_t burst[3] { 0, 0, 0 };       // bytes sent at once since the last acknowledgement
	uint64_t dataSent[3] { 0, 0, 0 };
};

struct Monitor {
	World &w;
	App &app;
	std::set<std::string> props;
	std::map<uint64_t, std::unique_ptr<WSess> > sess;
	bool checkAddress { true };
	bool steady { false };        // a constant path that loses and reorders nothing, no delay based congestion control
	Endpoint *steadyFor { nullptr }; // and only this endpoint has it so
	Duration delay { -1 };        // of the constant path, one way
	bool fifo { false };          // no reordering in this world
	std::set<WFlow *> live;
	unsigned long dataPackets { 0 }, retransmissions { 0 }, ackPackets { 0 }, hurried { 0 }, mergesExpected { 0 }, multi { 0 }, gaps { 0 }, nextChunks { 0 }, probes { 0 }, blocked { 0 }, priContest { 0 }, netDelivered { 0 }, abnSent { 0 };
	unsigned long surelyLost { 0 }, lossTimeouts { 0 }, lossCuts { 0 }, repairs { 0 }, conserved { 0 }, paced { 0 }, bursts { 0 };
	unsigned long losses { 0 }, backoffs { 0 }, cuts { 0 }, marks { 0 }, grows { 0 }, timeouts { 0 }, samples { 0 };
	size_t congestionWindow(WSess &s, int mode);

	Monitor(World &w, App &a, const std::set<std::string> &props);
	bool on(const char *p) const { return props.count(p); }
	WSess *session(const Pkt &p);
	WFlow *flow(WSess &s, int mode, uint64_t id);
	void finish(); // at the end of a world
	void labels();
	size_t flightLowerBound(WFlow &f); // user data bytes certainly outstanding
	bool ready(WFlow &f); // its session could send more of it now
	uint64_t sessOutstanding(WSess &s, int mode, size_t *cwnd);
private:
	void sent(Pkt &p);
	void sentData(Pkt &p, WSess &s, WFlow &f, Chunk &c, bool first);
	void sentAck(Pkt &p, WSess &s, Chunk &c);
	void arriving(Pkt &p, Endpoint *e);
	void arrived(Pkt &p, Endpoint *e, bool ok);
	struct Todo { RFlow *r; int merges; uint64_t completedSN; };
	struct Expect { WFlow *f; size_t before; int wantMerges; int mergesBefore; bool network; std::vector<uint64_t> completed; const char *atOnce { nullptr }; };
	std::vector<Expect> expects;
	bool known(WSess &s, int mode);
	bool maySend(WSess &s, int mode, std::string &why);
	void dueTimeout(WSess &s, int mode);
	void sentPaced(Pkt &p, WSess &s, int mode);
	void timedOut(WSess &s, int mode, bool certain);
	void transmitted(WSess &s, WFlow &f, Chunk &c, Frag &x);
	void lossAcks(Pkt &p, Endpoint *e, WSess &s, int mode);
	void dueAck(WSess &s, WFlow &f, Time by, const char *why);
};

} // namespace sim
