// P01, P02, P03, P05, P09, P10, P11, P12, P16, P19: two endpoints exchanging flows over a faulty network.
#include "scenario.hpp"
using namespace sim;
using pbt::Register;

namespace {

void go(Src &s, const Profile &p) { Scenario x(s, p); x.run(); }

void reliable(Src &s) { Profile p; p.props = { "P01" }; go(s, p); }
void reliableSeq(Src &s) { Profile p; p.props = { "P01" }; p.network = false; p.maxMessage = 30000; p.burst = 8; p.maxFlows = 2; p.order = 0; go(s, p); }
void gapped(Src &s) { Profile p; p.props = { "P01" }; p.network = false; p.abandon = 5; p.deadlines = 3; p.noRtx = 2; p.parents = 3; p.order = 0; go(s, p); }
Register r1({"P01", "histories of two endpoints: flows opened both ways, messages of all sizes written, orders, windows, priorities and paths changed, over loss, duplication, reordering, delay and outages that end; every delivery compared with what was written, and everything delivered in the end; non-trivial: more than 3 messages and 5 data packets", {
	{"histories", reliable, 6000, 250000},
	{"large", reliableSeq, 2500, 100000},
	{"gapped", gapped, 4000, 150000},
}, { "outages are shorter than the retransmit limit", "startup packets are delivered in order and once (they may be lost)", "virtual clock, simulated crypto" }});

void network(Src &s) { Profile p; p.props = { "P02" }; p.order = 8; p.maxFlows = 3; p.burst = 8; p.abandon = 1; go(s, p); }
void networkDeadlines(Src &s) { Profile p; p.props = { "P02" }; p.order = 4; p.maxFlows = 3; p.burst = 6; p.abandon = 3; p.deadlines = 4; p.noRtx = 3; go(s, p); }
Register r2({"P02", "as P01 with flows mostly in network order, receive orders changed and hold released in the middle; deliveries judged packet by packet against the fragments received; non-trivial: more than 3 messages and 5 data packets", {
	{"histories", network, 6000, 250000},
	{"deadlines", networkDeadlines, 4000, 150000},
}, { "virtual clock, simulated crypto" }});

void deadlines(Src &s) { Profile p; p.props = { "P03" }; p.deadlines = 7; p.noRtx = 3; p.parents = 4; p.abandon = 6; go(s, p); }
void deadlinesNone(Src &s) { Profile p; p.props = { "P03" }; p.deadlines = 2; p.parents = 6; p.abandon = 2; p.lossless = true; p.endSession = 1; p.close = 4; p.rclose = 3; go(s, p); }
Register r3({"P03", "histories of messages with start and finish deadlines, retransmission turned off, parents, abandonment, deadlines changed and flows closed; every transmission judged against the receipt at that moment, every receipt finished once and truthfully; non-trivial: more than 3 messages and 5 data packets", {
	{"histories", deadlines, 7000, 300000},
	{"endings", deadlinesNone, 4000, 150000},
}, { "virtual clock, simulated crypto" }});

void rejects(Src &s) { Profile p; p.props = { "P05" }; p.rejects = true; p.open = 14; p.maxFlows = 10; p.rclose = 4; p.close = 6; p.write = 16; p.actions = 60; go(s, p); }
void endings(Src &s) { Profile p; p.props = { "P05" }; p.rejects = true; p.open = 10; p.maxFlows = 8; p.rclose = 4; p.close = 6; p.endSession = 1; p.actions = 60; p.deadlines = 2; p.abandon = 2; go(s, p); }
Register r5({"P05", "histories of many flows opened from the endpoint, beside others and in return, with metadata of all sizes, accepted, ignored, rejected with a code or closed by either end at any moment; announcements, metadata, return associations, exceptions and completions judged; non-trivial: more than 3 messages and 5 data packets", {
	{"histories", rejects, 6000, 250000},
	{"endings", endings, 4000, 150000},
}, { "virtual clock, simulated crypto" }});

void windows(Src &s) { Profile p; p.props = { "P09" }; p.window = 8; p.burst = 10; p.maxMessage = 30000; p.maxFlows = 3; p.order = 5; go(s, p); }
void windowsClean(Src &s) { Profile p; p.props = { "P09" }; p.window = 8; p.burst = 10; p.maxMessage = 60000; p.maxFlows = 2; p.order = 5; p.lossless = true; go(s, p); }
Register r9({"P09", "histories with receive buffers, window limits and orders changed while bursts are sent; bytes in flight judged against the congestion window and the last advertisement at every packet, advertisements against what the receiver holds; non-trivial: more than 3 messages and 5 data packets", {
	{"histories", windows, 4000, 150000},
	{"lossless", windowsClean, 2500, 80000},
}, { "virtual clock, simulated crypto" }});

void wire(Src &s) { Profile p; p.props = { "P10" }; p.deadlines = 2; p.abandon = 2; p.rclose = 3; p.rejects = true; p.maxFlows = 8; go(s, p); }
void wireBig(Src &s) { Profile p; p.props = { "P10" }; p.burst = 10; p.maxMessage = 40000; p.maxFlows = 3; p.tos = 1; p.ecn = true; go(s, p); }
Register r10({"P10", "every packet written in generated histories decrypted and decoded by an independent decoder: sizes, chunk structure, timestamps, flow options, fragment control and content; non-trivial: more than 3 messages and 5 data packets", {
	{"histories", wire, 5000, 200000},
	{"bursts", wireBig, 3000, 100000},
}, { "virtual clock, simulated crypto" }});

void acks(Src &s) { Profile p; p.props = { "P11" }; p.burst = 6; p.abandon = 1; p.deadlines = 1; go(s, p); }
void acksGappy(Src &s) { Profile p; p.props = { "P11" }; p.burst = 10; p.maxFlows = 3; p.maxMessage = 20000; p.network = false; p.order = 1; go(s, p); }
Register r11({"P11", "histories over lossy, reordering and duplicating paths; every acknowledgement compared with the sequence numbers delivered to that endpoint, its timing with the arrival; non-trivial: more than 3 messages and 5 data packets", {
	{"histories", acks, 6000, 250000},
	{"gaps", acksGappy, 3000, 100000},
}, { "virtual clock, simulated crypto" }});

void priorities(Src &s) { Profile p; p.props = { "P12" }; p.burst = 14; p.pri = 6; p.maxFlows = 6; p.open = 8; p.maxMessage = 20000; go(s, p); }
Register r12({"P12", "histories of up to 6 flows of all priorities competing in bursts, priorities changed with data queued; every packet judged against what the other flows could have sent; non-trivial: more than 3 messages and 5 data packets", {
	{"histories", priorities, 5000, 200000},
}, { "virtual clock, simulated crypto" }});

void ecn(Src &s) { Profile p; p.props = { "P16" }; p.tos = 4; p.ecn = true; p.burst = 5; go(s, p); }
void marks(Src &s) { Profile p; p.props = { "P16" }; p.tos = 1; p.ecn = true; p.burst = 12; p.maxMessage = 60000; p.maxFlows = 2; p.steady = true; p.fault = 0; p.window = 0; p.order = 0; p.network = false; p.write = 10; p.horizon = 2; p.actions = 60; go(s, p); }
void lateReports(Src &s) { Profile p; p.props = { "P16" }; p.ecn = true; p.burst = 14; p.maxMessage = 60000; p.maxFlows = 1; p.steady = true; p.lateAcks = true; p.fault = 0; p.window = 0; p.order = 0; p.network = false; p.write = 10; p.horizon = 2; p.actions = 60; go(s, p); }
Register r16({"P16", "histories with traffic classes of all values set and paths that mark congestion: TOS of every packet and every ECN report judged; and steady streams over a constant marking path, also with late and repeated reports: every congestion window change judged against the new marks reported; non-trivial: more than 3 messages and 5 data packets", {
	{"histories", ecn, 5000, 200000},
	{"marks", marks, 4000, 150000},
	{"latereports", lateReports, 2500, 100000},
}, { "virtual clock, simulated crypto" }});

void estimates(Src &s) { Profile p; p.props = { "P19" }; p.burst = 8; p.maxMessage = 20000; go(s, p); }
void steady(Src &s) { Profile p; p.props = { "P19" }; p.steady = true; p.burst = 6; p.maxMessage = 40000; p.fault = 0; p.order = 0; p.window = 0; p.network = false; p.horizon = 4; p.actions = 60; go(s, p); }
Register r19({"P19", "round trip, timeout and congestion window reports judged at every packet, over faulty paths by their invariants, over constant paths against the simulated delay; non-trivial: more than 3 messages and 5 data packets", {
	{"histories", estimates, 5000, 200000},
	{"steady", steady, 4000, 150000},
}, { "virtual clock, simulated crypto" }});

void recovery(Src &s) { Profile p; p.props = { "P41" }; p.burst = 8; p.maxMessage = 20000; p.deadlines = 1; p.noRtx = 1; p.abandon = 1; go(s, p); }
void bulk(Src &s) { Profile p; p.props = { "P41" }; p.burst = 14; p.maxMessage = 60000; p.maxFlows = 2; p.order = 0; p.network = false; p.write = 10; p.horizon = 3; p.actions = 60; go(s, p); }
void sparse(Src &s) { Profile p; p.props = { "P41" }; p.ecn = s.chance(1, 4); p.burst = 14; p.maxMessage = 60000; p.maxFlows = 2; p.steady = p.sparse = true; p.fault = 0; p.window = 0; p.order = 0; p.network = false; p.write = 10; p.horizon = 3; p.actions = 80; p.noRtx = 1; p.abandon = 1; go(s, p); }
Register r41({"P41", "histories of bursts over lossy, reordering and duplicating paths; every fragment in flight followed from the wire, every retransmission, congestion window change and pause judged against the acknowledgements received and the timeouts due; non-trivial: more than 3 messages and 5 data packets", {
	{"histories", recovery, 5000, 200000},
	{"bulk", bulk, 2000, 80000},
	{"sparse", sparse, 2500, 100000},
}, { "default congestion control (no delay based action)", "virtual clock, simulated crypto" }});

} // namespace
