#!/usr/bin/env python3
"""Source of truth for properties.jsonl (run: python3 tools/props.py)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or []
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

NONET = "The stable tests never run two protocol endpoints against each other: the only network exercisers (testclient, server, echoserver...) are manual programs with no oracle; nothing generates loss, duplication, reordering or timing."

prop("P01", "Reliable flows deliver every message once, in order, intact",
 "On a flow received in sequence order, messages written without deadlines on a connected session are delivered to the receiving application exactly once, in the order written, byte-for-byte intact (including empty and multi-packet messages), with sequence numbers strictly increasing. This holds whatever finite loss, duplication, delay and reordering the network applies and whatever mix of priorities, message sizes, buffer sizes and traffic from other flows is in play, and delivery finishes once the network behaves. A flow whose abandoned messages leave gaps still delivers every surviving message in order, never a fragment mix, never one twice.",
 ["inputs", "schedules", "fault_sequences"], "all message sequences, flow counts, priorities, buffer capacities and all finite packet loss/duplication/delay/reordering schedules",
 NONET, ["src/SendFlow.cpp", "src/RecvFlow.cpp", "src/Session.cpp", "src/Flow.cpp", "src/IndexSet.cpp", "include/rtmfp/List.hpp"],
 [("fragmentation, retransmission and loss detection", "SendFlow::basicWrite, assembleData, ackRange, onAck; Session loss/timeout handling"), ("reassembly and in-order delivery", "RecvFlow::onData, insertFragment, tryDelivery, deliverMessage")],
 ["RecvFlow::onMessage callbacks", "SendFlow::write"])

prop("P02", "Network-order and held flows deliver complete messages correctly",
 "On a flow received in network order every message that becomes completely received is delivered exactly once as soon as its last fragment arrives, intact and with its own sequence number, and no message is delivered that was not written. While a flow's receive order is 'hold' nothing is delivered, and switching a flow between hold, network and sequence orders at any moment loses nothing and duplicates nothing. In network order, closing a sequence-number gap is reported to the application's merge callback, at which point everything up to the cumulative acknowledgement has been delivered.",
 ["inputs", "schedules", "histories"], "all arrival orders, fragmentations and receive-order switch points",
 NONET, ["src/RecvFlow.cpp"], [("message completion search and delivery", "RecvFlow::insertFragment, tryDelivery, deliverMessage, setReceiveOrder")],
 ["RecvFlow::onMessage", "RecvFlow::onCumulativeAckDidMerge"])

prop("P03", "Write receipts tell the truth and finish exactly once",
 "Every write answers a receipt that finishes exactly once, as either delivered or abandoned and never both, no later than the end of its flow, and its completion callback runs exactly once. A receipt reports delivered only if the peer endpoint really received the complete message, and every message the peer never completely received ends up reported abandoned; started is reported if and only if some transmission of the message was attempted. After its start deadline passes unstarted or its finish deadline passes unfinished the message is abandoned and consumes no further transmission, a message with retransmission disabled has each fragment transmitted at most once, and a child receipt becomes abandoned when its parent does.",
 ["inputs", "schedules", "fault_sequences"], "all writes, deadlines, parent chains, retransmit settings, network faults and flow/session terminations",
 NONET, ["src/WriteReceipt.cpp", "src/SendFlow.cpp", "include/rtmfp/WriteReceipt.hpp"],
 [("abandonment and trimming", "SendFlow::trimSendQueue, findForwardSequenceNumber; WriteReceipt::abandonIfNeeded"), ("delivery on acknowledgement", "SendFlow::ackRange; IssuerWriteReceipt")],
 ["WriteReceipt accessors and onFinished", "peer's received fragments on the wire"])

prop("P04", "Write receipt chains expire exactly the chained receipts",
 "Appending to a receipt chain makes the previous unfinished receipt the parent of the new one; expiring a chain lowers each chained receipt's start and finish deadlines to the given times only if earlier than its current ones, then empties the chain. Once a receipt is abandoned each unfinished descendant is abandoned in turn no later than when the sender next considers it, and finished receipts keep their outcome whatever happens to the chain later.",
 ["histories", "inputs"], "all sequences of writes, appends, expiries, abandons and completions on chains",
 "No test touches write receipts.", ["src/WriteReceipt.cpp", "include/rtmfp/WriteReceipt.hpp"],
 [("chain append/expire", "WriteReceiptChain::append, expire; WriteReceipt::setParent")], ["WriteReceipt startBy/finishBy/parent/isAbandoned"])

prop("P05", "Flows start, associate, reject and complete as announced",
 "A receiving flow is announced exactly once, with the opener's exact metadata, to its associated sending flow if it is a return flow and otherwise to the endpoint, before any of its messages; if not accepted during that callback it is rejected and the sender gets an exception. A sender's close lets all queued messages be delivered and then completes the receiver without error, a receiver's rejection gives the sender exactly the reason code given, and a return flow is associated with the very flow it answers. Each flow's completion or exception callback runs at most once, and no callback runs on a flow after the application has closed it.",
 ["histories", "schedules", "inputs"], "all interleavings of open, return-open, accept, reject, write, close at both ends under network faults",
 NONET, ["src/Flow.cpp", "src/SendFlow.cpp", "src/RecvFlow.cpp", "src/Session.cpp"],
 [("flow startup options and association", "Flow::basicOpenFlow, Session::onUserData, RecvFlow ctor"), ("termination", "SendFlow::close, onExceptionReport, RecvFlow::close, abort, closeAndNotify")],
 ["onRecvFlow, onException, onComplete, onMessage callbacks"])

prop("P06", "Sessions open to the right peer, once, despite loss and glare",
 "A flow opened to an endpoint discriminator is only ever bound to a session whose verified peer certificate is selected by that discriminator, both ends agree on the session's nonces and peers, and with a responsive reachable peer the session opens whatever finite loss, duplication or reordering affects startup (short of a keying request that arrives after a session with that peer has opened, which counts as the peer having restarted and replaces the session), and whatever mix of candidate addresses, redirects and simultaneous opens from both ends occurs. Flows opened concurrently or later to the same peer share one session rather than creating duplicates, and after simultaneous opens exactly one session per pair of peers carries the flows. A peer that is unreachable or is not selected by the discriminator never gets the flow's data.",
 ["schedules", "inputs", "fault_sequences"], "all startup packet schedules, discriminators, peers and candidate/redirect topologies",
 NONET, ["src/RTMFP.cpp", "src/Session.cpp", "src/SendFlow.cpp"],
 [("handshake state machine and glare", "Session::onRHello, onIIKeying/onRIKeying; RTMFP::onRHello, onIIKeying, onSessionWillOpen, onSessionDidOpen"), ("session lookup and deduplication", "RTMFP::findOpenSessionByEPD, findOpeningSessionByEPD")],
 ["onRecvFlow/onWritable", "Flow::getFarCertificate, getNearNonce, getFarNonce"])

prop("P07", "Session and endpoint shutdown notify everyone exactly once",
 "When a session ends for any reason - closed by either end, timed out, or endpoint shutdown, orderly or immediate - every still-open sending flow gets its exception callback exactly once, every still-open receiving flow gets its completion callback with error exactly once, and no flow callback follows. Both ends of a closed session reach the closed state in bounded time even if close packets are lost. An endpoint that is shut down reports shutdown completion exactly once, after all its sessions have closed, and accepts no new flows or sessions afterwards.",
 ["histories", "schedules", "fault_sequences"], "all session states at closing time, all loss of close handshake packets, both shutdown modes",
 NONET, ["src/Session.cpp", "src/RTMFP.cpp", "src/SendFlow.cpp", "src/RecvFlow.cpp"],
 [("near/far close handshake", "Session::close, onCloseRequest, abort, onCloseAck"), ("shutdown", "RTMFP::shutdown, checkShutdownComplete, onSessionDidClose")],
 ["onException, onComplete, IPlatformAdapter::onShutdownComplete"])

prop("P08", "No received packet can crash, hang or corrupt an endpoint",
 "Any sequence of datagrams with any contents from any address, including correctly encrypted packets from a malicious authenticated peer, is handled without memory errors, exceptions, hangs or unbounded output. Sessions of other, well-behaved peers, and a session that merely receives undecryptable or malformed packets, keep delivering their data correctly. Malformed chunks have no application-visible effect beyond the flows of the peer that sent them.",
 ["inputs", "histories"], "all packet byte strings, chunk sequences and interleavings with normal traffic",
 "Unit tests never feed a packet to an endpoint; the quantifier is over adversarial bytes.", ["src/Session.cpp", "src/RTMFP.cpp", "src/Interface.cpp", "src/RecvFlow.cpp", "src/SendFlow.cpp", "src/VLU.cpp"],
 [("chunk parsing and bounds checks", "ISession::onReceivePacket, Session chunk handlers, VLU::parse, Option::parse")], ["sanitizers, callbacks, emitted packets"])

prop("P09", "Flow control and congestion limits bound what is in flight",
 "A sender never has more unacknowledged user data outstanding on a flow than the receiver's latest advertised buffer allows, beyond the specified one-packet persist probe, and never more than its congestion window across a session by more than one packet's worth. A receiver always advertises no more than its free buffer and window limit, its buffered bytes stay within capacity plus the specified allowance while the sender respects the advertisements, and a stalled receiver (held order) blocks the sender without loss, resuming when space reappears. Buffered, outstanding and writable reports to the application always match the actual queue: bytes are accounted once, outstanding never exceeds buffered, and all return to zero when everything is acknowledged.",
 ["schedules", "inputs", "histories"], "all receive buffer capacities, window limits, hold/resume schedules, message sizes and network faults",
 NONET, ["src/SendFlow.cpp", "src/RecvFlow.cpp", "src/Session.cpp"],
 [("receiver advertisement", "RecvFlow::assembleAck"), ("sender window checks and persist", "SendFlow::assembleData, onAck, onPersistTimer; Session::getCongestionWindow checks")],
 ["ack and data chunks on the wire", "SendFlow::getBufferedSize, getOutstandingBytes, isWritable, getRecvBufferBytesAvailable"])

prop("P10", "Every packet sent is well formed, correctly encoded and within size limits",
 "Every datagram an endpoint emits decrypts and parses under an independent decoder of the wire format: valid mode, timestamps, chunk types and lengths, padding, variable-length integers, data fragments whose flags and sequence numbers reassemble exactly the messages written, and flow options present until acknowledged. Session packets stay within the session packet limit and startup packets within the startup limit, and packets are addressed from the right interface to the session's current or probed address with the session's traffic class. Compressed forms (next-data chunks, relative fields) decode to the same content as explicit ones.",
 ["inputs", "schedules"], "all traffic an endpoint can be driven to emit",
 NONET, ["src/PacketAssembler.cpp", "src/Session.cpp", "src/SendFlow.cpp", "src/RecvFlow.cpp", "src/VLU.cpp", "include/rtmfp/packet.hpp"],
 [("packet assembly", "PacketAssembler; SendFlow::assembleData; RecvFlow::assembleAck; Session::assemble*")], ["IPlatformAdapter::writePacket"])

prop("P11", "Acknowledgements are truthful, complete and timely",
 "An acknowledgement never claims a sequence number that was neither received nor declared skipped by the sender, its cumulative value never decreases, and it reports every received range that fits. Data is acknowledged at once after every second data packet, on arriving beyond a gap or into one, on a duplicate or abandoned fragment, or on reaching the end of the flow, and otherwise within the delayed-acknowledgement interval. An acknowledgement for data never sent, stale or duplicated acknowledgements, and malformed ranges never cause data loss or false delivery reports.",
 ["schedules", "inputs"], "all arrival patterns and all acknowledgement sequences",
 NONET, ["src/RecvFlow.cpp", "src/SendFlow.cpp", "src/Session.cpp", "src/IndexSet.cpp"],
 [("ack assembly", "RecvFlow::assembleAck, scheduleAck; Session::scheduleAck"), ("ack processing", "SendFlow::onAck, ackRange")], ["ack chunks on the wire"])

prop("P12", "Higher-priority data is transmitted first",
 "Whenever a session may send and several flows have data that their receivers' windows permit, the flow data transmitted next comes from the highest non-empty priority, equal priorities are served fairly so that none starves, and within one flow messages are first transmitted in the order written. Changing a flow's priority applies to data not yet sent, and time-critical sending is signalled on the wire exactly while data at or above the time-critical priority is being sent.",
 ["inputs", "schedules"], "all sets of flows, priorities, priority changes and queue contents",
 NONET, ["src/Session.cpp", "src/SendFlow.cpp", "src/Interface.cpp", "include/rtmfp/Priority.hpp"],
 [("priority scheduling", "Session::assembleData/ready queues, SendFlow::scheduleForTransmission, Interface::onInterfaceWritable")], ["order of data chunks on the wire"])

prop("P13", "Dead sessions are detected and live ones kept, on time",
 "A session with unacknowledged data whose peer stops answering is torn down at the first retransmission timeout once its retransmit limit has elapsed since it last heard from the peer, and not before, reporting exceptions; an idle session probes its peer after its keepalive period and survives as long as the peer answers. A session with no flows closes after, and not before, its idle limit, and a session with any open flow is never closed for idleness. Limits set per session or as defaults for new sessions take effect, subject to the documented minimums.",
 ["schedules", "configurations"], "all limit settings, outage start times and durations, and traffic patterns",
 NONET, ["src/Session.cpp", "src/RTMFP.cpp", "src/Flow.cpp"],
 [("liveness timers", "Session idle/keepalive/timeout timers; RTMFP::setDefaultSession*")], ["onException times, packets sent, session closure at the peer"])

prop("P14", "Sessions move only to addresses proven to belong to the peer",
 "When a peer's address changes the session keeps working: data keeps being delivered and the new address is reported after a successful verification round trip at that address. A third party that replays, redirects or spoofs packets from an address that cannot receive and return the verification challenge never causes the session's destination address to change, and forged, stale or replayed verification answers are ignored.",
 ["schedules", "histories", "inputs"], "all address change times and attacker packet sequences",
 NONET, ["src/Session.cpp", "src/RTMFP.cpp"], [("mobility check", "Session::onPacketAddress..., mobility ping/pong with cryptographic tag; RTMFP::onSessionAddressDidChange")], ["destination addresses of emitted packets", "Flow::getFarAddress, onFarAddressDidChange"])

prop("P15", "Responders stay stateless until a valid, fresh, address-bound cookie",
 "A responder answers a hello with a cookie bound to the sender's address and creates session state only for a keying request that returns a cookie this endpoint issued to that same address within its lifetime and that carries an authentic certificate and valid signature. A cookie that was altered or has expired creates nothing and gets no answer, an unexpired cookie arriving from a different address (or altered only in the part that binds it to an address) gets only a replacement cookie, and retransmitted keying requests are answered again with the same session rather than a new one. Unsolicited, duplicated or tag-mismatched hello responses create no session and disturb no opening one.",
 ["inputs", "histories"], "all cookies, ages, addresses, tampering and duplication of startup packets",
 NONET, ["src/RTMFP.cpp", "src/Session.cpp"], [("cookie issue/check", "RTMFP::makeCookie, checkCookie, onIIKeying, sendCookieChange, tryRIKeyingRetransmit")], ["packets emitted in response", "onRecvFlow, session count via new flows"])

prop("P16", "ECN and traffic class are handled per session",
 "Outgoing session packets carry the session's traffic class with congestion-notification bits set only as the protocol prescribes, whatever value the application supplies. Congestion-experienced marks on received data packets are counted and reported back to the sender promptly, and the sender reacts to a new mark by reducing its congestion window at most once per round trip, never mistaking repeated reports for new marks.",
 ["schedules", "inputs", "configurations"], "all mark patterns, loss of reports and traffic class values",
 NONET, ["src/Session.cpp", "src/RecvFlow.cpp", "src/Interface.cpp"], [("ECN report", "RecvFlow::assembleAck ECN report; Session::onECNReport"), ("traffic class", "Session traffic class; Flow::setSessionTrafficClass")], ["writePacket tos, ECN report chunks, Flow::getCongestionWindow"])

prop("P17", "Applications may call back into the library from any callback",
 "From inside any callback - message, new flow, writable, completion, exception, receipt finished, address change, timer - an application may write, open, accept, close or reject flows, set priorities, orders and limits, close the session, or shut the endpoint down. Doing so never causes a memory error, a lost or duplicated notification on other flows, or corruption of other flows' data.",
 ["histories", "programs"], "all callback kinds times all API calls times protocol states",
 NONET, ["src/SendFlow.cpp", "src/RecvFlow.cpp", "src/Session.cpp", "src/WriteReceipt.cpp", "src/RTMFP.cpp"],
 [("deferred execution and shared ownership", "IPlatformAdapter::perform uses; shared_ptr copies around callbacks")], ["sanitizers; callback logs"])

prop("P18", "Introduction: forwarding and redirection reach the right peer",
 "A hello whose discriminator does not select the endpoint is handed to the application with its exact discriminator, tag and source address, or handled by the session with the selected peer according to that session's forwarding mode, and otherwise ignored. Forwarded hellos make the target answer directly to the true originator's address, or redirect it, exactly as the mode says, and redirects sent by an application or peer cause an opening flow to try exactly the addresses given. Opening through an introducer yields a session with the selected target, never with the introducer.",
 ["schedules", "inputs"], "all introducer/target/initiator topologies, modes, discriminators and address lists",
 NONET, ["src/RTMFP.cpp", "src/Session.cpp", "src/Flow.cpp"], [("forwarding", "RTMFP::onIHello, sendResponderRedirect, Flow::forwardIHello, Session::onFIHello"), ("redirect handling", "RTMFP::onRedirect; Session candidate addresses")], ["onUnmatchedIHello, packets and sessions"])

prop("P19", "Round-trip measurement and timeouts track the network",
 "Over a path with a steady round trip the smoothed round-trip time converges to it within the timestamp granularity plus acknowledgement delay, the last, base and variance values stay non-negative and mutually consistent (base never above a recent sample), and the effective retransmission timeout is never below the measured round trip nor the protocol minimum and backs off while nothing is acknowledged. The congestion window never falls below two packets (its value after a timeout) and grows only while data is acknowledged.",
 ["schedules", "configurations"], "all path delays, jitters and traffic patterns",
 NONET, ["src/Session.cpp"], [("timestamp echo and RTT", "Session timestamp processing"), ("congestion control", "Session congestion window update, onLoss, timeout")], ["Flow::getSRTT, getLastRTT, getBaseRTT, getERTO, getMRTO, getCongestionWindow"])

prop("P20", "Flash crypto sessions agree on keys and reject forged packets",
 "For every combination of mutually acceptable key-agreement groups, certificates and options (packet HMAC lengths, sequence numbers, requirements), initiator and responder that complete a handshake agree: every packet either encrypts decrypts at the other to the identical plaintext, and their nonces match crosswise. With HMACs negotiated any bit change, truncation or extension of a packet is rejected, with sequence numbers negotiated a replayed packet is rejected and reordering within the window is not, and a required but unavailable option makes keying fail rather than continue without it. A refused answer, or one repeated after keying is complete, leaves the outcome of the handshake as it was. Arbitrary keying components, certificates and packets are rejected without memory errors.",
 ["inputs", "configurations", "histories"], "all option combinations, groups, packet contents and tamperings",
 "No test links the Flash crypto adapter at all.", ["src/FlashCryptoAdapter.cpp", "src/FlashCryptoAdapter_OpenSSL.cpp", "include/rtmfp/FlashCryptoAdapter.hpp"],
 [("key agreement and negotiation", "FlashCryptoKey keying component methods"), ("packet protection", "FlashCryptoKey::encrypt/decrypt, SSEQ and HMAC")], ["SessionCryptoKey interface"])

prop("P21", "Flash certificates and endpoint discriminators select consistently",
 "A certificate's canonical discriminator always selects that certificate and no certificate with a different fingerprint; a discriminator that names a fingerprint selects exactly the certificate with that fingerprint, any other selects a certificate exactly when every component it requires (hostname, ancillary data) matches, and unknown or malformed discriminators select nothing. The adapter's own selection answer agrees with its certificate's, decoding an encoded certificate answers an equivalent one, and of two distinct peers in a glare exactly one considers itself the winner.",
 ["inputs"], "all certificates and discriminators, well-formed, mutated and arbitrary",
 "No test links the Flash crypto adapter at all.", ["src/FlashCryptoAdapter.cpp"], [("certificate parsing and selection", "FlashCryptoCert, EPD parsing, FlashCryptoAdapter::isSelectedByEPD, checkNearWinsGlare")], ["ICryptoAdapter and CryptoCert interfaces"])

prop("P22", "Variable-length integers, fields and options round-trip and never overread",
 "Encoding then parsing any unsigned integer, counted field or option list yields the original values and consumes exactly the encoded length, encodings are minimal, and the size functions agree with the encoders. Parsing arbitrary bytes never reads past the given limit, fails by answering zero exactly on truncation, and otherwise agrees with a reference decoder, a value too large for the integer type saturating to its maximum.",
 ["inputs"], "all integers, byte strings and option lists", "testvlu checks a handful of fixed values.",
 ["src/VLU.cpp", "include/rtmfp/VLU.hpp"], [("codec", "VLU::append, parse, parseField; Option::append, parse")], ["VLU and Option functions"])

prop("P23", "AMF0 values round-trip and arbitrary bytes decode safely",
 "Any AMF0 value tree within the nesting limit encodes to the AMF0 wire format and decodes to an equal tree that re-encodes identically; decoding consumes exactly one value and duplicates equal their originals. Arbitrary, truncated, deeply nested or unsupported input is rejected without overread, leaving the cursor unmoved. JSON output is well-formed and numbers in it read back as the same number to within at least 14 significant digits.",
 ["inputs"], "all value trees, all byte strings, all doubles", "testamf checks a few fixed values and prints others without an oracle.",
 ["src/AMF.cpp", "include/rtmfp/AMF.hpp"], [("codec", "AMF0::encode, decode and per-type methods"), ("printing", "repr, toJSON, dtoa, jsonString")], ["AMF0 API"])

prop("P24", "Media flow metadata and message headers round-trip",
 "Media flow metadata produced from any settings parses back to equal parameters, is rejected if the signature, a required parameter or a well-formed value is missing, and comparison functions form consistent strict orderings. Any media message header (flags, type, decode and presentation times, option list) parses back to the same values with times within one tick and the payload offset exact, malformed headers are refused, and parsing never overreads.",
 ["inputs"], "all settings, times, timescales, origins, option lists, payloads, and arbitrary bytes", "testmedia checks a few fixed values.",
 ["src/Media.cpp", "include/rtmfp/Media.hpp"], [("metadata codec", "Media::toMetadata, setFromMetadata"), ("message codec", "Media::makeMessage, parseHeader, basicMakeMessage, basicParseHeader")], ["Media API"])

prop("P25", "TC metadata, messages and media classification match the formats",
 "TC flow metadata and message headers round-trip for every stream id, order, type, timestamp and payload, and reject truncated or foreign input without overreading. Command messages decode to exactly the name, transaction and arguments given, audio/video classification (codec, keyframe, init, sequence-special, enhanced) follows the FLV and enhanced-RTMP layouts for every payload, and 32-bit timestamp comparison is antisymmetric and consistent with wrap-around difference except for times exactly half the range apart, which are unordered.",
 ["inputs"], "all payload bytes and timestamps", "testtcmsg checks a few fixed cases.",
 ["src/TCMessage.cpp", "include/rtmfp/TCMessage.hpp"], [("codec and classification", "TCMetadata, TCMessage, Message")], ["TCMetadata, TCMessage, Message static API"])

prop("P26", "URI parsing follows RFC 3986 for every string",
 "Every string splits into scheme, authority, path, query and fragment exactly as the RFC 3986 appendix B decomposition (a scheme being a letter and then letters, digits and +-.), the parts reassemble to the original string, and for a well-formed authority the user info, host, port and derived values follow from it. Percent-decoding inverts percent-encoding for all byte strings without NUL, malformed and NUL escapes are refused, and splitting and joining helpers lose nothing.",
 ["inputs"], "all strings", "testuriparse checks a fixed list.",
 ["src/URIParse.cpp", "include/rtmfp/URIParse.hpp"], [("regular expression split and post-processing", "URIParse constructor, percentDecode, split")], ["URIParse API"])

prop("P27", "Hex codec and checksums match their definitions on all inputs",
 "Hex encoding then decoding any bytes yields the bytes; decoding accepts pairs of hex digits with white space only between bytes, and otherwise fails leaving its destination as it was. The Internet checksum and both CRC-32 functions equal independent bit-level reference implementations for every input and length (a trailing odd byte counting as the low byte of a word), and are insensitive to how the buffer is aligned.",
 ["inputs"], "all byte strings", "testhex and testchecksums check a few fixed vectors.",
 ["src/Hex.cpp", "src/Checksums.cpp"], [("table-driven checksums", "Checksums.cpp"), ("hex codec", "Hex::encode, decode, print")], ["Hex and checksum functions"])

prop("P28", "Addresses convert, compare and encode consistently",
 "An address survives conversion to socket form, wire encoding and presentation text and back unchanged, for IPv4, IPv6, all ports and origins. Ordering is a strict weak order consistent with equality and with the wire identity of addresses, and parsing arbitrary bytes or text never overreads and rejects malformed input, including ports out of range.",
 ["inputs"], "all addresses, byte strings and texts", "testaddress checks a few fixed addresses.",
 ["src/Address.cpp", "include/rtmfp/Address.hpp"], [("conversion", "Address setters, encode, setFromEncoding, toPresentation, setFromPresentation, operators")], ["Address API"])

prop("P29", "Index sets behave as sets of integers",
 "After any sequence of range additions and removals, single or whole-set, an index set contains exactly the integers a mathematical set would, over the entire unsigned range including its extremes. Its ranges are sorted, disjoint, non-adjacent and minimal, and its queries, counts, bounds and iterations agree with its contents.",
 ["histories", "inputs"], "all operation sequences over full-range integers", "tis checks scripted sequences.",
 ["src/IndexSet.cpp", "include/rtmfp/IndexSet.hpp"], [("range merging", "IndexSet::add, remove, contains, size...")], ["IndexSet API"])

prop("P30", "Lists keep order, names and sums under any edits",
 "After any sequence of insertions, removals, moves, rotations and clears, including from within iteration, a list holds exactly the expected elements in the expected order, names stay valid for live elements and are never shared, navigation forward and backward agree, and safe iteration visits the elements that were present when it began and still are. A summing list's total always equals the sum of its elements' sizes.",
 ["histories"], "all operation sequences", "testlist runs one fixed script.",
 ["include/rtmfp/List.hpp"], [("vector-backed linked list", "List, SumList")], ["List and SumList API"])

prop("P31", "Timers fire once per due time, in order, and never after cancel",
 "For any set of timers, rescheduling and cancellation, including from within timer actions, each due timer fires when and only when its time has come, in order of due time, recurring timers keep their period without duplicate or missing catch-up, and a cancelled timer never fires. The reported sleep interval is exactly the time to the earliest pending timer (not positive if one is overdue), bounded by the caller's maximum.",
 ["histories", "schedules"], "all schedules of timer operations and clock advances", "No stable test drives timers beyond incidental use.",
 ["src/Timer.cpp", "include/rtmfp/Timer.hpp"], [("ordered timer list", "TimerList::schedule, fireDueTimers, howLongToNextFire; Timer::setNextFireTime, cancel")], ["Timer and TimerList API"])

prop("P32", "Run loops dispatch descriptors, timers and deferred tasks correctly",
 "Both run loops call an action for a registered descriptor when and only when it has the registered readiness, never after it is unregistered, including when unregistered, replaced or the loop stopped from inside an action, after which that run dispatches nothing more, and the two implementations agree. End of file and errors count as readiness to read. Deferred tasks run once each, in order, timers run when due, and run returns after its interval or stop request and can be run again.",
 ["histories", "schedules"], "all register/unregister/readiness/timer/deferral sequences", "testperform only starts a loop incidentally.",
 ["src/RunLoop.cpp", "src/SelectRunLoop.cpp", "src/EPollRunLoop.cpp"], [("dispatch", "SelectRunLoop::run, EPollRunLoop::run, RunLoop::processTimers/doLater")], ["RunLoop API with pipes and socketpairs"])

prop("P33", "Performers run every task once, in order, on the loop's thread",
 "Every task handed to an open performer, from any number of threads, runs exactly once on the run loop's thread, tasks from one thread run in submission order, and a waiting submission returns only after its task has run. Closing a performer discards or runs pending tasks without deadlock, and a task submitted from the loop thread itself behaves as documented.",
 ["schedules", "histories"], "all thread interleavings sampled, all submission patterns", "testperform runs one fixed pattern.",
 ["src/Performer.cpp", "src/PerformerPosixPlatformAdapter.cpp"], [("queue, pipe wakeup and wait", "Performer::perform, close")], ["Performer API"])

prop("P34", "Reorder buffers deliver in sequence, flag late ones, lose nothing",
 "For any arrival order of distinct non-overlapping sequence number ranges, a reorder buffer delivers every inserted message exactly once, on-time messages in increasing sequence order and without waiting when there is no gap, waiting at a gap no longer than its window period, and marking as late exactly those that arrive behind what was already delivered. Explicit flush or deliver-through calls deliver what they cover in order, and closing discards safely.",
 ["schedules", "histories"], "all arrival orders, timings, flushes and fragment counts", "testreorder checks one fixed sequence.",
 ["src/ReorderBuffer.cpp", "include/rtmfp/ReorderBuffer.hpp"], [("gap wait and delivery", "ReorderBuffer::insert, deliverThrough, flush, tryDeliver")], ["ReorderBuffer onMessage callbacks"])

prop("P35", "Flow synchronisation releases each barrier exactly when complete",
 "Flows that reach a synchronisation barrier are held until the announced number of flows have reached the same barrier, then all are released, and independent barriers do not affect each other. Cancelled or closed flows never hold others forever once their barrier completes or is reset, message encoding and parsing round-trip, and foreign messages are not mistaken for barriers.",
 ["histories", "inputs"], "all barrier arrival interleavings and message bytes", "testflowsync only parses two fixed messages.",
 ["src/FlowSyncManager.cpp", "include/rtmfp/FlowSyncManager.hpp"], [("barrier bookkeeping", "FlowSyncManager::sync, reset, parse, makeSyncMessage")], ["receive order changes and delivery on real flows"])

prop("P36", "Rate trackers report the true windowed rate",
 "Fed any sequence of amounts at non-decreasing times, a rate tracker's reported rate agrees with the reference two-window computation over its configured period (the current window plus the remaining share of the previous one), never goes negative, falls to zero when updates stop for longer than the window, and changing the window or resetting leaves it consistent.",
 ["histories", "inputs"], "all update sequences, window periods and query times", "testratetracker runs a fixed script.",
 ["src/RateTracker.cpp", "include/rtmfp/RateTracker.hpp"], [("bucketed window", "RateTracker::update, getRate, setWindowPeriod")], ["RateTracker API"])

prop("P37", "Reference-counted objects live exactly as long as they are referenced",
 "Any interleaving of creation, sharing, retaining, releasing, assigning and moving of references - raw, smart or handed out from within the object itself - destroys each object exactly once, when and only when its last reference goes, as long as references form no cycle. The protocol engine frees every flow, session, receipt and endpoint object once they are closed and the application has dropped its own references.",
 ["histories"], "all reference operation sequences; all endpoint lifetimes ending in shutdown", "testretainer checks scripted cases; nothing checks the engine for leaks.",
 ["src/Object.cpp", "include/rtmfp/Object.hpp", "include/rtmfp/Retainer.hpp"], [("intrusive counting", "Object::retain, release; share_ref; Retainer")], ["destructor counts; leak accounting of a full endpoint life"])

prop("P38", "TC client connections pair responses, streams and closes correctly",
 "A client connection resolves each transaction exactly once with its own response, or with failure when the connection closes; stream-creating commands bind each stream to the id the server assigned, queued stream commands are sent in order once it is assigned, and messages are dispatched only to the stream and callback they address. Closing or failing reports status and close exactly once, after which no callbacks run and no stream remains open. Whatever messages the server sends, malformed or not, cause no memory error or abort, and keepalive settings requested by the server are applied as given subject to the five second minimum.",
 ["histories", "inputs"], "all server behaviours and message interleavings", "No test exercises client connections.",
 ["src/TCConnection.cpp", "include/rtmfp/TCConnection.hpp"], [("transactions and streams", "TCConnection, TCStream, RTMFPTCConnection")], ["TCConnection callbacks against a scripted RTMFP server"])

prop("P39", "Redirector clients register, authenticate, update and reconnect correctly",
 "A redirector client that is active and connected tells the redirector its authentication, settings and load factor on connecting and again whenever they change, at most once per load-update interval, with the last value always eventually sent, and sends draining when made inactive. On disconnection it reports status and retries no sooner than its minimum interval after the previous attempt, and after being closed it neither reconnects nor calls back. Messages from the redirector are delivered as sent and malformed ones are ignored safely.",
 ["histories", "schedules", "inputs"], "all setting changes, disconnections and server message contents", "No test exercises it.",
 ["src/RedirectorClient.cpp", "include/rtmfp/RedirectorClient.hpp"], [("connection state machine", "RedirectorClient")], ["messages received by a scripted redirector; onStatus callbacks"])

prop("P40", "Packet assembly never overflows and rolls back cleanly",
 "Building a packet by any sequence of chunk starts, appended bytes, integers, fields and options, commits and rollbacks produces exactly the committed chunks with correct lengths and never exceeds the given limit; an append that does not fit fails and leaves the packet as it was. Padding and remaining-space reports are exact.",
 ["histories", "inputs"], "all operation sequences and limits", "No test exercises it.",
 ["src/PacketAssembler.cpp", "include/rtmfp/PacketAssembler.hpp"], [("bounded appends", "PacketAssembler methods")], ["PacketAssembler API"])

prop("P41", "Lost data is recognised, repaired first and slows the sender once",
 "Data in flight is sent again only after three packets have acknowledged data sent after it, or after a whole retransmission timeout without any acknowledgement or transmission; then it is sent again at once where the windows permit, and before any later data of its flow. With default congestion control a detected loss of wanted data cuts the congestion window once per round trip (further only by the amount lost), and nothing but loss, a congestion mark, a timeout or slow decay of an unused window reduces it. A sender with data waiting and room in its windows does not stall: it sends whenever an acknowledgement arrives and resumes within the pacing interval otherwise, never bursting more than six packets at once between acknowledgements on a path whose round trip is not negligible.",
 ["histories", "schedules", "inputs"], "all loss, duplication, reordering and delay patterns, message mixes and windows", "No test has a sender recover from loss.",
 ["src/Session.cpp", "src/SendFlow.cpp"], [("negative acknowledgement", "Session::onPacketAfterChunks, updateCWND; SendFlow::onLoss, ackRange"), ("timeouts and pacing", "Session::onTimeoutAlarm, rescheduleTimeoutAlarm, scheduleBurstAlarm"), ("work conservation", "SendFlow::assembleData, scheduleForTransmission; Session::rescheduleTransmission")], ["packets sent and acknowledgements received on the decoded wire; reported windows and timeouts"])

prop("P42", "The POSIX platform adapters carry packets, timers and tasks faithfully",
 "An added UDP interface is bound and reported as such, or, when it cannot be (port in use, unknown family), nothing is added and nothing leaks. Every packet written goes out whole by the interface it was written to, from that interface's address, with the traffic class and congestion bits asked for, and a write the interface cannot carry answers false; every packet that arrives reaches the instance once, in order per interface, with its contents, interface, source address and congestion bits. Actions for a writable interface are called until they answer false, only so many in a row. The instance's timers fire on time. Tasks run in order. Two endpoints over real sockets deliver their messages in spite of loss, duplication and reordering, and shutting down reports completion once. After close every descriptor is released and nothing is received, sent, run or woken.",
 ["histories", "schedules", "inputs", "fault_sequences"], "all operation sequences, address families, packet contents and close points", "The tests' programs that use sockets are not run; the simulated platform of the other checks replaces this code.",
 ["src/PosixPlatformAdapter.cpp", "src/PerformerPosixPlatformAdapter.cpp", "src/SelectRunLoop.cpp", "src/EPollRunLoop.cpp"], [("sockets and ancillary data", "PosixPlatformAdapter::addUdpInterface, writePacket, receiveOnePacket"), ("alarm and close", "PosixPlatformAdapter::setRtmfp, onHowLongToSleepDidChange, close"), ("writability", "PosixPlatformAdapter::notifyWhenInterfaceWritable")], ["datagrams on loopback sockets; instance callbacks; open descriptors"])

if __name__ == "__main__":
    d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
    ids = [p["id"] for p in P]; assert len(set(ids)) == len(ids)
    for p in P: assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    with open(os.path.join(d, "properties.jsonl"), "w") as f:
        for p in P: f.write(json.dumps(p) + "\n")
