#!/usr/bin/env python3
"""Writes MANIFEST.json from checks/INDEX and the table below (run: python3 tools/manifest.py)."""
import json, os
d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
SIM = "stateful property-based testing of real endpoints in a deterministic network simulation with generated faults"
PURE = "property-based testing against a reference model, under sanitizers"
T = {
 "P01": (SIM, "deliveries compared with the messages written"),
 "P02": (SIM, "deliveries compared with what the decoded wire shows complete"),
 "P03": (SIM, "receipts compared with what the decoded wire and the peer show"),
 "P04": (PURE, "model of receipts, parents and chains"),
 "P05": (SIM, "callback history invariants"),
 "P06": (SIM, "handshake histories checked for identity, agreement, uniqueness and liveness"),
 "P07": (SIM, "termination histories checked for exactly-once notification and bounded closing"),
 "P08": ("structured fuzzing of endpoints with raw and correctly encrypted hostile packets in simulation, under sanitizers", "survival, bounded output and undisturbed bystander sessions"),
 "P09": (SIM, "in-flight and window bounds recomputed from the decoded wire"),
 "P10": (SIM, "every packet decoded by an independent decoder"),
 "P11": (SIM, "acknowledgements compared with what was delivered to the endpoint"),
 "P12": (SIM, "transmission order compared with priorities"),
 "P13": (SIM, "lifetimes measured on a virtual clock"),
 "P14": (SIM, "address moves and spoofing attackers"),
 "P15": ("stateful property-based testing with a generated raw initiator against a real responder", "answers and sessions compared with a cookie model"),
 "P16": (SIM, "traffic class and ECN marks observed on the wire"),
 "P17": (SIM, "application actions injected into every callback, under sanitizers"),
 "P18": (SIM, "introduction topologies of several endpoints"),
 "P19": (SIM, "round trip and window reports compared with the simulated path"),
 "P20": ("property-based testing of paired crypto keys and mutation fuzzing of packets", "round trip, crosswise nonce and rejection oracles"),
 "P21": (PURE, "independent certificate and discriminator selection model"),
 "P22": (PURE, "reference codec"), "P23": (PURE, "reference AMF0 codec and JSON reader"), "P24": (PURE, "reference codec"),
 "P25": (PURE, "reference classification"), "P26": (PURE, "RFC 3986 reference splitter"), "P27": (PURE, "bit-level references"),
 "P28": (PURE, "reference conversions"), "P29": (PURE, "set model"), "P30": (PURE, "list model"),
 "P31": (PURE, "timer model on a virtual clock"),
 "P32": ("stateful property-based testing of both run loops on real descriptors", "readiness model"),
 "P33": ("generated multi-threaded schedules with ordering oracles", "exactly-once and order"),
 "P34": (PURE, "delivery model"), "P35": (PURE, "barrier model"), "P36": (PURE, "reference windows"),
 "P37": (PURE, "object lifetimes counted; protocol objects counted in simulation"),
 "P38": ("stateful property-based testing of client connections against a generated server", "history invariants"),
 "P39": ("stateful property-based testing of redirector clients against a generated redirector", "history invariants"),
 "P40": (PURE, "assembler model"),
 "P41": (SIM, "every fragment in flight followed on the decoded wire; retransmissions, window cuts and pauses judged against acknowledgements and timeouts"),
 "P42": ("stateful property-based testing of the adapters over real loopback sockets", "model of interfaces, packets, tasks and timers; endpoint pairs over a generated faulty relay"),
}
props = [json.loads(l) for l in open(os.path.join(d, "properties.jsonl"))]
idx = dict(l.split()[:2] for l in open(os.path.join(d, "checks/INDEX")) if l.strip())
checks, na = [], []
for p in props:
    i = p["id"]
    if i in idx:
        t, n = T[i]
        checks.append({"property": i, "quick_cmd": "bash check.sh %s quick" % i, "thorough_cmd": "bash check.sh %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": t, "level": "exploration",
                       "level_note": "Held on every generated case (counts, labels and samples in the evidence file); oracle: %s. Assumptions are listed in the evidence file; sampling, not proof." % n})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "Seed from VERIF_SEED. Every check rebuilds /repo's sources with clang, ASan and UBSan. Replay: bash check.sh <id> quick --replay <file>."}
json.dump(m, open(os.path.join(d, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
