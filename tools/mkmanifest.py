#!/usr/bin/env python3
"""Writes MANIFEST.json: the claimed checks and, for every other property, why it is not claimed."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = {
 "C01": "all obligations of Unwrap and its constructor discharged for every input and history",
 "C02": "all obligations of the jitter buffer's functions discharged for every window size and history",
 "C03": "all obligations of the jitter buffer's functions discharged; time is a ghost clock that never goes back",
 "C23": "read loops, retransmission timer and everything they call under contract; locks as monitors; goroutine bodies verified on their own, what pion and the LiveKit SDK deliver assumed",
 "C04": "bit-vector contracts discharged for each of the ten allowed window sizes",
 "C05": "bit-vector contracts discharged for lists of any length",
 "C06": "bit-vector contracts discharged for each of the sixteen allowed window sizes",
 "C07": "decoding, the event accessors and the message handler: every obligation discharged for every message; the JSON libraries are uninterpreted functions of the bytes",
 "C08": "validation, offer selection and response builders discharged for every combination of fields",
 "C09": "the message handler's contract discharged for every request, table and set-up outcome, including panics of the media set-up",
 "C10": "stop, the message handler and the session's callbacks discharged; the stopped flag is verified to be accessed under its lock only",
 "C17": "every connection opened is closed on every path, one PUBLISH with the bytes given; the redis client is an assumed contract, the receiving goroutine is verified on its own",
 "C19": "the flow table, its ticker and its read loop discharged for every sequence of observations; the table's invariant is tied to its lock; the SDK's jitter buffer is an assumed contract",
 "C18": "subscription functions discharged for every room, publication and track list; the LiveKit SDK is an assumed contract",
 "C11": "file preparation and every file opening discharged for every name, configuration and file-system state; path cleaning is an assumed contract",
 "C12": "every index, slice, nil, division and lock-order obligation of the recorder's entry points and what they call discharged for every packet, state and sampler; explicit panics on file-system failures are excluded",
 "C13": "every hand-over of a block to a writer carries the obligation that it is one whole frame (sample) of the right track; discharged with the recorder's invariant",
 "C14": "keyframe gate, damage and keyframe requests discharged for every packet, state and write outcome; the clock is a ghost that never goes back",
 "C15": "each block's time, and the positions reported, discharged for every packet and state; 90 kHz conversion in exact integer arithmetic",
 "C16": "closing and every push after closing discharged for every recorder state",
 "C20": "set-up, state callback and keyframe requests of both adapters discharged for every session state; the table is verified to be used under its lock only; the media stack is an assumed contract",
 "C21": "the IVF writer against a byte-exact model of the file; every frame written to the recording is written to the copy",
 "C22": "the answer dispatch, the request handler and the web handler discharged for every message, table and interleaving of their critical sections; the table of waiting requests is verified to be used under its lock only; uuids are assumed distinct, the HTTP library is an assumed contract",
 "C24": "dumpConfig discharged for every path and every loaded tree; YAML encoding and decoding are assumed contracts",
 "C25": "every opening of an output file carries the obligation that some announced track has not been recorded yet",
}
REASON = {}
DEFAULT = "not claimed yet: contracts for this part are still being written"
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        checks.append({"property": i, "quick_cmd": "./check.sh " + i, "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": "contract-based deductive verification: contracts on the real Go functions, verification conditions generated from their SSA on every run, discharged by z3/cvc5",
                       "level": "proof", "level_note": CLAIMED[i]})
    else:
        na.append({"property": i, "reason": REASON.get(i, DEFAULT)})
json.dump({"version": 1, "setup_cmd": "./build.sh", "checks": checks, "not_applicable": na},
          open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
