#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the list below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
N = {
 "C01": ("independent SSZ merkleization as runtime reference monitor over generated typed values", "every root compared with a reference written from the SSZ rules, over 4 backends and 3 constructs"),
 "C02": ("round-trip monitor over typed values in shared, hostile-content backends", "every decode compared with the value merkleized"),
 "C03": ("differential monitor over all backend kinds and prior contents", "roots of the same value and history compared across backends"),
 "C04": ("reference-model monitor over raw tree histories", "every read compared with a structured reference tree"),
 "C05": ("reference-model (array) monitor over generated histories", "every result of every call compared with an array"),
 "C06": ("reference-model (array) monitor over generated histories, 20 element sizes", "every result of every call compared with an array"),
 "C07": ("reference-model monitor: root after every operation against an independent merkleization", "every root compared with the model's, and typed and in-place trees opened as each other"),
 "C08": ("store invariant monitor: every node of every live tree looked up after every step", "node-by-node comparison of the store with the models of all live trees"),
 "C09": ("store invariant monitor: exact reachability comparison after every step", "every stored node must be reachable from a live root of the models"),
 "C10": ("record/replay differential monitor over proof-recording sessions", "results and roots of the session and of its replay compared call by call"),
 "C11": ("reference-model monitor on compact and single-leaf proofs with mutation", "round trips, mutations and branch proofs judged by an independent tree"),
 "C12": ("reference-model monitor on index arithmetic", "compared with bit-vector paths, all small indices and random ones of every depth"),
 "C13": ("reference-model monitor with save/reopen at every point, store snapshots", "reopened trees compared with the array model and the store"),
 "C14": ("reference-model monitor on limits, typed and in place", "refusals and their side effects compared with the model"),
 "C15": ("hostile-backend monitor: hidden, damaged and contradictory nodes, call budget, panic and CPU watchdog", "decoding must return; missing nodes, unknown variants and absurd lengths must be errors"),
 "C16": ("fault injection at every backend call with error and collateral-damage monitors", "each call index of each operation fails once; the reported error and all untouched elements are checked"),
 "C17": ("reference-model monitor on partial views, flush against whole-value merkleization", "every partial read and flush compared with the modified whole value"),
 "C18": ("online trace checker at the backend boundary and graph-model monitor on direct writes", "key = hash of children on every insert; lookups compared with the graph model"),
 "C19": ("round-trip, truncation and limit monitor on serialized forms", "encodings decoded back, truncated at every byte, lengths over the maximum refused"),
 "C20": ("differential monitor of recording against direct sessions, event-log oracle for the recorded set", "proof compared with the reads in the wrapped backend's call log"),
 "C23": ("online cost monitor at the backend boundary: calls of every operation against the depth of its path", "the calls and writes of every operation, and the entries of recorded proofs, counted and bounded by the depth"),
 "C22": ("differential monitor of interpreted runs (Miri) for a 64-bit big-endian and a 32-bit host against native runs", "digests of all observations of every case compared between the hosts, toy digests in place of SHA-2"),
 "C21": ("differential monitor of two builds (with and without std) on the same histories", "digests of all observations of every case compared between the builds"),
}
NA = {}
todo = sys.argv[1:]
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 /verif/check.py --build", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: the monitors use the public API only. check.py rebuilds the harness from /repo's working tree whenever its sources changed."}
for p in props:
    if p in todo: m["not_applicable"].append({"property": p, "reason": "not built yet"}); continue
    t, n = N[p]
    m["checks"].append({"property": p, "quick_cmd": "python3 /verif/check.py %s" % p, "thorough_cmd": "VERIF_TIER=thorough python3 /verif/check.py %s --tier thorough" % p,
        "technique": "runtime monitoring: " + t, "level": "exploration",
        "level_note": "Held on the executions explored: " + n + ". Assumes no collisions of SHA-256 and SHA-512/256 and trusts sha2, digest, generic-array, primitive-types."})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
