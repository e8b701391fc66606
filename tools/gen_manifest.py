#!/usr/bin/env python3
"""Writes MANIFEST.json for the properties claimed so far."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + "/properties.jsonl")]
NOTES = {
 "C01": "seeded search: random programs under seeded schedules against an in-order interpreter; assumes negligible ciphertext noise (small noiseless parameters); memory-model coverage is sequentially consistent interleavings plus a vector-clock race detector",
 "C02": "seeded search: 20 kinds of illegal instruction placed in random programs, with follow-up programs; a hang is a run that stops making progress",
 "C03": "seeded search: gas against a price table re-implemented from the documentation, limits around the exact total, endless programs",
 "C04": "seeded search: concurrent client histories on one memory against a byte-array model; assumes clients race only at lock granularity",
 "C05": "seeded search: random circuit graphs against polynomial evaluation modulo 2; ciphertext buffers are watched by the borrow checks and race detector",
 "C06": "seeded search: legal, malformed, cyclic and empty graphs; callbacks counted and ordered against operations",
 "C07": "seeded search: stalled workers and several submitters; outstanding operations counted from the retained buffers",
 "C08": "seeded search: mixed legal and faulty clients sharing a pool and processors",
 "C09": "seeded search over interleavings of borrow histories with refused and unwinding borrows, with vector-clock race detection",
 "C10": "seeded search over interleavings of lock histories, with vector-clock race detection",
 "C11": "seeded search over work splitting and stealing; keys compared row by row after decryption",
 "C12": "seeded search: nesting, unwinding and dirty buffers with a shadow allocator; results compared bit for bit",
 "C13": "seeded search over lengths, split patterns and worker counts",
 "C14": "seeded search: repeated circuits and programs, live reference counts against a baseline",
 "C15": "seeded search over storage and transport faults on serialised objects with an allocation budget",
 "C16": "seeded search: client and server over a lossy network with crash and restart",
 "C17": "seeded search over widths, values, pads, stored and swapped pads",
 "C18": "seeded search: entropy failures at every draw and freshness over histories; entropy is a seeded stream",
 "C19": "seeded search: random expressions against integer arithmetic",
 "C26": "seeded search: programs deployed over machines whose vector instructions are granted or refused by the simulator; vector arithmetic compared bit for bit with modular arithmetic",
 "C27": "seeded search: random calls with typed arguments and return values, typed memory accesses and mismatches, against an independent layout model",
 "C20": "seeded search over damaged images with an allocation budget",
}
NA = {
 "C21": "a pure function of its input: no schedule, time, I/O, randomness or fault for a simulator to decide",
 "C22": "pure arithmetic: no schedule, time, I/O, randomness or fault for a simulator to decide",
 "C23": "a statistical claim about constants, not about executions: no schedule or fault affects it",
 "C24": "a pure function of its input: no schedule, time, I/O or fault (encodings are exercised only incidentally by C01 and C02)",
 "C25": "depends on the host's identity and a cloud metadata service of benchmark tooling; nothing a user of the library relies on and nothing to schedule",
}
claimed = sys.argv[1].split(",") if len(sys.argv) > 1 else [c["property"] for c in json.load(open(here + "/MANIFEST.json"))["checks"]]
m = {
 "version": 1,
 "setup_cmd": "bash setup.sh",
 "hooks": {
  "guard": "--cfg spf_sim (RUSTFLAGS)",
  "enable": "sim/.cargo/config.toml sets rustflags = [\"--cfg\", \"spf_sim\", ...] for the harness workspace; check.sh builds with it",
  "source_commits": [
   "846a3d7d5b2ae090f8ceda754d085be76e77f700",
   "87e5135176ccdfbb829266105f03843108dc9396",
   "59aa545669164afb2f80da4e942aeca395cd7bcf",
   "23b4ae6a88a51875e7e449b472683da3d41a6ff6",
   "6db2ff0f3ff8c144180426d07203fdbdbdf96672",
   "a9a60e29b22208d76107f9d6c1fbde875ab7e8b8",
   "0a52c41860bb0148b58ad206c559e8bc47a319d7",
  ],
 },
 "checks": [{
   "property": i,
   "quick_cmd": f"bash check.sh {i} quick",
   "thorough_cmd": f"bash check.sh {i} thorough",
   "technique": "deterministic simulation with fault injection (seeded schedule and fault search)",
   "level": "exploration",
   "level_note": NOTES[i],
 } for i in sorted(claimed)],
 "not_applicable": [{"property": p["id"], "reason": NA.get(p["id"], "check under construction")}
   for p in props if p["id"] not in claimed],
}
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
open(here + "/MANIFEST.json", "a").write("\n")
