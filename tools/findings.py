#!/usr/bin/env python3
"""Writes known-findings.json from the table below (run by hand, never by a check)."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = [l.split(" ", 1) for l in subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"], text=True).splitlines()]
# subject fragment -> (property, what failed)
FIXED = [
 ("bulletproofs: sum repeated variables", "C04", "circuits that use a variable twice in one combination could not be proved"),
 ("bulletproofs: tie the inner-product argument", "C05", "a prover without a witness could open any t_x: proofs of false statements verified"),
 ("bulletproofs: reject malformed", "C20", "malformed proofs panicked in the verifier"),
 ("spartan: keep the index of each public input", "C06", "honest proofs with a zero public input were rejected"),
 ("spartan: bind the NIZK evaluation point", "C07", "the verifier took the evaluation point from the proof"),
 ("spartan: reject public input vectors", "C07", "proofs verified with shortened or lengthened public inputs, or the verifier panicked"),
 ("spartan: return an error for malformed", "C20", "malformed proofs panicked or aborted the process; timestamps moved between lists were not checked (C07)"),
 ("spartan: hand synthesis errors", "C30", "a synthesis error panicked the prover"),
 ("spartan: encode matrices with a single", "C06", "setup panicked for matrices with one entry"),
 ("spartan: do not ship the witness", "C18", "the proof carried the witness evaluation w(ry) in clear"),
 ("marlin: pad the public inputs", "C08", "honest proofs were rejected or the prover panicked when the number of inputs plus one is no power of two, or for one-row systems"),
 ("marlin: reject public input vectors", "C09", "proofs verified with a longer public input vector that reinterprets witness positions"),
 ("marlin: no integer underflow", "C08", "indexing panicked on rows denser in A than in B"),
 ("marlin: commit to constant", "C08", "indexing or proving failed for circuits with constant polynomials"),
 ("marlin: reject proofs of the wrong shape", "C20", "malformed proofs panicked in the verifier"),
]
extra = os.path.join(ROOT, "tools", "fixed_more.json")
if os.path.exists(extra): FIXED += [tuple(x) for x in json.load(open(extra))]
KNOWN = json.load(open(os.path.join(ROOT, "tools", "known.json"))) if os.path.exists(os.path.join(ROOT, "tools", "known.json")) else []
fixed, used = [], set()
for frag, prop, what in FIXED:
    c = [(h, s) for h, s in log if s.startswith("fix:") and frag in s]
    assert len(c) == 1, (frag, c)
    used.add(c[0][0]); fixed.append(f"fixed: property={prop} {c[0][0]} {what}")
for h, s in log:
    if s.startswith("fix:") and h not in used: print("not recorded:", h, s)
json.dump({"findings": KNOWN, "fixed": fixed}, open(os.path.join(ROOT, "known-findings.json"), "w"), indent=1)
print(len(KNOWN), "known,", len(fixed), "fixed")
