#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (run by hand after a change)."""
import json, os
T = {
 "C01": ("TLA+ trace validation: recorded permutations against the Poseidon2 round machine", "Every recorded input/output pair is recomputed by the specification's round machine: exhaustive state spaces over tiny fields, sampled and edge inputs over the published and user-built sets. Not a proof for all inputs of the large fields."),
 "C02": ("TLA+ design model of the sparse rewriting + trace validation of both entry points", "The rewriting is model-checked exhaustively for small fields; recorded runs of both entry points are recomputed with the textbook rounds."),
 "C03": ("TLA+ trace validation of the precomputation helpers against the plain partial rounds", "The code's helper outputs are executed by the specification and compared with the plain partial section, for all entering states of tiny fields and sampled ones elsewhere."),
 "C04": ("TLA+ model of the accumulator window + trace validation of both entry points", "Model checked for small widths/fields; recorded runs of both entry points recomputed round by round with the set's own constants."),
 "C05": ("TLA+ trace validation against the Neptune round machine", "As C01, with the constants the set drew."),
 "C06": ("TLA+ inverse permutation: every recorded output is run backwards; exhaustive tables over tiny fields", "Exhaustive injectivity for tiny fields, inverse image for recorded outputs of all published sets."),
 "C07": ("TLA+ model of the Grain generator compared with the published tables", "Complete: every constant and matrix entry of the 30 fixed sets."),
 "C08": ("TLA+ tables justified by exact-integer security formulas, compared with the running sets", "Complete: all 85 sets; the formulas are those of the papers at 128 bits."),
 "C09": ("TLA+ Merkle model vs. the tree of hash applications recorded with a symbolic hash", "Complete per size for every hash function (symbolic hash); sizes up to a bound and selected larger ones."),
 "C10": ("histories enumerated by TLC, replayed on the real trees, checked in TLA+", "All histories up to a length and sampled longer ones."),
 "C11": ("TLA+ trace validation of compress and of roots with the shipped hashes", "All pairs over tiny fields, sampled and edge pairs for published sets."),
 "C12": ("call domain enumerated by TLC, replayed on the real API, verdicts checked in TLA+", "Complete over the enumerated shapes."),
 "C13": ("histories generated by TLC and thread logs, checked against a memo in TLA+", "All histories up to a length, sampled long ones, and stress schedules; schedules are sampled, not enumerated."),
 "C14": ("TLA+ model of once-initialisation + recorded racing first uses checked against it", "The protocol is model checked; real schedules are sampled in fresh processes."),
 "C15": ("TLA+ trace validation of the matrix helpers; all small matrices over tiny fields", "Exhaustive for small sizes and fields, sampled with zero pivots beyond."),
 "C16": ("TLA+ digit machine run over recorded parses", "Sampled and edge numerals of every field and length, with malformed ones."),
 "C17": ("TLA+ bounds on recorded histograms", "Statistical, with bounds at which a correct sampler practically never fails."),
 "C18": ("TLA+ big-number arithmetic vs. recorded field definitions and operations", "Definitions complete (modulus, generator order via the factorisation of p-1); arithmetic on edge and sampled operands."),
 "C19": ("TLA+ binding invariant over all leaf sequences up to a length, recorded with a symbolic hash", "Complete up to the length and alphabet."),
 "C20": ("TLA+ polynomial and rank criteria evaluated on the matrices read off the running permutations", "Complete: all 42 sets. The criterion is itself model-checked against invariant subspaces over complete small worlds, and the rejected Grain candidates are shown to fail it."),
}
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
assert props == sorted(T)
m = dict(version=1, setup_cmd="python3 check.py --setup",
  hooks=dict(guard="cfg(verif_hooks)", enable="RUSTFLAGS='--cfg verif_hooks' (check.py; falls back to a build without the hooks, reading Debug output, when they do not compile)",
             source_commits=["4e65d0a"]),
  checks=[dict(property=p, quick_cmd="python3 check.py " + p, thorough_cmd="VERIF_TIER=thorough python3 check.py " + p,
               evidence_file="evidence/%s.json" % p, technique=T[p][0], level="model_checking", level_note=T[p][1]) for p in props],
  not_applicable=[], notes="Specification in TLA+ (spec/), checked with TLC; see DESIGN.md. Defects found and repaired are in KNOWN_FINDINGS.txt.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
