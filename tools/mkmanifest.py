#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TV = "TLA+ specification model-checked with TLC; traces recorded from the real code validated by TLC against it"
NOTE = {
 "C01": "every bounded pattern and call of the model terminates in an outcome; no panic, abort, hang or stack exhaustion (2 MB stack) in TLC-generated, systematic, limit-size, deeply nested and random compiles",
 "C02": "acceptance proved equal to the declarative grammar within the model's bounds; code conforms on all spec-generated patterns and calls, every ASCII character, verb, flag pair, limit edge, and random sets",
 "C03": "first-failure and blame invariants exhaustive in the model; index, category, cause, offset and verb compared for every rejected recorded compile",
 "C04": "model: traversal of the tree equals the pattern's literal addresses and branch counts for every bounded pattern; code: complete traversals compared",
 "C05": "class of each literal compared for every ASCII character, with and without the flag, at random depths; strings of sets compared per pattern",
 "C06": "verb reading in the specification compared on every known verb, prefix, spelling and value variants and random ones; mode flags compared",
 "C07": "routing and string compared for all spec-generated and random patterns, limits on and off, and literals handed to the store directly",
 "C08": "identity, density and limit invariants exhaustive for short operation histories; recorded histories on the real report manager and in whole compiles compared",
 "C09": "agreement, key and exhaustion invariants exhaustive in the model; recorded registrations, keys and conflict messages compared",
 "C10": "table content, sharing, give-up and freeze invariants exhaustive in the model; tables of the real engine read back and compared after every literal, including the full-table limits",
 "C11": "width equals the minimum over the strings so far, in the model exhaustively and in every recorded step",
 "C12": "graph invariants exhaustive for small graphs; graph of every recorded pattern and every recorded growth history compared",
 "C13": "engine choice compared for all 2^13 resource sets, modes and scans of recorded compiles compared",
 "C14": "word-level algorithm refined against sets in TLC on a small word size; recorded update histories of the real class compared byte for byte, every range boundary systematically",
 "C15": "every question's answer compared with what the set of members implies, on systematic and random classes",
 "C16": "bit vector, mask pair and listing compared with the set, on systematic and random classes",
 "C17": "order laws exhaustive in the model for short literals; pushes, listing, equality and order matrices of the real literals compared",
 "C18": "alignment defined by nearest multiple; compared for edge and random values of each width and alignment",
 "C19": "conversion and comparison of depths at and around the limits and for random counts",
 "C21": "the wiring rules model-checked over all pairs of small regions with flags; every recorded connection of the real builder compared with the specification",
 "C22": "every history of literals and graphs up to a length model-checked; recorded histories with random graphs, reports and limits compared after every step",
 "C20": "isolation invariant exhaustive for interleaved compiles in the model (and violated by the shared-state variant); outcomes in fresh processes, histories and four threads compared",
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {
 "version": 1,
 "setup_cmd": "python3 check.py --setup",
 "hooks": {"guard": "--cfg rescan_vp", "enable": "RUSTFLAGS=\"--cfg rescan_vp\" (the harness in /verif/harness, path dependency on /repo)",
           "source_commits": ["343082e472ec41363027add00bce566837c07d43", "5c0d7e2e9c5f7c4bdec376ead4d3084e73bd292e",
                              "b1ffa323955acc77408b4c6733b262990eecc2da", "541edb2c868e578d0cd6342c341abcfd0b97fcff",
                              "597d968db2dd7275b424004aae017bb6f9354932", "e5a215276e389d7eba0fa2920d84f2d26ff8c371",
                              "482eaca796254fc0fd482e61582fb3ad305f5734",
                              "435e9f1cbf49134a162220ec324272064f5397fc"]},
 "checks": [{
   "property": p["id"],
   "quick_cmd": "python3 check.py " + p["id"],
   "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p["id"],
   "evidence_file": "evidence/%s.json" % p["id"],
   "technique": TV,
   "level": "model_checking",
   "level_note": NOTE[p["id"]] + ". Trusts TLC and the projection in rescan::vp; code conformance holds for the recorded histories.",
 } for p in props],
 "not_applicable": [],
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
