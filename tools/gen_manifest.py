#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the table below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
TECH = {
 "C01": "property-based testing (rapid): token soup, damaged and real sources, random bytes, against the input itself (concatenation oracle)",
 "C02": "property-based testing: generated and real programs, round trip against go/format",
 "C03": "property-based testing: generated and real programs, differential against go/parser and go/scanner",
 "C04": "property-based testing: structural invariants of the node chains over generated texts and stopping points",
 "C05": "property-based testing: newline count of the input as oracle, metamorphic shift of the start line",
 "C06": "property-based testing: generated and real programs, differential against go/scanner tokens",
 "C07": "property-based testing: generated and real programs, differential against go/parser declarations",
 "C08": "property-based testing: generated and real programs, differential against go/ast roles by source offset",
 "C09": "stateful model-based testing: random and exhaustively enumerated operation histories against a list model",
 "C10": "property-based testing: copies under random edit histories of both sides, equality and isolation oracle",
 "C11": "stateful model-based testing: histories over several Asts against a model of lists",
 "C12": "property-based testing: package clauses with comments everywhere and built scope lists, against the generated name and go/parser",
 "C13": "property-based testing with injected file-system states, against the path and content generated",
 "C14": "property-based testing with injected file-system faults (permissions, limits, devices), against go/format and a listing of the tree",
 "C15": "property-based testing: generated import situations with a known right answer, checked on the parsed result",
 "C16": "property-based testing: generated texts and exhaustive short texts against an independent reference classifier",
 "C17": "property-based testing: generated byte strings, sets and slices against reference definitions",
 "C18": "stateful model-based testing: random and exhaustively enumerated histories against a map",
 "C19": "stateful property-based testing of purity, and randomized concurrent histories under the race detector compared with sequential runs",
 "C20": "stateful model-based testing: histories with nil receivers and arguments against a list model",
 "C21": "property-based testing: table and generated values run through package testing, against == and a table of nils and panics",
 "C22": "stateful model-based testing: histories with combining and isolating against a list model",
 "C23": "stateful model-based testing: edit histories and saves against a text model; metamorphic edits at known source places",
 "C24": "property-based testing: descriptions against a reference formatter",
 "C25": "property-based testing: the same generated work with and without debug mode, compared, with the process's output captured",
 "C26": "metamorphic property-based testing: each scope of a generated text parsed alone and behind other scopes",
 "C27": "metamorphic property-based testing: a generated or real file against the same file with other names, numbers, comments and literals",
 "C28": "metamorphic property-based testing: a generated or real file against the same file with more blank lines and indentation",
 "C29": "metamorphic property-based testing: a generated or real file against the same file with more blanks, other line ends and lines joined by semicolons",
 "C30": "metamorphic property-based testing: a generated or real file against the same file with more comments",
 "C31": "stateful model-based testing: edit histories of scopes against names read off the node list",
}
NOTE = {
 "default": "Search, not proof: holds on every generated case of the run (counts and samples in the evidence). Trusts the oracle named in the technique, the Go toolchain and rapid.",
 "C19": "Search, not proof: the race detector sees every access of the executed schedules, but only of those. Trusts the Go race detector and runtime.",
 "C09": "Search; all histories of two (thorough: three) operations over the small chains listed in DESIGN.md are enumerated, longer ones are drawn. Trusts the list model.",
 "C14": "Search over contents, targets and faults of the kinds listed in DESIGN.md; no crash of the machine between the system calls is simulated.",
}
checks = [{
    "property": i,
    "quick_cmd": "bash check.sh %s quick" % i,
    "thorough_cmd": "bash check.sh %s thorough" % i,
    "evidence_file": "evidence/%s.json" % i,
    "technique": TECH[i],
    "level": "exploration",
    "level_note": NOTE.get(i, NOTE["default"]),
} for i in ids]
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": [],
     "notes": "No hooks are committed in /repo. C18 lays a file over the package at build time (overlay/zz_verif_export.go, see build.sh) to reach the unexported trie."}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
