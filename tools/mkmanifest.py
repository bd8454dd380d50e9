#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
SEQ = "explicit-state model checking: exhaustive enumeration of statement sequences of a reference state machine, every trace replayed on the real loader"
TEXT = "bounded exhaustive enumeration of texts over an alphabet and of all edits of rich documents, run on the real loaders, against a reference grammar"
T = {
 "P01": "bounded exhaustive enumeration of texts and of all edits of rich documents on the real loaders, in a contained process",
 "P02": SEQ + ", with every bad line at every place",
 "P03": SEQ + ", with every bad line at every place",
 "P04": TEXT,
 "P12": TEXT,
 "P13": "exhaustive enumeration of layouts (all single and pairs of deviations, full products for single statements) of all statement sequences up to a depth, replayed on the real loader",
 "P14": "exhaustive enumeration of layouts (all single and pairs of deviations, full products for single statements) of all statement sequences up to a depth, replayed on the real loader",
 "P20": "exhaustive exploration of the tree of documents on the real loader, each node compared with its parent, and of all pairs of documents",
 "P21": "exhaustive exploration of all pairs of documents up to a depth on the real loader",
 "P22": "stateless model checking of the real code: all histories up to a depth as a tree of forked processes, all interleavings with up to two preemptions under a controlled scheduler",
 "P23": "exhaustive enumeration of document families and doublings on the real loader under counting of memory requests and instructions",
 "P25": "exhaustive exploration of documents with an unreadable line, and of their continuations, on the real loader; relations between loads",
 "P26": "exhaustive enumeration of all pairs of values over grids, on the real types, and of pairs of loaded documents",
 "P27": "exhaustive enumeration of documents on the real loader, in processes where every system call but those for memory traps (seccomp)",
 "P28": "exhaustive enumeration of documents and of long histories of loads on the real loader, with all memory in use counted",
}
NOTE = {
 "seq": "Every document within the bounds given in DESIGN.md was loaded by the code built from /repo and compared with the reference machine. Trusts the reference machine and, beyond the bounds, that behaviour does not change there.",
 "text": "Every text within the bounds given in DESIGN.md was loaded by the code built from /repo. Trusts the reference grammar (and Rust's own float parsing for values) and, beyond the bounds, that behaviour does not change there.",
 "P01": "Every text within the bounds given in DESIGN.md was loaded; a panic, abort, stack overflow or load of more than 20 s is reported. Stack size 2 MB, address space 12 GB.",
 "P20": "Compares loads with loads, no reference machine needed; complete for the documents and cuts within the bounds given in DESIGN.md.",
 "P21": "Compares loads with loads, no reference machine needed; complete for the pairs within the bounds given in DESIGN.md.",
 "P22": "Compares every load with the same load in a fresh process. A schedule can stop a thread at every memory request; races between two requests are not told apart.",
 "P23": "Measured, not timed: counts are deterministic up to hash seeds. Sizes up to those given in DESIGN.md.",
 "P25": "Compares loads with loads, no reference machine needed; complete for the documents and continuations within the bounds given in DESIGN.md.",
 "P26": "Tuples of the fields specify equality. Complete for pairs of fields over the grids given in DESIGN.md.",
 "P27": "Every document of the explored spaces is loaded under a system call filter that reports what it stops. Calls that the vDSO answers (the time) are not seen.",
 "P28": "Counts what the loading thread allocates and frees. What is built once and then reused, or replaced, is not growth.",
}
ids = [json.loads(l)["id"] for l in open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"))]
checks = []
for i in ids:
    checks.append(dict(property=i, quick_cmd=f"./run.sh {i} quick", thorough_cmd=f"./run.sh {i} thorough", technique=T.get(i, SEQ),
        level="model_checking", level_note=NOTE.get(i) or NOTE["text" if T.get(i) == TEXT else "seq"]))
m = dict(version=1, setup_cmd="./run.sh build", checks=checks, not_applicable=[],
    notes="No hooks: everything is observed through the public API. The commits in /repo are repairs (fix:), listed in known_findings.txt.")
json.dump(m, open(os.path.join(os.path.dirname(__file__), "..", "MANIFEST.json"), "w"), indent=1)
