#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property, all through check.sh."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
FAULT = {"C09", "C10", "C13", "C18", "C20", "C21", "C24"}
REAL = "stateless model checking of the real code: every choice sequence of a bounded driver is executed and compared step by step with a reference model"
T = {
 "C05": "model checking of the real code over every bounded history of tree changes and backups, against an explicit file-tree model",
 "C08": "explicit-state model checking of the API protocol (caches loaded x handles held) to a fixpoint, every transition executed on the real code; every operation sequence up to a depth",
 "C09": "exhaustive crash-point and missing-file enumeration on the real code, against a per-snapshot model",
 "C10": "exhaustive single and double fault injection at every backend call of the real code, with retries",
 "C13": "exhaustive enumeration of truncation points and line edits on the real parser, against the writer's model",
 "C18": "exhaustive enumeration of directories and of injected directory-read failures on the real backend",
 "C21": "exhaustive enumeration of cuts, byte changes, lost, doubled and zeroed runs and unwritten sectors of signature files on the real code, with repairs",
 "C22": "stateless model checking of the real code: every operation sequence, missing-file subset and failing call within bounds, with a backend that records every call, against a model of what may be asked",
 "C23": "stateless model checking of the real code: context-bounded exploration of every interleaving of a writer's file operations with the reader's backend calls, in memory and on a real directory, against a model of what was listed and recorded",
 "C24": "exhaustive fault enumeration on the real code: every backend call with every kind of error, every set of missing files, every system call of the local backend with every error number; every manifest within an edit bound against a reference grammar of first problems",
 "C25": "stateless model checking of the real code: every merge of the calls of two backups within a depth, and context-bounded exploration of two real threads under a controlled scheduler that changes over at backend calls",
 "C20": "exhaustive fault enumeration (byte values, truncations, boundary numbers, name edits) on the real code with panic, abort, hang and allocation monitors",
}
NOTE = "Exhaustive within the bounds of DESIGN.md and evidence; outside them nothing is claimed. Trusts the reference models and tar/manifest writer in mc/src, the in-memory backend, rustc and the tar, flate2, regex and time crates."
checks = []
for l in open(os.path.join(root, "properties.jsonl")):
    i = json.loads(l)["id"]
    checks.append(dict(property=i, quick_cmd="./check.sh " + i, thorough_cmd="./check.sh %s --tier thorough" % i, evidence_file="evidence/%s.json" % i,
        technique=T.get(i, REAL), level="fault_enumeration" if i in FAULT else "model_checking", level_note=NOTE))
m = dict(version=1, setup_cmd="./check.sh --build-only", checks=checks, not_applicable=[],
    notes="No hooks: every check drives the public API. A check exits 2 when it has no answer (for example when the tree does not build).")
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
