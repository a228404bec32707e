#!/usr/bin/env python3
"""usage: tryseeds.py [--all] [ID...]: runs the checks (the owning one, or all) against the planted bugs, in scratch copies under /tmp."""
import json, os, shutil, subprocess, sys, time
here = os.path.dirname(os.path.abspath(__file__)); V = os.path.join(here, "..")
W = "/tmp/tryseeds"
if os.path.exists(W): shutil.rmtree(W)
os.makedirs(W)
subprocess.run("cp -a /repo %s/repo && mkdir %s/verif && cp -a %s/mc %s/check.sh %s/known_findings.txt %s/verif/ && sed -i 's#path = \"/repo\"#path = \"%s/repo\"#' %s/verif/mc/Cargo.toml" % (W, W, V, V, V, W, W, W), shell=True, check=True)
allp = "--all" in sys.argv
ids = [a for a in sys.argv[1:] if not a.startswith("--")] or sorted(os.listdir(os.path.join(V, "seeded")))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
for i in ids:
    d = os.path.join(V, "seeded", i); own = json.load(open(os.path.join(d, "meta.json")))["property"]
    subprocess.run("git checkout -q -- . && git apply %s/patch.diff" % os.path.abspath(d), shell=True, cwd=W + "/repo", check=True)
    hits = []
    for p in (props if allp else [own]):
        t = time.time()
        r = subprocess.run(["./check.sh", p], cwd=W + "/verif", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=1000, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
        if r.returncode == 1 and "VIOLATION property=%s " % p in r.stdout: hits.append(p)
        elif r.returncode != 0: hits.append("%s(rc=%d)" % (p, r.returncode)); print(r.stdout[-800:])
    print(i, "CAUGHT" if own in hits else "MISSED", own, "| also:" if allp else "", *[h for h in hits if h != own]); sys.stdout.flush()
shutil.rmtree(W)
