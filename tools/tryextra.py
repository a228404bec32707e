#!/usr/bin/env python3
"""usage: tryextra.py [--all] [ID...]: runs the owning check (or all) against the changes of seeds/extra.py, in scratch copies under /tmp; also tells what the repository's tests say."""
import json, os, shutil, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__)); V = os.path.join(here, "..")
sys.path.insert(0, os.path.join(here, "seeds"))
from extra import X
import extra2, extra3, extra4
W = "/tmp/tryextra"
if os.path.exists(W): shutil.rmtree(W)
os.makedirs(W)
subprocess.run("cp -a /repo %s/repo && mkdir %s/verif && cp -a %s/mc %s/check.sh %s/known_findings.txt %s/verif/ && sed -i 's#path = \"/repo\"#path = \"%s/repo\"#' %s/verif/mc/Cargo.toml" % (W, W, V, V, V, W, W, W), shell=True, check=True)
allp = "--all" in sys.argv
ids = [a for a in sys.argv[1:] if not a.startswith("--")] or list(X)
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
env = dict(os.environ, PATH="/root/.cargo/bin:" + os.environ["PATH"], RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", RUSTC_WRAPPER="", TZ="UTC", CARGO_TERM_COLOR="never")
for i in ids:
    own, edits = X[i]
    subprocess.run("git checkout -q -- .", shell=True, cwd=W + "/repo", check=True)
    bad = None
    for f, a, b in edits:
        p = os.path.join(W, "repo", f); t = open(p).read()
        if t.count(a) != 1: bad = "%d matches of %r" % (t.count(a), a)
        open(p, "w").write(t.replace(a, b))
    if bad: print(i, "BAD EDIT", bad); continue
    r = subprocess.run("timeout 120 cargo test --lib --offline", shell=True, cwd=W + "/repo", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    tests = "tests pass" if r.returncode == 0 else "DOES NOT COMPILE" if "could not compile" in r.stdout else "tests fail"
    if tests == "DOES NOT COMPILE": print(i, tests, [l for l in r.stdout.splitlines() if l.startswith("error")][:3]); continue
    hits = []
    for p in (props if allp else [own]):
        r = subprocess.run(["./check.sh", p], cwd=W + "/verif", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=1000, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
        if r.returncode == 1 and "VIOLATION property=%s " % p in r.stdout: hits.append(p)
        elif r.returncode != 0: hits.append("%s(rc=%d)" % (p, r.returncode))
    print(i, "CAUGHT" if own in hits else "MISSED", own, tests, *[h for h in hits if h != own]); sys.stdout.flush()
shutil.rmtree(W)
