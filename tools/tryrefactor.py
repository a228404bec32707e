#!/usr/bin/env python3
"""usage: [PROPS="C25 ..."] tryrefactor.py [ID or ID+ID+... (together)]...: runs every check against the changes of seeds/refactor.py, which keep the behaviour, in scratch copies under /tmp; every line should end in 'quiet'."""
import json, os, shutil, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__)); V = os.path.join(here, "..")
sys.path.insert(0, os.path.join(here, "seeds"))
from refactor import X
W = "/tmp/tryrefactor"
if os.path.exists(W): shutil.rmtree(W)
os.makedirs(W)
subprocess.run("cp -a /repo %s/repo && mkdir %s/verif && cp -a %s/mc %s/check.sh %s/known_findings.txt %s/verif/ && sed -i 's#path = \"/repo\"#path = \"%s/repo\"#' %s/verif/mc/Cargo.toml" % (W, W, V, V, V, W, W, W), shell=True, check=True)
ids = sys.argv[1:] or list(X)
props = os.environ["PROPS"].split() if "PROPS" in os.environ else [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
env = dict(os.environ, PATH="/root/.cargo/bin:" + os.environ["PATH"], RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", RUSTC_WRAPPER="", TZ="UTC", CARGO_TERM_COLOR="never")
for i in ids:
    subprocess.run("git checkout -q -- .", shell=True, cwd=W + "/repo", check=True)
    bad = None
    for f, a, b in [e for k in i.split('+') for e in X[k]]:
        p = os.path.join(W, "repo", f); t = open(p).read()
        if t.count(a) != 1: bad = "%d matches of %r" % (t.count(a), a[:80])
        open(p, "w").write(t.replace(a, b))
    if bad: print(i, "BAD EDIT", bad); continue
    r = subprocess.run("timeout 120 cargo test --lib --offline", shell=True, cwd=W + "/repo", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: print(i, "DOES NOT BUILD OR FAILS TESTS", [l for l in r.stdout.splitlines() if l.startswith("error") or "FAILED" in l][:3]); continue
    noise = []
    for p in props:
        try:
            r = subprocess.run(["./check.sh", p], cwd=W + "/verif", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
            if r.returncode: noise.append("%s(rc=%d): %s" % (p, r.returncode, r.stdout[-400:]))
        except subprocess.TimeoutExpired: noise.append(p + "(timeout)")
    print(i, "; ".join(noise) or "quiet"); sys.stdout.flush()
shutil.rmtree(W)
