#!/usr/bin/env python3
"""usage: mkseed.py [ID...]: builds /verif/seeded/<ID>/ from tools/seeds/defs.py and confirms each one in a scratch copy of /repo:
it applies, builds, passes the stable tests, and its demonstration passes without and fails with the change."""
import json, os, subprocess, sys, shutil, re
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(here, "seeds"))
from defs import SEEDS
ROOT = os.path.join(here, "..", "seeded")
W = "/tmp/seedrepo"
env = dict(os.environ, PATH="/root/.cargo/bin:" + os.environ["PATH"], RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", RUSTC_WRAPPER="", TZ="UTC", CARGO_TERM_COLOR="never")
stable = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", [])) if os.path.exists("/opt/vp/BASELINE.json") else set()
def sh(c, cwd=W, timeout=600):
    return subprocess.run(c, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
if os.path.exists(W): shutil.rmtree(W)
shutil.copytree("/repo", W, symlinks=True)
ids = sys.argv[1:] or list(SEEDS)
for i in ids:
    s = SEEDS[i]
    sh("git checkout -q -- .")
    bad = None
    for f, a, b in s["edits"]:
        p = os.path.join(W, f); t = open(p).read()
        if t.count(a) != 1: bad = "%s: %d matches of %r" % (f, t.count(a), a); break
        open(p, "w").write(t.replace(a, b))
    if bad: print(i, "BAD EDIT", bad); continue
    diff = sh("git diff").stdout
    r = sh("timeout 120 cargo test --workspace --no-fail-fast --offline -- --test-threads 1")
    if r.returncode == 124: print(i, "TESTS HANG"); continue
    failed = re.findall(r"^test (.*) \.\.\. FAILED", r.stdout, re.M)
    # the doctest in macros.rs fails on the unchanged tree too
    failed = [x for x in failed if "macros.rs" not in x]
    if "could not compile" in r.stdout: print(i, "DOES NOT COMPILE", r.stdout[-2000:]); continue
    if failed: print(i, "CAUGHT BY TESTS", failed); continue
    d = os.path.join(ROOT, i)
    if os.path.exists(d): shutil.rmtree(d)
    os.makedirs(d)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.rs"), "w").write("mod common;\n#[allow(unused_imports)]\nuse common::*;\n" + s["demo"])
    shutil.copy(os.path.join(here, "seeds/common.rs"), d); shutil.copy(os.path.join(here, "seeds/demo.sh"), d)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
    w = sh("bash %s/demo.sh" % os.path.abspath(d))
    sh("git checkout -q -- .")
    o = sh("bash %s/demo.sh" % os.path.abspath(d))
    ok = w.returncode not in (0, 3) and o.returncode == 0
    print(i, "OK" if ok else "DEMO BAD", "with:", w.returncode, w.stdout.strip()[-300:].replace("\n", " | ") if ok else w.stdout[-1500:], "without:", o.returncode, "" if o.returncode == 0 else o.stdout[-1500:])
    if not ok: shutil.rmtree(d)
    sys.stdout.flush()
shutil.rmtree(W)
