#!/usr/bin/env python3
"""usage: mutate.py [--from N] [--step N] [--file SUBSTR] [--list]: makes every small syntactic change to the library (one at a time,
in a scratch copy under /tmp/mut), and tells which of those that compile and pass the unit tests no check catches."""
import os, re, shutil, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__)); V = os.path.abspath(os.path.join(here, "..")); W = "/tmp/mut"
OWN = {
    "collections/file_naming.rs": "C01 C02 C15 C20", "collections/mod.rs": "C02 C03 C04 C17 C19 C09 C22", "lib.rs": "C08 C10 C22 C09 C26 C05 C24 C23 C12",
    "manifest.rs": "C12 C13 C24 C14 C20 C11", "rawpath.rs": "C05 C06 C14 C12 C17", "signatures.rs": "C05 C06 C07 C17 C19 C21 C11 C10 C20",
    "timefmt.rs": "C15 C16 C17 C20", "backend/local.rs": "C18 C24 C10 C23",
}
RULES = [
    (r" < ", [" <= "]), (r" > ", [" >= "]), (r"<=", ["<"]), (r"(?<![=>])>=", [">"]), (r"==", ["!="]), (r"!=", ["=="]),
    (r"&&", ["||"]), (r"\|\|(?= [^{])", ["&&"]), (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" + "]), (r" / ", [" * "]), (r" % ", [" + "]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
    (r"(?<![\w.'\"x])(\d+)(?![\w.'\"])", ["+1", "-1"]), (r"\.min\(", [".max("]), (r"\.max\(", [".min("]), (r"\.rev\(\)", [""]), (r"\.is_some\(\)", [".is_none()"]), (r"\.is_none\(\)", [".is_some()"]),
    (r"\.is_ok\(\)", [".is_err()"]), (r"\.is_err\(\)", [".is_ok()"]), (r"\bSome\(", []), (r"if !", ["if "]), (r"\bif (?!let|!)", ["if !"]), (r"\bcontinue\b", ["break"]), (r"\bbreak\b", ["continue"]),
    (r"\.first\(\)", [".last()"]), (r"\.last\(\)", [".first()"]), (r"\.any\(", [".all("]), (r"\.all\(", [".any("]), (r"\.start_time\(\)", [".end_time()"]), (r"\.end_time\(\)", [".start_time()"]),
    (r"\.start_time\b(?!\()", [".end_time"]), (r"\.end_time\b(?!\()", [".start_time"]), (r"\.uid\b", [".gid"]), (r"\.gid\b", [".uid"]), (r"start_path", ["end_path"]), (r"\bLess\b", ["Greater"]), (r"\bGreater\b", ["Less"]),
    (r"\.skip\(1\)", [""]), (r"&= ", ["|= "]), (r"\|= ", ["&= "]), (r"\+= ", ["-= "]), (r" & ", [" | "]), (r" \| (?=[^A-Z])", [" & "]), (r">>", ["<<"]), (r"<<", [">>"]), (r"b'(\w)'", ["chr"]),
    (r"\?;$", [";"]), (r"\.unwrap_or\((\w+)\)", []), (r"Spanned", []), (r"\.trim\(\)", [""]), (r"\.to_lowercase\(\)", [""]), (r"to_ascii_lowercase\(\)", ["to_owned()"]), (r"Some\(([a-z_.]+)\)$", ["None"]), (r"Ok\(Some\((.*)\)\)", ["Ok(None)"]),
]
def sites():
    for rel in OWN:
        lines = open("/repo/src/" + rel).read().split("\n"); depth = False
        for n, l in enumerate(lines):
            if l.startswith("#[cfg(test)]") or re.match(r"\s*mod test", l): break
            s = l.strip()
            if s.startswith("//") or s.startswith("#[") or s.startswith("use ") or not s: continue
            code = l.split(" //")[0]
            for pat, reps in RULES:
                for m in re.finditer(pat, code):
                    for r in reps:
                        if r in ("+1", "-1"):
                            k = int(m.group(1)) + int(r)
                            if k < 0: continue
                            t = code[:m.start()] + str(k) + code[m.end():]
                        elif r == "chr":
                            t = code[:m.start()] + "b'%s'" % chr(ord(m.group(1)) + 1) + code[m.end():]
                        else: t = code[:m.start()] + r + code[m.end():]
                        if t != code: yield rel, n, l, t + l[len(code):]
            if s.endswith(";") and not s.startswith(("let", "return", "pub", "type", "extern", "mod", "}")): yield rel, n, l, "/*" + l + "*/"
            if re.match(r"\s*\.\w+\(.*\)$", l): yield rel, n, l, ""
            if re.match(r"\s*(return .*|.*\bcontinue|.*\bbreak);$", l): yield rel, n, l, "/*" + l + "*/"
            if re.match(r"\s*self\..*|.*\.(push|insert|extend|clear|truncate|sort_by|reverse|pop)\(.*\);", l) and s.endswith(";"): pass
muts = []
seen = set()
for m in sites():
    if (m[0], m[1], m[3]) not in seen: seen.add((m[0], m[1], m[3])); muts.append(m)
a = sys.argv
if "--file" in a: muts = [m for m in muts if a[a.index("--file") + 1] in m[0]]
if "--list" in a:
    for i, (rel, n, l, t) in enumerate(muts): print(i, rel, n + 1, t.strip())
    sys.exit()
step = int(a[a.index("--step") + 1]) if "--step" in a else 1
start = int(a[a.index("--from") + 1]) if "--from" in a else 0
if os.path.exists(W): shutil.rmtree(W)
os.makedirs(W)
subprocess.run("cp -a /repo %s/repo && mkdir %s/verif && cp -a %s/mc %s/check.sh %s/known_findings.txt %s/verif/ && sed -i 's#path = \"/repo\"#path = \"%s/repo\"#' %s/verif/mc/Cargo.toml" % (W, W, V, V, V, W, W, W), shell=True, check=True)
env = dict(os.environ, PATH="/root/.cargo/bin:" + os.environ["PATH"], RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", RUSTC_WRAPPER="", TZ="UTC", CARGO_TERM_COLOR="never", VERIF_SEED="1", VERIF_TIER="quick", RUSTFLAGS="")
stat = {}
for i, (rel, n, l, t) in enumerate(muts):
    if i < start or (i - start) % step: continue
    p = W + "/repo/src/" + rel
    orig = open("/repo/src/" + rel).read()
    lines = orig.split("\n"); assert lines[n] == l
    lines[n] = t
    open(p, "w").write("\n".join(lines))
    r = subprocess.run("timeout 100 cargo test --lib --offline", shell=True, cwd=W + "/repo", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode:
        v = "nocompile" if "could not compile" in r.stdout else "tests"
    else:
        v = "SURVIVED"
        for c in OWN[rel].split():
            r = subprocess.run(["timeout", "600", "./check.sh", c], cwd=W + "/verif", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            if r.returncode == 1: v = c; break
            if r.returncode: v = "%s(rc=%d)" % (c, r.returncode); break
    stat[v] = stat.get(v, 0) + 1
    if v not in ("nocompile", "tests"): print(i, v, rel, n + 1, "|", l.strip(), "=>", t.strip()); sys.stdout.flush()
    open(p, "w").write(orig)
print(stat); shutil.rmtree(W); print("done")
