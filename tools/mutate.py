#!/usr/bin/env python3
"""Development aid, no check runs it: plants small syntactic changes in scratch copies of
/repo and lists those no monitor notices.  mutate.py N SEED OUT [WORKERS] [file-substring]"""
import re, os, random, subprocess, sys, shutil, json
from concurrent.futures import ThreadPoolExecutor
import threading
N, SEED, OUT = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
W = int(sys.argv[4]) if len(sys.argv) > 4 else 3
FILT = sys.argv[5] if len(sys.argv) > 5 else ""
PROPS = {"interval_as_gfloat": ["C02", "C03", "C09", "C01"], "interval.rs": ["C01", "C03", "C02", "C09"], "scalar": ["C04", "C03", "C01", "C02"],
  "transform_inverse": ["C06", "C07", "C08"], "transform.rs": ["C06", "C07", "C08", "C09", "C21", "C04"], "vectori": ["C09"], "vector": ["C05", "C09", "C04", "C21"],
  "camera.rs": ["C20", "C19"], "thin_lens": ["C19"], "bbox": ["C12", "C13", "C10", "C11", "C18"], "primitive": ["C16", "C17", "C18", "C15", "C10"],
  "ray": ["C08", "C09"], "sphere": ["C14", "C15", "C18"]}
SUBS = [(r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "), (r" <= ", " < "), (r" < ", " <= "), (r" >= ", " > "), (r" > ", " >= "),
 (r" < ", " > "), (r" > ", " < "), (r" == ", " != "), (r" != ", " == "), (r" && ", " || "), (r" \|\| ", " && "), (r"\binf\b", "sup"), (r"\bsup\b", "inf"),
 (r"\bmin\b", "max"), (r"\bmax\b", "min"), (r"next_up", "next_down"), (r"next_down", "next_up"), (r"next_up\(\)", "abs()"), (r"\.next_up\(\)", ""), (r"\.next_down\(\)", ""),
 (r"\bsin\b", "cos"), (r"\bcos\b", "sin"), (r"\[0\]", "[1]"), (r"\[1\]", "[2]"), (r"\[2\]", "[0]"), (r"\[1\]", "[0]"), (r"\[3\]", "[2]"), (r"\bx\b", "y"), (r"\by\b", "z"), (r"\bz\b", "x"), (r"\by\b", "x"),
 (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"zero\(\)", "one()"), (r"one\(\)", "zero()"), (r"0\.0", "1.0"), (r"1\.0", "0.0"), (r"2\.0", "1.0"), (r"0\.5", "1.0"),
 (r"-(?=[a-z(])", ""), (r"\bif (?!let)([^{]+) \{", r"if true || (\1) {"), (r"\bif (?!let)([^{]+) \{", r"if false && (\1) {"), (r"!(?=[a-z(])", ""),
 (r"\.sqrt\(\)", ""), (r"\.abs\(\)", ""), (r"_lower", "_upper"), (r"_upper", "_lower"), (r"inverse_matrix", "matrix"), (r"minv", "m"), (r"\bm\b", "minv"), (r"\+= ", "-= "), (r"-= ", "+= "), (r"\+= ", "= "),
 (r"\bself\b", "other"), (r"\bother\b", "self"), (r"\bself\b", "rhs"), (r"\brhs\b", "self"), (r"to_f32", "to_f64"), (r"infinity\(\)", "highest()"), (r"tmax", "tmin"), (r"tmin", "tmax"), (r"dpdu", "dpdv"), (r"dpdv", "dpdu"),
 (r"\bclamp\b", "max"), (r"map_inverse", "map"), (r"\b0\.\.N\b", "1..N"), (r"\b0\.\.N\b", "0..N-1"), (r"\bi\b", "j"), (r"\bj\b", "i")]
ms = []
for f in subprocess.run(["git", "-C", "/repo", "ls-files", "src"], capture_output=True, text=True).stdout.split():
    if FILT not in f: continue
    for n, l in enumerate(open("/repo/" + f).read().split("\n")):
        if "#[cfg(test)]" in l: break
        c = l.split("//")[0]
        if not c.strip() or c.strip().startswith(("use ", "pub use", "mod ", "pub mod", "#", "impl", "where", "fn ", "pub fn", "trait", "pub trait", "pub struct", "type ", "pub type", "}")) : continue
        seen = set()
        for a, b in SUBS:
            for m in re.finditer(a, c):
                new = c[:m.start()] + m.expand(b) + c[m.end():]
                if new != c and new not in seen:
                    seen.add(new); ms.append((f, n, l, new))
        if c.strip().endswith(";") and not c.strip().startswith(("let", "return", "const")):
            ms.append((f, n, l, ""))
random.Random(SEED).shuffle(ms)
print(len(ms), "mutants possible")
ms = ms[:N]
lock = threading.Lock(); free = list(range(W)); res = []
for w in range(W):
    d = f"/tmp/mutw{w}"
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    subprocess.run(f"cp -a /repo {d}/repo; mkdir {d}/h; cp -a /verif/harness/Cargo.toml /verif/harness/Cargo.lock /verif/harness/src {d}/h/; sed -i 's#/repo#{d}/repo#' {d}/h/Cargo.toml; cd {d}/h && cargo build -q --release --offline", shell=True, check=True)
def one(m):
    f, n, old, new = m
    with lock: w = free.pop()
    d = f"/tmp/mutw{w}"
    p = f"{d}/repo/{f}"
    src = open(p).read()
    try:
        L = src.split("\n"); L[n] = new
        open(p, "w").write("\n".join(L))
        r = subprocess.run(["cargo", "build", "-q", "--release", "--offline"], cwd=d + "/h", capture_output=True, text=True)
        if r.returncode: 
            return ("nocompile", m, "")
        ps = next(v for k, v in PROPS.items() if k in f)
        for pr in ps + ["all"]:
            try:
                r = subprocess.run([d + "/h/target/release/scarlet-monitor", pr, "--scale", "0.4" if pr != "all" else "0.3", "--stop-on-fail", "--threads", "4"], capture_output=True, text=True, timeout=240)
            except subprocess.TimeoutExpired:
                return ("timeout", m, pr)
            if "HARNESS" in r.stderr: return ("HARNESS", m, r.stderr[-300:])
            if r.returncode: return ("died", m, r.stderr[-300:])
            if "FAIL" in r.stderr:
                x = [l for l in r.stderr.split("\n") if re.search(r"fails=[1-9]", l)]
                return ("killed" if pr != "all" else "killed-all", m, x[0].split()[0:2] if x else "")
            if "MISSING" in r.stderr: return ("missing", m, re.findall("MISSING.*", r.stderr))
        t = subprocess.run("CARGO_TARGET_DIR=target/t cargo test -q --offline 2>&1 | grep -E 'FAILED|test result' | head -3", shell=True, cwd=d + "/repo", capture_output=True, text=True).stdout
        return ("SURVIVED" + ("-testsfail" if "FAILED" in t else ""), m, "")
    finally:
        open(p, "w").write(src)
        with lock: free.append(w)
with ThreadPoolExecutor(W) as ex, open(OUT, "w") as o:
    for k, m, x in ex.map(one, ms):
        res.append(k)
        o.write(json.dumps([k, m[0], m[1] + 1, m[2].strip(), m[3].strip(), x]) + "\n"); o.flush()
import collections
print(collections.Counter(res))
for w in range(W): shutil.rmtree(f"/tmp/mutw{w}", ignore_errors=True)
