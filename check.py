#!/usr/bin/env python3
"""Runs the monitors of one property against /repo's working tree.

  check.py <id>                 run the check (VERIF_TIER, VERIF_SEED from the environment)
  check.py --replay <file>      re-run the case of a replay file (exit 1 if it still fails)
  check.py --build              build the monitors only

exit 0 held on everything observed / 1 violation / 2 build or harness error / 3 inconclusive
"""
import hashlib, json, os, re, resource, shutil, signal, struct, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
H = os.path.join(V, "harness")
TARGET = os.path.join(H, "target")
WORK = os.path.join(V, "replay")
BIN = "scarlet-monitor"
KNOWN = os.path.join(V, "known_findings.txt")
ENV = dict(os.environ)
ENV.setdefault("HOME", "/root")
ENV["PATH"] = ENV.get("PATH", "") + ":/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin"
ENV.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", RUST_BACKTRACE="0")
for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "MIRIFLAGS"):
    ENV.pop(k, None)

# multiplier on the section's case counts: (quick checked, quick plain, thorough checked, thorough plain)
SCALE = {"default": (16.0, 8.0, 2.0, 1.0), "C01": (6.0, 3.0, 1.0, 0.5), "C21": (8.0, 4.0, 1.0, 0.5)}
# seconds after which a run draws no further random cases (checked, plain, asan, miri); a slow machine
# then observes less instead of giving no answer
BUDGET = {"quick": (200, 110, 100, 200), "thorough": (2400, 1200, 900, 1800)}
STUCK_S = 45          # a case takes microseconds; a watchdog notices one that does not end
CPU_LIMIT = 20        # confirmation run of a single case: processor seconds, not wall clock
ASAN_SCALE = {"quick": 0.25, "thorough": 3.0}
MIRI_SCALE = {"quick": 0.00012, "thorough": 0.001}


class NoAnswer(Exception):
    def __init__(self, code, msg):
        super().__init__(msg)
        self.code = code


def source_hash():
    h = hashlib.sha256()
    for base in (REPO, H):
        for d, ds, fs in os.walk(base):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
            for f in sorted(fs):
                p = os.path.join(d, f)
                if base == REPO and f == "Cargo.lock":
                    continue
                if os.path.isfile(p):
                    h.update(os.path.relpath(p, base).encode() + b"\0")
                    with open(p, "rb") as fh:
                        h.update(fh.read())
                    h.update(b"\0")
    return h.hexdigest()


def cargo(args, env, timeout, what):
    try:
        r = subprocess.run(args, cwd=H, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise NoAnswer(3, f"{what}: timed out")
    if r.returncode != 0:
        raise NoAnswer(2, f"{what} failed:\n" + r.stdout[-4000:])
    return r


def build(kind, src):
    """kind: release (checked), plain, asan. Always what /repo holds now: a target
    directory built from other sources is thrown away, whatever the time stamps say."""
    tdir = os.path.join(TARGET, "k-" + kind)
    stamp = os.path.join(tdir, "SOURCES")
    if os.path.isdir(tdir) and (not os.path.exists(stamp) or open(stamp).read() != src):
        shutil.rmtree(tdir)
    env = dict(ENV, CARGO_TARGET_DIR=tdir, RUSTUP_TOOLCHAIN="stable")
    sub = kind
    args = ["cargo", "build", "--offline", "--profile", kind]
    if kind == "asan":
        env.pop("RUSTUP_TOOLCHAIN")
        env["RUSTFLAGS"] = "-Zsanitizer=address"
        args = ["cargo", "+nightly", "build", "--offline", "--profile", "asan", "--target", "x86_64-unknown-linux-gnu"]
        sub = "x86_64-unknown-linux-gnu/asan"
    cargo(args, env, 600, "build " + kind)
    with open(stamp, "w") as f:
        f.write(src)
    return os.path.join(tdir, sub, BIN)


def run(binary, args, timeout, env=None, cpu=None):
    def lim():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if cpu:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
    try:
        r = subprocess.run([binary] + args, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                           errors="replace", timeout=timeout, preexec_fn=lim)
        return r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired as e:
        return None, "", "timed out"


def death(rc):
    return f"killed by {signal.Signals(-rc).name}" if rc < 0 else f"exit status {rc}"


def locate_crash(pid, binary, common, crumb, rc, env, timeout):
    """The process died. Each thread left the (section, case) it was in in a mapped file: run
    those cases alone. If none dies alone, the whole run has to die the same way again."""
    secs = [l.split()[1] for l in subprocess.run([binary, "list"], env=ENV, stdout=subprocess.PIPE, text=True).stdout.splitlines()
            if l.startswith(pid + " ")]
    try:
        raw = open(crumb, "rb").read()
    except OSError:
        raw = b""
    out = os.path.join(WORK, f"{pid}.crash.json")
    first = None
    for sec, idx in struct.iter_unpack("<QQ", raw[:len(raw) // 16 * 16]):
        if 1 <= sec <= len(secs):
            s = secs[sec - 1]
            first = first or (s, idx)
            rc2, so2, se2 = run(binary, common + ["--section", s, "--index", str(idx), "--out", out], 120, env, cpu=CPU_LIMIT)
            if rc2 is not None and rc2 < 0 and rc2 != -signal.SIGXCPU:
                return [dict(section=s, index=idx, key="abort", msg=f"process {death(rc2)} while monitoring this case: " + tail(se2))]
    if first and rc in (-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGBUS, -signal.SIGILL, -signal.SIGFPE):
        rc2, so2, se2 = run(binary, common + ["--out", out], timeout, env)
        if rc2 == rc:
            return [dict(section=first[0], index=first[1], key="abort", msg=f"process {death(rc)} in two runs of this workload: " + tail(se2))]
    return []


def tail(s, n=1500):
    s = s.strip()
    return s if len(s) <= n else s[:n // 2] + " ... " + s[-n // 2:]


def run_monitor(pid, binary, tier, seed, scale, budget, env=None, extra=()):
    """-> (sections, fails, error)"""
    os.makedirs(WORK, exist_ok=True)
    out = os.path.join(WORK, f"{pid}.out.json")
    if os.path.exists(out):
        os.remove(out)
    common = [pid, "--tier", tier, "--seed", str(seed), "--scale", str(scale)] + list(extra)
    crumb = os.path.join(WORK, f"{pid}.crumb")
    rc, so, se = run(binary, common + ["--out", out, "--stuck", str(STUCK_S), "--crumb", crumb, "--budget", str(budget)], budget + 120, env)
    if rc == 0 and os.path.exists(out):
        j = json.load(open(out))
        os.remove(out)
        fails = [dict(f) for s in j["sections"] for f in s["fails"]]
        return j["sections"], fails, j["harness_error"]
    m = re.search(r"^STUCK (\S+) (\d+)", so, re.M)
    if rc == 7 and m:
        s, idx = m.group(1), m.group(2)
        rc2, _, _ = run(binary, common + ["--section", s, "--index", idx, "--out", out], 300, env, cpu=CPU_LIMIT)
        if rc2 is not None and rc2 in (-signal.SIGXCPU, -signal.SIGKILL):
            return [], [dict(section=s, index=int(idx), key="no-return",
                             msg=f"the case does not end: {CPU_LIMIT} processor seconds used (microseconds are normal)")], None
        return [], [], f"watchdog fired on {s} case {idx} and the case could not be confirmed as endless ({rc2})"
    if rc is None:
        return [], [], "TIMEOUT"
    fails = locate_crash(pid, binary, common + ["--budget", str(budget)], crumb, rc, env, budget + 120)
    if fails:
        return [], fails, None
    return [], [], f"monitor {death(rc)}: {tail(se)}"


def known_findings():
    r = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
            if m:
                r[(m.group(1), m.group(2))] = m.group(3).strip()
    return r


def miri(pid, tier, seed, src):
    """A small workload of the same monitors under the Miri interpreter."""
    tdir = os.path.join(TARGET, "k-miri")
    stamp = os.path.join(tdir, "SOURCES")
    if os.path.isdir(tdir) and (not os.path.exists(stamp) or open(stamp).read() != src):
        shutil.rmtree(tdir)
    out = os.path.join(WORK, f"{pid}.miri.json")
    if os.path.exists(out):
        os.remove(out)
    env = dict(ENV, CARGO_TARGET_DIR=tdir, MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-deterministic-floats -Zmiri-ignore-leaks")
    res = []
    end = time.time() + BUDGET[tier][3]
    for prop, sc in ((pid, MIRI_SCALE[tier]), ("C16", MIRI_SCALE[tier] / 4), ("C17", MIRI_SCALE[tier] / 20)):
        args = ["cargo", "+nightly", "miri", "run", "--offline", "--quiet", "--", prop, "--tier", "quick", "--seed", str(seed),
                "--scale", str(sc), "--skip-exhaustive", "--threads", "1", "--out", out]
        try:
            r = subprocess.run(args, cwd=H, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                               timeout=max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            return res, None, "Miri timed out (not a verdict)"
        if os.path.isdir(tdir):
            open(stamp, "w").write(src)
        if "Undefined Behavior" in r.stderr:
            return res, dict(section="miri", index=0, key="undefined-behaviour", msg=tail(r.stderr, 3000), cmd=args), None
        if r.returncode != 0 or not os.path.exists(out):
            return res, None, "Miri could not run the workload: " + tail(r.stderr, 600)
        j = json.load(open(out))
        os.remove(out)
        for s in j["sections"]:
            for f in s["fails"]:
                if prop == pid:
                    return res, dict(f, tool="miri", cmd=args), None
            res.append(dict(section=f"{prop}/{s['name']}", cases=s["evaluations"], observed=sum(s["observed"].values())))
    return res, None, None


def check(pid):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(WORK, exist_ok=True)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    src = source_hash()
    sc = SCALE.get(pid, SCALE["default"])
    sc = sc[:2] if tier == "quick" else sc[2:]
    runs, errors, fails = [], [], []
    plan = [("release", "checked", sc[0], seed), ("plain", "plain", sc[1], seed + 1_000_003)]
    if pid == "C21":
        plan.append(("asan", "asan", ASAN_SCALE[tier], seed + 2_000_003))
    for (kind, label, scale, sd), budget in zip(plan, BUDGET[tier]):
        b = build(kind, src)
        env = dict(ENV, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1") if kind == "asan" else None
        secs, fl, err = run_monitor(pid, b, tier, sd, scale, budget, env)
        for f in fl:
            f.update(build=label, kind=kind, seed=sd, tier=tier, scale=scale)
        fails += fl
        runs.append((label, secs))
        if err:
            errors.append(f"{label}: {err}")
        if fails:
            break
    extra = {}
    if pid == "C21" and not fails:
        res, bad, note = miri(pid, tier, seed, src)
        extra["miri"] = dict(workload=res, note=note or "no report")
        if bad:
            bad.update(build="miri", kind="miri", seed=seed, tier=tier, scale=0)
            fails.append(bad)
    known = known_findings()
    ev = nt = 0
    observed, und, kn, rules, samples, missing, per = {}, {}, {}, [], [], [], []
    capped = False
    for label, secs in runs:
        for s in secs:
            ev += s["evaluations"]
            nt += s["distinct"]
            capped |= s["distinct_capped"]
            for k, v in s["observed"].items():
                observed[k] = observed.get(k, 0) + v
            for k, v in s["undecided"].items():
                und[k] = und.get(k, 0) + v
            for k, v in s["known"].items():
                kn.setdefault(k, dict(count=0, example=v["example"]))["count"] += v["count"]
            sweep = s["name"].startswith("sweep:")
            r = "sweep:* : the random workload of every other property, " + s["rule"] if sweep else f"{s['name']}: {s['rule']}"
            if r not in rules:
                rules.append(r)
            samples += [] if sweep else [f"[{label}/{s['name']}] {x}" for x in s["samples"][:1]]
            missing += [f"{label}/{s['name']}:{m}" for m in s["missing"]]
            per.append(dict(build=label, section=s["name"], cases=s["evaluations"], decided_cases=s["nontrivial"],
                            distinct=s["distinct"], exhaustive=s["exhaustive"], cut_by_time_budget=s["cut"], wall_s=s["wall"]))
    for k, v in kn.items():
        if (pid, k) not in known:
            fails.append(dict(section="-", index=0, key=k, msg="unlisted finding: " + v["example"], build="-", kind="release",
                              seed=seed, tier=tier, scale=0))
    cov = dict(evaluations=ev, distinct_nontrivial=nt,
               rule="a case is non-trivial when its monitor decided at least one observation of the real code; distinct by the hash of "
                    "the generated input" + (" (each section stops counting at 400000, so this is a lower bound)" if capped else "")
                    + ". Sections - " + " | ".join(rules),
               samples=samples[:24], observations_decided=sum(observed.values()), observed_events=observed,
               undecided_within_rounding=und, known_findings_observed={k: v["count"] for k, v in kn.items()}, sections=per,
               builds=[l for l, _ in runs], **extra)
    evid = dict(property=pid, tier=tier, seed=seed, level="exploration", coverage=cov,
                assumptions=["scarlet is driven through its public API only; the monitors' oracles and the compiler are trusted",
                             "held on the executions observed, not on all inputs"],
                wall_s=round(time.time() - t0, 2), violations=len(fails))
    with open(os.path.join(V, "evidence", f"{pid}.json"), "w") as f:
        json.dump(evid, f, indent=1)
    for (p, k), what in known.items():
        if p == pid and k in kn:
            print(f"KNOWN-FINDING: property={pid} {what} (observed {kn[k]['count']} times, e.g. {kn[k]['example'][:200]})")
    if fails:
        path = os.path.join(WORK, f"{pid}.json")
        with open(path, "w") as f:
            json.dump(dict(property=pid, failures=fails[:20]), f, indent=1)
        for f in fails[:5]:
            print(f"[{f['build']}] {f['section']} case {f['index']} ({f['key']}): {f['msg'][:600]}")
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    if errors:
        raise NoAnswer(3 if all("TIMEOUT" in e for e in errors) else 2, "; ".join(errors))
    if missing:
        raise NoAnswer(3, "inconclusive, never observed: " + ", ".join(missing))
    print(f"{pid}: held on {ev} cases, {sum(observed.values())} observations decided ({tier}, seed {seed}, {time.time()-t0:.0f} s)")
    return 0


def replay(path):
    j = json.load(open(path))
    src = source_hash()
    bad = 0
    for f in j["failures"][:5]:
        if f["kind"] == "miri":
            r = subprocess.run(f["cmd"], cwd=H, env=dict(ENV, CARGO_TARGET_DIR=os.path.join(TARGET, "k-miri"),
                               MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-deterministic-floats -Zmiri-ignore-leaks"))
            bad |= r.returncode != 0
            continue
        b = build(f["kind"], src)
        out = os.path.join(WORK, "replay.out.json")
        rc, so, se = run(b, [j["property"], "--tier", f["tier"], "--seed", str(f["seed"]), "--section", f["section"],
                             "--index", str(f["index"]), "--out", out], 300, cpu=CPU_LIMIT)
        if rc != 0:
            print(f"{f['section']} case {f['index']}: {death(rc) if rc is not None else 'timed out'} {tail(se)}")
            bad = 1
            continue
        for s in json.load(open(out))["sections"]:
            for x in s["samples"]:
                print("case:", x)
            for x in s["fails"]:
                print(f"FAIL {x['section']} case {x['index']} ({x['key']}): {x['msg']}")
                bad = 1
    print("still fails" if bad else "no longer fails")
    return 1 if bad else 0


def main():
    a = sys.argv[1:]
    try:
        if a[0] == "--build":
            src = source_hash()
            build("release", src)
            build("plain", src)
            return 0
        if a[0] == "--replay":
            return replay(a[1])
        return check(a[0])
    except NoAnswer as e:
        print(f"NO ANSWER: {e}")
        return e.code


sys.exit(main())
