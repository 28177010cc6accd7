#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]   decide one property on /repo's working tree
check.py --build                                 build both engines (setup_cmd)
check.py --replay <file>                         re-run one recorded violation
check.py --conform                               compare the controlled runtime with the real libraries

Exit 0: held on everything explored. Exit 1 with a VIOLATION line: broken. 2: error of the check."""
import concurrent.futures, fcntl, json, os, resource, struct, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(HERE, "build")
EVID = os.path.join(HERE, "evidence")
REPLAY = os.path.join(HERE, "replay")
FINDINGS = os.path.join(HERE, "known_findings.txt")
TOOLCHAIN = "stable-x86_64-unknown-linux-gnu"
SEQ = ["C%02d" % i for i in range(1, 22)]
MC = ["C%02d" % i for i in range(22, 28)]
# seconds the engine may run before the check gives up (an error, never a verdict)
WALL = {"quick": 780, "thorough": 6 * 3600}

ASSUME_SEQ = [
    "sequential callers; the schedule of the worker pool inside one operation is the subject of C25/C26",
    "element values come from the stated alphabets; the enumeration is exhaustive over shapes, windows, operations and histories within the stated bounds",
    "the reference model in seq/src/model.rs states the intended meaning",
]
ASSUME_MC = [
    "scheduling points are the operations on std::sync, std::thread, rayon and crossbeam, which the build redirects to the controlled runtime; the crate has no unsafe code, so there are no other shared mutable accesses",
    "sequentially consistent memory",
    "the controlled worker pool over-approximates rayon's order of tasks: a newly started task may run on any idle worker",
]


def die(msg):
    print("error: " + msg, file=sys.stderr)
    sys.exit(2)


def lock():
    os.makedirs(BUILD, exist_ok=True)
    f = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


# The sequential engine is built and run twice: with the checks of a debug build and without them,
# as users of a release build run the crate.
PROFILES = {"seq": [("checked", "seq", {}),
                    ("plain", "seq-plain", {"CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS": "false", "CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS": "false"})],
            "mc": [("checked", "mc", {})]}


def cargo(engine, sub, extra, *args):
    env = dict(os.environ)
    for k in list(env):
        if k.startswith(("CARGO_PROFILE", "CARGO_BUILD", "CARGO_ENCODED")) or k in ("RUSTFLAGS", "RUSTC", "RUSTDOCFLAGS", "RUSTC_WORKSPACE_WRAPPER"):
            del env[k]
    env.update(extra)
    target = os.path.join(BUILD, sub)
    env.update(CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0", RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_TERM_COLOR="never",
               RUSTC_WRAPPER=os.path.join(HERE, engine, "rustc-wrapper.sh") if engine != "seq" else "")
    return subprocess.run(["cargo", *args], cwd=os.path.join(HERE, engine), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def build(engine, *features):
    """Rebuild from /repo's current working tree; never trust an earlier build of the crate."""
    def one(sub, extra):
        cargo(engine, sub, extra, "clean", "--release", "--offline", "-p", "rust_light", "-p", engine)
        return cargo(engine, sub, extra, "build", "--release", "--offline", "--locked", *features)

    with lock(), concurrent.futures.ThreadPoolExecutor() as pool:
        jobs = [pool.submit(one, sub, extra) for _, sub, extra in PROFILES[engine]]
        results = [j.result() for j in jobs]
    for r in results:
        if r.returncode != 0:
            print(r.stdout[-6000:], file=sys.stderr)
            die("the %s engine does not build against /repo" % engine)
    return [(name, os.path.join(BUILD, sub, "release", engine)) for name, sub, _ in PROFILES[engine]]


def build_for(prop, engine):
    return build(engine, "--no-default-features", "--features", prop) if engine == "seq" else build(engine)


def findings(prop):
    """known: property=<id> key=<key of the failing case> | <what fails>  ->  {key: what}"""
    out = {}
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            head = "known: property=%s key=" % prop
            if line.startswith(head):
                key, _, what = line[len(head):].rstrip("\n").partition(" | ")
                out[key] = what
    return out


def limits():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_AS, (26 << 30, 26 << 30))


def run(binary, args, wall):
    """-> (exit code or None on timeout, stdout)"""
    env = {k: v for k, v in os.environ.items() if not k.startswith("RAYON_") and k != "RUST_BACKTRACE"}
    try:
        r = subprocess.run([binary, *args], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=wall, env=env, preexec_fn=limits)
    except subprocess.TimeoutExpired as e:
        out = e.stdout or b""
        return None, out.decode("utf8", "replace") if isinstance(out, bytes) else out
    if r.stderr:
        sys.stderr.write(r.stderr[-3000:])
    return r.returncode, r.stdout


def fails(out):
    res = []
    for line in out.splitlines():
        if line.startswith("FAIL "):
            idx, key, what = (line[5:].split("\t", 2) + ["", ""])[:3]
            res.append(dict(index=int(idx), key=key, what=what))
    return res


def record(prop, engine, tier, n, data):
    os.makedirs(REPLAY, exist_ok=True)
    path = os.path.join(REPLAY, "%s-%d.json" % (prop, n))
    data = dict(property=prop, engine=engine, tier=tier, how="python3 check.py --replay " + os.path.relpath(path, HERE), **data)
    json.dump(data, open(path, "w"), indent=1, ensure_ascii=False)
    print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(path, HERE)))
    print("  case: %s\n  what: %s" % (data.get("key", ""), data.get("what", "")))


def culprits(binary, base, cands):
    """Run candidate cases alone; those that crash or hang again."""
    bad = []
    for i in dict.fromkeys(cands):
        if bad:
            break
        rc, out = run(binary, base + ["--only", str(i)], 300)
        key = next((l[4:] for l in out.splitlines() if l.startswith("KEY ")), "")
        if rc in (0, 5):
            continue
        what = {None: "does not finish", 1: "fails", 4: "does not finish"}.get(rc, "ends the process (status %s)" % rc)
        f = fails(out)
        if f:
            what = f[0]["what"]
        bad.append(dict(index=i, key=key, what=what))
    return bad


def merge(covs):
    if len(covs) == 1:
        return list(covs.values())[0]
    cov = dict(list(covs.values())[0])
    for k in ("transitions", "traces_validated_against_impl"):
        cov[k] = sum(c[k] for c in covs.values())
    cov["exhaustive"] = all(c["exhaustive"] for c in covs.values())
    cov["profiles"] = {n: {k: c[k] for k in ("states", "transitions", "traces_validated_against_impl", "exhaustive")} for n, c in covs.items()}
    return cov


def explore(prop, tier, binary, known):
    """Run the enumeration once -> (violations, coverage)"""
    work = os.path.join(BUILD, "work-%s-%d" % (prop, os.getpid()))
    os.makedirs(work, exist_ok=True)
    trace, outj, kf = (os.path.join(work, x) for x in ("trace", "out.json", "known"))
    open(kf, "w").write("".join(k + "\n" for k in known))
    base = ["--property", prop, "--tier", tier]
    violations, cov = [], None
    try:
        rc, out = run(binary, base + ["--known", kf, "--trace", trace, "--out", outj], WALL[tier])
        sys.stdout.write(out[-4000:])
        if rc is None:
            die("the engine ran out of time")
        for line in out.splitlines():
            if line.startswith("KNOWN "):
                key = line[6:].split("\t")[0]
                print("KNOWN-FINDING: property=%s %s" % (prop, known.get(key, key)))
        if rc in (0, 1) and os.path.exists(outj):
            cov = json.load(open(outj))
            violations = fails(out)
            if rc == 1 and not violations:
                die("exit 1 without a case")
        elif rc == 5:
            die("the engine reports an error of its own")
        else:
            # a case ended the process or never finished: find it and confirm it alone
            cands = [int(l.split()[1]) for l in out.splitlines() if l.startswith("HANG ")]
            if not cands and os.path.exists(trace):
                raw = open(trace, "rb").read()
                cands = [v - 1 for v in struct.unpack("<%dQ" % (len(raw) // 8), raw) if v]
            violations = culprits(binary, base, cands)
            if not violations:
                # needs what ran before it: does the whole run end that way again?
                rc2, out2 = run(binary, base + ["--known", kf], WALL[tier])
                if rc2 == 1 and fails(out2):
                    violations = fails(out2)
                elif rc2 in (0, 5):
                    die("status %s did not happen again" % rc)
                else:
                    violations = [dict(index=-1, key="whole enumeration", what="the process ends with status %s / %s" % (rc, rc2))]
            cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[v["key"] for v in violations], exhaustive=False)
    finally:
        for f in (trace, outj, kf):
            if os.path.exists(f):
                os.remove(f)
        os.rmdir(work)
    return violations, cov


def check(prop, tier):
    engine = "seq" if prop in SEQ else "mc" if prop in MC else die("unknown property " + prop)
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(EVID, exist_ok=True)
    evid = os.path.join(EVID, prop + ".json")
    if os.path.exists(evid):
        os.remove(evid)
    binaries = build_for(prop, engine)
    known = findings(prop)
    violations, covs = [], {}
    for name, binary in binaries:
        v, c = explore(prop, tier, binary, known)
        covs[name] = c
        for x in v:
            x["profile"] = name
        violations += v
        if v:
            break
    cov = merge(covs)
    json.dump(dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=cov,
                   assumptions=ASSUME_SEQ if engine == "seq" else ASSUME_MC, wall_s=round(time.time() - t0, 2), violations=len(violations)),
              open(evid, "w"), indent=1, ensure_ascii=False)
    for n, v in enumerate(violations[:3]):
        record(prop, engine, tier, n, v)
    print("%s %s: %s (%.1f s)" % (prop, tier, "VIOLATED" if violations else "held", time.time() - t0))
    sys.exit(1 if violations else 0)


def replay(path):
    d = json.load(open(path))
    binary = dict(build_for(d["property"], d["engine"]))[d.get("profile", "checked")]
    args = ["--property", d["property"], "--tier", d["tier"]]
    if d["index"] >= 0:
        args += ["--only", str(d["index"])]
    if d["engine"] == "mc" and d["index"] >= 0 and "[schedule " in d["what"] and d["property"] != "C22":
        args += ["--schedule", d["what"].rsplit("[schedule ", 1)[1].split("]")[0]]
    rc, out = run(binary, args, 900)
    print(out)
    print("exit status %s" % rc)
    sys.exit(0 if rc == 0 else 1)


def main():
    a = sys.argv[1:]
    if a and a[0] == "--build":
        for e in ("seq", "mc"):
            if os.path.exists(os.path.join(HERE, e, "Cargo.toml")):
                build(e)
        return
    if len(a) == 2 and a[0] == "--replay":
        return replay(a[1])
    if a == ["--conform"]:
        with lock():
            r = cargo("litmus", "litmus", {}, "build", "--release", "--offline", "--locked")
        if r.returncode != 0:
            print(r.stdout[-6000:], file=sys.stderr)
            die("the litmus programs do not build")
        sys.exit(subprocess.run([os.path.join(BUILD, "litmus", "release", "litmus")], stderr=subprocess.DEVNULL).returncode)
    if not a:
        die(__doc__)
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    check(a[0], "thorough" if tier == "thorough" else "quick")


try:
    main()
except Exception:
    # an error of the check itself is never a verdict
    import traceback
    traceback.print_exc()
    sys.exit(2)
