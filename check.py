#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N]   decide one property
   check.py --setup                                      build everything once
   check.py --replay FILE                                run a counterexample again
   check.py --record                                     rewrite expect.json from clean runs

Builds /repo's working tree into LLVM IR together with the harnesses, runs the symbolic
executor (engine/) over the harnesses of the property, replays what the solver found against
the natively compiled code, and writes evidence/PROPERTY.json.
Exit 0: held on everything explored; 1: violated; 2: the check could not decide."""
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(HERE, ".build")
EVID = os.path.join(HERE, "evidence")
RSX = os.path.join(HERE, "engine/target/release/rsx")
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", RUST_BACKTRACE="0")
ENV.pop("RUSTFLAGS", None)
for k in ("CARGO_TARGET_DIR", "CARGO_BUILD_TARGET"): ENV.pop(k, None)
QUICK_SECS, THOROUGH_SECS = 560, 3000


def say(*a):
    print(*a, flush=True)


def die(msg):
    say("ERROR " + msg)
    sys.exit(2)


# ------------------------------------------------------------------------------- building

def files_under(*roots):
    out = []
    for r in roots:
        if os.path.isfile(r):
            out.append(r)
        for d, ds, fs in os.walk(r):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
            out += [os.path.join(d, f) for f in sorted(fs)]
    return out


def digest(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            b = f.read()
        h.update(str(len(b)).encode() + b"\0" + b)
    return h.hexdigest()


def cli_sources(to):
    """the command line tool's sources with the harnesses added to its root module"""
    import tomllib
    with open(REPO + "/Cargo.toml", "rb") as f: c = tomllib.load(f)
    roots = [b["path"] for b in c.get("bin", []) if b.get("name") == "lsystem" and "path" in b] + ["src/bin/lsystem/main.rs", "src/bin/lsystem.rs"]
    root = next((REPO + "/" + r for r in roots if os.path.exists(REPO + "/" + r)), None)
    if not root: die("no command line tool")
    shutil.rmtree(to, ignore_errors=True)
    os.makedirs(to + "/src")
    if os.path.basename(root) == "main.rs": shutil.copytree(os.path.dirname(root), to + "/src", dirs_exist_ok=True)
    with open(root) as f: text = f.read()
    h = HERE + "/harness/src/"
    text += "\n\n" + "".join('#[path = "%s"]\npub mod %s;\n' % (p, n) for n, p in (("rsx", h + "rsx.rs"), ("fs", h + "fs.rs"), ("h_cli", HERE + "/cli/h_cli.rs")))
    text += 'pub fn tables() -> Vec<&\'static [(&\'static str, extern "C-unwind" fn())]> { vec![h_cli::TABLE] }\n'
    with open(to + "/src/main.rs", "w") as f: f.write(text)
    deps = []
    for n, d in c.get("dependencies", {}).items():
        d = dict(d) if isinstance(d, dict) else {"version": d}
        d.pop("optional", None)
        deps.append("%s = { %s }" % (n, ", ".join("%s = %s" % (k, json.dumps(v)) for k, v in d.items())))
    with open(to + "/Cargo.toml", "w") as f: f.write("""[package]
name = "vc"
version = "0.1.0"
edition = "%s"
[workspace]
[lib]
path = "src/main.rs"
crate-type = ["staticlib", "rlib"]
[[bin]]
name = "replay"
path = "%s/cli/replay.rs"
required-features = ["native"]
[features]
native = []
[dependencies]
rusty-systems = { path = "%s" }
%s
[patch.crates-io]
rand = { path = "%s/rand" }
[profile.release]
opt-level = 1
lto = "fat"
codegen-units = 1
overflow-checks = true
debug = false
""" % (c["package"].get("edition", "2021"), HERE, REPO, "\n".join(deps), HERE))
    if os.path.exists(REPO + "/Cargo.lock"): shutil.copy(REPO + "/Cargo.lock", to + "/Cargo.lock")


def build(kind="lib"):
    """engine, IR and native harnesses, all from the current files; returns the IR path"""
    os.makedirs(BUILD, exist_ok=True)
    t0 = time.time()
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        procs = []
        stamp_e = os.path.join(BUILD, "engine.stamp")
        stamp_h = os.path.join(BUILD, "%s.stamp" % kind)
        de = digest(files_under(HERE + "/engine/src", HERE + "/engine/Cargo.toml", HERE + "/engine/Cargo.lock"))
        dh = digest(files_under(REPO + "/src", REPO + "/Cargo.toml", REPO + "/Cargo.lock", HERE + "/harness/src",
                                HERE + "/harness/Cargo.toml", HERE + "/harness/Cargo.lock", HERE + "/rand", HERE + "/cli"))
        read = lambda p: open(p).read() if os.path.exists(p) else ""
        dirs = [os.path.join(BUILD, kind, d) for d in ("ir", "native", "src")]
        irdir, natdir, srcdir = dirs
        crate, NATIVE = ("vh", "vc")[kind == "cli"], natdir + "/release/replay"
        ll = lambda: glob.glob(irdir + "/release/deps/%s-????????????????.ll" % crate)
        if read(stamp_e) != de or not os.path.exists(RSX):
            procs.append(("engine", ["cargo", "build", "--release", "--offline", "--quiet"], HERE + "/engine"))
        fresh = read(stamp_h) == dh and len(ll()) == 1 and os.path.exists(NATIVE)
        if not fresh:
            # what cargo remembers goes by time stamps; the contents decide here
            for d in dirs: shutil.rmtree(d, ignore_errors=True)
            if kind == "cli": cli_sources(srcdir)
            else: srcdir = HERE + "/harness"
            procs.append(("IR", ["cargo", "rustc", "--lib", "--crate-type", "staticlib", "--release", "--offline", "--quiet",
                                 "--target-dir", irdir, "--", "-C", "save-temps", "--emit=llvm-ir"], srcdir))
            procs.append(("native", ["cargo", "build", "--release", "--offline", "--quiet", "--features", "native",
                                     "--target-dir", natdir], srcdir))
        run = [(n, subprocess.Popen(c, cwd=d, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)) for n, c, d in procs]
        for n, p in run:
            o, _ = p.communicate()
            if p.returncode != 0:
                die("building the %s failed:\n%s" % (n, o[-3000:]))
        if len(ll()) != 1:
            die("no single IR file: %s" % ll())
        with open(stamp_e, "w") as f: f.write(de)
        with open(stamp_h, "w") as f: f.write(dh)
        return ll()[0], time.time() - t0, dh


def kind_of(name):
    """which build a harness or property belongs to"""
    return "cli" if re.match(r"(._c|C)25", name) else "lib"


def harnesses(ll):
    o = subprocess.run([RSX, ll], capture_output=True, text=True, env=ENV)
    if o.returncode != 0:
        die("reading the IR failed: " + o.stderr[-800:])
    return o.stdout.split()


# ------------------------------------------------------------------------------- running

def engine(ll, hs, out, secs, seed, extra=()):
    cmd = [RSX, ll, "--harness", ",".join(hs), "--out", out, "--secs", str(secs), "--seed", str(seed), *extra]
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, env=ENV, timeout=secs + 120)
    except subprocess.TimeoutExpired:
        return None, "the engine did not stop in time"
    if p.returncode != 0 or not os.path.exists(out):
        return None, "the engine failed: " + (p.stderr or p.stdout)[-1500:]
    with open(out) as f:
        return json.load(f), ""


def native(h, inputs, rounds=1, timeout=60):
    """run a harness natively: (kind, text, notes)"""
    cmd = [os.path.join(BUILD, kind_of(h), "native/release/replay"), h, ",".join(str(v) for v in inputs)] + ([str(rounds)] if rounds > 1 else [])
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, errors="replace", env=ENV, timeout=timeout)
    except subprocess.TimeoutExpired:
        return "hang", "did not end within %d s" % timeout, None
    notes = None
    for l in p.stdout.splitlines():
        if l.startswith("NOTES "): notes = [int(x) for x in l[6:].split(",") if x]
    kind = {0: "ok", 70: "check", 71: "panic", 77: "assume"}.get(p.returncode, "crash")
    text = "\n".join(l for l in p.stdout.splitlines() if not l.startswith("NOTES "))[-600:]
    return kind, text, notes


def reproduce(v, ll, seed, tmp):
    """Does the real code fail on these inputs too?  (how, text), or None"""
    ins = [x[1] for x in v["inputs"]]
    h = v["harness"]
    if not v["schedule"]:
        k, t, _ = native(h, ins, 1, 30)
        if k in ("check", "panic", "hang", "crash"):
            return "native run", "%s: %s" % (k, t)
        return None
    # a schedule: run the threads natively again and again, then step through the schedule
    end = time.time() + 45
    n = 0
    while time.time() < end:
        k, t, _ = native(h, ins, 2000, 45)
        n += 2000
        if k in ("check", "panic", "hang", "crash"):
            return "native threads, within %d rounds" % n, "%s: %s" % (k, t)
        if n >= 200000: break
    r, e = engine(ll, [h], os.path.join(tmp, "again.json"), 120, seed, ["--concrete", ",".join(str(x) for x in ins)])
    if r:
        for w in r["violations"]:
            if w["kind"] == v["kind"] and w["label"] == v["label"]:
                return "the compiled code stepped through the schedule on concrete values", "%s: %s" % (w["kind"], w["label"])
    return None


def known(prop):
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) harness=(\S+) label=\"([^\"]*)\" inputs=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop: out.append(m.groups()[1:])
    return out


def main():
    args = sys.argv[1:]
    opt = lambda n, d: args[args.index(n) + 1] if n in args else d
    tier = opt("--tier", os.environ.get("VERIF_TIER") or "quick")
    seed = int(opt("--seed", os.environ.get("VERIF_SEED") or "1"))
    if "--setup" in args:
        for k in ("lib", "cli"):
            ll, s, _ = build(k)
            say("built in %.1f s: %d harnesses" % (s, len(harnesses(ll))))
        return 0
    if "--replay" in args:
        with open(opt("--replay", None)) as f: d = json.load(f)
        ll, _, _ = build(kind_of(d["harness"]))
        r = reproduce(d, ll, seed, BUILD)
        say(json.dumps(d, indent=1) if r is None else "REPRODUCED by %s: %s" % r)
        return 0 if r is None else 1
    if "--record" in args:
        return record(seed)
    return check(args[0], tier, seed)


def select(names, prop, tier):
    n = prop[1:]
    hs = [h for h in names if h.startswith("h_c%s_" % n)]
    if tier == "thorough":
        hs += [h for h in names if h.startswith("t_c%s_" % n)]
    return hs


def options(tier):
    return ["--preempt", "4" if tier == "thorough" else "3", "--max-paths", "50000000", "--timeout", "120000" if tier == "thorough" else "60000",
            "--samples", "12" if tier == "thorough" else "6"]


def record(seed):
    p = os.path.join(HERE, "expect.json")
    old = json.load(open(p)) if os.path.exists(p) else {}
    out = {}
    for kind in ("lib", "cli"):
        ll, _, _ = build(kind)
        names = harnesses(ll)
        out.update((k, v) for k, v in old.items() if k in names)
        todo = [h for h in names if h.startswith("h_")] if "--thorough" not in sys.argv else [h for h in names if h.startswith("t_") and h not in out]
        for i in range(0, len(todo), 12):
            part = todo[i:i + 12]
            r, e = engine(ll, part, os.path.join(BUILD, "record.json"), 1500, seed, options("quick"))
            if not r or not r["complete"] or r["violations"]:
                die("not clean: %s %s" % (e or r["errors"], r and r["violations"]))
            for h in r["harnesses"]: out[h["name"]] = sorted(h["reach"])
    with open(p, "w") as f: f.write("{\n" + ",\n".join(" %s: %s" % (json.dumps(k), json.dumps(v)) for k, v in sorted(out.items())) + "\n}\n")
    return 0


def check(prop, tier, seed):
    t0 = time.time()
    ll, build_s, src = build(kind_of(prop))
    hs = select(harnesses(ll), prop, tier)
    if not hs: die("no harness for " + prop)
    os.makedirs(os.path.join(EVID, "replays"), exist_ok=True)
    tmp = os.path.join(BUILD, "tmp-%s-%d" % (prop, os.getpid()))
    os.makedirs(tmp, exist_ok=True)
    try:
        return decide(prop, tier, seed, t0, ll, build_s, src, hs, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def decide(prop, tier, seed, t0, ll, build_s, src, hs, tmp):
    secs = THOROUGH_SECS if tier == "thorough" else QUICK_SECS
    r, e = engine(ll, hs, os.path.join(tmp, "out.json"), secs, seed, options(tier))
    if r is None: die(e)
    problems, alarms, quiet = [], [], []

    # paths that are long, but do end natively: give them more room
    slow = [v for v in r["violations"] if v["kind"] == "hang"]
    if slow and len(slow) == len(r["violations"]) and all(native(v["harness"], [x[1] for x in v["inputs"]], 1, 30)[0] == "ok" for v in slow if not v["schedule"]):
        r, e = engine(ll, hs, os.path.join(tmp, "out.json"), max(60, secs - int(time.time() - t0)), seed, options(tier) + ["--max-steps", "4000000000"])
        if r is None: die(e)

    # counterexamples: the real code has to fail on them as well
    allowed = known(prop)
    seen = set()
    for v in sorted(r["violations"], key=lambda v: (v["harness"], len(v["inputs"]))):
        key = (v["harness"], v["kind"], v["label"])
        ins = [x[1] for x in v["inputs"]]
        k = [x for x in allowed if x[0] == v["harness"] and x[1] == v["label"] and x[2] in ("*", ",".join(map(str, ins)))]
        if k:
            quiet.append(k[0][3])
            continue
        if key in seen or len(alarms) >= 4: continue
        how = reproduce(v, ll, seed, tmp)
        if how is None:
            problems.append("the solver's counterexample does not fail natively: %s %s %s %s" % (*key, ins))
            continue
        seen.add(key)
        path = os.path.join(EVID, "replays", "%s-%d.json" % (prop, len(alarms)))
        with open(path, "w") as f:
            json.dump(dict(property=prop, **v, reproduced_by=how[0], observed=how[1],
                           run="python3 /verif/check.py --replay " + path), f, indent=1)
        alarms.append((path, v, how))

    # completed paths: the native build has to agree with the executor on what it computed
    validated, rounds, samples = 0, 0, []
    for s in r["samples"]:
        ins = [x[1] for x in s["inputs"]]
        threads = s["threads"] > 1
        k, t, notes = native(s["harness"], ins, 20 if threads else 1, 60)
        if threads: rounds += 20
        if k == "ok" and (threads or notes == s["notes"]):
            validated += 1
            if len(samples) < 12: samples.append({"harness": s["harness"], "inputs": ins, "observations": s["notes"][:24], "native": "agrees"})
        elif k in ("check", "panic", "crash") and not alarms and native(s["harness"], ins, 200 if threads else 1, 60)[0] == k:
            # on the inputs of a path the real code fails where the compiled code, as executed here, does not
            # (it can depend on what the executor does not share, such as addresses that are used again):
            # the real code decides
            path = os.path.join(EVID, "replays", "%s-%d.json" % (prop, len(alarms)))
            v = dict(harness=s["harness"], inputs=s["inputs"], schedule=[1] if threads else [], kind=k, label=t)
            how = ("the native build, with the solver's inputs for a path", t)
            with open(path, "w") as f:
                json.dump(dict(property=prop, **v, observed=t, reproduced_by=how[0], run="python3 /verif/check.py --replay " + path), f, indent=1)
            alarms.append((path, v, how))
        elif not alarms:
            problems.append("executor and native build disagree: %s %s native %s %s %s, executor %s" % (s["harness"], ins, k, t, notes, s["notes"]))

    # every part of every harness has to have been exercised
    if not alarms:
        problems += r["errors"]
        if not r["complete"] and not r["errors"]: problems.append("the exploration is incomplete")
        with open(os.path.join(HERE, "expect.json")) as f: expect = json.load(f)
        got = {h["name"]: set(h["reach"]) for h in r["harnesses"]}
        for h in hs:
            for l in expect.get(h, []):
                if l not in got.get(h, set()) and not quiet: problems.append("never reached: %s in %s" % (l, h))
            if not got.get(h): problems.append("nothing checked in " + h)

    H = r["harnesses"]
    fns = sorted(f for f in r["functions"] if "rusty_systems" in f)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": round(time.time() - t0, 2), "violations": len(alarms),
        "coverage": {
            "states": sum(h["steps"] for h in H), "transitions": sum(h["branches"] for h in H),
            "traces_validated_against_impl": validated, "samples": samples or [{"harness": H[0]["name"], "inputs": []}],
            "exhaustive": bool(r["complete"]),
            "meaning": "states: IR instructions executed symbolically; transitions: branch, memory and schedule decisions taken; paths: path classes decided by the solver; traces: solver models of completed paths run natively with the same observations",
            "paths": sum(h["paths"] for h in H), "infeasible_paths": sum(h["infeasible"] for h in H), "thread_schedules": sum(h["schedules"] for h in H),
            "native_thread_rounds": rounds,
            "queries": r["solver"], "engine_s": r["seconds"], "build_s": round(build_s, 2),
            "harnesses": [{k: h[k] for k in ("name", "paths", "steps", "forks", "max_inputs", "max_steps", "schedules", "cpu_ms", "reach")} for h in H],
            "functions_encoded": fns, "functions_encoded_in_all": len(r["functions"]), "instructions_encoded": r["instructions_encoded"],
            "bounds": bounds(prop, hs), "source": src, "known_findings": quiet, "undecided": problems,
        },
        "assumptions": ["rustc's optimised LLVM IR (opt-level 1) of the real code is what runs", "sequentially consistent atomics",
                        "thread schedules with at most %s preemptions" % options(tier)[1], "random numbers come from an uninterpreted source",
                        "inputs are within the stated bounds"],
    }
    with open(os.path.join(EVID, prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    for k in quiet: say("KNOWN-FINDING: property=%s %s" % (prop, k))
    say("%s %s: %d paths, %d instructions, %d queries (%.1f s in Z3), %d traces agree natively, %.1f s" % (
        prop, tier, ev["coverage"]["paths"], ev["coverage"]["states"], r["solver"]["queries"], r["solver"]["seconds"], validated, ev["wall_s"]))
    if alarms:
        for p, v, how in alarms:
            say("  %s [%s] %s with inputs %s; reproduced by %s: %s" % (v["harness"], v["kind"], v["label"], [x[1] for x in v["inputs"]][:40], how[0], how[1].replace("\n", " | ")[:300]))
            say("VIOLATION property=%s replay=%s" % (prop, p))
        return 1
    if problems:
        for p in problems[:12]: say("UNDECIDED " + p)
        return 2
    return 0


def bounds(prop, hs):
    """the bound comments of the harnesses: `// bound h_c01_two: ...` lines"""
    out = {}
    for p in sorted(glob.glob(HERE + "/harness/src/h_*.rs") + glob.glob(HERE + "/cli/h_*.rs")):
        for l in open(p):
            m = re.match(r"\s*// bound (\w+): (.*)", l)
            if m and m.group(1) in hs: out[m.group(1)] = m.group(2).strip()
    return out


if __name__ == "__main__":
    sys.exit(main())
