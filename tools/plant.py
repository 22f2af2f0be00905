#!/usr/bin/env python3
"""Makes /verif/seeded from tools/bugs.py: each bug's patch is made in a scratch copy of /repo, where it has to build and
pass the stable tests; its demonstration has to pass without and fail with it.
    plant.py make [ID..]     (re)makes the given (else: the missing) bugs
    plant.py run [ID..]      runs the check of its property (or PROPS=C01,C02) on copies of /repo and /verif with each applied,
                             mounted over the originals in a namespace of its own
"""
import json, os, re, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE + "/tools")
from bugs import BUGS
SC = "/tmp/plantscratch"

DEMO = r'''#!/bin/bash
# Runs demo.rs against the library in the current directory; everything it makes is in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
dir=$(mktemp -d) || exit 2
trap 'rm -rf "$dir"' EXIT
mkdir "$dir/src" && cp "$here/demo.rs" "$dir/src/main.rs" && cp "$repo/Cargo.lock" "$dir/Cargo.lock" || exit 2
cat > "$dir/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
rusty-systems = { path = "$repo" }
[workspace]
END
cd "$dir" || exit 2
export CARGO_TARGET_DIR=$dir/target
cargo build --offline --quiet 2> "$dir/log" || { tail -40 "$dir/log"; exit 2; }
timeout 120 "$dir/target/debug/demo"
'''

TOOL = r'''#!/bin/bash
# Runs the command line tool of the current directory; everything it makes is in a scratch directory.
repo=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
dir=$(mktemp -d) || exit 2
trap 'rm -rf "$dir"' EXIT
export CARGO_TARGET_DIR=$dir/target
cargo build --offline --quiet --features lsystem --bin lsystem 2> "$dir/log" || { tail -40 "$dir/log"; exit 2; }
tool=$dir/target/debug/lsystem
mkdir "$dir/work" && cd "$dir/work" || exit 2
'''

def sh(cmd, **k): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)

def scratch():
    shutil.rmtree(SC, ignore_errors=True)
    sh("cp -a /repo %s" % SC)
    sh("git -C %s checkout -q -- . && git -C %s clean -fdq" % (SC, SC))

def edit(root, edits):
    for f, old, new in edits:
        p = root + "/" + f
        s = open(p).read()
        if s.count(old) != 1: return "%s: %d times: %s" % (f, s.count(old), old[:60])
        open(p, "w").write(s.replace(old, new))

def make(b):
    i = b["id"]; d = HERE + "/seeded/" + i
    sh("git -C %s checkout -q -- ." % SC)
    e = edit(SC, b["edits"])
    if e: return "EDIT " + e
    diff = sh("git -C %s diff" % SC).stdout
    added = sh("git -C /repo diff ea11d89 HEAD").stdout
    ours = {l[1:].strip() for l in added.splitlines() if l.startswith("+") and not l.startswith("+++")}
    gone = [l[1:].strip() for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
    if not [l for l in gone if l and l not in ours]: return "changes no original line"
    bad = [l for l in gone if len(l) > 3 and l in ours]
    if bad: print("   note: touches", bad)
    # Build and test in the scratch copy.
    env = ". /opt/vp/env.sh; cd %s; export CARGO_TARGET_DIR=%s/target; " % (SC, SC)
    r = sh(env + "cargo test --workspace --all-features --all-targets --offline 2>&1", executable="/bin/bash")
    r2 = sh(env + "cargo test --doc --offline 2>&1", executable="/bin/bash")
    fails = re.findall(r"^test (.*) \.\.\. FAILED", r.stdout + r2.stdout, re.M)
    if fails or "error" in r.stdout and "could not compile" in r.stdout: return "tests: %s %s" % (fails, [l for l in r.stdout.splitlines() if l.startswith("error")][:5])
    os.makedirs(d, exist_ok=True)
    if "script" in b: open(d + "/demo.sh", "w").write(TOOL + b["script"] + "\n")
    else:
        open(d + "/demo.rs", "w").write(b["demo"].lstrip())
        open(d + "/demo.sh", "w").write(DEMO)
    os.chmod(d + "/demo.sh", 0o755)
    bad = sh("cd %s && timeout 300 bash %s/demo.sh" % (SC, d))
    sh("git -C %s checkout -q -- ." % SC)
    good = sh("cd %s && timeout 300 bash %s/demo.sh" % (SC, d))
    if good.returncode != 0: return "demo fails on the unchanged tree: " + good.stdout[-1500:] + good.stderr[-500:]
    if bad.returncode in (0, 2): return "demo does not fail with the change: %d %s" % (bad.returncode, bad.stdout[-1500:])
    open(d + "/patch.diff", "w").write(diff)
    json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d + "/meta.json", "w"), indent=1)
    return None

def caught(i, prop, yes, found):
    """keeps tools/caught.txt, from which the table in DESIGN.md is made"""
    f = HERE + "/tools/caught.txt"
    log = dict(l.rstrip("\n").split(": ", 1) for l in open(f))
    if yes: log[i] = "%s: %s%s" % (prop, "; ".join(x[:90] for x in found[:2]), " (and %d more)" % (len(found) - 2) if len(found) > 2 else "")
    elif prop == i[:3]: log[i] = "**missed**"
    open(f, "w").write("".join("%s: %s\n" % x for x in sorted(log.items())))

def run(b):
    d = HERE + "/seeded/" + b["id"]
    props = os.environ.get("PROPS", b["prop"]).split(",")
    out = []
    r = sh("git -C %s/repo checkout -q -- . && git -C %s/repo apply %s/patch.diff" % (ISO, ISO, d))
    if r.returncode: return ["does not apply " + r.stderr]
    try:
        for p in props:
            t = time.time()
            r = sh("unshare -rm bash -c 'mount --bind %s/repo /repo && mount --bind %s/verif /verif && cd /verif && exec timeout 900 python3 check.py %s'" % (ISO, ISO, p))
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            found = sorted({re.sub(r"^  (\S+) \[(\w+)\] (.*?) with inputs .*", r"\1: \3", l) for l in r.stdout.splitlines() if re.match(r"  \w+ \[\w+\]", l)})
            caught(b["id"], p, r.returncode == 1 and bool(v), found)
            out.append("%s exit %d %.0fs %s %s" % (p, r.returncode, time.time() - t, v[:1], "" if r.returncode == 1 else r.stdout[-300:] + r.stderr[-300:] if r.returncode else ""))
    finally:
        sh("git -C %s/repo checkout -q -- ." % ISO)
    return out

if __name__ == "__main__":
    ISO = os.environ.get("ISO", "/tmp/iso-plant")
    what, ids = sys.argv[1], sys.argv[2:]
    sel = [b for b in BUGS if (b["id"] in ids if ids else True)]
    if what == "make":
        if not ids: sel = [b for b in sel if not os.path.exists(HERE + "/seeded/%s/meta.json" % b["id"])]
        scratch()
        for b in sel: print(b["id"], make(b) or "ok", flush=True)
        shutil.rmtree(SC, ignore_errors=True)
    else:
        sel = [b for b in sel if os.path.exists(HERE + "/seeded/%s/meta.json" % b["id"])]
        shutil.rmtree(ISO, ignore_errors=True)
        os.makedirs(ISO + "/verif")
        sh("cp -a /repo %s/repo; git -C %s/repo checkout -q -- ." % (ISO, ISO))
        sh("cd %s && cp -a `ls -A | grep -vE '^(seeded|.git|evidence)$'` %s/verif/" % (HERE, ISO))
        for b in sel: print(b["id"], *run(b), flush=True)
