#!/usr/bin/env python3
"""Runs the checks on copies of /repo with behaviour-preserving edits (tools/refactors.py): every check has to stay quiet.
    refactor.py [-1] [ID..]     packs the edits into batches (-1: one batch each) and runs every check on each batch
    PROPS=C01,C02 limits the checks. Needs unshare: the copies are mounted over /repo and /verif in a namespace of its own."""
import os, re, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE + "/tools")
from refactors import EDITS
ISO = os.environ.get("ISO", "/tmp/iso-refactor")

def sh(cmd, **k): return subprocess.run(cmd, shell=True, capture_output=True, text=True, executable="/bin/bash", **k)

def apply(edits, only=None):
    texts = {}
    for f, old, new in edits:
        t = texts.get(f) or open(ISO + "/repo/" + f).read()
        if t.count(old) != 1: return "%s: %d times: %s" % (f, t.count(old), old[:70])
        texts[f] = t.replace(old, new)
    for f, t in texts.items(): open(ISO + "/repo/" + f, "w").write(t)
    return None

def clean(): sh("git -C %s/repo checkout -q -- ." % ISO)

def build():
    env = ". /opt/vp/env.sh; cd %s/repo; export CARGO_TARGET_DIR=%s/target; " % (ISO, ISO)
    r = sh(env + "cargo test --workspace --all-features --all-targets --offline 2>&1")
    out = r.stdout
    errs = [l for l in out.splitlines() if l.startswith("error")]
    fails = re.findall(r"^test (.*) \.\.\. FAILED", out, re.M)
    if errs or fails: return "%s %s\n%s" % (errs[:3], fails[:5], "\n".join(out.split("error", 1)[-1].splitlines()[:25]))
    return None

def checks(props):
    bad = []
    for p in props:
        t = time.time()
        r = sh("unshare -rm bash -c 'mount --bind %s/repo /repo && mount --bind %s/verif /verif && cd /verif && exec timeout 900 python3 check.py %s'" % (ISO, ISO, p), env=dict(os.environ, VERIF_TIER="quick", VERIF_SEED="1"))
        if r.returncode or "VIOLATION" in r.stdout:
            print("  NOISY", p, "exit", r.returncode, "%.0fs" % (time.time() - t), r.stdout[-1500:], r.stderr[-500:], flush=True)
            bad.append(p)
            for x in re.findall(r"replay=(\S+)", r.stdout): sh("mkdir -p %s/replays; cp %s/verif/%s %s/replays/" % (ISO, ISO, x.replace("/verif/", ""), ISO))
        elif time.time() - t > 100: print("  slow", p, "%.0fs" % (time.time() - t), flush=True)
    return bad

def main():
    args = [a for a in sys.argv[1:] if a != "-1"]
    ids = args or list(EDITS)
    props = os.environ.get("PROPS", ",".join("C%02d" % i for i in range(1, 30))).split(",")
    shutil.rmtree(ISO, ignore_errors=True)
    os.makedirs(ISO + "/verif")
    sh("cp -a /repo %s/repo; git -C %s/repo checkout -q -- ." % (ISO, ISO))
    sh("cd %s && cp -a `ls -A | grep -vE '^(seeded|.build|.git|evidence)$'` %s/verif/" % (HERE, ISO))
    batches = []
    left = ids[:]
    while left:
        clean()
        batch, rest = [], []
        for i in left:
            e = apply(EDITS[i]) if not (batch and "-1" in sys.argv) else "alone"
            if e is None: batch.append(i)
            else:
                if not batch and "-1" not in sys.argv: print("cannot apply", i, e)
                rest.append(i)
        if not batch: print("never apply:", [(i, apply(EDITS[i])) for i in rest]); break
        # what does not build or fails a test is taken out
        err = build()
        if err:
            if len(batch) == 1: print("BROKEN", batch, err, flush=True); left = rest; continue
            good = []
            clean()
            for i in batch:
                saved = sh("git -C %s/repo diff" % ISO).stdout
                apply(EDITS[i])
                x = build()
                if x:
                    clean()
                    subprocess.run(["git", "-C", ISO + "/repo", "apply"], input=saved, text=True) if saved else None
                    alone = not good
                    (rest.append(i) if not alone else None)
                    print("  out of the batch:", i, x[:1500] if alone or os.environ.get("SHOW") else x.splitlines()[0][:300], flush=True)
                else: good.append(i)
            batch = good
        print("BATCH", len(batch), " ".join(batch), flush=True)
        if "none" not in props:
            t = time.time()
            print("  noisy:", checks(props), "%.0fs" % (time.time() - t), flush=True)
        left = rest
    clean()

main()
