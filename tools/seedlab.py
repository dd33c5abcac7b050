#!/usr/bin/env python3
"""Plants bugs in private copies of /repo and files the ones that qualify under /verif/seeded.

usage: seedlab.py SPECS.py [-j WORKERS] [--only ID,ID] [--recheck] [--tier quick|thorough]

SPECS.py calls bug(id, property, needs=, breaks=, edits=[(file, old, new), ...],
demo="rust source", tool="main"|"print_histories"|None, also=[...], plain=False).
For each bug: apply the edits in the worker's copy of the repository, run the existing tests,
run the demonstration on the clean and on the patched copy, then run the property's check with
the copy bind-mounted over /repo (in a user namespace of its own).
--recheck: only re-run the checks against the patches already filed.
No check reads /verif/seeded; this is a development tool only.
"""
import json, os, subprocess, sys, threading, queue, shutil, time

LAB = "/tmp/seed"
BASE = json.load(open("/opt/vp/BASELINE.json"))["stable"]
BUGS = {}

def bug(id, prop, needs, breaks, edits, demo, tool=None, also=(), plain=False):
    assert id not in BUGS, id
    BUGS[id] = dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, tool=tool, also=list(also), plain=plain)

DEMO_SH = '''#!/bin/bash
# Run with cwd = repository root; exit 0 when the behaviour is right.
here=$(cd "$(dirname "$0")" && pwd) || exit 2
work=$(mktemp -d) || exit 2
export RUSTUP_TOOLCHAIN=stable
run() {
    rustc --edition 2015 --crate-type rlib --crate-name demixer -O -C overflow-checks=on \\
        --cap-lints allow src/lib.rs --out-dir "$work" || return 3
%(tool)s    rustc --edition 2021 -O -C overflow-checks=on --cap-lints allow "$here/demo.rs" \\
        --extern demixer="$work/libdemixer.rlib" -o "$work/demo" || return 3
    (cd "$work" && timeout 250 ./demo "$work")
}
run
status=$?
find "$work" -delete
exit $status
'''
TOOL = '''    rustc --edition 2015 -O -C overflow-checks=on --cap-lints allow %s \\
        --extern demixer="$work/libdemixer.rlib" -o "$work/tool" || return 3
'''
TOOLS = {"main": "src/main.rs", "print_histories": "src/bin/print_histories.rs", "entropy": "src/bin/entropy_simulations.rs", "bench": "src/bin/bench_sigmoid.rs"}

def sh(cmd, timeout=1200, **kw):
    try:
        p = subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, **kw)
        return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode(errors="replace")

def worker_dir(w):
    d = f"{LAB}/w{w}"
    os.makedirs(d, exist_ok=True)
    if not os.path.exists(f"{d}/repo"):
        sh(f"cp -a /repo {d}/repo")
    sh(f"git -C {d}/repo fetch -q /repo HEAD; git -C {d}/repo checkout -q -f FETCH_HEAD; git -C {d}/repo clean -fdq")
    if not os.path.exists(f"{d}/verif"):
        os.makedirs(f"{d}/verif")
    sh(f"rsync -a --delete --exclude seeded --exclude .git --exclude target /verif/ {d}/verif/ 2>/dev/null || (cd /verif && tar cf - --exclude=./.git --exclude=./seeded --exclude=./target . | tar xf - -C {d}/verif)")
    if not os.path.exists(f"{d}/verif/target") and os.path.exists("/verif/target"):
        sh(f"cp -a /verif/target {d}/verif/target")
    return d

def in_ns(d, cmd, timeout):
    inner = f"mount --bind {d}/repo /repo && mount --bind {d}/verif /verif && cd /verif && {cmd}"
    return sh(f"unshare -Urm bash -c '{inner}'", timeout=timeout, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))

TEST_ENV = ("RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 "
            "CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never RUSTC_WRAPPER= ")

def tests_pass(d):
    cmd = (f"cd {d}/repo && env {TEST_ENV} CARGO_TARGET_DIR={d}/target timeout 780 cargo test --workspace "
           "--features long_tests --no-fail-fast --locked --offline -- --test-threads 8")
    rc, out = sh(cmd)
    ok = sum(1 for l in out.splitlines() if l.startswith("test ") and l.rstrip().endswith("... ok"))
    bad = [l for l in out.splitlines() if l.startswith("test ") and l.rstrip().endswith("FAILED")]
    sh(f"git -C {d}/repo checkout -q Cargo.lock")
    if rc == 0 and ok >= len(BASE):
        return True, ""
    errs = [l for l in out.splitlines() if l.startswith("error")]
    return False, f"rc={rc} ok={ok}/{len(BASE)} " + "; ".join((bad + errs)[:6])

def check(d, prop, tier, extra=""):
    t = time.time()
    rc, out = in_ns(d, f"bash /verif/run.sh {prop} {tier} {extra}", 3600)
    hit = rc == 1 and f"VIOLATION property={prop}" in out
    line = [l for l in out.splitlines() if "VIOLATION" in l or l.startswith("  ")][:3]
    return hit, rc, " / ".join(line)[:300] if line else out[-300:], time.time() - t

def process(b, w, recheck, tier):
    d = worker_dir(w)
    s = f"/verif/seeded/{b['id']}"
    stage = f"{LAB}/stage/{b['id']}"
    os.makedirs(stage, exist_ok=True)
    if recheck:
        rc, out = sh(f"cd {d}/repo && git apply {s}/patch.diff")
        if rc: return f"PATCH-FAILS {out}"
    else:
        for f, old, new in b["edits"]:
            p = f"{d}/repo/{f}"
            text = open(p).read()
            if text.count(old) != 1:
                return f"EDIT matches {text.count(old)} times: {f}: {old[:60]!r}"
            open(p, "w").write(text.replace(old, new))
        rc, diff = sh(f"git -C {d}/repo diff -- . ':!Cargo.lock'")
        open(f"{stage}/patch.diff", "w").write(diff)
        open(f"{stage}/demo.rs", "w").write(b["demo"].lstrip("\n"))
        open(f"{stage}/demo.sh", "w").write(DEMO_SH % dict(tool=TOOL % TOOLS[b["tool"]] if b["tool"] else ""))
        if b["plain"]:  # a build without overflow checks, as release builds are
            text = open(f"{stage}/demo.sh").read().replace(" -C overflow-checks=on", "")
            open(f"{stage}/demo.sh", "w").write(text)
        os.chmod(f"{stage}/demo.sh", 0o755)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(f"{stage}/meta.json", "w"), indent=1)
        rc0, o0 = sh(f"cd {LAB}/clean && bash {stage}/demo.sh", 300)
        if rc0 != 0: return f"DEMO fails on clean tree rc={rc0}: {o0[-700:]}"
        rc1, o1 = sh(f"cd {d}/repo && bash {stage}/demo.sh", 300)
        if rc1 == 0: return "DEMO passes with the bug"
        if rc1 == 3: return f"BUG does not compile: {o1[-900:]}"
        ok, why = tests_pass(d)
        if not ok: return f"TESTS: {why}"
        os.makedirs("/verif/seeded", exist_ok=True)
        if os.path.exists(s): shutil.rmtree(s)
        shutil.copytree(stage, s)
    res = []
    for p in [b["prop"]] + b["also"]:
        hit, rc, info, secs = check(d, p, tier)
        res.append(f"{'CAUGHT' if hit else 'MISSED'} {p} rc={rc} {secs:.0f}s {info}")
    sh(f"git -C {d}/repo checkout -q -- .")
    return " || ".join(res)

def main():
    a = sys.argv[1:]
    jobs = int(a[a.index("-j") + 1]) if "-j" in a else 3
    only = a[a.index("--only") + 1].split(",") if "--only" in a else None
    tier = a[a.index("--tier") + 1] if "--tier" in a else "quick"
    recheck = "--recheck" in a or a[0] == "ALL"
    if a[0] == "ALL":
        for i in sorted(os.listdir("/verif/seeded")):
            m = json.load(open(f"/verif/seeded/{i}/meta.json"))
            BUGS[i] = dict(id=i, prop=m["property"], also=[])
    else:
        exec(compile(open(a[0]).read(), a[0], "exec"), {"bug": bug})
    os.makedirs(LAB, exist_ok=True)
    if not os.path.exists(f"{LAB}/clean"):
        sh(f"cp -a /repo {LAB}/clean")
    sh(f"git -C {LAB}/clean fetch -q /repo HEAD; git -C {LAB}/clean checkout -q -f FETCH_HEAD")
    q = queue.Queue()
    for i, b in BUGS.items():
        if only is None or i in only: q.put(b)
    lock = threading.Lock()
    def work(w):
        while True:
            try: b = q.get_nowait()
            except queue.Empty: return
            try: r = process(b, w, recheck, tier)
            except Exception as e: r = f"LAB ERROR {e!r}"
            with lock:
                print(f"{b['id']}: {r}", flush=True)
                open(f"{LAB}/results.log", "a").write(f"{b['id']}: {r}\n")
    ts = [threading.Thread(target=work, args=(w,)) for w in range(jobs)]
    [t.start() for t in ts]; [t.join() for t in ts]

main()
