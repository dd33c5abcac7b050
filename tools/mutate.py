#!/usr/bin/env python3
"""Mutation campaign: single-token changes of /repo/src, kept if they compile and pass the
existing tests, then judged by the checks that cover the file.

usage: mutate.py list > FILE | mutate.py run [-j N] [--no-asserts] [--from K] [--to K] [--stride S] [--files re]
Results: /tmp/seed/mut.jsonl (one line per mutant; finished mutants are skipped on restart).
A development tool only; works in private copies, see seedlab.py.
"""
import json, os, re, subprocess, sys, threading, queue, hashlib, importlib.util

spec = importlib.util.spec_from_file_location("seedlab", os.path.join(os.path.dirname(os.path.abspath(__file__)), "seedlab.py"))
src = open(spec.origin).read().replace("\nmain()\n", "\n")
lab = {}
exec(compile(src, spec.origin, "exec"), lab)
lab["LAB"] = "/tmp/mut"
OUT = "/tmp/mut/mut.jsonl"

MAP = [
    ("src/util/last_bytes", ["C22", "C24", "C29"]), ("src/util/indexer", ["C23", "C24", "C28"]),
    ("src/util/hash", ["C22"]), ("src/util/quantizers", ["C23", "C28"]),
    ("src/fixed_point/", ["C19", "C17", "C18", "C20", "C21", "C14", "C16"]),
    ("src/history/tree/nodes", ["C11", "C08"]), ("src/history/tree/node", ["C30", "C09", "C08"]),
    ("src/history/tree/direction", ["C30", "C08"]),
    ("src/history/tree/context", ["C07", "C06", "C08", "C09"]), ("src/history/tree/", ["C07", "C08", "C06", "C09", "C11", "C30"]),
    ("src/history/window", ["C10", "C07", "C08"]), ("src/history/fat_map", ["C06", "C26"]), ("src/history/naive", ["C06", "C26"]),
    ("src/history/mod", ["C06", "C26", "C28", "C07"]), ("src/history/state", ["C12", "C30", "C06", "C13"]),
    ("src/random", ["C27"]), ("src/bit", ["C30", "C19", "C20"]), ("src/mixing/mixer", ["C20", "C24"]), ("src/mixing/apm", ["C21", "C24"]),
    ("src/mixing/mod", ["C20", "C21"]), ("src/lut/log2", ["C18"]), ("src/lut/apm", ["C21"]), ("src/lut/cost", ["C18", "C16"]),
    ("src/lut/stretch", ["C17"]), ("src/lut/squash", ["C17"]), ("src/lut/estimator", ["C14", "C13", "C15"]), ("src/lut/mod", ["C13", "C14", "C17"]),
    ("src/predictor/single", ["C28", "C24"]), ("src/predictor/chain", ["C28", "C29"]), ("src/predictor/kits", ["C24", "C28"]),
    ("src/predictor/post_process", ["C24", "C29"]), ("src/predictor/stats", ["C25"]), ("src/predictor/mod", ["C29", "C25", "C03", "C04"]),
    ("src/main", ["C25"]), ("src/bin/print_histories", ["C26"]), ("src/coding", ["C01", "C02", "C03"]),
    ("src/estimators/cost", ["C16"]), ("src/estimators/dec", ["C14", "C13"]), ("src/estimators/fixed", ["C15"]), ("src/estimators/mod", ["C14", "C15"]),
]

SUBS = [
    (r"(?<![<=\-])<=(?!=)", ["<"]), (r"(?<![>=\-])>=(?!=)", [">"]), (r"(?<= )<(?= )", ["<=", ">"]), (r"(?<= )>(?= )", [">=", "<"]),
    (r"==", ["!="]), (r"!=(?!=)", ["=="]), (r"assert_eq!", ["assert_ne!"]), (r"assert_ne!", ["assert_eq!"]),
    (r"(?<= )\+(?= )", ["-"]), (r"(?<= )-(?= )", ["+"]), (r"(?<= )\+(?=$)", ["-"]), (r"(?<= )-(?=$)", ["+"]), (r"(?<= )\*(?= )", ["+"]), (r"(?<= )/(?= )", ["*"]),
    (r"\+=", ["-="]), (r"-=", ["+="]), (r"<<(?!=)", [">>"]), (r">>(?!=)(?= )", ["<<"]),
    (r"(?<= )&(?= )", ["|"]), (r"(?<= )\|(?= )", ["&"]), (r"(?<= )\^(?= )", ["|"]),
    (r"&&", ["||"]), (r"\|\|(?= [^{])", ["&&"]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
    (r"\bmin\(", ["max("]), (r"\bmax\(", ["min("]), (r"\bis_1\(", ["is_0("]), (r"\bis_0\(", ["is_1("]),
    (r"\.left\(", [".right("]), (r"\.right\(", [".left("]), (r"Left\b", ["Right"]), (r"Right\b", ["Left"]),
    (r"Bit::Zero", ["Bit::One"]), (r"Bit::One", ["Bit::Zero"]), (r"\bstationary\(", ["non_stationary("]), (r"non_stationary\(", ["stationary("]),
    (r"hash01", ["hash02"]), (r"hash02", ["hash03"]), (r"hash03", ["hash02"]), (r"last_bit_run_length", ["opposite_bit_run_length"]),
    (r"opposite_bit_run_length", ["last_bit_run_length"]), (r"\bif (?=[^l])", ["if !("]),
    (r"\bSome\((?=[a-z_]+\)$)", None), (r"wrapping_add", ["wrapping_sub"]), (r"wrapping_sub", ["wrapping_add"]), (r"saturating_", [""]),
    (r"scaled_down\(", ["floor_("]), (r"\.\.=", [".."]), (r"\.rev\(\)", [""]), (r"!(?=[a-z(]+[a-z_.(])(?<![a-z]!)", [""]),
]

def mutants():
    out = []
    for root, _, files in os.walk("/repo/src"):
        for f in sorted(files):
            p = os.path.join(root, f)
            rel = p[len("/repo/"):]
            if not f.endswith(".rs") or "bench_" in f or "entropy_" in f or rel == "src/lib.rs": continue
            lines = open(p).read().split("\n")
            cut = next((i for i, l in enumerate(lines) if "cfg(test)" in l), len(lines))
            for i, l in enumerate(lines[:cut]):
                if i < 17 or l.strip().startswith(("//", "use ", "pub use", "pub mod", "mod ", "#[", "extern")): continue
                code = l.split("//")[0]
                def add(s, e, r, what):
                    new = l[:s] + r + l[e:]
                    if new != l: out.append(dict(file=rel, line=i, new=new, old=l, what=what))
                for pat, reps in SUBS:
                    for m in re.finditer(pat, code):
                        if reps is None: continue
                        for r in reps:
                            if r == "if !(":
                                j = code.find("{", m.end())
                                if j < 0 or "let" in code[m.end():m.end() + 4]: continue
                                cond = code[m.end():j].rstrip()
                                add(m.start(), m.end() + len(cond), "if !(" + cond + ")", "negate")
                            elif r == "floor_(":
                                continue
                            else: add(m.start(), m.end(), r, pat)
                for m in re.finditer(r"(?<![\w.])(\d[\d_]*|0x[0-9a-fA-F_]+)(?![\w.\d])|(?<=\.\.)\d+", code):
                    t = m.group(0)
                    v = int(t.replace("_", ""), 0)
                    for nv in {v + 1, v - 1} if v > 0 else {1}:
                        add(m.start(), m.end(), str(nv), "const")
                    if v > 16: add(m.start(), m.end(), str(v // 2), "const/2")
                st = code.strip()
                if st.endswith(";") and not st.startswith(("let ", "pub ", "const ", "return", "}", ")", "use", "static", "type", "fn")):
                    opens = sum(code.count(c) for c in "([{"); closes = sum(code.count(c) for c in ")]}")
                    if opens == closes and (lines[i - 1].rstrip().endswith((";", "{", "}")) or lines[i - 1].strip() == ""):
                        add(0, len(l), "", "delete")
    for k, m in enumerate(out):
        m["id"] = hashlib.sha1((m["file"] + str(m["line"]) + m["old"] + m["new"]).encode()).hexdigest()[:10]
    return out

def checks(f):
    if "--checks" in sys.argv: return sys.argv[sys.argv.index("--checks") + 1].split(",")
    for pre, c in MAP:
        if f.startswith(pre): return c
    return []

def quick_tests(d):
    env = lab["TEST_ENV"]
    base = f"cd {d}/repo && env {env} CARGO_TARGET_DIR={d}/target timeout 400 cargo test --workspace --features long_tests --locked --offline -q"
    rc, out = lab["sh"](base + " --no-run 2>&1")
    if rc: return "nobuild"
    rc, out = lab["sh"](base + " -- --test-threads 2")
    return "pass" if rc == 0 else "killed"

def process(m, w, full):
    d = lab["worker_dir"](w)
    sh = lab["sh"]
    p = f"{d}/repo/{m['file']}"
    lines = open(p).read().split("\n")
    assert lines[m["line"]] == m["old"], "tree changed"
    lines[m["line"]] = m["new"]
    open(p, "w").write("\n".join(lines))
    # checks first: most changes are caught within seconds; only the rest need the tests
    res = dict(m, tests="", checks=[], caught=False)
    for c in checks(m["file"]):
        hit, rc, info, secs = lab["check"](d, c, "quick", "--skip far")
        res["checks"].append([c, hit, rc, info, round(secs)])
        if rc == 2 and "does not build" in info or rc == 2 and "do not build" in info: res["tests"] = "nobuild"; break
        if hit: res["caught"] = True; break
        if not res["tests"]:
            res["tests"] = quick_tests(d)
            if res["tests"] != "pass": break
    if not res["caught"] and not res["tests"]:
        res["tests"] = quick_tests(d)
    sh(f"git -C {d}/repo checkout -q -- .")
    return res

def main():
    a = sys.argv[1:]
    ms = mutants()
    def opt(n, dflt, f=int): return f(a[a.index(n) + 1]) if n in a else dflt
    ms = [m for m in ms if re.search(opt("--files", ".", str), m["file"])]
    if "--no-asserts" in a: ms = [m for m in ms if "assert" not in m["old"]]
    if a[0] == "list":
        for k, m in enumerate(ms): print(k, m["id"], m["file"], m["line"] + 1, m["what"], "|", m["old"].strip(), "=>", m["new"].strip())
        return
    os.makedirs("/tmp/mut", exist_ok=True)
    global OUT
    OUT = opt("--out", OUT, str)
    done = {}
    if os.path.exists(OUT):
        for l in open(OUT):
            x = json.loads(l); done[x["id"]] = x
    again = "--missed" in a
    q = queue.Queue()
    for m in ms[opt("--from", 0):opt("--to", len(ms)):opt("--stride", 1)]:
        x = done.get(m["id"])
        if x is None and not again or again and x and x["tests"] == "pass" and not x["caught"]: q.put(m)
    print(q.qsize(), "mutants")
    lock = threading.Lock()
    def work(w):
        while True:
            try: m = q.get_nowait()
            except queue.Empty: return
            try: r = process(m, w, False)
            except Exception as e: print("LAB", e, flush=True); continue
            with lock:
                open(OUT, "a").write(json.dumps(r) + "\n")
                if r["caught"] or r["tests"] == "pass":
                    print(("caught " if r["caught"] else "MISSED "), m["file"], m["line"] + 1, "|", m["old"].strip(), "=>", m["new"].strip(), "|", [x[:3] for x in r["checks"]], flush=True)
    ts = [threading.Thread(target=work, args=(w,)) for w in range(opt("-j", 3))]
    [t.start() for t in ts]; [t.join() for t in ts]

main()
