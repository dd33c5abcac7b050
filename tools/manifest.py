#!/usr/bin/env python3
"""Writes MANIFEST.json: one entry per property that has a check binary."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MC = "model_checking"
ENUM = "bounded exhaustive enumeration of executions of the real code, each step compared with a reference model"
BFS = "explicit-state exploration of the real implementation against a reference model"
T = {
 "C01": (MC, BFS, "Every event sequence of the stated alphabets up to the stated depth is encoded and decoded by the real coder and compared byte for byte with a big-integer reference coder; every short compressed byte string is decoded and re-encoded, which reaches all carry patterns; transfers are interrupted at every call. Trusts the reference coder and the finite alphabets of probabilities."),
 "C02": (MC, ENUM, "Length bound checked on every event sequence of the stated alphabets up to the stated depth; the ideal cost is computed in f64."),
 "C03": (MC, ENUM, "Round trip and length bound on every string of the stated families; larger alphabets are covered by structured families only."),
 "C04": (MC, BFS, "Every string of the stated families is a path of a prefix tree; predictions are compared between runs, between different continuations and under all interleavings of two predictors at bit granularity within the bound."),
 "C05": (MC, ENUM, "Cost limits on every repeated pattern, switch, source and return of the stated families and on every short string, against adaptive fixed-order codes computed independently; the limits carry a margin over what the current tree achieves."),
 "C06": (MC, BFS, "The three implementations and a fourth brute-force definition are run in lock step on every string of the stated alphabets, orders and shifts; saturation is reached by dedicated families."),
 "C07": (MC, BFS, "Every string of the stated alphabets and window sizes, compared at every bit with a scan of the window; explicit removals are interleaved in all ways within the bound; windows up to 70000 bytes are explored on structured families against an incremental counting model."),
 "C08": (MC, BFS, "Same exploration as C07 (large windows included), observing live node count, the tree's own integrity check, and the behaviour after shrinking to nothing."),
 "C09": (MC, BFS, "Same exploration as C07 (large windows included), against a model that keeps statistics per branching context."),
 "C10": (MC, BFS, "All operation sequences up to the depth on the real window against a queue; large windows are filled, slid, emptied and refilled with all pairs of boundary offsets compared."),
 "C11": (MC, BFS, "All operation sequences up to the depth on the real node pool against a map; large pools (beyond 65536 nodes) in structured orders."),
 "C12": (MC, BFS, "All bit histories up to the depth and all run-length patterns up to the cap against a list of bits."),
 "C13": (MC, ENUM, "Every table entry of the real tables against bit-by-bit training."),
 "C14": (MC, BFS, "Every packed estimator state (each prediction with each count) times both bits is executed, so one-step facts hold for every reachable state; sequence facts hold for all histories to the stated depth."),
 "C15": (MC, BFS, "All estimator states times both bits."),
 "C16": (MC, BFS, "All tracker states times all costs by monotone decomposition, plus sequences."),
 "C17": (MC, ENUM, "Whole input domains, compared with f64 evaluation."),
 "C18": (MC, ENUM, "Whole input domains, compared with f64 evaluation."),
 "C19": (MC, ENUM, "Boundary-dense operand grids for every type, compared with exact wide-integer arithmetic; a full operand product is out of reach."),
 "C20": (MC, BFS, "All step sequences over boundary alphabets to the stated depth on every mixer size, against wide-integer arithmetic."),
 "C21": (MC, BFS, "All step sequences over boundary alphabets to the stated depth, plus exhaustive one-step sweeps."),
 "C22": (MC, BFS, "All suffixes of bytes over boundary alphabets, all single bytes and all bit positions."),
 "C23": (MC, ENUM, "All dimension vectors up to the bound with every sub-index tuple; all quantiser inputs."),
 "C24": (MC, BFS, "All operation sequences to the depth on the real kits, against stand-alone estimators, mixers and maps."),
 "C25": (MC, ENUM, "Tool output recomputed through the library for every file of the stated families."),
 "C26": (MC, ENUM, "Tool output of the three sources compared for every file of the stated families, against a reference listing."),
 "C28": (MC, BFS, "All sequences of chains and outcomes to the depth, all pairs of contexts around class boundaries and whole-range sweeps on the real chain mixer, against one stand-alone mixer or estimator per class. Trusts the crate's mixers and estimators (C13, C14, C16, C20)."),
 "C29": (MC, ENUM, "Every bit of every file of the stated families compared with the stages run by hand (C28's chain model, C24's final-stage model, the tree source); every call after every legal prefix; far stages slide the ten-million-byte window. Inputs whose long-range structure matters are covered by the stated families only."),
 "C30": (MC, ENUM, "All 2^31 references of both kinds; boundary values of each node field; all bit histories to the depth on real nodes."),
 "C31": ("fault_enumeration", "exhaustive enumeration of the place and kind of every stream failure, on the real coder and tools", "Every byte of every code of the stated families is made the place where the sink or source fails, with every kind of failure; all wrong argument combinations of the tools."),
 "C32": (MC, "stateless exploration of all interleavings of operations of real instances, compared with solo runs", "Every interleaving of all operation words to the stated length on two instances of each kind, with creation and disposal; thread assignments and refusals enumerated; one thread stopped after every machine instruction of an operation while another performs whole operations. Two operations both stopped half way are not explored."),
 "C33": (MC, ENUM, "All 2368 experiments the simulation tool announces are repeated through the library and compared with its output; the benchmark's checksums are recomputed. Trusts the crate's estimator, tables and generator (C14, C17, C18, C27)."),
    "C34": (MC, "explicit exploration of all operation words, event sequences and strings to a bound in three builds of the real code, compared case by case", "All cases agree in all three builds (overflow checks and debug assertions; neither, optimised; neither, not optimised). Only the installed compiler and target."),
 "C27": (MC, ENUM, "Seed and key grids against an independent implementation of the published algorithm."),
}
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(f"{V}/harness/src/bin/{i.lower()}.rs"):
        lv, te, note = T[i]
        checks.append({"property": i, "quick_cmd": f"bash /verif/run.sh {i} quick",
            "thorough_cmd": f"bash /verif/run.sh {i} thorough",
            "technique": te, "level": lv, "level_note": note})
    else:
        na.append({"property": i, "reason": "planned; check not built yet"})
m = {"version": 1, "setup_cmd": "bash /verif/setup.sh",
     "hooks": {"guard": "none", "enable": "no hooks: the checks use the crate's public interface", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "bash /verif/run.sh <id> <tier> --replay <stage> <case> re-executes one case of a replay file."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks", len(na), "pending")
