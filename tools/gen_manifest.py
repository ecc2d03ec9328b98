#!/usr/bin/env python3
"""Writes MANIFEST.json. Edit CLAIMED/NOTES here, then run it."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COMMON = ("Exhaustive within the stated bounds, on the real crate (plain and debug-assertion builds); trusts the small "
          "reference model in mc/src/model.rs and 128-bit state hashes. Says nothing beyond the bounds. ")
T_STATE = "explicit-state model checking of the real code against a reference model"
CLAIMED = {
 "C01": (T_STATE, "Every call of every form from every reachable state up to 5 creations (6 for non-panicking forms), all shapes to 8 nodes, parametric shapes to 66 000; oracle: the links read back form a proper forest."),
 "C02": (T_STATE, "Every creation/insertion/adoption from every reachable state; oracle: list model."),
 "C03": (T_STATE, "Every impossible or dead-id request from every reachable state; oracle: documented error table and unchanged state, plus every further call afterwards. Known finding: silent remove of dead ids."),
 "C04": (T_STATE, "Every detach form from every reachable state; oracle: list model."),
 "C05": (T_STATE, "Every removal form from every reachable state; oracle: list model and postorder."),
 "C06": ("explicit-state model checking with exhaustive fault injection (every callback panic point)", "Every panic point of every removal from every reachable state, then every further call."),
 "C07": (T_STATE, "Every call from every reachable state; oracle: ids distinct over the whole history, payload by tag."),
 "C08": (T_STATE, "Every interleaving of front and back steps of every depth-first traversal from every node; oracle: nested event list of the model."),
 "C09": (T_STATE, "Both breadth-first traversals from every node of every shape, with peeks, size hints and clones after every step; oracle: level order of the model."),
 "C10": (T_STATE, "Every interleaving of front and back steps of every neighbour iterator from every node; oracle: model lists."),
 "C12": (T_STATE, "Every builder program up to the length bound on three base forests; oracle: list model."),
 "C13": (T_STATE, "Every history of the closure compared across nine id types, and every creation form at every fill level near capacity; oracle: model, and NodeIdUsize."),
 "C11": (T_STATE, "Every tree clone form from every reachable state; oracle: list model, then every further call."),
 "C14": (T_STATE, "Every combination of payload texts and splittings into pieces on all small trees, every node of every reachable state and shape; oracle: the documented lines by the model, trailing blanks ignored."),
 "C15": (T_STATE + ", with every payload instance tracked", "Every call from every reachable state and every builder program; oracle: each payload is created, moved and dropped exactly once, and no call touches another's."),
 "C16": ("explicit-state model checking with exhaustive fault injection (every user callback and clone panic point)", "Every panic point of payload Clone, mapping callback and builder closure from every reachable state, then every further call."),
 "C17": (T_STATE + " in two call forms side by side", "Every query and call by forest and by handle from every reachable state, and sequences through one handle."),
 "C18": (T_STATE + ", original and clone side by side", "Every reachable state, its clone, clone_from, and every call (and pairs of calls) on either; oracle: the same history without the clone."),
 "C19": (T_STATE + " (all calls, all queries, panics and hangs judged)", "Every call form, query, iterator schedule, print into failing writers, builder program and fill level; broken states of other properties are explored on."),
 "C20": ("explicit-state exploration of the real code on exhaustively enumerated blown-up forests, every step counted by compiler instrumentation",
  "Every forest of up to 4 nodes, multiplied at every place and pair of places in seven ways, to two sizes; every query, iterator, change and builder; steps per unit of work must not grow between the sizes (at most 3 times and 24). Growth by less, such as a logarithmic factor, is not seen; library code that is not generic is counted only by the bytes it moves."),
}
NA = {}
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
for p in props:
    if p["id"] not in CLAIMED and p["id"] not in NA:
        NA[p["id"]] = "check not built yet"
doc = {
 "version": 1,
 "setup_cmd": "python3 run_check.py --build",
 "checks": [{"property": k, "quick_cmd": f"python3 run_check.py {k} quick", "thorough_cmd": f"python3 run_check.py {k} thorough",
             "technique": t, "level": "model_checking", "level_note": COMMON + n} for k, (t, n) in sorted(CLAIMED.items())],
 "not_applicable": [{"property": k, "reason": r} for k, r in sorted(NA.items())],
 "notes": "No hooks in /repo: the whole harness works through the public API. /repo carries six fix: commits, see known_findings.txt.",
}
for c in doc["checks"]:
    if c["property"] in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C11", "C19"):
        c["level_note"] += " Short rows of calls that return to the same forest are repeated up to 65600 times."
json.dump(doc, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
