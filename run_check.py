#!/usr/bin/env python3
"""Decides one property: builds the explorer against /repo's working tree, runs it, reports.

usage: run_check.py PROPERTY [quick|thorough]      (or --build: only build, for setup_cmd)

exit 0: held on everything explored; exit 1: VIOLATION line printed; anything else: error of the check.
"""
import glob
import json
import os
import re
import resource
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
MC = os.path.join(HERE, "mc")
TARGET = os.path.join(MC, "target")
# (name, cargo profile directory, cargo arguments)
VARIANTS = [
    ("plain", "release", ["--release"]),
    ("checked", "checked", ["--profile", "checked", "--features", "std"]),
]
# The build for C20, in which every basic-block edge counts as a step.
COST = os.path.join(TARGET, "cost")
COST_FLAGS = ["-Cpasses=sancov-module", "-Cllvm-args=-sanitizer-coverage-level=3",
              "-Cllvm-args=-sanitizer-coverage-trace-pc-guard"]
COST_WRAPPED = ["memmove", "memcpy", "memset", "memcmp", "bcmp"]
# Seconds each variant may explore. Reaching it is reported in the evidence, not a failure.
BUDGET = {"quick": {"plain": 300, "checked": 240}, "thorough": {"plain": 1500, "checked": 900}}
for _t, _s in (("quick", 300), ("thorough", 1500)):
    BUDGET[_t]["cost"] = _s
MEMORY = 22 << 30


def variants(prop):
    return ["cost"] if prop == "C20" else [v[0] for v in VARIANTS]


def executable(name):
    if name == "cost":
        return os.path.join(COST, host(), "release", "treena-mc")
    return os.path.join(TARGET, dict((n, d) for n, d, _ in VARIANTS)[name], "treena-mc")


def host():
    out = subprocess.run(["rustc", "-vV"], stdout=subprocess.PIPE, text=True, check=True).stdout
    return re.search(r"^host: (\S+)", out, re.M).group(1)


def call(cmd, what, env=None):
    r = subprocess.run(cmd, cwd=MC, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print(r.stdout[-6000:])
        print(f"CHECK-ERROR: cannot build the explorer ({what}) against /repo")
        sys.exit(2)


def build(names):
    for pat in ("*", os.path.join("*", "*", "*")):
        for d in glob.glob(os.path.join(TARGET, pat, ".fingerprint", "treena*")):
            shutil.rmtree(d, ignore_errors=True)
    env = dict(os.environ, CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE="true")
    env.pop("RUSTFLAGS", None)
    for name, _, args in VARIANTS:
        if name in names:
            call(["cargo", "build", "--offline", "--quiet"] + args, name, env)
    if "cost" in names:
        os.makedirs(COST, exist_ok=True)
        obj = os.path.join(COST, "cov.o")
        call(["cc", "-O2", "-c", "cov.c", "-o", obj], "cost")
        flags = COST_FLAGS + [f"-Clink-arg={obj}"] + [f"-Clink-arg=-Wl,--wrap={f}" for f in COST_WRAPPED]
        env = dict(env, CARGO_TARGET_DIR=COST, CARGO_ENCODED_RUSTFLAGS="\x1f".join(flags))
        call(["cargo", "build", "--offline", "--quiet", "--release", "--features", "cost", "--target", host()],
             "cost", env)


def known_findings():
    """Open findings: {key: (property, text)}. Lines 'fixed: ...' suppress nothing."""
    out = {}
    with open(os.path.join(HERE, "known_findings.txt")) as f:
        for line in f:
            m = re.match(r"open: property=(\S+) key=(\S+) (.*)", line)
            if m:
                out[m.group(2)] = (m.group(1), m.group(3).strip())
    return out


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run(cmd, timeout):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, preexec_fn=limits)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        p.kill()
        out, _ = p.communicate()
        return None, out


def triage(exe, prop, variant, crumbs, replays):
    """The explorer died. Finds a call that kills the process again when run alone."""
    for i in range(64):
        cmd = [exe, "triage", prop, crumbs, str(i), "--variant", variant, "--replay-dir", replays]
        codes = []
        path = None
        for _ in range(2):
            code, out = run(cmd, 60)
            m = re.search(r"^CRASH-REPLAY (.*)$", out, re.M)
            if m:
                path = m.group(1)
            codes.append(code)
        if 9 in codes:
            return None
        if path and all(c is not None and c < 0 for c in codes):
            return path
    return None


def main():
    if sys.argv[1:] == ["--build"]:
        build(["plain", "checked", "cost"])
        return 0
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in BUDGET:
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    start = time.time()
    evidence = os.path.join(HERE, "evidence")
    replays = os.path.join(HERE, "replays")
    os.makedirs(evidence, exist_ok=True)
    os.makedirs(replays, exist_ok=True)
    for old in glob.glob(os.path.join(replays, prop + "-*")):
        os.remove(old)
    known = {k: v for k, v in known_findings().items() if v[0] == prop}
    build(variants(prop))

    parts = []
    violations = []
    for name in variants(prop):
        exe = executable(name)
        out = os.path.join(replays, f"{prop}-{name}.partial.json")
        crumbs = os.path.join(replays, f"{prop}-{name}.crumbs")
        budget = BUDGET[tier][name]
        cmd = [exe, "check", prop, "--tier", tier, "--variant", name, "--replay-dir", replays, "--out", out,
               "--known", ",".join(known), "--crumbs", crumbs, "--budget", str(budget)]
        code, text = run(cmd, budget + 120)
        sys.stdout.write("\n".join(l for l in text.splitlines() if not l.startswith("VIOLATION ")) + "\n")
        if code is not None and code < 0:
            path = triage(exe, prop, name, crumbs, replays)
            if path is None:
                print(f"CHECK-ERROR: the explorer ({name}) died by signal {-code}; not reproducible in a single call")
                return 2
            violations.append(path)
        elif code not in (0, 1):
            print(f"CHECK-ERROR: the explorer ({name}) ended with {code}")
            return 2
        if os.path.exists(out):
            with open(out) as f:
                part = json.load(f)
            parts.append(part)
            os.remove(out)
            for v in part["violations"]:
                violations.append(v.split("replay=", 1)[1])
        if os.path.exists(crumbs):
            os.remove(crumbs)
        if violations:
            break

    expl = [dict(e, variant=p["variant"]) for p in parts for e in p["explorations"]]
    samples = []
    for e in expl:
        for s in e["samples"][:2]:
            samples.append(f"{e['variant']}/{e['name']}: {s}")
    shown = {}
    for p in parts:
        for k in p["known"]:
            shown.setdefault(k["key"], k)
    cov = {
        "states": sum(e["states"] for e in expl),
        "transitions": sum(e["transitions"] for e in expl),
        "traces_validated_against_impl": sum(e["traces_validated_against_impl"] for e in expl),
        "samples": samples[:24] or ["none: the run ended before any exploration finished"],
        "exhaustive": bool(expl) and all(e["exhaustive"] for e in expl) and not violations,
        "explorations": [{k: v for k, v in e.items() if k != "samples"} for e in expl],
        "meaning": "states: distinct concrete states of the real forest (or cases) explored; transitions: real calls "
                   "(or steps) executed and judged; traces_validated_against_impl: histories or programs replayed on "
                   "the real crate from an empty forest, without Forest::clone, that ended in the explored state",
    }
    doc = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": cov,
        "assumptions": [
            "bounds as listed per exploration; nothing is sampled, VERIF_SEED is not used",
            "state identity by 128-bit hash of the forest's Debug output and the model state",
        ],
        "wall_s": round(time.time() - start, 3),
        "violations": len(violations),
    }
    with open(os.path.join(evidence, prop + ".json"), "w") as f:
        json.dump(doc, f, indent=1)
        f.write("\n")
    for k, (_, text) in known.items():
        if k in shown:
            print(f"KNOWN-FINDING: property={prop} {text} [{shown[k]['count']} calls explored, e.g. `{shown[k]['example']}`]")
    if violations:
        print(f"VIOLATION property={prop} replay={violations[0]}")
        return 1
    print(f"{prop}: held on {cov['states']} states and {cov['transitions']} transitions in {doc['wall_s']} s")
    return 0


sys.exit(main())
