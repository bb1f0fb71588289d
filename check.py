#!/usr/bin/env python3
"""Runs the explorers that decide one property.

  check.py ID [--tier quick|thorough]   build from /repo's working tree, explore, write evidence/ID.json
  check.py --replay FILE                re-run the failing cell recorded in FILE
  check.py --list                       what each property runs
  check.py --explorer NAME TIER [REGEX] run one explorer and print the time of each cell (development)

Exit status: 0 the property held on everything explored; 1 a violation (line VIOLATION property=ID
replay=FILE); anything else is an error of the check.
"""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
MC = os.path.join(HERE, "mc")
EVID = os.path.join(HERE, "evidence")
JOBS = os.cpu_count() or 8

sys.path.insert(0, HERE)
from explorers import EXPLORERS, PROPERTIES  # noqa: E402

FLAGS = ["-std=c++1y", "-O1", "-w", "-I" + REPO, "-I" + MC, "-I" + os.path.join(MC, "shim")]
LIBS = ["-lboost_coroutine", "-lboost_context", "-lboost_thread", "-lboost_system", "-lpthread"]
CELL_TIMEOUT = {"quick": 150, "thorough": 3000}
ALONE_TIMEOUT = {"quick": 300, "thorough": 6000}


class CheckError(Exception):
    pass


def build(names, bdir):
    """Compile the explorers from the current tree; returns {name: binary}."""
    jobs = []   # (object, command)
    objs = {}
    for n in names:
        e = EXPLORERS[n]
        flags = list(FLAGS)
        flags += e.get("flags", [])
        if e.get("asan"):
            flags += ["-fsanitize=address", "-g1"]
        objs[n] = []
        units = [(os.path.join(MC, "alloc.cc"), "")] + [(os.path.join(MC, s), d) for s, d in e["units"]]
        for i, (src, defs) in enumerate(units):
            o = os.path.join(bdir, f"{n}.{i}.o")
            objs[n].append(o)
            jobs.append((o, ["g++", *flags, *defs.split(), "-c", src, "-o", o]))
    # longest first: the units with the library
    jobs.sort(key=lambda j: "alloc.cc" in " ".join(j[1]))

    def one(job):
        p = subprocess.run(job[1], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return job, p.returncode, p.stdout

    with cf.ThreadPoolExecutor(JOBS) as ex:
        for job, rc, out in ex.map(one, jobs):
            if rc != 0:
                raise CheckError("compilation failed: " + " ".join(job[1]) + "\n" + out[:6000])
    bins = {}
    for n in names:
        e = EXPLORERS[n]
        b = os.path.join(bdir, n)
        cmd = ["g++"] + (["-fsanitize=address"] if e.get("asan") else []) + objs[n] + ["-o", b] + LIBS
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise CheckError("link failed\n" + p.stdout[:6000])
        bins[n] = b
    return bins


def list_cells(binary, tier, select):
    p = subprocess.run([binary, "--list", tier], stdout=subprocess.PIPE, text=True, timeout=120)
    if p.returncode != 0:
        raise CheckError("listing the cells of %s failed" % binary)
    return [c for c in p.stdout.splitlines() if c and (not select or re.search(select, c))]


def run_cell(binary, cell, timeout):
    """-> ('ok', result) | ('fail', text) | ('hang', text) | ('error', text)"""
    t0 = time.time()
    try:
        p = subprocess.run([binary, "--cell", cell], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=timeout, cwd="/", env={"PATH": "/usr/bin:/bin", "LC_ALL": "C"})
    except subprocess.TimeoutExpired as e:
        return "hang", "no end after %d s" % timeout
    err = p.stderr.decode("utf-8", "replace")
    if p.returncode == 0:
        try:
            r = json.loads(p.stdout.decode())
        except ValueError:
            return "error", "unreadable result of cell " + cell
        r["wall"] = time.time() - t0
        return "ok", r
    if p.returncode in (77, 78, 79):
        return "error", "cell %s: exit %d: %s" % (cell, p.returncode, err[-2000:])
    if p.returncode == -9:
        return "error", "cell %s was killed (memory?)" % cell
    return "fail", "exit %d\n%s" % (p.returncode, err[:6000])


def brief(text):
    m = [l for l in text.splitlines() if l.startswith(("MC-FAIL", "MC-WHERE")) or "Assertion" in l or "terminate" in l
         or "what():" in l]
    return " | ".join(m[:4])[:1500] if m else text[:500].replace("\n", " ")


def known_findings():
    with open(os.path.join(HERE, "known_findings.json")) as f:
        return {k["id"]: k for k in json.load(f)["findings"] if k["status"] == "known"}


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = PROPERTIES[prop]
    os.makedirs(EVID, exist_ok=True)
    bdir = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    violation = None
    results = []
    known_seen = {}
    try:
        runs = [r for r in spec["runs"] if r.get("tier", tier) == tier]
        names = [r["explorer"] for r in runs]
        bins = build(sorted(set(names)), bdir)
        t_build = time.time() - t0
        work = []
        for r in runs:
            for c in list_cells(bins[r["explorer"]], tier, r.get("select")):
                work.append((r["explorer"], c))
        if not work:
            raise CheckError("no cell to run")
        kf = known_findings()
        timeout = CELL_TIMEOUT[tier]
        while work and violation is None:
            todo = []   # what is left when a cell seems not to end
            with cf.ThreadPoolExecutor(JOBS) as ex:
                futs = {ex.submit(run_cell, bins[e], c, timeout): (e, c) for e, c in work}
                for f in cf.as_completed(futs):
                    e, c = futs[f]
                    if f.cancelled():
                        todo.append((e, c))
                        continue
                    kind, r = f.result()
                    if kind == "ok":
                        results.append((e, r))
                        for k in r["known"]:
                            if k in kf and kf[k]["property"] == prop:
                                known_seen[k] = kf[k]
                            elif violation is None:
                                violation = (e, c, "fail", "defect not listed as known: " + k)
                    elif kind == "error":
                        raise CheckError(r)
                    elif kind == "hang":
                        todo.insert(0, (e, c))
                    elif violation is None:
                        violation = (e, c, kind, r)
                    if violation is not None or todo:
                        for g in futs:
                            g.cancel()
            work = todo
            if work and violation is None:
                # a slow machine, or a computation that does not end: run the cell alone
                e, c = work.pop(0)
                timeout = ALONE_TIMEOUT[tier]
                kind, r = run_cell(bins[e], c, timeout)
                if kind == "ok":
                    results.append((e, r))
                elif kind == "error":
                    raise CheckError(r)
                else:
                    violation = (e, c, kind, r)
        if violation is not None and violation[2] == "fail" and not violation[3].startswith("defect not listed"):
            # replay before report
            e, c, kind, text = violation
            kind2, text2 = run_cell(bins[e], c, ALONE_TIMEOUT[tier])
            if kind2 == "ok":
                raise CheckError("cell %s failed once and passed when replayed: %s" % (c, brief(text)))
            if kind2 == "error":
                raise CheckError(text2)
            violation = (e, c, kind2, text2)
    finally:
        shutil.rmtree(bdir, ignore_errors=True)

    states = sum(r["states"] for _, r in results)
    trans = sum(r["transitions"] for _, r in results)
    val = sum(r["validated"] for _, r in results)
    samples = []
    for _, r in sorted(results, key=lambda x: x[1]["cell"]):
        if r["samples"] and len(samples) < 12:
            samples.append(r["cell"] + ": " + r["samples"][0])
    extra = {}
    for _, r in results:
        for k, v in r["extra"].items():
            extra[k] = extra.get(k, 0) + v
    cov = {"states": states, "transitions": trans, "traces_validated_against_impl": val,
           "cells_run": len(results), "samples": samples or ["no cell completed"],
           "exhaustive": violation is None,
           "bounds": spec["bounds"],
           "distinct_outcomes": sum(r["outcomes"] for _, r in results),
           "build_s": round(t_build, 1)}
    cov.update({"count_" + k: v for k, v in sorted(extra.items())})
    if spec["level"] == "fault_enumeration":
        cov["evaluations"] = trans
        cov["distinct_nontrivial"] = extra.get("faults_hit", states)
        cov["rule"] = spec.get("rule", "")
    ev = {"property": prop, "tier": tier, "seed": seed, "level": spec["level"], "coverage": cov,
          "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2),
          "violations": 0 if violation is None else 1}
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for k, d in sorted(known_seen.items()):
        print("KNOWN-FINDING: property=%s %s" % (prop, d["what"]))
    if violation is not None:
        e, c, kind, text = violation
        path = os.path.join(EVID, "replay_%s.json" % prop)
        with open(path, "w") as f:
            json.dump({"property": prop, "explorer": e, "cell": c, "kind": kind, "message": text,
                       "how": "python3 /verif/check.py --replay " + path}, f, indent=1)
        print("cell %s: %s: %s" % (c, kind, brief(text)))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("%s %s: held; %d cells, %d states, %d transitions, %d comparisons with the model, %.0f s"
          % (prop, tier, len(results), states, trans, val, time.time() - t0))
    return 0


def replay(path):
    with open(path) as f:
        d = json.load(f)
    bdir = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        bins = build([d["explorer"]], bdir)
        kind, text = run_cell(bins[d["explorer"]], d["cell"], 900)
    finally:
        shutil.rmtree(bdir, ignore_errors=True)
    if kind == "ok":
        print("cell %s passes" % d["cell"])
        return 0
    print(text)
    return 1


def explorer(name, tier, select):
    bdir = tempfile.mkdtemp(prefix="verif-explorer-")
    bad = 0
    try:
        t0 = time.time()
        bins = build([name], bdir)
        print("build %.0f s" % (time.time() - t0))
        cells = list_cells(bins[name], tier, select)
        tot = [0, 0, 0.0]
        t0 = time.time()
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for c, (kind, r) in zip(cells, ex.map(lambda c: run_cell(bins[name], c, CELL_TIMEOUT[tier]), cells)):
                if kind == "ok":
                    tot[0] += r["states"]; tot[1] += r["transitions"]; tot[2] += r["wall"]
                    if len(cells) > 12 and r["wall"] < 6 and not r["known"]:
                        continue
                    print("%6.1f s %9d states %10d transitions %10d validated %6d outcomes  %s %s %s"
                          % (r["wall"], r["states"], r["transitions"], r["validated"], r["outcomes"], c, r["extra"] or "", r["known"] or ""))
                else:
                    bad += 1
                    
                    if bad <= 12: print("%s: %s: %s" % (c, kind, r[:1500]))
        print("run %.0f s, %d cells, %d bad, %d states, %d transitions, %.0f s of cells" % (time.time() - t0, len(cells), bad, *tot))
    finally:
        shutil.rmtree(bdir, ignore_errors=True)
    return 1 if bad else 0


def main(argv):
    if argv and argv[0] == "--list":
        for p, s in sorted(PROPERTIES.items()):
            print(p, s["level"], [r["explorer"] + (":" + r["select"] if r.get("select") else "") for r in s["runs"]])
        return 0
    if argv and argv[0] == "--replay":
        return replay(argv[1])
    if argv and argv[0] == "--explorer":
        return explorer(argv[1], argv[2], argv[3] if len(argv) > 3 else None)
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    try:
        return check(prop, tier)
    except CheckError as e:
        print("ERROR %s: %s" % (prop, e), file=sys.stderr)
        return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
