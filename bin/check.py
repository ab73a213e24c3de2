#!/usr/bin/env python3
"""check.py ID: decides one property on /repo's working tree.

Builds the instrumented executable (symbolic execution) and the native one (replay) from
/repo's sources, explores every harness of the property, replays what the solver found and
writes evidence/<ID>.json. Exit 0: held on everything explored, exploration complete.
Exit 1 + VIOLATION line: a counterexample that fails natively. Exit 2: no answer.
"""
import concurrent.futures
import fcntl
import json
import os
import re
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "engine"))
import gen  # noqa: E402

HARNESS = os.path.join(VERIF, "engine", "harness")
PYHARNESS = os.path.join(VERIF, "engine", "pyharness")
ASSUMPTIONS = [
    "Floating point arithmetic is idealised as exact real arithmetic on symbolic operands; purely "
    "concrete operations run as IEEE (coefficients beyond 128 bits are rounded as doubles). NaN and infinities occur as concrete values only. Assertions "
    "on computed quantities have a tolerance of 2e-4.",
    "exp and ln of symbolic operands are uninterpreted functions with sign, monotonicity, tangent and "
    "inverse axioms. Harnesses that depend on them end in _uf; a counterexample of such a harness that does not "
    "reproduce natively is an artefact of the axioms and is reported under undecided_abstractions, not as a result.",
    "Row counts, column counts, tree shapes and option settings are those of the harnesses; integers "
    "and control data are concrete on each path, structural choices are explored exhaustively.",
    "rand is replaced by a generator that may return any value at every draw (the same value for the "
    "same seed and position); rayon is the real crate with a one-thread pool.",
    "The instrumented code is rustc's unoptimised LLVM IR of /repo/src; the trusted base is rustc, the "
    "instrumentation (engine/instrument.py), the runtime (engine/symrt) and Z3.",
]

PY_ASSUMPTIONS = [
    "The Python layer runs in the real interpreter with the real numpy and pandas; its control flow is concrete on "
    "each path. Symbolic numbers are ordinary Python floats (tagged NaN payloads) that numpy and pandas copy; the bindings "
    "(py-forust/src/lib.rs) and the crate are instrumented, arithmetic of Python or numpy itself on symbolic numbers is not "
    "encoded (the package does none on the paths explored; a harness that met it would be inconclusive).",
    "pyo3's conversions between f32 and f64 are redirected to the runtime, and number parsing and printing of serde_json and of "
    "Python's repr/float carry symbolic numbers as tokens.",
]


def docs(pid):
    """Harness name -> its doc comment (what it explores and its bounds)."""
    mod = pid.lower()
    out = {}
    path = os.path.join(HARNESS, mod + ".rs")
    doc = []
    for line in open(path):
        s = line.strip()
        if s.startswith("///"):
            doc.append(s[3:].strip())
        elif s.startswith("#["):
            continue
        else:
            m = re.match(r"pub fn (\w+)\(\)", s)
            if m:
                out[f"{mod}::{m.group(1)}"] = " ".join(doc)
            doc = []
    return out


def main():
    t0 = time.time()
    pid = sys.argv[1]
    thorough = os.environ.get("VERIF_TIER", "quick") == "thorough" or "--thorough" in sys.argv
    if "--quick" in sys.argv:
        thorough = False
    tier = "thorough" if thorough else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    work = os.path.join(VERIF, "build")
    os.makedirs(work, exist_ok=True)
    lock = open(os.path.join(work, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    py = os.path.exists(os.path.join(PYHARNESS, pid.lower() + ".py"))
    unfit = {}
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        a = ex.submit(gen.build, work, False, py, unfit)
        b = ex.submit(gen.build, work, True, py)
        symx, replay = a.result(), b.result()
    link = json.load(open(os.path.join(work, "pysymx" if py else "symx", "link.json")))
    build_s = time.time() - t0
    if py:
        (symx, env), (replay, renv) = gen.py_command(symx), gen.py_command(replay)
        doc = json.loads(subprocess.run(symx + ["docs"], env=env, capture_output=True, text=True, check=True).stdout)
    else:
        symx, replay, env, renv = [symx], [replay], None, None
        doc = docs(pid)
    known = [k for k in json.load(open(os.path.join(VERIF, "known_findings.json")))["findings"]
             if k["property"] == pid and k.get("status") == "known"]
    known_h = {k["harness"]: k for k in known}
    names = [n for n in subprocess.run(symx + ["list"], env=env, capture_output=True, text=True, check=True).stdout.split()
             if n.startswith(pid.lower() + "::")]
    if not names:
        print(f"no harness for {pid}", file=sys.stderr)
        sys.exit(2)
    budget = (3600 if thorough else 780) - build_s
    results, hits, problems, violations, findings, undecided = [], set(), [], [], [], []
    validated = disagree = 0
    samples = []
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)

    def run_replay(harness, values, path):
        with open(path, "w") as f:
            f.write(f"harness {harness}\ntier {tier}\n" + "\n".join(values) + "\n")
        try:
            r = subprocess.run(replay + [path], env=renv, capture_output=True, text=True, timeout=60)
            return r.returncode, r.stdout.strip()
        except subprocess.TimeoutExpired:
            return 1, f"REPRODUCED harness={harness} the native run does not terminate within 60 s"

    def explore(n):
        left = budget - (time.time() - t0 - build_s)
        cmd = symx + ["run", n, "--jobs", "1" if py else "8", "--timeout", str(max(5, int(left))), "--max-found", "6"]
        if thorough:
            cmd.append("--thorough")
        try:
            return subprocess.run(cmd, env=env, capture_output=True, text=True, timeout=max(5, left) + 30)
        except subprocess.TimeoutExpired:
            return None

    # The Python interpreter runs one path at a time: there the harnesses run side by side.
    with concurrent.futures.ThreadPoolExecutor(8 if py else 1) as ex:
        runs = list(ex.map(explore, names))
    for n, p in zip(names, runs):
        if p is None:
            problems.append(f"{n}: no end within the time limit")
            continue
        try:
            r = json.loads(p.stdout.splitlines()[-1])
        except (ValueError, IndexError):
            problems.append(f"{n}: executor ended with {p.returncode}: {p.stderr[-300:]}")
            continue
        hits.update(r.pop("blocks"))
        found = r.pop("found")
        smp = r.pop("samples")
        results.append(r)
        if found:
            ok = False
            notes = []
            kn = known_h.get(n)
            if kn and all(f["msg"] == kn["message"] for f in found):
                found = found[:1]
            elif kn:
                found, kn = [f for f in found if f["msg"] != kn["message"]], None
            for i, f in enumerate(found):
                for j, values in enumerate(f["models"]):
                    path = os.path.join(rdir, f"{pid}-{n.split('::')[1]}-{i}-{j}.txt")
                    rc, out = run_replay(n, values, path)
                    if rc == 1:
                        ok = True
                        if kn:
                            findings.append(kn["what"])
                            os.remove(path)
                        else:
                            violations.append((path, out))
                        break
                    notes.append(out)
                    os.remove(path)
                if ok:
                    break
            if not ok and n.endswith("_uf"):
                undecided.append(f"{n}: {found[0]['msg']}")
            elif not ok:
                problems.append(f"{n}: a counterexample of the solver does not reproduce natively "
                                f"({found[0]['msg']}; {notes[:1]})")
            continue
        if n in known_h:
            continue
        if not r["complete"] and n.endswith("_uf"):
            undecided.append(f"{n}: exploration incomplete")
        elif not r["complete"]:
            problems.append(f"{n}: exploration incomplete (timed_out={r['timed_out']}, "
                            f"unknown={r['unknown_sides']}, unsupported={r['unsupported']})")
        if r["paths"] == 0 or sum(r["asserts"].values()) == 0:
            problems.append(f"{n}: vacuous, no assertion was reached")
        for i, values in enumerate(smp):
            path = os.path.join(work, f"sample-{pid}.txt")
            rc, out = run_replay(n, values, path)
            validated += 1
            if rc != 0:
                disagree += 1
                print(f"note: {n}: a held path's sample behaves differently natively: {out}", file=sys.stderr)
            if i < 2:
                samples.append({"harness": n, "values": values[:60], "native": out})

    total = {}
    for b in link["blocks"]:
        total[b] = total.get(b, 0) + 1
    hit = {}
    for i in hits:
        hit[link["blocks"][i]] = hit.get(link["blocks"][i], 0) + 1
    fns = [{"function": f, "blocks": total[f], "reached": hit[f]} for f in sorted(hit)]
    s = lambda k: sum(r[k] for r in results)  # noqa: E731
    complete = not problems
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": "Bounded symbolic execution of the repository's own code (LLVM IR generated by rustc from "
                           "/repo on this run). Each feasible path is a set of inputs described by a path "
                           "condition; at every assertion and every data-dependent branch Z3 decides which sides "
                           "are feasible, so a completed harness holds for all values within its bounds.",
            "harnesses": [{"name": r["harness"], "bounds": doc.get(r["harness"], ""),
                           "complete": r["complete"], "paths": r["paths"],
                           "queries": r["queries_sat"] + r["queries_unsat"] + r["queries_unknown"],
                           "solver_seconds": r["solver_seconds"], "wall_seconds": r["wall_seconds"],
                           "assertion_sites": len(r["asserts"]), "assertions_evaluated": sum(r["asserts"].values()),
                           "covers": r["covers"]} for r in results],
            "functions_encoded": fns,
            "paths": s("paths"), "branches": s("branches"),
            "queries_sat": s("queries_sat"), "queries_unsat": s("queries_unsat"),
            "queries_unknown": s("queries_unknown"), "unknown_left_open": s("unknown_sides"),
            "solver": "Z3 " + results[0]["solver"] if results else "", "solver_seconds": round(s("solver_seconds"), 3),
            "max_query_seconds": max([r["max_query_seconds"] for r in results], default=0),
            "complete_within_bounds": complete,
            "native_runs_of_solver_models": validated, "native_disagreements": disagree,
            "undecided_abstractions": undecided,
            "harnesses_that_do_not_fit_this_tree": sorted(f"{m}::{f}" for m, s in unfit.items() for f in (s or ["*"])
                                                          if m == pid.lower()),
            "rounded_coefficients": s("rounded_coefficients"),
            "samples": samples[:12], "build_seconds": round(build_s, 1), "problems": problems,
        },
        "assumptions": ASSUMPTIONS + (PY_ASSUMPTIONS if py else []),
        "wall_s": round(time.time() - t0, 2), "violations": len(violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for f in dict.fromkeys(findings):
        print(f"KNOWN-FINDING: property={pid} {f}")
    for path, out in violations:
        print(out)
        print(f"VIOLATION property={pid} replay={path}")
    for p in problems:
        print("inconclusive: " + p, file=sys.stderr)
    print(f"{pid} {tier}: {len(results)} harnesses, {s('paths')} paths, "
          f"{s('queries_sat') + s('queries_unsat')} queries, solver {s('solver_seconds'):.1f} s, "
          f"wall {time.time() - t0:.1f} s", file=sys.stderr)
    sys.exit(1 if violations else 2 if problems else 0)


if __name__ == "__main__":
    try:
        main()
    except (OSError, ValueError, KeyError, subprocess.SubprocessError) as e:
        # No answer is not a violation.
        print(f"inconclusive: {type(e).__name__}: {e}", file=sys.stderr)
        sys.exit(2)
