"""Runs the harnesses of one property through the symbolic PyTorch executor."""
import json
import os
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))


def one(spec):
    lim = spec.get("budget_s", 300) + 180
    try:
        p = subprocess.run([sys.executable, "-B", os.path.join(HERE, "pyworker.py"), json.dumps(spec)],
                           capture_output=True, text=True, timeout=lim)
    except subprocess.TimeoutExpired:
        return dict(run=spec["name"], error=f"worker exceeded {lim} s")
    try:
        return dict(json.loads(p.stdout), run=spec["name"])
    except ValueError:
        return dict(run=spec["name"], error=f"worker died rc={p.returncode}: {p.stderr[-400:]}")


def check(rep, spec, tier, seed):
    """spec: harness (module in py/) or runs with their own, runs [name or dict(run=, thorough=)], bounds, assumptions"""
    runs = []
    for r in spec["runs"]:
        r = dict(run=r) if isinstance(r, str) else dict(r)
        if r.pop("thorough", False) and tier != "thorough":
            continue
        r.setdefault("harness", spec["harness"])
        r["seed"] = seed
        r["name"] = r["run"] + "".join(f" {k}={v}" for k, v in (r.get("fix") or {}).items())
        runs.append(r)
    t0 = time.time()
    with ThreadPoolExecutor(spec.get("jobs", 8)) as ex:
        res = list(ex.map(one, sorted(runs, key=lambda r: -r.get("weight", 0))))
    tot = dict(paths=0, queries=0, solver_s=0.0, asserts=0, proved=0, trivially_true=0)
    fns, ops, samples, per, mism_l, reached = set(), set(), [], {}, [], 0
    wit = unrep = 0
    for r in res:
        name = r["run"]
        if r.get("error"):
            rep.errors.append(f"{name}: {r['error']}")
            if os.environ.get("VERIF_DEBUG"):
                print(r.get("trace"))
        st = r.get("stats") or {}
        for k in tot:
            tot[k] += st.get(k, 0)
        per[name] = dict({k: (round(v, 2) if isinstance(v, float) else v) for k, v in st.items()},
                         wall_s=round(r.get("wall_s", 0), 2))
        fns |= set(r.get("functions") or [])
        ops |= set(r.get("ops") or [])
        samples += [dict(s, run=name) for s in (r.get("samples") or [])[:2]]
        reached += len(r.get("reached") or {})
        if not r.get("error") and not r.get("reached") and not r.get("violations"):
            rep.errors.append(f"{name}: no assertion reached (vacuous)")
        for u in sorted(set(r.get("unknowns") or [])):
            rep.errors.append(f"{name}: solver gave no answer for '{u}'")
        for ident, inputs in r.get("unreproduced") or []:
            unrep += 1
            rep.errors.append(f"{name}: counterexample to '{ident}' does not reproduce with concrete values")
            if os.environ.get("VERIF_DEBUG"):
                print(name, ident, inputs)
        for ident, inputs, failed in r.get("violations") or []:
            txt = "".join(f"{k} {v!r}\n" for k, v in inputs.items())
            rep.violate(name, ident.split(" (")[0], f"# harness run {name} in py/{spec['harness']}.py; concrete replay on the real "
                        "code with these inputs:\n" + txt + "# failed:\n" + "\n".join("# " + f for f in failed[:10]))
        wit += r.get("witness_replays", 0)
        for m in r.get("witness_mismatches") or []:
            mism_l.append(f"{name}: {str(m)[:300]}")
            if os.environ.get("VERIF_DEBUG"):
                print("MISMATCH", name, m)
    if os.environ.get("VERIF_DEBUG"):
        for k, v in per.items():
            print(k, v)
    c = rep.coverage
    add = dict(states=tot["paths"], transitions=tot["queries"], traces_validated_against_impl=wit - len(mism_l),
               assertions_checked=tot["asserts"], assertions_proved=tot["proved"],
               assertions_trivially_true=tot["trivially_true"], solver_queries=tot["queries"],
               solver_s=round(tot["solver_s"], 2), harness_runs=len(res), witness_replays=wit,
               assertion_sites=reached, unreproduced_counterexamples=unrep)
    for k, v in add.items():
        c[k] = round(c.get(k, 0) + v, 2)
    c["samples"] = (c.get("samples", []) + samples)[:10] or [dict(note="all assertions simplified to true")]
    c["functions_encoded"] = c.get("functions_encoded", []) + sorted(fns)[:500]
    c["functions_encoded_count"] = c.get("functions_encoded_count", 0) + len(fns)
    c["aten_operators"] = sorted(ops)
    c["witness_mismatches"] = c.get("witness_mismatches", []) + mism_l[:20]
    c.setdefault("per_run", {}).update(per)
    c["bounds"] = (c.get("bounds", "") + " " + spec["bounds"]).strip()
    c["explore_s"] = round(time.time() - t0, 1)
    rep.assumptions = rep.assumptions + spec.get("assumptions", []) + [
        "tensor elements are modelled as mathematical reals, so floating-point rounding is outside the claim; exp, log, "
        "sqrt, tanh, pow are uninterpreted functions with basic facts (sign, monotonicity, special values)",
        "random draws are arbitrary values (uniform in [0,1), Gaussian unbounded), not distributions",
        "PyTorch's own operators mean what their documentation says (the symbolic operator table in engine/tsym.py, "
        "checked against real PyTorch by the witness replays); CPU only"]
