"""Runs the harnesses of one property through the symbolic executor (engine for the C++ simulator)."""
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

import build_ir

HERE = os.path.dirname(os.path.abspath(__file__))


def explore_all(bc, runs, jobs, seed):
    def one(r):
        spec = dict(r, bc=bc, seed=seed)
        lim = spec.get("budget_s", 600) + 120
        try:
            p = subprocess.run([sys.executable, os.path.join(HERE, "worker.py"), json.dumps(spec)],
                               capture_output=True, text=True, timeout=lim)
        except subprocess.TimeoutExpired:
            return dict(run=r["run"], error=f"worker exceeded {lim} s")
        try:
            return json.loads(p.stdout)
        except ValueError:
            return dict(run=r["run"], error=f"worker died rc={p.returncode}: {p.stderr[-400:]}")
    with ThreadPoolExecutor(jobs) as ex:
        return list(ex.map(one, sorted(runs, key=lambda r: -r.get("weight", 0))))


def native(exe, run, inputs, d, timeout=30, pre=()):
    fd, p = tempfile.mkstemp(dir=d, suffix=".in")
    with os.fdopen(fd, "w") as f:
        for k, v in inputs.items():
            f.write(f"{k} {float(v)!r}\n")
    try:
        r = subprocess.run([*pre, exe, run, p], capture_output=True, text=True, timeout=timeout,
                           env=dict(os.environ, OPENBLAS_NUM_THREADS="1") if pre else None)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return -99, "TIMEOUT"
    finally:
        os.unlink(p)


def norm(ident):
    return re.sub(r" \(.*\)$", "", ident)


def failed_ids(out):
    return [norm(x[7:]) for x in out.splitlines() if x.startswith("FAILED ")]


def confirm(exe, run, ident, inputs, d, rng):
    """Replays a counterexample natively. Returns (inputs, output) of a reproducing run, or None. When the
    solver's point itself does not reproduce (uninterpreted exp/log/pow/tanh took impossible values, or
    rounding), neighbouring points with the same discrete choices are tried."""
    memory = ident.startswith(("memory fault", "uncaught"))

    def bad(rc, out):
        if rc < 0 and rc != -99:
            return True
        return bool(failed_ids(out)) if not memory else rc != 0
    rc, out = native(exe, run, inputs, d)
    if bad(rc, out):
        return inputs, out
    if memory and shutil.which("valgrind"):     # an access outside of a block need not crash by itself
        rc, out = native(exe, run, inputs, d, 200, ["valgrind", "-q", "--error-exitcode=77", "--undef-value-errors=no", "--leak-check=no"])
        if rc == 77:
            return inputs, out + "FAILED " + ident + " (confirmed by valgrind)\n"
    for k in range(150):
        q = dict(inputs)
        for n, v in inputs.items():
            if isinstance(v, float) or n.startswith(("gauss#", "uniform#")):
                s = rng.choice([0.0, 0.01, 0.3, 1.0]) if k % 2 else 1.0
                if n.startswith("uniform#"):
                    q[n] = rng.random() if rng.random() < s else v
                elif n.startswith("gauss#"):
                    q[n] = rng.gauss(0, 1) if rng.random() < s else v
                elif abs(v) < 1e5:
                    q[n] = v + s * rng.uniform(-1, 1) * max(0.5, abs(v))
                else:
                    q[n] = rng.uniform(-1, 1)
        rc, out = native(exe, run, q, d)
        if bad(rc, out):
            return q, out
    return None


def check(rep, spec, tier, seed):
    """spec: harness (list of file names), runs [dict(run=, mode=, thorough=bool...)], bounds, assumptions."""
    rng = random.Random(seed)
    cpp = build_ir.CPP
    t0 = time.time()
    d, bc, allbc = build_ir.build([os.path.join(cpp, h) for h in spec["harness"]])
    try:
        runs = [r if tier == "thorough" else dict(r, **r.get("quick", {})) for r in spec["runs"]
                if tier == "thorough" or not r.get("thorough")]
        with ThreadPoolExecutor(1) as ex:
            nat = ex.submit(build_ir.build_native, d, allbc)
            res = explore_all(bc, runs, spec.get("jobs", 8), seed)
            exe = nat.result()
        build_s = time.time() - t0
        tot = dict(paths=0, queries=0, solver_s=0.0, asserts=0, proved=0, trivially_true=0)
        fns, samples, reached = set(), [], {}
        witnesses = mism = unrep = 0
        mism_l = []
        per = {}
        for r in res:
            name = r["run"]
            if r.get("error"):
                rep.errors.append(f"{name}: {r['error']}")
                if os.environ.get("VERIF_DEBUG"):
                    print(r.get("trace"))
            st = r.get("stats") or {}
            for k in tot:
                tot[k] += st.get(k, 0)
            per[name] = dict({k: (round(v, 2) if isinstance(v, float) else v) for k, v in st.items()},
                             wall_s=round(r.get("wall_s", 0), 2))
            fns |= set(r.get("functions") or [])
            samples += [dict(s, run=name) for s in (r.get("samples") or [])[:2]]
            for k, v in (r.get("reached") or {}).items():
                reached[name + ":" + k] = v
            if r.get("stats") and not r.get("error") and not (r.get("reached") or {}):
                rep.errors.append(f"{name}: no assertion reached (vacuous)")
            for u in sorted(set(r.get("unknowns") or [])):
                rep.errors.append(f"{name}: solver gave no answer for '{u}'")
            done = set()
            for ident, inputs in r.get("violations") or []:
                if ident in done:
                    continue
                c = confirm(exe, name, ident, inputs, d, rng)
                if c is None:
                    unrep += 1
                    rep.errors.append(f"{name}: counterexample to '{ident}' does not reproduce natively")
                    if os.environ.get("VERIF_DEBUG"):
                        print(name, ident, inputs)
                    continue
                done.add(ident)
                txt = "".join(f"{k} {float(v)!r}\n" for k, v in c[0].items())
                f = failed_ids(c[1])
                which = ident if ident in f or not f else f[0]
                rep.violate(name, which, f"# harness run_{name} in {spec['harness']}; native replay:\n"
                            + txt + "# output of the replay:\n" + "\n".join("# " + x for x in c[1].splitlines()))
            for w in (r.get("witnesses") or []):
                rc, out = native(exe, name, w["inputs"], d)
                witnesses += 1
                obs = [float(x.split()[-1]) for x in out.splitlines() if x.startswith("OBS ")]
                bad = rc != 0
                for a, b in zip(w["observed"], obs):
                    if a is not None and abs(a - b) > 2e-3 * max(1.0, abs(a), abs(b)):
                        bad = True
                if bad:
                    mism += 1
                    mism_l.append(f"{name}: {[x for x in out.splitlines() if x.startswith('FAILED')][:2]} "
                                  f"predicted {w['observed'][:6]} native {obs[:6]}")
                    if os.environ.get("VERIF_DEBUG"):
                        print(w["inputs"], out)
        if os.environ.get("VERIF_DEBUG"):
            for k, v in per.items():
                print(k, v)
            print("mismatches", mism_l)
        demangled = demangle(sorted(fns))
        rep.coverage.update(
            states=tot["paths"], transitions=tot["queries"], traces_validated_against_impl=witnesses - mism,
            samples=samples[:8] or [dict(note="all assertions simplified to true")],
            assertions_checked=tot["asserts"], assertions_proved=tot["proved"],
            assertions_trivially_true=tot["trivially_true"],
            solver_queries=tot["queries"], solver_s=round(tot["solver_s"], 2), harness_runs=len(res),
            functions_encoded=[x for x in demangled if "RPU::" in x][:400], functions_encoded_count=len(fns),
            witness_replays=witnesses, witness_mismatches=mism_l[:20], assertion_sites=len(reached), per_run=per,
            bounds=spec["bounds"], unreproduced_counterexamples=unrep, build_and_explore_s=round(build_s, 1))
        rep.assumptions = spec.get("assumptions", []) + [
            "floats are modelled as mathematical reals (runs marked mode=real), so rounding is outside the claim; runs "
            "marked mode=fp are exact IEEE (abstract=true: arithmetic results arbitrary)",
            "random draws are arbitrary values in their range (Gaussian |g|<=16), not distributions",
            "OpenMP off, CPU (not CUDA), single precision, the OpenBLAS calls modelled by their documented formulas",
            "clang 18 -O1 lowering of the sources; trusted: the IR executor in /verif/engine, z3 and cvc5"]
    finally:
        build_ir.clean(d)


def demangle(names):
    try:
        r = subprocess.run(["c++filt"], input="\n".join(names), capture_output=True, text=True)
        return [x[:200] for x in r.stdout.splitlines()]
    except OSError:
        return names
