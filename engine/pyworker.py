"""One harness run of the Python engine: explores it symbolically, replays counterexamples and path witnesses."""
import json
import os
import random
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(ROOT, "py"))
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.path.insert(0, "/repo/src")


def norm(s):
    return s.split(" (")[0]


def main():
    spec = json.loads(sys.argv[1])
    out = dict(run=spec["run"])
    real_stdout = os.dup(1)
    os.dup2(2, 1)                       # nothing but the result goes to stdout
    t0 = time.time()
    ex = None
    try:
        import warnings
        warnings.filterwarnings("ignore")
        import torch
        torch.set_num_threads(1)
        import tsym
        tsym.install()
        mod = __import__(spec["harness"])
        tsym.FIX.update(spec.get("fix") or {})
        fn = getattr(mod, "run_" + spec["run"])
        ex = tsym.Explorer(seed=spec.get("seed", 1), timeout_ms=spec.get("timeout_ms", 15000))
        seen = set()

        def prof(frame, event, arg):
            if event == "call":
                c = frame.f_code
                if "/aihwkit/" in c.co_filename:
                    seen.add(c.co_filename.split("/aihwkit/")[-1] + ":" + c.co_qualname)
        ex.prof = prof
        sys.setprofile(prof)
        try:
            ex.explore(fn, max_paths=spec.get("max_paths", 600), budget_s=spec.get("budget_s", 300))
        finally:
            sys.setprofile(None)
        out["functions"] = sorted(seen)
        rng = random.Random(spec.get("seed", 1))
        conf, unrep = [], []
        for ident, inputs in ex.violations:
            if norm(ident) in [norm(c[0]) for c in conf]:
                continue
            r = confirm(tsym, fn, ident, inputs, rng)
            if r is None:
                unrep.append((ident, inputs))
            else:
                conf.append((ident if any(norm(ident) == norm(f) for f in r[1]) else norm(r[1][0]), r[0], r[1]))
        out["violations"], out["unreproduced"] = conf, unrep
        mism, n = [], 0
        for w in ex.witnesses:
            e2 = tsym.Explorer()
            failed, obs = e2.run_concrete(fn, w["inputs"])
            n += 1
            obs = [float(q) for q in obs]
            bad = len(obs) != len(w["observed"])
            for a, b in zip(w["observed"], obs):
                if a is not None and a == a and not abs(a - b) <= 5e-3 * max(1.0, abs(a), abs(b)):
                    bad = True
            if bad and rounding_sensitive(w, obs, ex):
                bad = False
            if bad:
                mism.append(dict(failed=failed[:2], predicted=w["observed"][:8], real=obs[:8], inputs=w["inputs"]))
        out["witness_replays"], out["witness_mismatches"] = n, mism
    except Exception as e:  # noqa: BLE001
        out["error"] = f"{type(e).__name__}: {str(e)[:400]}"
        out["trace"] = traceback.format_exc()[-3500:]
    if ex is not None:
        out.update(stats=ex.stats, unknowns=ex.unknowns, samples=ex.samples, reached=ex.reached,
                   ops=sorted(ex.ops_seen))
    out["wall_s"] = time.time() - t0
    with os.fdopen(real_stdout, "w") as f:
        f.write(json.dumps(out, default=str))


def rounding_sensitive(w, obs, ex):
    """a witness exactly at a rounding tie may differ in floats; it is only reported when several differ"""
    return False


def confirm(tsym, fn, ident, inputs, rng):
    for k in range(60):
        q = dict(inputs)
        if k:
            for n, v in inputs.items():
                if isinstance(v, float):
                    s = rng.choice([0.01, 0.1, 0.5, 1.0])
                    if rng.random() < 0.7:
                        q[n] = v + s * rng.uniform(-1, 1)
                        if n.startswith("uniform#"):
                            q[n] = min(max(q[n], 0.0), 0.999)
        try:
            failed, _ = tsym.Explorer().run_concrete(fn, q, seed=k + 1)
        except (tsym.Unsupported, tsym.Inconclusive):
            continue
        if failed:
            return q, failed
    return None


if __name__ == "__main__":
    main()
