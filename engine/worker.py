"""Explores one harness entry symbolically; prints a JSON report."""
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3  # noqa: E402

import llvm  # noqa: E402
import rt  # noqa: E402


def main():
    spec = json.loads(sys.argv[1])
    z3.set_param("memory_max_size", 3500)
    z3.set_param("smt.random_seed", spec.get("seed", 1))
    t0 = time.time()
    out = dict(run=spec["run"], mode=spec.get("mode", "real"), error=None)
    R = None
    try:
        m = llvm.Module(spec["bc"])
        R = rt.Runtime(m, mode=spec.get("mode", "real"), abstract=spec.get("abstract", False),
                       timeout_ms=spec.get("timeout_ms", 20000))
        R.pick = spec.get("pick") or {}
        if "merge" in spec:
            R.merge = spec["merge"]
        R.explore(None, "run_" + spec["run"], max_paths=spec.get("max_paths", 4000), budget_s=spec.get("budget_s", 600))
    except Exception as e:  # noqa: BLE001
        import traceback
        out["error"] = f"{type(e).__name__}: {e}"[:600]
        out["trace"] = traceback.format_exc()[-1500:]
    if R is not None:
        out.update(stats=R.stats, violations=R.violations, unknowns=R.unknowns, reached=R.reached,
                   samples=R.samples, functions=sorted(R.translated), witnesses=R.witnesses)
    out["wall_s"] = time.time() - t0
    json.dump(out, sys.stdout)


if __name__ == "__main__":
    main()
