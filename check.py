#!/usr/bin/env python3
"""check.py ID: decides one property against the current tree in /repo. Exit 0 held, 1 violated, 2 no answer."""
import os
import sys

ROOT = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
if os.path.exists(PY) and os.path.realpath(sys.prefix) != os.path.realpath("/opt/venv") and not os.environ.get("VERIF_REEXEC"):
    os.environ["VERIF_REEXEC"] = "1"
    os.execv(PY, [PY, "-B"] + sys.argv)
sys.dont_write_bytecode = True
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
for _k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[_k] = "1"
sys.path.insert(0, os.path.join(ROOT, "engine"))
sys.path.insert(0, os.path.join(ROOT, "props"))
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")


def main():
    import common
    import registry
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    rep = common.Report(pid, tier)
    spec = registry.REG[pid]
    try:
        if spec.get("cpp"):
            import cppcheck
            cppcheck.check(rep, spec["cpp"], tier, seed)
        if spec.get("py"):
            import pycheck
            pycheck.check(rep, spec["py"], tier, seed)
    except Exception as e:  # noqa: BLE001
        import traceback
        traceback.print_exc()
        rep.errors.append(f"{type(e).__name__}: {e}"[:500])
    return rep.finish()


if __name__ == "__main__":
    sys.exit(main())
