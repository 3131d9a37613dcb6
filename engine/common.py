"""Reporting shared by the checks: known findings, VIOLATION lines, evidence files, exit codes."""
import json
import os
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def known_findings(pid):
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == pid and k.get("status") == "known"]


def is_known(known, case, ident):
    for k in known:
        if k["case"] == case and k["assertion"] == ident:
            return k
    return None


class Report:
    """violations: confirmed ones, (case, assertion id, replay text). errors: reasons for an inconclusive run."""

    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.t0 = time.time()
        self.violations = []
        self.errors = []
        self.known_hit = []
        self.coverage = {}
        self.assumptions = []
        self.level = "model_checking"

    def violate(self, case, ident, text):
        k = is_known(known_findings(self.pid), case, ident)
        if k:
            if k not in self.known_hit:
                self.known_hit.append(k)
            return
        self.violations.append((case, ident, text))

    def finish(self):
        for k in self.known_hit:
            print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
        ev = dict(property=self.pid, tier=self.tier, seed=int(os.environ.get("VERIF_SEED", "1")), level=self.level,
                  coverage=self.coverage, assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                  violations=len(self.violations))
        if self.errors:
            ev["coverage"]["inconclusive"] = self.errors[:20]
        ed = os.path.join(ROOT, "evidence")
        os.makedirs(ed, exist_ok=True)
        with open(os.path.join(ed, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        rc = 0
        if self.violations:
            rd = os.path.join(ed, "replay")
            os.makedirs(rd, exist_ok=True)
            for n, (case, ident, text) in enumerate(self.violations[:5]):
                p = os.path.join(rd, f"{self.pid}_{n}.txt")
                with open(p, "w") as f:
                    f.write(f"# property {self.pid}, case {case}\n# violated: {ident}\n{text}\n")
                print(f"violated: [{case}] {ident}")
                print(f"VIOLATION property={self.pid} replay={p}")
            rc = 1
        elif self.errors:
            for e in self.errors[:20]:
                print("INCONCLUSIVE:", e)
            rc = 2
        else:
            c = self.coverage
            print(f"OK {self.pid} " + ", ".join(f"{k}={v}" for k, v in c.items() if isinstance(v, (int, float)))
                  + f", {ev['wall_s']} s")
        sys.stdout.flush()
        return rc
