"""Reporting of a check: VIOLATION / KNOWN-FINDING lines, replays and the evidence file."""
import json
import os
import re
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def known_findings():
    res = {}
    with open(os.path.join(VERIF, "known-findings.txt")) as f:
        for line in f:
            m = re.match(r"known: property=(\S+) id=(\S+) (.*)", line)
            if m:
                res[(m.group(1), m.group(2))] = m.group(3).strip()
    return res


class Report:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.viol = []
        self.known = {}
        self.samples = []
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0}
        self.assumptions = []
        self.kf_all = known_findings()

    def violation(self, cid, what, payload=None):
        self.viol.append((cid, what, payload))
        if os.environ.get("VCHECK_FIRST"):  # stop at the first violation (for experiments)
            print(f"  case {cid}: {what}\nVIOLATION property={self.prop} replay=-", flush=True)
            import core

            core.cleanup()
            os._exit(1)

    def finding(self, kf, cid):
        """True when kf is listed (the caller's case is then accounted for, maybe by another property)."""
        if (self.prop, kf) in self.kf_all:
            self.known.setdefault(kf, []).append(cid)
        return any(k == kf for _, k in self.kf_all)

    def stats(self, st):
        for k in ("states", "transitions"):
            self.cov[k] += st[k]

    def count(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def sample(self, s):
        if len(self.samples) < 4:
            self.samples.append(s)

    def finish(self):
        for kf, cases in sorted(self.known.items()):
            print(f"KNOWN-FINDING: property={self.prop} {kf}: {self.kf_all[(self.prop, kf)]} "
                  f"({len(cases)} cases, e.g. {cases[0]})")
        ev = os.path.join(VERIF, "evidence")
        os.makedirs(os.path.join(ev, "replays"), exist_ok=True)
        for i, (cid, what, payload) in enumerate(self.viol[:5]):
            path = os.path.join(ev, "replays", f"{self.prop}-{i}.json")
            with open(path, "w") as f:
                json.dump({"property": self.prop, "tier": self.tier, "seed": self.seed, "case": cid,
                           "what": what, "trace": payload}, f, indent=1)
            print(f"  case {cid}: {what}")
            print(f"VIOLATION property={self.prop} replay={path}")
        if len(self.viol) > 5:
            print(f"  ... and {len(self.viol) - 5} more violations")
        cov = dict(self.cov)
        cov["samples"] = self.samples
        with open(os.path.join(ev, f"{self.prop}.json"), "w") as f:
            json.dump({"property": self.prop, "tier": self.tier, "seed": self.seed,
                       "level": "model_checking", "coverage": cov, "assumptions": self.assumptions,
                       "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol)}, f, indent=1)
        print(f"{self.prop} {self.tier}: {len(self.viol)} violations, "
              + ", ".join(f"{k}={v}" for k, v in cov.items() if isinstance(v, int))
              + f", {time.time() - self.t0:.1f} s")
        sys.stdout.flush()
        return 1 if self.viol else 0
