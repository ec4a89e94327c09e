"""Run TLC on the specification."""
import json
import os
import re
import subprocess
import sys

import core

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TLA = "/opt/veriftools/tla"
_num = None
LEAN = os.environ.get("VCHECK_WORKERS")  # several checks at once, for experiments


class MachineryError(Exception):
    pass


def num_classes():
    global _num
    if _num is None and os.environ.get("VCHECK_CLASSES"):
        _num = os.environ["VCHECK_CLASSES"]
    if _num is None:
        d = os.path.join(core.SCRATCH, "classes")
        os.makedirs(d, exist_ok=True)
        subprocess.run(
            ["javac", "-cp", f"{TLA}/tla2tools.jar", "-d", d, f"{VERIF}/java/Num.java"], check=True
        )
        _num = d
    return _num


def run(module, cfg, env=None, workers=4, timeout=800, simulate=None):
    """Run TLC; returns (results, stats, output)."""
    work = os.path.join(core.SCRATCH, f"tlc-{module}-{os.getpid()}-{run.n}")
    run.n += 1
    os.makedirs(work)
    cfgp = os.path.join(work, module + ".cfg")
    with open(cfgp, "w") as f:
        f.write(cfg)
    e = dict(os.environ)
    e.update(env or {})
    cmd = [
        "java", *(["-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1"] if LEAN else ["-XX:+UseParallelGC"]), "-Xss64m", "-Xmx6g", f"-Djava.io.tmpdir={core.SCRATCH}",
        "-cp", f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar:{num_classes()}",
        f"-DTLA-Library={VERIF}/spec", "tlc2.TLC",
        "-workers", str(workers), "-deadlock", "-noGenerateSpecTE", "-metadir", os.path.join(work, "m"),
        "-config", cfgp,
    ]
    cmd.append(f"{VERIF}/spec/{module}.tla")
    p = subprocess.run(cmd, cwd=work, env=e, capture_output=True, text=True, timeout=timeout)
    out = p.stdout + p.stderr
    results = []
    for line in p.stdout.splitlines():
        if line.startswith('"RESULT '):
            results.append(json.loads(json.loads(line)[7:]))
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    stats = {"transitions": int(m.group(1)), "states": int(m.group(2))} if m else None
    return results, stats, p.returncode, out


run.n = 0


def validate(module, cases, shards=4, extra_cfg=""):
    """Check recorded cases against a trace specification; returns (verdicts by id, stats)."""
    if not cases:
        return {}, {"states": 0, "transitions": 0}
    shards = max(1, min(shards, len(cases), int(LEAN or 64)))
    import concurrent.futures as cf

    parts = [cases[i::shards] for i in range(shards)]
    num_classes()

    def one(k):
        path = os.path.join(core.SCRATCH, f"cases-{module}-{run.n}-{k}.json")
        with open(path, "w") as f:
            json.dump(parts[k], f)
        return run(module, "INIT Init\nNEXT Next\n" + extra_cfg, {"CASES": path}, workers=2)

    with cf.ThreadPoolExecutor(shards) as ex:
        rs = list(ex.map(one, range(shards)))
    res, st = {}, {"states": 0, "transitions": 0}
    again = []  # parts in which there is a behaviour that the specification can't evaluate
    for k, (results, stats, rc, out) in enumerate(rs):
        if stats is None or rc != 0:
            if "Attempted to" not in out and "error" not in out.lower():
                raise MachineryError(f"TLC failed on {module} (exit {rc}):\n" + out[-3000:])
            again.append((parts[k], out))
            continue
        for r in results:
            # of the behaviours of a case the one that got furthest counts
            old = res.get(r["id"])
            if old is None or (bool(r["errs"]), -r.get("prog", 0)) < (bool(old["errs"]), -old.get("prog", 0)):
                res[r["id"]] = r
        for k in st:
            st[k] += stats[k]
    if again:
        bad, out = min(again, key=lambda a: len(a[0]))

        def fails(some):
            path = os.path.join(core.SCRATCH, f"cases-{module}-{run.n}-some.json")
            with open(path, "w") as f:
                json.dump(some, f)
            _, stats, rc, out = run(module, "INIT Init\nNEXT Next\n" + extra_cfg, {"CASES": path}, workers=2)
            return out if stats is None or rc != 0 else None

        while len(bad) > 1:
            half = bad[:len(bad) // 2]
            bad = half if fails(half) else bad[len(half):]
        out = fails(bad)
        if out is None:
            raise MachineryError(f"TLC failed on {module}, but on none of its cases:\n" + again[0][1][-3000:])
        why = [x for x in out.splitlines() if "rror" in x or "Attempted" in x]
        res[bad[0]["id"]] = {"id": bad[0]["id"], "kfs": [], "prog": 0, "errs":
                             ["the specification has no meaning for this behaviour: " + " ".join(why[-2:])[:300]]}
        for part, _ in again:
            for c in part:  # not judged: there is a violation to look at already
                res.setdefault(c["id"], {"id": c["id"], "kfs": [], "prog": 0, "errs": []})
    missing = [c["id"] for c in cases if c["id"] not in res]
    if missing:
        raise MachineryError(f"TLC gave no verdict for {missing[:5]}")
    return res, st
