"""Model checking of the specification by itself, next to the checks of the code.

GibbsScan: a scan that SamplerTrace accepts leaves the joint invariant, the faulty plans don't.
Theory: the identities and densities that the oracles rest on.
A failure here is a fault of the machinery, never a violation."""
import copy
import threading

import tlc


def scan(k, w):
    res, st, rc, out = tlc.run(
        "GibbsScan",
        f"INIT Init\nNEXT Next\nINVARIANTS Conserved SerialIsInvariant EachStageIsInvariant\nCONSTANTS K = {k} W = {w}\n",
        workers=2)
    if rc or not res:
        raise tlc.MachineryError("GibbsScan:\n" + out[-3000:])
    faulty = {x["mode"] for x in res if x["mode"] != "serial" and not x["stationary"]}
    if faulty != {"stale", "skewed", "blind"}:
        raise tlc.MachineryError(f"GibbsScan: only {faulty} are refuted")
    return {"states": st["states"], "transitions": st["transitions"], "plans": len(res)}


def theory():
    res, st, rc, out = tlc.run("Theory", "INIT Init\nNEXT Next\nINVARIANT Holds\n", workers=2)
    if rc or res:
        raise tlc.MachineryError("Theory:\n" + out[-3000:])
    return {"states": st["states"], "transitions": st["transitions"], "facts": st["states"] // 2}


class Background:
    """Checks of the specification that run while the code is exercised."""

    def __init__(self, fs):
        tlc.num_classes()
        self.res, self.err = [], []
        self.ts = [threading.Thread(target=self._one, args=(f,)) for f in fs]
        for t in self.ts:
            t.start()

    def _one(self, f):
        try:
            self.res.append(f())
        except Exception as e:
            self.err.append(e)

    def join(self, rep):
        for t in self.ts:
            t.join()
        if self.err:
            raise self.err[0]
        for r in self.res:
            rep.stats(r)
            for k in r:
                if k not in ("states", "transitions"):
                    rep.count("design_" + k, r[k])


def scale(x, f):
    """A number (decimal string) times f."""
    try:
        return repr(float(x) * f)
    except ValueError:
        return x


def tampered(case):
    """Versions of a recorded iteration that no right sampler can have performed."""
    out = []

    def variant(how):
        c = copy.deepcopy(case)
        c["id"] = f"{case['id']}!{how}"
        out.append(c)
        return c

    lat = [v for st in case["stages"] for v in st["vars"]]
    if not lat:
        return out
    c = variant("parameters")
    for d in c["draws"]:
        for a in d["args"]:
            a["d"] = [scale(x, 1.001) for x in a["d"]]
    c["nuts"]["lf1"] = scale(c["nuts"]["lf1"], 1.001) + ("" if float(c["nuts"]["lf1"]) else "1")
    c = variant("results")
    for v in lat:
        c["outs"][v]["d"] = [scale(x, 1.001) for x in c["outs"][v]["d"]]
    c = variant("missing")
    c["stages"] = c["stages"][:-1]
    if len(case["stages"]) > 1:
        c = variant("twice")
        c["stages"] = c["stages"] + c["stages"][:1]
    return out


def self_test(module, cases, verdicts, rep, n):
    """How many tampered versions of accepted cases are rejected."""
    good = [c for c in cases if not verdicts[c["id"]]["errs"]]
    step = max(1, len(good) // n)
    bad = [t for c in good[::step][:n] for t in tampered(c)]
    if not bad:
        return
    vs, st = tlc.validate(module, bad, shards=4)
    rep.stats(st)
    rep.count("tampered_traces", len(bad))
    rep.count("tampered_traces_rejected", sum(bool(v["errs"]) for v in vs.values()))
    acc = [i for i, v in vs.items() if not v["errs"]]
    if acc:
        rep.cov["tampered_accepted"] = acc[:5]
