"""The models that Compose.tla enumerates."""
import numpy as np

import matching
import tlc

_CACHE = {}


def enumerate_models(lo, hi):
    if (lo, hi) not in _CACHE:
        res, st, rc, out = tlc.run(
            "Compose", f"INIT Init\nNEXT Next\nINVARIANT WellFormed\nCONSTANTS MinLen = {lo} MaxLen = {hi}\n", workers=4)
        if rc or not res:
            raise tlc.MachineryError("TLC failed on Compose:\n" + out[-3000:])
        for x in res:
            x["id"] = "+".join(x["parts"]) + ("~" if x["link"] == "nuts" else "")
        res.sort(key=lambda x: x["id"])
        _CACHE[(lo, hi)] = (res, st)
    return _CACHE[(lo, hi)]


def sample(tier, seed, rep, pairs, triples):
    """All models of two parts, or a sample of them, and a sample of those of three."""
    r = np.random.default_rng([seed, 77])
    two, st = enumerate_models(1, 2)
    rep.stats(st)
    if pairs is not None and pairs < len(two):
        two = [two[i] for i in sorted(r.permutation(len(two))[:pairs])]
    three = []
    if triples:
        three, st = enumerate_models(3, 3)
        rep.stats(st)
        three = [three[i] for i in sorted(r.permutation(len(three))[:triples])]
    rep.count("composed_models", len(two) + len(three))
    return two + three


def model(x, r):
    return matching.build_model(x["id"], x["m"], r)
