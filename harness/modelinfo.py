"""P14: every description of a model that ModelInfo.tla enumerates, given to the real class."""
import core
import tlc
from core import at

VARS = ["R1", "R2", "R3", "V1", "V2", "V3", "D1", "D2", "D3"]


def check(x):
    from aemcmc.utils import ModelInfo

    desc, want = x["desc"], x["want"]
    srng = at.random.RandomStream(0)
    v = {n: srng.normal(0, 1) for n in ("R1", "R2", "R3")}
    v.update({n: at.scalar() for n in ("V1", "V2", "V3")})
    v["D1"], v["D2"], v["D3"] = at.exp(v["R1"]), at.sqr(v["R2"]), v["R1"] + v["R2"]
    ids = {}
    for n in VARS:
        nm = desc["naming"][n]
        # no name at all, or an empty one
        v[n].name = n if nm == "own" else (nm if nm else (None if n in ("R2", "V1") else ""))
        ids[v[n]] = n
    obs = tuple(v[n] for n in desc["obs"])
    r2v = {v[n]: v["V" + n[1]] for n in desc["keys"]}
    dets = tuple(v[n] for n in desc["dets"])
    before = dict(r2v)
    try:
        m = ModelInfo(obs, r2v, dets) if dets else ModelInfo(obs, r2v)
        bad = None
    except Exception as e:
        m, bad = None, e
    if (bad is None) != (not want["faults"]):
        return f"the description is {'accepted' if bad is None else f'rejected ({bad!r})'}; what is wrong with it: {want['faults']}"
    if bad is not None and "missing" not in want["faults"] and not isinstance(bad, ValueError):
        return f"the description is rejected with {bad!r} instead of a ValueError"
    if m is None:
        return None
    if r2v != before or m.rvs_to_values is not r2v and m.rvs_to_values != r2v:
        return "the map of values was changed"
    for f in ("observed_rvs", "unobserved_rvs", "observed_values", "unobserved_values", "deterministic_vars"):
        have = [ids.get(y) for y in getattr(m, f)]
        if not isinstance(getattr(m, f), tuple) or have != list(want[f]):
            return f"{f} is {have}, not {want[f]}"
    have = sorted([ids.get(k), ids.get(y)] for k, y in m.values_to_rvs.items())
    if have != sorted(map(list, want["values_to_rvs"])):
        return f"values_to_rvs is {have}"
    have = sorted([k, ids.get(y)] for k, y in m.names_to_vars.items())
    if have != sorted(map(list, want["names_to_vars"])):
        return f"names_to_vars is {have}, not {want['names_to_vars']}"
    if m.updates != {}:
        return "a new description has updates"
    # descriptions are immutable and don't share their updates
    try:
        m.observed_rvs = ()
        return "a description can be altered"
    except AttributeError:
        pass
    m2 = ModelInfo(obs, r2v, dets)
    m2.updates[v["V1"]] = v["V2"]
    if m.updates != {}:
        return "descriptions share their updates"
    upd = {v["V3"]: v["V3"] + 1}
    if ModelInfo(obs, r2v, dets, upd).updates != upd:
        return "the given updates are not kept"
    return None


def chunk(xs):
    res = []
    for x in xs:
        try:
            e = check(x)
        except Exception as ex:
            e = f"{type(ex).__name__}: {ex}"
        if e:
            res.append((x, e))
    return res


def run(prop, tier, seed, rep):
    import sampler_checks

    core.load()
    dev = 1 if tier == "quick" else 2
    res, st, rc, out = tlc.run("ModelInfo", f"INIT Init\nNEXT Next\nINVARIANT Consistent\nCONSTANT MaxDev = {dev}\n", workers=8)
    if rc or not res:
        raise tlc.MachineryError("TLC failed on ModelInfo:\n" + out[-3000:])
    rep.stats(st)
    rep.cov["traces_validated_against_impl"] = len(res)
    rep.cov["descriptions_accepted"] = sum(not x["want"]["faults"] for x in res)
    for v in ("missing", "unnamed", "duplicate"):
        rep.cov["descriptions_" + v] = sum(v in x["want"]["faults"] for x in res)
    rep.sample(res[0])
    rep.sample(res[-1])
    for bad in sampler_checks.pool_map(chunk, [res[i::8] for i in range(8)]):
        for x, e in bad:
            d = x["desc"]
            rep.violation("-".join(d["keys"]) + "|" + "-".join(d["obs"]) + "|" + "-".join(d["dets"]), e, x)
    rep.assumptions = ["at most three random variables and three deterministic ones"]
