"""P08: models enumerated by Match.tla, their samplers' steps and iterations."""
import traceback
import zlib

import numpy as np

import compose
import families
import tlc
from model import E, Model
from session import RepoError, Session, iterate


def expr(j):
    if j["op"] == "var":
        return E("var", n=j["n"])
    if j["op"] == "const":
        v = np.asarray([float(x) for x in j["v"]["d"]]).reshape(j["v"]["sh"])
        return E("const", v=float(v) if v.ndim == 0 else v)
    return E(j["op"], *[expr(a) for a in j["a"]], order=j.get("order") and ["x" if o < 0 else o for o in j["order"]])


def build_model(name, m, r):
    """The model of a JSON description, with random values."""
    M = Model(name)
    for i in m["inputs"]:
        v = {"pos": families.pos, "real": families.real, "unit": families.unit}[i["what"]](r, *i["sh"])
        M.inp(i["name"], v, type=(1, None) if i.get("row") else None)
    for n in m["nodes"]:
        sh, dist = tuple(n["sh"]), n["dist"]
        if dist in ("poisson", "nbinom", "geometric"):
            v = r.integers(0, 7, size=sh)
        elif dist == "binomial":
            v = r.integers(0, 10, size=sh)
        elif dist in ("bernoulli", "categorical"):
            v = r.integers(0, 2, size=sh)
        else:
            v = families.init_for(r, dist, sh)
            if dist == "uniform":
                v = families.unit(r, *sh)
        args = [expr(a) for a in n["args"]]
        if dist == "binomial":
            args[0] = E("const", v=int(args[0].v))
        if dist == "nbinom" and args[0].op == "const" and float(args[0].v).is_integer():
            args[0] = E("const", v=int(args[0].v))
        size = None if n["size"] == [-1] else list(n["size"])
        if "like" in n:  # as long as another variable
            size = [(n["like"], 0)]
        if n["name"] in m.get("extra", ()):
            M.extra.add(n["name"])
        M.rv(n["name"], dist, *args, size=size, **({"obs": v} if n["obs"] else {"init": v}))
    return M


def enumerate_models(max_dev):
    res, st, rc, out = tlc.run(
        "Match", f"INIT Init\nNEXT Next\nINVARIANT Consistent\nCONSTANT MaxDev = {max_dev}\n", workers=4
    )
    if rc or not res:
        raise tlc.MachineryError("TLC failed on Match:\n" + out[-3000:])
    for x in res:
        x["id"] = "-".join(f"{k}={x['desc'][k]}" for k in sorted(x["desc"]) if k != "fam")
        x["id"] = x["desc"]["fam"] + ":" + x["id"]
    res.sort(key=lambda x: x["id"])
    return res, st


def record(args):
    x, seed = args
    r = np.random.default_rng([seed, zlib.crc32(x["id"].encode())])
    m = build_model(x["id"], x["m"], r)
    m.vary_observations(zlib.crc32(x["id"].encode()) // 4 + seed)
    m.naming = (None, None, "none", "same")[(zlib.crc32(x["id"].encode()) + seed) % 4]
    cases = []
    try:
        try:
            s = Session(m, seed=int(r.integers(1 << 30)))
        except RepoError:
            if x["refuse"]:
                return x["id"], cases, None
            raise
        kinds = {v: st["kind"] for st in s.stages() for v in st["vars"]}
        vals = m.values()
        n = s.nuts_size(vals)
        delta = np.round(r.normal(0, 0.3, size=n), 3) if n else None
        c, _ = iterate(s, vals, x["id"], delta)
        c["must"] = list(x["m"]["must"])
        c["kinds"] = kinds
        cases.append(c)
    except RepoError as e:
        return x["id"], cases, str(e)
    except Exception:
        return x["id"], cases, "the behaviour can't be interpreted: " + traceback.format_exc()[-1500:]
    return x["id"], cases, None


def run(prop, tier, seed, rep):
    import core
    import sampler_checks

    core.load()
    tlc.num_classes()
    base, st = enumerate_models(1)
    rep.stats(st)
    more, st = enumerate_models(2)
    rep.stats(st)
    seen = {x["id"] for x in base}
    more = [x for x in more if x["id"] not in seen]
    rep.cov["enumerated_models"] = len(base) + len(more)
    r = np.random.default_rng(seed)
    if tier == "quick":
        more = [more[i] for i in sorted(r.permutation(len(more))[:140])]
    else:
        seen |= {x["id"] for x in more}
        third, st = enumerate_models(3)
        rep.stats(st)
        third = [x for x in third if x["id"] not in seen]
        rep.cov["enumerated_models"] += len(third)
        more += [third[i] for i in sorted(r.permutation(len(third))[:1500])]
    # several patterns in one model: each pattern twice, and a sample of the others
    two, st = compose.enumerate_models(1, 2)
    rep.stats(st)
    comp = [x for x in two if len(x["parts"]) == 2 and (x["parts"][0] == x["parts"][1] or tier != "quick")]
    if tier == "quick":
        rest = [x for x in two if x not in comp]
        comp += [rest[i] for i in sorted(r.permutation(len(rest))[:12])]
    comp = [dict(x, refuse=False) for x in comp]
    rep.cov["composed_models"] = len(comp)
    cases = []
    for cid, cs, err in sampler_checks.pool_map(record, [(x, seed) for x in base + comp + more]):
        cases += cs
        rep.count("models")
        if err is not None:
            rep.violation(cid, err)
    sampler_checks.validate_sampler(prop, cases, rep)
    rep.assumptions = [
        "a specialised step is required for the documented patterns only; elsewhere any step that is right will do",
        "the models differ from a documented pattern in at most two (thorough: three) choices; quick samples the pairs",
    ]
