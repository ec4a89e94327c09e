"""P16: what a constructed sampler is made of (SamplerShape.tla), for the models of the other
checks and for all dependency graphs that Dags.tla enumerates, in both floating point types."""
import traceback
import zlib

import numpy as np

import core
import families
import matching
import sampler_checks
import tlc
from core import aesara
from session import RepoError, Session

ALL = (families.conj_models, families.horseshoe_models, families.regression_models,
       families.dispersion_models, families.composite_models, families.nuts_models)


def enumerate_dags(n):
    res, st, rc, out = tlc.run("Dags", f"INIT Init\nNEXT Next\nINVARIANT WellFormed\nCONSTANT N = {n}\n", workers=4)
    if rc or not res:
        raise tlc.MachineryError("TLC failed on Dags:\n" + out[-3000:])
    for x in res:
        x["id"] = f"dag{n}:{x['fl']}:" + "|".join(",".join(map(str, p)) for p in x["ps"]) + ":" + ",".join(map(str, x["obs"]))
    res.sort(key=lambda x: x["id"])
    return res, st


def names_in(e):
    return {e.n} if e.op == "var" else set().union(*[names_in(a) for a in e.a]) if e.a else set()


def typ(v):
    return [v.type.dtype, v.type.ndim]


def vtyp(v):
    return [str(v.dtype), [int(s) for s in v.shape]]


def record(job):
    cid, kind, payload, floatx, seed, tier, iters = job
    from aesara.compile.sharedvalue import SharedVariable
    from aesara.graph.basic import Constant, graph_inputs
    from aesara.tensor.random.op import RandomVariable

    from aemcmc.nuts import NUTSKernel

    r = np.random.default_rng([seed, zlib.crc32(cid.encode())])
    if kind == "family":
        m = ALL[payload[0]](np.random.default_rng(seed), tier)[payload[1]]
    else:
        m = matching.build_model(cid, payload, r)
    m.vary_observations(zlib.crc32(cid.encode()) // 4 + seed)
    with aesara.config.change_flags(floatX=floatx):
        if floatx != "float64":
            m.inputs = [(n, k, v.astype(floatx) if v.dtype == "float64" else v, t) for n, k, v, t in m.inputs]
        s = Session(m, seed=int(r.integers(1 << 30)))
        S = s.sampler
        names = {s.env[n]: n for n, *_ in m.nodes}
        name = lambda v: names.get(v, str(v))  # noqa: E731
        case = {
            "id": f"{cid}@{floatx}", "obs": list(m.obs), "calls": [],
            "nodes": [{"name": n, "deps": sorted(set().union(*[names_in(a) for a in args]) - {i[0] for i in m.inputs})}
                      for n, d, args, _ in m.nodes],
            "steps": [name(v) for v in S.sample_steps], "inits": [name(v) for v in s.init],
            "types": [{"name": n, "rv": typ(s.env[n]), "init": typ(s.init[s.env[n]]), "step": typ(S.sample_steps[s.env[n]])} for n in s.lat],
            "stages": [], "params": [],
        }
        for op, vs in S.stages.items():
            kernels = {S.sample_steps[v].owner.op for v in vs if S.sample_steps[v].owner is not None}
            case["stages"].append({"vars": [name(v) for v in vs], "kind": "nuts" if isinstance(op, NUTSKernel) else "gibbs",
                                   "key": "same", "kernel": "same" if kernels == {op} else "other"})
        for op, ps in S.parameters.items():
            case["params"].append({"key": "nuts" if isinstance(op, NUTSKernel) and op in S.stages else "other", "ndims": [p.type.ndim for p in ps]})
        s.compile()
        given = set(v for _, v in s.ins) | {m.raw.get(n, s.obs[s.env[n]]) for n in m.obs} | {s.init[s.env[n]] for n in s.lat} | set(s.params)
        outs = list(S.sample_steps.values()) + list(S.updates.values())
        case["needs"] = [str(v) for v in graph_inputs(outs) if v not in given and not isinstance(v, (Constant, SharedVariable))]
        gens = {n: s.env[n].owner.inputs[0] for n, *_ in m.nodes}
        vals = {k: (v.astype(floatx) if v.dtype == "float64" else v) for k, v in m.values().items()}
        own = set()
        for it in range(iters):
            before = {n: core.rng_state(g.get_value(borrow=True)) for n, g in gens.items()}
            d = s.nuts_size(vals)
            massin = np.round(r.normal(0, 0.4, size=d), 3).astype(floatx)
            outv, draws, nuts = s.call(vals, massin)
            used = {x["before"] for x in draws}
            own |= {n for n, g in gens.items() if before[n] in used or core.rng_state(g.get_value(borrow=True)) != before[n]}
            num = lambda x: [core.num(y) for y in np.asarray(x, dtype=float).ravel()]  # noqa: E731
            case["calls"].append({
                "before": {n: vtyp(np.asarray(vals[n])) for n in s.lat}, "after": {n: vtyp(outv[n]) for n in s.lat},
                "nuts": [{"q": num(u[1]), "lf": num(u[2])[0], "pe": num(u[4])[0], "g": num(u[5]), "step": num(u[6]), "mass": num(u[7]),
                          "stepin": num(np.asarray(0.1, dtype=floatx)), "massin": num(massin), "dims": d} for u in nuts],
            })
            if not case["calls"][-1]["before"]:
                case["calls"][-1].update(before={"_": 0}, after={"_": 0})
            for n in s.lat:
                if np.all(np.isfinite(outv[n])):
                    vals[n] = outv[n]
        case["own"] = sorted(own)
    return [case]


def one(job):
    try:
        return job[0], record(job), None
    except RepoError as e:
        return job[0], [], str(e)
    except Exception:
        return job[0], [], "the behaviour can't be interpreted: " + traceback.format_exc()[-1500:]


def run(prop, tier, seed, rep):
    core.load()
    tlc.num_classes()
    jobs = []
    for f, fam in enumerate(ALL):
        for i, m in enumerate(fam(np.random.default_rng(seed), tier)):
            # (aeppl's transform for simplexes has type float64)
            simplex = any(d == "dirichlet" for _, d, *_ in m.nodes)
            # (numbers of unusual sizes need the other type)
            if not simplex and not m.name.endswith("-many"):
                jobs.append((m.name, "family", (f, i), "float32", seed, tier, 2))
            if tier == "thorough" or (i + f) % 2 or simplex:
                jobs.append((m.name, "family", (f, i), "float64", seed, tier, 2))
    r = np.random.default_rng(seed)
    for n in (3, 4):
        dags, st = enumerate_dags(n)
        rep.stats(st)
        rep.count("enumerated_graphs", len(dags))
        if tier == "quick":
            dags = [dags[i] for i in sorted(r.permutation(len(dags))[: 60 if n == 3 else 40])]
        elif n == 4:
            dags = [dags[i] for i in sorted(r.permutation(len(dags))[:1500])]
        for i, x in enumerate(dags):
            jobs.append((x["id"], "dag", x["m"], "float32" if i % 4 == 0 else "float64", seed, tier, 1))
    import compose

    for i, x in enumerate(compose.sample(tier, seed + 2, rep, *((24, 10) if tier == "quick" else (None, 500)))):
        jobs.append((x["id"], "composed", x["m"], "float64" if i % 4 == 0 else "float32", seed, tier, 1))
    cases = []
    for name, cs, err in sampler_checks.pool_map(one, jobs):
        rep.count("samplers")
        if err:
            rep.violation(name, err)
        cases += cs
    for c in cases[:1] + cases[-1:]:
        rep.sample(c)
    sampler_checks.judge("SamplerShape", cases, rep)
    rep.assumptions = ["aehmc's kernel is replaced by one that reports its arguments"]
