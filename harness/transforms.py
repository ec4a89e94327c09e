"""P13: the relations between random variables in aemcmc.transforms."""
import itertools
import traceback
import zlib

import numpy as np

import core
import sampler_checks
import tlc
from core import MODE, REC, Quiet, aesara, at, tens
from families import pos, real
from session import RepoError

LS = ("normal", "cauchy", "gumbel", "laplace", "logistic")


def jobs(seed, tier):
    r = np.random.default_rng(seed)
    res = []
    shapes = [((), (), None), ((3,), (), None), ((), (2,), None), ((3,), (3,), None), ((), (), (4,)), ((2,), (), (3, 2)),
              ((2, 1), (3,), None), ((1,), (2, 3), None)]
    kinds = ["const", "input", "rv", "shared", "mixed"]
    n = 0
    for dist in LS:
        for j, s in enumerate(shapes):
            for rep in range(1 if tier == "quick" else 5):
                res.append((f"ls-{dist}-{j}-{rep}", "location_scale_transform", dist, s, kinds[(n + rep) % 5], True, int(r.integers(1 << 30))))
                n += 1
    # single-precision variables of single-precision parameters
    for j, dist in enumerate(LS):
        res.append((f"ls-{dist}-f32", "location_scale_transform", dist, shapes[(j + seed) % len(shapes)], "f32", True, int(r.integers(1 << 30))))
    res.append(("ig-f32", "invgamma_exponential", "invgamma1", ((), (2,), None), "f32", True, int(r.integers(1 << 30))))
    for dist in ("t", "gamma", "uniform", "lognormal", "halfnormal", "beta", "invgamma", "halfcauchy", "weibull", "exponential",
                 "vonmises", "wald", "pareto"):
        res.append((f"ls-{dist}", "location_scale_transform", dist, ((2,), (2,), None), "input", False, int(r.integers(1 << 30))))
    for j, s in enumerate(shapes):
        for kind in ("const", "input", "rv"):
            res.append((f"ig-{j}-{kind}", "invgamma_exponential", "invgamma1", ((),) + s[1:], kind, len(s[0]) == 0 or True, int(r.integers(1 << 30))))
    res.append(("ig-vector", "invgamma_exponential", "invgamma1", ((3,), (), None), "input", False, int(r.integers(1 << 30))))
    for dist in ("invgamma", "gamma", "invgamma2", "normal", "exponential", "invgamma-rv"):
        res.append((f"ig-not-{dist}", "invgamma_exponential", dist, ((2,), (2,), None), "input", False, int(r.integers(1 << 30))))
    return res


def par(r, srng, kind, sh, positive, ins, name):
    v = pos(r, *sh) if positive else real(r, *sh)
    if kind == "const":
        return v if sh else float(v)
    if kind == "f32":
        x = at.tensor(name=name, dtype="float32", shape=(None,) * len(sh))
        ins.append((x, np.asarray(v, dtype="float32")))
        return x
    if kind == "shared":
        return aesara.shared(np.asarray(v), name=name)
    if kind == "rv":
        return srng.gamma(2.0, 1.5, size=sh or None, name=name) if positive else srng.normal(0.3, 1.0, size=sh or None, name=name)
    if kind == "mixed" and positive:
        return at.exp(srng.normal(0.0, 0.7, size=sh or None, name=name))
    x = at.tensor(name=name, dtype="float64", shape=(None,) * len(sh))
    ins.append((x, np.asarray(v)))
    return x


def record(job):
    cid, rel, dist, (s1, s2, size), kind, must, seed = job
    from aesara.graph.fg import FunctionGraph
    from aesara.graph.kanren import KanrenRelationSub

    import aemcmc.transforms as T

    r = np.random.default_rng(seed)
    srng = at.random.RandomStream(int(r.integers(1 << 30)))
    ins = []
    name = dist
    if dist in ("invgamma1", "invgamma2"):
        name = "invgamma"
        a = np.ones(s1) if s1 else 1.0
        args = [a if dist == "invgamma1" else 2.0, par(r, srng, kind, s2, True, ins, "c")]
    elif dist == "invgamma-rv":
        name = "invgamma"
        args = [srng.gamma(2.0, 1.0), par(r, srng, kind, s2, True, ins, "c")]
    elif dist == "t":
        args = [4.0, par(r, srng, kind, s1, False, ins, "m"), par(r, srng, kind, s2, True, ins, "s")]
    elif dist in ("weibull", "exponential"):
        args = [par(r, srng, kind, s2, True, ins, "s")]
    elif dist == "uniform":
        args = [par(r, srng, kind, s1, False, ins, "m"), 10.0]
    else:
        args = [par(r, srng, kind, s1, dist in ("gamma", "beta", "invgamma", "wald", "pareto"), ins, "m"), par(r, srng, kind, s2, True, ins, "s")]
    kw = {"dtype": "float32"} if kind == "f32" else {}
    if kind == "f32" and dist == "invgamma1":
        args[0] = np.float32(1)
    X = getattr(srng, name)(*args, size=size, name="X", **kw)
    fg = FunctionGraph(outputs=[X], clone=False)
    try:
        with Quiet():
            res = KanrenRelationSub(getattr(T, rel)).transform(fg, fg.outputs[0].owner)
    except Exception as e:
        raise RepoError(f"{rel} raised {type(e).__name__}: {str(e)[:300]}") from e
    case = {"id": cid, "dist": name, "args": [], "sh": [], "probes": [], "found": bool(res), "must": must}
    sh = size if size is not None else np.broadcast_shapes(s1, s2) if name not in ("exponential", "weibull") else s2
    case["sh"] = [int(s) for s in sh]
    if not res:
        return [case]
    out = res[0]
    if out.type.ndim != X.type.ndim and cid != "ig-vector":
        raise RepoError("the result has another number of dimensions")
    if kind == "f32" and out.type.dtype != X.type.dtype:
        raise RepoError(f"the result has type {out.type.dtype}, and the variable has {X.type.dtype}")
    with Quiet():
        f = aesara.function([x for x, _ in ins], [out] + [at.as_tensor(a) for a in args], mode=MODE, on_unused_input="ignore")
    av = [v for _, v in ins]

    def go(script=None):
        REC.start(script)
        try:
            with Quiet(), np.errstate(all="ignore"):
                o = f(*av)
        except Exception as e:
            raise RepoError(f"evaluating the result raised {type(e).__name__}: {str(e)[:300]}") from e
        finally:
            d = REC.stop()
        return [np.asarray(x) for x in o], d

    o, draws = go()
    case["args"] = [tens(x) for x in o[1:]]
    for i, d in enumerate(draws):
        ys, outs, same = [], [], True
        for j in range(5):
            y = np.round(r.uniform(0.2, 3.0, size=d["out"].shape), 3) + 0.01 * j

            def script(k, nm, a, old, i=i, y=y):
                return y if k == i else draws[k]["out"]

            oo, dd = go(script)
            same &= all(np.array_equal(a, b) for a, b in zip(oo[1:], o[1:]))
            ys.append(tens(y))
            outs.append(tens(oo[0]))
        if same:  # not a draw of a parameter
            case["probes"].append({"dist": d["dist"], "args": [tens(a) for a in d["args"]], "ys": ys, "outs": outs})
    return [case]


def one(job):
    try:
        return job[0], record(job), None
    except RepoError as e:
        return job[0], [], str(e)
    except Exception:
        return job[0], [], "the behaviour can't be interpreted: " + traceback.format_exc()[-1500:]


def run(prop, tier, seed, rep):
    core.load()
    tlc.num_classes()
    cases = []
    for name, cs, err in sampler_checks.pool_map(one, jobs(seed, tier)):
        rep.count("expressions")
        if err:
            rep.violation(name, err)
        cases += cs
    for c in cases[:2]:
        rep.sample({k: c[k] for k in ("id", "dist", "args", "sh")})
    verdicts = sampler_checks.judge("TransformTrace", cases, rep)
    for cid, v in verdicts.items():
        for kf in v["kfs"]:
            if not rep.finding(kf, cid):
                rep.violation(cid, f"{kf}: the result has another distribution", None)
    rep.assumptions = ["random draws have the law of their node's parameters"]
