"""Checks that replay iterations of constructed samplers against SamplerTrace.tla."""
import concurrent.futures as cf
import os
import traceback
import zlib

import numpy as np

import design
import families
import helpers
import regimes
import tlc
from session import RepoError, Session, iterate

# property -> (family, iterations in quick, in thorough)
FAMILIES = {
    "P01": (families.conj_models, 2, 3),
    "P02": (families.horseshoe_models, 2, 3),
    "P03": (families.regression_models, 2, 2),
    "P04": (families.dispersion_models, 2, 3),
    "P07": (families.composite_models, 3, 4),
    "P09": (families.nuts_models, 3, 4),
}


# model checking of the specification itself, alongside
DESIGN = {
    "P02": lambda tier: [design.theory],
    "P07": lambda tier: [lambda: design.scan(2, 3)] + ([lambda: design.scan(3, 2)] if tier == "thorough" else []),
}


def dag_jobs(tier, seed, rep):
    """Models for dependency graphs that Dags.tla enumerates, for P07."""
    import shape

    r = np.random.default_rng(seed)
    jobs = []
    for n, quick, thorough in ((3, 24, None), (4, 16, 1200)):
        dags, st = shape.enumerate_dags(n)
        rep.stats(st)
        k = quick if tier == "quick" else thorough
        if k is not None:
            dags = [dags[i] for i in sorted(r.permutation(len(dags))[:k])]
        jobs += [(x, seed) for x in dags]
    return jobs


def record_dag(job):
    import matching

    x, seed = job
    r = np.random.default_rng([seed, zlib.crc32(x["id"].encode())])
    cases = []
    try:
        m = matching.build_model(x["id"], x["m"], r)
        s = Session(m, seed=int(r.integers(1 << 30)))
        vals = m.values()
        for it in range(2):
            n = s.nuts_size(vals)
            delta = np.round(r.normal(0, 0.3, size=n), 3) if n else None
            c, vals = iterate(s, vals, f"{x['id']}#{it}", delta)
            cases.append(c)
            for k, v in vals.items():
                if not np.all(np.isfinite(v)):
                    vals[k] = m.values()[k]
    except RepoError as e:
        return x["id"], cases, str(e)
    except Exception:
        return x["id"], cases, "the behaviour can't be interpreted: " + traceback.format_exc()[-1500:]
    return x["id"], cases, None


def record_composed(job):
    import compose

    x, seed = job
    r = np.random.default_rng([seed, zlib.crc32(x["id"].encode())])
    cases = []
    try:
        m = compose.model(x, r)
        m.naming = (None, None, "none", "same")[(zlib.crc32(x["id"].encode()) + seed) % 4]
        m.vary_observations(zlib.crc32(x["id"].encode()) // 4 + seed)
        s = Session(m, seed=int(r.integers(1 << 30)))
        kinds = {v: st["kind"] for st in s.stages() for v in st["vars"]}
        vals = m.values()
        for it in range(2):
            n = s.nuts_size(vals)
            delta = np.round(r.normal(0, 0.3, size=n), 3) if n else None
            c, vals = iterate(s, vals, f"{x['id']}#{it}", delta)
            c["must"], c["kinds"] = list(x["m"]["must"]), dict(kinds, _="none")
            cases.append(c)
            for k, v in vals.items():
                if not np.all(np.isfinite(v)):
                    vals[k] = m.values()[k]
    except RepoError as e:
        return x["id"], cases, str(e)
    except Exception:
        return x["id"], cases, "the behaviour can't be interpreted: " + traceback.format_exc()[-1500:]
    return x["id"], cases, None


def record(args):
    """All recorded iterations for one model (run in a worker process)."""
    family, tier, seed, idx, iters = args
    rng = np.random.default_rng(seed)
    model = family(rng, tier)[idx]
    r = np.random.default_rng([seed, zlib.crc32(model.name.encode())])
    cases = []
    # names have no meaning
    model.vary_observations(zlib.crc32(model.name.encode()) // 4 + seed)
    model.naming = (None, None, "none", "same")[(zlib.crc32(model.name.encode()) + seed) % 4]
    try:
        s = Session(model, seed=int(r.integers(1 << 30)))
        vals = model.values()
        for it in range(iters):
            n = s.nuts_size(vals)
            delta = np.round(r.normal(0, 0.5, size=n), 3) if n else None
            c, vals = iterate(s, vals, f"{model.name}#{it}", delta)
            cases.append(c)
            # The history goes on from values that are re-drawn when they would overflow
            for k, v in vals.items():
                if not np.all(np.isfinite(v)):
                    vals[k] = model.values()[k]
        cases += regime_cases(s, model, r, tier, extreme=EXTREME.get(family, ()))
    except RepoError as e:
        return model.name, cases, str(e)
    except Exception:
        return model.name, cases, "the behaviour can't be interpreted: " + traceback.format_exc()[-1500:]
    return model.name, cases, None


def regime_cases(s, model, r, tier, known=True, extreme=()):
    """Iterations from other values, of the sampler that has been compiled already."""
    cases = []
    # (linear predictors and log densities of any scale would overflow)
    if "design" in model.what.values() or s.nuts_size(model.values()):
        extreme = tuple(x for x in extreme if x == "far")
    for how in () if model.name.endswith("-many") else (regimes.QUICK if tier == "quick" else regimes.THOROUGH) + extreme + ("resize",):
        vals = regimes.regime(model, r, how)
        if vals is None:
            continue
        n = s.nuts_size(vals)
        delta = np.round(r.normal(0, 0.5, size=n), 3) if n else None
        cases.append(iterate(s, vals, f"{model.name}~{how}", delta, known=known)[0])
    return cases


EXTREME = {families.nuts_models: ("far",), families.conj_models: ("vast",), families.horseshoe_models: ("tiny", "vast"),
           helpers.horseshoe_helpers: ("tiny", "vast")}
HELPERS = {
    "P02": helpers.horseshoe_helpers,
    "P03": helpers.regression_helpers,
    "P04": helpers.dispersion_helpers,
}


def record_helper(args):
    family, tier, seed, idx = args
    model, build, stages = family(np.random.default_rng(seed), tier)[idx]
    try:
        s = helpers.Helper(model, build, stages)
        c, _ = iterate(s, model.values(), model.name, known=False)
        r = np.random.default_rng([seed, zlib.crc32(model.name.encode())])
        cases = [c] + regime_cases(s, model, r, tier, known=False, extreme=EXTREME.get(family, ()))
        # observations of other types
        counts = [n for n, v in model.obs_vals.items() if v.dtype.kind == "i"] + [n for n, _, v, _ in model.inputs if n == "y"]
        if counts and not model.name.endswith("-many"):
            to = ("int32", "uint8", "float64", "int16")[int(r.integers(4))]
            model.obs_vals = {n: v.astype(to) for n, v in model.obs_vals.items()}
            model.inputs = [(n, k, v.astype(to) if n == "y" else v, t) for n, k, v, t in model.inputs]
            s = helpers.Helper(model, build, stages)
            cases.append(iterate(s, model.values(), f"{model.name}:{to}", known=False)[0])
        return model.name, cases, None
    except RepoError as e:
        return model.name, [], str(e)
    except Exception:
        return model.name, [], "the behaviour can't be interpreted: " + traceback.format_exc()[-1500:]


def run_mvn(prop, tier, seed, rep):
    import core

    core.load()
    tlc.num_classes()
    jobs = helpers.mvn_jobs(np.random.default_rng(seed), tier)
    cases = []
    for name, c, err in pool_map(helpers.mvn_record, jobs):
        rep.count("samplers")
        if err:
            rep.violation(name, err)
        cases += c
        for c in c[:1]:
            rep.sample({"case": name, "target": c["target"], "inputs": c["ins"], "mean": c["m"]})
    judge("Mvn", cases, rep)
    rep.assumptions = ["the standard normals that the samplers draw are standard normal",
                       "results are compared at relative tolerance 1e-7"]


def run_ffbs(prop, tier, seed, rep):
    import core

    core.load()
    tlc.num_classes()
    cases = []
    for name, cs, err in pool_map(helpers.ffbs_record, helpers.ffbs_jobs(np.random.default_rng(seed), tier)):
        rep.count("hidden_markov_models")
        if err:
            rep.violation(name, err)
        cases += cs
    for c in cases[:2]:
        rep.sample({k: c[k] for k in ("id", "gamma0", "gammas", "ll", "draws", "states")})
    judge("Ffbs", cases, rep)
    rep.assumptions = ["categorical draws have the law of their node's probabilities"]


def judge(module, cases, rep, shards=6):
    verdicts, st = tlc.validate(module, cases, shards=shards)
    rep.stats(st)
    by_id = {c["id"]: c for c in cases}
    for cid, v in verdicts.items():
        rep.count("traces_validated_against_impl")
        for kf in v["kfs"]:
            if not rep.finding(kf, cid):
                rep.violation(cid, "a finding that is not listed: " + kf, by_id[cid])
        if v["errs"]:
            rep.violation(cid, "; ".join(sorted(v["errs"])), by_id[cid])
    return verdicts


def pool_map(f, jobs, workers=8):
    import multiprocessing as mp

    workers = int(os.environ.get("VCHECK_WORKERS", workers))

    with cf.ProcessPoolExecutor(min(workers, max(1, len(jobs))), mp_context=mp.get_context("fork")) as ex:
        if os.environ.get("VCHECK_FIRST"):
            yield from ex.map(f, jobs, chunksize=1)
        else:
            yield from list(ex.map(f, jobs, chunksize=1))


def run(prop, tier, seed, rep):
    import core

    core.load()
    family, iq, it = FAMILIES[prop]
    iters = iq if tier == "quick" else it
    n = len(family(np.random.default_rng(seed), tier))
    tlc.num_classes()
    jobs = [(family, tier, seed, i, iters) for i in range(n)]
    cases = []
    for name, cs, err in pool_map(record, jobs):
        cases += cs
        if err is not None:
            rep.violation(name, err)
        rep.count("models")
    if prop == "P07":
        for name, cs, err in pool_map(record_dag, dag_jobs(tier, seed, rep)):
            cases += cs
            if err is not None:
                rep.violation(name, err)
            rep.count("models")
        import compose

        xs = compose.sample(tier, seed, rep, *((28, 12) if tier == "quick" else (None, 700)))
        for name, cs, err in pool_map(record_composed, [(x, seed) for x in xs]):
            cases += cs
            if err is not None:
                rep.violation(name, err)
            rep.count("models")
    if prop in HELPERS:
        hjobs = [(HELPERS[prop], tier, seed, i) for i in range(len(HELPERS[prop](np.random.default_rng(seed), tier)))]
        for name, cs, err in pool_map(record_helper, hjobs):
            cases += cs
            if err is not None:
                rep.violation(name, err)
            rep.count("helper_calls")
    bg = design.Background(DESIGN[prop](tier) if prop in DESIGN else [])
    verdicts = validate_sampler(prop, cases, rep)
    design.self_test("SamplerTrace", cases, verdicts, rep, 6 if tier == "quick" else 40)
    bg.join(rep)
    rep.assumptions = [
        "random draws go through aesara's RandomVariable.perform and have the law of their node's parameters",
        "aehmc's NUTS kernel is replaced by a probe: it is assumed to leave the density it is given invariant",
        "linalg results are compared at relative tolerance 1e-5, other numbers at 1e-7 or tighter",
    ]


def validate_sampler(prop, cases, rep):
    verdicts, st = tlc.validate("SamplerTrace", cases, shards=6)
    rep.stats(st)
    by_id = {c["id"]: c for c in cases}
    for cid, v in verdicts.items():
        rep.count("traces_validated_against_impl")
        c = by_id[cid]
        rep.sample({"case": cid, "model": [f'{n["name"]} ~ {n["dist"]}' for n in c["model"]],
                    "stages": c["stages"], "outs": c["outs"],
                    "draws": [d["dist"] for d in c["draws"]]})
        for kf in v["kfs"]:
            if not rep.finding(kf, cid):
                rep.violation(cid, "a finding that is not listed: " + kf, c)
        if v["errs"]:
            rep.violation(cid, "; ".join(sorted(v["errs"])), c)
    return verdicts
