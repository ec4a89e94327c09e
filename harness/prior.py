"""P11: samples of the prior; P12: the internal representation of a model.

Both are programs that evaluate the variables of a model, and are validated against
PriorTrace.tla."""
import traceback
import zlib

import numpy as np

import core
import families
import regimes
import sampler_checks
import tlc
from core import MODE, REC, Quiet, aesara, at, draw_json, tens
from families import pos, real, unit
from model import E, Model, V, ds, exp, fn, sigmoid
from session import RepoError


def dedupe(draws):
    """Evaluations of the very same draw count once."""
    seen, res = set(), []
    for d in draws:
        key = (d["dist"], d["before"], tuple(a.tobytes() for a in d["args"]), d["out"].shape, d["out"].tobytes())
        if key not in seen:
            seen.add(key)
            res.append(d)
    return res


def djson(d):
    j = draw_json(d)
    j["before"], j["after"] = d["before"], d["after"]
    return j


def model_json(m):
    sh = {n: np.asarray(v).shape for n, v in m.values().items()}
    return [dict(j, sh=[int(s) for s in sh.get(j["name"], ())]) for j in m.json()]


def gens_of(m, env):
    """The generators of the model's variables, and their states."""
    res = {}
    for name, dist, *_ in m.nodes:
        if dist != "det":
            g = env[name].owner.inputs[0]
            if hasattr(g, "get_value"):
                res[name] = core.rng_state(g.get_value(borrow=True))
    return res


def case(cid, m, env, vals, req, rows, draws, before, after, nrows, fresh):
    return {
        "id": cid, "model": model_json(m), "env": {n: tens(vals[n]) for n, *_ in m.inputs},
        "req": list(req), "rows": [{n: tens(v) for n, v in row.items()} for row in rows],
        "nrows": nrows, "draws": [djson(d) for d in dedupe(draws)],
        "gens": [{"name": n, "before": before[n], "after": after[n]} for n in before], "fresh": fresh,
    }


class OutOfRange(Exception):
    """A draw from a heavy-tailed prior is beyond what numpy can draw from."""


NUMPY_LIMITS = ("n too large or p too small", "lam value too large", "Domain error in arguments. The `scale` parameter must be positive")


def guarded(f, job):
    name = job[0]
    try:
        return name, f(job), None
    except OutOfRange:
        return name, [], "out of range"
    except RepoError as e:
        return name, [], str(e)
    except Exception:
        return name, [], "the behaviour can't be interpreted: " + traceback.format_exc()[-1500:]


def run_fn(f, args):
    REC.start()
    try:
        with Quiet(), np.errstate(all="ignore"):
            out = f(*args)
    except Exception as e:
        if any(x in str(e) for x in NUMPY_LIMITS):
            raise OutOfRange() from e
        raise RepoError(f"running the program raised {type(e).__name__}: {str(e)[:300]}") from e
    finally:
        draws = REC.stop()
    return out, draws


# ---------------------------------------------------------------------------
# P11


def prior_models(r, tier):
    res = []
    m = Model("chain")
    mu = m.rv("mu", "normal", 0.0, 1.0, init=0.1)
    y = m.rv("Y", "normal", mu, 1.0, size=[3], init=real(r, 3))
    m.rv("Z", "gamma", 0.5, 0.7, init=1.0)
    m.rv("W", "poisson", exp(y), init=[1, 2, 3])
    res.append(m)
    m = Model("iid")  # variables with equal laws
    a = m.rv("a", "normal", 0.0, 1.0, init=0.1)
    b = m.rv("b", "normal", 0.0, 1.0, init=0.1)
    c = m.rv("c", "normal", 0.0, 1.0, init=0.1)
    m.rv("d", "normal", a - b, 0.5, init=0.1)
    m.rv("e", "cauchy", b + c, 0.5, init=0.1)
    m.det("s", a + fn("sqr", b))
    m.det("u", exp(V("d")) - c)
    res.append(m)
    m = Model("inputs")
    X = m.inp("X", real(r, 4, 2))
    k = m.inp("k", 1.7)
    sd = m.inp("sd", pos(r, 2), kind="shared")
    b = m.rv("beta", "normal", 0.0, sd, init=real(r, 2))
    h = m.rv("h", "gamma", k, 2.0, init=1.0)
    m.det("eta", X @ b)
    m.rv("Y", "nbinom", h, sigmoid(-(X @ b)), init=[1, 2, 3, 4])
    m.rv("B", "bernoulli", sigmoid(X @ b), init=[1, 0, 1, 0])
    res.append(m)
    m = Model("shapes")
    a = m.rv("a", "gamma", 2.0, 1.5, size=[2, 1], init=pos(r, 2, 1))
    b = m.rv("b", "beta", a, ds(m.inp("v", pos(r, 3)), "x", 0), init=unit(r, 2, 3))
    m.rv("c", "binomial", 9, b, init=np.ones((2, 3), int))
    t = m.rv("t", "uniform", -a, a, size=[4, 2, 3], init=real(r, 4, 2, 3))
    m.det("q", fn("sum", t) * a)
    res.append(m)
    m = Model("dists")
    p = m.rv("p", "beta", 1.3, 2.1, init=0.4)
    l = m.rv("l", "laplace", 0.2, 1.4, init=0.4)
    m.rv("g", "gumbel", l, 0.6, init=0.4)
    m.rv("lo", "logistic", l, p, init=0.4)
    m.rv("ln", "lognormal", l, p, init=0.4)
    m.rv("hn", "halfnormal", l, p, init=5.0)
    m.rv("hc", "halfcauchy", 0.0, p, init=0.4)
    m.rv("ig", "invgamma", 1.2, p, init=0.4)
    m.rv("ex", "exponential", p, init=0.4)
    m.rv("tt", "t", 3.5, l, p, init=0.4)
    m.rv("we", "weibull", p, init=0.4)
    m.rv("ge", "geometric", p, init=2)
    m.rv("ch", "chisquare", p, init=0.4)
    res.append(m)
    m = Model("vectors")
    w = m.rv("w", "dirichlet", m.inp("al", pos(r, 3)), init=[0.2, 0.3, 0.5])
    z = m.rv("z", "categorical", w, size=[4], init=[0, 1, 2, 0])
    m.rv("x", "multivariate_normal", w, m.inp("S", np.array([[2.0, 0.3, 0], [0.3, 1, 0], [0, 0, 3]])), size=[2], init=real(r, 2, 3))
    m.rv("mm", "multinomial", 7, w, init=[1, 2, 4])
    res.append(m)
    res.append(families.regmodel(r, "nb-h", n=3, p=2, prior="vec", h="gamma"))
    res.append(families.conj(r, "bb", (2, 2), "v", True))
    if tier == "thorough":
        for f in (families.conj_models, families.horseshoe_models, families.regression_models,
                  families.dispersion_models, families.composite_models, families.nuts_models):
            for m in f(r, tier):
                if zlib.crc32(m.name.encode()) % 3 == 0 or f is families.nuts_models:
                    res.append(m)
    return res


HOWS = [  # number of samples, how it is given, how the generators are set up
    (3, "const", "plain"), (2, "symbolic", "plain"), (3, "const", "nodefault"), (2, "tensor", "onlydefault"),
    (1, "const", "plain"), (2, "const", "legacy"), (2, "symbolic", "mixed"), (3, "const", "after"),
]


def prior_jobs(seed, tier):
    r = np.random.default_rng(seed)
    jobs = []
    for i, m in enumerate(prior_models(r, tier)):
        names = [n for n, *_ in m.nodes]
        reqs = [names, names[::-1]]
        for j in range(3 if tier == "quick" else 6):
            k = 1 if j == 0 else int(r.integers(1, len(names) + 1))
            reqs.append([str(x) for x in r.permutation(names)[:k]])
        reqs.append([names[-1], names[0], names[-1]])
        if m.name == "iid":  # many rows
            jobs.append((f"{m.name}-many", seed, tier, i, ["a"], (1500 if tier == "quick" else 10500, "const", "plain")))
        for j, req in enumerate(reqs):
            jobs.append((f"{m.name}-{j}", seed, tier, i, req, HOWS[(i * 3 + j) % len(HOWS)]))
    return jobs


def prior_record(job):
    cid, seed, tier, idx, req, (num, how, gens) = job
    from aemcmc.sample import sample_prior

    m = prior_models(np.random.default_rng(seed), tier)[idx]
    r = np.random.default_rng([seed, zlib.crc32(cid.encode())])
    kw = {"rng_ctor": np.random.RandomState} if gens == "legacy" else {}
    srng = at.random.RandomStream(int(r.integers(1 << 30)), **kw)
    env, ins, obs = m.build(srng)
    rvs = [n for n, d, *_ in m.nodes if d != "det"]
    own = {n: env[n].owner.inputs[0] for n in rvs}
    if gens == "nodefault":
        for g in own.values():
            g.default_update = None
    elif gens == "onlydefault":  # the generators' updates aren't known to the stream
        srng.state_updates = []
    elif gens == "mixed":
        for i, n in enumerate(rvs):
            if i % 2:
                own[n].default_update = None
            else:
                srng.state_updates = [(a, b) for a, b in srng.state_updates if a is not own[n]]
    elif gens == "after":  # variables that are made, and samplers that are constructed, in between
        srng.normal(0.0, 1.0, size=2)
        if m.obs:
            from aemcmc.basic import construct_sampler

            with Quiet():
                construct_sampler(obs, srng)
    defaults = {n: g.default_update for n, g in own.items()}
    stream = list(srng.state_updates)
    n_in, args = num, [v for _, v in ins]
    if how == "symbolic":
        n_in = at.lscalar("n")
        args.append(n_in)
    elif how == "tensor":
        n_in = at.as_tensor(num)
    try:
        with Quiet():
            samples, updates = sample_prior(srng, n_in, *[env[n] for n in req])
            if not isinstance(samples, (list, tuple)):
                samples = [samples]
            f = aesara.function(args, list(samples), updates=updates, mode=MODE, on_unused_input="ignore")
    except Exception as e:
        raise RepoError(f"sample_prior raised {type(e).__name__}: {str(e)[:300]}") from e
    if any(own[n].default_update is not defaults[n] for n in rvs) or list(srng.state_updates) != stream:
        raise RepoError("sample_prior changed the updates of the model's generators")
    vals = m.values()
    rows, draws = [], []
    before = gens_of(m, env)
    calls = 2 if how != "symbolic" else 3
    total = 0
    for i in range(calls):
        a = [vals[n] for n, _ in ins]
        cnt = num if how != "symbolic" else num + i
        if how == "symbolic":
            a.append(cnt)
        out, ds_ = run_fn(f, a)
        total += cnt
        if len(out) != len(req) or any(len(o) != cnt for o in out):
            raise RepoError(f"{[np.shape(o) for o in out]} samples of {req} instead of {cnt}")
        rows += [{n: o[j] for n, o in zip(req, out)} for j in range(cnt)]
        draws += ds_
        if how == "symbolic" and i == 0:  # no samples: nothing is returned, and the model can still be sampled
            none, _ = run_fn(f, a[:-1] + [0])
            if [o.shape for o in none] != [(0,) + o.shape[1:] for o in out]:
                raise RepoError(f"{[o.shape for o in none]} for no samples of {req}")
            if any(g.get_value(borrow=True) is None for g in own.values()):
                raise RepoError("a generator is lost when no samples are asked for")
    return [case("prior:" + cid, m, env, vals, req, rows, draws, before, gens_of(m, env), total, True)]


def prior_one(job):
    return guarded(prior_record, job)


def run_prior(prop, tier, seed, rep):
    core.load()
    tlc.num_classes()
    cases = []
    for name, cs, err in sampler_checks.pool_map(prior_one, prior_jobs(seed, tier)):
        rep.count("programs")
        if err == "out of range":
            rep.count("out_of_range")
        elif err:
            rep.violation(name, err)
        cases += cs
    for c in cases[:2]:
        rep.sample({"case": c["id"], "model": [f'{n["name"]} ~ {n["dist"]}' for n in c["model"]], "asked": c["req"],
                    "rows": c["rows"][:2], "draws": len(c["draws"])})
    sampler_checks.judge("PriorTrace", cases, rep)
    rep.assumptions = ["random draws have the law of their node's parameters",
                       "Scan runs its steps in order"]


# ---------------------------------------------------------------------------
# P12


def ir_family(r, tier):
    res = [m for m in prior_models(r, "quick") if m.name in ("chain", "inputs", "shapes", "dists", "vectors")]
    for m in res:  # everything is observed that nothing depends on
        used = set()
        for n, d, args, _ in m.nodes:
            for a in args:
                used |= names_in(a)
        m.nodes = [x for x in m.nodes if x[1] != "det"]
        for n, d, *_ in m.nodes:
            if n not in used:
                m.obs.append(n)
                m.obs_vals[n] = m.init.pop(n)
    for f in (families.conj_models, families.horseshoe_models, families.regression_models,
              families.dispersion_models, families.composite_models, families.nuts_models):
        for m in f(r, "quick" if tier == "quick" else tier):
            if tier == "thorough" or zlib.crc32(m.name.encode()) % 3 == 0:
                res.append(m)
    return res


def names_in(e):
    return {e.n} if e.op == "var" else set().union(*[names_in(a) for a in e.a]) if e.a else set()


def enumerate_ir():
    res, st, rc, out = tlc.run("IRModels", "INIT Init\nNEXT Next\nINVARIANT WellFormed\n", workers=4)
    if rc or not res:
        raise tlc.MachineryError("TLC failed on IRModels:\n" + out[-3000:])
    for x in res:
        x["id"] = "-".join(f"{k}={x['desc'][k]}" for k in ("sa", "oa", "sb", "ob", "op", "konst", "tail")).replace(" ", "")
    res.sort(key=lambda x: x["id"])
    return res, st


def ir_record(job):
    cid, kind, payload, seed, tier, full = job
    from aemcmc.basic import construct_sampler
    from aemcmc.rewriting import construct_ir_fgraph, expand_subsumptions
    from aemcmc.sample import sample_prior

    r = np.random.default_rng([seed, zlib.crc32(cid.encode())])
    if kind == "family":
        m = ir_family(np.random.default_rng(seed), tier)[payload]
    else:
        import matching

        m = matching.build_model(cid, payload, r)
    srng = at.random.RandomStream(int(r.integers(1 << 30)))
    env, ins, obs = m.build(srng)
    names = {env[n]: n for n, *_ in m.nodes}
    args, vals = [v for _, v in ins], m.values()
    avals = [vals[n] for n, _ in ins]
    allrv = [n for n, *_ in m.nodes]

    def program(outs, tag, own_names):
        # The generators are given, so that the same program yields the same values
        try:
            with Quiet():
                f = aesara.function(args, outs, mode=MODE, on_unused_input="ignore")
        except Exception as e:
            raise RepoError(f"compiling {tag} raised {type(e).__name__}: {str(e)[:300]}") from e
        before = gens_of(m, env)
        states = {n: env[n].owner.inputs[0].get_value() for n in before}
        out, draws = run_fn(f, avals)
        if f.maker.fgraph.outputs and len(f.maker.fgraph.outputs) != len(outs):
            updates = True
        after = gens_of(m, env)
        for n, s in states.items():
            env[n].owner.inputs[0].set_value(s)
        row = dict(zip(own_names, out))
        return case(f"{tag}:{cid}", m, env, vals, own_names, [row], draws, before, after, 1, False), row

    cases = []
    c0, row0 = program([env[n] for n in allrv], "model", allrv)
    defaults = {n: env[n].owner.inputs[0].default_update for n in allrv}
    stream = list(srng.state_updates)
    given = dict(obs)
    try:
        with Quiet():
            fg, obs2, memo, new_to_old = construct_ir_fgraph(given)
    except Exception as e:
        raise RepoError(f"construct_ir_fgraph raised {type(e).__name__}: {str(e)[:300]}") from e
    if given != obs or any(given[k] is not obs[k] for k in obs):
        raise RepoError("the dict of observations was changed")
    if any(env[n].owner.inputs[0].default_update is not defaults[n] for n in allrv) or list(srng.state_updates) != stream:
        raise RepoError("the updates of the model's generators were changed")
    # which variables the representation has
    need, todo = set(), list(m.obs)
    args_of = {n: a for n, _, a, _ in m.nodes}
    while todo:
        n = todo.pop()
        if n in args_of and n not in need:
            need.add(n)
            for a in args_of[n]:
                todo += list(names_in(a))
    got = [names.get(new_to_old.get(o)) for o in fg.outputs]
    if sorted(map(str, got)) != sorted(need):
        raise RepoError(f"the representation has the variables {got}, not {sorted(need)}")
    for new, val in obs2.items():
        old = new_to_old.get(new)
        if old not in obs or obs[old] is not val:
            raise RepoError("an observed variable of the representation doesn't have its value")
    if len(obs2) != len(obs):
        raise RepoError("the representation has other observed variables than the model")
    with Quiet():
        expand_subsumptions.rewrite(fg)
    c1, row1 = program(list(fg.outputs), "ir", got)
    cases.append(c1)
    c2, row2 = program([env[n] for n in allrv], "model-after", allrv)
    if any(not np.array_equal(row0[n], row2[n]) for n in allrv):
        raise RepoError("the model itself was changed by construct_ir_fgraph")
    if full:
        try:
            with Quiet():
                construct_sampler(obs, srng)
        except Exception as e:
            raise RepoError(f"construct_sampler raised {type(e).__name__}: {str(e)[:300]}") from e
        if given != obs:
            raise RepoError("the dict of observations was changed")
        c3, row3 = program([env[n] for n in allrv], "model-sampled", allrv)
        if any(not np.array_equal(row0[n], row3[n]) for n in allrv):
            raise RepoError("the model itself was changed by construct_sampler")
        # ... and its generators are still updated by its variables
        with Quiet():
            samples, updates = sample_prior(srng, 2, *[env[n] for n in allrv])
            f = aesara.function(args, samples, updates=updates, mode=MODE, on_unused_input="ignore")
        before = gens_of(m, env)
        out, draws = run_fn(f, avals)
        rows = [{n: np.atleast_1d(o)[j] for n, o in zip(allrv, out if isinstance(out, list) else [out])} for j in range(2)]
        cases.append(case(f"prior-after:{cid}", m, env, vals, allrv, rows, draws, before, gens_of(m, env), 2, True))
    return cases


def ir_one(job):
    return guarded(ir_record, job)


def run_ir(prop, tier, seed, rep):
    core.load()
    tlc.num_classes()
    fam = ir_family(np.random.default_rng(seed), tier)
    jobs = [(m.name, "family", i, seed, tier, True) for i, m in enumerate(fam)]
    models, st = enumerate_ir()
    rep.stats(st)
    rep.cov["enumerated_models"] = len(models)
    r = np.random.default_rng(seed)
    if tier == "quick":
        models = [models[i] for i in sorted(r.permutation(len(models))[:220])]
    jobs += [(x["id"], "enum", x["m"], seed, tier, i % (8 if tier == "quick" else 4) == 0) for i, x in enumerate(models)]
    cases = []
    for name, cs, err in sampler_checks.pool_map(ir_one, jobs):
        rep.count("models")
        if err == "out of range":
            rep.count("out_of_range")
        elif err:
            rep.violation(name, err)
        cases += cs
    for c in cases[:2]:
        rep.sample({"case": c["id"], "model": [f'{n["name"]} ~ {n["dist"]}' for n in c["model"]], "row": c["rows"][0]})
    sampler_checks.judge("PriorTrace", cases, rep)
    rep.assumptions = ["random draws have the law of their node's parameters",
                       "the quick check takes a sample of the enumerated models"]
