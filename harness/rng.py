"""P10: histories of generator states."""
import hashlib
import json
import os
import subprocess
import sys
import traceback
import zlib

import numpy as np

import core
import families
import helpers
import sampler_checks
import tlc
from core import MODE, REC, Quiet, aesara, at
from model import Model
from session import RepoError, Session


def sig(d):
    h = hashlib.sha1()
    h.update(d["dist"].encode())
    for a in d["args"]:
        h.update(repr((a.shape, a.dtype.str)).encode() + a.tobytes())
    h.update(repr(d["out"].shape).encode() + d["out"].tobytes())
    return h.hexdigest()[:16]


def consumers(d):
    """How many elements of the draw need the generator (certain outcomes of 0 don't)."""
    if d["dist"] in ("bernoulli", "binomial", "polyagamma", "poisson"):
        one = np.ones(d["out"].shape, bool)
        for a in d["args"][:2 if d["dist"] == "binomial" else 1]:
            one &= np.broadcast_to(np.asarray(a) != 0, one.shape)
        return int(one.sum())
    return int(d["out"].size)


def call_json(draws, fn):
    shared = []
    used = {d["before"] for d in draws}
    for v in fn.get_shared():
        val = v.get_value(borrow=True)
        if hasattr(val, "bit_generator"):
            shared.append(core.rng_state(val))
    return {
        "draws": [
            {"dist": d["dist"], "before": d["before"], "after": d["after"], "sig": sig(d), "n": consumers(d)}
            for d in draws
        ],
        "shared": shared,
    }


def digest(outs):
    return hashlib.sha1(
        b"".join(n.encode() + np.asarray(outs[n], dtype=float).tobytes() for n in sorted(outs))
    ).hexdigest()[:16]


def sampler_models(r, tier):
    pick = {"conj-gp-3-c", "conj-three", "conj-bb-2x3-cv", "hs-obs-3", "hs-two", "hs-nb", "nb-tall", "nb-wide", "bern-tall",
            "disp-a", "disp-b", "c-hs-nb-h", "c-conj-and-reg", "c-two-disp", "nuts-mixed-gibbs", "nuts-hier"}
    ms = []
    for f in (families.conj_models, families.horseshoe_models, families.regression_models,
              families.dispersion_models, families.composite_models, families.nuts_models):
        for m in f(r, tier):
            if m.name in pick or (tier == "thorough" and zlib.crc32(m.name.encode()) % 5 == 0):
                ms.append(m)
    return ms


def composed_models(seed, tier, rep):
    import compose

    r = np.random.default_rng(seed)
    return [compose.model(x, r) for x in compose.sample(tier, seed + 1, rep, *((30, 10) if tier == "quick" else (None, 300)))]


REAL = ["nuts-normal", "c-nb-hexp-nuts", "nuts-interval-parents", "conj-hyper-nuts", "bern-nutssd"]


def find(name, r, tier):
    for f in (families.nuts_models, families.composite_models, families.conj_models, families.regression_models):
        for m in f(r, tier):
            if m.name == name:
                return m


def run_history(model, seed, iters, real=False, chains=2):
    """Two chains from the same stream, with interleaved iterations."""
    calls, outs_all = [], []
    sess = []
    s0 = None
    for k in range(chains):
        s = Session(model, seed=seed)
        if s0 is not None:  # another sampler for the same model from the same stream
            from aemcmc.basic import construct_sampler

            s.srng, s.env, s.ins, s.obs = s0.srng, s0.env, s0.ins, s0.obs
            try:
                with Quiet():
                    s.sampler, s.init = construct_sampler(s.obs, s.srng)
            except Exception as e:
                raise RepoError(f"construct_sampler raised {type(e).__name__}: {e}") from e
            s.names = {s.env[n]: n for n in s.lat}
        s0 = s
        sess.append([s, model.values()])
    for it in range(iters):
        for k, sv in enumerate(sess):
            s, vals = sv
            n = s.nuts_size(vals)
            delta = np.full(n, 1.0) if real else np.full(n, 0.05)
            outs, draws, _ = s.call(vals, delta)
            calls.append(call_json(draws, s.fn))
            outs_all.append(digest(outs))
            for v, o in outs.items():
                if np.all(np.isfinite(o)):
                    vals[v] = o
    return calls, outs_all


def history_job(job):
    kind, name, payload, seed, iters = job
    try:
        if kind == "sampler":
            calls, res = run_history(payload, seed, iters)
        else:
            calls, res = globals()[kind](payload, seed, iters)
        return name, {"id": name, "calls": calls, "runs": [{"seed": seed, "res": res}]}, None
    except RepoError as e:
        return name, None, str(e)
    except Exception:
        return name, None, "the behaviour can't be interpreted: " + traceback.format_exc()[-1500:]


def fn_history(build, args, iters, seed):
    srng = at.random.RandomStream(seed)
    with Quiet():
        ins, outs, upd = build(srng)
        f = aesara.function(ins, outs, updates=upd, mode=MODE, on_unused_input="ignore")
    calls, res = [], []
    for it in range(iters):
        REC.start()
        try:
            with Quiet(), np.errstate(all="ignore"):
                o = f(*(args[it % len(args)] if isinstance(args, tuple) else args))
        except Exception as e:
            raise RepoError(f"call {it} raised {type(e).__name__}: {str(e)[:200]}") from e
        finally:
            draws = REC.stop()
        calls.append(call_json(draws, f))
        res.append(digest({str(i): x for i, x in enumerate(o)}))
    return calls, res


def h_ffbs(p, seed, iters):
    from aemcmc.ffbs import ffbs_step

    r = np.random.default_rng(0)
    G = r.uniform(0.1, 1, size=(6, 3, 3))
    G /= G.sum(-1, keepdims=True)

    def build(srng):
        g0, G_, l = at.vector("g"), at.tensor3("G"), at.matrix("l")
        o, u = ffbs_step(g0, G_, l, srng)
        return [g0, G_, l], [o], u

    ll = r.normal(size=(3, 6))
    short = [np.ones(3) / 3, G[:1], ll[:, :1]]
    return fn_history(build, ([np.ones(3) / 3, G, ll], short, [np.ones(3) / 3, G, 2 * ll]), iters + 4, seed)


def h_crt(p, seed, iters):
    from aemcmc.gibbs import sample_CRT

    def build(srng):
        y, h = at.lvector("y"), at.scalar("h")
        o, u = sample_CRT(srng, y, h)
        return [y, h], [o], u

    return fn_history(build, tuple([np.array(y, dtype="int64"), 1.7] for y in ([3, 0, 5, 5, 1], [], [0, 0], [4, 2])), iters + 4, seed)


def h_disp(p, seed, iters):
    from aemcmc.gibbs import nbinom_dispersion_posterior

    def build(srng):
        y, h, pp = at.lvector("y"), at.scalar("h"), at.vector("p")
        o, u = nbinom_dispersion_posterior(srng, h, pp, at.as_tensor(2.0), at.as_tensor(1.5), y)
        return [y, h, pp], [o], u

    return fn_history(build, [np.array([3, 0, 5]), 1.7, np.array([0.3, 0.5, 0.6])], iters + 2, seed)


def h_prior(p, seed, iters):
    from aemcmc.sample import sample_prior

    def build(srng):
        a = srng.normal(0, 1, name="a")
        b = srng.gamma(2.0, at.exp(a), size=3, name="b")
        y = srng.poisson(b, name="y")
        n = at.lscalar("n")
        s, u = sample_prior(srng, n, a, b, y)
        return [n], list(s), u

    return fn_history(build, ([4], [2], [0]), iters + 4, seed)


def h_priors(p, seed, iters):
    """A prior sampler and a posterior sampler from the same stream."""
    from aemcmc.basic import construct_sampler
    from aemcmc.sample import sample_prior

    srng = at.random.RandomStream(seed)
    z = srng.gamma(2.0, 1.5, size=2, name="z")
    Y = srng.poisson(z, name="Y")
    yv = Y.clone()
    yv.name = "y"
    with Quiet():
        s, u = sample_prior(srng, 3, z, Y)
        f = aesara.function([], s, updates=u, mode=MODE)
        S, init = construct_sampler({Y: yv}, srng)
        g = aesara.function([yv], S.sample_steps[z], updates=S.updates, mode=MODE)
    calls, res = [], []
    for _ in range(iters + 1):
        for fn_, a in ((f, []), (g, [np.array([3, 5])])):
            REC.start()
            try:
                with Quiet():
                    o = fn_(*a)
            finally:
                draws = REC.stop()
            calls.append(call_json(draws, fn_))
            res.append(digest({str(i): x for i, x in enumerate(o)}))
    return calls, res


def h_mvn(p, seed, iters):
    from aemcmc.gibbs import normal_regression_posterior

    def build(srng):
        X = at.matrix("X")
        return [X], [normal_regression_posterior(srng, at.ones(X.shape[0]), at.ones(X.shape[1]), X, at.ones(X.shape[0]))], {}

    return fn_history(build, [np.arange(6.0).reshape(3, 2)], iters + 1, seed)


def h_pg(p, seed, iters):
    from aemcmc.dists import polyagamma

    def build(srng):
        z = at.vector("z")
        return [z], [srng.gen(polyagamma, 1.5, z), srng.gen(polyagamma, 2.0, z)], {}

    return fn_history(build, [np.array([0.1, 2.0, -3.0])], iters + 2, seed)


def h_separate(p, seed, iters):
    """Two samplers whose steps draw from another stream than the model's variables."""
    from aemcmc.basic import construct_sampler

    model = families.regmodel(np.random.default_rng(1), "separate", n=4, p=2, prior="hs", h="gamma")
    srng, other = at.random.RandomStream(seed + 1), at.random.RandomStream(seed)
    env, ins, obs = model.build(srng)
    own = {env[n].owner.inputs[0]: core.rng_state(env[n].owner.inputs[0].get_value()) for n, *_ in model.nodes}
    lat = [n for n, *_ in model.nodes if n not in model.obs]
    fs = []
    for _ in range(2):
        try:
            with Quiet():
                S, init = construct_sampler(obs, other)
                fs.append(aesara.function(
                    [v for _, v in ins] + [obs[env[n]] for n in model.obs] + [init[env[n]] for n in lat],
                    [S.sample_steps[env[n]] for n in lat], updates=S.updates, mode=MODE, on_unused_input="ignore"))
        except Exception as e:
            raise RepoError(f"{type(e).__name__}: {str(e)[:200]}") from e
    vals = model.values()
    args = [vals[n] for n, _ in ins] + [vals[n] for n in model.obs] + [vals[n] for n in lat]
    calls, res = [], []

    def run(f):
        REC.start()
        try:
            with Quiet(), np.errstate(all="ignore"):
                o = f(*args)
        finally:
            draws = REC.stop()
        return call_json(draws, f), digest({str(i): x for i, x in enumerate(o)})

    for _ in range(iters):
        for f in fs:
            c, d = run(f)
            calls.append(c)
            res.append(d)
    for g, st in own.items():
        if core.rng_state(g.get_value()) != st:
            raise RepoError("a sampler draws from the generators of the model's variables, not from those of its stream")
    # seeding the stream again starts the chain again
    runs = []
    for sd in (seed, seed, seed + 5):
        other.seed(sd)
        runs.append([run(f)[1] for f in fs for _ in range(2)])
    if runs[0] != runs[1]:
        raise RepoError("a stream that is seeded again with the same seed yields another chain")
    if any(x == y for x, y in zip(runs[0], runs[2])):
        raise RepoError("a stream that is seeded again with another seed yields the same chain")
    return calls, res


HELPERS = ["h_separate", "h_ffbs", "h_crt", "h_disp", "h_prior", "h_priors", "h_mvn", "h_pg"]


def child(spec):
    """Run in a process of its own: results of a program, for a seed."""
    r = np.random.default_rng(int(spec["rseed"]))
    real = spec["real"]
    core.load(nuts="real" if real else "stub")
    core.NUTS_DRAWS = True
    res = []
    for name in spec["models"]:
        m = find(name, np.random.default_rng(int(spec["rseed"])), "quick") if real else \
            [x for x in sampler_models(np.random.default_rng(int(spec["rseed"])), "quick") if x.name == name][0]
        try:
            calls, outs = run_history(m, spec["seed"], spec["iters"], real=real, chains=1)
            res.append({"name": name, "calls": calls, "seed": spec["seed"], "res": outs, "err": None})
        except RepoError as e:
            res.append({"name": name, "calls": [], "seed": spec["seed"], "res": [], "err": str(e)})
        except Exception:
            res.append({"name": name, "calls": [], "seed": spec["seed"], "res": [],
                        "err": "the behaviour can't be interpreted: " + traceback.format_exc()[-1500:]})
    return res


def spawn(specs, workers=8):
    import concurrent.futures as cf

    def one(sp):
        e = dict(os.environ)
        e["PYTHONHASHSEED"] = str(sp["hash"])
        p = subprocess.run([sys.executable, os.path.abspath(__file__), json.dumps(sp)], env=e, capture_output=True,
                           text=True, timeout=600)
        if p.returncode != 0:
            raise tlc.MachineryError("a child process failed:\n" + p.stderr[-2000:])
        return json.loads(p.stdout.splitlines()[-1])

    with cf.ThreadPoolExecutor(workers) as ex:
        return list(ex.map(one, specs))


def run(prop, tier, seed, rep):
    core.load()
    core.NUTS_DRAWS = True
    tlc.num_classes()
    iters = 3 if tier == "quick" else 6
    ms = sampler_models(np.random.default_rng(seed), tier)
    ms += composed_models(seed, tier, rep)
    jobs = [("sampler", f"history:{m.name}", m, 1000 + seed, iters) for m in ms]
    jobs += [(h, f"history:{h[2:]}", None, 1000 + seed, iters) for h in HELPERS]
    cases = []
    # the same programs in other processes, with other hash seeds, and with another seed
    real = REAL[:1] if tier == "quick" else REAL
    names = ["c-hs-nb-h", "c-two-disp", "conj-three", "nb-wide"]
    specs = []
    for hs, sd in ((1, 7), (2, 7), (3, 8)) if tier == "quick" else ((1, 7), (2, 7), (3, 7), (4, 7), (0, 8)):
        specs.append(dict(hash=hs, seed=sd, models=names, real=False, iters=2, rseed=seed))
    for name in real:
        for hs, sd in ((1, 7), (4, 7), (0, 8)):
            specs.append(dict(hash=hs, seed=sd, models=[name], real=True, iters=3, rseed=seed))
    specs.sort(key=lambda s: not s["real"])
    import concurrent.futures as cf

    with cf.ThreadPoolExecutor(1) as ex:
        fut = ex.submit(spawn, specs, 4)
        for name, c, err in sampler_checks.pool_map(history_job, jobs, workers=5):
            if err:
                rep.violation(name, err)
            else:
                cases.append(c)
        rs = fut.result()
    by = {}
    for group in rs:
        for x in group:
            if x["err"]:
                rep.violation("process:" + x["name"], x["err"])
            by.setdefault(x["name"], []).append(x)
    for name, xs in by.items():
        cases.append({"id": f"processes:{name}", "calls": xs[0]["calls"],
                      "runs": [{"seed": x["seed"], "res": x["res"]} for x in xs]})
    for c in cases[:2]:
        rep.sample({"case": c["id"], "calls": len(c["calls"]), "draws": len(c["calls"][0]["draws"])})
    rep.cov["histories"] = len(cases)
    rep.cov["draws"] = sum(len(k["draws"]) for c in cases for k in c["calls"])
    sampler_checks.judge("Rng", cases, rep)
    rep.assumptions = ["a generator's state is identified by a hash of its bit generator's state",
                       "the Python linker evaluates draws in the way that the compiled functions do"]


if __name__ == "__main__":
    out = child(json.loads(sys.argv[1]))
    core.cleanup()
    print(json.dumps(out))
