"""Build, compile and run samplers while recording what they do."""
import numpy as np

import core
from core import MODE, NUTS_REC, REC, Quiet, aesara, at, draw_json, tens


class RepoError(Exception):
    """The code under test raised on something it has to handle."""


class Session:
    """The sampler that aemcmc constructs for a model."""

    def __init__(self, model, seed=123, mode=MODE, sampler=None):
        self.model = model
        self.srng = at.random.RandomStream(seed)
        self.env, self.ins, self.obs = model.build(self.srng)
        self.dists = {n: d for n, d, *_ in model.nodes}
        self.lat = [n for n, *_ in model.nodes if n not in model.obs and n not in model.extra]
        from aemcmc.basic import construct_sampler

        try:
            with Quiet():
                self.sampler, self.init = construct_sampler(self.obs, self.srng)
        except Exception as e:
            raise RepoError(f"construct_sampler raised {type(e).__name__}: {e}") from e
        for n in self.lat:
            if self.env[n] not in self.init:
                raise RepoError(f"the sampler has no initial value for {n}")
            if self.env[n] not in self.sampler.sample_steps:
                raise RepoError(f"the sampler has no step for {n}")
        self.names = {self.env[n]: n for n in self.lat}
        self.mode = mode
        self.fn = None

    # -- the description of the sampler
    def kind(self, step):
        from aemcmc.nuts import NUTSKernel

        if step.owner is None:
            return "none"
        if isinstance(step.owner.op, NUTSKernel):
            return "nuts"
        return "gibbs"

    def kernel_name(self, rv):
        from aesara.tensor.random.op import RandomVariable

        step = self.sampler.sample_steps[rv]
        if step.owner is None:
            return "none"
        if isinstance(step.owner.op, RandomVariable):
            return "rv:" + step.owner.op.name
        return type(step.owner.op).__name__

    def stages(self):
        """The stages in scan order."""
        res = []
        by_key = {}
        for rv, step in self.sampler.sample_steps.items():
            owner = step.owner
            key = owner if owner is not None else step
            if key not in by_key:
                by_key[key] = {"kind": self.kind(step), "vars": []}
                res.append(by_key[key])
            by_key[key]["vars"].append(self.names.get(rv, str(rv)))
        return res

    def obs_inputs(self):
        return [n for n in self.model.obs if self.model.obs_kind.get(n, "var") in ("var", "typed", "expr")]

    # -- running it
    def compile(self):
        from aemcmc.nuts import NUTSKernel  # noqa: F401

        S = self.sampler
        self.params = []
        for p in S.parameters.values():
            self.params += list(p)
        inputs = (
            [v for _, v in self.ins]
            + [self.model.raw.get(n, self.obs[self.env[n]]) for n in self.obs_inputs()]
            + [self.init[self.env[n]] for n in self.lat]
            + self.params
        )
        outputs = [S.sample_steps[self.env[n]] for n in self.lat]
        try:
            with Quiet():
                self.fn = aesara.function(
                    inputs, outputs, updates=S.updates, mode=self.mode, on_unused_input="ignore"
                )
        except Exception as e:
            raise RepoError(f"compiling the sampler raised {type(e).__name__}: {e}") from e
        return self

    def call(self, values, delta=None, script=None):
        """One iteration: returns (outs, draws, nuts records)."""
        if self.fn is None:
            self.compile()
        NUTS_REC.clear()
        args = [values[n] for n, _ in self.ins]
        args += [-values[n] if n in self.model.raw else values[n] for n in self.obs_inputs()]
        args += [values[n] for n in self.lat]
        for p in self.params:
            args.append(np.asarray(0.1 if p.type.ndim == 0 else delta, dtype=p.type.dtype))
        args = [np.asarray(a) for a in args]
        allv = [v for _, v in self.ins]
        REC.start(script)
        try:
            with Quiet(), np.errstate(all="ignore"):
                res = self.fn(*args)
        except Exception as e:
            raise RepoError(f"running the sampler raised {type(e).__name__}: {str(e)[:300]}") from e
        finally:
            draws = REC.stop()
        outs = {n: np.asarray(r) for n, r in zip(self.lat, res)}
        return outs, draws, [list(r) for r in NUTS_REC]

    def nuts_size(self, values):
        n = 0
        for st in self.stages():
            if st["kind"] == "nuts":
                for v in st["vars"]:
                    x = np.asarray(values[v])
                    # a simplex has one dimension less
                    n += x.size - (x.size // x.shape[-1] if self.dists[v] == "dirichlet" else 0)
        return n


def dedupe(draws):
    seen, res = set(), []
    for d in draws:
        key = (
            d["dist"],
            d["before"],
            tuple(a.tobytes() for a in d["args"]),
            d["out"].tobytes(),
            d["out"].shape,
        )
        if key not in seen:
            seen.add(key)
            res.append(d)
    return res


def normal_like(d):
    return d["dist"] in ("normal", "standard_normal", "multivariate_normal")


def script_normals(ref, zs):
    """A script that repeats the draws `ref`, with the normal ones standardised to `zs`."""

    def f(i, name, args, out):
        if i >= len(ref) or ref[i]["dist"] != name:
            raise RuntimeError("the draws of a replay differ from the recorded ones")
        if i in zs:
            z = zs[i]
            if name == "multivariate_normal":
                L = np.linalg.cholesky(np.atleast_2d(args[1]))
                return args[0] + z @ L.T
            if name == "standard_normal":
                return z
            return args[0] + args[1] * z
        if ref[i]["out"].shape != out.shape:
            raise RuntimeError("the draws of a replay differ from the recorded ones")
        return ref[i]["out"]

    return f


def zvalue(d):
    if d["dist"] == "multivariate_normal":
        L = np.linalg.cholesky(np.atleast_2d(d["args"][1]))
        return np.linalg.solve(L, (d["out"] - d["args"][0]).T).T
    if d["dist"] == "standard_normal":
        return d["out"]
    return (d["out"] - d["args"][0]) / d["args"][1]


def affine_probe(run, draws, what):
    """Responses of `what(result)` to the standard normals behind the draws.

    `run(script)` repeats the execution that gave `draws`.
    """
    idx = [i for i, d in enumerate(draws) if normal_like(d)]
    zs0 = {i: np.zeros_like(draws[i]["out"], dtype=float) for i in idx}
    m = what(run(script_normals(draws, zs0)))
    cols, z = [], []
    for i in idx:
        zi = np.asarray(zvalue(draws[i]), dtype=float).ravel()
        for j in range(draws[i]["out"].size):
            zs = {k: v.copy() for k, v in zs0.items()}
            zs[i].ravel()[j] = 1.0
            r = what(run(script_normals(draws, zs)))
            cols.append({n: r[n] - m[n] for n in r})
            z.append(float(zi[j]))
    return m, cols, z


def iterate(sess, values, cid, delta=None, script=None, known=True):
    """Run one iteration and return the trace for SamplerTrace and the new values."""
    outs, draws, nuts = sess.call(values, delta, script)
    stages = sess.stages()
    case = {
        "id": cid,
        "model": sess.model.json(),
        "obs": list(sess.model.obs),
        "known": known,
        "must": [],
        "kinds": {"_": "none"},
        "env": {n: tens(v) for n, v in values.items()},
        "stages": stages,
        "draws": [draw_json(d) for d in dedupe(draws)],
        "outs": {n: tens(v) for n, v in outs.items()},
        "probe": {"_": {}},
        "nuts": {"q0": [], "q1": [], "lf0": "0", "lf1": "0"},
    }
    if nuts:
        q1, q0, lf0, lf1 = nuts[-1][:4]
        case["nuts"] = {
            "q0": tens(q0)["d"],
            "q1": tens(q1)["d"],
            "lf0": core.num(lf0),
            "lf1": core.num(lf1),
        }
    reg = [
        st["vars"][0]
        for st in stages
        if st["kind"] == "gibbs"
        and [d for n, d, *_ in sess.model.nodes if n == st["vars"][0]] == ["normal"]
    ]
    if reg:
        m, cols, z = affine_probe(
            lambda s: sess.call(values, delta, s)[0],
            draws,
            lambda r: {v: r[v] for v in reg},
        )
        for v in reg:
            case["probe"][v] = {
                "m": tens(m[v]),
                "cols": [tens(c[v]) for c in cols],
                "z": [core.num(x) for x in z],
            }
    new = dict(values)
    new.update(outs)
    return case, new
