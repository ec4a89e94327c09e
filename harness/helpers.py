"""Recordings of the posterior functions that users call directly."""
import itertools
import zlib

import numpy as np

import core
from core import MODE, NUTS_REC, REC, Quiet, aesara, at, draw_json, tens
from families import pos, real, unit
from model import Model, V, fn, sigmoid
from session import RepoError, Session, affine_probe, dedupe, iterate


class Helper(Session):
    """A posterior function applied to symbolic inputs, as a one-stage sampler of `model`."""

    def __init__(self, model, build, stages, seed=5, outs=None):
        self.model = model
        self.srng = at.random.RandomStream(seed)
        self._stages = stages
        vals = model.values()
        self.tv = {n: at.tensor(name=n, dtype=str(np.asarray(v).dtype), shape=(None,) * np.asarray(v).ndim)
                   for n, v in vals.items()}
        try:
            with Quiet():
                self.outs, self.updates = build(self.srng, self.tv)
        except Exception as e:
            raise RepoError(f"{model.name} raised {type(e).__name__}: {str(e)[:300]}") from e
        self.lat = list(self.outs)
        self.order = list(vals)
        self.fn = None

    def stages(self):
        return self._stages

    def compile(self):
        try:
            with Quiet():
                self.fn = aesara.function(
                    [self.tv[n] for n in self.order], [self.outs[n] for n in self.lat],
                    updates=self.updates, mode=MODE, on_unused_input="ignore")
        except Exception as e:
            raise RepoError(f"compiling {self.model.name} raised {type(e).__name__}: {str(e)[:300]}") from e
        return self

    def call(self, values, delta=None, script=None):
        if self.fn is None:
            self.compile()
        REC.start(script)
        try:
            with Quiet(), np.errstate(all="ignore"):
                res = self.fn(*[np.asarray(values[n]) for n in self.order])
        except RuntimeError:
            raise
        except Exception as e:
            raise RepoError(f"running {self.model.name} raised {type(e).__name__}: {str(e)[:300]}") from e
        finally:
            draws = REC.stop()
        return {n: np.asarray(r) for n, r in zip(self.lat, res)}, draws, []


def gibbs_stage(*vs):
    return [{"kind": "gibbs", "vars": list(vs)}]


def horseshoe_helpers(r, tier):
    """horseshoe_posterior, with a variance for the coefficients."""
    res = []
    for i in range(4 if tier == "quick" else 24):
        p = int(r.integers(1, 6))
        m = Model(f"horseshoe_posterior-{i}")
        s2 = m.inp("s2", float(pos(r)))
        m.rv("tau", "halfcauchy", 0.0, 1.0, init=float(pos(r)))
        m.rv("lam", "halfcauchy", 0.0, 1.0, init=pos(r, p))
        m.rv("beta", "normal", 0.0, V("lam") * V("tau") * fn("sqrt", s2), obs=real(r, p))

        def build(srng, tv):
            from aemcmc.gibbs import horseshoe_posterior

            l, t = horseshoe_posterior(srng, tv["beta"], tv["s2"], tv["lam"] ** 2, tv["tau"] ** 2)
            return {"lam": l, "tau": t}, {}

        res.append((m, build, gibbs_stage("lam", "tau")))
    return res


def regression_helpers(r, tier):
    res = []
    shapes = [(5, 2), (2, 4), (3, 3), (4, 1)] if tier == "quick" else \
        [(n, p) for n in (1, 2, 3, 6) for p in (1, 2, 3, 5)]
    for n, p in shapes:
        m = Model(f"bern_normal_posterior-{n}x{p}")
        X = m.inp("X", real(r, n, p), what="design")
        sd = m.inp("sd", pos(r, p))
        m.rv("beta", "normal", 0.0, sd, init=real(r, p))
        m.rv("Y", "bernoulli", sigmoid(X @ V("beta")), obs=r.integers(0, 2, size=n))

        def build(srng, tv):
            from aemcmc.gibbs import bern_normal_posterior

            return {"beta": bern_normal_posterior(srng, tv["beta"], tv["sd"], tv["X"], tv["Y"])}, {}

        res.append((m, build, gibbs_stage("beta")))
        for vech in (False, True):
            m = Model(f"nbinom_normal_posterior-{n}x{p}{'v' if vech else ''}")
            X = m.inp("X", real(r, n, p), what="design")
            sd = m.inp("sd", pos(r, p))
            h = m.inp("h", pos(r, n) if vech else float(pos(r)))
            m.rv("beta", "normal", 0.0, sd, init=real(r, p))
            m.rv("Y", "nbinom", h, sigmoid(-(X @ V("beta"))), obs=r.integers(0, 7, size=n))

            def build(srng, tv):
                from aemcmc.gibbs import nbinom_normal_posterior

                return {"beta": nbinom_normal_posterior(srng, tv["beta"], tv["sd"], tv["X"], tv["h"], tv["Y"])}, {}

            res.append((m, build, gibbs_stage("beta")))
    return res


def dispersion_helpers(r, tier):
    res = []
    for i in range(6 if tier == "quick" else 30):
        n = int(r.integers(1, 6)) if i != 5 else 5
        m = Model(f"nbinom_dispersion_posterior-{i}{'-many' if i == 5 else ''}")
        p = m.inp("p", unit(r, n), what="unit")
        a, b = m.inp("a", float(pos(r))), m.inp("b", float(pos(r)))
        # the function's p is the probability of what the observations count; b is a scale
        h = m.rv("h", "gamma", a, fn("recip", b), init=float(pos(r)))
        m.rv("Y", "nbinom", h, 1.0 - p, obs=[4, 33000, 0, 1, 7][-n:] if i == 5 else r.integers(0, [1, 4, 12][i % 3] + 1, size=n))

        def build(srng, tv):
            from aemcmc.gibbs import nbinom_dispersion_posterior
            from aemcmc.utils import get_rv_updates

            out, upd = nbinom_dispersion_posterior(srng, tv["h"], tv["p"], tv["a"], tv["b"], tv["Y"])
            return {"h": out}, upd

        res.append((m, build, gibbs_stage("h")))
    tall = [33000] if tier == "quick" else [33000, 70000]
    for i in range((4 if tier == "quick" else 20) + len(tall)):
        sh = [(3,), (5,), (2, 3), (1,)][i % 4]
        top = [6, 2, 9, 1][i % 4]
        m = Model(f"sample_CRT-{i}")
        m.inp("y", r.integers(0, top + 1, size=sh))
        if i < len(tall):
            m = Model(f"sample_CRT-{i}-many")
            sh = (2,)
            m.inp("y", np.array([tall[i], 3]))
        small = i == len(tall) + 3
        if small:
            m = Model(f"sample_CRT-{i}-small-many")
            m.inp("y", r.integers(0, top + 8, size=sh))
        m.inp("h", float(pos(r)) * (1e-5 if small else 1.0))
        m.rv("l", "poisson", 1.0, init=np.zeros(sh))

        def build(srng, tv):
            from aemcmc.gibbs import sample_CRT

            out, upd = sample_CRT(srng, tv["y"], tv["h"])
            return {"l": out}, upd

        res.append((m, build, [{"kind": "crt", "vars": ["l"]}]))
    return res


# ---------------------------------------------------------------------------
# P06: multivariate normal samplers


def mvn_jobs(r, tier):
    jobs = []
    for i in range(4 if tier == "quick" else 30):
        p = 1 + i % 5
        B = real(r, p, p + 1)
        jobs.append(("rue", f"rue2005-{i}", dict(Q=np.round(B @ B.T + 0.3 * np.eye(p), 6), b=real(r, p))))
    shapes = [(3, 2), (2, 4), (3, 3), (1, 2)] if tier == "quick" else [(n, p) for n in range(1, 6) for p in range(1, 6)]
    for n, p in shapes:
        jobs.append(("cong", f"cong2017-{n}x{p}", dict(A=pos(r, p), omega=pos(r, n), phi=real(r, n, p), t=real(r, n))))
        for f in ("reg", "over", "under"):
            jobs.append((f, f"normal_regression_{f}-{n}x{p}",
                         dict(omega=pos(r, n), s=pos(r, p), X=real(r, n, p), z=real(r, n))))
    # scales that are far apart
    jobs.append(("reg", "normal_regression-scales", dict(omega=np.array([1e-4, 10.0, 300.0]), s=np.array([1e-2, 20.0]), X=real(r, 3, 2), z=real(r, 3))))
    jobs.append(("reg", "normal_regression-scales-wide", dict(omega=np.array([1e-3, 50.0]), s=np.array([0.05, 20.0, 3.0]), X=real(r, 2, 3), z=real(r, 2))))
    for f in ("reg", "under", "over"):  # priors that are almost flat, or almost fix their coefficients
        jobs.append((f, f"normal_regression_{f}-flat", dict(omega=np.array([0.7, 2.0]), s=np.array([1.5e-3, 400.0, 0.8]), X=real(r, 2, 3), z=real(r, 2))))
    jobs.append(("rue", "rue2005-scales", dict(Q=np.array([[3e-6, 1e-5], [1e-5, 2e3]]), b=np.array([1e-3, 50.0]))))
    jobs.append(("cong", "cong2017-scales", dict(A=np.array([1e-6, 1e4, 1.0]), omega=np.array([2e-6, 5e3]), phi=real(r, 2, 3), t=real(r, 2))))
    tight = dict(omega=np.array([0.7, 2.0]), X=real(r, 2, 3), z=real(r, 2))
    for f in ("reg", "under", "over"):  # a coefficient without a prior to speak of, and others that are zero
        jobs.append((f, f"normal_regression_{f}-tight", dict(s=np.array([3e4, 0.5, 2e5]), **tight)))
        jobs.append((f, f"normal_regression_{f}-tight-tall", dict(omega=pos(r, 4), s=np.array([4e4, 0.9]), X=real(r, 4, 2), z=real(r, 4))))
    jobs.append(("cong", "cong2017-tight", dict(A=np.array([1e10, 0.5, 3e-8]), omega=np.array([3e-9, 7e8]), phi=real(r, 2, 3), t=real(r, 2))))
    jobs.append(("cong", "cong2017-flat", dict(A=np.array([3e-8, 2e-8]), omega=np.array([2.0]), phi=real(r, 1, 2), t=real(r, 1))))
    for name, o in (("rue2005-sparse", 0.5), ("rue2005-sparse-csr", -0.6)):
        jobs.append(("sparse", name, dict(Q=np.array([[2.0, o, 0], [o, 1.5, 0], [0, 0, 0.7]]), b=real(r, 3))))
    return jobs


MVN_TARGET = {"rue": "canonical", "sparse": "canonical", "cong": "structured", "reg": "regression", "over": "regression", "under": "regression"}


def mvn_build(kind, srng, tv, name=""):
    from aemcmc import dists, gibbs

    if kind == "rue":
        return dists.multivariate_normal_rue2005(srng, tv["b"], tv["Q"])
    if kind == "sparse":
        import aesara.sparse as sp

        as_sparse = sp.csr_from_dense if name.endswith("csr") else sp.csc_from_dense
        return dists.multivariate_normal_rue2005(srng, tv["b"], as_sparse(tv["Q"]))
    if kind == "cong":
        return dists.multivariate_normal_cong2017(srng, tv["A"], tv["omega"], tv["phi"], tv["t"])
    f = {
        "reg": gibbs.normal_regression_posterior,
        "over": gibbs.normal_regression_overdetermined_posterior,
        "under": gibbs.normal_regression_underdetermined_posterior,
    }[kind]
    return f(srng, tv["omega"], tv["s"], tv["X"], tv["z"])


def mvn_other(kind, ins, r):
    """Inputs of other shapes and scales for the same compiled function."""
    if kind == "sparse":
        return dict(Q=np.array([[0.9, -0.3], [-0.3, 4.0]]), b=real(r, 2))
    if kind == "rue":
        p = len(ins["b"]) % 5 + 1
        B = real(r, p, p + 1) * 10.0 ** r.uniform(-1, 1, size=(p, 1))
        return dict(Q=B @ B.T + 0.1 * np.eye(p), b=real(r, p))
    n, p = ins["phi" if kind == "cong" else "X"].shape
    n, p = (p + 1, n) if n == p else (p, n)
    wide = lambda k: pos(r, k) * 10.0 ** np.round(r.uniform(-1.5, 1.5, size=k), 2)  # noqa: E731
    if kind == "cong":
        return dict(A=wide(p), omega=wide(n), phi=real(r, n, p), t=real(r, n))
    return dict(omega=wide(n), s=wide(p), X=real(r, n, p), z=real(r, n))


def mvn_record(job):
    kind, name, ins = job
    m = Model(name)
    for k, v in ins.items():
        m.inp(k, v)
    cases = []
    try:
        s = Helper(m, lambda srng, tv: ({"x": mvn_build(kind, srng, tv, name)}, {}), [], seed=11)
        r = np.random.default_rng(zlib.crc32((name + repr(ins)).encode()))
        for tag, vals in (("", m.values()), ("~other", mvn_other(kind, ins, r))):
            outs, draws, _ = s.call(vals)
            mm, cols, z = affine_probe(lambda sc: s.call(vals, None, sc)[0], draws, lambda r: {"x": r["x"]})
            cases.append({
                "id": name + tag,
                "target": MVN_TARGET[kind],
                "ins": {k: tens(v) for k, v in vals.items()},
                "out": tens(outs["x"]),
                "m": tens(mm["x"]),
                "cols": [tens(c["x"]) for c in cols],
                "z": [core.num(x) for x in z],
            })
    except RepoError as e:
        return name, cases, str(e)
    return name, cases, None


# ---------------------------------------------------------------------------
# P05: FFBS


def ffbs_jobs(r, tier):
    """(name, gamma0, Gammas, log_lik, bound or None, scripts)"""
    jobs = []

    def stoch(*sh):
        x = r.uniform(0.05, 1.0, size=sh)
        return x / x.sum(-1, keepdims=True)

    sizes = [(2, 1), (2, 2), (2, 4), (3, 3), (4, 2)] if tier == "quick" else \
        [(2, 1), (3, 1), (2, 2), (2, 3), (2, 5), (2, 6), (3, 2), (3, 3), (3, 4), (4, 2), (4, 3)]
    k = 0
    for M, N in sizes:
        for tv in (True, False):
            for extra in ("plain", "zeros", "rescale", "g0scale", "offsets", "spread", "values"):
                if tier == "quick" and extra != "plain" and (M, N) not in ((2, 4), (3, 3)):
                    continue
                if tier == "quick" and extra in ("offsets", "spread", "values") and M == 3:
                    continue
                G = stoch(N if tv else 1, M, M)
                g0 = stoch(M)
                ll = np.round(r.normal(-3, 3, size=(M, N)), 3)
                bound = None
                if extra == "zeros":
                    G[:, 0, 1:] *= 0
                    G /= G.sum(-1, keepdims=True)
                    ll[r.integers(M, size=N), np.arange(N)] = -np.inf
                    if M == 2:
                        G = stoch(N if tv else 1, M, M)
                    g0 = np.eye(M)[M - 1]
                if extra == "rescale":
                    bound = 0.4
                    ll -= 200.0
                if extra == "offsets":  # only differences within a column matter
                    ll += np.array([1500.0, -1800.0, 720.0, -750.0, 0.0])[np.arange(N) % 5]
                if extra == "spread":
                    ll[0] += np.array([300.0, -300.0])[np.arange(N) % 2]
                if extra == "values":  # numbers rather than variables
                    g0 = np.arange(1, M + 1)
                if extra == "g0scale":
                    g0 = 3.0 * g0
                paths = list(itertools.product(range(M), repeat=N))
                jobs.append((f"ffbs-{M}x{N}-{'tv' if tv else 'const'}-{extra}", g0, G, ll, bound, paths))
    for N, M in [(60, 2), (40, 3)] if tier == "quick" else [(60, 2), (40, 3), (150, 2), (100, 4)]:
        for tv in (True, False):
            G = stoch(N if tv else 1, M, M)
            ll = np.round(r.normal(-30, 12, size=(M, N)), 3)
            if tv:
                ll += np.round(r.normal(0, 900, size=N), 1)
            jobs.append((f"ffbs-long-{M}x{N}-{'tv' if tv else 'const'}", stoch(M), G, ll, None,
                         [None, tuple(r.integers(M, size=N))]))
    # a state that's never reached has much larger likelihoods than the others
    N = 50
    G = np.array([[[0.7, 0.3, 0.0], [0.4, 0.6, 0.0], [0.0, 0.0, 1.0]]])
    ll = np.round(r.normal(0, 1, size=(3, N)), 3)
    ll[:2] -= 69.0
    jobs.append(("ffbs-long-unreachable", np.array([0.5, 0.5, 0.0]), G, ll, None, [None, tuple(r.integers(2, size=N))]))
    # .. or likelihoods that are hardly representable by the side of those
    G = np.array([[[0.0, 0.7, 0.3], [0.0, 0.4, 0.6], [0.0, 0.2, 0.8]]])
    ll = np.array([[0.0, 3.0, -5.0], [-600.0, -480.0, -655.0], [-450.0, -600.0, -657.0]])
    jobs.append(("ffbs-3x3-const-hardly", np.array([0.2, 0.5, 0.3]), G, ll, None, list(itertools.product((1, 2), repeat=3))))
    return jobs


def ffbs_run(f, g0, G, ll, path, known):
    """Run f along a path: the states it returns, and (probabilities, state) of each draw of a state."""
    M, N = ll.shape

    def run(script):
        REC.start(script)
        try:
            with Quiet(), np.errstate(all="ignore"):
                st = f(g0, G, ll)
        finally:
            draws = REC.stop()
        return np.ravel(st), draws

    def p_of(nm, args):  # of the distributions whose parameters are the states' probabilities
        if nm == "categorical":
            return np.ravel(args[-1])
        if nm == "multinomial" and np.size(args[0]) == 1 and np.ravel(args[0])[0] == 1:
            return np.ravel(args[1])
        ps = [a for a in args if a.ndim == 1 and a.dtype.kind == "f" and abs(a.sum() - 1) < 1e-6]
        return np.ravel(ps[-1]) if nm == "choice" and ps else None

    def state(nm, out):
        return int(np.argmax(out)) if nm == "multinomial" else np.ravel(out)[0]

    count = [0]

    def script(i, nm, args, o):
        p = p_of(nm, args)
        if p is None:
            return None
        k = count[0]
        count[0] += 1
        if path is None or k >= N or not p[path[N - 1 - k]] > 0:
            return None
        return np.eye(M)[path[N - 1 - k]] if nm == "multinomial" else path[N - 1 - k]

    st, draws = run(script)
    cats = [(p_of(d["dist"], d["args"]), state(d["dist"], d["out"])) for d in draws if p_of(d["dist"], d["args"]) is not None]
    if cats or not any(d["dist"] == "uniform" for d in draws):
        return st, cats
    # States that are found by inverting their distribution function: the probabilities are the widths of the
    # intervals of the uniform draw that lead to the states
    if path is None or N > 6:
        return st, None

    def at_(us):
        k = [0]

        def script(i, nm, args, o):
            if nm != "uniform":
                return None
            x = np.array([us[j] if j < len(us) else 0.5 for j in range(k[0], k[0] + o.size)])
            k[0] += o.size
            return args[0] + (args[1] - args[0]) * x

        return run(script)[0]

    us, res = [], []
    for k in range(N):
        key = (id(ll), tuple(us))
        if key not in known:
            ends = [int(at_([*us, u])[N - 1 - k]) for u in (1e-300, 1 - 2**-53)]
            cum = []
            for m in range(M - 1):
                up = ends[1] >= ends[0]
                below = lambda u: (int(at_([*us, u])[N - 1 - k]) <= m) == up  # noqa: E731
                lo, hi = 0.0, 1.0
                if not below(1e-300):
                    hi = 0.0
                elif below(1 - 2**-53):
                    lo = 1.0
                for _ in range(54 if lo < hi else 0):
                    mid = (lo + hi) / 2
                    lo, hi = (mid, hi) if below(mid) else (lo, mid)
                cum.append((lo + hi) / 2 if up else 1 - (lo + hi) / 2)
            known[key] = np.diff([0.0, *cum, 1.0]), up if M > 1 else True
        p, up = known[key]
        s = path[N - 1 - k] if p[path[N - 1 - k]] > 1e-9 else int(np.argmax(p))
        u = p[:s].sum() + p[s] / 2
        us.append(u if up else 1 - u)
        res.append((p, s))
    return at_(us), res


def ffbs_record(job):
    name, g0, G, ll, bound, paths = job
    from aemcmc.ffbs import ffbs_step

    M, N = ll.shape
    srng = at.random.RandomStream(3)
    tg, tG, tl = at.vector("g0"), at.tensor3("G"), at.matrix("ll")
    cases = []
    try:
        with Quiet():
            kw = {} if bound is None else {"lower_prec_bound": bound}
            if name.endswith("-values"):
                out, upd = ffbs_step(g0, G, ll, srng, **kw)
                g = aesara.function([], out, updates=upd, mode=MODE)
                f = lambda *a: g()  # noqa: E731
            else:
                out, upd = ffbs_step(tg, tG, tl, srng, **kw)
                f = aesara.function([tg, tG, tl], out, updates=upd, mode=MODE)
        runs = [(f"{pi}", g0, G, ll, path) for pi, path in enumerate(paths)]
        if name.endswith("-plain"):  # the same function, for another model
            r = np.random.default_rng(M * 10 + N)
            M2, N2 = M % 3 + 2, N % 3 + 2
            G2 = r.uniform(0.05, 1.0, size=(1 if G.shape[0] == N > 1 else N2, M2, M2))
            G2 /= G2.sum(-1, keepdims=True)
            g2 = r.uniform(0.1, 1, size=M2)
            l2 = np.round(r.normal(-3, 3, size=(M2, N2)), 3)
            ps = list(itertools.product(range(M2), repeat=N2))
            runs += [(f"other-{j}", g2, G2, l2, ps[j]) for j in r.permutation(len(ps))[:6]]
            runs += [(f"one-{j}", g2, G2[:1], l2[:, :1], (j,)) for j in range(M2)]
            runs += [(f"again-{j}", g2, G2, l2, ps[j]) for j in r.permutation(len(ps))[:2]]
        known = {}
        for pi, g0, G, ll, path in runs:
            M, N = ll.shape
            st, draws = ffbs_run(f, g0, G, ll, path, known)
            if draws is None:
                continue
            cases.append({
                "id": f"{name}-{pi}",
                "M": M, "N": N,
                "gamma0": [core.num(x) for x in g0],
                "gammas": [[[core.num(x) for x in row] for row in g] for g in G],
                "ll": [[core.num(x) for x in row] for row in ll],
                "draws": [{"p": [core.num(x) for x in p], "out": core.num(o)} for p, o in draws],
                "states": [core.num(x) for x in np.ravel(st)],
                "brute": M ** N <= 100,
            })
    except Exception as e:
        return name, cases, f"{type(e).__name__}: {str(e)[:300]}"
    return name, cases, None
