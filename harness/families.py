"""Families of models whose samplers are recorded, with random numeric content."""
import itertools

import numpy as np

from model import Model, V, ds, exp, fn, sigmoid


def _par(m, r, name, how, value, kinds=True):
    """A parameter: a Python/array constant, a symbolic input, or a shared variable."""
    if how == "c":
        return value
    return m.inp(name, np.asarray(value, dtype=float), kind={"v": "var", "s": "shared"}[how])


def pos(r, *sh):
    return np.round(r.uniform(0.4, 3.0, size=sh), 3)


def unit(r, *sh):
    return np.round(r.uniform(0.1, 0.9, size=sh), 3)


def real(r, *sh):
    return np.round(r.normal(0, 1.2, size=sh), 3)


# ---------------------------------------------------------------------------
# P01: conjugate pairs


def conj(r, kind, shape, pk="c", vec=False, tag="", m=None, pre=""):
    """One conjugate pair.  shape: the prior's shape; pk: how parameters are given;
    vec: parameters have the shape of the prior (else they're scalars and size= is used)."""
    m = m or Model(f"conj-{kind}-{'x'.join(map(str, shape)) or 's'}-{pk}{'v' if vec else ''}{tag}")
    psh = shape if vec else ()
    a, b = pos(r, *psh), pos(r, *psh)
    if not psh:
        a, b = float(a), float(b)
    a, b = _par(m, r, pre + "a", pk, a), _par(m, r, pre + "b", pk, b)
    size = None if (vec or not shape) else list(shape)
    if kind == "gp":
        z = m.rv(pre + "z", "gamma", a, b, size=size, init=pos(r, *shape))
        m.rv(pre + "Y", "poisson", z, obs=r.integers(0, 9, size=shape))
    else:
        z = m.rv(pre + "z", "beta", a, b, size=size, init=unit(r, *shape))
        if kind == "bb":
            n = r.integers(4, 12, size=shape if vec else ())
            nn = m.inp(pre + "n", n.astype("int64"), kind={"c": "const", "v": "var", "s": "shared"}[pk], what="trials")
            m.rv(pre + "Y", "binomial", nn, z, obs=r.binomial(n, 0.4, size=shape))
        else:
            # the number of successes may be any positive number
            n = r.integers(2, 7, size=shape if vec else ()).astype("int64") if kind == "bnb" else pos(r, *(shape if vec else ()))
            nn = m.inp(pre + "n", n, kind={"c": "const", "v": "var", "s": "shared"}[pk], what="trials" if kind == "bnb" else "pos")
            m.rv(pre + "Y", "nbinom", nn, z, obs=r.integers(0, 9, size=shape))
    return m


def conj_models(r, tier):
    res = []
    for kind in ("gp", "bb", "bnb"):
        for shape, pk, vec in [
            ((), "c", False),
            ((), "v", False),
            ((3,), "c", False),
            ((3,), "v", True),
            ((2, 3), "c", True),
            ((), "s", False),
        ]:
            res.append(conj(r, kind, shape, pk, vec))
    for kind in ("gp", "bb", "bnb"):
        for how in ("const", "shared", "typed"):
            m = conj(r, kind, (3,), "v", True, tag=f"-{how}")
            m.obs_kind["Y"] = how
            res.append(m)
    for shape, pk, vec in [((), "c", False), ((3,), "v", True), ((2,), "s", False)]:
        res.append(conj(r, "bnbf", shape, pk, vec))
    # several pairs in one model, and chains with NUTS above
    m = Model("conj-three")
    for i, kind in enumerate(("bb", "gp", "bnb")):
        conj(r, kind, () if i == 1 else (2,), "c", False, m=m, pre=f"p{i}_")
    res.append(m)
    m = Model("conj-hyper-nuts")
    b = m.rv("b", "exponential", 1.5, init=0.8)
    z = m.rv("z", "gamma", 2.0, b, init=1.3)
    m.rv("Y", "poisson", z, obs=3)
    res.append(m)
    m = Model("conj-hyper-nuts-beta")
    b = m.rv("b", "gamma", 2.0, 1.0, size=[2], init=[0.8, 1.4])
    z = m.rv("z", "beta", 1.2, b, init=[0.3, 0.6])
    m.rv("Y", "binomial", 9, z, obs=[3, 7])
    res.append(m)
    for sh in ((2, 3), (2, 1, 2)):
        m = Model("conj-hyper-nuts-" + "x".join(map(str, sh)))
        mu = m.rv("mu", "normal", 0.0, 1.0, init=0.3)
        c = m.rv("c", "halfnormal", 0.0, 1.0, size=[sh[-1]], init=pos(r, sh[-1]))
        z = m.rv("z", "gamma", fn("add", c, 0.8), exp(mu), size=list(sh), init=pos(r, *sh))
        m.rv("Y", "poisson", z, obs=r.integers(0, 6, size=sh))
        res.append(m)
    if tier == "thorough":
        for kind, shape, pk, vec in itertools.product(
            ("gp", "bb", "bnb", "bnbf"), ((), (1,), (4,), (3, 2), (1, 3), (2, 2, 2)), "cvs", (False, True)
        ):
            for j in range(2):
                res.append(conj(r, kind, shape, pk, vec, tag=f"-r{j}"))
    return res


# ---------------------------------------------------------------------------
# P02-P04: horseshoes, regressions, dispersions


def regmodel(
    r,
    name,
    kind="nb",
    n=4,
    p=2,
    prior="scalar",
    h="const",
    xk="var",
    flip=False,
    tau1=False,
    hpar="c",
    ymax=6,
    hobs=None,
    ptype=None,
    order="hb",
    psd=1.0,
    xs=0.8,
    hin=1.7,
):
    m = Model(name)
    X = np.round(r.normal(0, xs, size=(n, p)), 3)
    X = m.inp("X", X, kind=xk, what="design")

    def mk_h():
        if h == "const":
            return float(np.round(r.uniform(1, 5), 2))
        if h == "input":
            return m.inp("h", float(np.round(r.uniform(1, 5), 2)))
        if h == "vector":
            return m.inp("h", np.round(r.uniform(1, 5, size=n), 2))
        if h == "gamma":
            return m.rv("h", "gamma", _par(m, r, "ha", hpar, 2.3), _par(m, r, "hb", hpar, 1.4), init=hin)
        if h == "exp":
            return m.rv("h", "exponential", 2.0, init=1.2)
        if h == "gammavec":
            return m.rv("h", "gamma", 2.0, 1.4, size=[n], init=pos(r, n))

    def mk_beta():
        # the models in the documentation size beta with the design matrix or a number
        size = [("X", 1)] if xk == "var" else [p]
        if prior == "scalar":
            return m.rv("beta", "normal", 0.0, 1.7, size=size, init=real(r, p))
        if prior == "vec":
            return m.rv("beta", "normal", 0.0, m.inp("sd", pos(r, p) * psd), init=real(r, p) * min(psd, 1.0))
        if prior == "hs":
            tau = m.rv("tau", "halfcauchy", 0.0, 1.0, size=[1] if tau1 else None, init=pos(r, *((1,) if tau1 else ())))
            lam = m.rv("lam", "halfcauchy", 0.0, 1.0, size=size, init=pos(r, p))
            sd = tau * lam if flip else lam * tau
            return m.rv("beta", "normal", 0.0, sd, size=size, init=real(r, p))
        if prior == "nutssd":
            s = m.rv("s", "halfnormal", 0.0, 2.0, init=1.1)
            return m.rv("beta", "normal", 0.0, s, size=size, init=real(r, p))

    if kind != "nb":
        b = mk_beta()
    elif order == "hb":
        hh = mk_h()
        b = mk_beta()
    else:
        b = mk_beta()
        hh = mk_h()
    pr = sigmoid(-(X @ b))
    if kind == "nb":
        m.rv("Y", "nbinom", hh, pr, obs=r.integers(0, ymax + 1, size=n))
    else:
        m.rv("Y", "bernoulli", pr, obs=r.integers(0, 2, size=n))
    return m


def horseshoe_models(r, tier):
    res = []
    # horseshoes over observed coefficients, over NUTS-sampled ones, and in regressions
    for i, (p, flip, t1) in enumerate([(3, False, False), (2, True, False), (4, False, True), (1, False, False), (3, True, True)]):
        m = Model(f"hs-obs-{p}{'f' if flip else ''}{'1' if t1 else ''}")
        tau = m.rv("tau", "halfcauchy", 0.0, 1.0, size=[1] if t1 else None, init=pos(r, *((1,) if t1 else ())))
        lam = m.rv("lam", "halfcauchy", 0.0, 1.0, size=[p], init=pos(r, p))
        m.rv("beta", "normal", 0.0, tau * lam if flip else lam * tau, size=[p], obs=real(r, p))
        res.append(m)
    m = Model("hs-nuts")
    tau = m.rv("tau", "halfcauchy", 0.0, 1.0, init=0.9)
    lam = m.rv("lam", "halfcauchy", 0.0, 1.0, size=[3], init=pos(r, 3))
    b = m.rv("beta", "normal", 0.0, lam * tau, size=[3], init=real(r, 3))
    m.rv("Y", "normal", b, 0.5, obs=real(r, 3))
    res.append(m)
    res.append(regmodel(r, "hs-nb", prior="hs", n=5, p=3))
    res.append(regmodel(r, "hs-bern", kind="bern", prior="hs", n=5, p=2, flip=True))
    m = Model("hs-two")
    for q in "AB":
        tau = m.rv("tau" + q, "halfcauchy", 0.0, 1.0, init=float(pos(r)))
        lam = m.rv("lam" + q, "halfcauchy", 0.0, 1.0, size=[2], init=pos(r, 2))
        m.rv("beta" + q, "normal", 0.0, lam * tau, size=[2], obs=real(r, 2))
    res.append(m)
    if tier == "thorough":
        for p, flip, t1, rep in itertools.product((1, 2, 3, 5, 8), (False, True), (False, True), range(3)):
            if p == 1 and t1:
                continue
            m = Model(f"hs-t-{p}{flip:d}{t1:d}-{rep}")
            tau = m.rv("tau", "halfcauchy", 0.0, 1.0, size=[1] if t1 else None, init=pos(r, *((1,) if t1 else ())) * 10.0 ** r.integers(-2, 2))
            lam = m.rv("lam", "halfcauchy", 0.0, 1.0, size=[p], init=pos(r, p) * 10.0 ** r.integers(-2, 2, size=p))
            m.rv("beta", "normal", 0.0, tau * lam if flip else lam * tau, size=[p], obs=real(r, p))
            res.append(m)
    return res


def regression_models(r, tier):
    res = [
        regmodel(r, "nb-tall", n=5, p=2),
        regmodel(r, "nb-wide", n=2, p=4),
        regmodel(r, "nb-square", n=3, p=3, prior="vec", h="input"),
        regmodel(r, "nb-vech", n=4, p=2, h="vector", prior="vec"),
        regmodel(r, "nb-hexp", n=4, p=2, h="exp"),
        regmodel(r, "nb-const", n=4, p=2, xk="const"),
        regmodel(r, "bern-tall", kind="bern", n=5, p=2),
        regmodel(r, "bern-wide", kind="bern", n=2, p=3, prior="vec"),
        regmodel(r, "bern-const", kind="bern", n=4, p=2, xk="const", prior="vec"),
        regmodel(r, "bern-nutssd", kind="bern", n=4, p=2, prior="nutssd"),
        regmodel(r, "bern-one", kind="bern", n=3, p=1),
        # numbers of unusual sizes ("-many": no others)
        regmodel(r, "nb-tight-many", n=4, p=2, prior="vec", psd=2e-4),
        regmodel(r, "bern-tight-many", kind="bern", n=4, p=2, prior="vec", psd=2e-4),
        regmodel(r, "nb-flat-many", n=4, p=2, prior="vec", psd=3e4),
        regmodel(r, "bern-flat-many", kind="bern", n=4, p=2, prior="vec", psd=3e4),
        regmodel(r, "nb-flat-wide-many", n=2, p=3, prior="vec", psd=3e3),
        regmodel(r, "bern-flat-wide-many", kind="bern", n=2, p=3, prior="vec", psd=3e3),
        regmodel(r, "nb-far-many", n=4, p=2, xs=150.0),
        regmodel(r, "bern-far-many", kind="bern", n=4, p=2, xs=150.0),
    ]
    if tier == "thorough":
        for kind, (n, p), prior, xk in itertools.product(
            ("nb", "bern"), ((6, 2), (2, 5), (3, 3), (1, 2), (8, 3)), ("scalar", "vec", "hs", "nutssd"), ("var", "const")
        ):
            res.append(regmodel(r, f"t-{kind}-{n}x{p}-{prior}-{xk}", kind=kind, n=n, p=p, prior=prior, xk=xk,
                                h=["const", "input", "vector", "exp"][len(res) % 4]))
    return res


def dispersion_models(r, tier):
    res = [
        regmodel(r, "disp-a", n=4, p=2, h="gamma", ymax=6),
        regmodel(r, "disp-b", n=3, p=2, h="gamma", hpar="v", ymax=3, order="bh"),
        regmodel(r, "disp-c", n=6, p=1, h="gamma", ymax=1),
        regmodel(r, "disp-d", n=2, p=3, h="gamma", ymax=12, prior="vec", hpar="s"),
        regmodel(r, "disp-hs", n=4, p=2, h="gamma", prior="hs"),
        regmodel(r, "disp-small-many", n=4, p=2, h="gamma", hin=2.3e-3, ymax=9),
        regmodel(r, "disp-big-many", n=4, p=2, h="gamma", hin=2.7e5, ymax=9),
    ]
    if tier == "thorough":
        for i in range(16):
            res.append(regmodel(r, f"disp-t{i}", n=int(r.integers(1, 8)), p=int(r.integers(1, 4)), h="gamma",
                                hpar="cvs"[i % 3], ymax=int(r.integers(1, 15)), order=["hb", "bh"][i % 2],
                                prior=["scalar", "vec", "hs", "nutssd"][i % 4], xk=["var", "const"][i % 2]))
    return res


# ---------------------------------------------------------------------------
# P09: NUTS


PRIORS = {
    "normal": ((0.3, 1.4), "real"),
    "cauchy": ((0.2, 1.1), "real"),
    "laplace": ((0.2, 1.1), "real"),
    "logistic": ((0.2, 1.1), "real"),
    "gumbel": ((0.2, 1.1), "real"),
    "gamma": ((2.1, 1.3), "pos"),
    "invgamma": ((2.1, 1.3), "pos"),
    "exponential": ((1.7,), "pos"),
    "halfcauchy": ((0.0, 1.3), "pos"),
    "halfnormal": ((0.0, 1.3), "pos"),
    "lognormal": ((0.1, 0.8), "pos"),
    "beta": ((1.8, 2.2), "unit"),
    "uniform": ((-1.5, 2.5), "interval"),
    "t": ((3.2, 0.2, 1.1), "real"),
    "weibull": ((1.7,), "pos"),
    "chisquare": ((3.0,), "pos"),
    "wald": ((1.2, 2.1), "pos"),
    "triangular": ((-1.5, 0.6, 2.5), "interval"),
    "vonmises": ((0.2, 1.3), "real"),
}


def init_for(r, dist, sh):
    sup = PRIORS[dist][1]
    if sup == "pos":
        return pos(r, *sh)
    if sup == "unit":
        return unit(r, *sh)
    if sup == "interval":
        return np.round(-1.5 + 4.0 * r.uniform(0.1, 0.9, size=sh), 3)
    if dist == "vonmises":
        return np.clip(real(r, *sh), -3, 3)
    return real(r, *sh)


def simplex(r, *sh):
    x = r.uniform(0.2, 1.0, size=sh)
    return np.round(x / x.sum(-1, keepdims=True), 12)


def cov(r, n):
    a = r.normal(size=(n, n))
    return np.round(a @ a.T + np.eye(n), 3)


def vector_models(r):
    """Variables that are vectors: on the simplex, correlated, with counts."""
    res = []

    def new(name):
        m = Model("nuts-vec-" + name)
        res.append(m)
        return m

    m = new("dirichlet")
    w = m.rv("w", "dirichlet", m.inp("al", pos(r, 3)), init=simplex(r, 3))
    m.rv("Y", "normal", w, 0.4, obs=real(r, 3))
    m = new("dirichlet-rows")  # the last dimension is one less on the line
    w = m.rv("w", "dirichlet", m.inp("al", pos(r, 3)), size=[2], init=simplex(r, 2, 3))
    s = m.rv("s", "gamma", 2.0, 1.5, init=0.8)
    m.rv("Y", "normal", w, s, obs=real(r, 2, 3))
    m = new("hyper")
    a = m.rv("a", "exponential", 2.0, size=[3], init=pos(r, 3))
    w = m.rv("w", "dirichlet", a + 0.5, init=simplex(r, 3))
    b = m.rv("b", "normal", 0.0, 1.0, size=[2], init=real(r, 2))
    m.rv("Y", "normal", w, 0.3, obs=real(r, 3))
    m.rv("Z", "normal", b, 1.0, obs=real(r, 2))
    m = new("categorical")
    b = m.rv("b", "normal", 0.0, 1.0, init=real(r))
    w = m.rv("w", "dirichlet", m.inp("al", pos(r, 4)), init=simplex(r, 4))
    u = m.rv("u", "uniform", -1.5, 2.5, size=[2], init=init_for(r, "uniform", (2,)))
    m.rv("Y", "categorical", w, size=[5], obs=np.array([0, 3, 1, 3, 2]))
    m.rv("Z", "normal", u, exp(b), obs=real(r, 2))
    m = new("mvnormal")
    x = m.rv("x", "multivariate_normal", m.inp("mu", real(r, 3)), m.inp("S", cov(r, 3), what="keep"), init=real(r, 3))
    s = m.rv("s", "halfcauchy", 0.0, 1.0, init=0.7)
    m.rv("Y", "normal", x, s, obs=real(r, 3))
    m = new("mvnormal-obs")
    x = m.rv("x", "normal", 0.0, 1.0, size=[2], init=real(r, 2))
    w = m.rv("w", "dirichlet", m.inp("al", pos(r, 2)), init=simplex(r, 2))
    m.rv("Y", "multivariate_normal", x + w, m.inp("S", cov(r, 2), what="keep"), obs=real(r, 2))
    m = new("gibbs")  # with a variable that has a specialised step
    w = m.rv("w", "dirichlet", m.inp("al", pos(r, 3)), init=simplex(r, 3))
    z = m.rv("z", "gamma", w + 0.5, 1.3, init=pos(r, 3))
    m.rv("Y", "poisson", z, obs=np.array([2, 0, 4]))
    m.rv("Z", "normal", w, 0.5, obs=real(r, 3))
    return res


def nuts_models(r, tier):
    res = []
    for i, (d, (ps, sup)) in enumerate(PRIORS.items()):
        sh = [(), (2,), (), (2, 2)][i % 4]
        m = Model(f"nuts-{d}")
        x = m.rv("x", d, *ps, size=list(sh) or None, init=init_for(r, d, sh))
        m.rv("Y", "normal", x, 0.7, obs=real(r, *sh))
        res.append(m)
    res += vector_models(r)
    # transforms that depend on other sampled variables, in every direction
    m = Model("nuts-interval-parents")
    a = m.rv("a", "exponential", 2.0, init=1.5)
    x = m.rv("x", "uniform", -a, a, init=0.4)
    m.rv("Y", "normal", x, 1.0, obs=0.7)
    res.append(m)
    m = Model("nuts-interval-chain")
    a = m.rv("a", "uniform", 0.0, 2.0, init=1.5)
    b = m.rv("b", "uniform", 0.0, a, size=[2], init=[0.4, 1.1])
    x = m.rv("x", "uniform", b - 1.0, b + a, init=[0.3, 0.9])
    m.rv("Y", "normal", x, 1.0, obs=[0.7, 0.2])
    res.append(m)
    m = Model("nuts-hier")
    mu = m.rv("mu", "normal", 0.0, 3.0, init=0.4)
    s = m.rv("s", "halfcauchy", 0.0, 2.0, init=0.8)
    t = m.rv("t", "normal", mu, s, size=[3], init=real(r, 3))
    m.rv("Y", "normal", t, 0.5, obs=real(r, 3))
    m.rv("Z", "poisson", exp(mu), obs=2)
    res.append(m)
    m = Model("nuts-logistic-notneg")  # positive link: no Gibbs step
    X = m.inp("X", real(r, 3, 2), what="design")
    b = m.rv("beta", "normal", 0.0, 1.0, size=[2], init=real(r, 2))
    m.rv("Y", "bernoulli", sigmoid(X @ b), obs=[0, 1, 1])
    res.append(m)
    m = Model("nuts-obs-parent")  # an observed variable that is a parent of a latent one
    a = m.rv("a", "normal", 0.0, 1.0, obs=0.6)
    b = m.rv("b", "gamma", 2.0, exp(a), init=1.2)
    m.rv("Y", "normal", b, a * a + 0.5, obs=1.0)
    res.append(m)
    m = Model("nuts-obs-bound")  # observed variables that bound the support of latent ones
    z = m.rv("z", "gamma", 2.0, 1.5, obs=1.4)
    x = m.rv("x", "uniform", 0.0, z, init=0.8)
    m.rv("Y", "normal", x, 1.0, obs=0.7)
    res.append(m)
    m = Model("nuts-obs-bounds")
    a = m.rv("a", "normal", 0.0, 1.0, size=[3], obs=real(r, 3))
    b = m.rv("b", "exponential", 1.5, size=[3], obs=pos(r, 3))
    s = m.rv("s", "gamma", 2.0, 2.0, init=0.6)
    x = m.rv("x", "uniform", a, a + b * s, init=m.obs_vals["a"] + 0.4 * 0.6 * m.obs_vals["b"])
    m.rv("Y", "normal", x, b, obs=real(r, 3))
    res.append(m)
    m = Model("nuts-mixed-gibbs")  # the target depends on the values that Gibbs steps have just drawn
    mu = m.rv("mu", "normal", 0.0, 1.0, init=0.3)
    z = m.rv("z", "gamma", 2.0, exp(mu), init=1.1)
    m.rv("Y", "poisson", z, obs=3)
    m.rv("W", "normal", mu, 1.0, obs=0.4)
    res.append(m)
    m = Model("nuts-hs-normal")
    tau = m.rv("tau", "halfcauchy", 0.0, 1.0, init=0.9)
    lam = m.rv("lam", "halfcauchy", 0.0, 1.0, size=[2], init=pos(r, 2))
    b = m.rv("beta", "normal", 0.0, lam * tau, size=[2], init=real(r, 2))
    s = m.rv("s", "gamma", 2.0, 2.0, init=0.6)
    m.rv("Y", "normal", b, s, obs=real(r, 2))
    res.append(m)
    if tier == "thorough":
        names = list(PRIORS)
        for i in range(300):
            m = Model(f"nuts-t{i}")
            k = int(r.integers(1, 5))
            prev = None
            lone = []
            for j in range(k):
                if prev is not None:
                    lone.append(prev)
                d = names[int(r.integers(len(names)))]
                ps = list(PRIORS[d][0])
                sh = [(), (2,), (3,)][int(r.integers(3))] if prev is None else prev_sh
                if prev is not None and r.random() < 0.7:
                    lone.pop()
                    if d in ("normal", "cauchy", "laplace", "logistic", "gumbel", "lognormal"):
                        ps[0] = prev
                    elif d == "uniform":
                        ps = [prev - 2.0, prev + 1.5]
                    elif d in ("gamma", "invgamma", "beta"):
                        ps[1] = exp(0.3 * prev)
                    elif d == "exponential":
                        ps[0] = exp(0.3 * prev)
                    else:
                        lone.append(prev)
                iv = init_for(r, d, sh)
                if d == "uniform" and not isinstance(ps[0], float):
                    iv = m.init[f"x{j-1}"] - 2.0 + 3.5 * r.uniform(0.1, 0.9, size=sh)
                prev = m.rv(f"x{j}", d, *ps, size=list(sh) or None, init=iv)
                prev_sh = sh
            m.rv("Y", "normal", prev, 0.8, obs=real(r, *prev_sh))
            for j, x in enumerate(lone):
                m.rv(f"L{j}", "normal", x, 0.8, obs=real(r, *prev_sh))
            res.append(m)
    return res


# ---------------------------------------------------------------------------
# P07: compositions


def composite_models(r, tier):
    res = [
        regmodel(r, "c-hs-nb-h", n=4, p=2, prior="hs", h="gamma"),
        regmodel(r, "c-hs-nb-h-rev", n=4, p=2, prior="hs", h="gamma", order="bh", flip=True),
        regmodel(r, "c-nb-hexp-nuts", n=4, p=2, prior="nutssd", h="exp"),
        regmodel(r, "c-bern-hs", kind="bern", n=4, p=3, prior="hs"),
    ]
    m = Model("c-conj-and-reg")
    X = m.inp("X", real(r, 4, 2), what="design")
    b = m.rv("beta", "normal", 0.0, 1.5, size=[("X", 1)], init=real(r, 2))
    h = m.rv("h", "gamma", 2.0, 1.0, init=1.6)
    m.rv("Y", "nbinom", h, sigmoid(-(X @ b)), obs=[3, 0, 5, 1])
    q = m.rv("q", "beta", 1.5, 2.5, size=[2], init=[0.3, 0.5])
    m.rv("B", "binomial", 8, q, obs=[2, 7])
    g = m.rv("g", "gamma", 1.5, 0.7, init=1.0)
    m.rv("C", "poisson", g, obs=6)
    res.append(m)
    m = Model("c-nuts-above-gibbs")
    a = m.rv("a", "exponential", 1.0, init=0.9)
    c = m.rv("c", "normal", 0.0, a, init=0.2)
    z = m.rv("z", "gamma", 2.0, exp(c), init=1.1)
    m.rv("Y", "poisson", z, obs=3)
    q = m.rv("q", "beta", a + 1.0, 2.0, init=0.4)
    m.rv("B", "binomial", 6, q, obs=2)
    res.append(m)
    m = Model("c-two-reg")
    X = m.inp("X", real(r, 3, 2), what="design")
    for i, kind in enumerate(("nbinom", "bernoulli")):
        tau = m.rv(f"tau{i}", "halfcauchy", 0.0, 1.0, init=float(pos(r)))
        lam = m.rv(f"lam{i}", "halfcauchy", 0.0, 1.0, size=[2], init=pos(r, 2))
        b = m.rv(f"beta{i}", "normal", 0.0, lam * tau, size=[2], init=real(r, 2))
        if kind == "nbinom":
            h = m.rv("h", "gamma", 2.0, 3.0, init=1.4)
            m.rv("Y0", "nbinom", h, sigmoid(-(X @ b)), obs=[2, 4, 0])
        else:
            m.rv("Y1", "bernoulli", sigmoid(-(X @ b)), obs=[0, 1, 1])
    res.append(m)
    m = Model("c-two-disp")
    X = m.inp("X", real(r, 3, 2), what="design")
    for i in range(2):
        b = m.rv(f"beta{i}", "normal", 0.0, 1.0 + i, size=[2], init=real(r, 2))
        h = m.rv(f"h{i}", "gamma", 2.0, 1.0 + i, init=1.37 + i * 0.733)
        m.rv(f"Y{i}", "nbinom", h, sigmoid(-(X @ b)), obs=[2 + i, 4, 0])
    res.append(m)
    m = Model("c-observed-middle")  # an observed coefficient separates the two halves
    tau = m.rv("tau", "halfcauchy", 0.0, 1.0, init=0.8)
    lam = m.rv("lam", "halfcauchy", 0.0, 1.0, size=[2], init=pos(r, 2))
    b = m.rv("beta", "normal", 0.0, lam * tau, size=[2], obs=real(r, 2))
    s = m.rv("s", "halfnormal", 0.0, 1.0, init=0.7)
    m.rv("Y", "normal", b, s, obs=real(r, 2))
    res.append(m)
    m = Model("c-observed-subset")  # one of two horseshoe parameters is observed
    tau = m.rv("tau", "halfcauchy", 0.0, 1.0, obs=0.8)
    lam = m.rv("lam", "halfcauchy", 0.0, 1.0, size=[2], init=pos(r, 2))
    b = m.rv("beta", "normal", 0.0, lam * tau, size=[2], init=real(r, 2))
    m.rv("Y", "normal", b, 1.0, obs=real(r, 2))
    res.append(m)
    if tier == "thorough":
        for i in range(24):
            m = Model(f"c-t{i}")
            X = m.inp("X", real(r, int(r.integers(2, 5)), 2), what="design")
            n = m.inputs[0][2].shape[0]
            parts = ["reg", "conj", "nuts", "hs", "bern"]
            r.shuffle(parts)
            for j, part in enumerate(parts[: int(r.integers(2, 5))]):
                if part in ("reg", "bern"):
                    tau = m.rv(f"tau{j}", "halfcauchy", 0.0, 1.0, init=float(pos(r)))
                    lam = m.rv(f"lam{j}", "halfcauchy", 0.0, 1.0, size=[2], init=pos(r, 2))
                    b = m.rv(f"beta{j}", "normal", 0.0, lam * tau, size=[2], init=real(r, 2))
                    if part == "reg":
                        h = m.rv(f"h{j}", "gamma", 2.0, 3.0, init=float(pos(r)))
                        m.rv(f"Y{j}", "nbinom", h, sigmoid(-(X @ b)), obs=r.integers(0, 6, size=n))
                    else:
                        m.rv(f"Y{j}", "bernoulli", sigmoid(-(X @ b)), obs=r.integers(0, 2, size=n))
                elif part == "conj":
                    conj(r, ["gp", "bb"][i % 2], (2,), "c", False, m=m, pre=f"k{j}_")
                elif part == "nuts":
                    a = m.rv(f"a{j}", "exponential", 1.3, init=float(pos(r)))
                    x = m.rv(f"x{j}", "uniform", -a, a, init=0.1)
                    m.rv(f"N{j}", "normal", x, 1.0, obs=0.3)
                else:
                    tau = m.rv(f"tau{j}", "halfcauchy", 0.0, 1.0, init=float(pos(r)))
                    lam = m.rv(f"lam{j}", "halfcauchy", 0.0, 1.0, size=[3], init=pos(r, 3))
                    m.rv(f"beta{j}", "normal", 0.0, lam * tau, size=[3], obs=real(r, 3))
            res.append(m)
    return res
