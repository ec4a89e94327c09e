"""Values for a model's inputs, observations and current state, in several regimes."""
import numpy as np

QUICK = ("large", "small", "zero")
# further ones, for steps whose numbers can have any scale, are tiny and vast
THOROUGH = ("large", "small", "zero", "mixed", "huge", "ones")

POS = {"gamma", "invgamma", "exponential", "halfcauchy", "halfnormal", "lognormal", "weibull", "chisquare", "wald"}
UNIT = {"beta"}
COUNT = {"poisson", "nbinom"}


def scale(r, how, sh):
    if how == "large":
        return 10.0 ** r.uniform(0.5, 2, size=sh)
    if how == "huge":
        return 10.0 ** r.uniform(1, 3, size=sh)
    if how == "small":
        return 10.0 ** r.uniform(-2.5, -0.5, size=sh)
    if how == "tiny":
        return 10.0 ** r.uniform(-8, -4, size=sh)
    if how == "vast":
        return 10.0 ** r.uniform(4, 8, size=sh)
    if how == "far":
        return 10.0 ** (r.uniform(9, 13, size=sh) * r.choice([-1, 1], size=sh))
    return 10.0 ** r.uniform(-2, 1.5, size=sh)


def value(r, what, sh, how):
    if what == "pos":
        if how in ("zero", "ones"):
            return np.ones(sh)
        return np.round(scale(r, how, sh) * r.uniform(0.5, 2.0, size=sh), {"tiny": 12, "far": 18}.get(how, 6))
    if what == "unit":
        e = {"large": 1 - 10.0 ** -r.uniform(1, 5, size=sh), "small": 10.0 ** -r.uniform(1, 5, size=sh),
             "huge": 1 - 10.0 ** -r.uniform(3, 6, size=sh),
             "tiny": 10.0 ** -r.uniform(5, 9, size=sh), "vast": 1 - 10.0 ** -r.uniform(5, 7, size=sh), "zero": np.full(sh, 0.5), "ones": r.uniform(0.01, 0.99, size=sh)}
        return e[how] if how in e else 1 / (1 + np.exp(-r.normal(0, 4, size=sh)))
    if what == "real":
        if how == "zero":
            return np.zeros(sh)
        if how == "ones":
            return np.sign(r.normal(size=sh)) * np.ones(sh)
        k = {"large": 4.0, "huge": 6.0, "small": 1e-3, "tiny": 1e-6, "vast": 1e4, "far": 60.0}.get(how)
        x = r.normal(0, 1, size=sh) * (k if k else 10.0 ** r.uniform(-3, 0.6, size=sh))
        return np.round(x, 10)
    if what == "count":
        if how == "large":
            return r.integers(20, 400, size=sh)
        if how == "huge":
            return r.integers(200, 3000, size=sh)
        if how == "vast":
            return r.integers(10000, 1000000, size=sh)
        if how in ("small", "tiny"):
            return r.integers(0, 2, size=sh)
        if how == "zero":
            return np.zeros(sh, dtype="int64")
        if how == "ones":
            return np.ones(sh, dtype="int64")
        return np.where(r.random(size=sh) < 0.4, 0, r.integers(0, 60, size=sh))
    raise KeyError(what)


def what_of(v):
    if v.dtype.kind in "iu":
        return "count"
    return "pos" if v.size and np.all(v > 0) else "real"


def between(r, args, new, sh):
    lo, hi = (np.broadcast_to(a.eval(new), sh) for a in (args[0], args[-1]))
    return lo + (hi - lo) * r.uniform(0.05, 0.95, size=sh)


def consts(e):
    return [e.v] if e.op == "const" else [v for x in e.a or () for v in consts(x)]


def elastic(model):
    """Whether all lengths are symbolic, so that another call of the sampler can have other ones."""
    if any(kind != "var" or typ is not None or model.what.get(n) == "keep" for n, kind, _, typ in model.inputs):
        return False
    if any(k not in ("var", "typed", "expr") for k in model.obs_kind.values()):
        return False
    for name, dist, args, size in model.nodes:
        if dist in ("categorical", "multinomial", "multivariate_normal") or any(np.ndim(v) for a in args for v in consts(a)):
            return False
        if size is not None and any(not isinstance(s, tuple) and s != 1 for s in (size if isinstance(size, list) else [size])):
            return False
    # lengths tell axes apart
    if any(len(set(v.shape)) < v.ndim for _, _, v, _ in model.inputs):
        return False
    return any(n > 1 for v in model.values().values() for n in np.shape(v))


def resize(model, r):
    """Placeholders of other shapes."""
    vals = model.values()
    old = sorted({n for v in vals.values() for n in np.shape(v) if n > 1})
    new = dict(zip(old, 2 + r.permutation(max(6, len(old)))))
    new = {k: int(n) + (n == k) * max(6, len(old)) for k, n in new.items()}
    return {k: np.zeros([new.get(n, n) for n in np.shape(v)], dtype=np.asarray(v).dtype) for k, v in vals.items()}


def regime(model, r, how, design=1.5):
    """Values for everything that can vary, or None for regimes that change nothing."""
    vals = model.values()
    if how == "far" and (len(model.nodes) != 2 or model.inputs or any(a.op != "const" for a in model.nodes[0][2])):
        return None  # (where densities stay well-conditioned)
    if how == "resize":
        if not elastic(model):
            return None
        vals, how = resize(model, r), "ordinary"
    new = dict(vals)
    for name, kind, v, _ in model.inputs:
        if kind != "var":
            continue
        w = model.what.get(name) or what_of(v)
        v = np.asarray(vals[name])
        if w == "trials":
            fixed = [model.obs_vals[n].max() for n in model.obs if model.obs_kind.get(n, "var") in ("const", "shared")]
            new[name] = np.maximum(r.integers(1, {"large": 500, "huge": 5000, "vast": 1000000}.get(how, 6), size=v.shape), max(fixed, default=0))
        elif w == "design":
            # one regressor can vanish; linear predictors stay moderate
            x = np.round(r.normal(0, design, size=v.shape), 4)
            if how in ("zero", "ones") and v.shape[-1] > 1:
                x[..., int(r.integers(v.shape[-1]))] = 0.0
            new[name] = x * (0.3 if how == "huge" else 1.0)
        elif w == "keep":
            pass
        elif w == "unit" and how == "large" and v.dtype == "float64":
            new[name] = 1 - 10.0 ** -r.uniform(2, 7.5, size=v.shape)
        else:
            new[name] = np.asarray(value(r, w, v.shape, how)).astype(v.dtype)
    for name, dist, args, _ in model.nodes:
        v = np.asarray(vals[name])
        if dist == "dirichlet":
            n = value(r, "pos", v.shape, "mixed" if how in ("large", "huge", "small") else how)
            new[name] = n / n.sum(-1, keepdims=True)
            continue
        if dist in ("categorical", "multinomial"):
            new[name] = model.values()[name]
            continue
        if dist == "vonmises":
            new[name] = r.uniform(-2, 2, size=v.shape)
            continue
        if name in model.obs:
            if model.obs_kind.get(name, "var") in ("const", "shared"):
                continue
            if dist in COUNT:
                n = value(r, "count", v.shape, how)
            elif dist == "bernoulli":
                n = {"large": np.ones(v.shape), "small": np.zeros(v.shape)}.get(how, r.integers(0, 2, size=v.shape))
            elif dist == "binomial":
                a = args[0]
                t = new[a.n] if a.op == "var" else np.asarray(a.v)
                t = np.broadcast_to(t, v.shape)
                n = {"large": t, "small": 0 * t, "zero": 0 * t}.get(how, np.floor(r.random(size=v.shape) * (t + 1)))
            elif dist in POS:
                n = value(r, "pos", v.shape, how)
            elif dist in UNIT:
                n = value(r, "unit", v.shape, how)
            elif dist in ("uniform", "triangular"):
                n = between(r, args, new, v.shape)
            else:
                n = value(r, "real", v.shape, how)
        elif dist in POS:
            n = value(r, "pos", v.shape, how)
        elif dist in UNIT:
            n = value(r, "unit", v.shape, how)
        elif dist in ("uniform", "triangular"):
            n = between(r, args, new, v.shape)
        else:
            n = value(r, "real", v.shape, how)
        new[name] = np.asarray(n).astype(v.dtype)
    return new
