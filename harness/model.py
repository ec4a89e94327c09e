"""Model descriptions: the same description is built as an aesara graph, with the
constructors that users call, and given to the specification."""
import numpy as np

from core import aesara, at, tens


class E:
    """An expression."""

    def __init__(self, op, *a, n=None, v=None, order=None):
        self.op, self.a, self.n, self.v, self.order = op, a, n, v, order

    def __add__(s, o):
        return E("add", s, ex(o))

    def __radd__(s, o):
        return E("add", ex(o), s)

    def __sub__(s, o):
        return E("sub", s, ex(o))

    def __rsub__(s, o):
        return E("sub", ex(o), s)

    def __mul__(s, o):
        return E("mul", s, ex(o))

    def __rmul__(s, o):
        return E("mul", ex(o), s)

    def __truediv__(s, o):
        return E("div", s, ex(o))

    def __rtruediv__(s, o):
        return E("div", ex(o), s)

    def __neg__(s):
        return E("neg", s)

    def __matmul__(s, o):
        return E("dot", s, ex(o))

    def json(self):
        if self.op == "var":
            return {"op": "var", "n": self.n}
        if self.op == "const":
            return {"op": "const", "v": tens(self.v)}
        r = {"op": self.op, "a": [x.json() for x in self.a]}
        if self.order is not None:
            r["order"] = [-1 if o == "x" else int(o) for o in self.order]
        return r

    def eval(self, env):
        """The value for numeric values of the variables."""
        if self.op == "var":
            return np.asarray(env[self.n])
        if self.op == "const":
            return np.asarray(self.v)
        a = [x.eval(env) for x in self.a]
        f = {
            "add": np.add, "sub": np.subtract, "mul": np.multiply, "div": np.divide, "exp": np.exp, "log": np.log,
            "sqr": np.square, "sqrt": np.sqrt, "abs": np.abs, "recip": lambda x: 1 / x, "neg": np.negative,
            "dot": np.dot, "sigmoid": lambda x: 1 / (1 + np.exp(-x)), "softplus": lambda x: np.logaddexp(0, x),
            "sum": np.sum,
        }[self.op]
        return f(*a)

    def build(self, env):
        if self.op == "var":
            return env[self.n]
        if self.op == "const":
            return self.v if self.v is not None and not isinstance(self.v, list) else np.asarray(self.v)
        a = [x.build(env) for x in self.a]
        if self.op == "ds":
            return at.as_tensor(a[0]).dimshuffle(*self.order)
        if self.op == "dot":
            return at.dot(a[0], a[1])
        if self.op == "neg":
            return -a[0]
        f = {
            "add": lambda x, y: x + y,
            "sub": lambda x, y: x - y,
            "mul": lambda x, y: x * y,
            "div": lambda x, y: x / y,
            "exp": at.exp,
            "log": at.log,
            "sqr": at.sqr,
            "sqrt": at.sqrt,
            "abs": at.abs,
            "recip": at.reciprocal,
            "sigmoid": at.sigmoid,
            "softplus": at.softplus,
            "sum": at.sum,
        }[self.op]
        return f(*a)


def ex(x):
    return x if isinstance(x, E) else E("const", v=x)


def V(n):
    return E("var", n=n)


def fn(op, *a):
    return E(op, *[ex(x) for x in a])


def sigmoid(x):
    return fn("sigmoid", x)


def exp(x):
    return fn("exp", x)


def ds(x, *order):
    return E("ds", ex(x), order=order)


class Model:
    """A sequence of inputs and random variables.

    input kinds: "var" (a symbolic input), "shared" or "const".
    """

    def __init__(self, name):
        self.name = name
        self.inputs = []  # (name, kind, value[, type])
        self.nodes = []  # (name, dist, args, size)
        self.obs = []
        self.obs_vals = {}
        self.init = {}
        self.extra = set()  # variables that the observations don't depend on
        self.what = {}  # what the inputs are (see regimes)
        self.obs_order = 1  # or -1: the order in which observations are given
        self.naming = None  # variables without names ("none"), or with the same one ("same")
        self.obs_kind = {}  # how observations are given: var (default), typed, const, shared or expr
        self.raw = {}  # what expressions are computed from

    def vary_observations(self, k):
        """Other ways of giving the observations: in the other order, and as expressions."""
        self.obs_order = (1, -1)[k % 2]
        for i, n in enumerate(self.obs):
            if (k // 2 + i) % 3 == 0:
                self.obs_kind.setdefault(n, "expr")

    def inp(self, name, value, kind="var", type=None, what=None):
        if what:
            self.what[name] = what
        self.inputs.append((name, kind, np.asarray(value), type))
        return V(name)

    def rv(self, name, dist, *args, size=None, init=None, obs=None):
        self.nodes.append((name, dist, [ex(a) for a in args], size))
        if obs is not None:
            self.obs.append(name)
            self.obs_vals[name] = np.asarray(obs)
        else:
            self.init[name] = np.asarray(init)
        return V(name)

    def det(self, name, e):
        """A deterministic function of the other variables (only for prior programs)."""
        self.nodes.append((name, "det", [e], None))
        return V(name)

    def json(self):
        return [
            {"name": n, "dist": d, "args": [a.json() for a in args]}
            for n, d, args, _ in self.nodes
            if n not in self.extra
        ]

    def build(self, srng):
        env, ins = {}, []
        for name, kind, value, typ in self.inputs:
            if kind == "shared":
                env[name] = aesara.shared(value, name=name)
            elif kind == "const":
                env[name] = at.as_tensor(value, name=name)
            else:
                v = at.tensor(
                    name=name,
                    dtype=str(value.dtype),
                    shape=typ if typ is not None else (None,) * value.ndim,
                )
                env[name] = v
                ins.append((name, v))
        for name, dist, args, size in self.nodes:
            if dist == "det":
                env[name] = at.as_tensor_variable(args[0].build(env))
                env[name].name = name
                continue
            kw = {"name": name}
            if size is not None:
                kw["size"] = self._size(size, env)
            env[name] = getattr(srng, dist)(*[a.build(env) for a in args], **kw)
        obs, self.raw = {}, {}
        for name in self.obs[:: self.obs_order]:
            rv = env[name]
            val, kind = self.obs_vals[name], self.obs_kind.get(name, "var")
            if kind == "const":
                y = at.as_tensor(val)
            elif kind == "shared":
                y = aesara.shared(val, name=name + "_val")
            elif kind == "expr":
                # observations can be computed from something else
                self.raw[name] = at.tensor(name=name + "_raw", dtype=rv.type.dtype, shape=rv.type.shape)
                y = -self.raw[name]
            elif kind == "typed":
                y = at.tensor(name=name + "_val", dtype=str(val.dtype), shape=(None,) * val.ndim)
            else:
                y = rv.clone()
                y.name = name + "_val"
            obs[rv] = y
        if self.naming:
            for v in [env[n] for n, *_ in self.nodes] + list(obs.values()) + [v for _, v in ins]:
                v.name = None if self.naming == "none" else "x"
        return env, ins, obs

    def _size(self, size, env):
        def one(s):
            if isinstance(s, tuple):  # (input, axis)
                return env[s[0]].shape[s[1]]
            return s

        return tuple(one(s) for s in size) if isinstance(size, list) else one(size)

    def values(self):
        env = {n: v for n, _, v, _ in self.inputs}
        env.update(self.obs_vals)
        env.update(self.init)
        return env
