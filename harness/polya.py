"""P15: the Polya-Gamma random variable.

Every request that PGRequests.tla enumerates is made of the real code; the calls and the
sample means of transformed draws are judged by PGTrace.tla."""
import hashlib
import traceback
import zlib

import numpy as np

import core
import sampler_checks
import tlc
from core import MODE, Quiet, aesara, at, tens
from session import RepoError

HS = [0.6, 1.0, 1.7, 2.0, 5.0, 12.3, 60.0, 250.0]
ZS = [0.0, 0.4, -1.3, 3.0, -6.0, 25.0]
# parameters at the ends of the range that regressions ask for (beyond it, the library that draws
# them is itself wrong, see LIB; and for h > 200 it gives constants, correct within the slack)
HX = [0.05, 0.3, 1.0, 900.0, 20000.0]
ZX = [1e-9, -1.0, 60.0, -120.0, 90.0]
LIB = [([1.0], [200.0]), ([12.0], [100.0])]


def par(r, srng, x, which, ins):
    sh = x["hs"] if which == "h" else x["zs"]
    vals = x.get("pool", (HX, ZX) if x.get("ext") else (HS, ZS))[which == "z"]
    if x["kind"] == "int":
        vals = [1, 2, 3, 7] if which == "h" else [0, 1, -2, 4]
    v = np.array([vals[int(r.integers(len(vals)))] for _ in range(int(np.prod(sh)))]).reshape(sh)
    if x["kind"] == "const":
        return v.tolist()
    if x["kind"] == "int":
        return np.asarray(v, dtype="int64")
    if x["kind"] == "rv":
        return srng.gamma(3.0, 1.0, size=sh) if which == "h" else srng.normal(0.0, 2.0, size=sh)
    s = at.tensor(name=which, dtype="float64", shape=(None,) * len(sh))
    ins.append((s, np.asarray(v, dtype="float64")))
    return s


def digest(x):
    return hashlib.sha1(np.asarray(x).tobytes()).hexdigest()[:16]


def request(x, h, z, size, make):
    args, kw = {"pos": ((h, z), {}), "kw": ((), {"z": z, "h": h}), "only-h": ((h,), {}),
                "only-z": ((), {"z": z}), "none": ((), {})}[x["give"]]
    if size is not None:
        kw = dict(kw, size=size)
    return make(*args, **kw)


def record(job):
    cid, x, size, sh, n, bad, seed = job
    from aemcmc.dists import polyagamma

    r = np.random.default_rng([seed, zlib.crc32(cid.encode())])
    with aesara.config.change_flags(floatX=x["float"]):
        ctor = np.random.RandomState if x["rng"] == "RandomState" else np.random.default_rng
        srng = at.random.RandomStream(int(r.integers(1 << 30)), rng_ctor=ctor)
        ins = []
        h, z = par(r, srng, x, "h", ins), par(r, srng, x, "z", ins)
        if bad is not None:
            h = np.array(np.broadcast_to(np.asarray(h, dtype=float), x["hs"]))
            h.flat[-1] = bad
            h = h.tolist()
        hv = at.as_tensor(1.0 if x["give"] in ("only-z", "none") else h)
        zv = at.as_tensor(0.0 if x["give"] in ("only-h", "none") else z)
        sz = None if x["size"] == "none" else tuple(size)
        case = {"id": cid, "sh": sh, "float": x["float"], "refused": False, "calls": [], "stats": [], "ntol": "6.5", "distinct": not x.get("ext"), "slack": "0.003",
                "outsh": [], "static": True, "dtype": "", "h": tens(np.ones(())), "z": tens(np.zeros(()))}
        vals = [v for _, v in ins]
        try:
            with Quiet():
                if x["how"] == "stream":
                    w = request(x, h, z, sz, lambda *a, **k: srng.gen(polyagamma, *a, **k))
                    g = w.owner.inputs[0]
                    f = aesara.function([s for s, _ in ins], [w, hv, zv], updates={g: w.owner.outputs[0]} if g.default_update is None else None,
                                        mode=MODE, on_unused_input="ignore")
                else:
                    gt = at.random.type.random_generator_type if x["rng"] == "Generator" else at.random.type.random_state_type
                    g = gt("rng")
                    w = request(x, h, z, sz, lambda *a, **k: polyagamma(*a, rng=g, **k))
                    f = aesara.function([g] + [s for s, _ in ins], [w, hv, zv, w.owner.outputs[0]], mode=MODE, on_unused_input="ignore")
                big = request(x, h, z, (n,) + tuple(sh), lambda *a, **k: srng.gen(polyagamma, *a, **k))
                fbig = aesara.function([s for s, _ in ins], [big, hv, zv], mode=MODE, on_unused_input="ignore")
        except Exception as e:
            raise RepoError(f"making the variable raised {type(e).__name__}: {str(e)[:300]}") from e
        case["h"], case["z"] = (tens(hv.data), tens(zv.data)) if hasattr(hv, "data") and hasattr(zv, "data") else (case["h"], case["z"])
        obj = None
        for k in range(4):
            if x["how"] == "stream":
                before = g.get_value()
                if k == 2:  # again from the first state
                    g.set_value(first, borrow=False)
                    before = first
                if k == 0:
                    first = before
                sb = core.rng_state(before)
                try:
                    with Quiet():
                        out, hh, zz = f(*vals)
                except Exception as e:
                    err = e
                    case["refused"] = True
                    break
                sa, si = core.rng_state(g.get_value()), core.rng_state(before)
            else:
                if k == 0:
                    obj = first = ctor(int(r.integers(1 << 30)))
                if k == 2:
                    obj = first
                sb = core.rng_state(obj)
                try:
                    with Quiet():
                        out, hh, zz, nxt = f(obj, *vals)
                except Exception as e:
                    err = e
                    case["refused"] = True
                    break
                sa, si = core.rng_state(nxt), core.rng_state(obj)
                obj = nxt
            out = np.asarray(out)
            if x["kind"] != "rv":
                case["calls"].append({"before": sb, "after": sa, "input": si, "res": digest(out),
                                      "ok": bool(np.all(np.isfinite(out) & (out > 0)))})
            case["outsh"], case["dtype"] = [int(s) for s in out.shape], str(out.dtype)
            case["static"] = str(out.dtype) == w.type.dtype and out.ndim == w.type.ndim and all(
                s is None or s == o for s, o in zip(w.type.shape, out.shape))
        if case["refused"]:
            if bad is None:
                raise RepoError(f"evaluating the variable raised {type(err).__name__}: {str(err)[:300]}")
            return [case]
        with Quiet():
            ws, hh, zz = fbig(*vals)
        ws = np.asarray(ws, dtype=float)
        case["h"], case["z"] = tens(hh), tens(zz)
        if bad is not None:
            return [case]
        hb, zb = np.broadcast_to(hh, sh), np.broadcast_to(zz, sh)
        mean = hb * np.where(np.abs(zb) < 1e-3, 0.25, np.tanh(zb / 2) / (2 * np.where(zb == 0, 1, zb)))
        for q in (0.6, 3.0):
            t = np.asarray(q / mean)
            e = np.exp(-t * ws)
            if ws.shape != (n,) + tuple(sh):
                raise RepoError(f"the shape of {n} draws is {ws.shape}")
            flat = e.reshape(n, -1)
            case["stats"].append({"t": tens(t), "n": str(n), "mean": tens(e.mean(0)), "lag": tens((e[0:n - 1:2] * e[1:n:2]).mean(0)),
                                  "cross": tens((flat[:, :-1] * flat[:, 1:]).mean(0))})
    return [case]


def one(job):
    try:
        return job[0], record(job), None
    except RepoError as e:
        return job[0], [], str(e)
    except Exception:
        return job[0], [], "the behaviour can't be interpreted: " + traceback.format_exc()[-1500:]


def run(prop, tier, seed, rep):
    core.load()
    res, st, rc, out = tlc.run("PGRequests", "INIT Init\nNEXT Next\nINVARIANT WellFormed\n", workers=8)
    if rc or not res:
        raise tlc.MachineryError("TLC failed on PGRequests:\n" + out[-3000:])
    rep.stats(st)
    rep.cov["enumerated_requests"] = len(res)
    for x in res:
        x["id"] = "-".join(str(v) for v in x["desc"].values()).replace(" ", "")
    res.sort(key=lambda x: x["id"])
    r = np.random.default_rng(seed)
    if tier == "quick":  # all values of each choice, a sample of their combinations
        pick = set(r.permutation(len(res))[:130].tolist())
        res = [x for i, x in enumerate(res) if i in pick
               or (sorted((x["desc"]["hs"], x["desc"]["zs"])) == [[1], [3]] and x["desc"]["kind"] == "const"
                   and x["desc"]["how"] == "stream" and x["desc"]["give"] == "pos")]
    n = 4000 if tier == "quick" else 20000
    jobs = [(x["id"], x["desc"], x["size"], x["sh"], n, None, seed) for x in res]
    bads = [x for x in res if x["desc"]["give"] in ("pos", "kw", "only-h") and x["desc"]["kind"] == "const"]
    for i, x in enumerate(bads[:: max(1, len(bads) // 12)]):
        jobs.append((x["id"] + "-bad", x["desc"], x["size"], x["sh"], n, [0.0, -1.0][i % 2], seed))
    ext = [x for x in res if x["desc"]["kind"] in ("const", "input") and x["desc"]["give"] in ("pos", "kw")]
    for x in ext[:: max(1, len(ext) // 24)] if tier == "quick" else ext:
        jobs.append((x["id"] + "-ext", dict(x["desc"], ext=True), x["size"], x["sh"], n, None, seed))
    lib = next(x for x in res if x["desc"]["give"] == "pos" and x["desc"]["kind"] == "const" and x["desc"]["hs"] == [1])
    for k, pool in enumerate(LIB):
        jobs.append((f"library-{k}", dict(lib["desc"], ext=True, pool=pool), lib["size"], lib["sh"], n, None, seed))
    cases = []
    for name, cs, err in sampler_checks.pool_map(one, jobs):
        rep.count("requests")
        if err:
            rep.violation(name, err)
        cases += cs
    for c in cases[:2]:
        rep.sample({k: c[k] for k in ("id", "h", "z", "sh", "outsh", "stats", "calls")})
    sampler_checks.judge("PGTrace", cases, rep)
    rep.assumptions = ["the law of the draws is compared by sample means at 6.5 standard errors (and 0.003), i.e. not exactly"]
