"""Environment, recording of random draws, and models built from descriptions.

Nothing here depends on how aemcmc is written: draws are recorded at
`RandomVariable.perform`, aesara's interface between a graph and its random
number generators, and the NUTS transition kernel (aehmc's) is replaced by one
that reports the log density it is given.
"""
import hashlib
import logging
import os
import shutil
import sys
import tempfile
import warnings

warnings.filterwarnings("ignore")

REPO = os.environ.get("AEMCMC_REPO", "/repo")
SCRATCH = tempfile.mkdtemp(prefix="vcheck-aemcmc-")


def _setup_env():
    os.environ["TMPDIR"] = tempfile.tempdir = SCRATCH
    os.environ.setdefault("OMP_NUM_THREADS", "1")
    os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
    sys.dont_write_bytecode = True
    os.environ["AESARA_FLAGS"] = (
        f"compiledir={SCRATCH}/aesara,blas__ldflags=-lopenblas,cxx=,on_opt_error=warn"
    )
    if REPO not in sys.path:
        sys.path.insert(0, REPO)


def cleanup():
    shutil.rmtree(SCRATCH, ignore_errors=True)


_setup_env()

import numpy as np  # noqa: E402

import aesara  # noqa: E402
import aesara.tensor as at  # noqa: E402
from aesara.compile.mode import Mode  # noqa: E402
from aesara.graph.basic import Apply  # noqa: E402
from aesara.graph.op import Op  # noqa: E402
from aesara.tensor.random.op import RandomVariable  # noqa: E402

logging.getLogger("aesara").setLevel(logging.CRITICAL)
logging.getLogger("aesara.graph.rewriting.basic").setLevel(logging.CRITICAL)

MODE = Mode(linker="py", optimizer="fast_run")


class Quiet:
    """Hide what aesara prints to stdout/stderr while it rewrites graphs."""

    def __enter__(self):
        sys.stdout.flush()
        self._old = (sys.stdout, sys.stderr)
        self._null = open(os.devnull, "w")
        sys.stdout = sys.stderr = self._null

    def __exit__(self, *a):
        sys.stdout, sys.stderr = self._old
        self._null.close()


# ---------------------------------------------------------------------------
# Recording and scripting of random draws


def rng_state(rng):
    bg = getattr(rng, "bit_generator", None) or getattr(rng, "_bit_generator", None)
    if bg is None:
        return "none"
    state = bg.state
    if hasattr(rng, "get_state"):  # legacy generators also keep half of a pair of normals
        state = rng.get_state(legacy=False)
    return hashlib.sha1(repr(sorted_state(state)).encode()).hexdigest()[:16]


def sorted_state(s):
    if isinstance(s, dict):
        return [(k, sorted_state(v)) for k, v in sorted(s.items())]
    if isinstance(s, np.ndarray):
        return s.tolist()
    return s


class Recorder:
    def __init__(self):
        self.draws = []
        self.script = None  # function(index, name, args, out) -> out or None
        self.on = False

    def start(self, script=None):
        self.draws = []
        self.script = script
        self.on = True

    def stop(self):
        self.on = False
        self.script = None
        return self.draws


REC = Recorder()
_orig_perform = RandomVariable.perform


def _perform(self, node, inputs, outputs):
    if not REC.on:
        return _orig_perform(self, node, inputs, outputs)
    rng, size, dtype, *args = inputs
    before = rng_state(rng)
    args = [np.array(a) for a in args]
    _orig_perform(self, node, inputs, outputs)
    out = np.array(outputs[1][0])
    after = rng_state(outputs[0][0])
    if REC.script is not None:
        new = REC.script(len(REC.draws), self.name, args, out)
        if new is not None:
            new = np.asarray(new, dtype=out.dtype).reshape(out.shape)
            out = new
            outputs[1][0] = np.array(new)
    REC.draws.append(
        dict(
            dist=self.name,
            args=args,
            out=out,
            size=None if size is None else np.array(size),
            before=before,
            after=after,
        )
    )


RandomVariable.perform = _perform


# ---------------------------------------------------------------------------
# The NUTS stub

NUTS_REC = []


class NutsProbe(Op):
    """Return its first argument and record (q1, q0, lf0, lf1, pe, g, step_size, inverse_mass_matrix)."""

    __props__ = ()
    view_map = {0: [0]}

    def make_node(self, q1, q0, lf0, lf1, *state):
        return Apply(self, [q1, q0, lf0, lf1, *state], [q1.type()])

    def perform(self, node, ins, outs):
        NUTS_REC.append([np.array(i, dtype=float) for i in ins])
        outs[0][0] = ins[0].copy()


NUTS_DRAWS = False  # whether the kernel draws from its stream (at each step)
NUTS_COUNT = aesara.shared(0.0, name="nuts_count")


def stub_nuts():
    import aehmc.nuts as hn

    def new_state(q, logprob_fn):
        return q, -logprob_fn(q), q

    def new_kernel(srng, logprob_fn, *a, **k):
        def step(q, pe, g, step_size, inverse_mass_matrix, *aa, **kk):
            # The position moves by the "inverse mass matrix", which the checks choose
            q1 = q + inverse_mass_matrix
            out = NutsProbe()(q1, q, logprob_fn(q), logprob_fn(q1), pe, g, step_size, inverse_mass_matrix)
            updates = {NUTS_COUNT: NUTS_COUNT + 1}
            if NUTS_DRAWS:
                u = srng.uniform(0.0, 1.0)
                out = out + 0.0 * u
                updates[u.owner.inputs[0]] = u.owner.outputs[0]
            return (out, pe, g), updates

        return step

    hn.new_kernel = new_kernel
    hn.new_state = new_state


def load(nuts="stub"):
    """Import the package under test."""
    if nuts == "stub":
        stub_nuts()
    with Quiet():
        import aemcmc  # noqa: F401
        import aemcmc.basic  # noqa: F401
        import aemcmc.gibbs  # noqa: F401
        import aemcmc.nuts  # noqa: F401
    if not os.path.realpath(aemcmc.__file__).startswith(os.path.realpath(REPO)):
        raise RuntimeError(f"aemcmc was imported from {aemcmc.__file__}")
    # aemcmc and its dependencies may have configured logging
    logging.getLogger("aesara").setLevel(logging.CRITICAL)
    logging.getLogger("aesara.graph.rewriting.basic").setLevel(logging.CRITICAL)
    return aemcmc


# ---------------------------------------------------------------------------
# Numbers and tensors as JSON for the specification


def num(x):
    x = float(x)
    if x != x:
        return "nan"
    if x in (float("inf"), float("-inf")):
        return "inf" if x > 0 else "-inf"
    if x == int(x) and abs(x) < 1e15:
        return str(int(x))
    return repr(x)


def tens(a):
    a = np.asarray(a)
    return {"sh": [int(s) for s in a.shape], "d": [num(x) for x in a.ravel().tolist()]}


def draw_json(d):
    return {"dist": d["dist"], "args": [tens(a) for a in d["args"]], "out": tens(d["out"])}
