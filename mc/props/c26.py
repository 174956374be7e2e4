"""C26: random initialisation of layers and models.

Words over initialisation, passes, new parameters and new inputs on every layer with
parameters and on every model that initialises itself, all tilings: each parameter gets the
normal values of its own index space (zero mean, deviation 1/sqrt(number of elements), the
fixed seed), computed here from the generator's definition; nothing else changes, and the
passes that follow use the new values."""
import itertools
import numpy as np
from h import Fail
import nets
from nets import guarded
from props import c09, c16, c17, c19

FULL_PACKAGE = True
REAL_STRIDE = 61
ASSUMPTIONS = ["CPU codelets only", "values are compared with the Box-Muller transform of the documented generator up to rounding, "
               "and bit for bit between tilings, histories and schedules"]
WORDS = ["I", "IFB", "FBI", "WIF", "IWFB", "IIF", "FBIFB", "IW", "IWIF", "IFBWIFB"]
SEED = 100
_first = {}


def setup(env, tier):
    for m in (c16, c17, c19):
        m.setup(env, tier)
    nets.INIT, nets.INITCMP = init, initcmp


def init(dt, shape):
    """Reference values of an initialised parameter."""
    n = int(np.prod(shape)) if len(shape) else 1
    d = 1.0 / np.sqrt(n)
    return (np.array([c09.std(dt, SEED, p) for p in range(n)], dtype=float) * d).reshape(shape, order="F")


def initcmp(dt, got, want, what):
    g = got.astype(float)
    if g.shape != want.shape:
        raise Fail("%s has shape %s, expected %s" % (what, g.shape, want.shape))
    e = (2e-5 if dt == "fp32" else 1e-13) / np.sqrt(max(1, g.size))
    bad = ~(np.abs(g - want) <= e)
    if bad.any():
        i = tuple(np.argwhere(bad)[0])
        raise Fail("%s%s = %r after initialisation, expected %r" % (what, list(i), float(g[i]), float(want[i])))
    b = got.tobytes(order="F")
    if _first.setdefault((dt, g.shape), b) != b:
        raise Fail("%s is not initialised with the same bits as in another tiling or history" % what)


def layers(tier):
    """Configurations of layers with parameters, from the case spaces of the layers."""
    for mod, m in (("c16", c16), ("c17", c17)):
        seen = set()
        for c in m.cases("quick" if tier == "quick" else "thorough"):
            k = str(c[0])
            if k in seen or c[0]["l"] in ("act", "add", "addsame", "addslice", "gap", "conv") or c[0].get("fast"):
                continue
            seen.add(k)
            yield mod, c


def cases(tier):
    q = tier == "quick"
    j = 0
    for mod, c in layers(tier):
        for w in WORDS:
            j += 1
            if q and (j * 5) % {"linear": 13, "attn": 9, "fattn": 9, "ln": 5, "embedding": 3}.get(c[0]["l"], 1) > 1:
                continue
            dt = ("fp32", "fp64")[(j // 3) % 2]
            c2 = list(c)
            i = 2 if mod == "c16" else 1
            c2[i], c2[i + 1], c2[i + 2], c2[i + 3] = w, dt, j % 5, (j // 5) % 2
            yield ["layer", mod, c2]
    for c in c19.models(tier):
        if c["m"] not in ("deeprelu", "deeplinear", "gpt2mlp") or c.get("fast"):
            continue
        for w in ("IF", "IFB", "FBIF", "WIFB", "IWF", "IIFXF", "IWIF"):
            j += 1
            if q and (j * 5) % 23 > 1:
                continue
            yield ["model", c, w, ("fp32", "fp64")[j % 2], j % 5, (j // 5) % 2]


@guarded
def run(env, case):
    if case[0] == "model":
        return c19.run_model(env, *case[1:])
    m = {"c16": c16, "c17": c17}[case[1]]
    return m.run(env, case[2])
