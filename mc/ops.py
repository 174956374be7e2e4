"""Reference semantics of every tensor/tile operation and the bounded argument
spaces over which it is enumerated.  The reference is plain numpy in double
precision, written from the mathematical definition of the operation."""
import itertools
import numpy as np

NAN = float("nan")


def tilings(shape):
    return itertools.product(*[range(1, d + 1) for d in shape])


def shapes(maxdims):
    """maxdims: {ndim: maxdim} -> all shapes."""
    for nd in sorted(maxdims):
        for s in itertools.product(range(1, maxdims[nd] + 1), repeat=nd):
            yield s


SMALL = {0: 1, 1: 7, 2: 4, 3: 3, 4: 2}
TINY = {0: 1, 1: 4, 2: 3, 3: 2}
LARGE = [((17,), (5,)), ((64,), (64,)), ((65,), (64,)), ((129,), (129,)), ((300,), (128,)), ((1030,), (1030,)),
         ((33, 5), (16, 5)), ((5, 33), (5, 33)), ((40, 41), (40, 41)), ((67, 3), (67, 3)), ((3, 130), (2, 129)),
         ((9, 10, 11), (9, 10, 11)), ((8, 9, 17), (4, 9, 16)), ((2, 65, 3), (2, 65, 3)), ((5, 4, 3, 6), (5, 4, 3, 6)),
         ((5, 4, 3, 6), (2, 3, 2, 4)), ((300,), (1,)), ((20, 21), (1, 2)),
         ((5000,), (5000,)), ((2, 3, 2, 3, 2), (1, 2, 2, 2, 1)), ((3, 2, 2, 3, 2), (3, 2, 2, 3, 2)), ((2, 1, 3, 2, 2, 2), (1, 1, 2, 2, 1, 2)),
         ((1100, 3), (1100, 2)), ((2, 1100), (1, 1100)), ((3, 37, 40), (3, 37, 40)), ((300, 7), (300, 7))]
AB8 = [(1.0, 0.0), (1.0, 1.0), (-2.0, 3.0), (0.0, 0.0), (0.0, 1.0), (0.0, -0.5), (0.5, -0.5), (-2.0, 0.0)]
AB = [(a, b) for a in (1.0, -2.0, 0.0, 0.5) for b in (0.0, 1.0, 3.0, -0.5)]


# Tiles of so many elements that kernels might block or split; used when a check asks for them
HUGE = []
HUGE_FLAT = [((70001,), (70001,)), ((70001,), (40000,)), ((300, 301), (300, 301))]
HUGE_AXES = [((300, 301), (300, 301)), ((40, 50, 45), (40, 50, 45)), ((290, 270), (150, 270))]


def st(maxdims, large=True, mind=0):
    for s in shapes(maxdims):
        if len(s) >= mind:
            for b in tilings(s):
                yield s, tuple(b)
    if large:
        for s, b in LARGE + HUGE:
            if len(s) >= mind:
                yield s, b


def idata(shape, k, lim=50):
    """Small integers, distinct enough that a misplaced element is visible."""
    n = int(np.prod(shape)) if len(shape) else 1
    m = 2 * lim + 1
    i = np.arange(n, dtype=np.int64)
    v = ((i * 37 + (i // m) * 11 + 13 * k + 5) % m) - lim
    return v.reshape(shape, order="F").astype(np.float64)


def nz(shape, k, lim=50):
    v = idata(shape, k, lim)
    v[v == 0] = lim + 1
    return v


def fdata(shape, k, scale=1.0):
    """Deterministic non-integer data in about [-2,2]*scale, exactly representable in fp32."""
    n = int(np.prod(shape)) if len(shape) else 1
    i = np.arange(n, dtype=np.int64)
    v = (((i * 61 + 29 * k + 7) % 257) - 128) / 64.0
    return (v * scale).reshape(shape, order="F")


def pdata(shape, k, scale=1.0):
    v = np.abs(fdata(shape, k, scale))
    return np.where(v == 0, 0.75 * scale, v)


class Op:
    def __init__(self, name, roles, outs, args, ref, space, data, exact=True, tol=None, py=None, tile=True,
                 tensor=True, dts=("fp32", "fp64"), rdt=None, tile_args=None, uninit=None, tile_name=None,
                 py_name=None, core=True, lo=None):
        self.name = name; self.roles = roles; self.outs = outs; self.args = args; self.ref = ref
        self.space = space; self.data = data; self.exact = exact; self.tol = tol or {"fp32": 3e-6, "fp64": 1e-13}
        self.py = py; self.tile = tile; self.tensor = tensor; self.dts = dts; self.rdt = rdt or {}
        self.tile_args = tile_args or args
        self.uninit = uninit  # function(sc) -> roles whose prior content must not matter
        self.tile_name = tile_name or name
        self.py_name = py_name or name
        self.core = core
        self.redux = None     # (role, kind, position of the redux flag in the scalar tuple)
        self.tile_ok = None   # scalar tuples for which the tile-level operation is defined
        self.scratch = ()     # roles that are workspaces: content afterwards unspecified


OPS = {}
EXTRA = {}


def op(name, *a, **k):
    o = OPS[name] = Op(name, *a, **k)
    return o


# ----------------------------------------------------------------------------
# elementwise
def ew_space(roles, scals, maxd=None, large=True):
    def f(tier):
        md = dict(maxd or SMALL)
        if tier == "thorough":
            md = {0: 1, 1: 11, 2: 5, 3: 4, 4: 2}
        for s, b in st(md, large):
            for sc in scals:
                yield {r: (s, b) for r in roles}, sc
    return f


def ew(name, roles, outs, args, fn, scals=((),), data=None, exact=True, tol=None, uninit=None, **k):
    def ref(D, sc):
        return fn(D, sc)
    if data is None:
        data = lambda r, shape, sc: idata(shape, roles.index(r))
    return op(name, roles, outs, args, ref, ew_space(roles, scals), data, exact=exact, tol=tol, uninit=uninit, **k)


X, Y = ["x"], ["x", "y"]
ALPHAS = [(a,) for a in (1.0, 0.0, -2.0, 0.5, 3.0)]

ew("relu", X, X, lambda R, s: (R["x"],), lambda D, s: {"x": np.maximum(D["x"], 0)})
ew("drelu", X, X, lambda R, s: (R["x"],), lambda D, s: {"x": (D["x"] > 0) * 1.0})
ew("relu_forward", Y, ["y"], lambda R, s: (R["x"], R["y"]), lambda D, s: {"y": np.maximum(D["x"], 0)},
   uninit=lambda s: ["y"])
ew("relu_backward", ["x", "dy", "dx"], ["dx"], lambda R, s: (R["x"], R["dy"], R["dx"]),
   lambda D, s: {"dx": D["dx"] + (D["x"] > 0) * D["dy"]})
ew("fill", X, X, lambda R, s: (s[0], R["x"]), lambda D, s: {"x": np.full_like(D["x"], s[0])},
   scals=[(v,) for v in (0.0, 1.0, -2.5)], uninit=lambda s: ["x"])
ew("clear", X, X, lambda R, s: (R["x"],), lambda D, s: {"x": np.zeros_like(D["x"])}, uninit=lambda s: ["x"])
ew("prod", Y, ["y"], lambda R, s: (R["x"], R["y"]), lambda D, s: {"y": D["x"] * D["y"]})
ew("maximum", Y, ["y"], lambda R, s: (R["x"], R["y"]), lambda D, s: {"y": np.maximum(D["x"], D["y"])})
ew("add", Y, ["y"], lambda R, s: (s[0], R["x"], s[1], R["y"]),
   lambda D, s: {"y": s[0] * D["x"] + (s[1] * D["y"] if s[1] else 0)}, scals=AB,
   uninit=lambda s: ["y"] if s[1] == 0.0 else [])
ew("axpy", Y, ["y"], lambda R, s: (s[0], R["x"], R["y"]), lambda D, s: {"y": s[0] * D["x"] + D["y"]}, scals=ALPHAS)
ew("scal", Y, ["y"], lambda R, s: (s[0], R["x"], R["y"]), lambda D, s: {"y": s[0] * D["x"]}, scals=ALPHAS,
   uninit=lambda s: ["y"])
ew("scal_inplace", X, X, lambda R, s: (s[0], R["x"]), lambda D, s: {"x": s[0] * D["x"]}, scals=ALPHAS)
ew("add_scalar", X, X, lambda R, s: (s[0], s[1], R["x"]), lambda D, s: {"x": s[0] + (s[1] * D["x"] if s[1] else 0 * D["x"])},
   scals=AB)
ew("hypot", Y, ["y"], lambda R, s: (s[0], R["x"], s[1], R["y"]),
   lambda D, s: {"y": np.hypot(s[0] * D["x"], s[1] * D["y"] if s[1] else 0)}, scals=AB, exact=False,
   # (alpha,beta)=(0,1) is documented as "do nothing": asked only of the non-negative accumulators it is meant for
   data=lambda r, shape, sc: np.abs(idata(shape, 2)) if r == "y" and sc == (0.0, 1.0) else idata(shape, 1 if r == "x" else 2),
   uninit=lambda s: ["y"] if s[1] == 0.0 else [])
ew("hypot_scalar_inverse", X, X, lambda R, s: (s[0], s[1], R["x"]),
   lambda D, s: {"x": 1.0 / np.hypot(s[0], s[1] * D["x"])}, scals=[(e, a) for e in (1.0, 0.25, 4.0, 1e-3) for a in (1.0, -2.0, 0.0)],
   exact=False)
ew("pow", X, X, lambda R, s: (s[0], s[1], R["x"]), lambda D, s: {"x": s[0] * np.power(D["x"], s[1])},
   scals=[(a, e) for a in (1.0, -2.0, 0.5) for e in (1.0, -1.0, 2.0, 0.5, -0.5, 3.0, 0.0)],
   data=lambda r, shape, sc: pdata(shape, 1), exact=False)
ew("sqrt", Y, ["y"], lambda R, s: (R["x"], R["y"]), lambda D, s: {"y": np.sqrt(D["x"])},
   data=lambda r, shape, sc: np.abs(fdata(shape, 2)), exact=False, uninit=lambda s: ["y"])
ew("sqrt_inplace", X, X, lambda R, s: (R["x"],), lambda D, s: {"x": np.sqrt(D["x"])},
   data=lambda r, shape, sc: np.abs(fdata(shape, 3)), exact=False)
ew("addcdiv", ["nom", "denom", "src"], ["src"], lambda R, s: (s[0], s[1], R["nom"], R["denom"], R["src"]),
   lambda D, s: {"src": D["src"] + s[0] * D["nom"] / (D["denom"] + s[1])},
   scals=[(v, e) for v in (1.0, -2.0, 0.0) for e in (0.0, 0.5)] + [(-0.5, 0.01), (3.0, 1e-3)],
   # denominators below, at and far above eps
   data=lambda r, shape, sc: pdata(shape, 4) * np.resize([1.0, 16.0, 2.0 ** -8], shape) if r == "denom" else fdata(shape, 5 if r == "nom" else 6), exact=False)

from math import sqrt, pi
try:
    from scipy.special import erf as _erf
except ImportError:  # pragma: no cover
    import math
    _erf = np.vectorize(math.erf)


def gelu(x):
    return 0.5 * x * (1 + _erf(x / sqrt(2)))


def dgelu(x):
    return 0.5 * (1 + _erf(x / sqrt(2))) + x * np.exp(-0.5 * x * x) / sqrt(2 * pi)


def gelutanh(x):
    return 0.5 * x * (1 + np.tanh(sqrt(2 / pi) * (x + 0.044715 * x ** 3)))


def dgelutanh(x):
    t = np.tanh(sqrt(2 / pi) * (x + 0.044715 * x ** 3))
    return 0.5 * (1 + t) + 0.5 * x * (1 - t * t) * sqrt(2 / pi) * (1 + 3 * 0.044715 * x * x)


fd = lambda r, shape, sc: fdata(shape, 7 + len(r), 2.0)
ATOL = {"fp32": 2e-6, "fp64": 1e-13}
ew("gelu", X, X, lambda R, s: (R["x"],), lambda D, s: {"x": gelu(D["x"])}, data=fd, exact=False, tol=ATOL)
ew("dgelu", X, X, lambda R, s: (R["x"],), lambda D, s: {"x": dgelu(D["x"])}, data=fd, exact=False, tol=ATOL)
ew("gelutanh", Y, ["y"], lambda R, s: (R["x"], R["y"]), lambda D, s: {"y": gelutanh(D["x"])}, data=fd, exact=False,
   tol=ATOL, uninit=lambda s: ["y"])
ew("gelutanh_inplace", X, X, lambda R, s: (R["x"],), lambda D, s: {"x": gelutanh(D["x"])}, data=fd, exact=False, tol=ATOL)
ew("dgelutanh", X, X, lambda R, s: (R["x"],), lambda D, s: {"x": dgelutanh(D["x"])}, data=fd, exact=False, tol=ATOL)
for _n, _d in (("gelu_backward", dgelu), ("gelutanh_backward", dgelutanh)):
    ew(_n, ["x", "dy", "dx"], ["dx"], lambda R, s: (R["x"], R["dy"], R["dx"]),
       (lambda d: lambda D, s: {"dx": D["dx"] + d(D["x"]) * D["dy"]})(_d),
       data=lambda r, shape, sc: fdata(shape, {"x": 1, "dy": 2, "dx": 3}[r], 2.0), exact=False, tol={"fp32": 8e-6, "fp64": 4e-13})


def _axpyt_space(tier):
    for s, b in st(SMALL if tier == "quick" else {0: 1, 1: 9, 2: 5, 3: 3, 4: 2}):
        for a in (1.0, 0.0, -2.0):
            yield {"a": ((), ()), "x": (s, b), "y": (s, b)}, (a,)


op("axpy_tensor", ["a", "x", "y"], ["y"], lambda R, s: (R["a"], R["x"], R["y"]),
   lambda D, s: {"y": D["a"] * D["x"] + D["y"]}, _axpyt_space,
   lambda r, shape, sc: np.array(sc[0]) if r == "a" else idata(shape, 3 if r == "x" else 4),
   py_name="axpy", tile_name="axpy_tensor")


# ----------------------------------------------------------------------------
# operations along an axis
def rm(t, a):
    return tuple(t[:a]) + tuple(t[a + 1:])


def ax_space(mk, scals, md=None, redux=(0,), mind=1, large=True):
    """mk(shape, bt, axis) -> roles; scalar tuples get (axis, redux) appended."""
    def f(tier):
        m = dict(md or {1: 6, 2: 4, 3: 3, 4: 2})
        if tier == "thorough":
            m = {1: 10, 2: 5, 3: 4, 4: 2}
        for s, b in st(m, large, mind):
            for axis in range(len(s)):
                roles = mk(s, b, axis)
                if roles is None:
                    continue
                for sc in (AB8 if scals is AB and tier == "quick" else scals):
                    for rx in redux:
                        yield roles, tuple(sc) + (axis, rx)
    return f


def sl(s, b, axis):
    return rm(s, axis), rm(b, axis)


def two(s, b, axis):
    return (2,) + rm(s, axis), (2,) + rm(b, axis)


op("sum_slice", ["src", "dst"], ["dst"], lambda R, s: (s[0], R["src"], s[1], R["dst"], s[2], s[3]),
   lambda D, s: {"dst": s[0] * D["src"].sum(axis=s[2]) + (s[1] * D["dst"] if s[1] else 0)},
   ax_space(lambda s, b, a: {"src": (s, b), "dst": sl(s, b, a)}, AB, redux=(0, 1)),
   lambda r, shape, sc: idata(shape, 1 if r == "src" else 2),
   tile_args=lambda R, s: (s[0], R["src"], s[1], R["dst"], s[2]), uninit=lambda s: ["dst"] if s[1] == 0.0 else [])
op("norm_slice", ["src", "dst"], ["dst"], lambda R, s: (s[0], R["src"], s[1], R["dst"], s[2], s[3]),
   lambda D, s: {"dst": np.sqrt(s[0] ** 2 * (D["src"] ** 2).sum(axis=s[2]) + (s[1] ** 2 * D["dst"] ** 2 if s[1] else 0))},
   ax_space(lambda s, b, a: {"src": (s, b), "dst": sl(s, b, a)}, AB, redux=(0, 1)),
   lambda r, shape, sc: idata(shape, 1 if r == "src" else 2), exact=False,
   tile_args=lambda R, s: (s[0], R["src"], s[1], R["dst"], s[2]), uninit=lambda s: ["dst"] if s[1] == 0.0 else [])
op("add_slice", ["src", "dst"], ["dst"], lambda R, s: (s[0], R["src"], s[1], R["dst"], s[2]),
   lambda D, s: {"dst": s[0] * np.expand_dims(D["src"], s[2]) + (s[1] * D["dst"] if s[1] else 0 * D["dst"])},
   ax_space(lambda s, b, a: {"dst": (s, b), "src": sl(s, b, a)}, AB),
   lambda r, shape, sc: idata(shape, 1 if r == "src" else 2))
op("add_slice3", ["src1", "src2", "dst"], ["dst"], lambda R, s: (s[0], R["src1"], s[1], R["src2"], R["dst"], s[2]),
   lambda D, s: {"dst": s[0] * np.expand_dims(D["src1"], s[2]) + (s[1] * D["src2"] if s[1] else 0 * D["src2"])},
   ax_space(lambda s, b, a: {"dst": (s, b), "src2": (s, b), "src1": sl(s, b, a)}, AB),
   lambda r, shape, sc: idata(shape, 1 if r == "src1" else 2), uninit=lambda s: ["dst"])
op("prod_slice", ["src", "dst"], ["dst"], lambda R, s: (R["src"], s[0], R["dst"], s[1]),
   lambda D, s: {"dst": s[0] * np.expand_dims(D["src"], s[1]) * D["dst"]},
   ax_space(lambda s, b, a: {"dst": (s, b), "src": sl(s, b, a)}, ALPHAS),
   lambda r, shape, sc: idata(shape, 1 if r == "src" else 2))


def fib(x, nd, axis):
    return x.reshape([-1 if i == axis else 1 for i in range(nd)])


op("prod_fiber", ["src", "dst"], ["dst"], lambda R, s: (R["src"], s[0], R["dst"], s[1]),
   lambda D, s: {"dst": s[0] * fib(D["src"], D["dst"].ndim, s[1]) * D["dst"]},
   ax_space(lambda s, b, a: {"dst": (s, b), "src": ((s[a],), (b[a],))}, ALPHAS),
   lambda r, shape, sc: idata(shape, 1 if r == "src" else 2))
op("prod_fiber3", ["src1", "src2", "dst"], ["dst"], lambda R, s: (R["src1"], s[0], R["src2"], R["dst"], s[1]),
   lambda D, s: {"dst": s[0] * fib(D["src1"], D["src2"].ndim, s[1]) * D["src2"]},
   ax_space(lambda s, b, a: {"dst": (s, b), "src2": (s, b), "src1": ((s[a],), (b[a],))}, ALPHAS),
   lambda r, shape, sc: idata(shape, 1 if r == "src1" else 2), uninit=lambda s: ["dst"])
op("sumprod_slice", ["src1", "src2", "dst"], ["dst"],
   lambda R, s: (s[0], R["src1"], R["src2"], s[1], R["dst"], s[2], s[3]),
   lambda D, s: {"dst": s[0] * (D["src1"] * D["src2"]).sum(axis=s[2]) + (s[1] * D["dst"] if s[1] else 0)},
   ax_space(lambda s, b, a: {"src1": (s, b), "src2": (s, b), "dst": sl(s, b, a)}, AB, redux=(0, 1)),
   lambda r, shape, sc: idata(shape, {"src1": 1, "src2": 2, "dst": 3}[r], 20),
   tile_args=lambda R, s: (s[0], R["src1"], R["src2"], s[1], R["dst"], s[2]), uninit=lambda s: ["dst"] if s[1] == 0.0 else [])
op("sumprod_fiber", ["src1", "src2", "dst"], ["dst"],
   lambda R, s: (s[0], R["src1"], R["src2"], s[1], R["dst"], s[2], s[3]),
   lambda D, s: {"dst": s[0] * (D["src1"] * D["src2"]).sum(axis=tuple(i for i in range(D["src1"].ndim) if i != s[2]))
                 + (s[1] * D["dst"] if s[1] else 0)},
   ax_space(lambda s, b, a: {"src1": (s, b), "src2": (s, b), "dst": ((s[a],), (b[a],))}, AB, redux=(0, 1)),
   lambda r, shape, sc: idata(shape, {"src1": 1, "src2": 2, "dst": 3}[r], 20),
   tile_args=lambda R, s: (s[0], R["src1"], R["src2"], s[1], R["dst"], s[2]), uninit=lambda s: ["dst"] if s[1] == 0.0 else [])


def fiber_space(scals, redux):
    def f(tier):
        m = {1: 6, 2: 4, 3: 3, 4: 2}
        if tier == "thorough":
            m = {1: 9, 2: 5, 3: 4, 4: 3}
        for s, b in st(m, True, 1):
            for bn in range(len(s)):
                for axis in range(len(s) - bn):
                    fs = (s[axis],) + s[len(s) - bn:]
                    fb = (b[axis],) + b[len(s) - bn:]
                    for sc in (AB8 if scals is AB and tier == "quick" else scals):
                        for rx in redux:
                            yield {"t": (s, b), "f": (fs, fb)}, tuple(sc) + (axis, bn, rx)
    return f


def _fib_b(f, nd, axis, bn):
    sh = [1] * nd
    sh[axis] = f.shape[0]
    for i in range(bn):
        sh[nd - bn + i] = f.shape[1 + i]
    return f.reshape(sh)  # C order reshape only inserts unit axes: element order kept


op("sum_fiber", ["t", "f"], ["f"], lambda R, s: (s[0], R["t"], s[1], R["f"], s[2], s[3], s[4]),
   lambda D, s: {"f": s[0] * D["t"].sum(axis=tuple(i for i in range(D["t"].ndim - s[3]) if i != s[2]))
                 + (s[1] * D["f"] if s[1] else 0)},
   fiber_space(AB, (0, 1)), lambda r, shape, sc: idata(shape, 1 if r == "t" else 2),
   tile_args=lambda R, s: (s[0], R["t"], s[1], R["f"], s[2], s[3]), uninit=lambda s: ["f"] if s[1] == 0.0 else [])
op("add_fiber", ["f", "t"], ["t"], lambda R, s: (s[0], R["f"], s[1], R["t"], s[2], s[3]),
   lambda D, s: {"t": s[0] * _fib_b(D["f"], D["t"].ndim, s[2], s[3]) + (s[1] * D["t"] if s[1] else 0 * D["t"])},
   fiber_space(AB, (0,)), lambda r, shape, sc: idata(shape, 1 if r == "t" else 2))

# the tile operation accumulates; the tensor operation starts from zero
op("sumnorm_tile", ["src", "dst"], ["dst"], lambda R, s: (R["src"], R["dst"], s[0]),
   lambda D, s: {"dst": np.stack([D["dst"][0] + D["src"].sum(axis=s[0]),
                                  np.sqrt(D["dst"][1] ** 2 + (D["src"] ** 2).sum(axis=s[0]))])},
   ax_space(lambda s, b, a: {"src": (s, s), "dst": two(s, s, a)} if s == b else None, [()]),
   lambda r, shape, sc: idata(shape, 1) if r == "src" else np.abs(idata(shape, 2)), exact=False, tensor=False,
   tile_name="sumnorm")
op("sumnorm", ["src", "dst"], ["dst"], lambda R, s: (R["src"], R["dst"], s[0]),
   lambda D, s: {"dst": np.stack([D["src"].sum(axis=s[0]), np.sqrt((D["src"] ** 2).sum(axis=s[0]))])},
   ax_space(lambda s, b, a: {"src": (s, b), "dst": two(s, b, a)}, [()]),
   lambda r, shape, sc: idata(shape, 1) if r == "src" else np.abs(idata(shape, 2)), exact=False, tile=False,
   uninit=lambda s: ["dst"])


def _normalize_ref(D, s):
    l, eps, axis = s[0], s[1], s[2]
    mean = np.expand_dims(D["sumnorm"][0] / l, axis)
    dev = np.sqrt(np.maximum(np.expand_dims(D["sumnorm"][1] ** 2 / l, axis) - mean ** 2, 0) + eps)
    return {"dst": (D["dst"] - mean) / dev * D["gb"][0] + D["gb"][1]}


def _normalize_data(r, shape, sc):
    if r == "gb":
        return np.array([1.5, -0.25])
    if r == "dst":
        return fdata(shape, 3)
    v = np.empty(shape)
    l = sc[0]
    v[0] = fdata(shape[1:], 5, 0.5) * l       # sums
    # norm: large enough for the variance to be well conditioned
    v[1] = np.sqrt(l * ((v[0] / l) ** 2 + pdata(shape[1:], 6) + 0.5))
    return v


op("normalize", ["gb", "sumnorm", "dst"], ["dst"], lambda R, s: (R["gb"], R["sumnorm"], R["dst"], s[0], s[1], s[2]),
   _normalize_ref,
   ax_space(lambda s, b, a: {"gb": ((2,), (2,)), "sumnorm": two(s, b, a), "dst": (s, b)},
            [(l, e) for l in (1, 4, 10) for e in (1e-3, 1.0, 25.0)]),
   _normalize_data, exact=False, tol={"fp32": 2e-5, "fp64": 1e-12})


def _mse_ref(D, s):
    axis = s[0]
    x = D["src"]
    m0, s0 = D["dst"][0], D["dst"][1]
    m1 = x.max(axis=axis)
    m = np.where(s0 > 0, np.maximum(m0, m1), m1)
    se = np.exp(x - np.expand_dims(m, axis)).sum(axis=axis) + np.where(s0 > 0, s0 * np.exp(m0 - m), 0)
    return {"dst": np.stack([m, se])}


def _mse_data(r, shape, sc):
    if r == "src":
        return fdata(shape, 4, 3.0)
    v = np.empty(shape)
    v[0] = fdata(shape[1:], 5, 3.0)
    v[1] = pdata(shape[1:], 6)
    z = idata(shape[1:], 7) < 0         # some entries are in the cleared state
    v[:, z] = 0
    return v


op("maxsumexp", ["src", "dst"], ["dst"], lambda R, s: (R["src"], R["dst"], s[0], s[1]), _mse_ref,
   ax_space(lambda s, b, a: {"src": (s, b), "dst": two(s, b, a)}, [()], redux=(0, 1)), _mse_data, exact=False,
   tile_args=lambda R, s: (R["src"], R["dst"], s[0]), tol={"fp32": 1e-5, "fp64": 1e-13})


def _sm_data(r, shape, sc):
    if r in ("src", "dst"):
        return fdata(shape, 4, 3.0)
    v = np.empty(shape)
    v[0] = 6.0 + fdata(shape[1:], 5, 0.5)
    v[1] = pdata(shape[1:], 6) + 0.5
    return v


def _sm(x, ms, axis):
    return np.exp(x - np.expand_dims(ms[0], axis)) / np.expand_dims(ms[1], axis)


op("softmax", ["ms", "src", "dst"], ["dst"], lambda R, s: (R["ms"], R["src"], s[0], R["dst"], s[1]),
   lambda D, s: {"dst": s[0] * _sm(D["src"], D["ms"], s[1])},
   ax_space(lambda s, b, a: {"src": (s, b), "dst": (s, b), "ms": two(s, b, a)}, [(1.0,), (-2.0,), (0.5,)]), _sm_data,
   exact=False, tol={"fp32": 1e-5, "fp64": 1e-13}, uninit=lambda s: ["dst"])
op("softmax_inplace", ["ms", "dst"], ["dst"], lambda R, s: (R["ms"], s[0], R["dst"], s[1]),
   lambda D, s: {"dst": s[0] * _sm(D["dst"], D["ms"], s[1])},
   ax_space(lambda s, b, a: {"dst": (s, b), "ms": two(s, b, a)}, [(1.0,), (-2.0,), (0.5,)]), _sm_data,
   exact=False, tol={"fp32": 1e-5, "fp64": 1e-13})


def _lse_space(tier):
    for s, b in st(SMALL if tier == "quick" else {0: 1, 1: 9, 2: 5, 3: 4}):
        yield {"src": ((2,) + s, (2,) + b), "dst": (s, b)}, ()


op("logsumexp", ["src", "dst"], ["dst"], lambda R, s: (R["src"], R["dst"]),
   lambda D, s: {"dst": D["src"][0] + np.log(D["src"][1])}, _lse_space,
   lambda r, shape, sc: np.stack([fdata(shape[1:], 3, 2.0), pdata(shape[1:], 4)]) if r == "src" else fdata(shape, 1),
   exact=False, uninit=lambda s: ["dst"], tol={"fp32": 3e-6, "fp64": 1e-13})


def _nrm2_space(tier):
    m = SMALL if tier == "quick" else {0: 1, 1: 11, 2: 5, 3: 4, 4: 2}
    for s, b in st(m, True, 1):
        grid = tuple(-(-x // y) for x, y in zip(s, b))
        for ab in AB:
            yield {"src": (s, b), "dst": ((), ()), "tmp": (grid, (1,) * len(grid))}, ab


op("nrm2", ["src", "dst", "tmp"], ["dst"], lambda R, s: (s[0], R["src"], s[1], R["dst"], R["tmp"]),
   lambda D, s: {"dst": np.sqrt(s[0] ** 2 * (D["src"] ** 2).sum() + (s[1] ** 2 * D["dst"] ** 2 if s[1] else 0))},
   _nrm2_space, lambda r, shape, sc: idata(shape, 3 if r == "src" else 4), exact=False,
   uninit=lambda s: ["tmp"] + (["dst"] if s[1] == 0.0 else []), tile=False).scratch = ("tmp",)


def _nrm2_tile_space(tier):
    for s in list(shapes(SMALL)) + [s for s, b in LARGE if s == b]:
        for ab in AB:
            yield {"src": (s, s), "dst": ((), ()), "tmp": ((), ())}, ab


op("nrm2_tile", ["src", "dst", "tmp"], ["dst"], lambda R, s: (s[0], R["src"], s[1], R["dst"], R["tmp"]),
   OPS["nrm2"].ref, _nrm2_tile_space, OPS["nrm2"].data, exact=False, uninit=OPS["nrm2"].uninit, tensor=False,
   tile_name="nrm2").scratch = ("tmp",)


def _mask_space(tier):
    m = {1: 6, 2: 4, 3: 3, 4: 2} if tier == "quick" else {1: 8, 2: 5, 3: 4, 4: 2}
    for s, b in st(m, True, 1):
        for bn in range(0, len(s)):
            for v in (0.0, -7.5, float("-inf")):
                for pat in (0, 1, 2, 3):
                    yield {"mask": (s[:len(s) - bn], b[:len(s) - bn]), "x": (s, b)}, (v, bn, pat)


def _mask_data(r, shape, sc):
    if r == "mask":
        n = int(np.prod(shape))
        i = np.arange(n)
        v = {0: np.zeros(n), 1: np.ones(n), 2: i % 2, 3: (i * 5 // 3) % 3 != 0}[sc[2]]
        return v.astype(bool).reshape(shape, order="F")
    return idata(shape, 3)


op("mask_scalar", ["mask", "x"], ["x"], lambda R, s: (R["mask"], s[0], R["x"], s[1]),
   lambda D, s: {"x": np.where(D["mask"].reshape(D["mask"].shape + (1,) * s[1]).astype(bool), D["x"], s[0])},
   _mask_space, _mask_data, rdt={"mask": "bool"},
   tile_args=lambda R, s: (R["mask"], s[0], R["x"]))


def _label_space(scal):
    def f(tier):
        m = {0: 1, 1: 5, 2: 3, 3: 2} if tier == "quick" else {0: 1, 1: 8, 2: 4, 3: 3}
        ls = list(st(m, False)) + [((65,), (33,)), ((9, 8), (9, 3))]
        for s, b in ls:
            for nl in (1, 2, 5):
                for sc in scal:
                    for pat in (0, 1, 2):
                        yield s, b, nl, sc, pat
        for s, b, nl in (((), (), 70), ((3000,), (3000,), 2), ((2,), (2,), 5000), ((5, 7, 9), (5, 7, 9), 3), ((70, 2), (70, 2), 3), ((70,), (32,), 70), ((5, 2), (3, 2), 300), ((3,), (1,), 1030), ((300,), (1,), 3), ((300,), (300,), 2)):
            for sc in scal:
                for pat in (0, 1, 2):
                    yield s, b, nl, sc, pat
    return f


def _labels(shape, nl, pat):
    n = int(np.prod(shape)) if len(shape) else 1
    i = np.arange(n)
    if pat >= 100:  # every assignment of labels: the digits of pat-100 in base nl
        v = np.array([((pat - 100) // nl ** int(j)) % nl for j in i])
        return v.reshape(shape, order="F").astype(np.int64)
    v = {0: i % nl, 1: (nl - 1 - i) % nl, 2: np.full(n, nl - 1)}[pat]
    return v.reshape(shape, order="F").astype(np.int64)


def _pick(x, lab):
    return np.take_along_axis(x, lab[None], axis=0)[0]


op("total_sum_accum", ["lse", "src", "lab", "val"], ["val"],
   lambda R, s: (s[0], R["lse"], R["src"], R["lab"], R["val"]),
   lambda D, s: {"val": D["val"] + s[0] * (D["lse"] - _pick(D["src"], D["lab"].astype(np.int64))).sum()},
   lambda tier: (({"lse": (s, b), "src": ((nl,) + s, (nl,) + b), "lab": (s, b), "val": ((), ())}, tuple(sc) + (nl, pat))
                 for s, b, nl, sc, pat in _label_space([(1.0,), (-0.5,)])(tier)),
   lambda r, shape, sc: _labels(shape, sc[1], sc[2]) if r == "lab" else idata(shape, {"lse": 1, "src": 2, "val": 3}[r]),
   rdt={"lab": "int64"})


def _sio_ref(D, s):
    d = D["dst"].copy()
    lab = D["lab"].astype(np.int64)
    np.put_along_axis(d, lab[None], np.take_along_axis(d, lab[None], axis=0) - s[0], axis=0)
    return {"dst": d}


op("subtract_indexed_outputs", ["lab", "dst"], ["dst"], lambda R, s: (s[0], R["lab"], R["dst"]), _sio_ref,
   lambda tier: (({"dst": ((nl,) + s, (nl,) + b), "lab": (s, b)}, tuple(sc) + (nl, pat))
                 for s, b, nl, sc, pat in _label_space([(1.0,), (-0.5,), (0.0,)])(tier)),
   lambda r, shape, sc: _labels(shape, sc[1], sc[2]) if r == "lab" else idata(shape, 2),
   rdt={"lab": "int64"})


def _tr_space(tier):
    m = {2: 5, 3: 3, 4: 2} if tier == "quick" else {2: 7, 3: 4, 4: 3}
    for s, b in st(m, True, 2):
        for nd in range(1, len(s)):
            for a in (1.0, -2.0, 0.0, 0.5):
                yield {"src": (s, b), "dst": (s[nd:] + s[:nd], b[nd:] + b[:nd])}, (a, nd)


op("transpose", ["src", "dst"], ["dst"], lambda R, s: (s[0], R["src"], R["dst"], s[1]),
   lambda D, s: {"dst": s[0] * np.transpose(D["src"], list(range(s[1], D["src"].ndim)) + list(range(s[1])))},
   _tr_space, lambda r, shape, sc: idata(shape, 1 if r == "src" else 2), tile=False, uninit=lambda s: ["dst"])


def _copy_space(tier):
    for s, b in st(SMALL if tier == "quick" else {0: 1, 1: 9, 2: 5, 3: 4, 4: 2}):
        yield {"x": (s, b), "y": (s, b)}, ()


op("copy", ["x", "y"], ["y"], lambda R, s: (R["x"], R["y"]), lambda D, s: {"y": D["x"]}, _copy_space,
   lambda r, shape, sc: idata(shape, 1 if r == "x" else 2), dts=("fp32", "fp64", "int64"), uninit=lambda s: ["y"])
for _n in ("scatter", "gather"):
    def _sg(_n):
        def f(tier):
            for s, b in st(SMALL if tier == "quick" else {0: 1, 1: 11, 2: 5, 3: 4, 4: 3}):
                w = (s, s)
                yield {"x": w if _n == "scatter" else (s, b), "y": (s, b) if _n == "scatter" else w}, ()
        return f
    op(_n, ["x", "y"], ["y"], lambda R, s: (R["x"], R["y"]), lambda D, s: {"y": D["x"]}, _sg(_n),
       lambda r, shape, sc: idata(shape, 1 if r == "x" else 2), dts=("fp32", "fp64", "int64", "bool"),
       uninit=lambda s: ["y"], tile=False)


# copy_intersection: the part of dst that intersects src is replaced
def _ci_space(tier):
    def one(nd, maxd, offs, btall):
        for xs in itertools.product(range(1, maxd + 1), repeat=nd):
            for ys in itertools.product(range(1, maxd + 1), repeat=nd):
                for xb in (tilings(xs) if btall else [xs, tuple(max(1, (d + 1) // 2) for d in xs)]):
                    for yb in (tilings(ys) if btall else [ys, tuple(max(1, (d + 1) // 2) for d in ys)]):
                        for xo in itertools.product(offs, repeat=nd):
                            for yo in itertools.product(offs, repeat=nd):
                                if min(xo) > 0 and min(yo) > 0:
                                    continue  # only the difference matters; one is kept at zero somewhere
                                yield {"x": (xs, tuple(xb)), "y": (ys, tuple(yb))}, (tuple(xo), tuple(yo))
    q = tier == "quick"
    yield {"x": ((), ()), "y": ((), ())}, ((), ())
    yield from one(1, 5 if q else 7, (0, 1, 2, 3) if q else (0, 1, 2, 3, 4, 6), True)
    yield from one(2, 3, (0, 1) if q else (0, 1, 2), True)
    yield from one(3, 2, (0, 1), not q)
    for xs, xb, xo, ys, yb, yo in (((3, 4, 5), (2, 3, 2), (1, 0, 2), (5, 3, 4), (3, 2, 4), (0, 1, 0)),
                                   ((3, 3, 3), (3, 3, 3), (0, 0, 0), (3, 3, 3), (1, 2, 3), (0, 0, 0)),
                                   ((2, 2, 2), (1, 1, 1), (3, 0, 0), (3, 3, 3), (2, 2, 2), (0, 0, 0)),
                                   ((2, 3, 2, 3), (1, 2, 2, 2), (0, 1, 1, 0), (3, 3, 3, 3), (2, 2, 3, 2), (1, 0, 0, 1)),
                                   ((40, 33), (16, 9), (3, 5), (50, 40), (50, 7), (0, 11)),
                                   ((130,), (64,), (100000,), (1030,), (1030,), (99900,)), ((2500,), (2500,), (0,), (3000,), (3000,), (300,)),
                                   ((2, 1100), (2, 1100), (0, 0), (3, 1200), (3, 1200), (1, 50)), ((1100, 2), (1100, 1), (7, 0), (1100, 2), (1100, 2), (0, 0)),
                                   ((50, 40), (50, 40), (0, 3), (51, 41), (51, 41), (0, 0)), ((1030,), (1030,), (0,), (600,), (128,), (300,)),
                                   ((300,), (1,), (5,), (300,), (7,), (0,)), ((9, 10, 17), (9, 10, 17), (1, 0, 2), (9, 11, 17), (4, 11, 17), (0, 0, 0)),
                                   ((5, 66, 3), (5, 65, 3), (0, 2, 0), (4, 66, 4), (4, 66, 4), (0, 0, 0))):
        yield {"x": (xs, xb), "y": (ys, yb)}, (xo, yo)


def _ci_ref(D, s):
    x, y = D["x"], D["y"].copy()
    if x.ndim == 0:
        return {"y": x.copy()}
    xo, yo = s
    sx, sy = [], []
    for i in range(x.ndim):
        lo = max(xo[i], yo[i]); hi = min(xo[i] + x.shape[i], yo[i] + y.shape[i])
        if lo >= hi:
            return {"y": y}
        sx.append(slice(lo - xo[i], hi - xo[i])); sy.append(slice(lo - yo[i], hi - yo[i]))
    y[tuple(sy)] = x[tuple(sx)]
    return {"y": y}


op("copy_intersection", ["x", "y"], ["y"], lambda R, s: (R["x"], list(s[0]), R["y"], list(s[1])), _ci_ref, _ci_space,
   lambda r, shape, sc: idata(shape, 1 if r == "x" else 2), dts=("fp32", "fp64", "int64"))


def _ci_tile(env):
    return lambda R, s: (R["x"], list(s[0]), R["y"], list(s[1]), env.L("int64", (max(1, 2 * len(s[0])),)))


OPS["copy_intersection"].env_tile_args = _ci_tile


# ----------------------------------------------------------------------------
# gemm
def _gemm_dims(tier):
    """m, k, n multi-dims + batch dims with tilings."""
    q = tier == "quick"
    out = []
    # plain matrices: every size and tiling
    md = 3 if q else 4
    for m, n, k in itertools.product(range(1, md + 1), range(1, md + 1), range(1, md + 2)):
        for bm in range(1, m + 1):
            for bnn in range(1, n + 1):
                for bk in range(1, k + 1):
                    out.append((((m,), (n,), (k,), ()), ((bm,), (bnn,), (bk,), ())))
    # multi-dimensional rows / columns / contraction / batch
    opts = [((2,), (1,)), ((3,), (2,)), ((2, 3), (1, 2)), ((2, 2), (2, 1))]
    bopts = [((), ()), ((2,), (1,)), ((3,), (2,)), ((2, 2), (1, 2))]
    zero = ((), ())
    for (m, bm), (n, bn_), (k, bk), (b, bb) in itertools.product([zero] + opts, [zero] + opts, opts, bopts):
        if len(b) == 0 and len(m) == 1 and len(n) == 1 and len(k) == 1:
            continue
        out.append(((m, n, k, b), (bm, bn_, bk, bb)))
    for d, t in (((17,), (5,)), ((33,), (32,)), ((64,), (64,)), ((70,), (35,))):
        out.append(((d, (9,), (11,), ()), (t, (9,), (4,), ())))
        out.append((((7,), d, (5,), ()), ((7,), t, (5,), ())))
        out.append((((7,), (6,), d, (2,)), ((4,), (6,), t, (1,))))
    d, e = (300,), (1100,)
    for x in (((d, (2,), (3,), ()), (d, (2,), (2,), ())), (((2,), d, (3,), ()), ((2,), d, (2,), ())), (((2,), (3,), d, ()), ((2,), (3,), d, ())),
              (((2,), (2,), e, ()), ((2,), (2,), e, ())), (((70,), (66,), (2,), ()), ((70,), (66,), (2,), ())),
              (((2,), (2,), (2,), (70,)), ((2,), (2,), (2,), (70,))), (((2,), (1,), (3,), d), ((2,), (1,), (2,), d)),
              (((2,), (2,), (2,), (12, 13)), ((2,), (2,), (1,), (12, 13))), (((2,), (2,), (2,), (33,)), ((2,), (1,), (2,), (1,))),
              (((2,), (3,), (2, 1, 3), (2,)), ((1,), (2,), (2, 1, 2), (1,))), (((2,), (3,), (2,), (2, 2, 2)), ((1,), (2,), (2,), (2, 1, 2))),
              (((2, 1, 2), (3,), (2,), ()), ((1, 1, 2), (2,), (2,), ())), (((2,), (2, 2, 2), (3,), ()), ((2,), (1, 2, 2), (2,), ()))):
        out.append(x)
    return out


def _gemm_space(tier):
    ab = [(1.0, 0.0), (1.0, 1.0), (-2.0, 0.5), (0.0, 3.0), (0.5, 0.0)]
    for (m, n, k, b), (bm, bn_, bk, bb) in _gemm_dims(tier):
        for ta in (0, 1):
            for tb in (0, 1):
                A = (k + m if ta else m + k) + b, (bk + bm if ta else bm + bk) + bb
                B = (n + k if tb else k + n) + b, (bn_ + bk if tb else bk + bn_) + bb
                C = m + n + b, bm + bn_ + bb
                for i, (al, be) in enumerate(ab):
                    for rx in (0, 1):
                        yield {"A": A, "B": B, "C": C}, (al, be, ta, tb, len(k), len(b), rx)


def _gemm_ref(D, s):
    al, be, ta, tb, nd, bn, rx = s
    A, B, C = D["A"], D["B"], D["C"]
    na, nb = A.ndim - bn, B.ndim - bn
    ia = list(range(na)); ib = list(range(100 - 100 + 10, 10 + nb))
    L = "abcdefghijklmnopqrstuvwxyz"
    kk = L[:nd]; mm = L[5:5 + na - nd]; nn = L[10:10 + nb - nd]; bb = L[15:15 + bn]
    ea = (kk + mm if ta else mm + kk) + bb
    eb = (nn + kk if tb else kk + nn) + bb
    r = np.einsum(ea + "," + eb + "->" + mm + nn + bb, A, B)
    return {"C": al * r + (be * C if be else 0)}


def _gemm_args(env):
    tr = (env.notrans, env.trans)
    return lambda R, s: (s[0], tr[s[2]], R["A"], tr[s[3]], R["B"], s[1], R["C"], s[4], s[5], s[6])


def _gemm_tile_args(env):
    tr = (env.notrans, env.trans)
    return lambda R, s: (s[0], tr[s[2]], R["A"], tr[s[3]], R["B"], s[1], R["C"], s[4], s[5])


_g = op("gemm", ["A", "B", "C"], ["C"], None, _gemm_ref, _gemm_space,
        lambda r, shape, sc: idata(shape, {"A": 1, "B": 2, "C": 3}[r], 20), uninit=lambda s: ["C"] if s[1] == 0.0 else [])
_g.env_args = _gemm_args
_g.env_tile_args = _gemm_tile_args
# the product with TF32 cores: its bodies exist for CUDA only, so it takes part
# only where the stand-ins of standin.cc are installed
EXTRA["gemm_ex"] = _x = Op("gemm_ex", ["A", "B", "C"], ["C"], None, _gemm_ref, _gemm_space, _g.data, uninit=_g.uninit, dts=("fp32",))
_x.env_args = _gemm_args
_x.env_tile_args = _gemm_tile_args


# half precision: to it, back from it, and products in it
def _half(x):
    with np.errstate(all="ignore"):
        return np.asarray(x, dtype=np.float64).astype(np.float32).astype(np.float16).astype(np.float64)


def _conv_py(name):
    return lambda nt, R, s: getattr(nt.core_tensor, name + "_async")(R["x"], R["y"])


EXTRA["fp32_to_fp16"] = _x = Op("fp32_to_fp16", ["x", "y"], ["y"], None, lambda D, s: {"y": _half(D["x"])}, None, None, py=_conv_py("fp32_to_fp16"))
_x.scratch = ("y",)      # NumPy access to half precision does not exist: read after converting back
EXTRA["fp16_to_fp32"] = Op("fp16_to_fp32", ["x", "y"], ["y"], None, lambda D, s: {"y": D["x"]}, None, None, py=_conv_py("fp16_to_fp32"))
EXTRA["fp16_to_fp32"].scratch = ("x",)
EXTRA["gemm_half"] = _x = Op("gemm_half", ["A", "B", "C"], ["C"], None, lambda D, s: {k: _half(v) for k, v in _gemm_ref(D, s).items()}, _gemm_space, None)
_x.scratch = ("A", "B", "C")


def _gemm_half(env):
    tr = (env.notrans, env.trans)
    EXTRA["gemm_half"].py = lambda nt, R, s: nt.gemm_async(s[0], tr[s[2]], R["A"], tr[s[3]], R["B"], s[1], R["C"], s[4], s[5], redux=s[6])


EXTRA["gemm_half"].env_args = lambda env: _gemm_half(env)


# ----------------------------------------------------------------------------
# embedding
def _emb_space(bwd):
    def f(tier):
        q = tier == "quick"
        ishapes = list(st({1: 4, 2: 3, 3: 2} if q else {1: 5, 2: 4, 3: 2}, False, 1)) + [((9, 5), (4, 5)), ((33,), (16,))]
        for s, b in ishapes:
            for axis in range(len(s) + 1):
                for e, eb, vb in ((1, 1, 1), (2, 2, 1), (2, 1, 1), (3, 2, 1), (3, 2, 2), (4, 4, 2), (4, 2, 2), (5, 4, 2), (5, 5, 5), (7, 4, 2)):
                    for nv in (1, 3):
                        for pat in (0, 1, 2):
                            for rx in ((0, 1) if bwd else (0,)):
                                es = s[:axis] + (e,) + s[axis:]
                                ebs = b[:axis] + (eb,) + b[axis:]
                                yield {"index": (s, b), "vocab": ((e, nv), (vb, nv)), "embed": (es, ebs)}, (axis, rx, nv, pat)
        for s, b, e, eb, vb, nv in (((70,), (64,), 70, 64, 32, 70), ((9, 5), (4, 5), 33, 33, 33, 300), ((300,), (300,), 2, 2, 1, 1030),
                                    ((3, 4), (2, 4), 130, 130, 65, 66), ((300,), (1,), 3, 2, 1, 5), ((3,), (2,), 1, 1, 1, 70000), ((2, 65, 2), (2, 65, 2), 17, 16, 8, 129)):
            for axis in range(len(s) + 1):
                es = s[:axis] + (e,) + s[axis:]
                ebs = b[:axis] + (eb,) + b[axis:]
                for pat in (0, 1, 2):
                    for rx in ((0, 1) if bwd else (0,)):
                        yield {"index": (s, b), "vocab": ((e, nv), (vb, nv)), "embed": (es, ebs)}, (axis, rx, nv, pat)
    return f


def _emb_data(r, shape, sc):
    if r == "index":
        return _labels(shape, sc[2], sc[3])
    return idata(shape, 1 if r == "vocab" else 2)


def _emb_ref(D, s):
    v = D["vocab"][:, D["index"].astype(np.int64)]  # (e,) + index.shape
    return {"embed": np.moveaxis(v, 0, s[0])}


def _embb_ref(D, s):
    g = np.moveaxis(D["embed"], s[0], 0)
    v = D["vocab"].copy()
    np.add.at(v.T, D["index"].astype(np.int64).ravel(), g.reshape(g.shape[0], -1).T)
    return {"vocab": v}


op("embedding", ["index", "vocab", "embed"], ["embed"], lambda R, s: (R["index"], R["vocab"], R["embed"], s[0]), _emb_ref,
   _emb_space(False), _emb_data, rdt={"index": "int64"}, tile=False, uninit=lambda s: ["embed"])
op("embedding_backward", ["index", "embed", "vocab"], ["vocab"],
   lambda R, s: (R["index"], R["embed"], R["vocab"], s[0], s[1]), _embb_ref,
   _emb_space(True), _emb_data, rdt={"index": "int64"}, tile=False)


# ----------------------------------------------------------------------------
# fused optimizer steps (one step; histories are C10's subject)
def _opt_scals():
    for it in (1, 2, 7):
        for b1, b2 in ((0.5, 0.75), (0.875, 0.96875)):
            for lr in (0.125, 1.0):
                for wd in (0.0, 0.25):
                    yield (it, b1, b2, 0.0625, lr, wd)


def _opt_ref(adamw):
    def f(D, s):
        it, b1, b2, eps, lr, wd = s
        p, g = D["p"], D["grad"]
        if wd:
            if adamw:
                p = p * (1 - lr * wd)
            else:
                g = g + wd * p
        m = (1 - b1) * g + (b1 * D["m"] if it > 1 else 0)
        v2 = (1 - b2) * g * g + (b2 * D["v"] ** 2 if it > 1 else 0)
        mh = m / (1 - b1 ** it); vh = v2 / (1 - b2 ** it)
        return {"p": p - lr * mh / (np.sqrt(vh) + eps), "m": m, "v": np.sqrt(v2)}
    return f


def _opt_data(r, shape, sc):
    return np.abs(fdata(shape, 3)) if r == "v" else fdata(shape, {"grad": 1, "m": 2, "p": 4}[r])


for _n, _w in (("adam_step", False), ("adamw_step", True)):
    op(_n, ["grad", "m", "v", "p"], ["m", "v", "p"],
       lambda R, s: (s[0], s[1], s[2], s[3], s[4], s[5], R["grad"], R["m"], R["v"], R["p"]), _opt_ref(_w),
       ew_space(["grad", "m", "v", "p"], list(_opt_scals()), maxd={0: 1, 1: 5, 2: 3, 3: 2}), _opt_data, exact=False,
       tol={"fp32": 1e-5, "fp64": 1e-12}, py_name=None,
       uninit=lambda s: ["m", "v"] if s[0] == 1 else [])
    OPS[_n].py = (lambda n: lambda nt, R, s: getattr(nt, "fused_" + n)(R["p"], R["grad"], R["m"], R["v"], s[4], s[3],
                                                                      s[1], s[2], s[5], s[0]))(_n)

OPS["mask_scalar"].tile_ok = lambda s: s[1] == 1
for _n, _r, _k in (("sum_slice", "dst", "add"), ("norm_slice", "dst", "hypot"), ("sumprod_slice", "dst", "add"),
                   ("sumprod_fiber", "dst", "add"), ("sum_fiber", "f", "add"), ("maxsumexp", "dst", "maxsumexp"),
                   ("gemm", "C", "add")):
    OPS[_n].redux = (_r, _k, -1)
OPS["embedding_backward"].redux = ("vocab", "add", 1)
EXTRA["gemm_ex"].redux = OPS["gemm"].redux


# ----------------------------------------------------------------------------
# flash attention: blocked computation with rematerialized attention matrix
def _fl_geo(tier):
    """(head_size, n_seq, n_batch, n_head), tiles; tiles always divide (others are rejected)."""
    q = tier == "quick"
    def dv(n):
        return [t for t in range(1, n + 1) if n % t == 0]
    geo = []
    for h in (1, 2, 3):
        for s in (1, 2, 3, 4) if q else (1, 2, 3, 4, 6):
            for nb in (1, 2):
                for nh in (1, 2) if q else (1, 2, 3):
                    for ts in dv(s):
                        for tb in dv(nb):
                            for th in dv(nh):
                                geo.append((h, s, nb, nh, ts, tb, th))
    return geo + [(5, 9, 1, 1, 3, 1, 1), (2, 6, 4, 1, 2, 2, 1), (4, 6, 2, 4, 3, 1, 2), (2, 17, 1, 2, 17, 1, 1), (7, 8, 3, 2, 4, 3, 2),
                  (3, 64, 1, 1, 32, 1, 1), (17, 4, 2, 2, 2, 1, 1), (2, 2, 3, 3, 2, 3, 3), (1, 2, 1, 5, 1, 1, 5), (2, 4, 4, 3, 2, 4, 3), (1, 2, 10, 1, 2, 10, 1),
                  (64, 3, 1, 1, 3, 1, 1), (1, 80, 1, 1, 80, 1, 1), (2, 12, 1, 2, 1, 1, 2), (2, 2, 1, 12, 2, 1, 1), (2, 2, 12, 1, 2, 1, 1)]


def _fl_mask(s, pat):
    """Masks (keys x queries) that leave at least one key to every query."""
    i = np.arange(s)
    if pat == 0:
        m = np.ones((s, s), bool)
    elif pat == 1:
        m = i[:, None] <= i[None, :]
    elif pat == 2:
        m = (i[:, None] * 5 + i[None, :] * 3 + i[:, None] * i[None, :]) % 3 != 0
    else:
        m = i[:, None] == (i[None, :] * 3 + 1) % s   # a single key
    m = m.copy()
    for c in range(s):
        if not m[:, c].any():
            m[(c * 2 + 1) % s, c] = True
    return m


def _fl_roles(names, g):
    h, s, nb, nh, ts, tb, th = g
    d = {"X": ((h, s, nb, nh), (h, ts, tb, th)), "mask": ((s, s), (ts, ts)), "ms": ((2, s, nb, nh), (2, ts, tb, th)),
         "A": ((s, s, nb, nh), (ts, ts, tb, th)), "S": ((s, nb, nh), (ts, tb, th))}
    kind = {"mask": "mask", "ms": "ms", "tmp": "A", "tmp_grad": "A", "S": "S"}
    return {n: d[kind.get(n, "X")] for n in names}


def _fl_space(names, priors):
    def f(tier):
        for g in _fl_geo(tier):
            for pat in range(4):
                for pr in priors:
                    for sc in (1.0, 2.0):
                        yield _fl_roles(names, g), (pat, pr, sc)
    return f


def _fl_data(r, shape, sc):
    pat, pr, scale = sc
    if r == "mask":
        return _fl_mask(shape[0], pat)
    if r == "ms":
        if not pr:
            return np.zeros(shape)
        v = fdata(shape, 9)
        v[0] += 16.0 * (scale - 1)   # larger scores come with larger maxima
        v[1] = np.abs(v[1]) + 1.0
        return v
    if r == "S":
        return np.zeros(shape)
    return fdata(shape, {"Q": 1, "K": 2, "V": 3, "dQ": 4, "dK": 5, "dV": 6, "G": 7}.get(r, 8), scale if r in "QK" else 1.0)


def _fl_scores(D):
    a = np.einsum("jkbh,jmbh->kmbh", D["K"], D["Q"]) / np.sqrt(D["Q"].shape[0])
    return np.where(D["mask"].astype(bool)[:, :, None, None], a, -np.inf)


def _fl_prob(D):
    return np.exp(_fl_scores(D) - D["ms"][0]) / D["ms"][1]


def _fl_ms_ref(D, s):
    a = _fl_scores(D)
    m0, s0 = D["ms"][0], D["ms"][1]
    m = a.max(0)
    m = np.where(s0 > 0, np.maximum(m, m0), m)
    return {"ms": np.stack([m, np.exp(a - m).sum(0) + np.where(s0 > 0, s0 * np.exp(m0 - m), 0)])}


def _fl_fwd_ref(D, s):
    return {"dst": np.einsum("jkbh,kmbh->jmbh", D["V"], _fl_prob(D))}


def _fl_bwd_ref(D, s):
    p = _fl_prob(D)
    dp = np.einsum("jkbh,jmbh->kmbh", D["V"], D["G"])
    S = (p * dp).sum(0)
    da = p * (dp - S) / np.sqrt(D["Q"].shape[0])
    return {"dV": np.einsum("jmbh,kmbh->jkbh", D["G"], p), "dQ": np.einsum("jkbh,kmbh->jmbh", D["K"], da),
            "dK": np.einsum("jmbh,kmbh->jkbh", D["Q"], da), "S": S}


_FT = {"fp32": 3e-4, "fp64": 1e-11}
_n = ["Q", "K", "mask", "ms", "tmp"]
op("flash_maxsumexp", _n, ["ms"], lambda R, s: tuple(R[x] for x in ("Q", "K", "mask", "ms", "tmp")) + (0, 0), _fl_ms_ref,
   _fl_space(_n, (0, 1)), _fl_data, exact=False, tol=_FT, rdt={"mask": "bool"}, tile=False, uninit=lambda s: ["tmp"])
_n = ["Q", "K", "V", "mask", "ms", "dst", "tmp"]
op("flash_softmax_gemm", _n, ["dst"], lambda R, s: tuple(R[x] for x in ("Q", "K", "V", "mask", "ms", "dst", "tmp")) + (0, 0), _fl_fwd_ref,
   _fl_space(_n, (1,)), _fl_data, exact=False, tol=_FT, rdt={"mask": "bool"}, tile=False, uninit=lambda s: ["tmp", "dst"])
_n = ["Q", "dQ", "K", "dK", "V", "dV", "mask", "ms", "G", "tmp", "tmp_grad", "S"]
op("flash_softmax_gemm_backward", _n, ["dQ", "dK", "dV", "S"], lambda R, s: tuple(R[x] for x in (
   "Q", "dQ", "K", "dK", "V", "dV", "mask", "ms", "G", "tmp", "tmp_grad", "S")) + (0, 0), _fl_bwd_ref,
   _fl_space(_n, (1,)), _fl_data, exact=False, tol=_FT, rdt={"mask": "bool"}, tile=False,
   uninit=lambda s: ["tmp", "tmp_grad", "dQ", "dK", "dV"])
for _n in ("flash_maxsumexp", "flash_softmax_gemm", "flash_softmax_gemm_backward"):
    _o = OPS[_n]
    _o.scratch = ("tmp", "tmp_grad")
    # the same with TF32 products: another body, for CUDA only
    _x = EXTRA[_n + "_tf32"] = Op(_n + "_tf32", _o.roles, _o.outs, lambda R, s, a=_o.args: a(R, s)[:-1] + (1,), _o.ref, _o.space, _o.data, exact=False,
                                  tol=_FT, rdt=_o.rdt, tile=False, uninit=_o.uninit, py_name=_n, dts=("fp32",))
    _x.scratch = _o.scratch
