"""C20: accuracy of activations and elementwise functions over the float range."""
import ctypes, os
import numpy as np
from h import Fail, EAGER

ASSUMPTIONS = [
    "arguments are finite; a few units of precision means error within K eps of the value or of the change of the value "
    "under a relative change eps of the argument (the conditioning of the function), K as stated per function",
    "results below the normal range may be flushed (absolute floor stated per function)"]
STATE_COUNTER = "points"
REAL_STRIDE = 211

RELU, DRELU, GELU, DGELU, GELUTANH, DGELUTANH, SQRT, HYPINV, POW = range(9)
TINY = 40 * 2.0 ** -149, 40 * 2.0 ** -1074
SMALL = 2.0 ** -119, 2.0 ** -1012  # 128 / largest finite number
#        op                  function   K   floor  kind
FNS = {
    "relu":              (RELU,      1,  None,  "inplace"),
    "relu_forward":      (RELU,      1,  None,  "copy"),
    "relu_backward":     (DRELU,     1,  None,  "backward"),
    "drelu":             (DRELU,     1,  None,  "inplace"),
    "gelu":              (GELU,      8,  TINY,  "inplace"),
    "dgelu":             (DGELU,     4,  TINY,  "inplace"),
    "gelu_backward":     (DGELU,     4,  TINY,  "backward"),
    "gelutanh":          (GELUTANH,  8,  SMALL, "copy"),
    "gelutanh_inplace":  (GELUTANH,  8,  SMALL, "inplace"),
    "dgelutanh":         (DGELUTANH, 50,  SMALL, "inplace"),
    "gelutanh_backward": (DGELUTANH, 50,  SMALL, "backward"),
    "sqrt":              (SQRT,      2,  None,  "copy"),
    "sqrt_inplace":      (SQRT,      2,  None,  "inplace"),
    "hypot_scalar_inverse": (HYPINV, 4,  SMALL, "hypinv"),
    "pow":               (POW,       8,  TINY,  "pow"),
}
DYDX = ((1.0, 0.0), (-2.5, 0.0), (0.5, 1.0), (1e3, -3.0))
HYP = ((1.0, 0.0), (1.0, 1e-5), (-0.5, 1.0), (3.0, 1e10))  # alpha, eps
POWS = [(1.0, e) for e in (-2.0, -1.0, -0.5, 0.0, 0.5, 1.0, 2.0, 3.0)] + [(-2.0, -1.0), (0.5, -0.5), (-1.0, 2.0)]


class W:
    pass


def setup(env, tier):
    W.lib = ctypes.CDLL(os.path.join(env.out, "mcacc.so"))
    W.seen = {}


def params(kind):
    return {"backward": range(len(DYDX)), "hypinv": range(len(HYP)), "pow": range(len(POWS))}.get(kind, (0,))


def cases(tier):
    out = []
    for n, (fn, K, fl, kind) in FNS.items():
        for p in params(kind):
            # single precision: sign x exponent blocks with a grid of mantissas
            for sign in (0, 1):
                if n.startswith("sqrt") and sign:
                    continue
                for e0 in range(0, 255, 15):
                    if tier == "quick":
                        bits = 11 if kind not in ("backward", "pow", "hypinv") else 9
                        out.append([n, "fp32", p, sign, e0, 15, bits])
                        if 105 <= e0 < 150:  # 2^-22 to 2^23, where the functions bend
                            for e in range(e0, e0 + 15, 5):
                                out.append([n, "fp32", p, sign, e, 5, bits + 3])
                    else:
                        for e in range(e0, e0 + 15):
                            full = kind in ("inplace", "copy") and 107 <= e <= 137
                            if full:
                                for part in range(8):
                                    out.append([n, "fp32", p, sign, e, 1, 23, part])
                            else:
                                out.append([n, "fp32", p, sign, e, 1, 16])
                # double precision
                for e0 in range(0, 2047, 89):
                    out.append([n, "fp64", p, sign, e0, 89, 4 if tier == "quick" else 9])
                for e0 in range(1003, 1043, 5):
                    out.append([n, "fp64", p, sign, e0, 5, 11 if tier == "quick" else 16])
    return out


def arguments(dt, sign, e0, ne, bits, part=None):
    mb, ut, ft, es = (23, np.uint32, np.float32, 31) if dt == "fp32" else (52, np.uint64, np.float64, 63)
    k = np.arange(1 << bits, dtype=np.uint64)
    if part is not None:
        k = k.reshape(8, -1)[part]
    # the leading bits run over all values, the rest copies them (dense low bits too)
    m = k << np.uint64(mb - bits)
    sh = mb - bits
    low = np.zeros_like(k)
    while sh > 0:
        sh -= bits
        low |= (k << np.uint64(sh)) if sh >= 0 else (k >> np.uint64(-sh))
    m = m | low
    extra = np.array([1, 2, (1 << mb) - 1, (1 << mb) - 2, 1 << (mb - 1)], dtype=np.uint64)
    if bits < mb:
        m = np.unique(np.concatenate([m, k << np.uint64(mb - bits), extra]))
    e = np.arange(e0, e0 + ne, dtype=np.uint64)
    b = (np.uint64(sign) << np.uint64(es)) | (e[:, None] << np.uint64(mb)) | m[None, :]
    return np.ascontiguousarray(b.ravel().astype(ut)).view(ft)


def run(env, case):
    env.cfg(mode=EAGER, workers=1)
    name, dt, p, sign, e0, ne, bits = case[:7]
    x = arguments(dt, sign, e0, ne, bits, case[7] if len(case) > 7 else None)
    x = x[np.isfinite(x)]
    fn, K, floors, kind = FNS[name]
    floor = floors[dt == "fp64"] if floors else 0.0
    a = b = dx0 = 0.0
    dy = 1.0
    np_t = np.float32 if dt == "fp32" else np.float64
    f = getattr(env.ct, name + "_async_" + dt)
    n = x.size
    shape, bt = (n,), (max(1, n // 2),)
    if kind == "inplace":
        X = env.T(dt, shape, bt, x)
        f(X)
        Y = X
    elif kind == "copy":
        X = env.T(dt, shape, bt, x)
        Y = env.T(dt, shape, bt, np.full(n, 7, np_t))
        f(X, Y)
    elif kind == "backward":
        dy, dx0 = DYDX[p]
        X = env.T(dt, shape, bt, x)
        G = env.T(dt, shape, bt, np.full(n, dy, np_t))
        Y = env.T(dt, shape, bt, np.full(n, dx0, np_t))
        f(X, G, Y)
    elif kind == "hypinv":
        a, b = HYP[p]
        a, b = float(np_t(a)), float(np_t(b))
        X = Y = env.T(dt, shape, bt, x)
        f(b, a, X)
    else:
        a, b = POWS[p]
        if b != int(b):
            x = x[x >= 0]
            if not x.size:
                return {"points": 0}
            n = x.size
            shape, bt = (n,), (max(1, n // 2),)
        X = Y = env.T(dt, shape, bt, x)
        f(a, b, X)
    env.wait()
    got = np.ascontiguousarray(env.get(Y))
    if Y is not X and not np.array_equal(env.get(X).view(np.uint8), x.view(np.uint8)):
        raise Fail("%s changed its source" % name)
    env.finish()
    worst, want, cnt = ctypes.c_double(), ctypes.c_double(), ctypes.c_long()
    D = ctypes.c_double
    g = W.lib.acc32 if dt == "fp32" else W.lib.acc64
    g.restype = ctypes.c_long
    i = g(fn, ctypes.c_long(x.size), ctypes.c_void_p(x.ctypes.data), ctypes.c_void_p(got.ctypes.data),
          D(a), D(b), D(dx0), D(dy), D(floor), ctypes.byref(worst), ctypes.byref(want), ctypes.byref(cnt))
    if os.environ.get("C20_SHOW"):
        print("%-22s %s p=%d worst %.2f at %r got %r want %r" % (name, dt, p, worst.value, float(x[i]), float(got[i]), want.value))
        return {"points": cnt.value}
    if worst.value > K:
        raise Fail("%s_%s(%r)%s = %r, expected %r (%.3g units of precision)"
                   % (name, dt, float(x[i]), "" if kind in ("inplace", "copy") else " with parameters %r" % ([a, b, dx0, dy],),
                      float(got[i]), want.value, worst.value))
    return {"points": cnt.value}


def run_real(env, case):
    return run(env, case)
