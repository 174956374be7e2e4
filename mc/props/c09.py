"""C09: the random normal fill is a function of seed, mean, deviation and global
position only: every tiling and every sub-box of every small enclosing shape."""
import itertools
import numpy as np
from h import Fail, EAGER, LAZY, EXPLORE, LIFO, ALT

ASSUMPTIONS = ["CPU codelets only", "a value may be compared with the Box-Muller transform of the documented 64-bit congruential generator up to rounding; different tilings are compared bit for bit"]
REAL_STRIDE = 41
TIER = "quick"
A, C, M = 6364136223846793005, 1, 1 << 64
SEEDS = [100, 0, 1, 2 ** 64 - 1, 2 ** 63, 123456789012345]
MS = [(0.0, 1.0), (2.0, 0.5), (-3.0, 0.0), (0.25, -1.5), (0.0, 100.0)]
HUGE = [((1 << 20, 1 << 21, 1 << 20), (3, 2, 3)), ((1 << 31, 1 << 30), (3, 4)), ((1 << 62,), (4,)), ((5, 1 << 33), (3, 4)), ((1 << 33, 3, 2), (2, 2, 2)),
        ((70000, 70000), (3, 3)), ((1 << 16, 1 << 16, 1 << 16), (2, 3, 2)), ((3, 1 << 20, 1 << 20, 1 << 15), (2, 2, 3, 2))]


def setup(env, tier):
    global TIER
    TIER = tier


def dims(u):
    for n in range(1, u + 1):
        for s in range(u - n + 1):
            for b in range(1, n + 1):
                yield u, s, n, b


def cases(tier):
    q = tier == "quick"
    sp = [(0, 0), (1, 8), (2, 5), (3, 3), (4, 2), (5, 2)] if q else [(0, 0), (1, 12), (2, 6), (3, 4), (4, 3), (5, 2)]
    j = 0
    for nd, mx in sp:
        one = [d for u in range(1, mx + 1) for d in dims(u)]
        for c in itertools.product(one, repeat=nd):
            j += 1
            for dt in ("fp32", "fp64"):
                ss = range(len(SEEDS)) if not q or nd <= 1 else [j % len(SEEDS)]
                for s in ss:
                    yield ["box", dt, [list(x) for x in c], s, (j + s) % len(MS)]
    # tiles with many columns
    for k, c in enumerate(([[7, 2, 3, 2], [80, 5, 70, 35]], [[3000, 100, 2500, 1100]], [[3, 0, 3, 3], [11, 1, 9, 9], [12, 2, 10, 5]],
                           [[2, 0, 1, 1], [300, 7, 290, 290]], [[40, 3, 33, 33], [41, 0, 41, 41]], [[3, 1, 2, 2], [5, 1, 4, 3], [6, 1, 5, 5], [7, 2, 4, 4]],
                           [[2, 0, 2, 2], [3, 1, 2, 2], [5, 0, 5, 5], [4, 1, 3, 2], [3, 0, 3, 3]], [[3, 0, 2, 2], [2, 0, 2, 2], [3, 1, 2, 1], [2, 0, 2, 2], [3, 1, 2, 2], [2, 0, 2, 2]])):
        for dt in ("fp32", "fp64"):
            for s in range(len(SEEDS)):
                yield ["box", dt, c, s, (k + s) % len(MS)]
    # enclosing spaces far larger than any tensor: jump-ahead by up to 2^62 positions
    for dt in ("fp32", "fp64"):
        for U, n in HUGE:
            for where in itertools.product((0, 1, 2, 3), repeat=len(U)):
                for b in itertools.product(*[sorted({1, 2, x}) for x in n]):
                    if any(x > y for x, y in zip(b, n)) or (q and len(U) > 2 and sum(b) % 2):
                        continue
                    st = [[0, (u - k) // 2, u - k, min((u - k) // 3 + 1, u - k)][w] for w, u, k in zip(where, U, n)]
                    yield ["box", dt, [[u, s, k, x] for u, s, k, x in zip(U, st, n, b)], sum(where) % len(SEEDS), 0]
    for dt in ("fp32", "fp64"):
        for s in range(len(SEEDS)):
            yield ["stat", dt, s]


def jump(seed, n):
    """State after n steps."""
    a, c, x = A, C, seed
    while n:
        if n & 1:
            x = (a * x + c) % M
        c = c * (a + 1) % M
        a = a * a % M
        n >>= 1
    return x


_std = {}


def std(dt, seed, p):
    """Standard normal value at position p (float64, from the type's uniform values)."""
    k = (dt, seed, p)
    if k in _std:
        return _std[k]
    T = np.float32 if dt == "fp32" else np.float64
    r1 = jump(seed, 2 * p)
    r2 = (A * r1 + C) % M
    mul = T(5.4210108624275222e-20)
    t1 = T(np.uint64(r1)) * mul
    t2 = float(T(np.uint64(r2)) * mul) * 2 * np.pi
    if t1 <= 0:
        v = None
    else:
        v = float(np.sqrt(-2 * np.log(np.longdouble(t1))) * np.cos(np.longdouble(t2)))
    if len(_std) > 200000:
        _std.clear()
    _std[k] = v
    return v


def check(env, dt, got, box, seed, mean, dev, case):
    """Position by position against the generator."""
    st = 1
    w = np.empty(got.shape)
    for i in itertools.product(*[range(k) for k in got.shape]):
        p, m = 0, 1
        for x, (u, s, n, b) in zip(i, box):
            p += (s + x) * m
            m *= u
        z = std(dt, seed, p)
        g = float(got[i])
        if not np.isfinite(g):
            raise Fail("value at global position %d (seed %d) is %r (case %s)" % (p, seed, g, case))
        if z is None:
            continue
        w = mean + dev * z
        e = (6e-6 if dt == "fp32" else 1e-14) * (abs(dev) + abs(mean)) * 2
        if abs(g - w) > e:
            raise Fail("value at %s (global position %d, seed %d, mean %g, dev %g) = %r, expected %r (case %s)"
                       % (list(i), p, seed, mean, dev, g, w, case))


def run(env, case, real=False):
    try:
        return run1(env, case, real)
    except Fail:
        raise
    except Exception as e:
        env.abandon()
        raise Fail("raised %s: %s (case %s)" % (type(e).__name__, e, case))


def run1(env, case, real):
    kind, dt = case[:2]
    npdt = np.float32 if dt == "fp32" else np.float64
    cnt = {}
    if kind == "stat":
        # same call twice, other seeds, affine in mean and deviation
        seed = SEEDS[case[2]]
        n, b = (7, 5), (3, 2)
        env.cfg(mode=LAZY, policy=LIFO)
        base = None
        for rep in range(3):
            t = env.T(dt, n, b if rep < 2 else n)
            env.nt.randn_async(t, [0, 0], list(n), seed, 0.0, 1.0)
            g = env.get(t)
            if base is not None and not np.array_equal(base, g):
                raise Fail("repeated fill with seed %d differs" % seed)
            base = g
        for o in SEEDS:
            t = env.T(dt, n, b)
            env.nt.randn_async(t, [0, 0], list(n), o, 0.0, 1.0)
            g = env.get(t)
            if o != seed and (g == base).any():
                raise Fail("seeds %d and %d share values" % (seed, o))
        for mean, dev in MS:
            t = env.T(dt, n, b)
            env.nt.randn_async(t, [0, 0], list(n), seed, mean, dev)
            g = env.get(t).astype(float)
            w = mean + dev * base.astype(float)
            if np.abs(g - w).max() > 4 * np.finfo(npdt).eps * (abs(mean) + abs(dev) * np.abs(base).max()):
                raise Fail("fill with mean %g and deviation %g is not mean + deviation * standard fill" % (mean, dev))
        if len(np.unique(base)) != base.size:
            raise Fail("repeated values in one fill (seed %d)" % seed)
        env.finish()
        return {"stat": 1}
    _, _, box, si, mi = case
    seed, (mean, dev) = SEEDS[si], MS[mi]
    U = [x[0] for x in box]
    S = [x[1] for x in box]
    n = tuple(x[2] for x in box)
    b = tuple(x[3] for x in box)
    nt = 1
    for x, y in zip(n, b):
        nt *= -(-x // y)
    name = "randn_async_" + dt
    fl = ["py", "core"] + (["explore"] if not real and 1 < nt <= (6 if TIER == "quick" else 9) else []) + (["tile", "tile_async"] if n == b else [])
    first = None
    for f in fl:
        if f == "py":
            env.cfg(mode=LAZY, policy=LIFO, workers=2, poison=0x7E)
        elif f == "explore":
            env.cfg(mode=EXPLORE, workers=2 if TIER == "quick" else 3, full=1, max_states=20000, poison=0xFF)
        elif f == "core":
            env.cfg(mode=EAGER, workers=2, poison=0xFF)
        else:
            env.cfg(mode=LAZY, policy=ALT, workers=2, poison=0x55)
        if f.startswith("tile"):
            if env.shim is None:
                continue
            t = env.L(dt, n)
            getattr(env.shim, ("randn_" if f == "tile" else "randn_async_") + dt)(t, S, U, seed, mean, dev)
            if f == "tile" and env.pending():
                raise Fail("blocking tile fill returned with pending tasks (case %s)" % case)
            g = env.getL(t)
        else:
            t = env.T(dt, n, b)
            if f == "core":
                getattr(env.ct, "randn_" + dt)(t, S, U, seed, mean, dev)
                if env.pending():
                    raise Fail("blocking fill returned with pending tasks (case %s)" % case)
            else:
                env.nt.randn_async(t, S, U, seed, mean, dev)
            g = env.get(t)
        env.finish()
        if first is None:
            first = g
            check(env, dt, g, box, seed, mean, dev, case)
        elif not np.array_equal(g, first):
            raise Fail("%s differs from py (case %s)" % (f, case))
        cnt[f] = 1
    # the whole enclosing tensor in one tile, bit for bit
    tot = 1
    for u in U:
        tot *= u
    if tot <= 4096:
        env.cfg(mode=EAGER)
        k = ("whole", dt, tuple(U), seed, mi)
        if k not in _std:
            t = env.T(dt, U, [max(1, u) for u in U])
            env.nt.randn_async(t, [0] * len(U), U, seed, mean, dev)
            _std[k] = env.get(t)
            env.finish()
        sl = tuple(slice(s, s + m) for s, m in zip(S, n))
        if not np.array_equal(_std[k][sl], first):
            raise Fail("sub-tensor differs from the same box of the whole tensor (case %s)" % case)
        cnt["whole"] = 1
    return cnt


def run_real(env, case):
    return run(env, case, True)
