"""C27: sums, norms, hypotenuses and normalisation for arguments of any magnitude and axes of any
length.

Every assignment of boundary magnitudes (zero, subnormal, tiny, moderate, huge, of both signs) to
the elements of a short axis, with every prior content, tiling, layout and reduction mode; and
structured long axes on which plain summation loses digits.  References in extended precision."""
import itertools
import numpy as np
import opcheck
import ops as O
from h import Fail, EXPLORE, LAZY, LIFO

ASSUMPTIONS = ["CPU codelets only", "arguments whose result or partial sums exceed the largest finite number are not considered"]
REAL_STRIDE = 37
FULL_PACKAGE = True
TIER = "quick"
LD = np.longdouble
NP = {"fp32": np.float32, "fp64": np.float64}


def setup(env, tier):
    global TIER
    TIER = tier
    opcheck.bind(env)


def info(dt):
    f = np.finfo(NP[dt])
    return float(f.eps), float(f.max), float(f.tiny), float(f.smallest_subnormal)


def alphabet(dt, op):
    eps, mx, tiny, sub = info(dt)
    if op == "sumprod_slice" or op == "sumprod_fiber":
        s = float(np.sqrt(mx)) / 4
        return [0.0, 1.0, -1.0, s, -s, 1 / s, 1 + 2 * eps]
    if op in ("sum_slice", "sum_fiber", "total_sum_accum"):
        return [0.0, 1.0, -1.0, mx / 16, -mx / 16, 0.5 / eps, eps / 2, sub * 3, 1 / 3]
    return [0.0, 1.0, -1.5, mx / 16, -mx / 8, tiny, -sub, sub * 5, tiny * 1e6, 1e-20, -1e19, float(np.sqrt(mx)) * 1.5]


PRIOR = (0.0, 1.0, -0.75, "mx", "tiny")
SC = [(1.0, 0.0), (1.0, 1.0), (-2.0, 0.5), (0.5, -1.0)]
LONG = ("const", "alt", "one", "dec", "tail", "cancel")
SLICE = {"sum_slice": ("src",), "norm_slice": ("src",), "sumprod_slice": ("src1", "src2"), "sum_fiber": ("t",),
         "sumprod_fiber": ("src1", "src2")}


def cases(tier):
    q = tier == "quick"
    for dt in ("fp32", "fp64"):
        for op in SLICE:
            for k in (1, 2, 3) if q else (1, 2, 3, 4):
                if len(SLICE[op]) == 2 and k > (2 if q else 3):
                    continue
                for lay in (0, 1, 2):
                    if lay == 2 and op.endswith("fiber"):
                        continue
                    for kb in range(1, k + 1):
                        for sc in SC:
                            for pr in range(len(PRIOR)):
                                for rx in (0, 1):
                                    if rx and (k == 1 or pr > 1 and q):
                                        continue
                                    if k == 3 and q and pr > 2 and lay:
                                        continue
                                    yield ["short", op, dt, k, lay, kb, list(sc), pr, rx]
        for sc in SC:
            for b in (1, 0):
                yield ["hypot", dt, list(sc), b]
        for k in (1, 2, 3):
            for kb in range(1, k + 1):
                for sc in SC:
                    for pr in range(len(PRIOR)):
                        if k == 3 and q and (pr not in (0, 3) or kb == 1):
                            continue
                        yield ["nrm2", dt, k, kb, list(sc), pr]
        for k in (1, 2, 3) if q else (1, 2, 3, 4):
            for lay in (0, 1):
                for kb in range(1, k + 1):
                    for e in (1e-5, 1.0, 1e-12):
                        for gb in ((1.0, 0.0), (-2.0, 0.5)):
                            yield ["normalize", dt, k, lay, kb, e, list(gb)]
        for op in ("adam_step", "adamw_step"):
            for it in (1, 2, 5):
                for wd in (0.0, 0.125):
                    for eps in (1e-8, 1e-3):
                        yield ["adam", dt, op, it, wd, eps]
        for k in (2, 3):
            for lay in (0, 1):
                for kb in range(1, k + 1):
                    for e in (1e-5, 1.0):
                        yield ["layernorm", dt, k, lay, kb, e]
        for op in list(SLICE) + ["total_sum_accum", "maxsumexp"]:
            for n in (1000, 70001) if q else (1000, 70001, 1000003):
                for nb in (n, -(-n // 3)):
                    for pat in LONG:
                        for lay in (0, 1):
                            for rx in (0, 1):
                                if rx and (nb == n or op == "total_sum_accum" or n > 1000 and q):
                                    continue
                                if op in ("total_sum_accum",) and lay:
                                    continue
                                yield ["long", op, dt, n, nb, pat, lay, rx]


def pack(cols, lay):
    k, n = cols.shape
    if lay == 0:
        return np.asfortranarray(cols), 0
    if lay == 1:
        return np.asfortranarray(cols.T), 1
    h = next((d for d in (2, 3, 5) if n % d == 0), 1)
    return np.asfortranarray(cols.reshape(k, h, n // h).transpose(1, 0, 2)), 1


def assignments(dt, op, k):
    a = alphabet(dt, op)
    if len(a) ** k > 3000 and TIER == "quick" or k > 3:
        a = a[:8]
    return np.array(list(itertools.product(a, repeat=k))).T.astype(NP[dt])


def judge(dt, what, got, want, bound, skip, case):
    """|got - want| <= bound wherever the result is representable."""
    g = got.astype(LD)
    with np.errstate(all="ignore"):
        ok = (np.abs(g - want) <= bound) | skip
    if not np.all(ok):
        i = tuple(np.argwhere(~ok)[0])
        raise Fail("%s%s = %r, expected %r within %.3g (case %s)" % (what, list(i), float(g[i]), float(want[i]), float(bound[i]), case))
    return int(g.size - np.count_nonzero(skip))


def outcomes(env, f, check, full=1):
    """Run f under every schedule; check every distinct outcome."""
    n, j = 1, 0
    while j < min(n, 3 if TIER == "quick" else 10):
        env.choose(j)
        env.cfg(mode=EXPLORE, workers=2, full=full, max_states=200 if TIER == "quick" else 5000, poison=0x7E, tol=1)
        R = f()
        env.wait()
        if j == 0:
            n = env.choose(0)
            env.choose(0)
        env.cfg(mode=LAZY, policy=LIFO, poison=0xFF)
        check(R)
        env.finish()
        j += 1
    env.choose(0)


def operate(env, name, dt, D, tiles, sc, case, bound_k, rx=0, full=1, C=8.0):
    """One call of an operation, judged by its definition evaluated in extended precision."""
    o = O.OPS[name]
    eps, mx, tiny, sub = info(dt)
    DL = {r: (d.astype(LD) if d.dtype != np.int64 else d) for r, d in D.items()}
    AB = {r: (np.abs(d) if d.dtype != np.int64 else d) for r, d in DL.items()}
    if name == "total_sum_accum":
        AB["src"] = -AB["src"]
    asc = tuple(abs(s) if isinstance(s, float) else s for s in sc)
    with np.errstate(all="ignore"):
        want = o.ref(DL, sc)
        mag = o.ref(AB, asc)
    al = max([1.0] + [abs(s) for s in sc if isinstance(s, float)])
    cnt = [0]

    def call():
        R = {r: env.T(o.rdt.get(r, dt), d.shape, tiles.get(r, d.shape), d) for r, d in D.items()}
        if rx:
            getattr(R[o.redux[0]], "set_reduction_" + o.redux[1])()
        opcheck.getfn(env, o, dt, "py")(R, sc)
        return R

    def check(R):
        for r in o.outs:
            got = env.get(R[r])
            m = np.asarray(mag[r])
            with np.errstate(all="ignore"):
                skip = ~(m * 2 < mx)
                cnt[0] += judge(dt, name + " " + r, got, np.asarray(want[r]), C * eps * m + (bound_k + 6) * sub * al * 2, skip, case)

    outcomes(env, call, check, full)
    return {"results": cnt[0]}


def prior(dt, pr, n):
    eps, mx, tiny, sub = info(dt)
    v = {"mx": mx / 16, "tiny": tiny * 3}.get(PRIOR[pr], PRIOR[pr])
    return np.full(n, v, dtype=NP[dt])


def r_short(env, case):
    _, op, dt, k, lay, kb, sc, pr, rx = case
    srcs = SLICE[op]
    if len(srcs) == 2:
        a = assignments(dt, op, 2 * k)
        cols = [a[:k], a[k:]]
    else:
        cols = [assignments(dt, op, k)]
    D, tiles = {}, {}
    fiber = op.endswith("fiber")
    for r, c in zip(srcs, cols):
        x, axis = pack(c, lay)
        D[r] = x
        bt = list(x.shape)
        bt[axis] = kb
        if lay == 2 and x.shape[2] > 2:
            bt[2] = -(-x.shape[2] // 2)
        tiles[r] = tuple(bt)
    if fiber:
        keep = 1 - axis
        oshape, obt = (x.shape[keep],), (bt[keep],)
        s = (keep, 0, rx) if op == "sum_fiber" else (keep, rx)
    else:
        oshape = x.shape[:axis] + x.shape[axis + 1:]
        obt = tuple(bt[:axis] + bt[axis + 1:])
        s = (axis, rx)
    out = O.OPS[op].outs[0]
    D[out] = prior(dt, pr, oshape)
    if op == "norm_slice":
        D[out] = np.abs(D[out])
    tiles[out] = obt
    return operate(env, op, dt, D, tiles, tuple(sc) + s, case, k, rx, full=1 if k < 3 else 0)


def r_hypot(env, case):
    _, dt, sc, b = case
    a = assignments(dt, "hypot", 2)
    t = (a.shape[1] if b else -(-a.shape[1] // 3),)
    return operate(env, "hypot", dt, {"x": a[0].copy(), "y": a[1].copy()}, {"x": t, "y": t}, tuple(sc), case, 1)


def r_nrm2(env, case):
    _, dt, k, kb, sc, pr = case
    n = 0
    for c in (assignments(dt, "nrm2", k).T if k < 3 else assignments(dt, "nrm2", k).T[::11]):
        D = {"src": c.copy(), "dst": prior(dt, pr, ()), "tmp": np.zeros(-(-k // kb), NP[dt])}
        n += operate(env, "nrm2", dt, D, {"src": (kb,), "tmp": (1,)}, tuple(sc), case, k)["results"]
    return {"results": n}


def r_long(env, case):
    _, op, dt, n, nb, pat, lay, rx = case
    eps, mx, tiny, sub = info(dt)
    i = np.arange(n, dtype=np.float64)
    v = {"const": np.full(n, 0.1), "alt": np.where(i % 2 == 0, 1000.1, 1e-3 / 3),
         "one": np.where(i == 0, 1.0, 0.4 * eps), "dec": 1.0 / (1.0 + i), "tail": np.where(i == 0, 3e4, 1.0 / 3),
         "cancel": np.where(i % 2 == 0, 1.0, -1.0) * (1000.0 / 7 + i % 5)}[pat].astype(NP[dt])
    w = np.stack([v, v[::-1] if pat in ("const", "alt", "cancel") else v * NP[dt](0.7)], axis=1)   # (n, 2)
    ntile = -(-n // nb)
    C = 8.0 + ntile
    if op == "total_sum_accum":
        lab = (np.arange(n) % 2).astype(np.int64)
        src = np.asfortranarray(np.stack([-v, -v * NP[dt](0.7)]))
        D = {"lse": v.copy(), "src": src, "lab": lab, "val": np.full((), 0.25, NP[dt])}
        return operate(env, op, dt, D, {"lse": (nb,), "src": (2, nb), "lab": (nb,)}, (1.0, 2, 0), case, 0, C=C)
    if op == "maxsumexp":
        # descending: every new maximum rescales the sum, which rounds it
        w = np.maximum(-np.abs(w), NP[dt](-20))
        w = -np.sort(-w, axis=0)
        x = np.asfortranarray(w) if lay == 0 else np.asfortranarray(w.T)
        D = {"src": x, "dst": np.zeros((2, 2), NP[dt])}
        return long_mse(env, dt, D, nb, lay, rx, case)
    srcs = SLICE[op]
    D, tiles = {}, {}
    for j, r in enumerate(srcs):
        y = w if j == 0 else (np.ones_like(w) + NP[dt](0.25) * (np.arange(n) % 3)[:, None]).astype(NP[dt])
        D[r] = np.asfortranarray(y if lay == 0 else y.T)
        tiles[r] = (nb, 2) if lay == 0 else (2, nb)
    out = O.OPS[op].outs[0]
    D[out] = np.full(2, 0.5, NP[dt])
    tiles[out] = (2,)
    axis = lay
    s = ((1 - axis, 0, rx) if op == "sum_fiber" else (1 - axis, rx)) if op.endswith("fiber") else (axis, rx)
    if op == "sumprod_fiber":  # plain summation: the bound grows with the length
        C += n
    return operate(env, op, dt, D, tiles, (1.0, 1.0) + s, case, 0, rx, C=C)


def long_mse(env, dt, D, nb, lay, rx, case):
    eps = info(dt)[0]
    x = D["src"].astype(LD)
    m = x.max(axis=lay)
    want = np.exp(x - np.expand_dims(m, lay)).sum(axis=lay)
    # rounding of the argument of every exponent
    slack = (np.abs(x - np.expand_dims(m, lay)) * np.exp(x - np.expand_dims(m, lay))).sum(axis=lay)
    bt = (nb, 2) if lay == 0 else (2, nb)
    cnt = [0]

    def call():
        X, S = env.T(dt, D["src"].shape, bt, D["src"]), env.T(dt, (2, 2), (2, 2), D["dst"])
        if rx:
            S.set_reduction_maxsumexp()
        env.nt.maxsumexp_async(X, S, lay, rx)
        return S

    def check(S):
        g = env.get(S)
        cnt[0] += judge(dt, "maxsumexp", g[1], want, eps * (16 * want + slack), np.zeros(want.shape, bool), case)

    outcomes(env, call, check)
    return {"results": cnt[0]}


def interval(x, e, eps, axis, centred):
    """Mean and bounds of the deviation sqrt(var + e) allowed by rounding."""
    k = x.shape[axis]
    mean = x.mean(axis=axis, keepdims=True)
    ms = (x ** 2).mean(axis=axis, keepdims=True)
    var = ((x - mean) ** 2).mean(axis=axis, keepdims=True)
    c = (16 + 4 * k) * eps
    ab = np.abs(x).max(axis=axis, keepdims=True)
    err = c * (ms + e) if not centred else c * (var + e) + (c * ab) ** 2 + 2 * c * ab * np.sqrt(var)
    return mean, ab, np.sqrt(np.maximum(var + e - err, 0)), np.sqrt(var + e), np.sqrt(var + e + err), c


def band(x, e, eps, axis, g, b, centred):
    mean, ab, lo, dev, hi, c = interval(x, e, eps, axis, centred)
    num = x - mean
    want = g * num / dev + b
    ea = c * ab                                  # absolute error of the numerator
    with np.errstate(all="ignore"):
        bound = abs(g) * ((np.abs(num) + ea) / lo - np.abs(num) / hi) + c * (np.abs(want) + abs(b)) + 4 * c * abs(b)
    return want, np.where(lo > 0, bound, np.inf)


def norm_data(dt, k, huge):
    eps, mx, tiny, sub = info(dt)
    s = float(np.sqrt(mx))
    a = [0.0, 1.0, -1.0, 1e-3, 3 * s, -5 * s, 1e-18, 1e15, -1e-18, tiny, 1e4 + 1 / 3]
    if huge:
        a += [mx / 16, -mx / 8]
    if k > 3:
        a = a[:7]
    return np.array(list(itertools.product(a, repeat=k))).T.astype(NP[dt])


def r_normalize(env, case):
    _, dt, k, lay, kb, e, gb = case
    eps, mx, tiny, sub = info(dt)
    x, axis = pack(norm_data(dt, k, True), lay)
    bt = list(x.shape)
    bt[axis] = kb
    xl = x.astype(LD)
    want, bound = band(xl, LD(NP[dt](e)), eps, axis, gb[0], gb[1], False)
    osh = (2,) + x.shape[:axis] + x.shape[axis + 1:]
    obt = (2,) + tuple(bt[:axis] + bt[axis + 1:])
    cnt = [0]

    def call():
        X = env.T(dt, x.shape, bt, x)
        S = env.T(dt, osh, obt)
        G = env.T(dt, (2,), (2,), np.array(gb, NP[dt]))
        env.nt.sumnorm_async(X, S, axis)
        env.nt.normalize_async(G, S, X, k, e, axis)
        return X, S

    def check(R):
        s = env.get(R[1]).astype(LD)
        c = (8 + 2 * k) * eps
        ab = np.abs(xl).sum(axis=axis)
        judge(dt, "sum", s[0], xl.sum(axis=axis), c * ab + 4 * sub, np.zeros(ab.shape, bool), case)
        nn = np.sqrt((xl ** 2).sum(axis=axis))
        judge(dt, "norm", s[1], nn, c * nn + 4 * sub, np.zeros(ab.shape, bool), case)
        g = env.get(R[0])
        if not np.isfinite(g).all():
            i = tuple(np.argwhere(~np.isfinite(g))[0])
            raise Fail("normalize%s = %r for the slice %s (case %s)" % (list(i), float(g[i]), x.take(i[1 - axis], axis=1 - axis).tolist(), case))
        cnt[0] += judge(dt, "normalize", g, want, bound + 8 * sub, np.zeros(x.shape, bool), case)

    outcomes(env, call, check, full=1 if k < 3 else 0)
    return {"results": cnt[0]}


def r_layernorm(env, case):
    _, dt, k, lay, kb, e = case
    eps, mx, tiny, sub = info(dt)
    from nntile.layer.layer_norm import LayerNorm
    from nntile.tensor import TensorMoments
    x, axis = pack(norm_data(dt, k, False), lay)
    bt = list(x.shape)
    bt[axis] = kb
    xl = x.astype(LD)
    want, bound = band(xl, LD(e), eps, axis, 1.0, 0.0, True)
    cnt = [0]

    def call():
        X = env.T(dt, x.shape, bt, x)
        l, _ = LayerNorm.generate_simple(TensorMoments(X, None, False), axis, e, 0)
        l.forward_async()
        return X, l

    def check(R):
        X, l = R
        g = fetch(l.y.value, dt)
        if not np.isfinite(g).all():
            i = tuple(np.argwhere(~np.isfinite(g))[0])
            raise Fail("LayerNorm%s = %r for the slice %s (case %s)" % (list(i), float(g[i]), x.take(i[1 - axis], axis=1 - axis).tolist(), case))
        cnt[0] += judge(dt, "LayerNorm", g, want, bound + 8 * tiny, np.zeros(x.shape, bool), case)
        l.y.unregister()
        l.unregister()

    outcomes(env, call, check, full=0)
    return {"results": cnt[0]}


def fetch(t, dt):
    a = np.zeros(t.shape, dtype=NP[dt], order="F")
    t.to_array(a)
    return a


def r_adam(env, case):
    _, dt, op, it, wd, e = case
    eps, mx, tiny, sub = info(dt)
    o = O.OPS[op]
    a = [0.0, 1.0, -1.5, mx / 64, -mx / 64, 1e-12, tiny * 8, 1e19, -3e-7]
    n = list(itertools.product(a, (0.0, 0.5, -2.0, mx / 256), (0.0, 1.0, 1e-15, mx / 256), (0.0, 3.0, -0.125)))
    G, M, V, P = (np.array(c).astype(NP[dt]) for c in zip(*n))
    b1, b2, lr = 0.875, 0.96875, 0.125
    sc = (it, b1, b2, e, lr, wd)
    D = {"grad": G, "m": M, "v": V, "p": P}
    DL = {r: d.astype(LD) for r, d in D.items()}
    ee = LD(NP[dt](e))
    sL = (it, b1, b2, ee, lr, wd)
    want = o.ref(DL, sL)
    g = DL["grad"] + (wd * DL["p"] if wd and op == "adam_step" else 0)
    # magnitudes of the terms
    ga = np.abs(DL["grad"]) + (wd * np.abs(DL["p"]) if wd and op == "adam_step" else 0)
    ma = (1 - b1) * ga + (b1 * np.abs(DL["m"]) if it > 1 else 0)
    dg = 4 * eps * ga                                # error of the effective gradient
    v = want["v"]
    vb = 16 * eps * v + dg + 8 * sub
    mb = 8 * eps * ma + dg + 8 * sub
    c1, c2 = 1 - LD(b1) ** it, np.sqrt(1 - LD(b2) ** it)
    with np.errstate(all="ignore"):
        den = v / c2 + ee
        dlo = np.maximum(den - vb / c2 - 8 * eps * den, 0)
        step = lr * np.abs(want["m"]) / c1 / den
        shi = lr * (np.abs(want["m"]) + mb) / c1 / dlo
        pb = np.where(dlo > 0, (shi - step) * 1.5 + 16 * eps * step, np.inf) + 8 * eps * np.abs(DL["p"]) + 8 * sub
        pb = pb + lr * mb / c1 / np.where(den > 0, den, 1)
        skip = ~((ma * 8 < mx) & (step * 8 < mx) & (v / c2 * 8 < mx))
    cnt = [0]
    t = (len(n) // 2,)

    def call():
        R = {r: env.T(dt, d.shape, t, d) for r, d in D.items()}
        opcheck.getfn(env, o, dt, "py")(R, sc)
        return R

    def check(R):
        for r, b in (("m", mb), ("v", vb), ("p", pb)):
            cnt[0] += judge(dt, op + " " + r, env.get(R[r]), want[r], b, skip, case)

    outcomes(env, call, check)
    return {"results": cnt[0]}


def run(env, case):
    try:
        return dict(globals()["r_" + case[0]](env, case), **{"family_" + case[0]: 1})
    except Fail:
        env.choose(0)
        env.abandon()
        raise


def run_real(env, case):
    return run(env, case)
