"""C13: softmax statistics for every assignment of boundary values to a short
axis, every tiling of the axis, every accumulation order and merge tree."""
import itertools
import numpy as np
import opcheck
import ops as O
from h import Fail, EAGER, LAZY, EXPLORE, LIFO, ALT

ASSUMPTIONS = ["CPU codelets only", "+infinity and NaN inputs are outside the domain (minus infinity marks masked entries)"]
REAL_STRIDE = 41
TIER = "quick"
INF = np.inf


def setup(env, tier):
    global TIER
    TIER = tier
    opcheck.bind(env)


def alphabet(dt, tier):
    big = 3.4028234663852886e38 if dt == "fp32" else 1.7976931348623157e308
    edge = 88.0 if dt == "fp32" else 709.0
    a = [-INF, -big, -1e30, -104.0, -1.5, 0.0, 1.0, edge, edge + 16, 1e30, big]
    if tier == "thorough":
        a += [-0.0, 1e-40, -edge, 17.0, -1e4, big / 2, 0.3330078125]
    return a


# states of the (max, sum) accumulator before the operation
def prevs(dt):
    big = 3.4028234663852886e38 if dt == "fp32" else 1.7976931348623157e308
    return [(0.0, 0.0), (7.0, 0.0), (0.0, 1.0), (-1e30, 2.5), (1e30, 1.0), (3.0, 0.75), (-big, 1.0), (88.0, 3.0)]


def cases(tier):
    q = tier == "quick"
    for dt in ("fp32", "fp64"):
        for k in (1, 2, 3, 4):
            m = len(alphabet(dt, tier))
            if k == 4 and q:
                continue
            if k == 4:
                m = min(m, 11)
            # leading values are split over cases; the others are enumerated inside one tensor
            for lead in itertools.product(range(m), repeat=max(0, k - 2)):
                for kb in range(1, k + 1):
                    for prev in range(len(prevs(dt))):
                        for lay in (0, 1, 2):
                            for rx in (0, 1):
                                if q and k == 3 and (prev > 3 and lay) or (rx and k == 1):
                                    continue
                                yield ["stat", dt, k, list(lead), kb, prev, lay, rx]
        # (max,sum) pairs for log-sum-exp and the merge of partial results through longer axes
        for k, kb in ((9, 1), (9, 4), (33, 8), (65, 64), (130, 64), (257, 100)):
            for scale in (1.0, 30.0, 1e3, 1e30):
                for mask in (0, 1, 2, 3):
                    for lay in (0, 1, 2):
                        for rx in (0, 1):
                            yield ["long", dt, k, kb, scale, mask, lay, rx]
    # general small shapes are shared with the other operations
    for c in opcheck.cases(["maxsumexp", "softmax", "softmax_inplace", "logsumexp"], tier, O.HUGE_AXES):
        yield ["op"] + c


def stats_ref(x, axis, prev):
    """(max, sum) in long double; prev is (max, sum) arrays or None."""
    x = x.astype(np.longdouble)
    fin = np.isfinite(x)
    m = np.where(fin, x, -INF).max(axis=axis)
    pm, ps = prev
    has = ps > 0
    mm = np.maximum(m, np.where(has, pm, -INF))
    with np.errstate(all="ignore"):
        s = np.where(fin, np.exp(np.where(fin, x, 0) - np.expand_dims(np.where(np.isfinite(mm), mm, 0), axis)), 0).sum(axis=axis)
        s = s + np.where(has, ps * np.exp(np.where(has, pm, 0) - np.where(np.isfinite(mm), mm, 0)), 0)
    none = ~np.isfinite(mm)
    return np.where(none, pm, mm), np.where(none, ps, s), none


def close(name, g, w, tol, case, absn=0.0):
    g = np.asarray(g, dtype=np.longdouble)
    w = np.asarray(w, dtype=np.longdouble)
    with np.errstate(all="ignore"):
        ok = (np.abs(g - w) <= tol * np.abs(w) + absn) | (g == w)
    if not ok.all():
        b = tuple(np.argwhere(~ok)[0])
        raise Fail("%s%s = %r, expected %r (case %s)" % (name, list(b), float(g[b]), float(w[b]), case))


def layout(cols, lay):
    """cols: (k, n) -> tensor with the axis at position lay among 3 layouts."""
    k, n = cols.shape
    if lay == 0:
        return cols, 0                         # (k, n)
    if lay == 1:
        return np.ascontiguousarray(cols.T), 1  # (n, k)
    h = n // 2 if n % 2 == 0 else n
    return cols.reshape(k, h, n // h).transpose(1, 0, 2), 1  # (h, k, n/h)


def run_stat(env, case, real=False):
    kind, dt = case[:2]
    if kind == "stat":
        _, _, k, lead, kb, prev, lay, rx = case
        a = alphabet(dt, TIER)
        if k == 4:
            a = a[:11]
        rest = list(itertools.product(a, repeat=min(k, 2)))
        cols = np.array([[a[i] for i in lead] + list(r) for r in rest]).T
        pm, ps = prevs(dt)[prev]
    else:
        _, _, k, kb, scale, mask, lay, rx = case
        n = 4
        cols = O.fdata((k, n), 3, scale)
        i = np.arange(k)[:, None] + np.arange(n)[None, :]
        if mask == 1:
            cols[(i % 3) == 0] = -INF
        elif mask == 2:
            cols[: k // 2 + 1] = -INF
        elif mask == 3:
            cols[i != k] = -INF
            cols[k - 1, 0] = -scale
            cols[0, :] = -scale
        pm, ps = 0.0, 0.0
    npdt = np.float32 if dt == "fp32" else np.float64
    x, axis = layout(cols.astype(npdt), lay)
    bt = list(x.shape)
    bt[axis] = kb
    for i in range(len(bt)):
        if i != axis and not real and x.shape[i] > 2 and lay == 2:
            bt[i] = (x.shape[i] + 1) // 2
    oshape = (2,) + tuple(s for i, s in enumerate(x.shape) if i != axis)
    obt = (2,) + tuple(s for i, s in enumerate(bt) if i != axis)
    st = np.empty(oshape, dtype=npdt)
    st[0] = pm
    st[1] = ps
    m, s, none = stats_ref(x, axis, (st[0].astype(np.longdouble), st[1].astype(np.longdouble)))
    eps = 1.2e-7 if dt == "fp32" else 2.3e-16
    tol = eps * (6 + 2 * k)
    cnt = {"slices": int(m.size)}
    nouts, j = 1, 0
    maxo = 4 if TIER == "quick" else 12
    while j < min(nouts, maxo):
        env.choose(j)
        env.cfg(mode=EXPLORE, workers=2, full=1 if k <= 4 and lay != 2 else 0, max_states=400 if TIER == "quick" else 20000, poison=0x7E, tol=1)
        X = env.T(dt, x.shape, bt, x)
        S = env.T(dt, oshape, obt, st)
        P = env.T(dt, x.shape, bt)
        Q = env.T(dt, x.shape, bt, x)
        L = env.T(dt, oshape[1:], obt[1:])
        if rx:
            S.set_reduction_maxsumexp()
        env.nt.maxsumexp_async(X, S, axis, rx)
        if j == 0:
            env.wait()
            nouts = env.choose(0)
            env.choose(0)
        else:
            env.wait()
        env.cfg(mode=LAZY, policy=LIFO, poison=0xFF)
        g = env.get(S)
        close("max", g[0], m, 0.0, case)
        close("sum", g[1], s, tol, case)
        fin = ~none
        # derived quantities, for slices with at least one finite entry
        env.nt.softmax_async(S, X, 2.0, P, axis)
        env.nt.softmax_inplace_async(S, 2.0, Q, axis)
        env.nt.logsumexp_async(S, L)
        xf = x.astype(np.longdouble)
        gm, gs = g[0].astype(np.longdouble), g[1].astype(np.longdouble)
        has = gs > 0
        with np.errstate(all="ignore"):
            w = np.where(np.isfinite(xf), 2.0 * np.exp(np.where(np.isfinite(xf), xf, 0) - np.expand_dims(gm, axis))
                         / np.expand_dims(np.where(has, gs, 1), axis), 0)
        sel = np.broadcast_to(np.expand_dims(has, axis), x.shape) | ~np.isfinite(xf)
        tiny = 4 * np.finfo(npdt).tiny
        # an exponent argument is itself rounded to working precision
        with np.errstate(all="ignore"):
            arg = np.abs(np.where(np.isfinite(xf), xf, 0) - np.expand_dims(gm, axis))
        rel = np.minimum(eps * (8 + arg), 0.5)
        for nm, t in (("softmax", P), ("softmax_inplace", Q)):
            gp = env.get(t).astype(np.longdouble)
            with np.errstate(all="ignore"):
                ok = (np.abs(gp - w) <= rel * np.abs(w) + tiny) | ~sel
            if not ok.all():
                b = tuple(np.argwhere(~ok)[0])
                raise Fail("%s%s = %r, expected %r (case %s)" % (nm, list(b), float(gp[b]), float(w[b]), case))
        with np.errstate(all="ignore"):
            wl = gm + np.log(np.where(has, gs, 1))
        gl = env.get(L).astype(np.longdouble)
        with np.errstate(all="ignore"):
            ok = (np.abs(gl - wl) <= eps * 4 * (np.abs(gm) + np.abs(wl) + 1)) | ~has
        if not ok.all():
            b = tuple(np.argwhere(~ok)[0])
            raise Fail("logsumexp%s = %r, expected %r (case %s)" % (list(b), float(gl[b]), float(wl[b]), case))
        if not np.array_equal(env.get(X), x):
            raise Fail("source of softmax statistics changed (case %s)" % case)
        env.finish()
        j += 1
        cnt["outcomes"] = cnt.get("outcomes", 0) + 1
    env.choose(0)
    return cnt


def run(env, case, real=False):
    if case[0] == "op":
        return opcheck.run_case(env, case[1:], tier=TIER, explore=not real)
    try:
        return run_stat(env, case, real)
    except Fail as e:
        env.choose(0)
        raise


def run_real(env, case):
    return run(env, case, True)
