"""C08: every single perturbation of the operands of every operation that makes
them incompatible is rejected, and rejection has no effect."""
import itertools
import numpy as np
import opcheck
import ops as O
from h import Fail, LAZY, LIFO

ASSUMPTIONS = ["compatibility is defined per operation below (compat), from the operation's documented definition",
               "CPU build with one MPI node"]
REAL_STRIDE = 211
FULL_PACKAGE = True
TIER = "quick"


def setup(env, tier):
    global TIER
    TIER = tier
    opcheck.bind(env)


def rm(t, a):
    return t[:a] + t[a + 1:]


# ---------------------------------------------------------------------------
# roles: {role: (shape, basetile)}; the tile level passes basetile == shape
def eq(a, b):
    return a[0] == b[0] and a[1] == b[1]


def sl(t, i, j=None):
    return t[0][i:j], t[1][i:j]


def ax_ok(nd, a):
    return 0 <= a < nd


def c_slice(big, small):
    def f(R, axis):
        b, s = R[big], R[small]
        return ax_ok(len(b[0]), axis) and s == (rm(b[0], axis), rm(b[1], axis))
    return f


def c_fiber0(big, small):
    def f(R, axis):
        b, s = R[big], R[small]
        return ax_ok(len(b[0]), axis) and s == ((b[0][axis],), (b[1][axis],))
    return f


def c_fiber(t, f_, axis, bn):
    nd = len(t[0])
    if bn < 0 or bn >= nd or len(f_[0]) != bn + 1 or not 0 <= axis < nd - bn:
        return False
    return eq(f_, ((t[0][axis],) + t[0][nd - bn:], (t[1][axis],) + t[1][nd - bn:]))


def two(R, big, small, axis):
    b, s = R[big], R[small]
    return ax_ok(len(b[0]), axis) and s == ((2,) + rm(b[0], axis), (2,) + rm(b[1], axis))


def c_gemm(R, s):
    ta, tb, nd, bn = s[2:6]
    A, B, C = R["A"], R["B"], R["C"]
    na, nb, nc = (len(x[0]) for x in (A, B, C))
    if nd < 0 or bn < 0 or na < nd + bn or nb < nd + bn or nc != na + nb - 2 * nd - bn:
        return False
    for k in (0, 1):
        a, b, c = A[k], B[k], C[k]
        ba, bb = a[na - bn:], b[nb - bn:]
        a, b = a[:na - bn], b[:nb - bn]
        ka, ma = (a[:nd], a[nd:]) if ta else (a[len(a) - nd:], a[:len(a) - nd])
        kb, nn = (b[len(b) - nd:], b[:len(b) - nd]) if tb else (b[:nd], b[nd:])
        if ka != kb or ba != bb or c != ma + nn + ba:
            return False
    return True


def c_emb(R, axis):
    i, v, e = R["index"], R["vocab"], R["embed"]
    nd = len(e[0])
    if len(i[0]) + 1 != nd or len(v[0]) != 2 or not ax_ok(nd, axis):
        return False
    return i == (rm(e[0], axis), rm(e[1], axis)) and e[0][axis] == v[0][0] and e[1][axis] % v[1][0] == 0 and v[1][1] == v[0][1]


def c_mask(R, s):
    m, x = R["mask"], R["x"]
    bn = s[1]
    nd = len(x[0])
    return 0 <= bn <= nd and len(m[0]) == nd - bn and eq(m, sl(x, 0, nd - bn))


def c_tr(R, s):
    a, b = R["src"], R["dst"]
    n = s[1]
    return len(a[0]) == len(b[0]) and 0 <= n <= len(a[0]) and all(b[k] == a[k][n:] + a[k][:n] for k in (0, 1))


def one_tile(t):
    return t[0] == t[1]


def c_nrm2(R, s):
    src, dst, tmp = R["src"], R["dst"], R["tmp"]
    grid = tuple(-(-x // y) for x, y in zip(*src))
    return dst[0] == () and tmp == (grid, (1,) * len(grid))


def same(R, s):
    v = list(R.values())
    return all(eq(x, v[0]) for x in v)


def c_flash(R):
    """All operands follow the queries; the head is one tile and every tile is full."""
    s, b = R["Q"]
    if len(s) != 4 or s[0] != b[0] or any(x % y for x, y in zip(s, b)):
        return False
    want = {"mask": ((s[1], s[1]), (b[1], b[1])), "ms": ((2,) + s[1:], (2,) + b[1:]), "S": (s[1:], b[1:])}
    want["tmp"] = want["tmp_grad"] = ((s[1],) + s[1:], (b[1],) + b[1:])
    return all(R[r] == want.get(r, (s, b)) for r in R)


COMPAT = {
    "axpy_tensor": lambda R, s: R["a"][0] == () and eq(R["x"], R["y"]),
    "sum_slice": lambda R, s: c_slice("src", "dst")(R, s[2]),
    "norm_slice": lambda R, s: c_slice("src", "dst")(R, s[2]),
    "add_slice": lambda R, s: c_slice("dst", "src")(R, s[2]),
    "add_slice3": lambda R, s: c_slice("dst", "src1")(R, s[2]) and eq(R["src2"], R["dst"]),
    "prod_slice": lambda R, s: c_slice("dst", "src")(R, s[1]),
    "prod_fiber": lambda R, s: c_fiber0("dst", "src")(R, s[1]),
    "prod_fiber3": lambda R, s: c_fiber0("dst", "src1")(R, s[1]) and eq(R["src2"], R["dst"]),
    "sumprod_slice": lambda R, s: c_slice("src1", "dst")(R, s[2]) and eq(R["src1"], R["src2"]),
    "sumprod_fiber": lambda R, s: c_fiber0("src1", "dst")(R, s[2]) and eq(R["src1"], R["src2"]),
    "sum_fiber": lambda R, s: c_fiber(R["t"], R["f"], s[2], s[3]),
    "add_fiber": lambda R, s: c_fiber(R["t"], R["f"], s[2], s[3]),
    "sumnorm": lambda R, s: two(R, "src", "dst", s[0]),
    "sumnorm_tile": lambda R, s: two(R, "src", "dst", s[0]),
    "maxsumexp": lambda R, s: two(R, "src", "dst", s[0]),
    "softmax": lambda R, s: two(R, "dst", "ms", s[1]) and eq(R["src"], R["dst"]),
    "softmax_inplace": lambda R, s: two(R, "dst", "ms", s[1]),
    "normalize": lambda R, s: two(R, "dst", "sumnorm", s[2]) and R["gb"] == ((2,), (2,)) and s[0] > 0 and s[1] > 0,
    "logsumexp": lambda R, s: len(R["src"][0]) > 0 and R["src"][0][0] == 2 and R["src"][1][0] == 2 and eq(sl(R["src"], 1), R["dst"]),
    "nrm2": c_nrm2,
    "nrm2_tile": lambda R, s: R["dst"][0] == () and R["tmp"][0] == (),
    "mask_scalar": c_mask,
    "total_sum_accum": lambda R, s: eq(R["lse"], R["lab"]) and R["val"][0] == () and len(R["src"][0]) > 0
        and eq(sl(R["src"], 1), R["lab"]) and R["src"][0][0] == R["src"][1][0],
    "subtract_indexed_outputs": lambda R, s: len(R["dst"][0]) > 0 and eq(sl(R["dst"], 1), R["lab"]) and R["dst"][0][0] == R["dst"][1][0],
    "transpose": c_tr,
    "scatter": lambda R, s: R["x"][0] == R["y"][0] and one_tile(R["x"]),
    "gather": lambda R, s: R["x"][0] == R["y"][0] and one_tile(R["y"]),
    "copy_intersection": lambda R, s: len(R["x"][0]) == len(R["y"][0]) == len(s[0]) == len(s[1]),
    "gemm": c_gemm, "gemm_ex": c_gemm,
    "embedding": lambda R, s: c_emb(R, s[0]),
    "embedding_backward": lambda R, s: c_emb(R, s[0]),
    "flash_maxsumexp": lambda R, s: c_flash(R),
    "flash_softmax_gemm": lambda R, s: c_flash(R),
    "flash_softmax_gemm_backward": lambda R, s: c_flash(R),
}
# positions of axis-like scalars
AXIS = {"sum_slice": [2], "norm_slice": [2], "add_slice": [2], "add_slice3": [2], "prod_slice": [1], "prod_fiber": [1], "prod_fiber3": [1],
        "sumprod_slice": [2], "sumprod_fiber": [2], "sum_fiber": [2, 3], "add_fiber": [2, 3], "sumnorm": [0], "sumnorm_tile": [0],
        "maxsumexp": [0], "softmax": [1], "softmax_inplace": [1], "normalize": [0, 2], "mask_scalar": [1], "transpose": [1],
        "gemm": [4, 5], "gemm_ex": [4, 5], "embedding": [0], "embedding_backward": [0]}
# reshaping the whole argument list of copy_intersection
OFFS = {"copy_intersection": [0, 1]}


def compat(name, R, s):
    return COMPAT.get(name, same)(R, s)


def bases(name, tier):
    """A few valid instances of every rank/axis combination: one tile each, and tiled."""
    o = opcheck.get_op(name)
    cap = (1 if name == "gemm_ex" else 3) if tier == "quick" else 8
    seen = {}
    for R, sc in o.space("quick"):
        n = max(int(np.prod([-(-x // y) for x, y in zip(*t)] or [1])) for t in R.values())
        el = max(int(np.prod(t[0] or (1,))) for t in R.values())
        if el > 60 or n > 12:
            continue
        k = (tuple(len(t[0]) for t in R.values()), tuple(sc[i] for i in AXIS.get(name, ()) if name != "normalize" or i), n > 1,
             (sc[2:4] if name in ("gemm", "gemm_ex") else ()), sc[o.redux[2]] if o.redux and (tier != "quick" or name not in ("gemm", "gemm_ex")) else 0)
        # prefer instances whose dimensions all differ and are tiled unevenly
        dims = max((t[0] for t in R.values()), key=len)
        if len(dims) <= 3 and min(dims, default=2) < 2:
            continue
        seen.setdefault(k, []).append((len(set(dims)), n, R, sc))
    if name in ("gemm", "gemm_ex"):
        # three contracted and three batch dimensions
        for ta, tb in ((0, 0), (0, 1), (1, 0), (1, 1)):
            k, kb = (2, 3, 2), (1, 2, 2)
            for m, n in (((3,), (2,)), ((), (3,)), ((2,), ())):
                t = lambda x: (x, tuple(-(-y // 2) for y in x))
                m, n, kk = t(m), t(n), (k, kb)
                cat = lambda a, b: (a[0] + b[0], a[1] + b[1])
                yield {"A": cat(kk, m) if ta else cat(m, kk), "B": cat(n, kk) if tb else cat(kk, n), "C": cat(m, n)}, (1.0, 0.0, ta, tb, 3, 0, 0)
            m, n, kk, bb = t((2,)), t((2,)), t((2,)), t((2, 1, 3))
            yield {"A": cat(cat(kk, m) if ta else cat(m, kk), bb), "B": cat(cat(n, kk) if tb else cat(kk, n), bb), "C": cat(cat(m, n), bb)}, (1.0, 0.0, ta, tb, 1, 3, 0)
    for k, v in seen.items():
        v.sort(key=lambda x: (-x[0], -x[1]))
        step = max(1, len(v) // cap)
        for x in v[:1] + v[1::step][:cap - 1]:
            yield x[2], x[3]


def pert(t):
    """All single changes of one (shape, basetile)."""
    s, b = t
    n = len(s)
    for i in range(n):
        for d in {s[i] - 1, s[i] + 1, 2 * s[i]} - {0, s[i]}:
            yield (s[:i] + (d,) + s[i + 1:], b[:i] + (min(b[i], d),) + b[i + 1:])
            if b[i] == s[i]:
                yield (s[:i] + (d,) + s[i + 1:], b[:i] + (d,) + b[i + 1:])
        for d in range(1, s[i] + 1):
            if d != b[i]:
                yield (s, b[:i] + (d,) + b[i + 1:])
        yield (rm(s, i), rm(b, i))
    for i in range(n + 1):
        for d in (1, 2):
            yield (s[:i] + (d,) + s[i:], b[:i] + (d,) + b[i:])
    for i in range(n):
        for j in range(i):
            if (s[i], b[i]) != (s[j], b[j]):
                p = list(range(n)); p[i], p[j] = j, i
                yield tuple(s[x] for x in p), tuple(b[x] for x in p)


def cases(tier):
    for name in sorted(O.OPS) + ["gemm_ex"]:
        o = opcheck.get_op(name)
        for R, sc in bases(name, tier):
            for dt in o.dts[:1] if tier == "quick" else o.dts:
                roles = list(R)
                groups = {}
                for r in roles:
                    groups.setdefault(R[r], []).append(r)
                for g in groups.values():
                    for k in range(1, len(g) + 1) if len(g) <= 5 else (1, 2, len(g) - 1, len(g)):
                        for sub in itertools.combinations(g, k):
                            for p in dict.fromkeys(pert(R[g[0]])):
                                Q = dict(R)
                                for r in sub:
                                    Q[r] = p
                                if not compat(name, Q, sc):
                                    yield [name, dt, Q, sc, None]
                for a in AXIS.get(name, ()):
                    nd = max(len(t[0]) for t in R.values())
                    for v in list(range(-2, nd + 3)) + ([-100] if tier != "quick" else []):
                        s2 = list(sc); s2[a] = v
                        if not compat(name, R, tuple(s2)):
                            yield [name, dt, R, s2, None]
                for a in OFFS.get(name, ()):
                    for v in (sc[a] + (0,), sc[a][:-1] if sc[a] else None):
                        if v is not None:
                            s2 = list(sc); s2[a] = v
                            yield [name, dt, R, s2, None]
                # element types that do not go together (Python layer)
                if len(R) > 1:
                    for r in roles:
                        for d2 in ("fp32", "fp64", "int64"):
                            # the only floating-point operand decides the precision
                            alone = d2 != "int64" and r not in o.rdt and all(x == r or x in o.rdt for x in roles)
                            if o.rdt.get(r, dt) != d2 and not alone:
                                yield [name, dt, R, sc, [r, d2]]
    for c in build_cases():
        yield ["build"] + c
    for dt in ("fp32", "fp64"):
        for b in ((), (3,), (2, 3)):
            for bt in itertools.product(*[range(1, x + 1) for x in b]):
                for st in itertools.product(*[(-1, 0, 1) for _ in b]):
                    for sh in itertools.product(*[(x - 1, x, x + 1) for x in b]):
                        for cut in (0, 1, 2):
                            yield ["randn", dt, [list(b), list(bt)], [list(st), list(sh), cut], None]
    # workspace of the tile-level copy of an intersection
    for dt in ("fp32", "fp64", "int64"):
        for s in ((), (2,), (2, 3), (2, 1, 2)):
            n = len(s)
            for w in [()] + [(k,) for k in range(1, 2 * n + 2)] + [(2 * n or 1, 1), (2 * n or 1, 2)]:
                for off in (0, 1):
                    for da, db, dn in itertools.product((-1, 0, 1), (-1, 0, 1), (-1, 0, 1)):
                        if min(da, db, dn) < 0 and n == 0:
                            continue
                        yield ["citile", dt, [list(s), list(w)], [off, da, db, dn], None]


def build_cases():
    """Builders of layers and models; the last entry tells whether the configuration is supported (None: either)."""
    sides = ("L", "R", "l", "r", "", "LR", "X", None)
    for shape in ((3,), (2, 3), (2, 3, 2)):
        for side in sides:
            for nd in range(-2, len(shape)):
                for out in ([2], [2, 2]):
                    for bias in (0, 1):
                        for tr in (0, 1):
                            ok = side in ("L", "R") and nd > 0 and not (bias and len(out) > 1)
                            if nd or not ok:
                                yield ["linear", shape, [side, nd, out, bias, tr], ok]
    for f in ("relu", "gelu", "gelutanh", "tanh", "RELU", "", "gelu ", "drelu", None):
        yield ["act", (2, 3), [f], f in ("relu", "gelu", "gelutanh")]
    for emb in (4, 6):
        for yt in range(1, emb + 1):
            for wt in range(1, emb + 1):
                yield ["embedding", (2, 3), [emb, yt, wt], yt % wt == 0]
    for kind in ("attn", "flash"):
        for emb in (4, 6):
            for heads in range(1, emb + 1):
                for who in (None, "k", "v", "kv"):
                    for what in ((0, 0, 0, 0),) if who is None else ((1, 0, 0, 0), (0, 1, 0, 0), (0, 0, 1, 0), (0, 0, 0, 1), (1, 0, 1, 0)):
                        # one extent or tile extent of the sequence or batch of x_k or x_v differs
                        yield [kind, (emb, 4, 2), [heads, who, list(what)], emb % heads == 0 and who is None]
    for m in ("deeplinear", "deeprelu"):
        for side in sides:
            for nl in range(-1, 4):
                for nd in (-1, 0, 1, 2):
                    ok = side in ("L", "R") and nl >= 2 and nd > 0
                    # DeepLinear has biases, which span one dimension only: with more it may do either
                    yield [m, (2, 3, 2), [side, nl, nd], None if ok and nd > 1 and m == "deeplinear" else ok]
    for nl in range(-2, 3):
        yield ["mlpmixer", (2, 3, 4), [nl], nl >= 1]
    for side in sides:
        yield ["mixermlp", (2, 3, 4), [side], side in ("L", "R")]
    # the constructors that the builders call, given everything but the last argument from a builder
    for side in sides:
        yield ["ctor", (2, 3, 4), ["mixermlp", "side", side], side in ("L", "R")]
        for nd in range(-2, 3):
            yield ["ctor", (2, 3, 4), ["linear", "side", side, nd], None if nd == 0 else side in ("L", "R") and nd > 0]
    for nd in range(-2, 1):
        yield ["ctor", (2, 3, 4), ["linear", "ndim", nd, 1], False]
    for f in ("relu", "gelu", "gelutanh", "tanh", "RELU", "", "gelu ", "drelu", None):
        yield ["ctor", (2, 3), ["act", "funcname", f], f in ("relu", "gelu", "gelutanh")]
    for kind in ("attn", "flash"):
        for emb in (4, 6):
            for heads in range(1, emb + 1):
                for tile in range(1, heads + 1):
                    bad = emb % heads != 0 or (kind == "flash" and heads % tile != 0)
                    yield ["ctor", (emb, 4, 2), [kind, "w_q", heads, tile], False if bad else None]


def ctor(env, mom, shape, a, done):
    """A call of the constructor of a layer with the arguments a builder gives it, but for one."""
    import inspect
    import nntile.layer as L
    import nntile.layer.mixer as mx
    kind, arg, bad = a[:3]
    C = {"linear": L.Linear, "act": L.Act, "mixermlp": mx.MixerMlp, "attn": L.Attention, "flash": L.FlashAttention}[kind]
    x = mom(shape, (shape[0], 2, 2) if kind in ("attn", "flash") else None)
    old, seen = C.__init__, []

    def init(self, *p, **k):
        seen.append((self, p, k))
        old(self, *p, **k)
    C.__init__ = init
    try:
        if kind == "linear":
            o = L.Linear.generate_simple(x, "L", env.notrans, max(1, a[-1] if arg == "side" else 1), [2], [2], 0, bias=False)
        elif kind == "act":
            o = L.Act.generate_simple(x, "relu", 0)
        elif kind == "mixermlp":
            o = mx.MixerMlp.generate_simple(x, "L", 0)
        else:
            o = C.generate_simple(x, x, x, 2, 2, 0)
    finally:
        C.__init__ = old
    layer = o[0]
    done.append(layer)
    b = [inspect.signature(old).bind(s, *p, **k) for s, p, k in seen if s is layer]
    if not b or arg not in inspect.signature(old).parameters:
        return None
    b = b[-1]
    b.apply_defaults()
    if arg == "w_q":
        bad = mom((a[2],) + tuple(layer.w_q.value.shape[1:]), (a[3],) + tuple(layer.w_q.value.basetile_shape[1:]))
    b.arguments[arg] = bad
    if arg == "side" and kind == "linear":
        b.arguments["ndim"] = a[3]
    args, kw = b.args[1:], b.kwargs
    return lambda: C(*args, **kw)


def build(env, case):
    """Whether the builder accepts; nothing remains of a refused configuration."""
    import gc
    import nntile.layer as L, nntile.model as M
    import nntile.layer.mixer as mx
    from nntile.tensor import TensorMoments
    _, kind, shape, a, ok = case
    shape = tuple(shape)
    env.cfg(mode=LAZY, policy=LIFO, poison=0x7E, workers=2)

    done = []

    def mom(s, bt=None, dt="fp32"):
        return TensorMoments(env.T(dt, s, bt or s, O.idata(tuple(s), 1)), env.T(dt, s, bt or s, O.idata(tuple(s), 2)), True)
    if kind == "ctor":
        f = ctor(env, mom, shape, a, done)
        if f is None:
            done[0].unregister()
            env.finish()
            return {}
    elif kind == "embedding":
        x = env.T("int64", shape, (1, 2), np.zeros(shape))
        f = lambda: L.Embedding.generate_simple(x, env.cls["fp32"], 0, 5, a[0], a[1], a[2], 0)
    elif kind in ("attn", "flash"):
        C = L.Attention if kind == "attn" else L.FlashAttention
        heads, who, (s1, b1, st, bt) = a
        q = mom(shape, (shape[0], 2, 2))
        o = lambda n: q if not who or n not in who else mom((shape[0], shape[1] + 2 * s1, shape[2] + 2 * b1), (shape[0], 2 - st, 2 - bt))
        k = o("k")
        v = o("v")
        f = lambda: C.generate_simple(q, k, v, heads, heads, 0)
    else:
        x = mom(shape)
        if kind == "linear":
            side, nd, out, bias, tr = a
            f = lambda: L.Linear.generate_simple(x, side, env.trans if tr else env.notrans, nd, list(out), list(out), 0, bias=bool(bias))
        elif kind == "act":
            f = lambda: L.Act.generate_simple(x, a[0], 0)
        elif kind in ("deeplinear", "deeprelu"):
            side, nl, nd = a
            f = (lambda: M.DeepLinear(x, side, nd, 2, 2, nl, 0)) if kind == "deeplinear" else (lambda: M.DeepReLU(x, side, nd, 2, 2, nl, 2, 0))
        elif kind == "mlpmixer":
            f = lambda: M.MlpMixer(x, 4, a[0], 2, 0)
        else:
            f = lambda: mx.MixerMlp.generate_simple(x, a[0], 0)
    before = [(t, env.get(t)) for t in env.live]
    s0 = env.stats().get("submitted", 0)
    h0 = env.live_handles()
    err = r = None
    try:
        r = f()
    except Exception as e:
        err = "%s: %s" % (type(e).__name__, e)
    if ok is not None and ok != (err is None):
        raise Fail("builder %s%s on %s %s" % (kind, tuple(a), shape, "accepted an unsupported configuration" if err is None else "raised " + err))
    if err is not None and (env.stats().get("submitted", 0) != s0 or env.pending()):
        raise Fail("builder %s%s on %s raised after submitting tasks" % (kind, tuple(a), shape))
    for t, data in before:
        if not np.array_equal(env.get(t), data):
            raise Fail("builder %s%s on %s changed its input" % (kind, tuple(a), shape))
    r = None
    if env.live_handles() != h0:
        gc.collect()
    if env.live_handles() != h0:
        raise Fail("builder %s%s on %s left %d handle(s) behind" % (kind, tuple(a), shape, env.live_handles() - h0))
    for l in done:
        l.unregister()
    env.finish()
    return {"build": 1}


GRAVE = []


def attempt(env, name, dt, roles, sc, R, f, case, fl):
    """Call and demand an exception and no effect."""
    before = {r: (env.get(t) if not fl.startswith("tile") else env.getL(t)) for r, t in R.items()}
    s0 = env.stats().get("submitted", 0)
    try:
        f()
    except Exception as e:
        msg = "%s: %s" % (type(e).__name__, e)
    else:
        GRAVE.append((R, list(env.live)))
        env.live = []
        raise Fail("%s[%s, %s] accepted incompatible operands: tensors %s scalars %s types %s (%d tasks submitted)"
                   % (name, dt, fl, roles, sc, case[4], env.stats().get("submitted", 0) - s0))
    n = env.stats().get("submitted", 0) - s0
    if n or env.pending():
        raise Fail("%s[%s, %s] raised (%s) after submitting %d task(s): tensors %s scalars %s" % (name, dt, fl, msg, n, roles, sc))
    for r, t in R.items():
        g = env.get(t) if not fl.startswith("tile") else env.getL(t)
        if not np.array_equal(g, before[r]):
            raise Fail("%s[%s, %s] raised (%s) but changed %s: tensors %s scalars %s" % (name, dt, fl, msg, r, roles, sc))


@opcheck.extra(lambda c: c[0])
def run(env, case):
    if case[0] == "build":
        try:
            return build(env, case)
        except Fail:
            GRAVE.append(list(env.live))
            env.live = []
            raise
    name, dt, roles, sc, types = case
    env.cfg(mode=LAZY, policy=LIFO, poison=0x7E, workers=2)
    k = {}
    if name == "randn":
        (b, bt), (st, sh, cut) = roles, sc
        bad = any(s < 0 or s + x > y for s, x, y in zip(st, b, sh))
        if cut:
            if cut == 1:
                st = st + [0]
            else:
                sh = sh + [5]
            bad = True
        if not bad:
            return {"compatible": 1}
        t = env.T(dt, b, bt, O.idata(tuple(b), 1))
        attempt(env, name, dt, roles, sc, {"x": t}, lambda: env.nt.randn_async(t, st, sh, 1, 0.0, 1.0), case, "py")
        if env.shim is not None:
            t = env.L(dt, b, O.idata(tuple(b), 1))
            attempt(env, name, dt, roles, sc, {"x": t}, lambda: getattr(env.shim, "randn_async_" + dt)(t, st, sh, 1, 0.0, 1.0), case, "tile")
        env.finish()
        return {"randn": 1}
    if name == "citile":
        (sh, w), (off, da, db, dn) = roles, sc
        n = len(sh)
        if env.shim is None or (len(w) == 1 and w[0] >= 2 * n and not (da or db or dn)):
            return {"compatible": 1}
        ds = (sh + [1])[:n + dn]
        x, y, t = env.L(dt, tuple(sh), O.idata(tuple(sh), 1)), env.L(dt, tuple(ds), O.idata(tuple(ds), 2)), env.L("int64", tuple(w), np.zeros(tuple(w)))
        attempt(env, name, dt, roles, sc, {"x": x, "y": y, "t": t}, lambda: getattr(env.shim, "copy_intersection_async_" + dt)(
            x, [0] * (n + da), y, [off] * (n + dn + db), t), case, "tile")
        env.finish()
        return {"citile": 1}
    o = opcheck.get_op(name)
    roles = {r: (tuple(s), tuple(b)) for r, (s, b) in roles.items()}
    sc = opcheck.tup(sc)
    for fl in ("py",) if types else ("py", "core", "tile"):
        f = opcheck.getfn(env, o, dt, fl)
        if f is None:
            continue
        tile = fl == "tile"
        if tile:
            # the tile level has no tilings: only what is wrong with shapes and scalars counts
            if o.redux and sc[o.redux[2]]:
                continue
            tsc = (sc[0], 1) + sc[2:] if name == "mask_scalar" else sc  # the tile level has exactly one batch dimension
            if compat(name, {r: (s, s) for r, (s, b) in roles.items()}, tsc):
                continue
        elif not o.tensor:
            continue
        R = {}
        for r, (s, b) in roles.items():
            rd = o.rdt.get(r, dt)
            if types and types[0] == r:
                rd = types[1]
            d = np.arange(int(np.prod(s or (1,))), dtype=np.float64).reshape(s) % 2 if rd in ("int64", "bool") else O.fdata(s, 1)
            R[r] = env.L(rd, s, d) if tile else env.T(rd, s, b, d)
        if o.redux and sc[o.redux[2]] and not tile and not (types and types[0] == o.redux[0]):
            getattr(R[o.redux[0]], "set_reduction_" + o.redux[1])()
        attempt(env, name, dt, roles, sc, R, lambda: f(R, sc), case, fl)
        k[fl] = 1
        env.finish()
    return k


def run_real(env, case):
    return run(env, case)
