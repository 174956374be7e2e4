"""C01: every schedule of an asynchronous program gives the sequential result.

Family A: every operation o (every role assignment, several scalars, small
tilings) in all programs [pre, o, post] where pre and post range over {nothing,
overwrite, commutative update, in-place update, read} of each of o's operands.
Family B: all programs of length 3 (quick) / 4 (thorough) over a core alphabet
of operations on a shared pool of tensors.
Family C: every operation submitted twice (three times) in a row with other arguments, on
operands of its own and on the same operands."""
import itertools
import numpy as np
import ops as O
import opcheck, prog
from h import Fail, EXPLORE

ASSUMPTIONS = ["StarPU orders tasks by sequential data consistency per handle (model mcstarpu; replayed on the real library)",
               "CPU codelets only"]
REAL_STRIDE = 211
TIER = "quick"


def setup(env, tier):
    global TIER
    TIER = tier
    opcheck.bind(env)


# ---- family A ---------------------------------------------------------------
def small(roles):
    """Each dimension is split into at most two tiles, at most 4 tiles each."""
    for s, b in roles.values():
        n = 1
        for x, y in zip(s, b):
            g = -(-x // y)
            if g > 2 or x > 4:
                return False
            n *= g
        if n > 4:
            return False
    return True


def grid(roles):
    return tuple(sorted((r, tuple(-(-x // y) for x, y in zip(s, b))) for r, (s, b) in roles.items()))


def instances(name, tier):
    """Representative argument tuples: one per (scalars, tile grid of every operand)."""
    o = O.OPS[name]
    seen = set()
    ntask = 4 if tier == "quick" else 8
    scs = {}
    for roles, sc in o.space("quick"):
        if not small(roles):
            continue
        g = grid(roles)
        m = max(np.prod(x[1]) for x in g) if g else 1
        if m < 2 and len(o.roles) > 1 and any(len(s) for s, b in roles.values()) and tier == "quick":
            if any(max(s, default=1) > 2 for s, b in roles.values()):
                continue
        if opcheck.ntasks(o, roles) > ntask:
            continue
        if max((len(s) for s, b in roles.values()), default=0) > (3 if tier == "quick" else 4):
            continue
        key = (g, sc)
        if key in seen:
            continue
        # a few scalar tuples per grid
        c = scs.setdefault(g, set())
        if len(c) >= (4 if tier == "quick" else 40) and sc not in c:
            continue
        c.add(sc)
        seen.add(key)
        yield roles, sc


def aux_ops(rd, r, shape, bt):
    """(kind, step builder) acting on operand r; the aux tensor has the same tiling."""
    if rd in ("int64",):
        return [("write", ("copy", {"x": "aux_" + r, "y": r}, ())), ("read", ("copy", {"x": r, "y": "out_" + r}, ()))]
    if rd == "bool":
        return []
    return [("write", ("copy", {"x": "aux_" + r, "y": r}, ())),
            ("fill", ("fill", {"x": r}, (1.0,))),
            ("commute", ("axpy", {"x": "aux_" + r, "y": r}, (1.0,))),
            ("update", ("scal_inplace", {"x": r}, (2.0,))),
            ("read", ("copy", {"x": r, "y": "out_" + r}, ()))]


# operands whose content must stay consistent (the statistics of a slice)
DOMAIN = {("normalize", "sumnorm"), ("flash_softmax_gemm", "ms"), ("flash_softmax_gemm_backward", "ms"), ("flash_maxsumexp", "ms")}
SKIP = {"sumnorm_tile", "nrm2_tile"}


def fam_a(tier):
    for name, o in O.OPS.items():
        if name in SKIP or not o.tensor:
            continue
        dt = "fp64" if len(name) % 2 else "fp32"
        if dt not in o.dts:
            dt = "fp64"
        for roles, sc in instances(name, tier):
            al = [None]
            for r, (s, b) in roles.items():
                rd = o.rdt.get(r, dt)
                if r in o.scratch:
                    continue
                for kind, st in aux_ops(rd, r, s, b):
                    if (name, r) in DOMAIN and kind in ("commute", "update", "fill"):
                        continue
                    al.append((r, kind))
            for pre in al:
                for post in al:
                    if tier == "quick" and pre and post and pre[0] != post[0]:
                        continue
                    yield ["A", name, dt, roles, sc, pre, post]


def build_a(case):
    _, name, dt, roles, sc, pre, post = case
    o = O.OPS[name]
    roles = {r: (tuple(s), tuple(b)) for r, (s, b) in roles.items()}
    sc = opcheck.tup(sc)
    T, steps = {}, []
    for r, (s, b) in roles.items():
        rd = o.rdt.get(r)
        d = o.data(r, s, sc)
        T[r] = (rd, s, b, d)
    for q in (pre, post):
        if q is not None:
            r, kind = q
            s, b = roles[r]
            rd = o.rdt.get(r)
            st = dict(aux_ops(rd or dt, r, s, b))[kind]
            if "aux_" + r in st[1].values():
                d = np.asarray(o.data(r, s, sc))
                T["aux_" + r] = (rd, s, b, d[::-1] if d.ndim and rd else (np.abs(d) + 1.0 if not rd else d))
            if "out_" + r in st[1].values():
                T["out_" + r] = (rd, s, b, np.zeros(s))
    if pre is not None:
        steps.append(dict(aux_ops(o.rdt.get(pre[0]) or dt, pre[0], *roles[pre[0]]))[pre[1]])
    steps.append((name, {r: r for r in roles}, sc))
    if post is not None:
        steps.append(dict(aux_ops(o.rdt.get(post[0]) or dt, post[0], *roles[post[0]]))[post[1]])
    return dt, T, steps


# ---- family B ---------------------------------------------------------------
def pool():
    i = O.idata
    return {"x": (None, (2,), (1,), i((2,), 1, 3)), "y": (None, (2,), (1,), i((2,), 2, 3)), "z": (None, (2,), (1,), i((2,), 3, 3)),
            "A": (None, (2, 2), (2, 1), i((2, 2), 4, 3)), "B": (None, (2, 2), (2, 1), i((2, 2), 5, 3)),
            "s": (None, (), (), np.array(2.0))}


def alphabet():
    a = []
    for p, q in (("x", "y"), ("y", "z"), ("z", "y")):
        a.append(("axpy", {"x": p, "y": q}, (1.0,)))
        a.append(("add", {"x": p, "y": q}, (1.0, -2.0)))
        a.append(("prod", {"x": p, "y": q}, ()))
    a.append(("add", {"x": "x", "y": "y"}, (2.0, 1.0)))
    a.append(("add", {"x": "x", "y": "y"}, (0.0, 3.0)))
    a.append(("scal", {"x": "y", "y": "z"}, (-2.0,)))
    a.append(("copy", {"x": "y", "y": "x"}, ()))
    a.append(("maximum", {"x": "x", "y": "y"}, ()))
    a.append(("axpy_tensor", {"a": "s", "x": "y", "y": "z"}, (2.0,)))
    a.append(("clear", {"x": "y"}, ()))
    a.append(("scal_inplace", {"x": "y"}, (3.0,)))
    a.append(("relu", {"x": "y"}, ()))
    a.append(("sum_slice", {"src": "A", "dst": "y"}, (1.0, 1.0, 0, 0)))
    a.append(("sum_slice", {"src": "A", "dst": "y"}, (1.0, 0.0, 0, 0)))
    a.append(("sum_slice", {"src": "B", "dst": "y"}, (1.0, 1.0, 0, 1)))
    a.append(("sum_fiber", {"t": "A", "f": "y"}, (1.0, 1.0, 1, 0, 0)))
    a.append(("sumprod_slice", {"src1": "A", "src2": "B", "dst": "y"}, (1.0, 2.0, 0, 0)))
    a.append(("add_fiber", {"f": "y", "t": "A"}, (1.0, 1.0, 1, 0)))
    a.append(("add_slice", {"src": "y", "dst": "A"}, (1.0, 0.0, 0)))
    a.append(("prod_fiber", {"src": "y", "dst": "A"}, (1.0, 1)))
    a.append(("axpy", {"x": "A", "y": "B"}, (1.0,)))
    return a


ALPHA = alphabet()


def fam_b(tier):
    n = len(ALPHA)
    for p in itertools.product(range(n), repeat=3):
        yield ["B", list(p)]
    if tier == "thorough":
        for p in itertools.product(range(n), repeat=4):
            yield ["B", list(p)]


# ---- family C ---------------------------------------------------------------
def fam_c(tier):
    """Two calls of the same operation that differ in scalars, in shapes, in both or in neither."""
    q = tier == "quick"
    for name, o in O.OPS.items():
        if name in SKIP or not o.tensor:
            continue
        lst = []
        least = min(opcheck.ntasks(o, roles) for roles, sc in o.space("quick"))
        for roles, sc in o.space("quick"):
            nt = opcheck.ntasks(o, roles)
            if nt > max(least, 2 if q else 4) or not small(roles) or max((len(s) for s, b in roles.values()), default=0) > 3:
                continue
            lst.append((roles, sc))
        if not lst:
            lst = [(roles, sc) for roles, sc in o.space("quick") if opcheck.ntasks(o, roles) == least]
        # one representative per (grid, scalars)
        rep = {}
        for roles, sc in lst:
            rep.setdefault((grid(roles), sc), []).append((roles, sc))
        lst = [x for v in rep.values() for x in v[:1] + (v[-1:] if len(v) > 1 and not q else [])]
        if q and len(lst) > 24:
            lst = lst[::-(-len(lst) // 24)]
        k = 2 if q else 5
        for i, (r1, s1) in enumerate(lst):
            other = [x for x in lst if x[0] == r1 and x[1] != s1]
            shape = [x for x in lst if x[0] != r1 and x[1] == s1]
            both = [x for x in lst if x[0] != r1 and x[1] != s1]
            rot = lambda l: [l[(i * 7 + j) % len(l)] for j in range(min(k, len(l)))]
            for r2, s2 in [(r1, s1)] + rot(other) + rot(shape) + rot(both):
                for dt in o.dts if not q else [o.dts[(i + len(name)) % len(o.dts)]]:
                    yield ["C", name, dt, r1, s1, r2, s2, 0]
                    if r1 == r2 and not any((name, r) in DOMAIN for r in r1) and not o.redux:
                        yield ["C", name, dt, r1, s1, r2, s2, 1]


def build_c(case):
    _, name, dt, r1, s1, r2, s2, same = case
    o = O.OPS[name]
    T, steps = {}, []
    for k, (roles, sc) in enumerate(((r1, s1), (r2, s2))):
        sc = opcheck.tup(sc)
        m = {}
        for r, (s, b) in roles.items():
            m[r] = r + ("" if same else "12"[k])
            if m[r] not in T:
                T[m[r]] = (o.rdt.get(r), tuple(s), tuple(b), o.data(r, tuple(s), sc))
        steps.append((name, m, sc))
    return dt, T, steps


# ---- family H ---------------------------------------------------------------
HUGE = (lambda s: s + 2, lambda s: 2 ** 31, lambda s: 2 ** 32 + 1, lambda s: 2 ** 62, lambda s: 2 ** 63 - 1)
# dimensions that must consist of one tile of exactly the extent
WHOLE = {"normalize": {"gb": (0,), "sumnorm": (0,)}, "nrm2": {"tmp": None}, "softmax": {"ms": (0,)}, "softmax_inplace": {"ms": (0,)},
         "maxsumexp": {"dst": (0,)}, "sumnorm": {"dst": (0,)}, "subtract_indexed_outputs": {"dst": (0,)}, "total_sum_accum": {"src": (0,)}, "logsumexp": {"src": (0,)}}


def enlarge(name, roles, sc, f):
    """The same operands with every tile that spans its dimension made f(extent) long, where the operation has no
    restriction on that tile; None if nothing changes."""
    out = {}
    w = WHOLE.get(name, {})
    for r, (s, b) in roles.items():
        keep = w.get(r, ())
        keep = range(len(s)) if keep is None else keep
        out[r] = (tuple(s), tuple(f(x) if y >= x and i not in keep else y for i, (x, y) in enumerate(zip(s, b))))
    if name in ("embedding", "embedding_backward"):
        a = sc[0]
        s, b = roles["vocab"]
        vb = out["vocab"][1][0]
        out["vocab"] = (tuple(s), (vb, b[1]))
        es, eb = out["embed"]
        eb = list(eb)
        eb[a] = roles["embed"][1][a] if roles["embed"][1][a] < es[a] or vb == 2 ** 63 - 1 else vb * max(1, f(1) // vb)
        if eb[a] % vb:
            out["vocab"] = roles["vocab"]
        out["embed"] = (es, tuple(eb))
    return out if out != {r: (tuple(s), tuple(b)) for r, (s, b) in roles.items()} else None


def fam_h(tier):
    q = tier == "quick"
    for name, o in O.OPS.items():
        if name in SKIP or not o.tensor or name.startswith("flash"):  # flash operations require tiles that divide the extents
            continue
        rep = {}
        for roles, sc in o.space("quick"):
            if opcheck.ntasks(o, roles) <= (4 if q else 8):
                g = {r: ([len(s)] + [-(-x // y) for x, y in zip(s, b)]) for r, (s, b) in roles.items()}
                rep.setdefault((str(g), sc), (roles, sc))
        lst = list(rep.values())
        if q and len(lst) > 60:
            lst = lst[::-(-len(lst) // 60)]
        for i, (roles, sc) in enumerate(lst):
            for j in ((i % 4, 4) if q else range(5)):
                r2 = enlarge(name, roles, sc, HUGE[j])
                if r2 is not None:
                    for dt in o.dts if not q else [o.dts[(i + j) % len(o.dts)]]:
                        yield ["H", name, dt, r2, sc]


def build_h(case):
    _, name, dt, roles, sc = case
    o = O.OPS[name]
    sc = opcheck.tup(sc)
    T = {r: (o.rdt.get(r), tuple(s), tuple(b), o.data(r, tuple(s), sc)) for r, (s, b) in roles.items()}
    return dt, T, [(name, {r: r for r in roles}, sc)]


def cases(tier):
    yield from fam_a(tier)
    yield from fam_h(tier)
    yield from fam_c(tier)
    yield from fam_b(tier)


def build(case):
    if case[0] == "A":
        return build_a(case)
    if case[0] == "C":
        return build_c(case)
    if case[0] == "H":
        return build_h(case)
    return "fp64", pool(), [ALPHA[i] for i in case[1]]


def weight(T, steps):
    n = 0
    for name, roles, sc in steps:
        o = O.OPS[name]
        n += opcheck.ntasks(o, {r: (T[t][1], T[t][2]) for r, t in roles.items()})
    return n


def run(env, case):
    dt, T, steps = build(case)
    w = weight(T, steps)
    full = 1 if w <= (9 if TIER == "quick" else 12) else 0
    cfg = dict(mode=EXPLORE, workers=2, full=full, max_states=3000 if TIER == "quick" else 200000, poison=0x7E,
               tol=0 if all(O.OPS[s[0]].exact for s in steps) else 1)
    try:
        k = prog.run_program(env, dt, T, steps, cfg, max_outcomes=6)
        k["full_interleavings" if full else "reduced_interleavings"] = 1
        k["family_" + case[0]] = 1
        return k
    except Fail as e:
        env.choose(0)
        raise Fail("%s: %s" % (prog.describe(dt, T, steps), e))
    except Exception as e:
        env.choose(0)
        raise Fail("%s: raised %s: %s" % (prog.describe(dt, T, steps), type(e).__name__, e))


def run_real(env, case):
    dt, T, steps = build(case)
    S, exact, tol = prog.reference(dt, T, steps)
    R = prog.execute(env, dt, T, steps)
    env.wait()
    prog.check(env, dt, T, R, S, exact, tol, steps)
    env.finish()
    return {"programs": 1}
