"""C22: parallel reduction mode gives the result of sequential accumulation:
all placements of the contributions on workers, all merge trees, all orders."""
import itertools
import numpy as np
import ops as O
import opcheck, prog
from h import Fail, EXPLORE

ASSUMPTIONS = ["a StarPU reduction runs each contribution on one worker's replicate (initialised by the init codelet) and merges replicates and the handle's previous content pairwise by the reduction codelet, in any order",
               "CPU codelets only"]
REAL_STRIDE = 23
TIER = "quick"


def setup(env, tier):
    global TIER
    TIER = tier
    opcheck.bind(env)


AB = [(1.0, 0.0), (1.0, 1.0), (-2.0, 3.0), (0.0, 1.0), (0.5, -0.5)]


def insts(tier):
    """(op, roles, scalars without beta variation, dst role, aux value data mode)"""
    ks = [(2, 1), (3, 1), (4, 1), (5, 2)] if tier == "quick" else [(2, 1), (3, 1), (4, 1), (5, 1), (6, 1), (5, 2), (7, 3)]
    for k, kb in ks:
        # shapes around the reduced axis: (before, after)
        for pre, post in (((), ()), ((2,), ()), ((), (2,)), ((2,), (2,))):
            if k > 4 and len(pre) + len(post) > 0:
                continue
            pb = tuple(2 for _ in pre)
            qb = tuple(1 if tier != "quick" and k < 4 else 2 for _ in post)
            s, b = pre + (k,) + post, pb + (kb,) + qb
            ax = len(pre)
            d = (pre + post, pb + qb)
            for ab in AB:
                yield "sum_slice", {"src": (s, b), "dst": d}, ab + (ax, 1)
                yield "norm_slice", {"src": (s, b), "dst": d}, ab + (ax, 1)
                yield "sumprod_slice", {"src1": (s, b), "src2": (s, b), "dst": d}, ab + (ax, 1)
            yield "maxsumexp", {"src": (s, b), "dst": ((2,) + d[0], (2,) + d[1])}, (ax, 1)
        for o in ((2,), (3,)):
            s, b = o + (k,), (2,) + (kb,)
            if -(-o[0] // 2) * k > 8:
                continue
            for ab in AB:
                yield "sum_fiber", {"t": (s, b), "f": ((o[0],), (2,))}, ab + (0, 0, 1)
                yield "sumprod_fiber", {"src1": (s, b), "src2": (s, b), "dst": ((o[0],), (2,))}, ab + (0, 1)
                if k <= 3:
                    yield "sum_fiber", {"t": (s + (2,), b + (2,)), "f": ((o[0], 2), (2, 2))}, ab + (0, 1, 1)
        for ta in (0, 1):
            for tb in (0, 1):
                A = ((k, 2), (kb, 2)) if ta else ((2, k), (2, kb))
                B = ((2, k), (2, kb)) if tb else ((k, 2), (kb, 2))
                for ab in AB:
                    yield "gemm", {"A": A, "B": B, "C": ((2, 2), (2, 2))}, ab + (ta, tb, 1, 0, 1)
                    if ta == tb:
                        yield "gemm_ex", {"A": A, "B": B, "C": ((2, 2), (2, 2))}, ab + (ta, tb, 1, 0, 1)
        for pat in (0, 1, 2):
            yield "embedding_backward", {"index": ((k,), (kb,)), "embed": ((2, k), (2, kb)), "vocab": ((2, 3), (2, 3))}, (0, 1, 3, pat)
            yield "embedding_backward", {"index": ((k,), (kb,)), "embed": ((k, 2), (kb, 2)), "vocab": ((2, 3), (1, 3))}, (1, 1, 3, pat)


def large():
    """Destinations of many elements (one large tile) and of many tiles."""
    for (s, b, ax) in (((70, 2), (70, 1), 1), ((2, 17, 9), (1, 17, 9), 0), ((3, 131), (2, 131), 0), ((9, 2, 33), (9, 1, 33), 1), ((2, 300), (1, 300), 0),
                       ((1030, 2), (1030, 1), 1), ((2, 4100), (1, 4100), 0),
                       ((2, 40), (1, 1), 0), ((2, 270), (1, 2), 0), ((5, 3, 2), (1, 1, 1), 2)):
        d = tuple(x[:ax] + x[ax + 1:] for x in (s, b))
        for i, ab in enumerate(AB[:3]):
            yield "sum_slice", {"src": (s, b), "dst": d}, ab + (ax, 1)
            yield "norm_slice", {"src": (s, b), "dst": d}, ab + (ax, 1)
            yield "sumprod_slice", {"src1": (s, b), "src2": (s, b), "dst": d}, ab + (ax, 1)
            if len(s) == 2:
                f = tuple(x[1 - ax:2 - ax] for x in (s, b))
                yield "sum_fiber", {"t": (s, b), "f": f}, ab + (1 - ax, 0, 1)
                yield "sumprod_fiber", {"src1": (s, b), "src2": (s, b), "dst": f}, ab + (1 - ax, 1)
        yield "maxsumexp", {"src": (s, b), "dst": ((2,) + d[0], (2,) + d[1])}, (ax, 1)
    for ab in AB[:3]:
        for m, n in ((70, 1), (11, 13), (3, 99), (40, 30)):
            yield "gemm", {"A": ((m, 2), (m, 1)), "B": ((2, n), (1, n)), "C": ((m, n), (m, n))}, ab + (0, 0, 1, 0, 1)
    for e, v in ((12, 13), (130, 3)):
        yield "embedding_backward", {"index": ((3,), (1,)), "embed": ((e, 3), (e, 1)), "vocab": ((e, v), (e, v))}, (0, 1, v, 1)


PRES = ("none", "fill", "commute")
SECONDS = ("none", "again", "norx", "over")
POSTS = ("none", "read", "commute", "update")


def cases(tier):
    for name, roles, sc in large():
        for j, dt in enumerate(("fp32", "fp64")):
            for i, (pre, second, post) in enumerate((("none", "none", "read"), ("fill", "again", "none"), ("none", "over", "update"), ("commute", "norx", "none"))):
                if not (name == "maxsumexp" and pre == "fill") and (i + j) % 2:
                    yield [name, dt, roles, sc, pre, second, post, 0]
    for name, roles, sc in insts(tier):
        for dt in opcheck.get_op(name).dts:
            for pre in PRES:
                for second in SECONDS:
                    for post in POSTS:
                        if tier == "quick" and sum(x != "none" for x in (pre, second, post)) > 2:
                            continue
                        if name == "maxsumexp" and (pre == "fill"):
                            continue
                        for spec in ((0, 1, 2, 3) if name == "maxsumexp" else (0,)):
                            yield [name, dt, roles, sc, pre, second, post, spec]


def sub(name, sc, beta, redux):
    """Scalar tuple of the second call."""
    sc = list(sc)
    if name in ("maxsumexp", "embedding_backward"):
        sc[1 if name == "embedding_backward" else -1] = redux
        return tuple(sc)
    sc[1] = beta
    sc[-1] = redux
    return tuple(sc)


def build(case):
    name, dt, roles, sc, pre, second, post, spec = case
    o = opcheck.get_op(name)
    roles = {r: (tuple(s), tuple(b)) for r, (s, b) in roles.items()}
    sc = opcheck.tup(sc)
    D = o.redux[0]
    T = {}
    for r, (s, b) in roles.items():
        d = np.array(o.data(r, s, sc), dtype=float) if o.rdt.get(r) is None else o.data(r, s, sc)
        if name == "maxsumexp":
            if r == D:
                d = {0: d, 1: np.zeros(s), 2: d, 3: d}[spec].copy()
                if spec == 3:
                    d[0] = 1e30
            elif spec == 1:   # some slices start masked
                d = d.copy(); d[idx(d, sc[0], 0)] = -np.inf
            elif spec == 2:   # everything masked but the last element
                d = d.copy(); v = d[idx(d, sc[0], -1)].copy(); d[:] = -np.inf; d[idx(d, sc[0], -1)] = v
            elif spec == 3:
                d = d * 1e30
        T[r] = (o.rdt.get(r), s, b, d)
    s, b = roles[D]
    steps = []
    if pre == "fill":
        steps.append(("fill", {"x": D}, (7.0,)))
    elif pre == "commute":
        T["aux"] = (None, s, b, np.abs(O.idata(s, 9)) + 1.0)
        steps.append(("axpy", {"x": "aux", "y": D}, (1.0,)))
    rr = {r: r for r in roles}
    steps.append((name, rr, sc))
    if second == "again":
        steps.append((name, rr, sub(name, sc, 1.0, 1)))
    elif second == "norx":
        steps.append((name, rr, sub(name, sc, 1.0, 0)))
    elif second == "over":
        steps.append((name, rr, sub(name, sc, 0.0, 1)))
    if post == "read":
        T["out"] = (None, s, b, np.zeros(s))
        steps.append(("copy", {"x": D, "y": "out"}, ()))
    elif post == "commute":
        T["aux2"] = (None, s, b, np.abs(O.idata(s, 8)) + 1.0)
        steps.append(("axpy", {"x": "aux2", "y": D}, (1.0,)))
    elif post == "update":
        steps.append(("scal_inplace", {"x": D}, (2.0,)))
    return dt, T, steps


def idx(d, ax, i):
    k = [slice(None)] * d.ndim
    k[ax] = i
    return tuple(k)


@opcheck.extra(lambda c: c[0])
def run(env, case):
    dt, T, steps = build(case)
    w = 0
    for name, roles, sc in steps:
        w += opcheck.ntasks(opcheck.get_op(name), {r: (T[t][1], T[t][2]) for r, t in roles.items()})
    exact = all(opcheck.get_op(s[0]).exact for s in steps)
    k = {}
    for workers in ((2, 3) if TIER == "quick" else (2, 3, 4)):
        cfg = dict(mode=EXPLORE, workers=workers, full=1 if w <= 7 else 0, max_states=1500 if TIER == "quick" else 100000,
                   poison=0x7E, tol=0 if exact else 1)
        try:
            for kk, v in prog.run_program(env, dt, T, steps, cfg, max_outcomes=4 if TIER == "quick" else 24).items():
                k[kk] = k.get(kk, 0) + v
        except Fail as e:
            env.choose(0)
            raise Fail("workers=%d %s: %s" % (workers, prog.describe(dt, T, steps), e))
        except Exception as e:
            env.choose(0)
            raise Fail("workers=%d %s: raised %s: %s" % (workers, prog.describe(dt, T, steps), type(e).__name__, e))
    k["op_" + case[0]] = 1
    return k


@opcheck.extra(lambda c: c[0])
def run_real(env, case):
    dt, T, steps = build(case)
    S, exact, tol = prog.reference(dt, T, steps)
    R = prog.execute(env, dt, T, steps)
    env.wait()
    try:
        prog.check(env, dt, T, R, S, exact, tol, steps)
    except Fail as e:
        raise Fail("%s: %s" % (prog.describe(dt, T, steps), e))
    env.finish()
    return {"programs": 1}
