"""C23: see properties.jsonl and DESIGN.md."""
import itertools
import numpy as np
import ops as O
import opcheck, prog
from h import Fail, EXPLORE, LAZY, EAGER, LIFO, ALT

ASSUMPTIONS = ["the task bodies of half precision exist for CUDA only and are replaced by plain loops: decided is all the library does around them",
               "sizes beyond the enumerated bound behave like the enumerated ones"]
MODES = [dict(mode=LAZY, policy=LIFO), dict(mode=EAGER), dict(mode=LAZY, policy=ALT), dict(mode=EXPLORE, full=0, max_states=3000, tol=0),
         dict(mode=EXPLORE, full=1, max_states=2000, tol=0)]
REAL_STRIDE = 11
TIER = "quick"


def setup(env, tier):
    global TIER
    TIER = tier
    opcheck.bind(env)


def vals(shape, k):
    """Values that half precision rounds, all different nearby."""
    n = int(np.prod(shape)) if len(shape) else 1
    i = np.arange(n, dtype=np.float64)
    v = np.where(i % 5 == 4, 2.0 ** ((i * 7 + k) % 29 - 14), 1.0) * (i * 37 % 1021 + k + 1 / 3) / 16
    return (np.where(i % 3 == 1, -v, v)).reshape(shape, order="F").astype(np.float32).astype(np.float64)


def every():
    """Every half-precision number, the midpoints to the next one and the
    single-precision neighbours of these, of both signs; beyond the range."""
    h = np.arange(0x7C00, dtype=np.uint16).view(np.float16).astype(np.float32)
    m = (h[:-1] + h[1:]) / 2
    m = np.append(m, np.float32(65520))
    inf = np.float32(np.inf)
    v = np.concatenate([h, m, np.nextafter(m, inf), np.nextafter(m, -inf), np.nextafter(h, inf),
                        np.array([1e5, 3e38, np.inf, 1e-45, 1e-38], np.float32)])
    return np.concatenate([v, -v]).astype(np.float32)


def every_case(env, case):
    """All of them, in one tensor of several tiles."""
    _, t, mode = case
    env.cfg(workers=2, poison=0x7E, **MODES[mode])
    v = every()
    with np.errstate(over="ignore"):
        ref = v.astype(np.float16).astype(np.float32)
    x, h, y = env.T("fp32", (len(v),), (t,), v), env.T("fp16", (len(v),), (t,)), env.T("fp32", (len(v),), (t,))
    env.ct.fp32_to_fp16_async(x, h)
    env.ct.fp16_to_fp32_async(h, y)
    env.wait()
    g = np.asarray(env.get(y), np.float32)
    bad = np.flatnonzero(g.view(np.uint32) != ref.view(np.uint32))
    if len(bad):
        raise Fail("%d of %d values not rounded to the nearest half-precision number, first: %r became %r instead of %r"
                   % (len(bad), len(v), v[bad[0]], g[bad[0]], ref[bad[0]]))
    env.finish()
    return {"values": len(v)}


def cases(tier):
    q = tier == "quick"
    j = 0
    for t in (1000, 4097, 65536, 10 ** 6):
        for d in range(3):
            yield ["every", t, d]
    for s, b in O.st(O.SMALL):
        for w in ("round", "twice", "chain"):
            j += 1
            yield [w, s, b, j % 5]
            if not q:
                yield [w, s, b, (j + 2) % 5]
    for s, b in O.st(O.TINY, False):
        for d in (0, 1):
            yield ["reject", s, b, d]
        yield ["block", s, b, j % 3]
    n = 0
    for roles, sc in O.EXTRA["gemm_half"].space(tier):
        if sc[6]:
            continue
        n += 1
        if n % (6 if q else 2) == 0:
            yield ["gemm", roles, sc, n // 6 % 5]


def build(case):
    w = case[0]
    T, S = {}, []
    h = lambda s, b: ("fp16", s, b, None)
    f = lambda s, b, k: ("fp32", s, b, vals(s, k))
    if w == "gemm":
        roles = {r: (tuple(s), tuple(b)) for r, (s, b) in case[1].items()}
        for r, (s, b) in roles.items():
            T["x" + r] = ("fp32", s, b, O.idata(s, ord(r), 3 if np.prod(s) < 1000 else 1))
            T["h" + r] = h(s, b)
            S.append(("fp32_to_fp16", {"x": "x" + r, "y": "h" + r}, ()))
        S.append(("gemm_half", {r: "h" + r for r in roles}, opcheck.tup(case[2])))
        T["y"] = f(*roles["C"], 3)
        S.append(("fp16_to_fp32", {"x": "hC", "y": "y"}, ()))
        return T, S
    s, b = tuple(case[1]), tuple(case[2])
    T.update(x=f(s, b, 1), y=f(s, b, 2), h=h(s, b))
    S += [("fp32_to_fp16", {"x": "x", "y": "h"}, ()), ("fp16_to_fp32", {"x": "h", "y": "y"}, ())]
    if w == "twice":      # the intermediate tensor is used again for other values
        T.update(z=f(s, b, 3), u=f(s, b, 4))
        S += [("fp32_to_fp16", {"x": "z", "y": "h"}, ()), ("fp16_to_fp32", {"x": "h", "y": "u"}, ())]
    elif w == "chain":    # the source is written before, the result read after
        T.update(z=f(s, b, 3))
        S = [("scal_inplace", {"x": "x"}, (0.5,))] + S + [("copy", {"x": "y", "y": "z"}, ()), ("fill", {"x": "x"}, (3.0,)),
                                                             ("fp32_to_fp16", {"x": "x", "y": "h"}, ())]
    return T, S



def others(s, b):
    from props import c08
    yield from dict.fromkeys(c08.pert((s, b)))


def reject(env, case):
    """Tensors that differ in shape or tiling; nothing may be submitted."""
    _, s, b, d = case
    s, b = tuple(s), tuple(b)
    env.cfg(workers=2, poison=0x7E, **MODES[0])
    fs = [getattr(env.ct, ("fp32_to_fp16", "fp16_to_fp32")[d] + x, None) for x in ("_async", "")]
    n = 0
    for p in others(s, b):
        x = env.T("fp32", s, b, vals(s, 1))
        h = env.T("fp16", p[0], p[1])
        before = env.get(x)
        for f in fs:
            if f is None:
                continue
            s0 = env.stats().get("submitted", 0)
            try:
                f(*((x, h) if d == 0 else (h, x)))
            except Exception:
                pass
            else:
                raise Fail("conversion between %s/%s and %s/%s accepted" % (s, b, p[0], p[1]))
            if env.stats().get("submitted", 0) != s0 or env.pending():
                raise Fail("rejected conversion between %s/%s and %s/%s submitted tasks" % (s, b, p[0], p[1]))
        if not np.array_equal(env.get(x), before):
            raise Fail("rejected conversion changed its operand")
        env.finish()
        n += 1
    return {"rejected": n}


def block(env, case):
    """The blocking forms, where they are offered."""
    _, s, b, mode = case
    s, b = tuple(s), tuple(b)
    env.cfg(workers=2, poison=0x7E, **MODES[mode])
    x, h, y = env.T("fp32", s, b, vals(s, 1)), env.T("fp16", s, b), env.T("fp32", s, b, vals(s, 2))
    for n, a in (("fp32_to_fp16", (x, h)), ("fp16_to_fp32", (h, y))):
        f = getattr(env.ct, n, None)
        if f is not None:
            f(*a)
            if env.pending():
                raise Fail("blocking %s returned with %d task(s) not finished" % (n, env.pending()))
        else:
            getattr(env.ct, n + "_async")(*a)
    env.wait()
    if not np.array_equal(env.get(y).astype(float), O._half(vals(s, 1))):
        raise Fail("blocking conversions of %s/%s give wrong values" % (s, b))
    env.finish()
    return {"blocking": 1}


def run(env, case):
    with opcheck.StandIns(env) as ok:
        if not ok:
            return {}
        try:
            if case[0] in ("reject", "block", "every"):
                return dict({"reject": reject, "block": block, "every": every_case}[case[0]](env, case))
            T, S = build(case)
            k = prog.run_program(env, "fp32", T, S, dict(workers=2, poison=0x7E, **MODES[case[3] if not env.real else 1]))
            k[case[0]] = 1
            return k
        except Fail as e:
            env.choose(0)
            raise Fail("%s (case %s)" % (e, case))


def run_real(env, case):
    return run(env, case)
