"""Programs: sequences of asynchronous tensor operations on shared tensors, run
under a schedule exploration and compared with the operation-by-operation
reference."""
import numpy as np
from h import Fail, EAGER, LAZY, EXPLORE, FIFO, LIFO, ALT
import ops as O
import opcheck


COPIES = ("copy", "scatter", "gather", "copy_intersection")


def conv(d, rd):
    d = np.asarray(d)
    if rd == "fp32":
        return d.astype(np.float32)
    if rd == "int64":
        return d.astype(np.int64)
    if rd == "bool":
        return d if d.dtype == np.bool_ else (d.astype(np.int64) % 2 == 0)
    return d.astype(np.float64)


def reference(dt, tensors, steps):
    S = {}
    for n, (rd, shape, bt, data) in tensors.items():
        S[n] = conv(data, rd or dt).astype(np.float64)
    exact = True
    tol = {"fp32": 3e-6, "fp64": 1e-13}
    with np.errstate(all="ignore"):
        for name, roles, sc in steps:
            if name == "wait":
                continue
            o = opcheck.get_op(name)
            if not o.exact:
                exact = False
                tol = {k: max(tol[k], o.tol.get(k, 1e-5)) for k in tol}
            out = o.ref({r: S[t] for r, t in roles.items()}, sc)
            for r, v in out.items():
                S[roles[r]] = np.asarray(v, dtype=np.float64)
    return S, exact, tol


def execute(env, dt, tensors, steps, py=True):
    R = {}
    for n, (rd, shape, bt, data) in tensors.items():
        R[n] = env.T(rd or dt, shape, bt, None if data is None else conv(data, rd or dt))
    for name, roles, sc in steps:
        if name == "wait":
            env.wait()
            if env.pending():
                raise Fail("waiting for all tasks left %d pending" % env.pending())
            continue
        o = opcheck.get_op(name)
        rr = {r: R[t] for r, t in roles.items()}
        if o.redux and sc[o.redux[2]]:
            getattr(rr[o.redux[0]], "set_reduction_" + o.redux[1])()
        odt = dt if name not in COPIES else (tensors[roles["x"]][0] or dt)
        f = opcheck.getfn(env, o, odt, "core_async")
        if f is None:
            f = opcheck.getfn(env, o, odt, "py")
        f(rr, sc)
    return R


def check(env, dt, tensors, R, S, exact, tol, steps, scale=50.0):
    skip = {roles[r] for name, roles, sc in steps if name != "wait" for r in opcheck.get_op(name).scratch if r in roles}
    for n, (rd, shape, bt, data) in tensors.items():
        if n in skip:
            continue
        got = env.get(R[n])
        want = S[n]
        rdt = rd or dt
        g = got.astype(np.float64)
        if exact or rdt in ("int64", "bool"):
            ok = (g == want) | (np.isnan(g) & np.isnan(want))
        else:
            t = tol[dt] * 30
            with np.errstate(invalid="ignore"):
                ok = (np.abs(g - want) <= t * (np.abs(want) + scale)) | (g == want) | (np.isnan(g) & np.isnan(want))
        if not np.all(ok):
            bad = tuple(np.argwhere(~ok)[0])
            raise Fail("tensor %s%s = %r, expected %r" % (n, list(bad), float(g[bad]), float(want[bad])))


def run_program(env, dt, tensors, steps, cfg, max_outcomes=24):
    """Explore every schedule; compare every distinct outcome."""
    S, exact, tol = reference(dt, tensors, steps)
    k = {"programs": 1}
    j = 0
    n = 1
    while j < min(n, max_outcomes):
        env.choose(j)
        env.cfg(**cfg)
        R = execute(env, dt, tensors, steps)
        env.wait()
        if j == 0:
            n = env.choose(0)
            env.choose(0)
            if exact and n > 1:
                v = env.violations()
                raise Fail("; ".join(v[:1]) if v else "%d different results" % n)
        check(env, dt, tensors, R, S, exact, tol, steps)
        env.finish()
        j += 1
        if j > 1:
            k["outcomes"] = k.get("outcomes", 0) + 1
    env.choose(0)
    return k


def describe(dt, tensors, steps):
    return "program [%s] on %s (%s)" % (
        "; ".join("%s(%s%s)" % (n, ",".join("%s=%s" % kv for kv in r.items()), "," + str(list(s)) if s else "") for n, r, s in steps),
        ", ".join("%s:%s/%s" % (n, list(t[1]), list(t[2])) for n, t in tensors.items()), dt)
