"""Runs one operation instance on the model and compares every tensor with the
reference: outputs equal the definition, everything else is unchanged."""
import functools
import os
import numpy as np
from h import Fail, EAGER, LAZY, EXPLORE, FIFO, LIFO, ALT
import ops as O


def bind(env):
    for o in list(O.OPS.values()) + list(O.EXTRA.values()):
        if hasattr(o, "env_args"):
            o.args = o.env_args(env)
        if hasattr(o, "env_tile_args"):
            o.tile_args = o.env_tile_args(env)


FLAVOURS = ("py", "core", "tile")


@functools.lru_cache(None)
def api():
    """Names of the typed entry points the Python extension offers."""
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "api.txt")) as f:
        return frozenset(f.read().split())


def fn(env, o, dt, flavour):
    if flavour == "py":
        if o.py:
            return lambda R, s: o.py(env.nt, R, s)
        f = getattr(env.nt, o.py_name + "_async", None) if o.py_name else None
        return (lambda R, s: f(*o.args(R, s))) if f else None
    if flavour in ("core", "core_async", "explore"):
        n = (o.py_name or o.name) + ("_" if flavour == "core" else "_async_") + dt
        f = getattr(env.ct, n, None)
        if f is None and n in api():
            raise Fail("nntile_core.tensor.%s is gone" % n)
        return (lambda R, s: f(*o.args(R, s))) if f else None
    if flavour in ("tile", "tile_async"):
        if not o.tile or env.shim is None:
            return None
        n = o.tile_name + ("_" if flavour == "tile" else "_async_") + dt
        f = getattr(env.shim, n, None) or (getattr(env.standin, n, None) if o.name in O.EXTRA else None)
        return (lambda R, s: f(*o.tile_args(R, s))) if f else None


def get_op(n):
    return O.OPS[n] if n in O.OPS else O.EXTRA[n]


class StandIns:
    """Within it the operations that have bodies for CUDA only run stand-ins of those
    bodies; false where the build does not offer them."""
    def __init__(self, env):
        self.s = getattr(env, "standin", None)

    def __enter__(self):
        if self.s is not None:
            self.s.on()
        return self.s is not None

    def __exit__(self, *a):
        if self.s is not None:
            self.s.off()


def extra(name_of):
    """Cases of the operations that need stand-ins run under them."""
    def deco(run):
        def g(env, case):
            if name_of(case) not in O.EXTRA:
                return run(env, case)
            with StandIns(env) as ok:
                return run(env, case) if ok else {}
        return g
    return deco


_cache = {}


def getfn(env, o, dt, flavour):
    k = (o.name, dt, flavour)
    if k not in _cache:
        _cache[k] = fn(env, o, dt, flavour)
    return _cache[k]


def single(roles):
    return all(tuple(s) == tuple(b) for s, b in roles.values())


def compare(o, dt, role, got, want, was):
    want = np.asarray(want)
    if got.shape != want.shape:
        raise Fail("%s: reference shape %s, tensor shape %s" % (role, want.shape, got.shape))
    g = got.astype(np.float64)
    if o.exact or got.dtype in (np.int64, np.bool_):
        if not np.array_equal(g, want):
            bad = np.argwhere(~(g == want))[0]
            raise Fail("%s%s = %r, expected %r" % (role, list(bad), float(g[tuple(bad)]), float(want[tuple(bad)])))
    else:
        tol = o.tol.get(dt, 1e-5)
        err = np.abs(g - want)
        lim = tol * (np.abs(want) + (np.abs(was) if was is not None else 0)) + tol
        ok = (err <= lim) | (g == want)
        if not ok.all():
            bad = np.argwhere(~ok)[0]
            raise Fail("%s%s = %r, expected %r" % (role, list(bad), float(g[tuple(bad)]), float(want[tuple(bad)])))


def plain_call(f, R, sc):
    f(R, sc)


CALL = plain_call


def run_op(env, o, dt, roles, sc, flavour, explore=False, uninit=True):
    f = getfn(env, o, dt, flavour)
    if f is None:
        return False
    tile = flavour.startswith("tile")
    if tile and (not single(roles) or (o.tile_ok and not o.tile_ok(sc)) or (o.redux and sc[o.redux[2]])):
        return False
    if not tile and not o.tensor:
        return False
    D, R = {}, {}
    raw = {}
    un = set(o.uninit(sc)) if (o.uninit and uninit) else set()
    fdt = np.float32 if dt == "fp32" else np.float64
    for r, (shape, bt) in roles.items():
        rd = o.rdt.get(r, dt)
        d = np.asarray(o.data(r, tuple(shape), sc))
        if rd == "fp32":
            d = d.astype(np.float32)
        elif rd == "int64":
            d = d.astype(np.int64)
        elif rd == "bool":
            d = d.astype(np.bool_) if d.dtype == np.bool_ else (d.astype(np.int64) % 2 == 0)
        raw[r] = d
        D[r] = d.astype(np.float64)
        init = None if r in un else d
        R[r] = env.L(rd, shape, init) if tile else env.T(rd, shape, bt, init)
    if o.redux and sc[o.redux[2]] and not tile:
        getattr(R[o.redux[0]], "set_reduction_" + o.redux[1])()
    CALL(f, R, sc)
    if flavour in ("core", "tile") and env.pending():
        raise Fail("blocking call returned with %d task(s) not finished" % env.pending())
    with np.errstate(all="ignore"):
        want = o.ref(D, sc)
    for r in roles:
        if r in o.scratch:
            continue
        if r in want:
            got = env.getL(R[r]) if tile else env.get(R[r])
            compare(o, dt, r, got, want[r], D[r])
        elif r not in un:
            got = env.getL(R[r]) if tile else env.get(R[r])
            if not np.array_equal(got, raw[r]):
                raise Fail("operand %s was changed" % r)
    env.finish()
    return True


CONFIGS = {
    "py": dict(mode=LAZY, policy=LIFO, workers=3, poison=0x7E, merge=1),
    "core": dict(mode=EAGER, workers=2, poison=0xFF),
    "core_async": dict(mode=LAZY, policy=ALT, workers=2, poison=0xFF, merge=2, drain_all=1),
    "tile": dict(mode=LAZY, policy=ALT, workers=2, poison=0x7E),
    "tile_async": dict(mode=LAZY, policy=LIFO, workers=2, poison=0xFF),
}
MAX_TASKS = {"quick": 6, "thorough": 9}
MAX_OUTCOMES = 12


def cases(names, tier, huge=()):
    for n in names:
        o = get_op(n)
        if huge:
            # generated apart, so that only a few of these are used
            O.HUGE[:] = huge
            try:
                l = list(o.space(tier))
            finally:
                O.HUGE.clear()
            h = {}
            for roles, sc in l:
                big = [r for r in roles.values() if tuple(map(tuple, r)) in huge]
                if big:
                    h.setdefault(big[0], []).append((roles, sc))
            for v in h.values():
                m = 4 if tier == "quick" else 40
                for j, (roles, sc) in enumerate(v[:: max(1, len(v) // m)]):
                    yield [n, o.dts[j % len(o.dts)], roles, sc]
        for roles, sc in o.space(tier):
            for dt in o.dts:
                yield [n, dt, roles, sc]


def tup(x):
    return tuple(tup(i) for i in x) if isinstance(x, (list, tuple)) else x


def ntasks(o, roles):
    """Upper estimate of the number of tasks the operation submits."""
    g = []
    for s, b in roles.values():
        k = 1
        for x, y in zip(s, b):
            k *= -(-x // y)
        g.append(k)
    if o.name in ("gemm", "gemm_ex"):
        a, b, c = (tuple(-(-x // y) for x, y in zip(*roles[r])) for r in "ABC")
        return int(np.prod(a + b + c) ** 0.5 + 1e-9)  # no batch: m*n*k; with batch an overestimate
    if len(roles) == 2 and o.name in ("scatter", "gather", "copy_intersection"):
        return g[0] * g[1] if o.name == "copy_intersection" else max(g)
    return max(g)


def run_case(env, case, flavours=FLAVOURS, tier="quick", explore=True, max_tasks=None):
    n, dt, roles, sc = case
    o = get_op(n)
    roles = {r: (tuple(s), tuple(b)) for r, (s, b) in roles.items()}
    sc = tup(sc)
    k = {}
    fl = None
    try:
        for fl in flavours:
            env.cfg(**CONFIGS[fl])
            if run_op(env, o, dt, roles, sc, fl):
                k[fl] = 1
        if explore and not env.real and o.tensor and 1 < ntasks(o, roles) <= (max_tasks or MAX_TASKS[tier]):
            fl = "explore"
            env.cfg(mode=EXPLORE, workers=2 if tier == "quick" else 3, full=1, max_states=20000, tol=0 if o.exact else 1,
                    poison=0x7E)
            env.choose(0)
            if run_op(env, o, dt, roles, sc, fl):
                k[fl] = 1
                nt = env.choose(0)
                # results that are only equal up to rounding: continue from each of them
                for j in range(1, min(nt, MAX_OUTCOMES)):
                    env.choose(j)
                    run_op(env, o, dt, roles, sc, fl)
                    k["outcomes"] = k.get("outcomes", 0) + 1
                env.choose(0)
    except Fail as e:
        env.choose(0)
        env.abandon()
        raise Fail("%s[%s, %s] tensors %s scalars %s: %s" % (n, dt, fl, roles, sc, e))
    except Exception as e:
        env.choose(0)
        env.abandon()
        raise Fail("%s[%s, %s] tensors %s scalars %s: raised %s: %s" % (n, dt, fl, roles, sc, type(e).__name__, e))
    return k
