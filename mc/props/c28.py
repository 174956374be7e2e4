"""C28: whatever the runtime refuses is reported, and nothing is lost by it.

Every request of a call to the runtime (task, copy, access to data, start) is refused in turn,
alone and with all later ones: the call must raise, the work submitted before must end, operands
that are only read and the set of live data stay as they were, and the call repeated from the same
contents must give the right result."""
import itertools, os, ctypes
import numpy as np
import opcheck, ops as O, nets
from h import Fail, DT, EAGER, LAZY, EXPLORE, FIFO, LIFO, ALT
from nets import guarded

FULL_PACKAGE = True
REAL_STRIDE = 97
HANG = 60.0
STATE_COUNTER = "faults"
ASSUMPTIONS = ["the runtime refuses a request by its return code and then does nothing (StarPU's contract)",
               "on the real StarPU refusals are provoked by codelets that no worker can execute"]
MODES = [dict(mode=LAZY, policy=LIFO), dict(mode=EAGER), dict(mode=LAZY, policy=ALT, drain_all=1)]
ENODEV = -19


class W:
    on = False
    depth = 0
    faults = 0
    calls = 0
    cap = 16


def setup(env, tier):
    opcheck.bind(env)
    import torch
    torch.set_num_threads(1)
    from props import c10, c16, c17, c18, c19, c21
    W.mod = {"c10": c10, "c16": c16, "c17": c17, "c18": c18, "c19": c19}
    W.env = env
    W.cap = 16 if tier == "quick" else 400
    for m in W.mod.values():
        if hasattr(m, "setup"):
            m.setup(env, tier)
    if env.real:
        libp = os.path.join(env.out, "libnntile.so")
        lib = ctypes.CDLL(libp)
        import mcwhere
        W.cuda = mcwhere.CUDA
        W.where = [ctypes.c_uint32.in_dll(lib, s) for _, _, s in c21.symbols(libp)[0]]
        return
    import nntile.layer, nntile.layer.add, nntile.model, nntile.loss, nntile.optimizer
    seen = set()
    import inspect, sys
    for name, m in sorted(sys.modules.items()):
        if not name.startswith(("nntile.layer", "nntile.model", "nntile.loss", "nntile.optimizer")):
            continue
        for _, c in inspect.getmembers(m, inspect.isclass):
            if c in seen or not c.__module__.startswith("nntile."):
                continue
            seen.add(c)
            for f in ("forward_async", "backward_async", "calc_async", "step", "clear_gradients", "init_randn_async",
                      "save_state", "load_state"):
                if f in vars(c) and callable(vars(c)[f]):
                    setattr(c, f, wrap(vars(c)[f], c.__name__ + "." + f))


def attempt(f, k, sticky, what):
    """One call with its k-th request refused; whether it was refused."""
    env, lib = W.env, W.env.lib
    # any code is a refusal
    lib.mc_fault(7, ctypes.c_long(k), sticky, ENODEV if sticky else (-22, -35)[k % 2])
    err = None
    try:
        f()
    except Exception as e:
        err = "%s: %s" % (type(e).__name__, e)
    fired = lib.mc_fault_info(0)
    lib.mc_fault(0, ctypes.c_long(0), 0, 0)
    if not fired:
        if err is not None:
            raise Fail("%s: raised %s though nothing was refused%s" % (
                what, err, " after recovering from refused requests" if W.recovering else ""))
        return False
    W.faults += 1
    W.recovering = True
    if err is None:
        raise Fail("%s: request %d%s of the call was refused by the runtime but the call returned normally" % (
            what, k, " and all later ones" if sticky else ""))
    env.wait()
    if env.pending():
        raise Fail("%s: %d task(s) left after waiting for the work submitted before the refusal" % (what, env.pending()))
    return True


def wrap(f, what):
    def g(*a, **kw):
        if not W.on or W.depth:
            return f(*a, **kw)
        W.depth += 1
        W.calls += 1
        env, lib = W.env, W.env.lib
        d = vars(a[0])
        num = {k: v for k, v in d.items() if isinstance(v, (int, float))}
        lib.mc_snapshot()
        W.recovering = False
        try:
            lib.mc_fault(7, ctypes.c_long(-1), 0, ENODEV)
            f(*a, **kw)
            n = lib.mc_fault_info(1)
            ks = range(1, n + 1)
            if n > W.cap:
                ks = sorted(set(list(range(1, 4)) + list(range(1 + W.calls % 3, n + 1, -(-n // (W.cap - 4)))) + [n]))
            for k in ks:
                env.wait()
                lib.mc_restore()
                d.update(num)
                if not attempt(lambda: f(*a, **kw), k, k % 2, what):
                    raise Fail("%s: the call makes fewer requests when repeated from the same contents" % what)
            if n:
                env.wait()
                lib.mc_restore()
                d.update(num)
                lib.mc_fault(7, ctypes.c_long(-1), 0, ENODEV)
                r = f(*a, **kw)
                if lib.mc_fault_info(1) != n:
                    raise Fail("%s: %d requests when repeated, %d before" % (what, lib.mc_fault_info(1), n))
                return r
        finally:
            W.depth -= 1
            lib.mc_fault(0, ctypes.c_long(0), 0, 0)
            lib.mc_snapshot_drop()
    g.__name__ = getattr(f, "__name__", "g")
    return g


def specs(tier):
    per = 4 if tier == "quick" else 200
    for n, o in O.OPS.items():
        seen = {}
        for roles, sc in o.space("quick"):
            for dt in o.dts:
                k = (dt, bool(o.redux and sc[o.redux[2]]), len(roles[next(iter(roles))][0]))
                if opcheck.ntasks(o, roles) <= (12 if tier == "quick" else 40):
                    seen.setdefault(k, []).append([n, dt, roles, sc])
        for k, l in seen.items():
            # several tiles first: more requests
            l.sort(key=lambda s: -min(6, opcheck.ntasks(o, s[2])))
            yield from l[:: max(1, len(l) // per)][:per]


NP = {"fp32": np.float32, "fp64": np.float64, "int64": np.int64, "bool": np.bool_}


def cases(tier):
    j = 0
    for s in specs(tier):
        for fl in opcheck.CONFIGS:
            j += 1
            yield ["op", s, fl, j % 3]
    for dt in NP:
        for shape in [(), (1,), (5,), (3, 4), (2, 3, 2), (2, 1, 2, 3)]:
            for bt in itertools.product(*[sorted(set((1, 2, x))) for x in shape]):
                if all(b <= x for b, x in zip(bt, shape)):
                    j += 1
                    yield ["np", dt, shape, bt, j % 3]
    for dt in ("fp32", "fp64"):
        for shape in [(), (1,), (5,), (3, 4)]:
            yield ["nptile", dt, shape, j % 3]
    for w in itertools.product((0, 8, 16), repeat=3):
        yield ["start", list(w)]
    yield from more_cases()
    yield from nocode_cases()
    from props import c10, c16, c17, c18, c19
    # instances of every kind of layer, loss, optimizer and model, spread over the others' spaces
    for name, m, n in (("c10", c10, 8), ("c16", c16, 16), ("c17", c17, 12), ("c18", c18, 16), ("c19", c19, 8)):
        per = {}
        for c in m.cases("quick"):
            key = next((x for x in c if isinstance(x, str)), "") if name in ("c10", "c19") else ""
            key += next((str(x.get("l", x.get("m", x.get("k")))) for x in c if isinstance(x, dict)), "")
            per.setdefault(key, []).append(c)
        n *= 1 if tier == "quick" else 12
        for key, cs in sorted(per.items()):
            for c in cs[len(cs) // (2 * n):: max(1, len(cs) // n)][:n]:
                yield ["net", name, c]


def nocode_cases():
    """Operations whose codelets have no implementation for the workers here."""
    for op in NOCODE:
        for shape in [(1, 1), (3, 3), (2, 2)]:
            for bt in itertools.product((1, 2, 3), repeat=2):
                if all(b <= x for b, x in zip(bt, shape)):
                    for blocking in (0, 1):
                        for redux in (0, 1):
                            yield ["nocode", op, shape, bt, blocking, redux]


NOCODE = ("fp32_to_fp16", "fp16_to_fp32", "gemm_fp16", "gemm_ex_fp32")


def nocode(env, case):
    _, name, shape, bt, blocking, redux = case
    shape, bt = tuple(shape), tuple(bt)
    if name.startswith("gemm"):
        bt = (bt[0], bt[0])
        shape = (shape[0], shape[0])
    ct = env.ct
    tr, dist = env.traits(shape, bt)
    half = lambda: ct.Tensor_fp16(tr, dist, 0)
    v = val("fp32", shape, 2)
    single = env.T("fp32", shape, bt, v)
    hs = [half(), half(), half()]
    env.live += hs
    # the model counts what it refuses; the real runtime has no worker for these either
    r0 = 0 if env.real else env.lib.mc_fault_info(2)
    base, suffix = name.rsplit("_", 1) if name.startswith("gemm") else (name, None)
    n = lambda a: base + a + ("_" + suffix if suffix else "")
    f = getattr(ct, n("" if blocking and hasattr(ct, n("")) else "_async"))
    live = env.live_handles()
    if name == "fp32_to_fp16":
        g = lambda: f(single, hs[0])
    elif name == "fp16_to_fp32":
        out = env.T("fp32", shape, bt, v)
        live = env.live_handles()
        g = lambda: f(hs[0], out)
    elif name == "gemm_fp16":
        g = lambda: f(1.0, env.notrans, hs[0], env.notrans, hs[1], 0.0, hs[2], 1, 0, 0)
    else:
        b, c = env.T("fp32", shape, bt, v), env.T("fp32", shape, bt, v)
        if redux:
            c.set_reduction_add()
        live = env.live_handles()
        g = lambda: f(1.0, env.notrans, single, env.trans, b, 0.0, c, 1, 0, redux)
    err = None
    try:
        g()
    except Exception as e:
        err = e
    if env.real:
        env.wait()
        if err is None:
            raise Fail("%s without an implementation for any worker returned normally" % name)
    else:
        if err is None and env.lib.mc_fault_info(2) != r0:
            raise Fail("%s without an implementation for any worker returned normally" % name)
        env.wait()
        if env.live_handles() != live:
            raise Fail("%d handle(s) after the refused call, %d before" % (env.live_handles(), live))
    if not np.array_equal(env.get(single), v):
        raise Fail("a refused call changed its input")
    W.faults += 1
    env.finish()
    return {"nocode": 1}


def real_cases(tier):
    yield from nocode_cases()
    for i, c in enumerate(cases(tier)):
        if c[0] == "op" and i % 7 == 0:
            yield c


def call_faulty(o, roles, fl, un):
    def call(f, R, sc):
        env, lib = W.env, W.env.lib
        get = env.getL if fl.startswith("tile") else env.get
        W.recovering = False
        ro = None
        outs = W.outs
        ro = {r: get(R[r]) for r in roles if r not in outs and r not in un}
        lib.mc_snapshot()
        try:
            # the harness makes workspaces for tiles at every call
            count = lambda: env.live_handles() - (len(env.live) if fl.startswith("tile") else 0)
            live = count()
            for sticky in (1, 0):
                k = 0
                while True:
                    k += 1
                    if not attempt(lambda: f(R, sc), k, sticky, "call"):
                        break
                    if count() != live:
                        raise Fail("%+d handle(s) alive after request %d was refused" % (count() - live, k))
                    for r, v in ro.items():
                        if not np.array_equal(get(R[r]), v):
                            raise Fail("operand %s changed when request %d was refused" % (r, k))
                    lib.mc_restore()
                if sticky:
                    env.wait()
                    lib.mc_restore()
            W.maxk = max(W.maxk, k)
        finally:
            lib.mc_snapshot_drop()
    return call


def call_broken(env, o, roles, un):
    """Real runtime: no worker can run any codelet."""
    def call(f, R, sc):
        get = env.getL if W.tile else env.get
        put = env.putL if W.tile else env.put
        old = [w.value for w in W.where]
        was = {r: get(R[r]) for r in roles if r not in un}
        for w in W.where:
            w.value = W.cuda
        err = None
        try:
            f(R, sc)
        except Exception as e:
            err = e
        finally:
            for w, v in zip(W.where, old):
                w.value = v
        if err is None:
            return  # accepted: the result is compared
        W.faults += 1
        env.wait()
        for r in roles:
            if r in was:
                if r not in W.outs and not np.array_equal(get(R[r]), was[r]):
                    raise Fail("operand %s changed by a refused call" % r)
                put(R[r], was[r])
        f(R, sc)
    return call


def outputs(o, dt, roles, sc):
    D = {r: np.asarray(o.data(r, tuple(s), sc)).astype(np.float64) for r, (s, b) in roles.items()}
    with np.errstate(all="ignore"):
        return set(o.ref(D, sc)) | set(o.scratch)


def op(env, case):
    _, (n, dt, roles, sc), fl, mode = case
    o = O.OPS[n]
    roles = {r: (tuple(s), tuple(b)) for r, (s, b) in roles.items()}
    sc = opcheck.tup(sc)
    env.cfg(workers=2, poison=0x7E, **MODES[mode])
    un = set(o.uninit(sc)) if o.uninit else set()
    W.outs = outputs(o, dt, roles, sc)
    W.tile = fl.startswith("tile")
    W.maxk = 0

    opcheck.CALL = call_broken(env, o, roles, un) if env.real else call_faulty(o, roles, fl, un)
    try:
        return {"calls": int(bool(opcheck.run_op(env, o, dt, roles, sc, fl)))}
    finally:
        opcheck.CALL = opcheck.plain_call


def more_cases():
    """Random fills, and copies between tensors at different offsets (whole, part of and several tiles)."""
    j = 0
    for fl in ("py", "tile"):
        for dt in ("fp32", "fp64"):
            for shape in [(), (3,), (2, 3), (2, 1, 2)]:
                for bt in itertools.product(*[(1, 2) if x > 1 else (1,) for x in shape]):
                    for blocking in (0, 1):
                        if fl == "tile" and (any(b != 1 for b in bt) or not blocking):
                            continue
                        j += 1
                        yield ["more", "randn", fl, dt, shape, bt, blocking, j % 3]
    for dt in ("fp32", "fp64", "int64"):
        for n, sb, db, off in ((0, 1, 1, 0), (4, 2, 2, 0), (4, 2, 2, 2), (4, 2, 2, 1), (5, 2, 3, -1), (5, 3, 2, 3), (4, 4, 2, 0), (4, 2, 4, 0)):
            for two in (0, 1) if n else (0,):
                for blocking in (0, 1):
                    for fl in ("py", "tile"):
                        if fl == "py" or (not blocking and sb == n):
                            j += 1
                            yield ["more", "ci", fl, dt, (n, 2)[:n and 1 + two], [sb, db, off], blocking, j % 3]


def more(env, case):
    _, kind, fl, dt, shape, a, blocking, mode = case
    shape = tuple(shape)
    env.cfg(workers=2, poison=0x7E, **MODES[mode])
    tile = fl == "tile"
    mk = lambda bt, seed: env.L(dt, shape, val(dt, shape, seed).reshape(shape)) if tile else env.T(dt, shape, bt, val(dt, shape, seed).reshape(shape))
    api = env.shim if tile else env.nt if kind == "randn" else env.ct
    name = (kind if kind == "randn" else "copy_intersection") + ("" if blocking and not tile else "_async")
    if kind == "randn" and not tile:
        name, api = ("randn" if blocking and hasattr(env.nt, "randn") else "randn_async"), env.nt
        f0 = getattr(api, name)
    else:
        f0 = getattr(api, name + "_" + dt)
    if kind == "randn":
        R, S = {"x": mk(a, 1)}, {"x": mk(a, 1)}
        f = lambda R, sc: f0(R["x"], [1] * len(shape), [s + 2 for s in shape], 7, 0.5, 2.0)
        W.outs = {"x"}
    else:
        sb, db, off = a
        n = len(shape)
        bt = lambda b: tuple(min(b, s) for s in shape)
        make = lambda: {"x": mk(bt(sb), 1), "y": mk(bt(db), 2)}
        R, S = make(), make()
        ext = ()
        if tile:
            t = env.L("int64", (max(1, 2 * n),))
            ext = (t,)
        f = lambda R, sc: f0(R["x"], [0] * n, R["y"], [off] * n, *ext)
        W.outs = {"y"}
    f(S, None)
    env.wait()
    get = env.getL if tile else env.get
    want = {r: get(t) for r, t in S.items()}
    W.maxk = 0
    call_faulty(None, list(R), "tile" if tile else "py", set())(f, R, None)
    env.wait()
    for r, t in R.items():
        if not np.array_equal(get(t), want[r]):
            raise Fail("%s after refused calls gives %s instead of %s" % (name, get(t).tolist(), want[r].tolist()))
    env.finish()
    return {"more": 1}


def val(dt, shape, seed):
    n = int(np.prod(shape)) if shape else 1
    v = (np.arange(n) * 7 + seed * 5) % 11 - 3
    v = v % 2 if dt == "bool" else v
    return v.astype(NP[dt]).reshape(shape or (1,), order="F")


def transfer(env, case, t, dt, shape, put, get):
    """from_array and to_array with each request refused; nothing else changes."""
    lib = env.lib
    get_ = lambda: get(t).reshape(shape or (1,))
    a, b = val(dt, shape, 1), val(dt, shape, 4)
    put(t, a)
    lib.mc_snapshot()
    W.recovering = False
    live = env.live_handles()
    try:
        for sticky in (0, 1):
            k = 1
            while attempt(lambda: t.from_array(np.asfortranarray(b)), k, sticky, "from_array"):
                if env.live_handles() != live:
                    raise Fail("%d handle(s) after a refused from_array, %d before" % (env.live_handles(), live))
                lib.mc_restore()
                k += 1
            if not np.array_equal(get_(), b):
                raise Fail("from_array after refused ones stored other values")
            out = np.empty(shape or (1,), dtype=NP[dt], order="F")
            k = 1
            while attempt(lambda: t.to_array(out), k, sticky, "to_array"):
                if env.live_handles() != live:
                    raise Fail("%d handle(s) after a refused to_array, %d before" % (env.live_handles(), live))
                if not np.array_equal(get_(), b):
                    raise Fail("a refused to_array changed the tensor")
                k += 1
            if not np.array_equal(out, b):
                raise Fail("to_array after refused ones gave other values")
            lib.mc_restore()
    finally:
        lib.mc_snapshot_drop()
    env.finish()


def start(env, word):
    """Configurations some of which the runtime refuses, next to the one in force."""
    lib = env.lib
    rt = lambda: [lib.mc_runtime(i) for i in range(4)]
    for kind in word:
        r0 = rt()
        lib.mc_fault(kind, ctypes.c_long(1), 1, ENODEV)
        c = err = None
        try:
            c = env.core.starpu.Config(2, 0, 0)
        except Exception as e:
            err = e
        fired = lib.mc_fault_info(0)
        lib.mc_fault(0, ctypes.c_long(0), 0, 0)
        if kind and fired and err is None:
            raise Fail("the runtime refused to start but the configuration was created")
        if not kind and err is not None:
            raise Fail("the configuration was refused: %s" % err)
        if c is not None:
            c.shutdown()
        else:
            W.faults += 1
        del c
        err = None
        r1 = rt()
        if r1[0] != r0[0]:
            raise Fail("%d initialisation(s) in force after the configurations, %d before" % (r1[0], r0[0]))
    t = env.T("fp32", (2,), (1,), [1.0, 2.0])
    env.nt.scal_inplace_async(2.0, t)
    if list(env.get(t)) != [2.0, 4.0]:
        raise Fail("work after refused configurations is wrong")
    env.finish()


@guarded
def run(env, case):
    W.faults = 0
    if case[0] == "net":
        W.on, W.depth, W.calls = True, 0, 0
        try:
            W.mod[case[1]].run(env, case[2])
        finally:
            W.on = False
        return {"nets": 1, "net_calls": W.calls, "faults": W.faults}
    if case[0] == "op":
        k = op(env, case)
    elif case[0] == "np":
        dt, shape, bt = case[1], tuple(case[2]), tuple(case[3])
        env.cfg(workers=2, poison=0x7E, **MODES[case[4]])
        transfer(env, case, env.T(dt, shape, bt), dt, shape, env.put, env.get)
        k = {"transfers": 1}
    elif case[0] == "nptile":
        dt, shape = case[1], tuple(case[2])
        env.cfg(workers=2, poison=0x7E, **MODES[case[3]])
        transfer(env, case, env.L(dt, shape), dt, shape, env.putL, env.getL)
        k = {"transfers": 1}
    elif case[0] == "more":
        k = more(env, case)
    elif case[0] == "nocode":
        env.cfg(workers=2, poison=0x7E, mode=LAZY)
        k = nocode(env, case)
    else:
        env.cfg(workers=2, poison=0x7E, mode=EAGER)
        start(env, case[1])
        k = {"starts": 1}
    k["faults"] = W.faults
    return k
