"""C25: asynchronous calls submit and return, blocking calls return when their work is done.

Every asynchronous operation, pass of a layer or model, loss and optimizer step is called while
execution is paused and after work that has not run: a call that waits for a task is reported
by the model runtime (and hangs on the real one).  Every blocking form must leave nothing behind."""
import itertools
import numpy as np
import opcheck, ops as O, nets
from h import Fail, EAGER, LAZY, EXPLORE, FIFO, LIFO, ALT
from nets import guarded

FULL_PACKAGE = True
REAL_STRIDE = 499
HANG = 60.0
ASSUMPTIONS = ["initialisation, transfers to and from numpy arrays and release of data are blocking by definition"]
MODES = [dict(mode=LAZY, policy=LIFO), dict(mode=EXPLORE, full=0, max_states=2000, tol=1), dict(mode=EAGER), dict(mode=LAZY, policy=ALT, drain_all=1)]


class W:
    depth = 0
    calls = 0
    on = False


def setup(env, tier):
    opcheck.bind(env)
    import torch
    torch.set_num_threads(1)
    from props import c10, c16, c17, c18, c19
    W.mod = {"c10": c10, "c16": c16, "c17": c17, "c18": c18, "c19": c19}
    for m in W.mod.values():
        if hasattr(m, "setup"):
            m.setup(env, tier)
    W.env = env
    import nntile.layer, nntile.layer.add, nntile.model, nntile.loss, nntile.optimizer
    seen = set()
    import inspect, sys
    for name, m in sorted(sys.modules.items()):
        if not name.startswith(("nntile.layer", "nntile.model", "nntile.loss", "nntile.optimizer")):
            continue
        for _, c in inspect.getmembers(m, inspect.isclass):
            if c in seen or not c.__module__.startswith("nntile."):
                continue
            seen.add(c)
            for f in ("forward_async", "backward_async", "calc_async", "step", "clear_gradients", "init_randn_async"):
                if f in vars(c) and callable(vars(c)[f]):
                    setattr(c, f, wrap(vars(c)[f]))


def wrap(f):
    def g(*a, **k):
        if not W.on:
            return f(*a, **k)
        st = W.env.core.starpu
        if W.depth == 0:
            st.pause()
        W.depth += 1
        W.calls += 1
        try:
            return f(*a, **k)
        finally:
            W.depth -= 1
            if W.depth == 0:
                st.resume()
    g.__name__ = getattr(f, "__name__", "g")
    return g


def specs(tier):
    """Instances of every operation: a spread over ranks, tilings and scalars."""
    per = 12 if tier == "quick" else 400
    for n, o in list(O.OPS.items()) + list(O.EXTRA.items()):
        if o.data is None:
            continue   # half precision: C23
        seen = {}
        for roles, sc in o.space("quick"):
            for dt in o.dts:
                k = (dt, bool(o.redux and sc[o.redux[2]]), len(roles[next(iter(roles))][0]))
                seen.setdefault(k, []).append([n, dt, roles, sc])
        for k, l in seen.items():
            yield from l[:: max(1, len(l) // per)][:per]


def cases(tier):
    j = 0
    for s in specs(tier):
        for fl in ("core_async", "tile_async", "py"):
            j += 1
            yield ["async", s, fl, j % 4, 1 + (j % 2)]
        for fl in ("core", "tile"):
            j += 1
            yield ["block", s, fl, j % 4]
    from props import c10, c16, c17, c18, c19
    for name, m in (("c10", c10), ("c16", c16), ("c17", c17), ("c18", c18), ("c19", c19)):
        per = {}
        for c in m.cases("quick"):
            key = str([x if isinstance(x, str) else x.get("l", x.get("m", x.get("k"))) if isinstance(x, dict) else None for x in c])
            per.setdefault(key, []).append(c)
        n = {"c10": 6, "c16": 30, "c17": 30, "c18": 60, "c19": 20}[name] * (1 if tier == "quick" else 8)
        for key, cs in sorted(per.items()):
            for c in cs[:: max(1, len(cs) // n)]:
                yield ["net", name, c]


def call_paused(rep):
    def call(f, R, sc):
        st = W.env.core.starpu
        st.pause()
        if rep > 1:
            st.pause()
        try:
            f(R, sc)
        finally:
            if rep > 1:
                st.resume()
            st.resume()
    return call


@opcheck.extra(lambda c: c[1][0] if c[0] != "net" else None)
@guarded
def run(env, case):
    if case[0] == "net":
        W.on, W.depth, W.calls = True, 0, 0
        try:
            W.mod[case[1]].run(env, case[2])
        finally:
            W.on = False
        return {"nets": 1, "paused_calls": W.calls}
    _, (n, dt, roles, sc), fl, mode = case[:4]
    o = opcheck.get_op(n)
    env.cfg(workers=2, poison=0x7E, **MODES[mode])
    if case[0] == "async":
        opcheck.CALL = call_paused(case[4])
        try:
            r = opcheck.run_op(env, o, dt, roles, sc, fl)
        finally:
            opcheck.CALL = opcheck.plain_call
        return {"async": int(bool(r))}
    if not env.real:
        env.lib.mc_nsub_steps(1)
    try:
        r = opcheck.run_op(env, o, dt, roles, sc, fl)
    finally:
        if not env.real:
            env.lib.mc_nsub_steps(0)
    return {"blocking": int(bool(r))}
