"""C07: every memory access of every task stays within what the task declared.
The kernels and codelets run instrumented (variant 'mon', see mc/mon.cc)."""
import ctypes, os
import numpy as np
import opcheck
import ops as O
from h import Fail, EAGER, LAZY, LIFO
from props import c09

ASSUMPTIONS = ["CPU codelets only", "accesses made inside BLAS are those of the BLAS interface contract (start, size, stride and leading dimension of the call)",
               "accesses do not depend on the schedule: a task's accesses are a function of its arguments and buffer contents, both enumerated"]
VARIANT = "mon"
REAL_BUDGET = None
TIER = "quick"
M = None
STRIDE = {"quick": 3, "thorough": 1}


def setup(env, tier):
    global TIER, M
    TIER = tier
    opcheck.bind(env)
    M = ctypes.CDLL(os.path.join(env.out, "libnntile.so"))
    M.mon_name.restype = ctypes.c_char_p
    M.mon_enable(1)


def cases(tier):
    q = tier == "quick"
    for name in sorted(O.OPS):
        o = O.OPS[name]
        sp = list(o.space("quick" if q else "thorough"))
        # at most a bounded number of instances per operation, spread over its space
        k = max(1, len(sp) // (6000 if q else 100000))
        while k > 1 and any(k % p == 0 for p in (2, 3, 5, 7)):
            k += 1
        for roles, sc in sp[::k]:
            for dt in o.dts:
                yield ["op", name, dt, roles, sc]
    import itertools
    for nd, mx in ((0, 0), (1, 4), (2, 3), (3, 2)) if q else ((0, 0), (1, 8), (2, 4), (3, 3), (4, 2)):
        one = [d for u in range(1, mx + 1) for d in c09.dims(u)]
        for c in itertools.product(one, repeat=nd):
            for dt in ("fp32", "fp64"):
                yield ["randn", dt, [list(x) for x in c]]
    yield ["final"]


def run(env, case):
    if case[0] == "op":
        k = opcheck.run_case(env, case[1:], flavours=("py", "tile"), tier=TIER, explore=False)
    elif case[0] == "randn":
        dt, box = case[1:]
        U = [x[0] for x in box]; S = [x[1] for x in box]
        n = tuple(x[2] for x in box); b = tuple(x[3] for x in box)
        env.cfg(mode=LAZY, policy=LIFO)
        t = env.T(dt, n, b)
        env.nt.randn_async(t, S, U, 7, 1.0, 2.0)
        env.get(t)
        if n == b and env.shim is not None:
            t = env.L(dt, n)
            getattr(env.shim, "randn_" + dt)(t, S, U, 7, 1.0, 2.0)
            env.getL(t)
        env.finish()
        k = {"randn": 1}
    else:
        return {}
    a = (ctypes.c_ulong * 4)()
    M.mon_counts(a)
    global LAST
    k["accesses"] = a[0] - LAST[0]
    k["monitored_tasks"] = a[1] - LAST[1]
    LAST = list(a)
    if a[3] == 0:
        raise Fail("monitor found no mapping of the library")
    return k


LAST = [0, 0, 0, 0]
