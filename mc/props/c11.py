"""C11: embedding lookup and its gradient for every index assignment."""
import itertools
import opcheck
import ops as O

ASSUMPTIONS = ["CPU codelets only", "indices are within the vocabulary (the operation does not define anything else)"]
REAL_STRIDE = 53
TIER = "quick"


def setup(env, tier):
    global TIER
    TIER = tier
    opcheck.bind(env)


def assigned(tier):
    """All index assignments for small index tensors."""
    q = tier == "quick"
    shp = [((1,), 4), ((2,), 4), ((3,), 3), ((4,), 2 if q else 3), ((2, 2), 2 if q else 3), ((3, 2), 2)]
    if not q:
        shp += [((5,), 3), ((2, 3), 2), ((2, 2, 2), 2)]
    for s, nv in shp:
        n = 1
        for x in s:
            n *= x
        for b in itertools.product(*[range(1, d + 1) for d in s]):
            for axis in range(len(s) + 1):
                for e, eb, vb in ((1, 1, 1), (3, 2, 2), (3, 2, 1), (4, 2, 1), (4, 4, 2), (4, 2, 2)):
                    for pat in range(nv ** n):
                        es = s[:axis] + (e,) + s[axis:]
                        ebs = b[:axis] + (eb,) + b[axis:]
                        yield {"index": (s, b), "vocab": ((e, nv), (vb, nv)), "embed": (es, ebs)}, axis, nv, 100 + pat


def cases(tier):
    for roles, axis, nv, pat in assigned(tier):
        for dt in (("fp32", "fp64") if tier != "quick" else (("fp32", "fp64")[pat % 2],)):
            yield ["embedding", dt, roles, (axis, 0, nv, pat)]
            for rx in (0, 1):
                yield ["embedding_backward", dt, roles, (axis, rx, nv, pat)]
    yield from opcheck.cases(["embedding", "embedding_backward"], tier)


def run(env, case):
    return opcheck.run_case(env, case, tier=TIER, max_tasks=4 if TIER == "quick" else 8)


def run_real(env, case):
    return opcheck.run_case(env, case, flavours=("py", "core"), tier=TIER, explore=False)
