"""C18: the losses over histories of evaluations: value and gradient against their
definition in double precision, for every tiling, label choice and magnitude."""
import itertools
import numpy as np
from h import Fail
import nets
from nets import Run, idata, rdata, tilings, guarded, NPD

FULL_PACKAGE = True
REAL_STRIDE = 61
TIER = "quick"
ASSUMPTIONS = ["the classes are in one tile (anything else is rejected)", "labels are valid class numbers, every column of the model output has a finite maximum",
               "the Frobenius loss uses the gradient tensor of the model output as work space, so it has one even if the gradient is not required",
               "the loss value of the cross entropy loss is initialized (cleared) by its user, as the training pipeline does"]
# C evaluate, Z clear the loss value, X new model output, Y new labels or target, G garbage in the gradient
WORDS = ["C", "CC", "CXC", "CYCZC", "XYCXYC", "CGZC"]
DATA = ["small", "ties", "big", "huge", "neginf", "wide"]


def setup(env, tier):
    global TIER, CE, Frob
    TIER = tier
    from nntile.loss import CrossEntropy, Frob as F
    CE, Frob = CrossEntropy, F


def column(data, n, seed):
    """One column of model outputs over n classes (before labels)."""
    v = rdata((n,), seed)
    if data == "ties":
        v = np.full(n, 1.5)
        if seed % 3 == 0:
            v[seed % n] = -0.5
    elif data == "big":
        v = v * 4096.0
    elif data == "huge":
        v = np.where(v > 0, 1.0, -1.0) * 2.0 ** 99 * (1 + np.abs(v))
    elif data == "wide":
        v = v * 24.0 - 8192.0
    return v


def outputs(shape, data, seed, labels):
    x = np.zeros(shape)
    for i in itertools.product(*[range(s) for s in shape[1:]]):
        seed += 13
        c = column(data, shape[0], seed)
        if data == "neginf":
            for k in range(shape[0]):
                if (k * 7 + seed) % 3 == 0 and k != labels[i]:
                    c[k] = -np.inf
        x[(slice(None),) + i] = c
    return x


def mklabels(shape, kind, seed):
    n = shape[0]
    q = shape[1:]
    m = int(np.prod(q)) if q else 1
    if kind == "last":
        v = [n - 1] * m
    elif kind == "first":
        v = [0] * m
    else:
        v = [(i * 3 + seed * 5 + i * i // 2) % n for i in range(m)]
    return np.array(v, dtype=np.int64).reshape(q)


def configs(tier):
    q = tier == "quick"
    shapes = [(1,), (3,), (2, 3), (5, 2), (1, 3), (3, 2, 2), (4, 1, 3)]
    if not q:
        shapes += [(7, 4), (4, 3, 2), (2, 2, 2, 2), (3, 1, 2, 3)]
    for s in shapes:
        for b in itertools.product(s[:1], *[range(1, v + 1) for v in s[1:]]):
            for data in DATA:
                for lab in ("first", "last", "mix"):
                    for grad in ("need", "present", "none"):
                        for redux in (0, 1):
                            for scale in (1.0, 0.375):
                                yield dict(l="ce", s=s, b=b, data=data, lab=lab, grad=grad, redux=redux, scale=scale)
    # many labels or many classes
    for s, b in (((3, 40), (3, 40)), ((2, 700), (2, 300)), ((130, 3), (130, 2)), ((3000, 2), (3000, 2)), ((2, 7, 9), (2, 7, 9)), ((3, 50), (3, 1)), ((2, 3, 2, 3), (2, 2, 2, 2))):
        for lab in ("last", "mix"):
            for redux in (0, 1):
                yield dict(l="ce", s=s, b=b, data="small", lab=lab, grad="need", redux=redux, scale=0.375)
    fs = [(), (1,), (5,), (3, 2), (2, 3), (2, 1, 3), (2, 3, 2)]
    if not q:
        fs += [(7, 3), (2, 2, 2, 2), (5, 5)]
    for s in fs:
        for b in itertools.product(*[range(1, v + 1) for v in s]):
            for data in ("small", "int", "big", "equal", "tiny"):
                for grad in ("need", "present"):
                    yield dict(l="frob", s=s, b=b, data=data, grad=grad)
    for s, b in (((700,), (700,)), ((40, 41), (40, 41)), ((40, 41), (7, 13)), ((5, 4, 3, 2), (5, 4, 3, 2)), ((2, 3, 2, 3, 2), (1, 2, 2, 2, 1))):
        for grad in ("need", "present"):
            yield dict(l="frob", s=s, b=b, data="small", grad=grad)


def cases(tier):
    j = 0
    for c in configs(tier):
        for w in WORDS:
            j += 1
            yield [c, w, ("fp32", "fp64")[(j // 7) % 2], (j // 2) % 5, (j // 3) % 2]


@guarded
def run(env, case):
    c, word, dt, mode, every = case
    r = Run(env, dt, mode, every, word, case)
    s, b = tuple(c["s"]), tuple(c["b"])
    return (ce if c["l"] == "ce" else frob)(env, r, c, word, s, b, dt, every)


def evaluate(env, r, loss):
    loss.calc_async()
    if r.every:
        env.wait()


def near(env, r, t, want, tol, what):
    got = env.get(t).astype(float)
    want = np.asarray(want, dtype=float)
    bad = ~(np.abs(got - want) <= tol)
    if bad.any():
        i = tuple(np.argwhere(bad)[0])
        raise Fail("%s%s = %r after %s, expected %r" % (what, list(i), float(got[i]), r.word, float(want[i])))


def ce(env, r, c, word, s, b, dt, every):
    npd = NPD[dt]
    eps = np.finfo(npd).eps
    lab = mklabels(s, c["lab"], 1)
    x = outputs(s, c["data"], 1, lab).astype(npd).astype(float)
    g = None if c["grad"] == "none" else idata(s, 3)
    m = r.moments(s, b, x, grad=None, required=c["grad"] == "need")
    if g is not None:
        m.grad = env.T(dt, s, b, g)
    loss, _ = CE.generate_simple(m, 0, redux=bool(c["redux"]), scale=c["scale"])
    if tuple(loss.y.shape) != s[1:] or tuple(loss.val.shape) != ():
        raise Fail("generated labels or value have a wrong shape")
    env.put(loss.y, lab)
    val, err = 2.5, 1e-30
    env.put(loss.val, np.array(val))
    t = 0
    ncalc = 0
    for a in word:
        t += 1
        if a == "X":
            x = outputs(s, c["data"], 10 + t, lab).astype(npd).astype(float)
            r.set(m.value, x)
        elif a == "Y":
            lab = mklabels(s, c["lab"] if t % 2 else "mix", t)
            if c["data"] == "neginf":
                # the label is never an impossible class
                x = outputs(s, c["data"], 10 + t, lab).astype(npd).astype(float)
                r.set(m.value, x)
            if every:
                env.put(loss.y, lab)
            else:
                env.nt.copy_async(env.T("int64", s[1:], b[1:], lab), loss.y)
        elif a == "Z":
            env.nt.clear_async(loss.val)
            val, err = 0.0, 1e-30
        elif a == "G":
            if g is not None:
                g = idata(s, 30 + t)
                r.set(m.grad, g)
        else:
            ncalc += 1
            mx = x.max(0)
            lse = mx + np.log(np.exp(x - mx).sum(0))
            pick = np.take_along_axis(x, lab[None], 0)[0]
            val = val + c["scale"] * float(np.sum(lse - pick))
            err += c["scale"] * float(np.sum(np.abs(lse) + np.abs(pick) + 1)) + abs(val)
            if c["grad"] == "need":
                p = np.exp(x - lse) if c["data"] != "huge" else np.exp(x - mx) / np.exp(x - mx).sum(0)
                onehot = (np.arange(s[0]).reshape((-1,) + (1,) * len(s[1:])) == lab[None])
                g = c["scale"] * (p - onehot)
            evaluate(env, r, loss)
            if every:
                check(env, r, c, loss, m, val, err, g, eps, s)
    env.wait()
    check(env, r, c, loss, m, val, err, g, eps, s)
    if not np.array_equal(env.get(m.value).astype(float), x) or not np.array_equal(env.get(loss.y), lab):
        raise Fail("model output or labels were changed by the loss")
    for what, t, want, tol in (("get_val", (1,), np.array([val]), 8 * eps * err), ("get_grad", s, g, 1e-3)):
        if what == "get_grad" and (g is None or len(s) == 0):
            continue
        out = np.zeros(t, dtype=npd, order="F")
        getattr(loss, what)(out)
        if not np.all(np.abs(out - want) <= tol * (1 + np.max(np.abs(want)) if what == "get_grad" else 1)):
            raise Fail("%s gives %r, expected %r" % (what, out.tolist(), np.asarray(want).tolist()))
    loss.unregister()
    env.finish()
    return {"evaluations": ncalc, "histories": 1, "loss_ce": 1}


def check(env, r, c, loss, m, val, err, g, eps, s):
    near(env, r, loss.val, val, 8 * eps * err, "loss value")
    if g is not None:
        if c["grad"] == "need":
            near(env, r, m.grad, g, 24 * eps * max(1, s[0]) * (3000 if c["data"] in ("big", "wide") else 1), "gradient")
        else:
            near(env, r, m.grad, g, 0, "not required gradient")


def fdata(s, data, seed, y):
    if data == "int":
        return idata(s, seed)
    if data == "big":
        return rdata(s, seed, 2.0 ** 40)
    if data == "tiny":
        return rdata(s, seed, 2.0 ** -40)
    if data == "equal" and y is not None:
        return y.copy()
    return rdata(s, seed)


def frob(env, r, c, word, s, b, dt, every):
    npd = NPD[dt]
    eps = np.finfo(npd).eps
    y = fdata(s, c["data"], 2, None)
    x = fdata(s, c["data"], 1, y)
    m = r.moments(s, b, x, required=c["grad"] == "need")
    loss, _ = Frob.generate_simple(m, 0)
    env.put(loss.y, y)
    t = 0
    done = None
    n = 0
    for a in word:
        t += 1
        if a == "X":
            x = fdata(s, c["data"], 10 + t, y)
            r.set(m.value, x)
        elif a == "Y":
            y = fdata(s, c["data"], 20 + t, None)
            r.set(loss.y, y)
        elif a == "G":
            r.set(m.grad, idata(s, 30 + t))
        elif a == "Z":
            env.put(loss.val, np.array(17.0))
        else:
            n += 1
            d = x - y
            done = (d, 0.5 * float(np.sum(d * d)))
            evaluate(env, r, loss)
            if every:
                fcheck(env, r, loss, m, done, eps)
    env.wait()
    # everything after the last evaluation left gradient and value alone
    fcheck(env, r, loss, m, done, eps)
    if not np.array_equal(env.get(m.value).astype(float), x) or not np.array_equal(env.get(loss.y).astype(float), y):
        raise Fail("model output or target were changed by the loss")
    out = np.zeros((1,), dtype=npd, order="F")
    loss.get_val(out)
    if not abs(out[0] - done[1]) <= 32 * eps * done[1] + 1e-300:
        raise Fail("get_val gives %r, expected %r" % (out.tolist(), done[1]))
    loss.unregister()
    env.finish()
    return {"evaluations": n, "histories": 1, "loss_frob": 1}


def fcheck(env, r, loss, m, done, eps):
    d, v = done
    near(env, r, loss.val, v, 32 * eps * v + 1e-300, "loss value")
    if m.grad_required:
        near(env, r, m.grad, d, 2 * eps * np.abs(d).max() + 0.0, "gradient")


