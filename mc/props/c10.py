"""C10: optimizers over whole training histories.  Every word over {Step, Zero-gradient
step, save and Restore into a fresh optimizer, restore into a fresh optimizer of a New copy
of the parameters with other tiles} up to the depth bound, for every combination of options
and several tilings, against the published update rule evaluated in double precision."""
import itertools, os
import numpy as np
from h import Fail, EAGER, LAZY, EXPLORE, FIFO, LIFO, ALT

FULL_PACKAGE = True
REAL_STRIDE = 101
TIER = "quick"
ASSUMPTIONS = ["CPU codelets only", "single precision histories are compared within the rounding of the bias correction 1-beta^t evaluated in single precision",
               "the reference rules are checked against torch.optim in the same process before the exploration"]
TILES = [[((3, 2), (3, 2)), ((4,), (4,))], [((3, 2), (2, 1)), ((4,), (3,))], [((3, 2), (1, 2)), ((4,), (1,))]]
BETAS = [(0.9, 0.999), (0.5, 0.75), (0.0, 0.5), (0.5, 0.0)]
MODES = [dict(mode=LAZY, policy=LIFO), dict(mode=EAGER), dict(mode=LAZY, policy=ALT), dict(mode=EXPLORE, full=0, max_states=4000),
         dict(mode=LAZY, policy=FIFO)]


def configs():
    for lr in (0.5, 0.03125):
        for mom, nest, damp in [(0.0, False, 0.0)] + [(m, n, d) for m in (0.5, 0.875) for n in (False, True) for d in (0.0, 0.25)]:
            for wd in (0.0, 0.125):
                yield ["SGD", dict(lr=lr, momentum=mom, nesterov=nest, damping=damp, weight_decay=wd)]
    for b1, b2 in BETAS:
        for wd in (0.0, 0.125):
            for eps in (1e-8, 0.25):
                for ams in (False, True):
                    yield ["Adam", dict(lr=0.125, beta1=b1, beta2=b2, weight_decay=wd, eps=eps, amsgrad=ams)]
                for w in (None, (0.03125, 3)):
                    d = dict(lr=0.125, beta1=b1, beta2=b2, weight_decay=wd, eps=eps)
                    if w:
                        d.update(start_lr=w[0], full_lr_iter=w[1])
                    yield ["FusedAdam", d]
                    yield ["FusedAdamW", d]


def words(kind, n):
    al = "SZ" if kind == "SGD" else "SZRN"
    for p in itertools.product(al, repeat=n):
        w = "".join(p)
        if w.endswith(("R", "N")) or w.count("R") + w.count("N") > 2:
            continue
        if "Z" in w[1:] or w[0] != "Z":
            if w.count("Z") > 1:
                continue
        yield w


def cases(tier):
    q = tier == "quick"
    j = 0
    for kind, cf in configs():
        for w in words(kind, 5 if q else 6):
            for dt in ("fp32", "fp64"):
                tl = range(len(TILES)) if not q else [j % len(TILES)]
                j += 1
                for ti in tl:
                    yield [kind, cf, w, dt, ti, j % len(MODES), (j // 2) % 2]
    # long histories
    for kind, cf in configs():
        for dt in ("fp32", "fp64"):
            j += 1
            yield [kind, cf, "Z" + "S" * (23 if q else 60), dt, j % len(TILES), j % 3, (j // 2) % 2]
        if q and cf.get("beta1", 0.9) == 0.9:
            yield [kind, cf, "S" * 110, "fp64", 0, 1, 0]
    for kind in ("FusedAdam", "FusedAdamW"):
        for b in BETAS[:2]:
            for w in ("ShSS", "SSbS", "SfSS"):
                for dt in ("fp32",):
                    yield [kind, dict(lr=0.125, beta1=b[0], beta2=b[1]), w, dt, 1, 0, 1]


def grad(t, k, shape):
    n = int(np.prod(shape))
    v = np.array([((7 * i + 5 * t + 3 * k) % 11 - 5) / 4.0 for i in range(n)])
    if n > 1:
        v[(t + k) % n] *= 1000.0
        v[(t + k + 1) % n] = 0.0
        v[(t + k + 2) % n] = 1e-6 * (1 if t % 2 else -1)
    return v.reshape(shape, order="F")


def param(k, shape):
    n = int(np.prod(shape))
    return np.array([((5 * i + 3 * k) % 13 - 6) / 2.0 for i in range(n)]).reshape(shape, order="F")


class Ref:
    """Published update rules (torch.optim semantics), double precision."""

    def __init__(self, kind, cf, ps):
        self.kind, self.cf = kind, cf
        self.p = [p.astype(float).copy() for p in ps]
        self.m = [np.zeros_like(p) for p in self.p]
        self.v = [np.zeros_like(p) for p in self.p]
        self.vm = [np.zeros_like(p) for p in self.p]
        self.t = 0

    def step(self, gs):
        c = self.cf
        self.t += 1
        t = self.t
        for i, g in enumerate(gs):
            p = self.p[i]
            g = g.astype(float)
            if self.kind == "SGD":
                g = g + c["weight_decay"] * p
                if c["momentum"] > 0:
                    self.m[i] = g if t == 1 else c["momentum"] * self.m[i] + (1 - c["damping"]) * g
                    g = g + c["momentum"] * self.m[i] if c["nesterov"] else self.m[i]
                self.p[i] = p - c["lr"] * g
                continue
            lr = c["lr"]
            if c.get("start_lr") is not None and t < c["full_lr_iter"]:
                lr = c["start_lr"] + (lr - c["start_lr"]) * (t - 1) / (c["full_lr_iter"] - 1)
            wd = c.get("weight_decay", 0.0)
            eps = c.get("eps", 1e-8)
            if self.kind == "FusedAdamW":
                p = p * (1 - lr * wd)
            else:
                g = g + wd * p
            b1, b2 = c["beta1"], c["beta2"]
            self.m[i] = b1 * self.m[i] + (1 - b1) * g
            self.v[i] = b2 * self.v[i] + (1 - b2) * g * g
            self.vm[i] = np.maximum(self.vm[i], self.v[i])
            den = np.sqrt((self.vm[i] if c.get("amsgrad") else self.v[i]) / (1 - b2 ** t)) + eps
            self.p[i] = p - lr * (self.m[i] / (1 - b1 ** t)) / den


def validate_reference():
    import torch
    for kind, cf in configs():
        if cf.get("start_lr") is not None:
            continue
        ps = [param(k, s) for k, (s, b) in enumerate(TILES[0])]
        tp = [torch.tensor(p, dtype=torch.float64, requires_grad=True) for p in ps]
        c = dict(cf)
        if kind == "SGD":
            if c["nesterov"] and c["damping"]:
                continue  # refused by torch
            c["dampening"] = c.pop("damping")
            o = torch.optim.SGD(tp, **c)
        else:
            b = (c.pop("beta1"), c.pop("beta2"))
            o = (torch.optim.AdamW if kind == "FusedAdamW" else torch.optim.Adam)(tp, betas=b, **c)
        r = Ref(kind, cf, ps)
        for t in range(4):
            gs = [grad(t, k, p.shape) for k, p in enumerate(ps)]
            for x, g in zip(tp, gs):
                x.grad = torch.tensor(g)
            o.step()
            r.step(gs)
            for x, y in zip(tp, r.p):
                if np.abs(x.detach().numpy() - y).max() > 1e-9 * (1 + np.abs(y).max()):
                    raise RuntimeError("reference rule of %s %s differs from torch at step %d" % (kind, cf, t + 1))


def setup(env, tier):
    global TIER, OPT, TM
    TIER = tier
    import nntile.optimizer as OPT_
    OPT = OPT_
    from nntile.tensor import TensorMoments
    TM = TensorMoments
    validate_reference()


def fresh(env, kind, cf, params, dt, blank=False):
    kw = dict(cf)
    if blank:   # every option the saved state carries is given a wrong value
        kw = {k: kw[k] for k in kw if k == "amsgrad"}
        kw["lr"] = 99.0
    if kind == "SGD":
        kw = dict(cf)
    return getattr(OPT, kind)(params, next_tag=0, dtype=np.float32 if dt == "fp32" else np.float64, **kw)


def run(env, case):
    try:
        return run1(env, case)
    except Fail as e:
        raise Fail("%s (case %s)" % (e, case))
    except Exception as e:
        raise Fail("raised %s: %s (case %s)" % (type(e).__name__, e, case))


def mk(env, dt, ti, data):
    out = []
    for (s, b), d in zip(TILES[ti], data):
        out.append(TM(env.T(dt, s, b, d), env.T(dt, s, b), True))
    return out


def run1(env, case):
    kind, cf, word, dt, ti, mode, every = case
    env.cfg(workers=2, poison=0x7E, **MODES[mode])
    p0 = [param(k, s) for k, (s, b) in enumerate(TILES[ti])]
    ref = Ref(kind, cf, p0)
    params = mk(env, dt, ti, p0)
    opt = fresh(env, kind, cf, params, dt)
    retired = []
    path = "state_%d.pkl" % os.getpid()
    npdt = np.float32 if dt == "fp32" else np.float64
    atol, cnt = 0.0, {"histories": 1}
    loss_tol = 0.0
    for j, a in enumerate(word):
        if a in "SZ":
            gs = []
            for k, pm in enumerate(params):
                s = TILES[ti][k][0]
                g = grad(j, k, s) if a == "S" else np.zeros(s)
                g = g.astype(npdt)
                gs.append(g)
                if every:
                    env.put(pm.grad, g)
                else:
                    src = env.T(dt, s, TILES[ti][k][1], g)
                    env.nt.copy_async(src, pm.grad)
            opt.step()
            ref.step(gs)
            cnt["steps"] = cnt.get("steps", 0) + 1
        elif a in "RNhbf":
            if a in "RN":
                opt.save_state(path)
            else:
                opt.save_state(path, dtype={"h": "fp16", "b": "bf16", "f": "fp32"}[a])
                loss_tol += {"h": 2e-3, "b": 1.6e-2, "f": 0}[a]
            if a == "N":
                vals = [env.get(pm.value) for pm in params]
                for pm in params:
                    env.nt.fill_async(77.0, pm.value)
                retired.append(opt)
                ti = (ti + 1) % len(TILES)
                params = mk(env, dt, ti, vals)
            else:
                retired.append(opt)
            opt = fresh(env, kind, cf, params, dt, blank=True)
            opt.load_state(path)
            cnt["restores"] = cnt.get("restores", 0) + 1
        if every or j == len(word) - 1:
            compare(env, params, ref, dt, cf, kind, word[:j + 1], loss_tol)
    for o in retired + [opt]:
        o.unregister()
    if os.path.exists(path):
        os.unlink(path)
    env.wait()
    env.finish()
    return cnt


def compare(env, params, ref, dt, cf, kind, done, loss_tol):
    for k, pm in enumerate(params):
        got = env.get(pm.value).astype(float)
        want = ref.p[k]
        if dt == "fp64":
            tol = 1e-10 * (1 + np.abs(want))
        elif kind == "SGD":
            tol = 2e-6 * (np.abs(want) + 1 + 20 * ref.t)
        else:
            tol = 3e-6 * (1 + np.abs(want)) * ref.t + 1.5e-4 * cf["lr"] * ref.t
        tol = tol + loss_tol * 8 * cf["lr"] * ref.t
        bad = ~(np.abs(got - want) <= tol)
        if bad.any():
            i = tuple(np.argwhere(bad)[0])
            raise Fail("%s: parameter %d%s is %r after '%s', expected %r" % (kind, k, list(i), float(got[i]), done, float(want[i])))
