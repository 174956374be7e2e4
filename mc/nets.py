"""Driving layers, losses and models: histories of forward and backward passes over
real layer objects compared with double-precision automatic differentiation of the
layer's mathematical definition."""
import itertools
import numpy as np
from h import Fail, EAGER, LAZY, EXPLORE, FIFO, LIFO, ALT

MODES = [dict(mode=LAZY, policy=LIFO), dict(mode=EAGER), dict(mode=LAZY, policy=ALT), dict(mode=EXPLORE, full=0, max_states=3000, tol=1),
         dict(mode=LAZY, policy=FIFO, drain_all=1)]
NPD = {"fp32": np.float32, "fp64": np.float64}


def idata(shape, seed, k=3):
    """Small integers, no pattern aligned with any axis."""
    n = int(np.prod(shape)) if len(shape) else 1
    v = [((i * 7919 + seed * 104729 + (i * i * 31 + seed * 17) % 23) // 3) % (2 * k + 1) - k for i in range(n)]
    return np.array(v, dtype=float).reshape(shape)


def rdata(shape, seed, scale=1.0):
    """Well spread fractional values (multiples of 1/16, exactly representable)."""
    n = int(np.prod(shape)) if len(shape) else 1
    v = [(((i * 7919 + seed * 104729 + (i * i * 37 + seed * 11) % 41) % 61) - 30) / 16.0 * scale for i in range(n)]
    return np.array(v, dtype=float).reshape(shape)


def tilings(shape, lv=2):
    """Per dimension: whole, partial last tile (when there is one), single elements."""
    o = []
    for s in shape:
        c = [s]
        if s >= 3:
            c.append(2)
        if s >= 2 and (lv > 2 or s == 2):
            c.append(1)
        o.append(c[:lv])
    return itertools.product(*o)


class Run:
    """One history on one object."""

    def __init__(self, env, dt, mode, every, word, what):
        self.env, self.dt, self.every, self.word, self.what = env, dt, every, word, what
        env.cfg(workers=2, poison=0x7E, **MODES[mode % len(MODES)])
        from nntile.tensor import TensorMoments
        self.TM = TensorMoments
        self.npd = NPD[dt]
        self.tol = 2e-4 if dt == "fp32" else 1e-10

    def moments(self, shape, bt, value, grad="acc", required=True, dt=None, seed=5):
        """grad: 'acc' prefilled gradient to be added to, None: no gradient tensor."""
        v = self.env.T(dt or self.dt, shape, bt, value)
        g = None
        if grad is not None:
            g = self.env.T(self.dt, shape, bt, idata(shape, seed))
        return self.TM(v, g, required)

    def set(self, t, data):
        """Give a tensor new content, blocking or by an asynchronous copy."""
        if self.every:
            self.env.put(t, data)
        else:
            shape, bt = tuple(t.shape), tuple(t.basetile_shape)
            dt = type(t).__name__.split("_")[-1]
            s = self.env.T(dt, shape, bt, data)
            self.env.nt.copy_async(s, t)

    def cmp(self, t, want, what, scale=None):
        got = self.env.get(t).astype(float)
        want = np.asarray(want, dtype=float)
        if got.shape != want.shape:
            raise Fail("%s has shape %s, expected %s" % (what, got.shape, want.shape))
        s = max(1.0, float(np.max(np.abs(want)))) if want.size else 1.0
        if scale:
            s = max(s, scale)
        bad = ~(np.abs(got - want) <= self.tol * s)
        if bad.any():
            i = tuple(np.argwhere(bad)[0])
            raise Fail("%s%s = %r after %s, expected %r" % (what, list(i), float(got[i]), self.word, float(want[i])))


EARLY = None
INIT = INITCMP = None   # random initialisation (c26)


def history(run, layer, ins, params, fn, word, newdata, ygrad, extra=None, frozen=(), xmut=()):
    """Play a word over F (forward), B (backward), X (new input data), Z (clear parameter and
    input gradients), W (new parameter values).  ins/params: dicts name -> (moments, double
    data).  fn(dict of torch tensors) -> list of torch outputs of layer.activations_output."""
    import torch
    env = run.env
    val, acc = {}, {}
    for n, (m, d) in list(ins.items()) + list(params.items()):
        val[n] = np.asarray(d, dtype=float)
        if getattr(m, "grad", None) is not None:
            acc[n] = env.get(m.grad).astype(float)
    allm = dict((n, m) for n, (m, d) in list(ins.items()) + list(params.items()))
    outs = layer.activations_output
    t = 0
    tor, res = None, None
    rnd = set()         # parameters whose present value is a random initialisation
    k = {"histories": 1}
    for a in word:
        t += 1
        if a == "X":
            for n in ins:
                val[n] = newdata(n, val[n].shape, t)
                run.set(allm[n].value if hasattr(allm[n], "value") else allm[n], val[n])
        elif a == "W":
            for n in params:
                val[n] = newdata(n, val[n].shape, t)
                rnd.discard(n)
                run.set(allm[n].value, val[n])
        elif a == "I":
            layer.init_randn_async()
            if run.every:
                env.wait()
            byid = {id(m.value): n for n, m in allm.items() if hasattr(m, "value")}
            if len({id(p) for p in layer.parameters}) != len(layer.parameters) or len(layer.parameters) != len(params):
                raise Fail("layer lists %d parameters, it has %d" % (len(layer.parameters), len(params)))
            for p in layer.parameters:
                n = byid.get(id(p.value))
                if n is None or n not in params:
                    raise Fail("layer lists a parameter that it does not have")
                val[n] = INIT(run.dt, tuple(p.value.shape))
                rnd.add(n)
        elif a == "Z":
            own = hasattr(layer, "clear_gradients")
            if own:
                # clears its inner gradients as well
                layer.clear_gradients()
                layer.cleared = True
            for n, m in allm.items():
                if getattr(m, "grad", None) is not None and m.grad_required:
                    if not own:
                        env.nt.clear_async(m.grad)
                    acc[n] = np.zeros_like(acc[n])
        elif a == "F":
            tor = {}
            for n, v in val.items():
                tn = torch.tensor(v, dtype=torch.float64)
                if getattr(allm[n], "grad", None) is not None and allm[n].grad_required:
                    tn.requires_grad_(True)
                tor[n] = tn
            res = fn(tor)
            if run.every:
                blocking(run, layer, "forward")
            else:
                layer.forward_async()
            k["forwards"] = k.get("forwards", 0) + 1
            if run.every:
                for i, (o, r) in enumerate(zip(outs, res)):
                    run.cmp(o.value, r.detach().numpy(), "output %d" % i)
        elif a == "B":
            gs = []
            for i, o in enumerate(outs):
                g = ygrad(i, tuple(o.value.shape), t)
                run.set(o.grad, g)
                gs.append(torch.tensor(g, dtype=torch.float64))
            req = [n for n in tor if tor[n].requires_grad]
            if req:
                dg = torch.autograd.grad(res, [tor[n] for n in req], gs, retain_graph=True, allow_unused=True)
                for n, g in zip(req, dg):
                    if g is not None:
                        acc[n] = acc[n] + g.numpy()
            if run.every:
                blocking(run, layer, "backward")
            else:
                layer.backward_async()
            k["backwards"] = k.get("backwards", 0) + 1
    if EARLY is not None:
        # the layer is released while its tasks are pending: what it does not own must come out right
        EARLY(layer)
        for n, (m, d) in ins.items():
            if getattr(m, "grad", None) is not None and "I" not in run.rel:
                run.cmp(m.grad, acc[n], "gradient of %s" % n)
        return k
    env.wait()
    if env.pending():
        raise Fail("tasks pending after waiting for all")
    if res is not None:
        for i, (o, r) in enumerate(zip(outs, res)):
            run.cmp(o.value, r.detach().numpy(), "output %d" % i)
    for n, m in allm.items():
        if getattr(m, "grad", None) is not None:
            run.cmp(m.grad, acc[n], "gradient of %s" % n if m.grad_required else "not required gradient of %s" % n)
        v = m.value if hasattr(m, "value") else m
        got = env.get(v)
        if n in rnd:
            INITCMP(run.dt, got, val[n], "parameter %s" % n)
        elif n not in xmut and not np.array_equal(got.astype(float), np.asarray(val[n], dtype=got.dtype).astype(float)):
            raise Fail("value of %s was changed by %s" % (n, word))
    return k


def blocking(run, layer, what):
    getattr(layer, what)()
    if run.env.pending():
        raise Fail("blocking %s returned with unfinished tasks" % what)


def release(layer):
    for o in layer.activations_output:
        o.unregister()
    layer.unregister()


def guarded(fn):
    """Failures of a case carry the case."""
    def run(env, case):
        try:
            return fn(env, case)
        except Fail as e:
            raise Fail("%s (case %s)" % (e, case))
        except Exception as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)
            at = "%s:%d" % (tb[-1].filename.split("/")[-1], tb[-1].lineno)
            raise Fail("raised %s: %s at %s (case %s)" % (type(e).__name__, e, at, case))
    return run
