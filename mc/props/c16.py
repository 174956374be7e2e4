"""C16: dense layers over histories of forward and backward passes, every tiling, every
subset of required gradients, against automatic differentiation in double precision."""
import itertools
import numpy as np
from h import Fail
import nets
from opcheck import StandIns
from nets import Run, idata, rdata, tilings, guarded, history, release

FULL_PACKAGE = True
REAL_STRIDE = 61
TIER = "quick"
ASSUMPTIONS = ["CPU codelets only; TF32 products, half precision products and conversions are explored with their task bodies replaced by plain loops",
               "the upstream gradient tensor may be overwritten by a backward pass (it is rewritten before each)"]
WORDS = ["FB", "FBXFB", "FBB", "FXFB", "FBWFBZFB", "FFB"]


def setup(env, tier):
    global TIER, L, Add
    TIER = tier
    import torch
    torch.set_num_threads(1)
    import nntile.layer as L_
    L = L_
    from nntile.layer.add import Add as Add_
    Add = Add_


def subsets(names):
    return [[n for n, b in zip(names, bits) if b] for bits in itertools.product((1, 0), repeat=len(names))]


def linear(tier):
    q = tier == "quick"
    shapes = [(3,), (3, 2), (2, 3), (3, 2, 2), (2, 1, 3)] if q else [(3,), (1,), (3, 2), (2, 3), (5, 3), (3, 2, 2), (2, 1, 3), (2, 2, 2, 3)]
    for xs in shapes:
        for nd in range(1, len(xs) + 1):
            for side in "LR":
                for tr in (0, 1):
                    for add, bias in (((3,), 1), ((3,), 0), ((2, 3), 0), ((1,), 1)):
                        for redux in (0, 1):
                            for xb in tilings(xs, 2 if q else 3):
                                for ab in tilings(add, 2):
                                    yield dict(l="linear", xs=xs, xb=xb, nd=nd, side=side, tr=tr, add=add, ab=ab, bias=bias, redux=redux,
                                               roles=["x", "w", "b"] if bias else ["x", "w"])


def others(tier):
    q = tier == "quick"
    for xs in ((), (5,), (3, 2), (2, 3, 3)):
        for xb in tilings(xs, 3):
            yield dict(l="conv", xs=xs, xb=xb, fast=2, roles=["x"])
    for f in ("relu", "gelu", "gelutanh"):
        for xs in ((), (5,), (3, 2), (2, 3, 3)):
            for xb in tilings(xs, 3):
                yield dict(l="act", f=f, xs=xs, xb=xb, roles=["x"])
    for xs in ((), (5,), (3, 2), (2, 3, 3)):
        for xb in tilings(xs, 3):
            yield dict(l="add", xs=xs, xb=xb, roles=["x", "y"])
            yield dict(l="addsame", xs=xs, xb=xb, roles=["x"])
    for xs in ((4,), (3, 2), (2, 3), (3, 2, 3), (2, 2, 2, 3)):
        for ax in range(len(xs)):
            for xb in tilings(xs, 3):
                for redux in (0, 1):
                    yield dict(l="addslice", xs=xs, xb=xb, ax=ax, redux=redux, roles=["x", "y"])
    for xs in ((4,), (3, 2), (2, 3), (2, 2, 2)):
        for ax in range(len(xs) + 1):
            for xb in tilings(xs, 3):
                for emb, yt, wt in ((1, 1, 1), (4, 4, 4), (4, 4, 2), (4, 2, 2), (4, 2, 1), (5, 2, 2), (5, 2, 1), (5, 4, 2), (6, 4, 2)):
                    yield dict(l="embedding", xs=xs, xb=xb, ax=ax, emb=emb, yt=yt, wt=wt, voc=5, roles=["w"])
    for xs in ((3, 2, 2), (1, 2, 3), (4, 3, 1), (2, 3, 2)):
        for xb in tilings(xs, 3):
            yield dict(l="gap", xs=xs, xb=xb, roles=["x"])
    for xs in ((2, 3), (3, 2, 2), (1, 2, 3)) if q else ((2, 3), (3, 2, 2), (1, 2, 3), (2, 2, 2, 2)):
        for xb in tilings(xs, 3):
            for side in "LR":
                yield dict(l="mixermlp", xs=xs, xb=xb, side=side, roles=["x", "w1", "w2"])


def large(tier):
    """Sizes beyond the exhaustive spaces, each kept."""
    for xs, xb, nd, add, ab in (((17, 5), (9, 3), 1, (33,), (16,)), ((33, 2), (33, 1), 1, (2,), (2,)), ((2, 2, 2, 3), (1, 2, 1, 2), 3, (3,), (2,)),
                                ((2, 2, 3, 2), (2, 1, 2, 2), 2, (2, 3), (1, 2)), ((2, 3, 2, 2, 2), (2, 2, 1, 2, 1), 3, (2, 2), (2, 1)),
                                ((2, 2, 2), (1, 1, 1), 1, (2, 2, 3), (1, 2, 2)), ((12, 11), (1, 1), 1, (2,), (1,)), ((70, 2), (70, 2), 1, (70,), (70,))):
        for side in "LR":
            for tr in (0, 1):
                for bias in (0, 1) if len(add) == 1 else (0,):
                    yield dict(l="linear", xs=xs, xb=xb, nd=nd, side=side, tr=tr, add=add, ab=ab, bias=bias, redux=tr, roles=["x", "w", "b"] if bias else ["x", "w"])
    for xs, xb in (((300,), (300,)), ((40, 3), (7, 3)), ((2, 3, 2, 2, 2), (1, 2, 2, 2, 1)), ((9, 10, 3), (9, 10, 3))):
        for f in ("relu", "gelu", "gelutanh"):
            yield dict(l="act", f=f, xs=xs, xb=xb, roles=["x"])
        yield dict(l="add", xs=xs, xb=xb, roles=["x", "y"])
        yield dict(l="addsame", xs=xs, xb=xb, roles=["x"])
        for ax in range(len(xs)):
            yield dict(l="addslice", xs=xs, xb=xb, ax=ax, redux=ax % 2, roles=["x", "y"])
        if len(xs) == 3:
            yield dict(l="gap", xs=xs, xb=xb, roles=["x"])
            for side in "LR":
                yield dict(l="mixermlp", xs=xs, xb=xb, side=side, roles=["x", "w1", "w2"])
    for xs, xb in (((70,), (32,)), ((9, 8), (9, 4)), ((2, 3, 2), (1, 3, 2))):
        for ax in range(len(xs) + 1):
            for emb, yt, wt in ((9, 9, 3), (33, 32, 16)):
                yield dict(l="embedding", xs=xs, xb=xb, ax=ax, emb=emb, yt=yt, wt=wt, voc=300, roles=["w"])
    yield dict(l="gap", xs=(40, 2, 3), xb=(40, 1, 2), roles=["x"])


def cases(tier):
    q = tier == "quick"
    j = 0
    for c in large(tier):
        for w in WORDS[:3]:
            j += 1
            yield [c, c["roles"], w, ("fp32", "fp64")[j % 2], j % 3, j % 2, 1]
            if c["l"] == "linear" and j % 4 == 0:
                yield [dict(c, fast=1 + j // 4 % 2), c["roles"], w, "fp32", j % 3, j % 2, 1]
    j = nl = 0
    for c in itertools.chain(others(tier), linear(tier)):
        ss = subsets(c["roles"])
        if c["l"] in ("embedding", "conv"):
            ss = ss[:1]
        for si, s in enumerate(ss):
            for wi in range(len(WORDS)):
                j += 1
                if q and (c["l"] in ("linear", "mixermlp") and (j * 7) % (len(ss) * len(WORDS)) > 11 or c["l"] == "embedding" and (j * 5) % 6 > 2
                          or c["l"] == "addslice" and j % 3):
                    continue
                if c["l"] == "linear":
                    nl += 1
                    if nl % (12 if q else 6) == 0:
                        # TF32 products and half precision
                        yield [dict(c, fast=1 + nl // 12 % 2), s, WORDS[wi], "fp32", j % 5, (j // 5) % 2, (j // 2) % 2]
                if c["l"] == "conv":
                    # the gradient through a conversion replaces the former one: start from zero
                    yield [c, s, WORDS[wi].replace("B", "ZB"), "fp32", j % 5, (j // 5) % 2, (j // 2) % 2]
                    continue
                for dt in ("fp32", "fp64") if not q else (("fp32", "fp64")[(j // 3) % 2],):
                    yield [c, s, WORDS[wi], dt, j % 5, (j // 5) % 2, (j // 2) % 2]


@guarded
def run(env, case):
    if case[0].get("fast"):
        with StandIns(env) as ok:
            return play(env, case) if ok else {}
    return play(env, case)


def play(env, case):
    import torch
    c, req, word, dt, mode, every, nonone = case
    r = Run(env, dt, mode, every, word, case)
    k = c["l"]
    xs, xb = tuple(c["xs"]), tuple(c["xb"])
    data = idata if k in ("linear", "conv", "add", "addsame", "addslice", "embedding", "gap") else rdata

    def mom(name, shape, bt, seed, need=True):
        rq = name in req
        d = data(shape, seed)
        # a gradient that is not required may be absent or present (and must then stay untouched)
        return r.moments(shape, bt, d, grad="acc" if rq or (need and nonone) else None, required=rq, seed=seed + 50), d

    def prep(m, name, seed, scale=1.0):
        """Parameter of a layer: give value, gradient, requirement."""
        d = data(tuple(m.value.shape), seed)
        env.put(m.value, d)
        env.put(m.grad, idata(tuple(m.value.shape), seed + 9))
        m.grad_required = name in req
        return m, d

    ins, params = {}, {}
    if k == "linear":
        ins["x"] = mom("x", xs, xb, 1)
        nd = c["nd"]
        add = list(c["add"])
        layer, _ = L.Linear.generate_simple(ins["x"][0], c["side"], env.trans if c["tr"] else env.notrans, nd, add, list(c["ab"]), 0,
                                            bias=bool(c["bias"]), redux=bool(c["redux"]), fp32_fast_tf32=c.get("fast") == 1, fp32_convert_fp16=c.get("fast") == 2)
        params["w"] = prep(layer.w, "w", 2)
        if c["bias"]:
            params["b"] = prep(layer.b, "b", 3)
        n = len(xs)

        def fn(t):
            X, W = t["x"], t["w"]
            if c["side"] == "L":
                y = torch.tensordot(X, W, dims=(list(range(n - nd, n)) if not c["tr"] else list(range(nd)), list(range(nd))))
                if c["bias"]:
                    y = y + t["b"]
            else:
                na = len(add)
                y = torch.tensordot(W, X, dims=(list(range(na, na + nd)), list(range(nd)) if not c["tr"] else list(range(n - nd, n))))
                if c["bias"]:
                    y = y + t["b"].reshape((-1,) + (1,) * (y.ndim - 1))
            return [y]
    elif k == "act":
        ins["x"] = mom("x", xs, xb, 1)
        layer, _ = L.Act.generate_simple(ins["x"][0], c["f"], 0)

        def fn(t):
            x = t["x"]
            if c["f"] == "relu":
                # the derivative at zero is taken as zero
                return [torch.relu(x)]
            return [torch.nn.functional.gelu(x, approximate="none" if c["f"] == "gelu" else "tanh")]
    elif k == "conv":
        # to half precision and back
        ins["x"] = mom("x", xs, xb, 1)
        a, _ = L.FP32_to_FP16.generate_simple(ins["x"][0], 0)
        b, _ = L.FP16_to_FP32.generate_simple(a.y, 0)

        class Both(type(a).__mro__[1]):
            def forward_async(self):
                a.forward_async()
                b.forward_async()

            def backward_async(self):
                b.backward_async()
                a.backward_async()
        layer = Both([ins["x"][0]], [b.y], [], [a.y])

        def fn(t):
            return [t["x"] * 1]
    elif k in ("add", "addsame"):
        ins["x"] = mom("x", xs, xb, 1)
        if k == "add":
            ins["y"] = mom("y", xs, xb, 2)
            layer, _ = Add.generate_simple(ins["x"][0], ins["y"][0], 0)
        else:
            layer, _ = Add.generate_simple(ins["x"][0], ins["x"][0], 0)

        def fn(t):
            return [t["x"] + t.get("y", t["x"])]
    elif k == "addslice":
        ax = c["ax"]
        ys, yb = xs[:ax] + xs[ax + 1:], xb[:ax] + xb[ax + 1:]
        ins["x"] = mom("x", xs, xb, 1)
        ins["y"] = mom("y", ys, yb, 2)
        layer, _ = L.AddSlice.generate_simple(ins["x"][0], ins["y"][0], ax, 0, redux=bool(c["redux"]))

        def fn(t):
            return [t["x"] + t["y"].unsqueeze(ax)]
    elif k == "embedding":
        d = np.abs(idata(xs, 4, 3)) % c["voc"]
        x = env.T("int64", xs, xb, d)
        ins["x"] = (x, d)
        layer, _ = L.Embedding.generate_simple(x, env.cls[dt], c["ax"], c["voc"], c["emb"], c["yt"], c["wt"], 0)
        params["w"] = prep(layer.w, "w", 2)

        def fn(t):
            return [torch.movedim(t["w"].T[t["x"].long()], -1, c["ax"])]
    elif k == "gap":
        ins["x"] = mom("x", xs, xb, 1)
        layer, _ = L.GAP.generate_simple(ins["x"][0], 0)

        def fn(t):
            return [t["x"].mean(0).T]
    elif k == "mixermlp":
        ins["x"] = mom("x", xs, xb, 1)
        layer, _ = L.MixerMlp.generate_simple(ins["x"][0], c["side"], 0)
        params["w1"] = prep(layer.linear_1.w, "w1", 2)
        params["w2"] = prep(layer.linear_2.w, "w2", 3)

        def fn(t):
            if c["side"] == "L":
                f = lambda a, w: torch.tensordot(a, w, dims=1)
            else:
                f = lambda a, w: torch.tensordot(w, a, dims=1)
            return [f(torch.nn.functional.gelu(f(t["x"], t["w1"])), t["w2"])]

    def newdata(n, shape, t):
        if n == "x" and k == "embedding":
            return np.abs(idata(shape, t + 4, 3)) % c["voc"]
        return data(shape, 10 * t + len(n))

    def hist(w):
        return history(r, layer, ins, params, fn, w, newdata, lambda i, s, t: idata(s, 100 + t))
    if k == "mixermlp":
        # inner gradients are cleared before each backward pass, as a model does,
        # unless the layer has just done that itself
        orig = layer.backward_async

        def bwd():
            for o in (layer.linear_1.y, layer.act.y) if not layer.__dict__.pop("cleared", False) else ():
                env.nt.clear_async(o.grad)
            orig()
        layer.backward_async = bwd
    out = hist(word)
    release(layer)
    env.finish()
    out["layer_" + k] = 1
    return out
