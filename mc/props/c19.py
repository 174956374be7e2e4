"""C19: models and training pipelines.  Compositions of layers (every sequence of layers up
to a depth), the provided models, import from PyTorch, and training histories compared with a
step by step reference in double precision."""
import contextlib
import io
import itertools
import os
import sys
import numpy as np
from h import Fail
import nets
from opcheck import StandIns
from nets import Run, idata, rdata, tilings, guarded, NPD
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import c10

FULL_PACKAGE = True
REAL_STRIDE = 61
TIER = "quick"
ASSUMPTIONS = ["CPU codelets only; with fp32_fast_tf32 the task bodies are stand-ins; GPT2 and imported models exist in fp32 only",
               "a model is trained through its own clearing functions (activation gradients are cleared before every backward pass)",
               "the Frobenius loss reports the value of the last microbatch of a batch, cross entropy the sum over the batch"]
WORDS = ["FB", "FBXFB", "FBZXFB", "FBWFGB", "FXFB"]
HW = {}


def setup(env, tier):
    global TIER, L, M, Add, CE, Frob, Pipeline, OPT, torch, TM, GPT2, GPT2MLP, GCfg, TMixer
    TIER = tier
    import torch as torch_
    torch = torch_
    torch.set_num_threads(1)
    import nntile.layer as L_
    import nntile.model as M_
    import nntile.optimizer as O_
    from nntile.layer.add import Add as Add_
    from nntile.loss import CrossEntropy, Frob as F_
    from nntile.pipeline import Pipeline as P_
    from nntile.tensor import TensorMoments
    from nntile.model.gpt2 import GPT2Model, GPT2Config, GPT2MLP as GPT2MLP_
    from nntile.torch_models.mlp_mixer import MlpMixer as TM_
    L, M, Add, CE, Frob, Pipeline, OPT, TM, GPT2, GPT2MLP, GCfg, TMixer = \
        L_, M_, Add_, CrossEntropy, F_, P_, O_, TensorMoments, GPT2Model, GPT2MLP_, GPT2Config, TM_


# ------------------------------------------------------------------ functional reference

def lin(x, w, b, side, nd):
    n = x.ndim
    if side == "L":
        y = torch.tensordot(x, w, dims=(list(range(n - nd, n)), list(range(nd))))
        return y if b is None else y + b
    na = w.ndim - nd
    y = torch.tensordot(w, x, dims=(list(range(na, na + nd)), list(range(nd))))
    return y if b is None else y + b.reshape((-1,) + (1,) * (y.ndim - 1))


def lnorm(x, g, b, ax, eps):
    m = x.mean(ax, keepdim=True)
    v = ((x - m) ** 2).mean(ax, keepdim=True)
    sh = [-1 if i == ax else 1 for i in range(x.ndim)]
    return (x - m) / torch.sqrt(v + eps) * g.reshape(sh) + b.reshape(sh)


def attn(xq, xk, xv, p, nh, mask):
    wq, wk, wv, w, bq, bk, bv, b = p
    ne = xq.shape[0]
    Q, K, V = (torch.einsum("hje,esb->jsbh", a, v) + c[:, None, None, :] for a, c, v in ((wq, bq, xq), (wk, bk, xk), (wv, bv, xv)))
    a = torch.einsum("jkbh,jmbh->kmbh", K, Q) / (ne // nh) ** 0.5
    if mask is not None:
        a = a.masked_fill(~torch.tensor(mask)[:, :, None, None], float("-inf"))
    a = torch.softmax(a, 0)
    return torch.einsum("ehj,jsbh->esb", w, torch.einsum("jkbh,kmbh->jmbh", V, a)) + b[:, None, None]


def act(x, f):
    if f == "relu":
        return torch.relu(x)
    return torch.nn.functional.gelu(x, approximate="none" if f == "gelu" else "tanh")


def ce_ref(out, lab, scale):
    c = out.movedim(0, -1).reshape(-1, out.shape[0])
    return scale * torch.nn.functional.cross_entropy(c, torch.tensor(lab.reshape(-1)).long(), reduction="sum")


# ------------------------------------------------------------------ models under test

class Model:
    """A model object, names of its parameters in order, and a function giving all
    activations' last value from (inputs, parameters)."""

    def __init__(self, obj, fn, ins):
        self.obj, self.fn, self.ins = obj, fn, ins


ALPHA = ["L3", "R2", "relu", "gelu", "skip", "self", "ln", "slice", "lnl"]


def build_seq(env, r, c, dt):
    """A hand made composition: every layer works on the last activation."""
    xs, xb = tuple(c["xs"]), tuple(c["xb"])
    x = r.moments(xs, xb, rdata(xs, 1), grad="acc" if c["xg"] else None, required=bool(c["xg"]))
    ins = {0: rdata(xs, 1)}
    acts, layers, steps = [x], [], []
    model = None
    if c["append"]:
        model = M.base_model.BaseModel(acts, layers)

    def push(layer):
        layers_new.append(layer)
    for a in c["seq"]:
        cur = (model.activations if model else acts)
        last = cur[-1]
        i = len(cur) - 1
        n = len(last.value.shape)
        if a[0] in "LRC" and a[1:].isdigit():
            # C gives classes, in one tile
            k = int(a[1:])
            t = k if a[0] == "C" else 2 if k > 2 else 1
            side = "L" if a[0] == "L" else "R"
            bias = c["bias"]
            layer, _ = L.Linear.generate_simple(last, side, env.notrans, 1, [k], [t], 0, bias=bool(bias), redux=bool(c["redux"]))
            np_ = 2 if bias else 1
            steps.append(lambda A, P, i=i, s=side: lin(A[i], P[0], P[1] if len(P) > 1 else None, s, 1))
        elif a in ("relu", "gelu"):
            layer, _ = L.Act.generate_simple(last, a, 0)
            np_ = 0
            steps.append(lambda A, P, i=i, a=a: act(A[i], a))
        elif a == "self":
            layer, _ = Add.generate_simple(last, last, 0)
            np_ = 0
            steps.append(lambda A, P, i=i: A[i] + A[i])
        elif a == "skip":
            js = [j for j in range(i) if list(cur[j].value.shape) == list(last.value.shape)
                  and list(cur[j].value.basetile_shape) == list(last.value.basetile_shape)]
            j = js[-1] if js else i
            layer, _ = Add.generate_simple(cur[j], last, 0)
            np_ = 0
            steps.append(lambda A, P, i=i, j=j: A[j] + A[i])
        elif a in ("ln", "lnl"):
            ax = 0 if a == "ln" else n - 1
            layer, _ = L.LayerNorm.generate_simple(last, ax, 0.25, 0, redux=bool(c["redux"]))
            np_ = 2
            steps.append(lambda A, P, i=i, ax=ax: lnorm(A[i], P[0], P[1], ax, 0.25))
        elif a == "slice":
            s = tuple(last.value.shape)[:-1]
            b = tuple(last.value.basetile_shape)[:-1]
            d = rdata(s, 77)
            y = r.moments(s, b, d)
            r.fixed.append((y, d))
            layer, _ = L.AddSlice.generate_simple(last, y, n - 1, 0, redux=bool(c["redux"]))
            np_ = 0
            steps.append(lambda A, P, i=i, d=d: A[i] + torch.tensor(d).unsqueeze(-1))
        layer.np_ = np_
        if model:
            model.append(layer)
        else:
            acts.extend(layer.activations_output)
            layers.append(layer)
    if model is None:
        model = M.base_model.BaseModel(acts, layers)
    nps = [l.np_ for l in model.layers]
    if len(model.parameters) != sum(nps) or len(model.activations) != 1 + len(nps):
        raise Fail("model has %d parameters and %d activations, expected %d and %d" % (len(model.parameters), len(model.activations), sum(nps), 1 + len(nps)))

    def fn(inp, P):
        A, k = [inp[0]], 0
        for s, np_ in zip(steps, nps):
            A.append(s(A, P[k:k + np_]))
            k += np_
        return A[-1]
    return Model(model, fn, ins)


def build_deep(env, r, c, dt):
    xs, xb = tuple(c["xs"]), tuple(c["xb"])
    x = r.moments(xs, xb, rdata(xs, 1), grad="acc" if c["xg"] else None, required=bool(c["xg"]))
    side, nd, n = c["side"], c["nd"], c["nlayers"]
    if c["m"] == "deeprelu":
        model = M.DeepReLU(x, side, nd, c["hid"][0], c["hid"][1], n, c["ncls"], 0, bias=bool(c["bias"]), fp32_fast_tf32=bool(c.get("fast")))
        bias = c["bias"]
    else:
        model = M.DeepLinear(x, side, nd, c["hid"][0], c["hid"][1], n, 0)
        bias = 1
    if not isinstance(model.next_tag, int):
        raise Fail("next_tag is not a number")
    npar = 2 if len(model.layers[0].parameters) == 2 else 1
    if c["m"] == "deeprelu" and npar != 1 + bias:
        raise Fail("linear layers have %d parameters" % npar)

    def fn(inp, P):
        a = inp[0]
        for i in range(n):
            w = P[i * npar]
            b = P[i * npar + 1] if npar == 2 else None
            a = lin(a, w, b, side, nd if i == 0 else 1)
            if c["m"] == "deeprelu" and i < n - 1:
                a = torch.relu(a)
        return a
    want = n * 2 - 1 if c["m"] == "deeprelu" else n
    if len(model.layers) != want or len(model.parameters) != n * npar or len(model.activations) != want + 1:
        raise Fail("model has a wrong number of layers, parameters or activations")
    return Model(model, fn, {0: rdata(xs, 1)})


def build_mixer(env, r, c, dt):
    xs = tuple(c["xs"])
    x = r.moments(xs, tuple(c["xb"]), rdata(xs, 1), grad="acc" if c["xg"] else None, required=bool(c["xg"]))
    model = M.MlpMixer(x, c["emb"], c["nlayers"], c["ncls"], 0)
    return Model(model, lambda inp, P: mixer_fn(inp[0], P, c["nlayers"]), {0: rdata(xs, 1)})


def mixer_fn(x, P, n):
    a = torch.tensordot(x, P[0], dims=1)
    k = 1
    g = torch.nn.functional.gelu
    for _ in range(n):
        g1, b1, u1, u2, g2, b2, v1, v2 = P[k:k + 8]
        k += 8
        y = torch.tensordot(u2, g(torch.tensordot(u1, lnorm(a, g1, b1, 2, 1e-5), dims=1)), dims=1) + a
        z = lnorm(y, g2, b2, 2, 1e-5)
        a = torch.tensordot(g(torch.tensordot(z, v1, dims=1)), v2, dims=1) + y
    return torch.tensordot(P[k], a.mean(0).T, dims=1)


def build_gpt2(env, r, c, dt):
    ns, nb = c["seq"], c["batch"]
    ids = ids_data(c, 1)
    ids_t = env.T("int64", (ns, nb), (c["ts"], c["tb"]), ids)
    pos = env.T("int64", (ns,), (c["ts"],), np.arange(ns))
    cfg = GCfg(c["voc"], c["vtile"], c["emb"], c["etile"], c["maxpos"], c["inner"], c["itile"], c.get("eps", 1e-5), c["nlayers"], c["nh"], c["htile"],
               c["f"], bool(c["flash"]), bool(c["redux"]))
    model = GPT2(TM(ids_t, None, False), TM(pos, None, False), cfg, 0, fp32_fast_tf32=bool(c.get("fast")))
    return Model(model, lambda inp, P: gpt2_fn(inp[0], P, c), {0: ids})


def ids_data(c, seed):
    return np.array([(i * 7 + seed * 3 + i * i // 3) % c["voc"] for i in range(c["seq"] * c["batch"])], dtype=np.int64).reshape(c["seq"], c["batch"])


def gpt2_fn(ids, P, c):
    wte, wpe = P[0], P[1]
    x = wte[:, ids.long()] + wpe[:, torch.arange(c["seq"])][:, :, None]
    mask = np.triu(np.ones((c["seq"], c["seq"]), dtype=bool))
    k = 2
    for _ in range(c["nlayers"]):
        y = lnorm(x, P[k], P[k + 1], 0, c.get("eps", 1e-5))
        p = P[k + 2:k + 10]
        # the layer lists its parameters as weights with their biases in its own order
        x = x + attn(y, y, y, attn_order(p), c["nh"], mask)
        y = lnorm(x, P[k + 10], P[k + 11], 0, c.get("eps", 1e-5))
        x = x + lin(act(lin(y, P[k + 12], P[k + 13], "R", 1), c["f"]), P[k + 14], P[k + 15], "R", 1)
        k += 16
    return lin(lnorm(x, P[k], P[k + 1], 0, c.get("eps", 1e-5)), P[k + 2], None, "R", 1)


def attn_order(p):
    """By shape: weights have 3 dimensions (the first three input projections, the last the
    output one), biases 2 or 1 dimensions; both in the order query, key, value, output."""
    w = [t for t in p if t.ndim == 3]
    b = [t for t in p if t.ndim < 3]
    return w + b


def build_gpt2mlp(env, r, c, dt):
    xs, xb = tuple(c["xs"]), tuple(c["xb"])
    x = r.moments(xs, xb, rdata(xs, 1), grad="acc" if c["xg"] else None, required=bool(c["xg"]))
    model = GPT2MLP(x, mlp_cfg(c), 0, fp32_fast_tf32=bool(c.get("fast")))
    f = lambda inp, P: lin(act(lin(inp[0], P[0], P[1], "R", 1), c["f"]), P[2], P[3], "R", 1)
    return Model(model, f, {0: rdata(xs, 1)})


def mlp_cfg(c):
    return GCfg(5, 2, c["xs"][0], c["xb"][0], 4, c["inner"][0], c["inner"][1], 1e-5, 1, 1, 1, c["f"], False, bool(c["redux"]))


BUILD = {"gpt2mlp": build_gpt2mlp, "seq": build_seq, "deeprelu": build_deep, "deeplinear": build_deep, "mixer": build_mixer, "gpt2": build_gpt2}


# ------------------------------------------------------------------ cases

def seqs(tier):
    q = tier == "quick"
    for n in range(1, 4 if q else 5):
        for s in itertools.product(ALPHA, repeat=n):
            yield s


def gpt2_configs(tier):
    q = tier == "quick"
    base = dict(m="gpt2", voc=5, vtile=2, emb=4, etile=2, maxpos=4, inner=3, itile=2, nlayers=1, nh=2, htile=1, f="gelutanh", flash=0, redux=0,
                seq=2, batch=2, ts=1, tb=1)
    n = 0
    for flash in (0, 1):
        for redux in (0, 1):
            for ts, tb in ((1, 1), (2, 1), (1, 2), (2, 2)):
                for et, vt in ((4, 4), (2, 2), (4, 2), (2, 1)):
                    for it in (3, 2):
                        for ht in (1, 2):
                            for nl in (1, 2):
                                for f in ("gelutanh", "relu"):
                                    n += 1
                                    yield dict(base, flash=flash, redux=redux, ts=ts, tb=tb, etile=et, vtile=vt, itile=it, htile=ht, nlayers=nl, f=f,
                                               eps=(1e-5, 0.125, 0.01)[n % 3])


def models(tier):
    q = tier == "quick"
    j = 0
    for s in seqs(tier):
        for xs, xb in (((3, 2), (2, 1)), ((2, 3, 2), (1, 2, 2))):
            j += 1
            if len(s) > (2 if q else 3) and j % 2:
                continue
            yield dict(m="seq", seq=list(s), xs=xs, xb=xb, xg=j % 3 > 0, append=(j // 2) % 2, bias=(j // 4) % 2, redux=(j // 3) % 2)
    for m in ("deeprelu", "deeplinear"):
        for xs in ((3, 2), (2, 3), (2, 2, 3)):
            for side in "LR":
                # the last layer of DeepLinear has a bias, which exists for one output axis only
                for nd in range(1, len(xs) if m == "deeprelu" else 2):
                    for xb in tilings(xs, 3):
                        for hid in ((4, 2), (3, 2), (2, 2)):
                            for n in (2, 3):
                                for bias in (0, 1) if m == "deeprelu" else (1,):
                                    for xg in (0, 1):
                                        yield dict(m=m, xs=xs, xb=xb, side=side, nd=nd, hid=hid, nlayers=n, ncls=3, bias=bias, xg=xg)
    for xs in ((2, 3, 2), (3, 1, 4), (1, 2, 3), (2, 2, 2)):
        for tb in range(1, xs[1] + 1):
            for emb in (2, 3):
                for n in (1, 2):
                    for ncls in (1, 3):
                        for xg in (0, 1):
                            yield dict(m="mixer", xs=xs, xb=(xs[0], tb, xs[2]), emb=emb, nlayers=n, ncls=ncls, xg=xg)
    for c in mlps(tier):
        yield c
    for c in gpt2_configs(tier):
        yield c


def large(tier):
    """Models beyond the exhaustive spaces, each kept."""
    for m in ("deeprelu", "deeplinear"):
        for side in "LR":
            for xs, xb, hid, n in (((3, 2), (2, 1), (4, 2), 6), ((9, 7), (4, 5), (8, 3), 4), ((2, 17), (1, 17), (17, 17), 3)):
                yield dict(m=m, xs=xs, xb=xb, side=side, nd=1, hid=hid, nlayers=n, ncls=7, bias=1, xg=1)
    for xs, tb, emb, n, ncls in (((4, 5, 6), 2, 5, 4, 7), ((9, 2, 3), 1, 6, 3, 2)):
        yield dict(m="mixer", xs=xs, xb=(xs[0], tb, xs[2]), emb=emb, nlayers=n, ncls=ncls, xg=1)
    for xs, xb in (((17, 5), (8, 5)), ((4, 3, 5), (4, 2, 3))):
        yield dict(m="gpt2mlp", xs=xs, xb=xb, inner=(20, 6), f="gelutanh", redux=0, xg=1)
    base = dict(m="gpt2", voc=40, vtile=2, emb=6, etile=4, maxpos=9, inner=11, itile=4, nlayers=3, nh=3, htile=1, f="gelutanh", flash=0, redux=0,
                seq=4, batch=3, ts=2, tb=1, eps=0.0625)
    yield base
    yield dict(base, flash=1, htile=3, redux=1)
    yield dict(base, nlayers=5, nh=6, htile=2, seq=8, ts=4, batch=1)
    yield dict(base, nlayers=4, nh=2, htile=2, seq=3, ts=3, batch=5, tb=5, flash=1, f="relu", emb=8, etile=8, vtile=4)


def mlps(tier):
    """The MLP block of GPT-2 as a model of its own."""
    for xs in ((3, 2), (2, 3), (3, 2, 2)):
        for xb in tilings(xs, 3):
            for inner in ((4, 2), (3, 2), (3, 3), (2, 1)):
                for f in ("gelutanh", "relu", "gelu"):
                    for redux in (0, 1):
                        for xg in (0, 1):
                            yield dict(m="gpt2mlp", xs=xs, xb=xb, inner=inner, f=f, redux=redux, xg=xg)


OPTS = [["SGD", dict(lr=0.125, momentum=0.0, nesterov=False, damping=0.0, weight_decay=0.0)],
        ["SGD", dict(lr=0.0625, momentum=0.5, nesterov=False, damping=0.25, weight_decay=0.125)],
        ["SGD", dict(lr=0.0625, momentum=0.5, nesterov=True, damping=0.0, weight_decay=0.0)],
        ["Adam", dict(lr=0.0625, beta1=0.5, beta2=0.75, eps=0.125, weight_decay=0.0, amsgrad=True)],
        ["Adam", dict(lr=0.0625, beta1=0.5, beta2=0.75, eps=0.125, weight_decay=0.125, amsgrad=False)],
        ["FusedAdam", dict(lr=0.0625, beta1=0.5, beta2=0.75, eps=0.125, weight_decay=0.125)],
        ["FusedAdamW", dict(lr=0.0625, beta1=0.5, beta2=0.75, eps=0.125, weight_decay=0.125)],
        ["Empty", {}]]


def trainings(tier):
    """(model, loss, optimizer, epochs, batches as a list of microbatch counts)"""
    q = tier == "quick"
    hist = [(1, [1]), (1, [2]), (2, [1]), (1, [1, 1]), (2, [2, 1]), (3, [1]), (1, [3, 2]), (0, [1])]
    if not q:
        hist += [(4, [1, 2]), (2, [3, 3, 1]), (5, [1])]
    ms = []
    for xb in ((3, 2), (2, 1), (1, 2)):
        for hid in ((4, 2), (2, 2)):
            for n in (2, 3):
                for bias in (0, 1):
                    for xg in (0, 1):
                        ms.append((dict(m="deeprelu", xs=(3, 2), xb=xb, side="R", nd=1, hid=hid, nlayers=n, ncls=3, bias=bias, xg=xg), "ce"))
                        ms.append((dict(m="deeprelu", xs=(3, 2), xb=xb, side="L" if bias else "R", nd=1, hid=hid, nlayers=n, ncls=3, bias=bias, xg=xg), "frob"))
                    ms.append((dict(m="deeplinear", xs=(3, 2), xb=xb, side="R" if bias else "L", nd=1, hid=hid, nlayers=n, xg=bias), "frob"))
    for s in (["C3", "relu", "ln", "skip"], ["ln", "C2", "self"], ["gelu", "C2", "skip"], ["slice", "R2"]):
        for redux in (0, 1):
            ms.append((dict(m="seq", seq=s, xs=(3, 2), xb=(2, 1), xg=1, append=redux, bias=1, redux=redux), "ce" if s[-1] != "R2" else "frob"))
    for emb in (2, 3):
        ms.append((dict(m="mixer", xs=(2, 3, 2), xb=(2, 2, 2), emb=emb, nlayers=1, ncls=3, xg=0), "ce"))
        ms.append((dict(m="mixer", xs=(2, 3, 2), xb=(2, 1, 2), emb=emb, nlayers=1, ncls=2, xg=1), "ce"))
    for i, c in enumerate(gpt2_configs(tier)):
        if i % (17 if q else 5) == 0:
            ms.append((c, "ce"))
    for c, loss in ms:
        for oi in range(len(OPTS)):
            for h in hist:
                yield c, loss, oi, h


def imports(tier):
    for n_in, hid, ncls, n in itertools.product((2, 3), (2, 3), (2, 3), (2, 3)):
        for bias in (0, 1):
            for batch in (1, 2):
                yield dict(k="deeprelu", n_in=n_in, hid=hid, ncls=ncls, n=n, bias=bias, batch=batch)
    for ch, pix, emb, n, ncls in itertools.product((1, 2, 3), (2, 3), (2, 3), (1, 2), (1, 2, 3)):
        for batch in (1, 2):
            yield dict(k="mixer", ch=ch, pix=pix, emb=emb, n=n, ncls=ncls, batch=batch)
    for i, c in enumerate(mlps(tier)):
        if c["f"] != "gelu" and not c["xg"] and len(c["xs"]) == 2:
            yield dict(k="gpt2mlp", c=c)
    for i, c in enumerate(gpt2_configs(tier)):
        yield dict(k="gpt2", c=c)


FAST = ("deeprelu", "gpt2", "gpt2mlp")     # models that can use TF32 products


def cases(tier):
    q = tier == "quick"
    j = nf = 0
    for c in large(tier):
        for w in WORDS[:4]:
            j += 1
            yield ["model", c, w, "fp32" if c["m"] == "gpt2" else ("fp64", "fp32")[j % 4 == 3], j % 3, j % 2]
            if c["m"] in FAST and j % 4 == 0:
                yield ["model", dict(c, fast=1), w, "fp32", j % 3, j % 2]
    lm = [c for c in large(tier) if c["m"] != "gpt2mlp"]
    for i, c in enumerate(lm):
        c = dict(c, ncls=3) if c["m"] != "gpt2" else c
        for oi in range(len(OPTS)):
            for h in ((1, [2, 1]),) if c["m"] == "gpt2" else ((2, [3]), (1, [1, 1])):
                if (i + oi) % 4 == 0:
                    yield ["train", c, "frob" if c["m"] == "deeplinear" or c.get("side") == "L" else "ce", oi, h, "fp32" if c["m"] == "gpt2" else "fp64", 1]
    sm = dict(m="deeprelu", xs=(3, 2), xb=(2, 1), side="R", nd=1, hid=(4, 2), nlayers=2, ncls=3, bias=1, xg=1)
    for oi in range(len(OPTS)):
        for h in ((7, [1]), (1, [6]), (4, [1, 2]), (1, [1, 1, 1, 1, 1]), (12, [1])):
            yield ["train", sm, "ce", oi, h, "fp64", 1]
    j = 0
    for c in models(tier):
        for w in WORDS:
            j += 1
            big = c["m"] == "gpt2"
            if q and ((big and (j * 5) % 37 > 1) or (c["m"] == "gpt2mlp" and (j * 5) % 29 > 1) or (c["m"].startswith("deep") and (j * 5) % 31 > 5) or (c["m"] == "seq" and (j * 3) % 5 > 1)
                      or (c["m"] == "mixer" and (j * 5) % 7 > 2)):
                continue
            yield ["model", c, w, "fp32" if big else ("fp64", "fp32")[j % 4 == 3], j % 5, (j // 5) % 2]
            if c["m"] in FAST:
                nf += 1
                if nf % 8 == 0:
                    yield ["model", dict(c, fast=1), w, "fp32", j % 5, (j // 5) % 2]
    for c, loss, oi, h in trainings(tier):
        j += 1
        big = c["m"] == "gpt2"
        if q and (j * 5) % (31 if big else 13) > 2:
            continue
        yield ["train", c, loss, oi, h, "fp32" if big else ("fp64", "fp32")[j % 3 == 2], j % 5]
    for c in imports(tier):
        j += 1
        if q and c["k"] == "gpt2" and (j * 5) % 11 > 2:
            continue
        yield ["import", c, j % 5]
        if c["k"] in FAST and "c" in c and j % 4 == 0:
            yield ["import", dict(c, c=dict(c["c"], fast=1)), j % 5]


# ------------------------------------------------------------------ running

@guarded
def run(env, case):
    if case[1].get("fast") or case[1].get("c", {}).get("fast"):
        with StandIns(env) as ok:
            return play(env, case) if ok else {}
    return play(env, case)


def play(env, case):
    if case[0] == "model":
        return run_model(env, *case[1:])
    if case[0] == "train":
        return run_train(env, *case[1:])
    return run_import(env, *case[1:])


def fill_params(env, r, model, wild=True):
    vals = []
    for i, p in enumerate(model.parameters):
        s = tuple(p.value.shape)
        d = pdata(s, i)
        env.put(p.value, d)
        if p.grad is not None:
            env.put(p.grad, idata(s, i + 40) if wild else np.zeros(s))
        vals.append(d)
    return vals


def pdata(s, seed):
    return rdata(s, seed + 3, 0.5) + (0.25 if len(s) == 1 else 0)


def tparams(vals, grad=True):
    return [torch.tensor(np.asarray(v, dtype=float), dtype=torch.float64, requires_grad=grad) for v in vals]


def newinput(c, seed):
    if c["m"] == "gpt2":
        return ids_data(c, seed)
    return rdata(tuple(c["xs"]), seed)


def run_model(env, c, word, dt, mode, every):
    r = Run(env, dt, mode, every, word, c)
    r.tol = 1e-9 if dt == "fp64" else 3e-4
    if c["m"] in ("gpt2", "mixer"):
        r.tol = 1e-8 if dt == "fp64" else 2e-3
    r.fixed = []
    md = BUILD[c["m"]](env, r, c, dt)
    model = md.obj
    vals = fill_params(env, r, model)
    if len({id(p) for p in model.get_parameters()}) != len(vals):
        raise Fail("a parameter is listed twice")
    pacc = [idata(tuple(p.value.shape), i + 40).astype(float) for i, p in enumerate(model.parameters)]
    x = md.ins[0]
    xm = model.activations[0]
    xacc = None
    out = model.activations[-1]
    t, state = 0, None
    cnt = {"histories": 1, "model_" + c["m"]: 1}

    def settle():
        if every:
            env.wait()
    for a in word:
        t += 1
        if a == "X":
            x = newinput(c, 10 * t)
            if c["m"] == "gpt2":
                env.put(xm.value, x)
            else:
                r.set(xm.value, x)
        elif a == "W":
            vals = [pdata(tuple(p.value.shape), 7 * t + i) for i, p in enumerate(model.parameters)]
            for p, v in zip(model.parameters, vals):
                r.set(p.value, v)
        elif a == "I":
            model.init_randn_async()
            settle()
            vals = [nets.INIT(dt, tuple(p.value.shape)) for p in model.parameters]
        elif a == "Z":
            model.clear_parameters_grads()
            pacc = [np.zeros_like(p) for p in pacc]
        elif a == "G":
            model.clear_gradients()
            pacc = [np.zeros_like(p) for p in pacc]
        elif a == "F":
            P = tparams(vals)
            tx = torch.tensor(x) if c["m"] == "gpt2" else torch.tensor(x, dtype=torch.float64, requires_grad=True)
            y = md.fn([tx], P)
            state = (P, tx, y)
            model.forward_async()
            settle()
            cnt["forwards"] = cnt.get("forwards", 0) + 1
            if every:
                r.cmp(out.value, y.detach().numpy(), "output")
        elif a == "B":
            P, tx, y = state
            model.clear_activations_grads()
            g = idata(tuple(out.value.shape), 100 + t)
            r.set(out.grad, g)
            wrt = P + ([tx] if tx.requires_grad else [])
            gr = torch.autograd.grad(y, wrt, torch.tensor(g, dtype=torch.float64), retain_graph=True, allow_unused=True)
            gr = [np.zeros(tuple(w.shape)) if v is None else v.numpy() for v, w in zip(gr, wrt)]
            pacc = [p + v for p, v in zip(pacc, gr)]
            if tx.requires_grad:
                xacc = gr[-1]
            model.backward_async()
            settle()
            cnt["backwards"] = cnt.get("backwards", 0) + 1
    env.wait()
    r.cmp(out.value, state[2].detach().numpy(), "output")
    for i, p in enumerate(model.parameters):
        r.cmp(p.grad, pacc[i], "gradient of parameter %d" % i)
        if "I" in word and "W" not in word[word.rindex("I"):]:
            nets.INITCMP(dt, env.get(p.value), vals[i], "parameter %d" % i)
        elif not np.array_equal(env.get(p.value).astype(float), vals[i].astype(NPD[dt]).astype(float)):
            raise Fail("parameter %d was changed by %s" % (i, word))
    if xm.grad is not None and xm.grad_required and xacc is not None:
        r.cmp(xm.grad, xacc, "gradient of the input")
    if not np.array_equal(env.get(xm.value).astype(float), np.asarray(x).astype(float)):
        raise Fail("the input was changed by %s" % word)
    model.unregister()
    env.finish()
    return cnt


def run_train(env, c, loss, oi, h, dt, mode):
    epochs, batches = h
    kind, cf = OPTS[oi]
    r = Run(env, dt, mode, 0, "training", c)
    r.fixed = []
    md = BUILD[c["m"]](env, r, c, dt)
    model = md.obj
    vals = fill_params(env, r, model)
    out = model.activations[-1]
    os_ = tuple(out.value.shape)
    scale = 1.0 if oi % 2 else 0.5
    if loss == "ce":
        lo, _ = CE.generate_simple(out, 0, scale=scale)
    else:
        lo, _ = Frob.generate_simple(out, 0)
    if kind == "Empty":
        opt = OPT.Empty(model.get_parameters(), 0)
        ref = None
    else:
        opt = getattr(OPT, kind)(model.get_parameters(), next_tag=0, dtype=NPD[dt], **cf)
        ref = c10.Ref(kind, cf, vals)
    xm = model.activations[0]
    bx, by, data = [], [], []
    t = 0
    for nb in batches:
        lx, ly, ld = [], [], []
        for _ in range(nb):
            t += 1
            xd = newinput(c, 3 * t)
            xdt = "int64" if c["m"] == "gpt2" else dt
            lx.append(env.T(xdt, tuple(xm.value.shape), tuple(xm.value.basetile_shape), xd))
            if loss == "ce":
                yd = np.array([(i * 5 + t * 3 + i * i // 2) % os_[0] for i in range(int(np.prod(os_[1:])))], dtype=np.int64).reshape(os_[1:])
                ly.append(env.T("int64", tuple(lo.y.shape), tuple(lo.y.basetile_shape), yd))
            else:
                yd = rdata(os_, 50 + t)
                ly.append(env.T(dt, os_, tuple(lo.y.basetile_shape), yd))
            ld.append((xd, yd))
        bx.append(lx)
        by.append(ly)
        data.append(ld)
    pipe = Pipeline(bx, by, model, opt, lo, epochs)
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        pipe.train_async()
    env.wait()
    # reference
    cur = [v.copy() for v in vals]
    hist, mag = [], 1.0
    for _ in range(epochs):
        for ld in data:
            P = tparams(cur)
            tot = 0.0
            gs = [np.zeros_like(v) for v in cur]
            for xd, yd in ld:
                tx = torch.tensor(xd) if c["m"] == "gpt2" else torch.tensor(xd, dtype=torch.float64)
                y = md.fn([tx], P)
                l = ce_ref(y, yd, scale) if loss == "ce" else 0.5 * ((y - torch.tensor(yd)) ** 2).sum()
                gr = torch.autograd.grad(l, P, allow_unused=True)
                gs = [a + (0 if g is None else g.numpy()) for a, g in zip(gs, gr)]
                tot = tot + float(l) if loss == "ce" else float(l)
                mag = max(mag, float(y.abs().max()))
            hist.append(tot)
            if ref is not None:
                ref.step(gs)
                cur = [p.copy() for p in ref.p]
    if len(hist) != len(pipe.loss_hist):
        raise Fail("%d losses reported for %d batches" % (len(pipe.loss_hist), len(hist)))
    steps = max(1, len(hist))
    rel = (1e-9 if dt == "fp64" else 4e-4) * steps * max(1.0, mag)
    for i, (a, b) in enumerate(zip(pipe.loss_hist, hist)):
        if not abs(float(a) - b) <= rel * max(1.0, abs(b)):
            raise Fail("loss of batch %d is reported as %r, expected %r" % (i, float(a), b))
    r.tol = rel
    for i, p in enumerate(model.parameters):
        r.word = "training"
        r.cmp(p.value, cur[i], "trained parameter %d" % i)
    for lx in bx + by:
        for x in lx:
            x.unregister()
    opt.unregister()
    lo.unregister()
    model.unregister()
    env.finish()
    return {"trainings": 1, "batches": len(hist), "train_" + c["m"]: 1}


def run_import(env, c, mode):
    r = Run(env, "fp32", mode, 1, "import", c)
    r.tol = 1e-4
    nn = torch.nn
    k = c["k"]
    if k == "deeprelu":
        layers = []
        d = c["n_in"]
        for i in range(c["n"]):
            o = c["ncls"] if i == c["n"] - 1 else c["hid"]
            layers.append(nn.Linear(d, o, bias=bool(c["bias"])))
            if i < c["n"] - 1:
                layers.append(nn.ReLU())
            d = o
        tm = nn.Sequential(*layers)
    elif k == "mixer":
        tm = TMixer(c["ch"], c["pix"], c["emb"], c["n"], c["ncls"])
    elif k == "gpt2mlp":
        import transformers
        from transformers.models.gpt2.modeling_gpt2 import GPT2MLP as TMLP
        g = c["c"]
        tm = TMLP(g["inner"][0], transformers.GPT2Config(n_embd=g["xs"][0], activation_function={"gelutanh": "gelu_new", "relu": "relu"}[g["f"]],
                                                         resid_pdrop=0))
        tm.eval()
    else:
        import transformers
        g = c["c"]
        cfg = transformers.GPT2Config(vocab_size=g["voc"], n_positions=g["maxpos"], n_embd=g["emb"], n_layer=g["nlayers"], n_head=g["nh"],
                                      n_inner=g["inner"], activation_function={"gelutanh": "gelu_new", "relu": "relu"}[g["f"]],
                                      resid_pdrop=0, embd_pdrop=0, attn_pdrop=0, layer_norm_epsilon=g.get("eps", 1e-5), use_cache=False)
        tm = transformers.GPT2LMHeadModel(cfg)
        tm.eval()
        tm.lm_head.weight = nn.Parameter(tm.lm_head.weight.detach().clone())
    with torch.no_grad():
        for i, p in enumerate(tm.parameters()):
            p.copy_(torch.tensor(pdata(tuple(p.shape), i)))
    cnt = {"imports": 1, "import_" + k: 1}
    if k == "deeprelu":
        m, tag = M.DeepReLU.from_torch(tm, c["batch"], c["ncls"], "relu", 0)
        x = rdata((c["n_in"], c["batch"]), 9)
        want = tm.double()(torch.tensor(x.T)).detach().numpy().T
    elif k == "mixer":
        m, tag = M.MlpMixer.from_torch(tm, c["batch"], c["ncls"], 0)
        x = rdata((c["ch"], c["batch"], c["pix"]), 9)
        r.tol = 2e-3
        want = tm.double()(torch.tensor(x)).detach().numpy().T
    elif k == "gpt2mlp":
        x = rdata(tuple(g["xs"]), 9)
        m, tag = GPT2MLP.from_torch(tm, r.moments(tuple(g["xs"]), tuple(g["xb"]), x, grad=None, required=False), mlp_cfg(g), 0, fp32_fast_tf32=bool(g.get("fast")))
        r.tol = 2e-3
        want = tm.double()(torch.tensor(x.T)).detach().numpy().T
    else:
        gc = GCfg(g["voc"], g["vtile"], g["emb"], g["etile"], g["maxpos"], g["inner"], g["itile"], g.get("eps", 1e-5), g["nlayers"], g["nh"], g["htile"], g["f"],
                  bool(g["flash"]), bool(g["redux"]))
        m, tag = GPT2.from_torch(tm, g["batch"], g["tb"], g["seq"], g["ts"], gc, 0, fp32_fast_tf32=bool(g.get("fast")))
        x = ids_data(g, 2)
        r.tol = 2e-3
        want = tm.double()(torch.tensor(x.T)).logits.detach().numpy().transpose(2, 1, 0)
    env.put(m.activations[0].value, x)
    m.forward_async()
    env.wait()
    r.cmp(m.activations[-1].value, want, "output of the imported model")
    if k in ("mixer", "gpt2"):
        # export back gives the parameters of the original
        orig = [p.detach().float().clone() for p in tm.parameters()]
        tm = tm.float()
        with torch.no_grad():
            for p in tm.parameters():
                p.zero_()
        m.to_torch(tm)
        for i, (p, o) in enumerate(zip(tm.parameters(), orig)):
            if tuple(p.shape) != tuple(o.shape) or not torch.equal(p.detach(), o):
                raise Fail("parameter %d exported to PyTorch differs from the imported one" % i)
        cnt["exports"] = 1
    m.unregister()
    env.finish()
    return cnt
