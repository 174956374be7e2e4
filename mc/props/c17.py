"""C17: LayerNorm, Attention, FlashAttention and Mixer layers over histories of forward and
backward passes, against automatic differentiation in double precision."""
import itertools
import numpy as np
from h import Fail
import nets
from opcheck import StandIns
from nets import Run, idata, rdata, tilings, guarded, history, release

FULL_PACKAGE = True
REAL_STRIDE = 61
TIER = "quick"
ASSUMPTIONS = ["CPU codelets only; with fp32_fast_tf32 the task bodies are replaced by those of fp32",
               "every query has at least one key that is not masked",
               "a backward pass follows a forward pass (the layers drop their temporaries in the backward pass)"]
WORDS = ["FB", "FBXFB", "FXFB", "FBWFBZFB", "FFB", "F"]


def setup(env, tier):
    global TIER, L, Flash
    TIER = tier
    import torch
    torch.set_num_threads(1)
    import nntile.layer as L_
    L = L_
    from nntile.layer.flash_attention import FlashAttention
    Flash = FlashAttention


def layernorm(tier):
    q = tier == "quick"
    for xs in ((4,), (3, 2), (2, 3), (5, 3), (2, 3, 2), (3, 2, 4)) if q else ((4,), (7,), (3, 2), (2, 3), (5, 3), (2, 3, 2), (3, 2, 4), (2, 2, 3, 2)):
        for ax in range(len(xs)):
            for xb in tilings(xs, 3):
                for redux in (0, 1):
                    for eps in (1e-5, 0.25):
                        for data in ("r", "c"):
                            yield dict(l="ln", xs=xs, xb=xb, ax=ax, redux=redux, eps=eps, data=data)


def dv(n):
    return [t for t in range(1, n + 1) if n % t == 0]


def attention(tier):
    q = tier == "quick"
    # (n_emb, n_emb_k, n_emb_v, n_seq, n_batch, n_head)
    sizes = [(2, 2, 2, 2, 1, 1), (4, 4, 4, 2, 2, 2), (4, 3, 2, 3, 1, 2), (2, 2, 2, 4, 1, 2), (3, 3, 3, 3, 2, 1), (6, 4, 5, 2, 1, 3), (4, 2, 4, 1, 3, 4)]
    if not q:
        sizes += [(8, 8, 8, 4, 2, 4), (4, 6, 3, 5, 3, 2), (6, 6, 6, 3, 3, 2)]
    for ne, nk, nv, ns, nb, nh in sizes:
        for flash in (0, 1):
            for te in {ne, max(1, ne // 2), 1 if not q else ne}:
                for ts in (dv(ns) if flash else range(1, ns + 1)):
                    for tb in (dv(nb) if flash else range(1, nb + 1)):
                        for th in dv(nh):
                            for self_ in ((0, 1) if ne == nk == nv else (0,)):
                                for mask in (1, 2) if flash else (0, 1, 2):
                                    for bias in (0, 1):
                                        for redux in (0, 1):
                                            yield dict(l="fattn" if flash else "attn", n=(ne, nk, nv, ns, nb, nh), t=(te, ts, tb, th),
                                                       self=self_, mask=mask, bias=bias, redux=redux)


def mixer(tier):
    for xs in ((2, 3, 2), (3, 1, 2), (1, 2, 3), (2, 2, 1)):
        for t in range(1, xs[1] + 1):
            yield dict(l="mixer", xs=xs, xb=(xs[0], t, xs[2]))


def large(tier):
    """Sizes beyond the exhaustive spaces, each kept with every word."""
    for xs, xb in (((40, 3), (20, 2)), ((3, 40), (3, 40)), ((2, 33, 2), (1, 33, 2)), ((2, 2, 3, 2), (1, 2, 2, 2)), ((2, 3, 2, 2, 2), (2, 2, 2, 1, 2)),
                   ((300, 2), (300, 1)), ((2, 12), (2, 1))):
        for ax in range(len(xs)):
            yield dict(l="ln", xs=xs, xb=xb, ax=ax, redux=ax % 2, eps=1e-5, data="r")
    for n, ts in (((8, 8, 8, 4, 2, 8), ((8, 2, 1, 2), (4, 4, 2, 8), (8, 1, 2, 1))), ((16, 12, 8, 3, 5, 2), ((16, 3, 5, 2), (8, 1, 1, 1))),
                  ((4, 4, 4, 9, 1, 4), ((4, 3, 1, 4), (2, 9, 1, 2))), ((5, 5, 5, 8, 2, 1), ((5, 2, 2, 1),)), ((4, 4, 4, 2, 9, 2), ((4, 2, 3, 2), (4, 2, 9, 1))),
                  ((2, 2, 2, 12, 1, 1), ((2, 1, 1, 1), (2, 12, 1, 1))), ((33, 5, 17, 2, 1, 1), ((17, 2, 1, 1),))):
        for t in ts:
            for flash in (0, 1):
                for self_ in ((0, 1) if n[0] == n[1] == n[2] else (0,)):
                    for bias in (0, 1):
                        yield dict(l="fattn" if flash else "attn", n=n, t=t, self=self_, mask=1 if flash else bias, bias=bias, redux=self_)
    yield dict(l="mixer", xs=(5, 4, 6), xb=(5, 3, 6))
    yield dict(l="mixer", xs=(17, 2, 9), xb=(17, 1, 9))


def cases(tier):
    q = tier == "quick"
    j = 0
    for c in large(tier):
        n = 1 if c["l"] in ("ln", "mixer") or c["self"] else 3
        for w in WORDS[:4]:
            j += 1
            yield [c, w, ("fp32", "fp64")[(j // 3) % 2], j % 3, j % 2, [1] * n, 1]
            if "attn" in c["l"] and j % 5 == 0:
                yield [dict(c, fast=1), w, "fp32", j % 3, j % 2, [1] * n, 1]
    j = na = 0
    for c in itertools.chain(layernorm(tier), attention(tier), mixer(tier)):
        for w in WORDS:
            j += 1
            if q and (c["l"] == "ln" and j % 2 or c["l"] in ("attn", "fattn") and (j * 5) % 7 > 1):
                continue
            n = 1 if c["l"] in ("ln", "mixer") or c["self"] else 3
            for dt in ("fp32", "fp64") if not q else (("fp32", "fp64")[(j // 3) % 2],):
                # which inputs need a gradient, and whether the others have a gradient tensor
                req = [1] * n if (j // 11) % 2 else [(j // 22 >> i) & 1 for i in range(n)]
                yield [c, w, dt, j % 5, (j // 5) % 2, req, (j // 7) % 2]
            if "attn" in c["l"]:
                na += 1
                if na % (12 if q else 6) == 0:
                    # with TF32 products
                    yield [dict(c, fast=1), w, "fp32", j % 5, (j // 5) % 2, req, (j // 7) % 2]


@guarded
def run(env, case):
    if case[0].get("fast"):
        with StandIns(env) as ok:
            return play(env, case) if ok else {}
    return play(env, case)


def play(env, case):
    import torch
    c, word, dt, mode, every, req, present = case
    r = Run(env, dt, mode, every, word, case)
    k = c["l"]
    ins, params = {}, {}
    data = rdata

    def inp(i, s, b, d):
        return r.moments(s, b, d, grad="acc" if req[i] or present else None, required=bool(req[i]))
    if k == "ln":
        data = rdata if c["data"] == "r" else lambda s, i: np.full(s, 2.0) + (idata(s, i) == 3) * 0.25
    if k in ("attn", "fattn"):
        data = lambda s, i: rdata(s, i, 0.5)
        r.tol = 1e-3 if dt == "fp32" else 1e-10
    if k in ("ln", "mixer"):
        xs, xb = tuple(c["xs"]), tuple(c["xb"])
        d = data(xs, 1)
        ins["x"] = (inp(0, xs, xb, d), d)

    def prep(m, name, seed):
        d = data(tuple(m.value.shape), seed)
        env.put(m.value, d)
        env.put(m.grad, idata(tuple(m.value.shape), seed + 9))
        params[name] = (m, d)

    if k == "ln":
        ax = c["ax"]
        r.tol = 2e-3 if dt == "fp32" else 1e-9
        if c["data"] == "c":
            r.tol *= 20
        layer, _ = L.LayerNorm.generate_simple(ins["x"][0], ax, c["eps"], 0, redux=bool(c["redux"]))
        # as generated: scale one, shift zero
        r.cmp(layer.gamma.value, np.ones(xs[ax]), "initial gamma")
        r.cmp(layer.beta.value, np.zeros(xs[ax]), "initial beta")
        prep(layer.gamma, "g", 2)
        prep(layer.beta, "b", 3)

        def fn(t):
            sh = [-1 if i == ax else 1 for i in range(len(xs))]
            x = t["x"]
            m = x.mean(ax, keepdim=True)
            v = ((x - m) ** 2).mean(ax, keepdim=True)
            return [(x - m) / torch.sqrt(v + c["eps"]) * t["g"].reshape(sh) + t["b"].reshape(sh)]
    elif k == "mixer":
        r.tol = 3e-3 if dt == "fp32" else 1e-8
        layer, _ = L.Mixer.generate_simple(ins["x"][0], 0)
        for i, (n, m) in enumerate((("g1", layer.norm_1.gamma), ("b1", layer.norm_1.beta), ("u1", layer.mlp_1.linear_1.w), ("u2", layer.mlp_1.linear_2.w),
                                    ("g2", layer.norm_2.gamma), ("b2", layer.norm_2.beta), ("v1", layer.mlp_2.linear_1.w), ("v2", layer.mlp_2.linear_2.w))):
            prep(m, n, i + 2)
        g = torch.nn.functional.gelu

        def ln(x, ga, be):
            m = x.mean(2, keepdim=True)
            v = ((x - m) ** 2).mean(2, keepdim=True)
            return (x - m) / torch.sqrt(v + 1e-5) * ga + be

        def fn(t):
            y = ln(t["x"], t["g1"], t["b1"])
            y = torch.tensordot(t["u2"], g(torch.tensordot(t["u1"], y, dims=1)), dims=1) + t["x"]
            z = ln(y, t["g2"], t["b2"])
            return [torch.tensordot(g(torch.tensordot(z, t["v1"], dims=1)), t["v2"], dims=1) + y]
    else:
        ne, nk, nv, ns, nb, nh = c["n"]
        te, ts, tb, th = c["t"]
        for n, e in (("x", ne),) if c["self"] else (("x", ne), ("xk", nk), ("xv", nv)):
            s = (e, ns, nb)
            d = data(s, len(n) * 3 + e)
            ins[n] = (inp(len(ins), s, (min(te, e), ts, tb), d), d)
        mask = None
        mb = None
        if c["mask"]:
            import ops
            mb = ops._fl_mask(ns, c["mask"])
            mask = env.T("bool", (ns, ns), (ts, ts), mb)
        x = [ins["x"][0]] * 3 if c["self"] else [ins[n][0] for n in ("x", "xk", "xv")]
        cls = Flash if k == "fattn" else L.Attention
        layer, _ = cls.generate_simple(x[0], x[1], x[2], nh, th, 0, bias=bool(c["bias"]), mask=mask, redux=bool(c["redux"]),
                                       fp32_fast_tf32=bool(c.get("fast")))
        pn = ["w_q", "w_k", "w_v", "w"] + (["in_proj_bias_q", "in_proj_bias_k", "in_proj_bias_v", "out_proj_bias"] if c["bias"] else [])
        for i, n in enumerate(pn):
            prep(getattr(layer, n), n, i + 2)

        def fn(t):
            xq, xk, xv = [t["x"]] * 3 if c["self"] else (t["x"], t["xk"], t["xv"])
            Q, K, V = (torch.einsum("hje,esb->jsbh", t["w_" + n], v) for n, v in (("q", xq), ("k", xk), ("v", xv)))
            if c["bias"]:
                Q, K, V = (y + t["in_proj_bias_" + n][:, None, None, :] for n, y in (("q", Q), ("k", K), ("v", V)))
            a = torch.einsum("jkbh,jmbh->kmbh", K, Q) / (ne // nh) ** 0.5
            if mb is not None:
                a = a.masked_fill(~torch.tensor(mb)[:, :, None, None], float("-inf"))
            a = torch.softmax(a, 0)
            y = torch.einsum("ehj,jsbh->esb", t["w"], torch.einsum("jkbh,kmbh->jmbh", V, a))
            if c["bias"]:
                y = y + t["out_proj_bias"][:, None, None]
            return [y]

    if k == "mixer":
        orig = layer.backward_async

        def bwd():
            # inner gradients start from zero in every backward pass, as a model does it
            if layer.__dict__.pop("cleared", False):
                return orig()
            for m in (layer.norm_1.y, layer.mlp_1.linear_1.y, layer.mlp_1.act.y, layer.mlp_1.linear_2.y, layer.norm_2.y,
                      layer.mlp_2.linear_1.y, layer.mlp_2.act.y):
                env.nt.clear_async(m.grad)
            orig()
        layer.backward_async = bwd
    out = history(r, layer, ins, params, fn, word, lambda n, s, t: data(s, 10 * t + len(n)), lambda i, s, t: idata(s, 100 + t))
    release(layer)
    if k == "mixer":
        pass
    env.finish()
    out["layer_" + k] = 1
    return out
