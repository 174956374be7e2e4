"""C29: models imported from and exported to PyTorch.  Every word over import, change of the
PyTorch parameters, change of the NNTile parameters, export and forward on every bounded model;
parameters are told apart element by element."""
import copy
import itertools
import os
import sys
import numpy as np
from h import Fail
from nets import Run, rdata, guarded
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import c19

FULL_PACKAGE = True
REAL_STRIDE = 61
ASSUMPTIONS = ["the PyTorch model has no tied parameters (the examples untie the language model head first)",
               "models that can be imported exist in fp32 only; DeepReLU and the GPT-2 MLP have no export"]
TORCH = {}


def setup(env, tier):
    c19.setup(env, tier)


def tmodel(c):
    """The PyTorch model of a configuration and its function in double precision."""
    torch, nn = c19.torch, c19.torch.nn
    key = repr(sorted(c.items(), key=str)) if c["k"] != "gpt2" else repr([c["c"][x] for x in ("voc", "maxpos", "emb", "nlayers", "nh", "inner", "f")] + [c["c"].get("eps", 1e-5)])
    if key not in TORCH:
        if len(TORCH) > 40:
            TORCH.clear()
        k = c["k"]
        if k == "deeprelu":
            layers, d = [], c["n_in"]
            for i in range(c["n"]):
                o = c["ncls"] if i == c["n"] - 1 else c["hid"]
                layers.append(nn.Linear(d, o, bias=bool(c["bias"])))
                if i < c["n"] - 1:
                    layers.append(nn.ReLU())
                d = o
            tm = nn.Sequential(*layers)
        elif k == "mixer":
            tm = c19.TMixer(c["ch"], c["pix"], c["emb"], c["n"], c["ncls"])
        else:
            import transformers
            from transformers.models.gpt2.modeling_gpt2 import GPT2MLP as TMLP
            g = c["c"]
            f = {"gelutanh": "gelu_new", "relu": "relu"}[g["f"]]
            if k == "gpt2mlp":
                tm = TMLP(g["inner"][0], transformers.GPT2Config(n_embd=g["xs"][0], activation_function=f, resid_pdrop=0))
            else:
                tm = transformers.GPT2LMHeadModel(transformers.GPT2Config(
                    vocab_size=g["voc"], n_positions=g["maxpos"], n_embd=g["emb"], n_layer=g["nlayers"], n_head=g["nh"], n_inner=g["inner"],
                    activation_function=f, resid_pdrop=0, embd_pdrop=0, attn_pdrop=0, layer_norm_epsilon=g.get("eps", 1e-5), use_cache=False))
                tm.lm_head.weight = nn.Parameter(tm.lm_head.weight.detach().clone())
        tm.eval()
        TORCH[key] = tm, copy.deepcopy(tm).double()
    return TORCH[key]


def load(tm, vals):
    """New, contiguous parameters for the PyTorch model."""
    with c19.torch.no_grad():
        for p, v in zip(tm.parameters(), vals):
            p.data = c19.torch.tensor(v, dtype=p.dtype)


class Word:
    def __init__(self, env, c, word, mode):
        self.env, self.c, self.r = env, c, Run(env, "fp32", mode, 1, word, c)
        self.tm, self.td = tmodel(c)
        self.shapes = [tuple(p.shape) for p in self.tm.parameters()]
        self.n = 0
        self.m = self.x = None

    def values(self):
        self.n += 1
        return [c19.pdata(s, i + 7 * self.n).astype(np.float32) for i, s in enumerate(self.shapes)]

    def build(self):
        env, c, r = self.env, self.c, self.r
        k = c["k"]
        if k == "deeprelu":
            self.m, _ = c19.M.DeepReLU.from_torch(self.tm, c["batch"], c["ncls"], "relu", 0)
        elif k == "mixer":
            self.m, _ = c19.M.MlpMixer.from_torch(self.tm, c["batch"], c["ncls"], 0)
        elif k == "gpt2mlp":
            g = c["c"]
            xs = tuple(g["xs"])
            self.x = r.moments(xs, tuple(g["xb"]), rdata(xs, 9), grad=None, required=False)
            self.m, _ = c19.GPT2MLP.from_torch(self.tm, self.x, c19.mlp_cfg(g), 0)
        else:
            g = c["c"]
            gc = c19.GCfg(g["voc"], g["vtile"], g["emb"], g["etile"], g["maxpos"], g["inner"], g["itile"], g.get("eps", 1e-5), g["nlayers"], g["nh"], g["htile"],
                          g["f"], bool(g["flash"]), bool(g["redux"]))
            self.m, _ = c19.GPT2.from_torch(self.tm, g["batch"], g["tb"], g["seq"], g["ts"], gc, 0)

    def release(self):
        if self.m is not None:
            self.m.unregister()
            self.m = self.x = None

    def read(self):
        """The parameters of the NNTile model in the layout of PyTorch."""
        out = [np.zeros(s, np.float32) for s in self.shapes]
        flat = [o.reshape(-1) for o in out]
        for p, (ti, off) in zip(self.m.parameters, self.map):
            v = self.env.get(p.value)
            for i in set(ti.flat):
                flat[i][off[ti == i]] = v[ti == i]
        return out

    def write(self, vals):
        flat = [v.reshape(-1) for v in vals]
        for p, (ti, off) in zip(self.m.parameters, self.map):
            v = np.zeros(ti.shape, np.float32)
            for i in set(ti.flat):
                v[ti == i] = flat[i][off[ti == i]]
            self.env.put(p.value, v)

    def locate(self):
        """Where every element of every PyTorch parameter goes."""
        sizes = [int(np.prod(s)) for s in self.shapes]
        start = np.cumsum([0] + sizes)
        load(self.tm, [np.arange(start[i] + 1, start[i + 1] + 1, dtype=np.float32).reshape(s) for i, s in enumerate(self.shapes)])
        self.build()
        self.env.wait()
        self.map, ids = [], []
        for j, p in enumerate(self.m.parameters):
            v = self.env.get(p.value).astype(np.float64)
            k = v.astype(np.int64) - 1
            if not np.array_equal(v, k + 1) or k.min() < 0 or k.max() >= start[-1]:
                raise Fail("parameter %d of the imported model has values that are not of the PyTorch model: %s" % (j, v.ravel()[:6].tolist()))
            ti = np.searchsorted(start, k, side="right") - 1
            self.map.append((ti, k - start[ti]))
            ids += list(k.ravel())
        if sorted(ids) != list(range(start[-1])):
            raise Fail("import does not take every element of the PyTorch parameters exactly once (%d elements, %d taken, %d distinct)"
                       % (start[-1], len(ids), len(set(ids))))
        self.release()

    def forward(self):
        env, c, k = self.env, self.c, self.c["k"]
        torch = c19.torch
        load(self.td, self.pn)
        g = c.get("c")
        # activations are of order one; errors of single precision accumulate over the layers
        self.r.tol = 1e-4 if k == "deeprelu" else 2e-3
        with torch.no_grad():
            if k == "deeprelu":
                x = rdata((c["n_in"], c["batch"]), 9 + self.n)
                want = self.td(torch.tensor(x.T)).numpy().T
            elif k == "mixer":
                x = rdata((c["ch"], c["batch"], c["pix"]), 9 + self.n)
                want = self.td(torch.tensor(x)).numpy().T
            elif k == "gpt2mlp":
                x = rdata(tuple(g["xs"]), 9 + self.n)
                want = self.td(torch.tensor(x.T)).numpy().T
            else:
                x = c19.ids_data(g, 2 + self.n)
                want = self.td(torch.tensor(x.T)).logits.numpy().transpose(2, 1, 0)
        env.put(self.m.activations[0].value, x)
        self.m.forward_async()
        env.wait()
        self.r.cmp(self.m.activations[-1].value, want, "output of the imported model")

    def check(self, what):
        for i, (p, w) in enumerate(zip(self.tm.parameters(), self.pt)):
            v = p.detach().numpy()
            if v.shape != w.shape or v.dtype != np.float32 or not np.array_equal(v, w):
                raise Fail("parameter %d of the PyTorch model is wrong after %s" % (i, what))
        for i, (v, w) in enumerate(zip(self.read(), self.pn)):
            if not np.array_equal(v, w):
                raise Fail("what was imported from PyTorch parameter %d is wrong after %s" % (i, what))


def configs(tier):
    for c in c19.imports("thorough" if tier != "quick" else "quick"):
        yield c
    # models with more heads, layers and uneven dimensions
    base = dict(m="gpt2", voc=7, vtile=3, emb=6, etile=4, maxpos=5, inner=5, itile=3, nlayers=1, nh=3, htile=2, f="gelutanh", flash=0, redux=0,
                seq=4, batch=2, ts=2, tb=1)
    for nl in (1, 2, 3):
        for nh, ht in ((1, 1), (2, 1), (3, 2), (3, 3), (6, 4), (6, 3)):
            # flash attention takes whole tiles of heads only
            for flash in (0, 1) if nh % ht == 0 else (0,):
                for et, vt in ((6, 3), (4, 2), (3, 3), (6, 6)):
                    yield dict(k="gpt2", c=dict(base, nlayers=nl, nh=nh, htile=ht, flash=flash, etile=et, vtile=vt, eps=(1e-5, 0.125)[nh % 2]))


def words(c):
    """Import first; 'C' and 'T' change the parameters of the NNTile and the PyTorch model."""
    a = "ICTEF" if c["k"] in ("mixer", "gpt2") else "ICTF"
    for n in range(0, 4):
        for w in itertools.product(a, repeat=n):
            w = "I" + "".join(w)
            if "FF" not in w and (n == 0 or w[-1] != "F"):
                yield w + "F"


def cases(tier):
    j = 0
    for ci, c in enumerate(configs(tier)):
        if tier == "quick" and c["k"] == "gpt2" and c["c"]["nlayers"] < 3 and c["c"]["voc"] == 5 and ci % 3:
            continue
        step = {"mixer": 23, "gpt2": 29, "gpt2mlp": 11, "deeprelu": 11}[c["k"]] if tier == "quick" else 1
        for w in words(c):
            j += 1
            if len(w) <= 2 or j % step == 0:
                yield ["word", c, w, j % 5]


@guarded
def run(env, case):
    _, c, word, mode = case
    x = Word(env, c, word, mode)
    h0 = env.live_handles()
    x.locate()
    if env.live_handles() != h0:
        raise Fail("%+d handle(s) alive after an imported model was released" % (env.live_handles() - h0))
    x.pt = x.values()
    load(x.tm, x.pt)
    k = {"words": 1, "word_" + c["k"]: 1, "actions": len(word)}
    for a in word:
        what = {"I": "import", "C": "a change of the NNTile parameters", "T": "a change of the PyTorch parameters", "E": "export",
                "F": "the forward pass"}[a]
        if a == "I":
            x.release()
            x.build()
            env.wait()
            x.pn = [v.copy() for v in x.pt]
        elif a == "C":
            x.pn = x.values()
            x.write(x.pn)
        elif a == "T":
            # in place: whatever shares memory with the parameters changes as well
            x.pt = x.values()
            with c19.torch.no_grad():
                for p, v in zip(x.tm.parameters(), x.pt):
                    p.copy_(c19.torch.tensor(v))
        elif a == "E":
            x.m.to_torch(x.tm)
            x.pt = [v.copy() for v in x.pn]
        else:
            x.forward()
        x.check(what)
    x.release()
    if env.live_handles() != h0:
        raise Fail("%+d handle(s) alive after the models were released" % (env.live_handles() - h0))
    env.finish()
    return k
