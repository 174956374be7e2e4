"""C14: data lives exactly as long as tasks need it and is released after.

Families: 'words' of submissions, blocking transfers, holds, invalidations, releases and waits on
tensors; 'early' release of the operands of every operation right after its submission; 'leak' memory
balance of every operation; layers, models, losses and optimizers released in every order, twice and
before their tasks have run."""
import ctypes, gc, itertools
import numpy as np
import opcheck, ops as O, nets
from h import Fail, DT, EAGER, LAZY, EXPLORE, FIFO, LIFO, ALT
from nets import guarded

FULL_PACKAGE = True
REAL_STRIDE = 499
ASSUMPTIONS = [
    "invalidated data is not read before it is written again; wont_use is a hint and keeps the data",
    "the application does not wait for tasks that need data it holds itself",
    "memory of the user is up to date only after its tile is unregistered or while it is acquired"]
MODES = [dict(mode=LAZY, policy=LIFO, drain_all=0), dict(mode=EXPLORE, full=0, max_states=4000, tol=1), dict(mode=LAZY, policy=FIFO),
         dict(mode=LAZY, policy=ALT, drain_all=1), dict(mode=EAGER)]


def setup(env, tier):
    global TIER, c16, c17, c19
    TIER = tier
    opcheck.bind(env)
    import torch
    torch.set_num_threads(1)
    from props import c16, c17, c19
    for m in (c16, c17, c19):
        m.setup(env, tier)
    gc.collect()
    gc.freeze()


# ------------------------------------------------------------------ words on tensors
NT = {"A": (3, 2), "B": (3, 2), "C": (3, 3)}     # length, tile
SUB = {  # letter: (reads, writes)
    "a": ("", "A"), "b": ("", "B"),              # fill
    "c": ("A", "B"), "d": ("B", "A"),            # copy
    "e": ("AB", "B"), "f": ("AB", "A"),          # add
    "s": ("C", "A"), "g": ("B", "C"),            # scatter, gather
    "m": ("AB", "A"),                            # gemm-free read-write of both: prod
}
ALPHA = "abcdefsgm" + "pt" + "iw" + "uvxy" + "nk" + "hHrR" + "W"
# p from_array to A, t to_array of B, i invalidate B, w wont_use A, u v x unregister A B C, y drop the object B,
# n new B, k new A, h hold A for reading, H hold B for writing, r release, R release by destruction, W wait


class Sim:
    """Which actions are allowed (the contract of the application)."""

    def __init__(self):
        self.alive = {"A": True, "B": True, "C": True}
        self.defd = {"A": True, "B": True, "C": True}
        self.obj = {"A": True, "B": True, "C": True}
        self.held = None

    def copy(self):
        s = Sim()
        s.alive, s.defd, s.obj, s.held = dict(self.alive), dict(self.defd), dict(self.obj), self.held
        return s

    def ok(self, a):
        al, de = self.alive, self.defd
        if a in SUB:
            rd, wr = SUB[a]
            return all(al[x] and de[x] for x in rd) and al[wr]
        if a == "p":
            return al["A"] and not self.held
        if a == "t":
            return al["B"] and de["B"] and not self.held
        if a == "i":
            return al["B"] and self.held != "B"
        if a == "w":
            return al["A"]
        if a in "uvx":
            n = {"u": "A", "v": "B", "x": "C"}[a]
            return self.obj[n] and not self.held
        if a == "y":
            return self.obj["B"] and not self.held
        if a == "n":
            return not al["B"]
        if a == "k":
            return not al["A"]
        if a == "h":
            return not self.held and al["A"] and de["A"]
        if a == "H":
            return not self.held and al["B"] and de["B"]
        if a in "rR":
            return bool(self.held)
        if a == "W":
            return not self.held
        return False

    def step(self, a):
        if a in SUB:
            self.defd[SUB[a][1]] = True
        elif a == "p":
            self.defd["A"] = True
        elif a == "i":
            self.defd["B"] = False
        elif a in "uvx":
            n = {"u": "A", "v": "B", "x": "C"}[a]
            self.alive[n] = self.defd[n] = False
        elif a == "y":
            self.alive["B"] = self.defd["B"] = self.obj["B"] = False
        elif a == "n":
            self.alive["B"] = self.obj["B"] = True
            self.defd["B"] = False
        elif a == "k":
            self.alive["A"] = self.obj["A"] = True
            self.defd["A"] = False
        elif a == "h":
            self.held = "A"
        elif a == "H":
            self.held = "B"
        elif a in "rR":
            self.held = None


def words(depth):
    def rec(w, s):
        if w:
            yield w
        if len(w) == depth:
            return
        for a in ALPHA:
            if s.ok(a):
                t = s.copy()
                t.step(a)
                yield from rec(w + a, t)
    yield from rec("", Sim())


def run_word(env, case):
    _, word, mode, dt = case
    m = dict(MODES[mode])
    hold = any(a in word for a in "hH")
    if hold and m["mode"] != LAZY:
        m = dict(mode=LAZY, policy=LIFO)   # tasks may have to wait for the application
    k = 0
    n = 1
    while k < min(n, 6):
        env.choose(k)
        env.cfg(workers=2, poison=0x7E, **m)
        play_word(env, word, dt, k == 0)
        n = env.choose(0) if m["mode"] == EXPLORE else 1
        if n > 1:
            raise Fail("%d different results of one program in different schedules" % n)
        k += 1
    return {"words": 1, "steps": len(word)}


def play_word(env, word, dt, first):
    ct, shim = env.ct, env.shim
    f = lambda n: getattr(ct, n + "_async_" + dt)
    npd = DT[dt]
    base = env.live_handles()
    mine = set()

    def new(n, data=None):
        t = env.T(dt, (NT[n][0],), (NT[n][1],), data)
        return t
    S = {"A": np.array([1, 2, 3], float), "B": np.array([4, 5, 6], float), "C": np.array([7, 8, 9], float)}
    T = {n: new(n, S[n]) for n in S}
    alive = dict.fromkeys(S, True)
    held = None
    c = 10

    def handles():
        return base + sum(-(-NT[n][0] // NT[n][1]) for n in T if alive[n])
    for a in word:
        c += 1
        if a in "ab":
            n = a.upper()
            f("fill")(float(c), T[n])
            S[n] = np.full(3, float(c))
        elif a in "cd":
            x, y = ("A", "B") if a == "c" else ("B", "A")
            f("copy")(T[x], T[y])
            S[y] = S[x].copy()
        elif a in "ef":
            x, y = ("A", "B") if a == "e" else ("B", "A")
            f("add")(1.0, T[x], 2.0, T[y])
            S[y] = S[x] + 2 * S[y]
        elif a == "m":
            f("prod")(T["B"], T["A"])
            S["A"] = S["A"] * S["B"]
        elif a == "s":
            f("scatter")(T["C"], T["A"])
            S["A"] = S["C"].copy()
        elif a == "g":
            f("gather")(T["B"], T["C"])
            S["C"] = S["B"].copy()
        elif a == "p":
            S["A"] = np.array([c, c + 1, c + 2], float)
            T["A"].from_array(np.array(S["A"], dtype=npd, order="F"))
        elif a == "t":
            b = np.full(3, -77, dtype=npd, order="F")
            T["B"].to_array(b)
            same(b, S["B"], "array from B", word)
        elif a == "i":
            T["B"].invalidate_submit()
            if shim is not None:
                shim.invalidate(T["B"])
            S["B"] = None
        elif a == "w":
            T["A"].wont_use()
        elif a in "uvx":
            n = {"u": "A", "v": "B", "x": "C"}[a]
            T[n].unregister()
            alive[n] = False
            S[n] = None
        elif a == "y":
            env.live = [x for x in env.live if x is not T["B"]]
            env._meta.pop(id(T["B"]), None)
            T["B"] = None
            alive["B"] = False
            S["B"] = None
            gc.collect(0)
        elif a in "nk":
            n = "B" if a == "n" else "A"
            T[n] = new(n)
            alive[n] = True
            S[n] = None
        elif a == "h":
            held = ("A", getattr(shim, "Hold_" + dt)(T["A"].get_tile(0), "R"))
            same(held[1].get(), S["A"][:2], "held data of A", word)
        elif a == "H":
            held = ("B", getattr(shim, "Hold_" + dt)(T["B"].get_tile(0), "RW"))
            same(held[1].get(), S["B"][:2], "held data of B", word)
            held[1].put([c + 0.5, c + 0.25])
            S["B"] = np.array([c + 0.5, c + 0.25, S["B"][2]])
        elif a in "rR":
            held[1].release() if a == "r" else held[1].drop()
            held = None
        elif a == "W":
            env.wait()
            if env.pending():
                raise Fail("waiting returned with %d unfinished tasks in %s" % (env.pending(), word))
            if not env.real and env.live_handles() != handles():
                raise Fail("%d data handles after %s and waiting, expected %d" % (env.live_handles(), word, handles()))
    if held:
        held[1].release()
        held = None
    for n in T:
        if alive[n] and S[n] is not None:
            same(env.get(T[n]), S[n], n, word)
    for n in T:
        if T[n] is not None:
            T[n].unregister()
            alive[n] = False
    env.finish()
    if not env.real and env.live_handles() != base:
        raise Fail("%d data handles left after releasing everything at the end of %s" % (env.live_handles() - base, word))


def same(got, want, what, word):
    g = np.asarray(got, float)
    w = np.asarray(want, float)
    if g.shape != w.shape or not np.array_equal(g, w):
        raise Fail("%s = %r after %s, expected %r" % (what, list(g), word, list(w)))


# ------------------------------------------------------------------ tiles over user memory
UALPHA = "fcahRWPwu"


def user_cases(tier):
    d = 3 if tier == "quick" else 5
    for n in range(1, d + 1):
        for w in itertools.product("fcaxHW", repeat=n):
            for end in "uUd":
                yield "".join(w) + end


def run_user(env, case):
    """A tile over an array of the user: after it is unregistered (blocking, twice, or by
    destruction) the array holds the final content."""
    _, word, mode, dt = case
    m = dict(MODES[mode])
    if m["mode"] == EXPLORE and "H" in word:
        m = dict(MODES[0])
    env.cfg(workers=2, poison=0x7E, **m)
    shim = env.shim
    f = lambda n: getattr(shim, n + "_async_" + dt)
    buf = np.array([1, 2, 3, -99], dtype=DT[dt])
    tr = env.core.tile.TileTraits([3])
    mk = getattr(shim, "user_Hold_" + dt)
    try:
        mk(tr, buf.ctypes.data, 2)
        raise Fail("a tile over too little memory was accepted")
    except RuntimeError:
        pass
    base = env.live_handles()
    u = mk(tr, buf.ctypes.data, 4)
    o = env.L(dt, (3,), np.array([5, 6, 7]))
    S, P = np.array([1, 2, 3], float), np.array([5, 6, 7], float)
    c = 10
    for a in word[:-1]:
        c += 1
        if a == "f":
            f("fill")(float(c), u)
            S = np.full(3, float(c))
        elif a == "c":
            f("copy")(o, u)
            S = P.copy()
        elif a == "a":
            f("add")(1.0, o, 2.0, u)
            S = P + 2 * S
        elif a == "x":
            f("add")(1.0, u, 1.0, o)
            P = S + P
        elif a == "H":
            h = getattr(shim, "Hold_" + dt)(u, "RW")
            same(h.get(), S, "held user data", word)
            h.put([c, c + 0.5, c + 0.25])
            S = np.array([c, c + 0.5, c + 0.25])
            h.drop()
        elif a == "W":
            env.wait()
    if word[-1] in "uU":
        u.unregister()
        if word[-1] == "U":
            u.unregister()
    else:
        del u
    same(buf[:3], S, "user memory", word)
    if buf[3] != -99:
        raise Fail("memory next to the user's was changed by %s" % word)
    same(env.getL(o), P, "the other tile", word)
    env.finish()
    if not env.real and env.live_handles() != base:
        raise Fail("%d data handles left at the end of %s" % (env.live_handles() - base, word))
    return {"user_words": 1, "steps": len(word)}


# ------------------------------------------------------------------ printing
def run_print(env, case):
    _, word, mode, dt = case
    if env.shim is None or env.real:
        return {}
    m = dict(MODES[mode])
    if m["mode"] == EXPLORE:
        m = dict(MODES[0])
    env.cfg(workers=2, poison=0x7E, **m)
    base = env.live_handles()
    a = env.T(dt, (), (), np.array(2.0))
    b = env.T(dt, (), (), np.array(3.0))
    f = lambda n: getattr(env.ct, n + "_async_" + dt)
    v, w, out = 2.0, 3.0, []
    env.shim.capture(True)
    try:
        for i, x in enumerate(word):
            if x == "f":
                v = 10.0 + i
                f("fill")(v, a)
            elif x == "a":
                v = w + 2 * v
                f("add")(1.0, b, 2.0, a)
            elif x == "b":
                w = v + w
                f("add")(1.0, a, 1.0, b)
            elif x == "p":
                env.shim.print_scalar(a)
                out.append(v)
            elif x == "W":
                env.wait()
            elif x == "u":
                a.unregister()
                break
        env.wait()
    finally:
        text = env.shim.capture(False)
    got = [float(l.split(":")[1]) for l in text.splitlines() if l.startswith("Value:")]
    if got != out:
        raise Fail("%s printed %r, expected %r" % (word, got, out))
    if "u" not in word:
        same([float(env.get(a))], [v], "a", word)
    same([float(env.get(b))], [w], "b", word)
    env.finish()
    if env.live_handles() != base:
        raise Fail("data left after %s" % word)
    return {"print_words": 1}


# ------------------------------------------------------------------ operands released right after submission
def specs(tier, per):
    for n, o in O.OPS.items():
        seen = {}
        for roles, sc in o.space("quick"):
            for dt in o.dts:
                k = (dt, bool(o.redux and sc[o.redux[2]]), len(roles[next(iter(roles))][0]))
                seen.setdefault(k, []).append([n, dt, roles, sc])
        for k, l in seen.items():
            yield from l[:: max(1, len(l) // per)][:per]


def run_early(env, case):
    _, spec, fl, how, mask, mode = case
    name, dt, roles, sc = spec
    o = O.OPS[name]
    f = opcheck.getfn(env, o, dt, fl)
    tile = fl.startswith("tile")
    if f is None or (tile and (not opcheck.single(roles) or (o.tile_ok and not o.tile_ok(sc)) or (o.redux and sc[o.redux[2]]))):
        return {}
    if not tile and not o.tensor:
        return {}
    env.cfg(workers=2, poison=0x7E, **{k: v for k, v in MODES[mode].items()})
    base = env.live_handles()
    D, R, raw = {}, {}, {}
    for r, (shape, bt) in roles.items():
        rd = o.rdt.get(r, dt)
        d = np.asarray(o.data(r, tuple(shape), sc))
        if rd == "fp32":
            d = d.astype(np.float32)
        elif rd == "int64":
            d = d.astype(np.int64)
        elif rd == "bool":
            d = d.astype(np.bool_) if d.dtype == np.bool_ else (d.astype(np.int64) % 2 == 0)
        raw[r] = d
        D[r] = d.astype(np.float64)
        R[r] = env.L(rd, shape, d) if tile else env.T(rd, shape, bt, d)
    if o.redux and sc[o.redux[2]] and not tile:
        getattr(R[o.redux[0]], "set_reduction_" + o.redux[1])()
    f(R, sc)
    gone = [r for i, r in enumerate(roles) if mask >> i & 1]
    if how == 1:
        gone = gone[::-1]
    for r in gone:
        if how == 2:
            t = R.pop(r)
            env.live = [x for x in env.live if x is not t]
            env._meta.pop(id(t), None)
            del t
        else:
            R[r].unregister()
            if how == 1:
                R[r].unregister()
    with np.errstate(all="ignore"):
        want = o.ref(D, sc)
    for r in roles:
        if r in gone or r in o.scratch:
            continue
        got = env.getL(R[r]) if tile else env.get(R[r])
        if r in want:
            opcheck.compare(o, dt, r, got, want[r], D[r])
        elif not np.array_equal(got, raw[r]):
            raise Fail("operand %s was changed" % r)
    for r in R:
        R[r].unregister()
    env.finish()
    if not env.real and env.live_handles() != base:
        raise Fail("%s_%s keeps %d data handles (released %r right after submission)" % (name, dt, env.live_handles() - base, gone))
    return {"early": 1}


# ------------------------------------------------------------------ memory balance
class Mallinfo2(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in ("arena", "ordblks", "smblks", "hblks", "hblkhd", "usmblks", "fsmblks", "uordblks",
                                               "fordblks", "keepcost")]


_libc = ctypes.CDLL(None)
_libc.mallinfo2.restype = Mallinfo2


def used():
    m = _libc.mallinfo2()
    return m.uordblks + m.hblkhd


def balance(env, once, what, n=32):
    """Memory in use does not grow with the number of executions of the same program."""
    for i in range(4):
        once()
    lim = 8 * n
    u = []
    for rep in range(4):
        if rep:
            gc.collect()
        a = used()
        for i in range(n):
            once()
        u.append(used() - a)
        if u[-1] < lim:
            return
    raise Fail("%s: memory in use grows by %r bytes in %d executions" % (what, u, n))


def run_leak(env, case):
    _, spec, fl = case
    if env.real:
        return {}
    if spec[0] == "print":
        return leak_print(env, spec[1])
    name, dt, roles, sc = spec
    o = O.OPS[name]
    if opcheck.getfn(env, o, dt, fl) is None:
        return {}
    env.cfg(mode=LAZY, policy=LIFO, workers=2, poison=0x7E)
    balance(env, lambda: opcheck.run_op(env, o, dt, roles, sc, fl), "%s_%s (%s)" % (name, dt, fl))
    return {"leak": 1}


def leak_print(env, dt):
    if env.shim is None:
        return {}

    def once():
        a = env.T(dt, (), (), np.array(2.0))
        env.shim.capture(True)
        env.shim.print_scalar(a)
        env.wait()
        env.shim.capture(False)
        env.finish()
    env.cfg(mode=LAZY, policy=LIFO, workers=2, poison=0x7E)
    balance(env, once, "print_scalar_async " + dt)
    return {"leak": 1}


# ------------------------------------------------------------------ layers
REL = ["OL", "LO", "OLI", "ILO", "LOI", "LLOO", "OLOLI", "IOLIOL", "L", "O"]


class Keep:
    objs = []
    word = "OL"
    wait = False


def my_release(layer):
    """Release in the order of the word: outputs, layer, inputs; the objects stay referenced."""
    Keep.objs.append(layer)
    for a in Keep.word:
        if a == "O":
            for o in layer.activations_output:
                o.unregister()
        elif a == "L":
            layer.unregister()
        elif a == "I":
            for i in layer.activations_input:
                i.unregister()


def run_layer(env, case):
    _, mod, inner, word, early = case
    m = {"c16": c16, "c17": c17}[mod]
    Keep.word, Keep.objs = word, []
    base = env.live_handles()
    sr, sf = m.release, env.finish
    m.release = my_release
    full = "O" in word and "L" in word
    nets.Run.rel = word
    if early:
        nets.EARLY = my_release
    try:
        m.run(env, inner)
    finally:
        m.release = sr
        nets.EARLY = None
    left = env.live_handles() - base
    try:
        if full and left and not env.real:
            raise Fail("%d data handles left after releasing outputs, layer and inputs (%s) of %r" % (left, word, inner))
    finally:
        Keep.objs = []
        inner = None
        gc.collect()
    left = env.live_handles() - base
    if left and not env.real:
        raise Fail("%d data handles left after destruction of %r" % (left, case))
    return {"layers": 1}


def layer_cases(tier):
    from props import c16, c17
    j = 0
    per = {}
    for mod, m in (("c16", c16), ("c17", c17)):
        for c in m.cases("quick"):
            key = (mod, c[0].get("l"), str(c[2] if mod == "c16" else c[1]))
            per.setdefault(key, []).append(c)
        # a spread over the configurations of every kind of layer and word
    for (mod, l, w), cs in sorted(per.items()):
        n = 8 if tier == "quick" else 120
        for c in cs[:: max(1, len(cs) // n)]:
            for word in REL:
                j += 1
                if tier == "quick" and j % 5:
                    continue
                for early in (0, 1):
                    yield ["layer", mod, c, word, early]


# ------------------------------------------------------------------ models, losses, optimizers
def model_cases(tier):
    from props import c19
    j = 0
    for c in c19.cases("quick"):
        j += 1
        if j % (29 if tier == "quick" else 5) == 0:
            yield ["model", c]


def run_modelcase(env, case):
    base = env.live_handles()
    kept = []
    sb = dict(c19.BUILD)

    def wrap(f):
        def g(*a, **k):
            n0, k0 = env.live_handles(), len(env.live)
            md = f(*a, **k)
            obj = md.obj
            un = obj.unregister
            mine = {id(t) for x in obj.activations for t in (x.value, x.grad)}
            # tiles of the tensors of the model, those of its input activation included
            owned = env.live_handles() - n0 - sum(t.grid.nelems for t in env.live[k0:] if id(t) not in mine)

            def twice():
                n1 = env.live_handles()
                un()
                if n1 - env.live_handles() != owned and not env.real:
                    raise Fail("releasing the model gave back %d of %d data handles of %r" % (n1 - env.live_handles(), owned, case[1]))
                un()
            obj.unregister = twice
            kept.append(obj)
            return md
        return g
    for k in sb:
        c19.BUILD[k] = wrap(sb[k])
    try:
        c19.run(env, case[1])
    finally:
        c19.BUILD.update(sb)
    gc.collect()
    left = env.live_handles() - base
    if left and kept and not env.real:
        raise Fail("%d data handles left after releasing the model of %r" % (left, case[1]))
    for o in kept:
        o.unregister = None
    kept.clear()
    gc.collect()
    return {"models": 1}


OPTS = ["SGD", "SGDm", "Adam", "AdamAms", "FusedAdam", "FusedAdamW", "CE", "Frob"]


def object_cases(tier):
    for k in OPTS:
        for n in range(0, 4):
            for w in itertools.product("sw", repeat=n):
                for end in ("u", "uu", "d", "wu", "uw"):
                    for mode in range(5):
                        yield ["object", k, "".join(w), end, mode, ("fp32", "fp64")[mode % 2]]


def run_object(env, case):
    _, kind, word, end, mode, dt = case
    m = dict(MODES[mode])
    if m["mode"] == EXPLORE:
        m.update(full=0, max_states=2000)
    env.cfg(workers=2, poison=0x7E, **m)
    from nntile.tensor import TensorMoments
    import nntile.optimizer as no
    base = env.live_handles()
    P = [TensorMoments(env.T(dt, s, b, np.ones(s)), env.T(dt, s, b, np.full(s, 0.5)), True) for s, b in (((3,), (2,)), ((2, 2), (1, 2)))]
    nt = 0
    if kind == "CE":
        from nntile.loss import CrossEntropy
        x = TensorMoments(env.T(dt, (3, 4), (3, 2), nets.idata((3, 4), 2)), env.T(dt, (3, 4), (3, 2)), True)
        obj, nt = CrossEntropy.generate_simple(x, nt)
        env.put(obj.y, np.arange(4) % 3)
        env.put(obj.val, np.zeros(()))
        step = obj.calc_async
    elif kind == "Frob":
        from nntile.loss import Frob
        x = TensorMoments(env.T(dt, (3, 4), (2, 2), nets.idata((3, 4), 2)), env.T(dt, (3, 4), (2, 2)), True)
        obj, nt = Frob.generate_simple(x, nt)
        env.put(obj.y, nets.idata((3, 4), 7))
        step = obj.calc_async
    else:
        if kind.startswith("SGD"):
            obj = no.SGD(P, 0.1, nt, momentum=0.9 if kind == "SGDm" else 0.0)
        elif kind == "Adam":
            obj = no.Adam(P, 0.1, nt)
        elif kind == "AdamAms":
            obj = no.Adam(P, 0.1, nt, amsgrad=True)
        elif kind == "FusedAdam":
            obj = no.FusedAdam(P, 0.1, nt)
        else:
            obj = no.FusedAdamW(P, 0.1, nt)
        step = obj.step
    for a in word:
        step() if a == "s" else env.wait()
    for a in end:
        if a == "u":
            obj.unregister()
        elif a == "w":
            env.wait()
    if end == "d":
        step = obj = None
        gc.collect()
    vals = [env.get(p.value) for p in P]
    for p, v in zip(P, vals):
        if not np.isfinite(v).all():
            raise Fail("parameters are not finite after %r" % (case,))
    env.finish()
    if not env.real and env.live_handles() != base:
        raise Fail("%d data handles left by %s after %r and %r" % (env.live_handles() - base, kind, word, end))
    step = obj = None
    return {"objects": 1}


# ------------------------------------------------------------------
def cases(tier):
    q = tier == "quick"
    j = 0
    for w in words(4 if q else 5):
        j += 1
        yield ["word", w, j % 5 if len(w) > 3 else (j % 2) * 1, ("fp32", "fp64")[j % 2]]
    for w in user_cases(tier):
        j += 1
        yield ["user", w, j % 5, ("fp32", "fp64")[j // 5 % 2]]
    for n in range(1, 5 if q else 6):
        for w in itertools.product("fabpWu", repeat=n):
            if "u" in w[:-1]:
                continue
            j += 1
            yield ["print", "".join(w), j % 5, ("fp32", "fp64")[j // 5 % 2]]
    for s in specs(tier, 3 if q else 8):
        nr = len(s[2])
        for mask in range(1, 1 << nr):
            for how in (0, 1, 2):
                j += 1
                if q and nr > 2 and bin(mask).count("1") not in (1, nr) and j % 3:
                    continue
                yield ["early", s, ("core_async", "tile_async")[j % 2] if not q or nr < 4 or j % 3 == 0 else "core_async", how, mask, j % 5]
    for s in specs(tier, 1):
        for fl in ("core_async", "tile_async", "py"):
            yield ["leak", s, fl]
    for dt in ("fp32", "fp64"):
        yield ["leak", ["print", dt], "core_async"]
    yield from layer_cases(tier)
    yield from model_cases(tier)
    yield from object_cases(tier)


RUN = {"word": run_word, "user": run_user, "print": run_print, "early": run_early, "leak": run_leak, "layer": run_layer,
       "model": run_modelcase, "object": run_object}


@guarded
def run(env, case):
    return RUN[case[0]](env, case)
