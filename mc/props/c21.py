"""C21: restricting where tasks may run and restoring it, in any sequence."""
import os, re, subprocess, itertools, sys
import numpy as np
import opcheck, ops as O
from h import Fail, LAZY, LIFO, ALT

ASSUMPTIONS = [
    "no CUDA device or CUDA build here: codelets get the CPU function as the implementation for the second kind of "
    "worker, registered through the library's own Codelet::init; restrict, restore and submission are the real code",
    "a task may run where its codelet says at submission (StarPU's contract)"]
STATE_COUNTER = "steps"
REAL_STRIDE = 1

ACT = ("cpu", "cuda", "both", "restore")


def debruijn(k, n):
    """Cyclic sequence over range(k) that contains every word of length n."""
    a = [0] * k * n
    out = []

    def db(t, p):
        if t > n:
            if n % p == 0:
                out.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)
    db(1, 1)
    return out + out[:n - 1]


def symbols(lib):
    """Codelets and per-operation restrict/restore functions of the library, by operation."""
    base = None
    cl, fn = [], {}
    txt = subprocess.run(["nm", "-D", "-S", lib], stdout=subprocess.PIPE, check=True).stdout.decode()
    rows = [l.split() for l in txt.splitlines()]
    rows = [r for r in rows if len(r) == 4 and r[3].startswith("_ZN6nntile6starpu")]
    dem = subprocess.run(["c++filt"], input="\n".join(r[3] for r in rows).encode(), stdout=subprocess.PIPE,
                         check=True).stdout.decode().splitlines()
    for r, d in zip(rows, dem):
        m = re.match(r"nntile::starpu::(\w+)::(codelet\w*|restrict_where\(unsigned int\)|restore_where\(\))$", d)
        if not m:
            continue
        if m.group(2).startswith("codelet"):
            if r[2] in "BDbd":
                cl.append((m.group(1), m.group(2), r[3]))
        else:
            fn.setdefault(m.group(1), {})[m.group(2).split("(")[0]] = r[3]
    return cl, fn


class W:
    pass


def setup(env, tier):
    opcheck.bind(env)
    W.tier = tier
    W.names = [n for n in O.OPS]
    if env.real:
        return
    import ctypes
    import mcwhere as w
    W.w = w
    libp = os.path.join(env.out, "libnntile.so")
    lib = ctypes.CDLL(libp)
    cl, fn = symbols(libp)
    cl.sort()
    if len(cl) < 50 or len(fn) < 20:
        raise RuntimeError("codelets not found in %s: %d codelets, %d operations" % (libp, len(cl), len(fn)))
    adr = lambda s: ctypes.cast(getattr(lib, s), ctypes.c_void_p).value
    W.cl = cl
    W.addr = [ctypes.addressof(ctypes.c_char.in_dll(lib, s)) for _, _, s in cl]
    W.index = {a: i for i, a in enumerate(W.addr)}
    W.ops = sorted(set(c[0] for c in cl))
    W.member = {o: np.array([i for i, c in enumerate(cl) if c[0] == o]) for o in W.ops}
    W.fn = {o: {k: adr(s) for k, s in f.items()} for o, f in fn.items()}
    w.set(W.addr)
    W.val = {"cpu": w.CPU, "cuda": w.CUDA, "both": w.CPU | w.CUDA}
    W.n = len(cl)
    W.logbuf = (ctypes.c_uint64 * 100000)(), (ctypes.c_int * 100000)()


def op_names():
    """Operations with their own restrict/restore, from the sources (cases are listed before loading)."""
    repo = os.environ.get("MC_REPO", "/repo")
    out = []
    for f in sorted(os.listdir(repo + "/src/starpu")):
        m = re.match(r"(\w+)\.cc(\.in)?$", f)
        if m:
            out.append(m.group(1))
    return out


def run_specs(tier):
    """The smallest instances of each operation."""
    out = []
    for n, o in O.OPS.items():
        seen = {}
        for roles, sc in o.space("quick"):
            for dt in o.dts:
                k = (dt, bool(o.redux and sc[o.redux[2]]))
                seen.setdefault(k, []).append([n, dt, roles, sc])
        for k, l in seen.items():
            step = max(1, len(l) // (3 if tier == "quick" else 8))
            out += l[::step]
    return out


def cases(tier):
    names = op_names()
    out = []
    na = list(itertools.product((0, 1), repeat=2)) + [(0,), (1,), ()]
    for a in na:
        for b in na:
            out.append(["codelet", list(a), list(b), 4 if tier == "quick" else 6])
    for rot in range(3):
        for i in range(len(names)):
            out.append(["near", rot, names[i], names[(i + 1) % len(names)], 3 if tier == "quick" else 4])
            out.append(["pairs", rot, names[i]])
            out.append(["globals", rot, names[i], 5 if tier == "quick" else 7])
    for s in run_specs(tier):
        for rot in range(3):
            out.append(["run", rot, s, 2 if tier == "quick" else 3])
    return out


class State:
    """Reference: where each codelet may run after a history."""

    def __init__(self, rot):
        w = W.w
        kinds = [(i + rot) % 3 for i in range(W.n)]
        # neighbouring operations differ in kind, and so do the codelets of one operation
        for i, k in enumerate(kinds):
            w.kind(i, k)
        self.default = np.array([(w.CPU, w.CPU | w.CUDA, w.CUDA)[k] for k in kinds], dtype=np.uint32)
        self.cur = self.default.copy()
        self.check(("init",))

    def apply(self, op, act):
        w = W.w
        if op is None:
            if act == "restore":
                w.restore_where()
            else:
                w.restrict_where(W.val[act])
            idx = slice(None)
        else:
            f = W.fn.get(op, {})
            k = "restore_where" if act == "restore" else "restrict_where"
            if k not in f or op not in W.member:
                return False
            if act == "restore":
                w.call(f[k])
            else:
                w.call_u32(f[k], W.val[act])
            idx = W.member[op]
        d = self.default[idx]
        if act == "restore":
            self.cur[idx] = d
        else:
            v = W.val[act]
            self.cur[idx] = np.where((d & v) == v, np.uint32(v), self.cur[idx])
        return True

    def check(self, hist):
        s = np.frombuffer(W.w.snap(), dtype=np.uint32)
        if not np.array_equal(s, self.cur):
            i = int(np.argwhere(s != self.cur)[0][0])
            raise Fail("%s::%s may run on %d after %r, expected %d (default %d; 2 CPU, 8 CUDA)"
                       % (W.cl[i][0], W.cl[i][1], s[i], list(hist)[-6:], self.cur[i], self.default[i]))


def walk(rot, acts, seq):
    st = State(rot)
    n = 0
    hist = []
    for j in seq:
        op, act = acts[j]
        hist.append((op or "*", act))
        if st.apply(op, act):
            n += 1
            st.check(hist)
        if len(hist) > 12:
            hist = hist[-6:]
    return n


def run(env, case):
    kind = case[0]
    if kind == "codelet":
        return codelet(case[1], case[2], case[3])
    try:
        if kind == "near":
            _, rot, a, b, depth = case
            acts = [(None, x) for x in ACT] + [(a, x) for x in ACT] + [(b, x) for x in ACT]
            n = walk(rot, acts, debruijn(12, depth))
            return {"words": 12 ** depth, "steps": n}
        if kind == "pairs":
            # every pair of actions of any two operations: the first is this operation's
            _, rot, a = case
            acts = [(a, x) for x in ACT] + [(o, x) for o in W.ops for x in ACT]
            st = State(rot)
            n = 0
            for x in ACT:
                for o in W.ops:
                    for y in ACT:
                        n += st.apply(a, x) + st.apply(o, y)
                        st.check([(a, x), (o, y)])
            return {"words": 16 * len(W.ops), "steps": n}
        if kind == "globals":
            _, rot, a, depth = case
            acts = [(None, x) for x in ACT] + [(a, "cpu"), (a, "restore")]
            d = depth - 1
            n = walk(rot, acts, debruijn(6, d))
            return {"words": 6 ** d, "steps": n}
        if kind == "run":
            _, rot, spec, depth = case
            return run_ops(env, rot, spec, depth)
    finally:
        W.w.original()


def codelet(a, b, depth):
    w = W.w
    default = (w.CPU if any(a) else 0) | (w.CUDA if any(b) else 0)
    both = w.CPU | w.CUDA
    if not default:
        depth = 1
    n = 0
    for word in itertools.product(ACT + ("init",), repeat=depth):
        c = w.Codelet()
        c.init(a, b)
        cur = default
        if (c.where & both) != default:
            raise Fail("after init with CPU %r and CUDA %r implementations: where %d, expected %d" % (a, b, c.where, default))
        want = [0] * len(c.funcs)
        for i, x in enumerate(a):
            want[2 * i] = x
        for i, x in enumerate(b):
            want[2 * i + 1] = x
        if [int(x) for x in c.funcs] != want:
            raise Fail("init with CPU %r and CUDA %r implementations registers %r" % (a, b, c.funcs))
        for i, act in enumerate(word):
            if act == "init":
                c.init(a, b)
                cur = default
            elif act == "restore":
                c.restore_where()
                cur = default
            else:
                v = W.val[act]
                c.restrict_where(v)
                if default & v == v:
                    cur = v
            n += 1
            if (c.where & both) != cur:
                raise Fail("CPU %r CUDA %r: where %d after %r, expected %d" % (a, b, c.where, word[:i + 1], cur))
    return {"words": 5 ** depth, "steps": n}


def run_ops(env, rot, spec, depth):
    import ctypes
    name, dt, roles, sc = spec
    o = O.OPS[name]
    st = State(rot)
    n = runs = subs = 0
    used = [x for x in (o.name, o.name.split("_")[0]) if x in W.fn][:1]
    acts = [(None, x) for x in ACT] + [(u, x) for u in used for x in ("cpu", "cuda")]
    hist = []
    env.cfg(mode=LAZY, policy=LIFO, workers=2, poison=0x7E)
    lib = env.lib
    lib.mc_where_log(1)
    try:
        for j in debruijn(len(acts), depth):
            op, act = acts[j]
            hist = (hist + [(op or "*", act)])[-6:]
            n += 1
            if not st.apply(op, act):
                continue
            st.check(hist)
            for fl in ("core_async", "tile_async", "core"):
                try:
                    runs += bool(opcheck.run_op(env, o, dt, roles, sc, fl))
                except Fail:
                    raise
                except RuntimeError as e:
                    raise Fail("after %r: %s refused: %s" % (hist, fl, e))
                k = lib.mc_where_size()
                if k > 100000:
                    raise Fail("too many submissions")
                cb, wb = W.logbuf
                lib.mc_where_get(cb, wb)
                for q in range(k):
                    i = W.index.get(cb[q])
                    if i is None:
                        continue
                    if wb[q] != st.cur[i]:
                        raise Fail("after %r a task of %s::%s may run on %d, expected %d"
                                   % (hist, W.cl[i][0], W.cl[i][1], wb[q], st.cur[i]))
                    subs += 1
                lib.mc_where_log(1)
    finally:
        lib.mc_where_log(0)
    return {"words": len(acts) ** depth, "steps": n, "op_runs": runs, "submissions": subs}


def real_cases(tier):
    l = [s for s in run_specs("quick")]
    return [["real", s] for s in l[:: max(1, len(l) // 120)]]


def run_real(env, case):
    name, dt, roles, sc = case[1]
    o = O.OPS[name]
    s = env.core.starpu
    F = [s.restrict_cpu, s.restrict_cuda, s.restrict_restore]
    n = 0
    for j in debruijn(3, 2):
        F[j]()
        for fl in ("core", "tile"):
            n += bool(opcheck.run_op(env, o, dt, roles, sc, fl))
    return {"real_runs": n}
