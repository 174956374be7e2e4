"""C24: the runtime is started, paused, resumed and stopped exactly as asked, in any sequence.

Words over two configuration objects (create, shutdown, destroy), registration of codelets,
submission, waiting, reading, pausing and resuming; the model runtime counts initialisations
and shutdowns, and the same words run on the real runtime."""
import ctypes, gc, itertools, os
import numpy as np
import opcheck, ops as O
from h import Fail, DT, EAGER, LAZY, EXPLORE, FIFO, LIFO, ALT

REAL_BUDGET = {"quick": 14.0, "thorough": 200.0}
REAL_WORKERS = 2
REAL_STRIDE = 41
STATE_COUNTER = "steps"
ASSUMPTIONS = [
    "StarPU counts initialisations: the first starts the workers, the shutdown of the last stops them",
    "the application releases its data and resumes execution before the last configuration goes, and does not wait while it paused"]
MODES = [dict(mode=LAZY, policy=LIFO), dict(mode=EAGER), dict(mode=LAZY, policy=ALT), dict(mode=EXPLORE, full=0, max_states=3000, tol=0),
         dict(mode=LAZY, policy=FIFO)]
CFG = {"A": (1, 0, 0), "B": (3, 0, 0)}
ALPHA = "ABabxyiswgpr"


FULL_PACKAGE = True
MODS = {}


def setup(env, tier):
    opcheck.bind(env)
    import torch
    torch.set_num_threads(1)
    from props import c10, c16, c17, c18, c19
    MODS.update(c10=c10, c16=c16, c17=c17, c18=c18, c19=c19)
    for m in MODS.values():
        if hasattr(m, "setup"):
            m.setup(env, tier)
    if env.real:
        os.environ.pop("STARPU_NCPU", None)
        env.lib.starpu_worker_get_count.restype = ctypes.c_uint


class Sim:
    def __init__(self):
        self.st = {"A": None, "B": None}    # None: no object, True: running, False: shut down
        self.pause = 0
        self.pend = 0
        self.sess = 0

    def copy(self):
        s = Sim()
        s.st, s.pause, s.pend, s.sess = dict(self.st), self.pause, self.pend, self.sess
        return s

    def active(self):
        return sum(1 for v in self.st.values() if v)

    def ok(self, a):
        n = self.active()
        if a in "AB":
            return self.st[a] is None and self.sess < 3
        if a in "abxy":
            k = {"a": "A", "x": "A", "b": "B", "y": "B"}[a]
            if self.st[k] is None:
                return False
            return not (n == 1 and self.st[k] and self.pause)
        if not n:
            return False
        if a in "wg":
            return not (self.pause and self.pend)
        if a == "p":
            return self.pause < 2
        if a == "r":
            return self.pause > 0
        return True

    def step(self, a):
        n = self.active()
        if a in "AB":
            self.st[a] = True
            if n == 0:
                self.sess += 1
                self.pend = 0
        elif a in "ab":
            self.st[a.upper()] = False
        elif a in "xy":
            self.st[{"x": "A", "y": "B"}[a]] = None
        elif a == "s":
            self.pend += 1
        elif a in "wg":
            self.pend = 0
        elif a == "p":
            self.pause += 1
        elif a == "r":
            self.pause -= 1


def words(depth):
    def rec(w, s):
        if w:
            yield w
        if len(w) == depth:
            return
        for a in ALPHA:
            if s.ok(a):
                t = s.copy()
                t.step(a)
                yield from rec(w + a, t)
    yield from rec("", Sim())


def cases(tier):
    j = 0
    for w in words(6 if tier == "quick" else 7):
        # the second object is created after the first: names are interchangeable up to the number of workers
        if len(w) > 4 and w[0] == "B" and j % 2:
            j += 1
            continue
        j += 1
        yield [w, j % 5, ("fp32", "fp64")[(j // 5) % 2]]


    yield from session_cases(tier)


def session_cases(tier):
    """What an application does with the library, in one session of the runtime after another."""
    j = 0
    q = tier == "quick"
    for n, o in O.OPS.items():
        seen = {}
        for roles, sc in o.space("quick"):
            for dt in o.dts:
                k = (dt, bool(o.redux and sc[o.redux[2]]))
                seen.setdefault(k, []).append([dt, roles, sc])
        for k, l in seen.items():
            m = 3 if q else 30
            pick = l[:: max(1, len(l) // m)][:m]
            for fl in ("core_async", "tile_async", "core", "py"):
                for a, b in zip(pick, pick[1:] or pick):
                    j += 1
                    yield ["op", n, fl, a, b, j % 5]
    from props import c10, c16, c17, c18, c19
    for name, m in (("c10", c10), ("c16", c16), ("c17", c17), ("c18", c18), ("c19", c19)):
        per = {}
        for c in m.cases("quick"):
            key = str([x if isinstance(x, str) else x.get("l", x.get("m", x.get("k"))) if isinstance(x, dict) else None for x in c])
            per.setdefault(key, []).append(c)
        n = {"c10": 2, "c16": 4, "c17": 4, "c18": 4, "c19": 3}[name] * (1 if q else 8)
        for key, cs in sorted(per.items()):
            cs = cs[:: max(1, len(cs) // n)]
            for a, b in zip(cs, cs[1:] or cs):
                j += 1
                yield ["net", name, a, b]


def sessions(env, case):
    """Two uses, the first repeated, each in a session of its own."""
    core = env.core
    if env.conf is not None:
        env.wait()
        env.conf.shutdown()
        env.conf = None
        gc.collect()
        bad(env, "stopping the harness's own session")
    k = {}
    done = 0
    uses = case[2:4] if case[0] == "net" else case[3:5]
    for i, u in enumerate((uses[0], uses[1], uses[0])):
        conf = core.starpu.Config(1 + i, 0, 0)
        core.starpu.init()
        try:
            if case[0] == "net":
                r = MODS[case[1]].run(env, u)
            else:
                dt, roles, sc = u
                roles = {r: (tuple(s), tuple(b)) for r, (s, b) in roles.items()}
                env.cfg(workers=2, poison=0x7E, **dict(MODES[case[5]], tol=1))
                r = opcheck.run_op(env, O.OPS[case[1]], dt, roles, opcheck.tup(sc), case[2])
            done += bool(r)
        except Exception as e:
            raise Fail("in session %d: %s: %s" % (i + 1, type(e).__name__, e))
        gc.collect(0)
        conf.shutdown()
        bad(env, "session %d" % (i + 1))
    return {"sessions": 3 if done else 0, "steps": 3}


def real_cases(tier):
    """Deep words with every kind of action first."""
    j = 0
    for w in words(6):
        if len(w) == 6 and len(set(w)) >= 5 and ("s" in w or "a" in w):
            j += 1
            if (j * 7919) % (997 if tier == "quick" else 101) == 0:
                yield [w, 0, ("fp32", "fp64")[j % 2]]
    l = list(session_cases("quick"))
    yield from l[:: len(l) // (6 if tier == "quick" else 60)]


def rt(env, what):
    return env.lib.mc_runtime(what)


def run(env, case):
    try:
        return sessions(env, case) if case[0] in ("op", "net") else play(env, case)
    except Fail as e:
        raise Fail("%s (case %s)" % (e, case))


def play(env, case):
    word, mode, dt = case
    model = not env.real
    core, lib = env.core, env.lib
    if env.conf is not None:
        # stop the runtime the harness started
        env.wait()
        env.conf.shutdown()
        env.conf = None
        gc.collect()
        bad(env, "stopping the harness's own session")
    n = 1
    k = 0
    while k < min(n, 4):
        if model:
            env.choose(k)
        env.cfg(workers=2, poison=0x7E, **MODES[mode])
        if model:
            lib.mc_nsub_steps(1 if len(word) % 2 else 0)
            if rt(env, 0) != 0:
                raise Fail("the runtime is still running before the word")
        elif lib.starpu_is_initialized():
            raise Fail("the runtime is still running before the word")
        try:
            once(env, word, dt)
        finally:
            if model:
                lib.mc_nsub_steps(0)
        if model:
            n = env.choose(0) if MODES[mode]["mode"] == EXPLORE else 1
        k += 1
    return {"words": 1, "steps": len(word)}


def bad(env, what):
    v = env.violations()
    if v:
        raise Fail("%s: %s" % (what, "; ".join(v[:2])))


def once(env, word, dt):
    core, lib, model = env.core, env.lib, not env.real
    S = Sim()
    obj = {"A": None, "B": None}
    T, val = None, 1.0
    want = None
    base = [rt(env, i) for i in range(4)] if model else None
    inits = stops = 0
    f = getattr(env.ct, "add_scalar_async_" + dt, None)
    keep = []

    def start():
        core.starpu.init()
        t = env.T(dt, (3,), (2,), np.full(3, val))
        return t

    def read(t):
        got = env.get(t)
        if not np.array_equal(got.astype(float), np.full(3, val)):
            raise Fail("data are %r after %s, expected %r" % (list(got), word, val))

    def check(a, i):
        w = "%s (up to %d)" % (word, i + 1)
        act = S.active()
        if model:
            bad(env, w)
            if rt(env, 0) != act:
                raise Fail("%d initialisations are in force after %s, %d configurations are" % (rt(env, 0), w, act))
            if rt(env, 1) - base[1] != S.sess:
                raise Fail("%d sessions were started by %s, expected %d" % (rt(env, 1) - base[1], w, S.sess))
            if rt(env, 2) - base[2] != inits or rt(env, 3) - base[3] != stops:
                raise Fail("%d initialisations and %d shutdowns by %s, expected %d and %d" % (
                    rt(env, 2) - base[2], rt(env, 3) - base[3], w, inits, stops))
            if act and rt(env, 5) != want:
                raise Fail("%d CPU workers were asked of the runtime, the configuration says %d" % (rt(env, 5), want))
            if act and rt(env, 6) != 0:
                raise Fail("%d CUDA workers were asked of the runtime, the configuration says 0" % rt(env, 6))
            if act and rt(env, 4) != S.pause:
                raise Fail("execution is paused %d times after %s, expected %d" % (rt(env, 4), w, S.pause))
        else:
            if bool(lib.starpu_is_initialized()) != bool(act):
                raise Fail("the runtime %s after %s" % ("runs" if not act else "does not run", w))
            if act and lib.starpu_worker_get_count() != want:
                raise Fail("%d workers after %s, expected %d" % (lib.starpu_worker_get_count(), w, want))

    def leave(kk):
        """Before the last configuration goes: take the data out."""
        nonlocal T
        if S.active() == 1 and S.st[kk] and T is not None:
            read(T)
            T.unregister()
            env.live.remove(T)
            T = None

    for i, a in enumerate(word):
        first = S.active() == 0
        if a in "AB":
            if first:
                want = CFG[a][0]
            obj[a] = core.starpu.Config(*CFG[a])
            inits += 1
        elif a in "abxy":
            kk = {"a": "A", "x": "A", "b": "B", "y": "B"}[a]
            leave(kk)
            stops += 1 if S.st[kk] else 0
            if a in "ab":
                obj[kk].shutdown()
            else:
                obj[kk] = None
                gc.collect(0)
        elif a == "i":
            core.starpu.init()
        elif a == "s":
            f(1.0, 2.0, T)
            val = 1.0 + 2.0 * val
        elif a == "w":
            env.wait()
            if env.pending():
                raise Fail("waiting returned with %d unfinished tasks after %s" % (env.pending(), word[:i + 1]))
        elif a == "g":
            read(T)
        elif a == "p":
            core.starpu.pause()
        elif a == "r":
            core.starpu.resume()
        S.step(a)
        check(a, i)
        if a in "AB" and first:
            T = start()
    while S.pause and S.active():
        core.starpu.resume()
        S.pause -= 1
    for kk in "AB":
        if S.st[kk] is not None:
            leave(kk)
            stops += 1 if S.st[kk] else 0
            obj[kk] = None
            gc.collect(0)
            S.st[kk] = None
            check("end", len(word))
    env.finish()
