"""Harness side of the model checker: loads the extension built from /repo on
the model runtime (or on the real StarPU for conformance runs) and offers
tensor construction/inspection primitives plus the model's control API."""
import os, sys, ctypes, types, itertools
import numpy as np

DT = {"fp32": np.float32, "fp64": np.float64, "int64": np.int64, "bool": np.bool_}
EAGER, LAZY, EXPLORE = 0, 1, 2
FIFO, LIFO, ALT = 0, 1, 2
STATS = ["submitted", "executed", "states", "transitions", "terminals", "explored_points",
         "nontrivial_points", "capped", "max_pending", "max_ready", "violations", "handles",
         "live_handles", "redux_merges", "commute_groups", "replicas", "max_distinct",
         "cpy_tasks", "acquires"]


class Fail(Exception):
    pass


def tiles(shape, bt):
    """All (tile multi-index, slices) of a tensor in linear (first index fastest) order."""
    grid = [-(-s // b) for s, b in zip(shape, bt)]
    for idx in itertools.product(*[range(g) for g in reversed(grid)]):
        idx = idx[::-1]
        yield idx, tuple(slice(i * b, min((i + 1) * b, s)) for i, b, s in zip(idx, bt, shape))


class Env:
    def __init__(self, out, real=False, ncpu=3, full_package=False):
        self.real = real
        self.out = out
        pkg = os.path.join(out, "pkg")
        sys.path.insert(0, pkg)
        sys.path.insert(0, out)
        if not full_package:  # import submodules on demand without running __init__ (which imports torch)
            m = types.ModuleType("nntile")
            m.__path__ = [os.path.join(pkg, "nntile")]
            sys.modules["nntile"] = m
        import nntile.nntile_core as core
        sys.modules["nntile"].__dict__.setdefault("nntile_core", core)
        self.core = core
        self.ct = core.tensor
        import nntile.tensor as nt
        self.nt = nt
        try:
            import mcshim
            self.shim = mcshim.tile
            self.ix = mcshim.index
        except ImportError:
            self.shim = self.ix = None
        try:
            import mcstandin
            self.standin = mcstandin
        except ImportError:
            self.standin = None
        self.lib = ctypes.CDLL("libstarpu-1.4.so.4")
        is_model = hasattr(self.lib, "mc_is_model")
        if is_model == bool(real):
            raise RuntimeError("wrong runtime library loaded (model=%s)" % is_model)
        if not real:
            self.lib.mc_violation.restype = ctypes.c_char_p
            self.lib.mc_log_line.restype = ctypes.c_char_p
            self.lib.mc_choose.restype = ctypes.c_long
            self.lib.mc_live.restype = ctypes.c_long
            self.lib.mc_handle_info.restype = ctypes.c_long
        self.conf = core.starpu.Config(ncpu, 0, 0)
        core.starpu.init()
        self.cls = {"fp32": self.ct.Tensor_fp32, "fp64": self.ct.Tensor_fp64,
                    "int64": self.ct.Tensor_int64, "bool": self.ct.Tensor_bool, "fp16": self.ct.Tensor_fp16}
        self.tcls = {"fp32": core.tile.Tile_fp32, "fp64": core.tile.Tile_fp64}
        if self.shim is not None:
            self.tcls["int64"] = self.shim.Tile_int64
            self.tcls["bool"] = self.shim.Tile_bool
        self.trans = core.trans
        self.notrans = core.notrans
        self.live = []
        self._traits = {}
        self._meta = {}
        self.cur = None

    # ---- model control -------------------------------------------------
    def cfg(self, mode=EAGER, policy=FIFO, workers=2, full=1, maxdev=-1, max_states=100000,
            poison=0xFF, merge=0, tol=0, drain_all=0):
        if self.real:
            return
        k = (mode, policy, workers, full, maxdev, max_states, poison, merge, tol, drain_all)
        self.lib.mc_config(mode, policy, workers, full, maxdev, ctypes.c_uint64(max_states), poison,
                           merge, tol, drain_all)
        self.cur = k

    def stats(self):
        if self.real:
            return {}
        a = (ctypes.c_uint64 * len(STATS))()
        self.lib.mc_stats(a, len(STATS))
        return dict(zip(STATS, list(a)))

    def violations(self):
        if self.real:
            return []
        n = self.lib.mc_violations()
        if not n:
            return []
        v = [self.lib.mc_violation(i).decode() for i in range(n)]
        self.lib.mc_clear_violations()
        return v

    def choose(self, k):
        """EXPLORE: continue from the k-th distinct outcome; returns how many there were."""
        return 1 if self.real else self.lib.mc_choose(ctypes.c_long(k))

    def pending(self):
        return 0 if self.real else self.lib.mc_pending()

    def wait(self):
        self.core.starpu.wait_for_all()

    def live_handles(self):
        return 0 if self.real else self.lib.mc_live()

    def log(self, on=True):
        if not self.real:
            self.lib.mc_log(1 if on else 0)

    def log_lines(self):
        if self.real:
            return []
        return [self.lib.mc_log_line(i).decode() for i in range(self.lib.mc_log_size())]

    # ---- data ----------------------------------------------------------
    def traits(self, shape, bt):
        k = (tuple(shape), tuple(bt))
        t = self._traits.get(k)
        if t is None:
            if len(self._traits) > 20000:
                self._traits.clear()
            t = self.ct.TensorTraits(list(shape), list(bt))
            n = 1
            for s, b in zip(shape, bt):
                n *= -(-s // b)
            t = self._traits[k] = (t, [0] * n)
        return t

    def T(self, dt, shape, bt, data=None):
        """A tensor whose tiles are filled directly (no scatter task)."""
        tr, dist = self.traits(shape, bt)
        t = self.cls[dt](tr, dist, 0)
        self._meta[id(t)] = (dt, tuple(shape), tuple(bt))
        self.live.append(t)
        if data is not None:
            self.put(t, data)
        return t

    def meta(self, t):
        m = self._meta.get(id(t))
        if m is None:
            dt = type(t).__name__.split("_")[-1]
            m = (dt, tuple(t.shape), tuple(t.basetile_shape))
        return m

    def put(self, t, data):
        dt, shape, bt = self.meta(t)
        data = np.asarray(data, dtype=DT[dt])
        if len(shape) == 0:
            self.tile_of(t, 0).from_array(data.reshape(1))
            return
        for i, (idx, sl) in enumerate(tiles(shape, bt)):
            self.tile_of(t, i).from_array(np.asfortranarray(data[sl]))

    def tile_of(self, t, i):
        return t.get_tile(i)

    def get(self, t):
        dt, shape, bt = self.meta(t)
        if len(shape) == 0:
            b = np.empty(1, dtype=DT[dt], order="F")
            self.tile_of(t, 0).to_array(b)
            return b.reshape(())
        out = np.empty(shape, dtype=DT[dt], order="F")
        for i, (idx, sl) in enumerate(tiles(shape, bt)):
            b = np.empty([s.stop - s.start for s in sl], dtype=DT[dt], order="F")
            self.tile_of(t, i).to_array(b)
            out[sl] = b
        return out

    def L(self, dt, shape, data=None):
        """A standalone tile."""
        k = ("tile", tuple(shape))
        tr = self._traits.get(k)
        if tr is None:
            tr = self._traits[k] = self.core.tile.TileTraits(list(shape))
        t = self.tcls[dt](tr)
        self._meta[id(t)] = (dt, tuple(shape), None)
        self.live.append(t)
        if data is not None:
            self.putL(t, data)
        return t

    def putL(self, t, data):
        dt, shape, _ = self.meta(t)
        data = np.asarray(data, dtype=DT[dt])
        t.from_array(np.asfortranarray(data.reshape(shape or (1,))))

    def getL(self, t):
        dt, shape, _ = self.meta(t)
        b = np.empty(shape or (1,), dtype=DT[dt], order="F")
        t.to_array(b)
        return b.reshape(shape)

    # ---- end of a case ---------------------------------------------------
    def finish(self, check=True):
        """Release everything the case created and report what the model saw."""
        for t in self.live:
            t.unregister()
        self.live = []
        self._meta.clear()
        v = self.violations()
        if not self.real:
            if self.lib.mc_pending():
                self.lib.mc_drain()
                v += self.violations()
            self.lib.mc_gc()
        if v and check:
            raise Fail("; ".join(v[:3]))
        return v

    def abandon(self):
        for t in self.live:
            try:
                t.unregister()
            except Exception:
                pass
        self.live = []
        self._meta.clear()
        self.violations()
