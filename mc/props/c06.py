"""C06: tilings, index maps and block-cyclic placement, every shape within the bound.

The references below are written from the definitions (mixed-radix counting
with the first index fastest), not from the code under test."""
import itertools
import numpy as np
from h import Fail

ASSUMPTIONS = ["shapes whose element count overflows the 64-bit index type are not considered"]
REAL_BUDGET = {"quick": 6.0, "thorough": 40.0}
TIER = "quick"


def setup(env, tier):
    global TIER
    TIER = tier


def prod(x):
    n = 1
    for v in x:
        n *= v
    return n


def rejects(f, what):
    try:
        r = f()
    except Exception:
        return
    raise Fail("%s accepted, returned %s" % (what, str(r)[:100]))


def eq(a, b, what):
    a = [int(x) for x in a] if hasattr(a, "__iter__") else a
    b = list(b) if hasattr(b, "__iter__") else b
    if a != b:
        raise Fail("%s: got %s, expected %s" % (what, a, b))


def counting(shape):
    """All indices of a box in column-major order."""
    for i in itertools.product(*[range(s) for s in reversed(shape)]):
        yield i[::-1]


# ---- cases ----------------------------------------------------------------
def shapes(maxd):
    for nd, m in enumerate(maxd):
        yield from itertools.product(range(1, m + 1), repeat=nd)


BIG = [(3, 2**31), (2**31 + 1, 3), (2**33, 5, 2), (5, 2**32, 3), (2**20, 2**20, 2**20), (2, 2**61), (2**31 - 1, 2**31 - 1),
       (7, 2**16, 2**16 + 1, 2**8)]


def cases(tier):
    q = tier == "quick"
    for s in shapes((0, 9, 6, 4, 3) if q else (0, 20, 9, 6, 4, 3)):
        yield ["tile", s]
    for s in BIG:
        yield ["big", s]
    for s in shapes((0, 9, 5, 4, 2) if q else (0, 16, 8, 5, 3, 2)):
        yield ["tensor", s]
    # invalid shapes: every assignment with at least one non-positive extent
    for nd in range(1, 4 if q else 5):
        for s in itertools.product((-3, -1, 0, 1, 2, 3), repeat=nd):
            yield ["invalid", s]
    for s in shapes((0, 5, 4, 3) if q else (0, 7, 5, 4)):
        yield ["objects", s]
    for g in shapes((0, 7, 5, 3) if q else (0, 12, 7, 5, 3)):
        for m in itertools.product(range(1, (4 if q and len(g) > 2 else 5)), repeat=len(g)):
            yield ["cyclic", g, m]
        for m in itertools.product((-2, 0, 2), repeat=len(g)):
            if any(x <= 0 for x in m):
                yield ["cyclic_bad", g, m]
    # many dimensions, many tiles
    for g, m in itertools.product(((2, 2, 2, 2), (3, 2, 1, 2), (2, 2, 2, 2, 2), (2, 1, 3, 2, 2), (2, 2, 1, 2, 1, 2)), ((2, 1, 2, 1, 2, 1), (1, 2, 3, 2, 1, 2), (2, 2, 2, 2, 2, 2), (3, 1, 1, 2, 2, 3))):
        yield ["cyclic", g, m[:len(g)]]
    for g, m in (((70,), (4,)), ((70,), (70,)), ((30, 20), (7, 3)), ((9, 8, 7), (2, 3, 5)), ((3, 2), (40, 50))):
        yield ["cyclic", g, m]
    for s in ((70,), (33, 20), (2, 3, 2, 1, 2), (1, 1, 2, 1, 2), (2, 1, 1, 2, 1, 2)):
        yield ["tile", s]
    for s in ((20,), (2, 1, 2, 1, 2)):
        yield ["tensor", s]
    for s in BIG:
        yield ["bigtensor", s]
    # tiles far larger than the tensor
    for s in shapes((0, 6, 4, 3, 2) if q else (0, 12, 6, 4, 3)):
        for m in itertools.product((0, 1), repeat=len(s)):
            if any(m):
                yield ["hugetile", s, m]


def run(env, case):
    kind = case[0]
    n = globals()["r_" + kind](env, *[tuple(x) for x in case[1:]])
    env.finish()
    return {"index_states": n, kind: 1}


# ---- TileTraits -------------------------------------------------------------
def check_tile(env, t, shape, what):
    nd = len(shape)
    eq(t.ndim, nd, what + " ndim")
    eq(t.shape, shape, what + " shape")
    eq(t.nelems, prod(shape), what + " nelems")
    eq(t.stride, [prod(shape[:i]) for i in range(nd)], what + " stride")
    if env.ix is not None:
        ms = [list(x) for x in env.ix.matrix_shape(t)]
        eq(len(ms), nd + 1, what + " matrix_shape length")
        for i in range(nd + 1):
            eq(ms[i], [prod(shape[:i]), prod(shape[i:])], what + " matrix_shape[%d]" % i)


def r_tile(env, shape):
    t = env.core.tile.TileTraits(list(shape))
    nd = len(shape)
    w = "TileTraits%s" % (shape,)
    check_tile(env, t, shape, w)
    n = 0
    for k, idx in enumerate(counting(shape)):
        eq(t.index_to_linear(list(idx)), k, "%s.index_to_linear(%s)" % (w, idx))
        eq(t.linear_to_index(k), idx, "%s.linear_to_index(%d)" % (w, k))
        n += 1
    for k in (-2 ** 40, -2, -1, prod(shape), prod(shape) + 1, 2 ** 40):
        rejects(lambda: t.linear_to_index(k), "%s.linear_to_index(%d)" % (w, k))
    inside = set(counting(shape))
    for idx in itertools.product(*[range(-2, s + 2) for s in shape]):
        ok = idx in inside
        if not ok:
            rejects(lambda: t.index_to_linear(list(idx)), "%s.index_to_linear(%s)" % (w, idx))
        if env.ix is not None:
            eq(bool(env.ix.contains_index(t, list(idx))), ok, "%s.contains_index(%s)" % (w, idx))
        n += 1
    for d in range(0, nd + 3):
        if d != nd:
            rejects(lambda: t.index_to_linear([0] * d), "%s.index_to_linear with %d indices" % (w, d))
            if env.ix is not None:
                rejects(lambda: env.ix.contains_index(t, [0] * d), "%s.contains_index with %d indices" % (w, d))
    return n


def corners(shape):
    """Indices whose coordinates sit at either end of a dimension or in its middle."""
    return itertools.product(*[sorted({0, 1 % s, s // 2, s - 2 if s > 1 else 0, s - 1}) for s in shape])


def r_big(env, shape):
    t = env.core.tile.TileTraits(list(shape))
    w = "TileTraits%s" % (shape,)
    check_tile(env, t, shape, w)
    n = 0
    for idx in corners(shape):
        k = sum(i * prod(shape[:d]) for d, i in enumerate(idx))
        eq(t.index_to_linear(list(idx)), k, "%s.index_to_linear(%s)" % (w, idx))
        eq(t.linear_to_index(k), idx, "%s.linear_to_index(%d)" % (w, k))
        n += 1
    for d in range(len(shape)):
        for v in (-1, shape[d], shape[d] + 2 ** 32):
            idx = [0] * len(shape)
            idx[d] = v
            rejects(lambda: t.index_to_linear(idx), "%s.index_to_linear(%s)" % (w, idx))
    rejects(lambda: t.linear_to_index(prod(shape)), w + ".linear_to_index(nelems)")
    return n


# ---- TensorTraits ---------------------------------------------------------
def split(s, b):
    """Extents of the tiles of one dimension: full tiles while they fit."""
    out = []
    while s > 0:
        out.append(min(b, s))
        s -= b
    return out


def check_tensor(env, tr, shape, bt, w):
    check_tile(env, tr, shape, w)
    eq(tr.basetile_shape, bt, w + " basetile_shape")
    cuts = [split(s, b) for s, b in zip(shape, bt)]
    grid = [len(c) for c in cuts]
    eq(tr.get_grid_shape(), grid, w + " get_grid_shape")
    check_tile(env, tr.grid, grid, w + " grid")
    if env.ix is not None:
        eq(env.ix.leftover_shape(tr), [c[-1] for c in cuts], w + " leftover_shape")
    return cuts, grid


def r_tensor(env, shape):
    n = 0
    for bt in itertools.product(*[range(1, s + 3) for s in shape]):
        tr = env.ct.TensorTraits(list(shape), list(bt))
        w = "TensorTraits(%s, %s)" % (shape, bt)
        cuts, grid = check_tensor(env, tr, shape, bt, w)
        cover = np.zeros(shape, dtype=np.int64)
        inside = set(counting(grid))
        for k, idx in enumerate(counting(grid)):
            ts = tr.get_tile_shape(list(idx))
            eq(ts, [c[i] for c, i in zip(cuts, idx)], "%s.get_tile_shape(%s)" % (w, idx))
            # the box the tile occupies, from its index and reported shape
            cover[tuple(slice(i * b, i * b + e) for i, b, e in zip(idx, bt, ts))] += 1
            if any(i * b + e > s for i, b, e, s in zip(idx, bt, ts, shape)):
                raise Fail("%s: tile %s sticks out of the tensor" % (w, idx))
            eq(tr.grid.index_to_linear(list(idx)), k, "%s.grid.index_to_linear(%s)" % (w, idx))
            eq(tr.grid.linear_to_index(k), idx, "%s.grid.linear_to_index(%d)" % (w, k))
            n += 1
        if not (cover == 1).all():
            raise Fail("%s: tiles do not cover every element exactly once" % w)
        for idx in itertools.product(*[(-1, 0, g - 1, g, g + 1) for g in grid]):
            if idx not in inside:
                rejects(lambda: tr.get_tile_shape(list(idx)), "%s.get_tile_shape(%s)" % (w, idx))
        for d in range(len(shape) + 2):
            if d != len(shape):
                rejects(lambda: tr.get_tile_shape([0] * d), "%s.get_tile_shape with %d indices" % (w, d))
                rejects(lambda: env.ct.TensorTraits(list(shape), [1] * d), "TensorTraits(%s, %s)" % (shape, [1] * d))
        repr(tr)
    return n


def r_bigtensor(env, shape):
    n = 0
    opts = [sorted({max(1, s // 3), max(1, s // 2), s, max(1, s - 1), s + 5}) for s in shape]
    for bt in itertools.product(*opts):
        tr = env.ct.TensorTraits(list(shape), list(bt))
        w = "TensorTraits(%s, %s)" % (shape, bt)
        cuts, grid = check_tensor(env, tr, shape, bt, w)
        for idx in counting(grid):
            eq(tr.get_tile_shape(list(idx)), [c[i] for c, i in zip(cuts, idx)], "%s.get_tile_shape(%s)" % (w, idx))
            n += 1
    return n


def r_hugetile(env, shape, which):
    n = 0
    for v in (2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 62, 2 ** 63 - 1):
        for small in (1, 2):
            bt = [v if m else min(small, s) for s, m in zip(shape, which)]
            tr = env.ct.TensorTraits(list(shape), bt)
            w = "TensorTraits(%s, %s)" % (shape, bt)
            cuts, grid = check_tensor(env, tr, shape, bt, w)
            for idx in counting(grid):
                eq(tr.get_tile_shape(list(idx)), [c[i] for c, i in zip(cuts, idx)], "%s.get_tile_shape(%s)" % (w, idx))
                n += 1
            for idx in itertools.product(*[(-1, 0, g) for g in grid]):
                if any(idx):
                    rejects(lambda: tr.get_tile_shape(list(idx)), "%s.get_tile_shape(%s)" % (w, idx)) \
                        if any(i < 0 or i >= g for i, g in zip(idx, grid)) else None
            t = env.T("fp32", shape, tuple(bt))
            eq(t.distribution, [0] * prod(grid), w + " distribution")
            for k, idx in enumerate(counting(grid)):
                eq(t.get_tile(k).shape, [c[i] for c, i in zip(cuts, idx)], "%s.get_tile(%d).shape" % (w, k))
            t.unregister()
    return n


def r_invalid(env, shape):
    n = 0
    ones = [1] * len(shape)
    if any(s <= 0 for s in shape):
        rejects(lambda: env.core.tile.TileTraits(list(shape)), "TileTraits%s" % (shape,))
        rejects(lambda: env.ct.TensorTraits(list(shape), ones), "TensorTraits(%s, ones)" % (shape,))
        rejects(lambda: env.ct.TensorTraits([3] * len(shape), list(shape)), "TensorTraits(3.., %s)" % (shape,))
        rejects(lambda: env.ct.TensorTraits(list(shape), list(shape)), "TensorTraits(%s, same)" % (shape,))
        n += 4
    for d in range(len(shape) + 2):
        if d != len(shape):
            rejects(lambda: env.ct.TensorTraits([abs(s) + 1 for s in shape], [1] * d),
                    "TensorTraits of %d dimensions with %d tile extents" % (len(shape), d))
            n += 1
    return n


# ---- tensors ---------------------------------------------------------------
def r_objects(env, shape):
    n = 0
    for bt in itertools.product(*[range(1, s + 2) for s in shape]):
        cuts = [split(s, b) for s, b in zip(shape, bt)]
        grid = [len(c) for c in cuts]
        dt = ("fp32", "fp64", "int64", "bool")[sum(bt) % 4]
        t = env.T(dt, shape, bt)
        w = "Tensor_%s(%s, %s)" % (dt, shape, bt)
        eq(t.distribution, [0] * prod(grid), w + " distribution")
        seen = {}
        for k, idx in enumerate(counting(grid)):
            want = [c[i] for c, i in zip(cuts, idx)]
            eq(t.get_tile(k).shape, want, "%s.get_tile(%d).shape" % (w, k))
            if env.ix is not None:
                check_tile(env, env.ix.tile_traits(t, k), want, w + " tile %d" % k)
                check_tile(env, env.ix.tile_traits(t, list(idx)), want, w + " tile %s" % (idx,))
                eq(env.ix.get_tile_shape(t, list(idx)), want, "%s.get_tile(%s).shape" % (w, idx))
                a, b = env.ix.tile_addr(t, k), env.ix.tile_addr(t, list(idx))
                eq(a, b, "%s: data of tile %d and of tile %s" % (w, k, idx))
                if a in seen:
                    raise Fail("%s: tiles %s and %s share their data" % (w, seen[a], idx))
                seen[a] = idx
            n += 1
        for k in (-1, prod(grid), prod(grid) + 7):
            rejects(lambda: t.get_tile(k), "%s.get_tile(%d)" % (w, k))
        if env.ix is not None:
            for d in range(len(shape)):
                for v in (-1, grid[d]):
                    i = [0] * len(shape)
                    i[d] = v
                    rejects(lambda: env.ix.get_tile_shape(t, i), "%s.get_tile(%s)" % (w, i))
        for d in (prod(grid) - 1, prod(grid) + 1, 0):
            rejects(lambda: env.cls[dt](env.ct.TensorTraits(list(shape), list(bt)), [0] * d, 0),
                    "%s with a distribution of %d ranks for %d tiles" % (w, d, prod(grid)))
        # a distribution is kept as given
        dist = [(3 * i + 1) % 5 for i in range(prod(grid))]
        t2 = env.cls[dt](env.ct.TensorTraits(list(shape), list(bt)), dist, 0)
        eq(t2.distribution, dist, w + " distribution kept")
        t2.unregister()
        env.finish()
    return n


# ---- block-cyclic -----------------------------------------------------------
def r_cyclic(env, grid, mpi):
    bc = env.ct.distributions.block_cyclic
    n = 0
    stamp = prod(mpi)
    for maxr in range(1, 7 if TIER == "quick" else 10):
        for start in range(maxr):
            want = []
            for idx in counting(grid):
                # position of the tile inside the repeated process grid
                pos = [i % m for i, m in zip(idx, mpi)]
                want.append((start + sum(p * prod(mpi[:d]) for d, p in enumerate(pos))) % maxr)
            got = list(bc(list(grid), list(mpi), start, maxr))
            eq(got, want, "block_cyclic(%s, %s, %d, %d)" % (grid, mpi, start, maxr))
            n += 1
        for start in (-1, maxr, maxr + 3):
            rejects(lambda: bc(list(grid), list(mpi), start, maxr), "block_cyclic(start=%d, max=%d)" % (start, maxr))
    for maxr in (0, -1):
        for start in (-1, 0):
            rejects(lambda: bc(list(grid), list(mpi), start, maxr), "block_cyclic(start=%d, max=%d)" % (start, maxr))
    for d in range(len(grid) + 2):
        if d != len(grid):
            rejects(lambda: bc(list(grid), [1] * d, 0, 1), "block_cyclic with a process grid of %d dimensions" % d)
    return n


def r_cyclic_bad(env, grid, mpi):
    bc = env.ct.distributions.block_cyclic
    rejects(lambda: bc(list(grid), list(mpi), 0, 4), "block_cyclic(%s, %s)" % (grid, mpi))
    for d in range(len(grid)):
        g = list(grid)
        g[d] = 0
        rejects(lambda: bc(g, [1] * len(grid), 0, 4), "block_cyclic(%s)" % g)
    return 1
