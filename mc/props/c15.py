"""C15: the NumPy round trip.  Every rank, shape, tiling, element type and memory layout of the
given and of the receiving array; every word over puts, gets and submitted operations up to a
depth; every mismatch of rank or shape."""
import itertools
import numpy as np
from h import Fail, DT, EAGER, LAZY, EXPLORE, FIFO, LIFO, ALT
from nets import guarded, tilings

REAL_STRIDE = 97
ASSUMPTIONS = ["a scalar (rank 0) tensor is exchanged through an array of one element",
               "an array that cannot receive data in place (other element type, not in Fortran order, not writable) must be rejected with an exception",
               "a given array of another element type is converted as numpy converts it"]
MODES = [dict(mode=LAZY, policy=LIFO), dict(mode=EAGER), dict(mode=LAZY, policy=ALT), dict(mode=EXPLORE, full=0, max_states=2000), dict(mode=LAZY, policy=FIFO)]
TYPES = ["fp32", "fp64", "int64", "bool"]
SRC = ["F", "C", "T", "neg", "step", "bcast", "ro", "misal", "f32", "f64", "i32", "u8", "b", "big", "list", "offset"]
DST = ["F", "C", "step", "neg", "ro", "other", "misal", "offset"]
KINDS = ["tensor", "tensorfn", "tile", "tilefn"]


def values(dt, shape, seed):
    n = int(np.prod(shape)) if len(shape) else 1
    if dt == "bool":
        v = [((i * 5 + seed * 3 + i * i // 3) % 3) == 0 for i in range(n)]
    elif dt == "int64":
        v = [(-1) ** i * ((i * 7919 + seed * 104729) % 2 ** 40 + (2 ** 53 if i % 5 == 0 else 0)) + i for i in range(n)]
    else:
        special = [0.0, -0.0, np.inf, -np.inf, np.nan, np.finfo(DT[dt]).max, np.finfo(DT[dt]).tiny / 8, 1 / 3]
        v = [special[(i + seed) % 8] if (i + seed) % 3 == 0 else (i * 37 + seed * 11) % 101 / 7 for i in range(n)]
    return np.array(v, dtype=DT[dt]).reshape(shape, order="F")


def small(shape, seed):
    n = int(np.prod(shape)) if len(shape) else 1
    return np.array([(i * 3 + seed * 5 + i * i // 2) % 2 if seed < 0 else (i * 7 + seed * 5 + i * i // 3) % 101 for i in range(n)], dtype=np.int64).reshape(shape)


def shapes(tier):
    q = tier == "quick"
    s = [(), (1,), (5,), (3, 2), (2, 3), (1, 4), (2, 3, 2), (3, 1, 2), (2, 1, 2, 3)]
    if not q:
        s += [(7,), (5, 4), (3, 4, 3), (3, 2, 2, 2), (2, 2, 2, 2, 2)]
    return s


ALPHA = "PfacCGHV"


def cases(tier):
    q = tier == "quick"
    j = 0
    # layouts of the given array
    for s in shapes(tier):
        for b in itertools.product(*[range(1, v + 1) for v in s]):
            for dt in TYPES:
                for kind in KINDS:
                    if kind.startswith("tile") and (tuple(b) != tuple(s) or dt not in ("fp32", "fp64")):
                        continue
                    for src in SRC:
                        j += 1
                        yield ["layout", s, b, dt, kind, src, DST[j % len(DST)] if src != "F" else "F", j % 5]
                    for dst in DST:
                        j += 1
                        yield ["layout", s, b, dt, kind, "F", dst, j % 5]
    for s, b in (((5000,), (5000,)), ((5000,), (1700,)), ((70, 80), (70, 80)), ((70, 80), (33, 80)), ((2, 3, 2, 2, 3), (2, 3, 2, 2, 3)), ((2, 3, 2, 2, 3), (1, 2, 2, 1, 3)),
                 ((2, 1, 3, 2, 1, 2), (2, 1, 2, 2, 1, 1)), ((3, 50, 2), (3, 50, 2)), ((300,), (1,))):
        for dt in TYPES:
            for kind in KINDS:
                if kind.startswith("tile") and (tuple(b) != tuple(s) or dt not in ("fp32", "fp64")):
                    continue
                for src in ("F", "C", "step", "f64", "i32"):
                    j += 1
                    yield ["layout", s, b, dt, kind, src, DST[j % len(DST)] if src != "F" else "F", j % 3]
                if len(s) > 1:
                    for w in wrong(s):
                        j += 1
                        yield ["mismatch", s, b, dt, kind, w, j % 3]
    # mismatches
    for s in shapes(tier):
        for b in tilings(s, 3):
            for dt in TYPES:
                for kind in KINDS:
                    if kind.startswith("tile") and (tuple(b) != tuple(s) or dt not in ("fp32", "fp64")):
                        continue
                    for w in wrong(s):
                        j += 1
                        yield ["mismatch", s, b, dt, kind, w, j % 5]
    # words
    for s in [(), (4,), (3, 2), (2, 2, 3)]:
        for b in tilings(s, 2):
            for n in range(1, 5 if q else 6):
                for w in itertools.product(ALPHA, repeat=n):
                    if w[-1] in "GHV":
                        continue
                    j += 1
                    if n > 3 and q and j % 2 or n > 4 and j % 5:
                        continue
                    yield ["word", s, b, ("fp32", "fp64")[j % 2], "P" + "".join(w) + "GH", j % 5]
                    if n < 4 and j % 4 == 0:
                        yield ["word", s, b, "int64", "P" + "".join(x for x in w if x in "PcCGHV") + "GH", j % 5]


def wrong(s):
    n = len(s)
    out = []
    if n == 0:
        return [(), (2,), (1, 1), (0,)]
    for i in range(n):
        for d in (-1, 1):
            out.append(s[:i] + (s[i] + d,) + s[i + 1:])
    out += [s + (1,), (1,) + s, (int(np.prod(s)),) + (1,) * 0 if n > 1 else s + s, ()]
    if n > 1:
        out += [s[:-1], s[1:]]
        if s[::-1] != s:
            out.append(s[::-1])
    return [w for w in dict.fromkeys(out) if w != s]


@guarded
def run(env, case):
    return {"layout": layout, "mismatch": mismatch, "word": word}[case[0]](env, *case[1:])


def arrange(v, how, dt):
    """The same values in another memory layout (or element type); the base memory too."""
    if how == "C":
        a = np.ascontiguousarray(v)
    elif how == "T":
        a = np.asfortranarray(v.T).T if v.ndim > 1 else v.copy()
        a = np.ascontiguousarray(v.T).T if v.ndim else a
    elif how == "neg":
        a = v[tuple(slice(None, None, -1) for _ in v.shape)].copy(order="F")[tuple(slice(None, None, -1) for _ in v.shape)]
    elif how == "step":
        big = np.zeros(tuple(2 * k for k in v.shape), dtype=v.dtype, order="F")
        a = big[tuple(slice(None, None, 2) for _ in v.shape)]
        a[...] = v
    elif how == "offset":
        big = np.zeros(tuple(k + 2 for k in v.shape), dtype=v.dtype, order="F")
        a = big[tuple(slice(1, -1) for _ in v.shape)]
        a[...] = v
    elif how == "bcast":
        a = np.broadcast_to(v[:1], v.shape) if v.ndim else v
    elif how == "misal":
        raw = np.zeros(v.nbytes + 1, dtype=np.uint8)
        a = raw[1:].view(v.dtype).reshape(v.shape, order="F")
        a[...] = v
    elif how == "ro":
        a = np.asfortranarray(v).copy(order="F")
        a.setflags(write=False)
    else:
        a = np.asfortranarray(v).copy(order="F")
    return a


def put_(env, kind, t, a):
    m = env.core
    if kind in ("tensor", "tile"):
        t.from_array(a)
    elif kind == "tensorfn":
        m.tensor.tensor_from_array(t, a)
    else:
        m.tile.tile_from_array(t, a)


def get_(env, kind, t, a):
    m = env.core
    if kind in ("tensor", "tile"):
        t.to_array(a)
    elif kind == "tensorfn":
        m.tensor.tensor_to_array(t, a)
    else:
        m.tile.tile_to_array(t, a)


def make(env, kind, dt, s, b, v):
    if kind.startswith("tensor"):
        return env.T(dt, s, b, v)
    return env.L(dt, s, v)


def read(env, kind, t):
    return env.get(t) if kind.startswith("tensor") else env.getL(t)


def same(a, b):
    return a.shape == b.shape and a.dtype == b.dtype and np.ascontiguousarray(a).tobytes() == np.ascontiguousarray(b).tobytes()


def layout(env, s, b, dt, kind, src, dst, mode):
    s, b = tuple(s), tuple(b)
    env.cfg(workers=2, poison=0x7E, **MODES[mode])
    t = make(env, kind, dt, s, b, values(dt, s, 1))
    es = s if len(s) else (1,)
    v = values(dt, es, 2)
    cnt = {"roundtrips": 1}
    if src in ("f32", "f64", "i32", "u8", "b", "big", "list"):
        v = small(es, 3)
        if dt == "bool":
            v = v % 2
        a = {"f32": np.float32, "f64": np.float64, "i32": np.int32, "u8": np.uint8, "b": np.bool_, "big": ">f8", "list": np.float64}[src]
        a = np.asfortranarray(v.astype(a))
        v = np.asarray(a).astype(DT[dt])
        if src == "list":
            a = a.tolist()
    else:
        a = arrange(v, src, dt)
        v = np.array(a)
    keep = np.array(a, copy=True)
    put_(env, kind, t, a)
    if not same(np.array(a), keep):
        raise Fail("the given array was modified")
    if isinstance(a, np.ndarray) and a.flags.writeable and src != "bcast":
        # what happens to the array later is of no concern to the tensor
        a[...] = 1
    got = read(env, kind, t).reshape(es)
    if not same(got, v):
        raise Fail("content after from_array differs: %r, expected %r" % (got.tolist(), v.tolist()))
    # receiving array
    fresh = values(dt, es, 4)
    if dst == "other":
        o = np.asfortranarray(np.zeros(es, dtype={"fp32": np.float64, "fp64": np.float32, "int64": np.int32, "bool": np.int64}[dt]))
    else:
        o = arrange(fresh, dst, dt)
    before = np.array(o)
    ok = dst != "other" and o.dtype == DT[dt] and o.flags.f_contiguous and o.flags.writeable
    try:
        get_(env, kind, t, o)
        err = None
    except Exception as e:
        err = e
    if err is None:
        if not (o.dtype == v.dtype and same(np.array(o), v)):
            raise Fail("to_array into an array of layout '%s' returned without giving the content: %r, expected %r" % (dst, o.tolist(), v.tolist()))
        cnt["filled"] = 1
    else:
        if ok and o.flags.aligned:
            raise Fail("to_array raised %s: %s" % (type(err).__name__, str(err)[:200]))
        if not same(np.array(o), before):
            raise Fail("to_array raised but changed the array")
        cnt["rejected"] = 1
    if not same(read(env, kind, t).reshape(es), v):
        raise Fail("to_array changed the tensor")
    env.finish()
    return cnt


def mismatch(env, s, b, dt, kind, w, mode):
    s, b, w = tuple(s), tuple(b), tuple(w)
    env.cfg(workers=2, poison=0x7E, **MODES[mode])
    v = values(dt, s, 1)
    t = make(env, kind, dt, s, b, v)
    for what, f in (("from_array", put_), ("to_array", get_)):
        a = values(dt, w, 5).copy(order="F")
        keep = a.copy(order="F")
        try:
            f(env, kind, t, a)
        except Exception:
            pass
        else:
            raise Fail("%s accepted an array of shape %s for shape %s" % (what, w, s))
        if not same(a, keep):
            raise Fail("%s raised but changed the array" % what)
        if not same(read(env, kind, t), v):
            raise Fail("%s raised but changed the content" % what)
    env.finish()
    return {"mismatches": 2}


def word(env, s, b, dt, w, mode):
    s, b = tuple(s), tuple(b)
    env.cfg(workers=2, poison=0x7E, **MODES[mode])
    nt = env.nt
    es = s if len(s) else (1,)
    v, u = small(s, 1).astype(float), small(s, 2).astype(float)
    t = env.T(dt, s, b, v)
    x = env.T(dt, s, b, u)
    last = None
    for i, a in enumerate(w):
        if a == "P":
            v = small(s, 3 + i).astype(float)
            last = np.asfortranarray(v.reshape(es).astype(DT[dt]))
            t.from_array(last)
        elif a == "V":
            if last is not None:
                last[...] = 99
        elif a == "f":
            nt.fill_async(float(i), t)
            v = np.full(s, float(i))
        elif a == "a":
            nt.axpy_async(2.0, x, t)
            v = v + 2 * u
        elif a == "c":
            nt.copy_async(t, x)
            u = v
        elif a == "C":
            nt.copy_async(x, t)
            v = u
        else:
            z, want = (t, v) if a == "G" else (x, u)
            o = np.zeros(es, dtype=DT[dt], order="F")
            z.to_array(o)
            if not np.array_equal(o.reshape(s).astype(float), want):
                raise Fail("to_array after '%s' gives %r, expected %r" % (w[:i], o.tolist(), want.tolist()))
    env.finish()
    return {"words": 1}
