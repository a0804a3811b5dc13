"""Histories of array writes, reads, scatter, gather, copy and tile accesses
on tensors of one shape and different tilings, against plain numpy arrays."""
import copy, math
import numpy as np
from vlib import core, ops
from vlib.core import Fail, Invalid

RULE = ("Random history (3-14 steps) of put/get (arrays in Fortran or C order, strided, of other dtype)/scatter/gather/copy/tile put/tile get/"
    "wont_use/invalidate_submit, some submitted while execution is paused, on 2-4 tensors of one shape (0-6 dims) and different tilings, "
    "data = random bit patterns (NaN payloads, -0, denormals); bit-exact comparison with numpy after every read and at the end. "
    "Non-trivial: some tensor has several tiles and the history moves data between tensors or reads it back after a hint.")
BUDGET = {"quick": (4500, 30), "thorough": (60000, 600)}
ASSUMPTIONS = ["numpy arrays as reference", "CPU execution"]


def gen(rng, tier):
    nd = rng.choice([0, 1, 1, 2, 2, 2, 3, 3, 3, 4, 4, 5, 6])
    names = ["d%d" % i for i in range(nd)]
    ax = ops.r_axes(rng, names, maxel=3000)
    shape = [ax[n][0] for n in names]
    if rng.random() < 0.003:     # megabytes
        shape = rng.choice([[1 << 20], [1050000], [1025, 1031], [3, 400001], [129, 65, 130], [70000, 15]])
        nd = len(shape)
    dt = rng.choice(["fp32", "fp64", "int64", "bool"])
    tiles = [list(shape)]
    nt = rng.randint(1, 3)
    for _ in range(nt):
        t = [ops.r_tile(rng, s) for s in shape]
        while math.prod((s - 1) // b + 1 for s, b in zip(shape, t)) > 60:
            i = rng.randrange(nd)
            t[i] = min(max(t[i] * 2, 1), max(shape[i], 1))
        tiles.append(t)
    if rng.random() < 0.3:
        tiles.append(list(rng.choice(tiles)))
    rng.shuffle(tiles)
    n = len(tiles)
    single = [i for i in range(n) if ntiles(shape, tiles[i]) == 1]
    steps = []
    paused = False
    for _ in range(rng.randint(3, 14)):
        u = rng.random()
        if not paused and u < 0.12:
            steps.append(["pause"]); paused = True; continue
        if paused and u < 0.3:
            steps.append(["resume"]); paused = False; continue
        kinds = ["scatter", "scatter", "gather", "gather", "copy", "wont", "inval"]
        if not paused:
            kinds += ["put", "put", "get", "get", "tileget", "tileput"]
        k = rng.choice(kinds)
        t = rng.randrange(n)
        if k == "put":
            steps.append([k, t, rng.randrange(1 << 30), rng.choice(["F", "F", "C", "strided", "cast"])])
        elif k == "get":
            steps.append([k, t, rng.choice(["F", "F", "C", "strided", "cast"])])
        elif k in ("wont", "inval"):
            steps.append([k, t])
        elif k == "scatter":
            steps.append([k, rng.choice(single), t])
        elif k == "gather":
            steps.append([k, t, rng.choice(single)])
        elif k == "copy":
            js = [j for j in range(n) if tiles[j] == tiles[t]]
            steps.append([k, t, rng.choice(js)])
        if k in ("scatter", "gather", "copy") and not paused and rng.random() < 0.2:
            steps[-1].append("sync")
        elif k in ("tileget", "tileput"):
            q = rng.randrange(ntiles(shape, tiles[t]))
            steps.append([k, t, q] + ([rng.randrange(1 << 30)] if k == "tileput" else []))
    steps = [s for s in steps if not (s[0] in ("scatter", "gather", "copy") and s[1] == s[2])]
    return {"shape": shape, "dt": dt, "tiles": tiles, "steps": steps, "seed": rng.randrange(1 << 30)}


def ntiles(shape, tile):
    return math.prod((s - 1) // b + 1 for s, b in zip(shape, tile))


def bits(seed, shape, dt):
    rs = np.random.RandomState(seed & 0x7fffffff)
    shp = tuple(shape) if len(shape) else (1,)
    n = math.prod(shp)
    if dt == "bool":
        a = rs.randint(0, 2, size=n).astype(np.bool_)
    elif dt == "fp32":
        a = rs.randint(0, 2 ** 32, size=n, dtype=np.uint32).view(np.float32)
        a[np.isnan(a)] = np.uint32(0x7fc01234).view(np.float32)  # quiet
    else:
        a = rs.randint(0, 2 ** 64, size=n, dtype=np.uint64)
        a = a.view(np.int64 if dt == "int64" else np.float64)
        if dt == "fp64":
            a[np.isnan(a)] = np.uint64(0x7ff8000000001234).view(np.float64)
    return np.array(a.reshape(shp, order="F"), order="F")


def layout(a, kind, dt):
    """array given to the library, and the values it stands for"""
    if kind == "C":
        return np.ascontiguousarray(a), a
    if kind == "strided":
        b = np.zeros(tuple(2 * s for s in a.shape), dtype=a.dtype, order="F")
        v = b[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        return v, a
    if kind == "cast":
        if dt == "bool":
            return a.astype(np.int32), a
        src = (np.arange(a.size).reshape(a.shape, order="F") % 1000).astype(np.int32)
        return src, np.array(src.astype(a.dtype), order="F")
    return a, a


def read(env, t, shape, dt, kind):
    """read a tensor into a user array of some layout"""
    shp = tuple(shape) if len(shape) else (1,)
    npdt = ops.NPDT[dt]
    if kind == "C":
        o = np.zeros(shp, dtype=npdt, order="C")
    elif kind == "strided":
        o = np.zeros(tuple(2 * k for k in shp), dtype=npdt, order="F")[tuple(slice(None, None, 2) for _ in shp)]
    elif kind == "cast" and dt == "fp32":
        o = np.zeros(shp, dtype=np.float64, order="F")
    else:
        return env.get(t, dt)
    t.to_array(o)
    with np.errstate(all="ignore"):
        r = np.array(o.astype(npdt), order="F")
    if kind == "cast":      # the payload of a NaN may change in conversions
        return np.where(np.isnan(r), np.uint32(0x7fc01234).view(np.float32), r)
    return r


def tile_slices(shape, tile, q):
    grid = [(s - 1) // b + 1 for s, b in zip(shape, tile)]
    sl = []
    for s, b, g in zip(shape, tile, grid):
        i = q % g
        q //= g
        sl.append(slice(i * b, min(s, (i + 1) * b)))
    return tuple(sl)


def check(env, case):
    T, dt, shape = env.T, case["dt"], case["shape"]
    nt = len(case["tiles"])
    model = [bits(case["seed"] + i, shape, dt) for i in range(nt)]
    tens = [env.tensor(shape, t, dt, m) for t, m in zip(case["tiles"], model)]

    def same(got, i, what):
        if not core.same_bits(got, model[i]):
            raise Fail("value", "%s: tensor %d (tile %s) differs at %s" % (what, i,
                case["tiles"][i], core.first_diff(got, model[i])))

    paused = False
    for n, s in enumerate(case["steps"]):
        k = s[0]
        if k in ("pause", "resume"):
            paused = k == "pause"
        if k == "pause":
            env.nn.starpu.pause()
        elif k == "resume":
            env.nn.starpu.resume()
        elif k == "put":
            a = bits(s[2], shape, dt)
            given, val = layout(a, s[3], dt)
            keep = given.copy()
            tens[s[1]].from_array(given)
            given_bits = np.ascontiguousarray(given).tobytes()
            if given_bits != np.ascontiguousarray(keep).tobytes():
                raise Fail("value", "step %d: from_array modified the caller's array" % n)
            model[s[1]] = val
        elif k == "get":
            same(read(env, tens[s[1]], shape, dt, s[2]), s[1], "step %d read (%s)" % (n, s[2]))
        elif k == "wont":
            tens[s[1]].wont_use()
        elif k == "inval":
            tens[s[1]].invalidate_submit()
        elif k in ("scatter", "gather", "copy"):
            if s[1] == s[2] or (k == "copy" and case["tiles"][s[1]] != case["tiles"][s[2]]):
                raise Invalid("step")
            if k != "copy" or dt != "bool":
                fn = getattr(T, k + "_async")
                if s[3:] == ["sync"] and not paused:
                    with core.blocking(env):
                        fn(tens[s[1]], tens[s[2]])
                else:
                    fn(tens[s[1]], tens[s[2]])
                model[s[2]] = model[s[1]]
        elif k in ("tileget", "tileput"):
            if dt not in ("fp32", "fp64"):
                continue
            tl = tens[s[1]].get_tile(s[2])
            sl = tile_slices(shape, case["tiles"][s[1]], s[2])
            ref = model[s[1]][sl] if len(shape) else model[s[1]]
            if list(tl.shape) != (list(ref.shape) if len(shape) else []):
                raise Fail("value", "step %d: tile %d has shape %s, expected %s" % (n, s[2], list(tl.shape), ref.shape))
            if k == "tileget":
                out = np.zeros(ref.shape, dtype=ref.dtype, order="F")
                tl.to_array(out)
                if not core.same_bits(out, np.array(ref, order="F")):
                    raise Fail("value", "step %d: tile %d of tensor %d differs at %s" % (n, s[2], s[1],
                        core.first_diff(out, np.array(ref, order="F"))))
            else:
                a = bits(s[3], ref.shape, dt)
                tl.from_array(a)
                m = model[s[1]].copy(order="F")
                if len(shape):
                    m[sl] = a
                else:
                    m = a
                model[s[1]] = m
        else:
            raise Invalid("step")
    env.nn.starpu.resume()
    for i in range(nt):
        same(env.get(tens[i], dt), i, "final read")


def valid(c):
    try:
        n = len(c["tiles"])
        shape = c["shape"]
        if any(len(t) != len(shape) or min(t + [1]) < 1 for t in c["tiles"]) or min(shape + [1]) < 1:
            return False
        paused = False
        for s in c["steps"]:
            for v in s[1:2] if s[0] not in ("scatter", "gather", "copy") else s[1:3]:
                if not 0 <= v < n:
                    return False
            if s[0] == "pause":
                paused = True
            if s[0] == "resume":
                paused = False
            if paused and s[0] in ("put", "get", "tileget", "tileput"):
                return False
            if s[0] == "scatter" and ntiles(shape, c["tiles"][s[1]]) != 1:
                return False
            if s[0] == "gather" and ntiles(shape, c["tiles"][s[2]]) != 1:
                return False
            if s[0] in ("scatter", "gather", "copy") and s[1] == s[2]:
                return False
            if s[0] == "copy" and c["tiles"][s[1]] != c["tiles"][s[2]]:
                return False
            if s[0].startswith("tile") and not 0 <= s[2] < ntiles(shape, c["tiles"][s[1]]):
                return False
        return True
    except Exception:
        return False


def shrinks(c):
    st = c["steps"]
    for k in range(len(st), 0, -1):
        d = copy.deepcopy(c)
        del d["steps"][k - 1]
        yield d
    for t in range(len(c["tiles"])):
        two = ("scatter", "gather", "copy")
        if any(t in (s[1:3] if s[0] in two else s[1:2]) for s in st):
            continue
        d = copy.deepcopy(c)
        del d["tiles"][t]
        for s in d["steps"]:
            for q in ((1, 2) if s[0] in two else (1,)):
                if len(s) > q and s[q] > t:
                    s[q] -= 1
        yield d
    for i, s in enumerate(c["shape"]):
        d = copy.deepcopy(c)
        del d["shape"][i]
        for t in d["tiles"]:
            del t[i]
        yield d
        for s2 in (1, 2, s // 2, s - 1):
            if 1 <= s2 < s:
                d = copy.deepcopy(c)
                d["shape"][i] = s2
                for t, t0 in zip(d["tiles"], c["tiles"]):
                    t[i] = s2 if t0[i] >= s else min(t0[i], s2)
                yield d
    if c["dt"] != "fp32":
        d = copy.deepcopy(c)
        d["dt"] = "fp32"
        yield d


def nontrivial(c):
    return any(ntiles(c["shape"], t) > 1 for t in c["tiles"]) and \
        any(s[0] not in ("pause", "resume") for s in c["steps"])


def labels(c):
    l = ["dt=" + c["dt"], "ndim=%d" % len(c["shape"])]
    l += sorted({"step=" + s[0] for s in c["steps"]})
    l += sorted({"put-layout=" + s[3] for s in c["steps"] if s[0] == "put"})
    l += sorted({"get-layout=" + s[2] for s in c["steps"] if s[0] == "get"})
    return l
