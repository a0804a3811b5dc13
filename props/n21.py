"""Tile geometry: index bijection, partition into tiles, distributions."""
import copy, itertools, math
import numpy as np
from vlib import core, ops
from vlib.core import Fail, Invalid

RULE = ("Random shape of 0-6 dimensions (from single elements to 2^62 elements) with random tile sizes: strides, element counts, matrix reshapes, linear and multi-dimensional indices both ways (all of them up to 3000 elements, "
    "200 random ones and the corners beyond), rejection of indices just outside, grid, leftover and tile shapes against column-major arithmetic; for tensors with data, every tile addressed by offset and by index "
    "must have the right shape and allocation and hold exactly its block of the array; block-cyclic distributions against the modular formula for random process grids, start and maximum ranks. Non-trivial: more than one element and one tile or node.")
BUDGET = {"quick": (12000, 30), "thorough": (400000, 500)}
ASSUMPTIONS = ["element counts below 2^62"]
NEEDS_TILE = True


def gen(rng, tier):
    k = rng.choice(["tile", "tensor", "tensor", "data", "bc"])
    nd = rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 6])
    c = {"k": k, "seed": rng.randrange(1 << 30)}
    big = k in ("tile", "tensor") and rng.random() < 0.4
    if big:
        lim = 61 / max(nd, 1)
        c["shape"] = [max(1, int(2 ** rng.uniform(0, lim))) for _ in range(nd)]
        c["tile"] = [max(1, min(2 * s, int(s / 2 ** rng.uniform(-1, 12)))) for s in c["shape"]]
    else:
        ax = ops.r_axes(rng, ["d%d" % i for i in range(nd)], maxel=3000 if k != "data" else 1500, maxtiles=64)
        c["shape"] = [ax["d%d" % i][0] for i in range(nd)]
        c["tile"] = [ax["d%d" % i][1] for i in range(nd)]
    if k == "bc":
        c["grid"] = [rng.choice([1, 2, 3, rng.randint(1, 8)]) for _ in range(nd)]
        c["max"] = rng.choice([1, 2, math.prod(c["grid"]), rng.randint(1, 40)])
        c["start"] = rng.choice([0, c["max"] - 1, rng.randrange(c["max"])])
    return c


def points(c, shape):
    n = math.prod(shape)
    if n <= 3000:
        return [list(i[::-1]) for i in itertools.product(*[range(s) for s in shape[::-1]])]
    rs = np.random.RandomState(c["seed"])
    P = [[0] * len(shape), [s - 1 for s in shape]]
    for _ in range(200):
        P.append([int(rs.randint(0, s, dtype=np.int64)) if rs.random_sample() < 0.8 else int(rs.choice([0, s - 1])) for s in shape])
    return P


def rejected(what, f):
    try:
        r = f()
    except Exception:
        return
    raise Fail("accepted", "%s was accepted and gave %s" % (what, r))


def same(what, a, b):
    if a != b:
        raise Fail("geometry", "%s is %s, expected %s" % (what, a, b))


def check_traits(c, t, shape, what):
    import vtile
    nd = len(shape)
    same(what + "ndim", t.ndim, nd)
    same(what + "shape", list(t.shape), shape)
    same(what + "nelems", t.nelems, math.prod(shape))
    st = [math.prod(shape[:i]) for i in range(nd)]
    # the interface documents stride[0] = 1, stride[i+1] = stride[i]*shape[i]
    same(what + "stride", list(t.stride), st)
    same(what + "matrix_shape", [list(p) for p in vtile.matrix_shape(shape)],
        [[math.prod(shape[:i]), math.prod(shape[i:])] for i in range(nd + 1)])
    n = math.prod(shape)
    rs = np.random.RandomState(c["seed"] ^ 5)
    for p in points(c, shape):
        l = sum(i * s for i, s in zip(p, st))
        same(what + "index_to_linear(%s)" % p, t.index_to_linear(p), l)
        same(what + "linear_to_index(%d)" % l, list(t.linear_to_index(l)), p)
    for l in (-1, n, n + int(rs.randint(1, 100))):
        rejected(what + "linear_to_index(%d)" % l, lambda: list(t.linear_to_index(l)))
    same(what + "contains_index(first)", vtile.contains_index(shape, [0] * nd), True)
    same(what + "contains_index(last)", vtile.contains_index(shape, [s - 1 for s in shape]), True)
    for d in range(nd):
        p = [int(rs.randint(0, s, dtype=np.int64)) for s in shape]
        for v in (-1, shape[d], shape[d] + int(rs.randint(1, 5))):
            p[d] = v
            rejected(what + "index_to_linear(%s)" % p, lambda: t.index_to_linear(p))
            same(what + "contains_index(%s)" % p, vtile.contains_index(shape, p), False)
    rejected(what + "index_to_linear of wrong length", lambda: t.index_to_linear([0] * (nd + 1)))


def blocks(c):
    return [-(-s // t) for s, t in zip(c["shape"], c["tile"])]


def check(env, c):
    import vtile
    T = env.T
    sh, ti = c["shape"], c["tile"]
    nd = len(sh)
    if math.prod(sh) >= 1 << 62:
        raise Invalid("too large")
    if c["k"] == "tile":
        check_traits(c, env.nn.nntile_core.tile.TileTraits(sh), sh, "")
        return
    gs = blocks(c)
    if c["k"] == "bc":
        from nntile.nntile_core.tensor import distributions
        got = list(distributions.block_cyclic(gs, c["grid"], c["start"], c["max"]))
        exp = []
        for p in itertools.product(*[range(g) for g in gs[::-1]]):
            p = p[::-1]
            r = sum((i % m) * math.prod(c["grid"][:j]) for j, (i, m) in enumerate(zip(p, c["grid"])))
            exp.append((r + c["start"]) % c["max"])
        same("block_cyclic(%s, %s, %d, %d)" % (gs, c["grid"], c["start"], c["max"]), got, exp)
        rejected("start rank -1", lambda: distributions.block_cyclic(gs, c["grid"], -1, c["max"]))
        rejected("start rank %d of %d" % (c["max"], c["max"]), lambda: distributions.block_cyclic(gs, c["grid"], c["max"], c["max"]))
        rejected("process grid of other rank", lambda: distributions.block_cyclic(gs, c["grid"] + [1], c["start"], c["max"]))
        for j in range(nd):
            for v in (0, -1):
                g = list(c["grid"])
                g[j] = v
                rejected("process grid %s" % g, lambda: distributions.block_cyclic(gs, g, c["start"], c["max"]))
        return
    tr = T.TensorTraits(sh, ti)
    same("basetile_shape", list(tr.basetile_shape), ti)
    same("grid shape", list(tr.get_grid_shape()), gs)
    same("leftover_shape", list(vtile.leftover_shape(sh, ti)), [s - (g - 1) * t for s, g, t in zip(sh, gs, ti)])
    check_traits(c, tr, sh, "")
    check_traits(c, tr.grid, gs, "grid ")
    tot = 0
    P = points(c, gs)
    for p in P:
        e = [min(t, s - i * t) for i, t, s in zip(p, ti, sh)]
        same("get_tile_shape(%s)" % p, list(tr.get_tile_shape(p)), e)
        tot += math.prod(e)
    if len(P) == math.prod(gs):
        same("sum of tile sizes", tot, math.prod(sh))
    rejected("get_tile_shape of wrong length", lambda: tr.get_tile_shape([0] * (nd + 1)))
    for d in range(nd):
        for v in (-1, gs[d], gs[d] + 1):
            p = [0] * nd
            p[d] = v
            rejected("get_tile_shape(%s)" % p, lambda: tr.get_tile_shape(p))
    if c["k"] != "data":
        return
    a = np.arange(math.prod(sh), dtype=np.float32).reshape(sh or [1], order="F")
    x = env.tensor(sh, ti, "fp32", np.asfortranarray(a))
    same("tensor shape", list(x.shape), sh)
    for l, p in enumerate(points(c, gs)):
        e = [min(t, s - i * t) for i, t, s in zip(p, ti, sh)]
        tl = x.get_tile(l)
        same("shape of tile %d" % l, list(tl.shape), e)
        try:
            q = vtile.tile_by_index(x, p)
        except RuntimeError as err:
            raise Fail("geometry", "tile at %s: %s" % (p, err))
        same("shapes of tile at %s" % p, [list(s) for s in q], [e, e])
        out = np.full(e or [1], np.nan, dtype=np.float32, order="F")
        tl.to_array(out)
        exp = a[tuple(slice(i * t, i * t + k) for i, t, k in zip(p, ti, e))] if nd else a
        if not core.same_bits(out, np.asfortranarray(exp)):
            raise Fail("block", "tile %d (at %s) does not hold its block: %s" % (l, p, core.first_diff(out, np.asfortranarray(exp))))
        # and the other way: writing the tile changes this block only
        if l == c["seed"] % math.prod(gs):
            tl.from_array(np.asfortranarray(-1 - np.abs(exp)))
            a[tuple(slice(i * t, i * t + k) for i, t, k in zip(p, ti, e)) if nd else ...] = -1 - np.abs(exp)
        del tl
    got = env.get(x)
    if not core.same_bits(got, np.asfortranarray(a)):
        raise Fail("block", "writing one tile: " + core.first_diff(got, np.asfortranarray(a)))


def valid(c):
    try:
        n = len(c["shape"])
        return len(c["tile"]) == n and all(v >= 1 for v in c["shape"] + c["tile"]) and (c["k"] != "bc" or len(c["grid"]) == n and all(v >= 1 for v in c["grid"]) and 0 <= c["start"] < c["max"])
    except Exception:
        return False


def shrinks(c):
    for i in range(len(c["shape"])):
        d = copy.deepcopy(c)
        for k in ("shape", "tile", "grid"):
            if k in d:
                del d[k][i]
        yield d
        for k in ("shape", "tile", "grid"):
            if k in c:
                for v in (1, 2, c[k][i] // 2, c[k][i] - 1):
                    if 1 <= v < c[k][i]:
                        d = copy.deepcopy(c)
                        d[k][i] = v
                        yield d
    if c["k"] == "bc":
        for v in (1, c["max"] - 1):
            if c["start"] < v < c["max"]:
                yield dict(copy.deepcopy(c), max=v)
        if c["start"]:
            yield dict(copy.deepcopy(c), start=0)


def nontrivial(c):
    return math.prod(c["shape"]) > 1 and (c["k"] == "tile" or math.prod(blocks(c)) > 1 or c.get("max", 1) > 1)


def labels(c):
    return ["kind=" + c["k"], "ndim=%d" % len(c["shape"])] + ["large"] * (math.prod(c["shape"]) > 3000) + ["ragged"] * any(s % t for s, t in zip(c["shape"], c["tile"]))
