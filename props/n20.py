"""Ill-formed calls: a well-formed catalogue call is made ill-formed by one
mutation of an operand (rank, extent, tile) or of an integer argument."""
import copy, math
import numpy as np
from vlib import core, ops
from vlib.core import Fail, Invalid

RULE = ("Random well-formed operation call made ill-formed by one mutation (one operand gains or loses a dimension, one shared extent or tile size changes in "
    "one operand, axis/dimension-count argument out of range, one operand of another precision), or an ill-formed constructor, array transfer, tile access, scatter, gather, "
    "copy_intersection or randn call, or a layer, loss or model constructed with a bad side, dimension count, depth, activation, head count or mismatching inputs (rejected there or by its forward pass); the call must raise, all operands must keep their bits, and the well-formed call must then be accepted and give the reference result. "
    "Non-trivial: the mutated call is ill-formed (all evaluated cases).")
BUDGET = {"quick": (5000, 30), "thorough": (100000, 600)}
ASSUMPTIONS = ["ill-formed means: operands that share a dimension disagree in its extent or tiling, wrong rank, or an axis/dimension count outside the operand's range",
    "index values (labels, embedding indices) are data, not arguments, and are not checked by the library"]

# integer arguments that are an axis or a dimension count: op -> {argument position: kind}
INTS = {}
for _o in ("add_slice", "prod_slice", "prod_fiber", "add_slice3", "prod_fiber3", "sum_slice", "sumprod_slice",
           "sumprod_fiber", "norm_slice", "sumnorm", "maxsumexp", "softmax", "softmax_inplace", "normalize",
           "embedding", "embedding_backward"):
    INTS[_o] = {-1: "axis"}
INTS["add_fiber"] = {-2: "axis", -1: "nb"}
INTS["sum_fiber"] = {-2: "axis", -1: "nb"}
INTS["mask_scalar"] = {-1: "nb"}
INTS["gemm"] = {-2: "nk", -1: "nb"}
INTS["transpose"] = {-1: "nd"}
AXOF = {"softmax_inplace": "y", "normalize": "y", "embedding": "embed", "embedding_backward": "embed"}
UNTILED = {"two", "c", "v"}


class Capture:
    """stands in for nntile.tensor and records the call"""
    def __init__(self, T):
        self._T = T

    def __getattr__(self, n):
        v = getattr(self._T, n)
        if not n.endswith("_async") and not n.startswith("fused_"):
            return v
        def f(*a, **k):
            self.call = (v, list(a), k)
        return f


def shared(c):
    """(operand, position, axis) that must agree with something else"""
    cnt = {}
    for o, ds in c["opr"].items():
        for d in ds:
            cnt[d] = cnt.get(d, 0) + 1
    out = []
    for o, ds in c["opr"].items():
        for p, d in enumerate(ds):
            if cnt[d] > 1 or d in ("two", "e", "ve") or d.startswith("g"):
                out.append((o, p, d))
    return out


def mutations(c):
    op = ops.OPS[c["op"]]
    ms = []
    multi = len(c["opr"]) > 1
    if multi:
        for o, ds in c["opr"].items():
            # a fiber operand fits tensors of any higher rank
            if o == "x" and c["op"] in ("add_fiber", "sum_fiber", "prod_fiber"):
                continue
            for p in range(len(ds) + 1):
                ms.append(["ndim+", o, p])
            for p in range(len(ds)):
                ms.append(["ndim-", o, p])
    for o, p, d in shared(c):
        s, t = c["ax"][d]
        for s2 in {s + 1, s - 1, 2 * s, s + t, 1}:
            if s2 >= 1 and s2 != s:
                ms.append(["size", o, p, s2])
        if d not in ("e", "ve"):
            for t2 in {1, t - 1, t + 1, s}:
                if t2 >= 1 and min(t2, s) != min(t, s):
                    ms.append(["tile", o, p, t2])
    for o, ds in c["opr"].items():
        for p, d in enumerate(ds):
            s, t = c["ax"][d]
            if d in ("c", "v") and s > 1:
                ms.append(["tile", o, p, 1])
                ms.append(["tile", o, p, s - 1])
            if d == "e":
                vt = c["ax"]["ve"][1]
                for t2 in range(1, s + 2):
                    if t2 % vt and (t2 < s or vt < s):
                        ms.append(["tile", o, p, t2])
    for pos, k in INTS.get(c["op"], {}).items():
        if k == "axis":
            n = len(c["opr"][AXOF.get(c["op"], "x")])
            vals = [-1, -2, n, n + 1, 1000]
        elif k == "nb":
            vals = [-1, -2, c["sc"].get("nb", 0) + 1, 1000]
            if c["op"] == "mask_scalar":
                nb = len(c["opr"]["x"]) - len(c["opr"]["mask"])
                vals = [-1, -2, nb + 1, 1000]
        elif k == "nk":
            vals = [-1, -2, c["sc"]["nk"] + 1, 1000]
        else:
            n = len(c["opr"]["x"])
            vals = [-1, -2, n + 1, 1000]
        for v in vals:
            ms.append(["int", pos, v])
    if c["op"] == "normalize":          # number of elements and regularization are positive
        ms += [["int", -3, v] for v in (0, -1, -5)] + [["int", -2, v] for v in (0.0, -1e-5, -1.0)]
    ms += coordinated(c)
    fl = [o for o, (r, el) in op.roles.items() if el == "f"]
    if len(fl) > 1:
        for o in fl:
            ms.append(["dtype", o])
    # no operands of a huge number of tiles: each is a task
    return [m for m in ms if m[0] != "tile" or c["ax"][c["opr"][m[1]][m[2]]][0] <= 1000 * m[3]]


def coordinated(c):
    """an argument out of range together with operands of the ranks and extents that would go with it"""
    op, ms = c["op"], []
    if op in ("add_fiber", "sum_fiber"):
        f, t = ("s", "x") if op == "add_fiber" else ("y", "x")
        ms.append(["multi", ["int", -1, -1], ["set", f, [], []]])
        names = c["opr"][t]
        n = len(names)
        a = names.index(c["opr"][f][0])
        for nb in range(1, n + 1):
            if a >= n - nb:
                ds = [names[a]] + names[n - nb:]
                ms.append(["multi", ["int", -1, nb], ["set", f, [c["ax"][d][0] for d in ds], [c["ax"][d][1] for d in ds]]])
    if op == "mask_scalar":
        ms.append(["multi", ["int", -1, -1], ["set", "mask", ops.shape_of(c, "x") + [1], ops.tile_of(c, "x") + [1]]])
    if op == "gemm":
        nk, nb = c["sc"]["nk"], c["sc"]["nb"]
        s, t = ops.shape_of(c, "C"), ops.tile_of(c, "C")
        for pos, v, k in ((-1, -1, nb + 1), (-2, -1, 2 * (nk + 1))):
            ms.append(["multi", ["int", pos, v], ["set", "C", s + [1] * k, t + [1] * k]])
        for o in "AB":
            if len(c["opr"][o]) == nk + nb and nk + nb:
                for p in range(nk + nb):
                    for q in range(len(s)):
                        ms.append(["multi", ["ndim-", o, p], ["ndim-", "C", q]])
    return ms


def parts(m):
    return m[1:] if m[0] == "multi" else [m]


KINDS = ["multi", "ndim+", "ndim-", "size", "size", "tile", "tile", "int", "int", "dtype"]


def gen(rng, tier):
    if rng.random() < 0.3:
        return gen_api(rng)
    while True:
        c = ops.OPS[rng.choice(list(ops.OPS))].gen(rng)
        ms = mutations(c)
        if not ms:
            continue
        k = rng.choice(KINDS)
        m2 = [m for m in ms if m[0] == k]
        c["mut"] = rng.choice(m2 or ms)
        return c


def shape_tile(c, o):
    s, t = ops.shape_of(c, o), ops.tile_of(c, o)
    for m in parts(c["mut"]):
        if m[0] in ("ndim+", "ndim-", "size", "tile", "set") and m[1] == o:
            if m[0] == "ndim+":
                s, t = s[:m[2]] + [1] + s[m[2]:], t[:m[2]] + [1] + t[m[2]:]
            elif m[0] == "ndim-":
                s, t = s[:m[2]] + s[m[2] + 1:], t[:m[2]] + t[m[2] + 1:]
            elif m[0] == "size":
                s = s[:m[2]] + [m[3]] + s[m[2] + 1:]
            elif m[0] == "set":
                s, t = list(m[2]), list(m[3])
            else:
                t = t[:m[2]] + [m[3]] + t[m[2] + 1:]
    return s, t


def check(env, c):
    if "api" in c:
        return check_api(env, c)
    op = ops.OPS[c["op"]]
    data = ops.prepare(c)
    tens, keep = {}, {}
    rs = np.random.RandomState(7)
    bad = {}
    for o in op.roles:
        dt = op.elt(c, o)
        tens[o] = env.tensor(ops.shape_of(c, o), ops.tile_of(c, o), dt, data[o])
        s, t = shape_tile(c, o)
        m = c["mut"]
        if m[0] == "dtype" and m[1] == o:
            dt = "fp64" if dt == "fp32" else "fp32"
        elif [s, t] == [ops.shape_of(c, o), ops.tile_of(c, o)]:
            bad[o] = tens[o]
            continue
        a = ops.make_data("normal" if dt in ("fp32", "fp64") else ("half" if dt == "bool" else ["idx", 1, "const"]), 3, s, dt)
        bad[o] = env.tensor(s, t, dt, a)
        keep[o] = a
    core.set_redux(op, c, tens)
    core.set_redux(op, c, {o: bad[o] for o in op.roles})
    cap = Capture(env.T)
    op.call(cap, bad, c["sc"], c)
    fn, args, kw = cap.call
    for m in parts(c["mut"]):
        if m[0] == "int":
            args[m[1]] = m[2]
    err = None
    try:
        fn(*args, **kw)
    except Exception as e:
        err = e
    env.nn.starpu.wait_for_all()
    after = {o: env.get(bad[o]) for o in op.roles}
    if err is None:
        raise Fail("accepted", "%s accepted an ill-formed call: %s; shapes %s tiles %s" % (c["op"], c["mut"],
            {o: list(bad[o].shape) for o in bad}, {o: list(bad[o].basetile_shape) for o in bad}))
    for o in op.roles:
        exp = keep.get(o, data[o])
        if not core.same_bits(after[o], exp if exp.ndim else exp.reshape(1)):
            raise Fail("modified", "%s: rejected call (%s) modified operand %s at %s" % (c["op"], c["mut"], o,
                core.first_diff(after[o], exp)))
    # still usable, and the well-formed call is accepted
    op.call(env.T, tens, c["sc"], c)
    ref = op.ref(c, {k: v.copy(order="F") for k, v in data.items()})
    for o, r in ref.items():
        if r is not None:
            core.compare(c["op"] + ":" + o, env.get(tens[o]), r[0], r[1], c["dt"], op.C)


# ---- other parts of the interface --------------------------------------------

def gen_api(rng):
    nd = rng.choice([1, 1, 2, 2, 3])
    shape = [rng.randint(1, 7) for _ in range(nd)]
    tile = [ops.r_tile(rng, s) for s in shape]
    return {"api": rng.choice(sorted(API)), "shape": shape, "tile": tile, "dt": rng.choice(["fp32", "fp64"]),
        "p": rng.randrange(nd), "v": rng.randint(1, 3), "w": rng.randrange(1 << 20)}


def a_traits_len(env, c, A):
    return lambda: env.T.TensorTraits(c["shape"], c["tile"] + [1] * c["v"])


def a_traits_len2(env, c, A):
    return lambda: env.T.TensorTraits(c["shape"], c["tile"][:-1])


def a_traits_size(env, c, A):
    s = list(c["shape"])
    s[c["p"]] = [0, -1, -5][c["v"] - 1]
    return lambda: env.T.TensorTraits(s, c["tile"])


def a_traits_tile(env, c, A):
    t = list(c["tile"])
    t[c["p"]] = [0, -1, -5][c["v"] - 1]
    return lambda: env.T.TensorTraits(c["shape"], t)


def a_distr(env, c, A):
    tr = env.T.TensorTraits(c["shape"], c["tile"])
    n = tr.grid.nelems + (c["v"] if c["w"] % 2 or tr.grid.nelems <= c["v"] else -c["v"])
    return lambda: env.cls[c["dt"]](tr, [0] * n, 0)


def a_get_tile(env, c, A):
    n = A.grid.nelems
    return lambda: A.get_tile([n, -1, n + 5][c["v"] - 1])


def a_from_shape(env, c, A):
    s = list(c["shape"])
    s[c["p"]] += 1
    return lambda: A.from_array(np.ones(s, dtype=ops.NPDT[c["dt"]], order="F"))


def a_from_ndim(env, c, A):
    return lambda: A.from_array(np.ones(c["shape"] + [1], dtype=ops.NPDT[c["dt"]], order="F"))


def a_to_shape(env, c, A):
    s = list(c["shape"])
    s[c["p"]] += 1
    return lambda: A.to_array(np.ones(s, dtype=ops.NPDT[c["dt"]], order="F"))


def a_to_ndim(env, c, A):
    return lambda: A.to_array(np.ones(c["shape"] + [1], dtype=ops.NPDT[c["dt"]], order="F"))


def _other(env, c, ds, whole):
    s = list(c["shape"])
    s[c["p"]] += ds
    return env.tensor(s, s if whole else c["tile"], c["dt"], ops.make_data("ints", 5, s, c["dt"]))


def a_scatter_shape(env, c, A):
    x = _other(env, c, 1, True)
    return lambda: env.T.scatter_async(x, A)


def a_gather_shape(env, c, A):
    x = _other(env, c, 1, True)
    return lambda: env.T.gather_async(A, x)


def a_scatter_tiles(env, c, A):
    if A.grid.nelems == 1:
        raise Invalid("one tile")
    x = _other(env, c, 0, True)
    return lambda: env.T.scatter_async(A, x)


def a_gather_tiles(env, c, A):
    if A.grid.nelems == 1:
        raise Invalid("one tile")
    x = _other(env, c, 0, True)
    return lambda: env.T.gather_async(x, A)


def a_copy_tiles(env, c, A):
    if A.grid.nelems == 1:
        raise Invalid("one tile")
    x = _other(env, c, 0, True)
    return lambda: env.T.copy_async(A, x)


def a_ci_len(env, c, A):
    x = _other(env, c, 1, False)
    z = [0] * len(c["shape"])
    return [lambda: env.T.copy_intersection_async(A, z + [0], x, z),
            lambda: env.T.copy_intersection_async(A, z, x, z + [0]),
            lambda: env.T.copy_intersection_async(A, z[:-1], x, z)][c["v"] - 1]


def a_ci_ndim(env, c, A):
    s = c["shape"] + [1]
    x = env.tensor(s, s, c["dt"], ops.make_data("ints", 5, s, c["dt"]))
    z = [0] * len(c["shape"])
    return lambda: env.T.copy_intersection_async(A, z, x, z + [0])


def a_randn(env, c, A):
    z = [0] * len(c["shape"])
    u = list(c["shape"])
    if c["v"] == 1:
        z[c["p"]] = -1
    elif c["v"] == 2:
        u[c["p"]] -= 1
    else:
        z[c["p"]] = 1
    return lambda: env.T.randn_async(A, z, u, 3, 0.0, 1.0)


def a_randn_len(env, c, A):
    z, u = [0] * len(c["shape"]), list(c["shape"])
    return [lambda: env.T.randn_async(A, z + [0], u, 3, 0.0, 1.0),
            lambda: env.T.randn_async(A, z, u + [1], 3, 0.0, 1.0),
            lambda: env.T.randn_async(A, z[:-1], u[:-1], 3, 0.0, 1.0)][c["v"] - 1]


def a_lin2idx(env, c, A):
    return lambda: A.grid.linear_to_index([A.grid.nelems, -1, A.grid.nelems + 3][c["v"] - 1])


def a_idx2lin(env, c, A):
    z = [0] * len(c["shape"])
    z[c["p"]] = [A.grid.shape[c["p"]], -1, A.grid.shape[c["p"]] + 4][c["v"] - 1]
    return lambda: A.grid.index_to_linear(z)


def a_tile_shape(env, c, A):
    z = [0] * len(c["shape"])
    z[c["p"]] = [A.grid.shape[c["p"]], -1, A.grid.shape[c["p"]] + 4][c["v"] - 1]
    tr = env.T.TensorTraits(c["shape"], c["tile"])
    return lambda: tr.get_tile_shape(z)


def a_block_cyclic(env, c, A):
    from nntile.nntile_core.tensor import distributions as D
    g = [1 + (c["w"] >> 3 * i) % 3 for i in range(len(c["shape"]))]
    m = list(g)
    m[c["p"]] = [0, -1, -3][c["v"] - 1]
    r = 1 + c["w"] % 5
    return [lambda: D.block_cyclic(c["shape"], m, 0, r), lambda: D.block_cyclic(c["shape"], g + [1], 0, r), lambda: D.block_cyclic(c["shape"], g[:-1], 0, r),
        lambda: D.block_cyclic(c["shape"], g, r, r), lambda: D.block_cyclic(c["shape"], g, -1, r), lambda: D.block_cyclic(c["shape"], g, r + c["v"], r),
        lambda: D.block_cyclic(c["shape"], m, 0, r)][c["w"] % 7]


# layers and models: "at the constructor" is documented for arguments they check themselves, the others are rejected by the operations of the forward pass

def _mom(env, c, shape, tile=None, k=0, dt=None):
    dt = dt or c["dt"]
    mk = lambda j: env.tensor(shape, tile or shape, dt, ops.make_data("ints", c["w"] + 7 * k + j, shape, dt))
    return env.T.TensorMoments(mk(0), mk(1), True)


def _bad_side(c):
    return ["l", "r", "", "LR", None, "X", 0][c["w"] % 7]


def _bad_count(c):
    return [0, -1, -4][c["v"] - 1]


def _fwd(l):
    l.init_randn_async()
    l.forward_async()


def a_layer_linear_side(env, c, A):
    x = _mom(env, c, c["shape"], c["tile"])
    return lambda: env.nn.layer.Linear.generate_simple(x, _bad_side(c), env.T.notrans, 1, [c["v"]], [1], 0, bias=bool(c["w"] % 3))


def a_layer_linear_ndim(env, c, A):
    x = _mom(env, c, c["shape"], c["tile"])
    n = [0, -1, len(c["shape"]) + 1 + c["w"] % 2][c["v"] - 1]
    def f():
        l, _ = env.nn.layer.Linear.generate_simple(x, "LR"[c["w"] % 2], [env.T.notrans, env.T.trans][c["w"] // 2 % 2], n, [c["v"]], [1], 0, bias=bool(c["w"] % 3))
        _fwd(l)
    return f


def a_layer_linear_bias(env, c, A):
    x = _mom(env, c, c["shape"], c["tile"])
    return lambda: env.nn.layer.Linear.generate_simple(x, "LR"[c["w"] % 2], env.T.notrans, 1, [c["v"], 2], [1, 1], 0, bias=True)


def a_layer_linear_tile(env, c, A):
    x = _mom(env, c, c["shape"], c["tile"])
    k = c["w"] // 2 % 3
    return lambda: env.nn.layer.Linear.generate_simple(x, "LR"[c["w"] % 2], env.T.notrans, 1, [c["v"]] if k else [0], [[1], [0], [1, 1]][k], 0, bias=False)


def a_layer_act_name(env, c, A):
    x = _mom(env, c, c["shape"], c["tile"])
    return lambda: env.nn.layer.Act.generate_simple(x, ["tanh", "ReLU", "", "gelu_new", "Gelu", "sigmoid"][c["w"] % 6], 0)


def a_layer_norm_axis(env, c, A):
    x = _mom(env, c, c["shape"], c["tile"])
    def f():
        l, _ = env.nn.layer.LayerNorm.generate_simple(x, len(c["shape"]) + c["v"] - 1, 1e-5, 0, redux=bool(c["w"] % 2))
        _fwd(l)
    return f


def a_layer_add(env, c, A):
    s, t = list(c["shape"]), list(c["tile"])
    s[c["p"]] += c["v"]
    x, y = _mom(env, c, c["shape"], c["tile"]), _mom(env, c, s, t, 3)
    if c["w"] % 2:
        x, y = y, x
    def f():
        l, _ = env.nn.layer.Add.generate_simple(x, y, 0)
        l.forward_async()
    return f


def a_layer_add_slice(env, c, A):
    n = len(c["shape"])
    a = c["p"]
    s, t = list(c["shape"]), list(c["tile"])
    k = c["w"] % 3
    y = [s[:a] + s[a + 1:], t[:a] + t[a + 1:]]
    if k == 0:
        y = [s, t]
    elif k == 1 and n > 1:
        y[0][0] += c["v"]
    else:
        a = n + c["v"] - 1
    x, y = _mom(env, c, s, t), _mom(env, c, y[0], y[1], 3)
    def f():
        l, _ = env.nn.layer.AddSlice.generate_simple(x, y, a, 0)
        l.forward_async()
    return f


def a_layer_embedding_tiles(env, c, A):
    x = env.tensor(c["shape"], c["tile"], "int64", np.zeros(c["shape"], dtype=np.int64, order="F"))
    y, w = [(3, 2), (1, 2), (2, 3), (5, 4)][c["w"] % 4]
    return lambda: env.nn.layer.Embedding.generate_simple(x, env.cls[c["dt"]], c["p"], 4, 6, y, w, 0)


def _att(c):
    n, h = 2 + c["w"] % 2, 1 + c["w"] // 2 % 3
    return n, h, [n * h, 1 + c["w"] // 6 % 4, 1 + c["w"] // 24 % 3]


def _attention(env, c, f, one=False):
    n, h, s = _att(c)
    t = [s[0], 1, 1] if one else None
    xs = [_mom(env, c, list(s), t, k) for k in range(3)]
    cls = env.nn.layer.FlashAttention if c["w"] % 5 in (0, 3) else env.nn.layer.Attention
    m = np.array(np.tril(np.ones((s[1], s[1]))), dtype=bool, order="F")
    return f(n, h, s, xs, lambda xs, n: cls.generate_simple(xs[0], xs[1], xs[2], n, n, 0, bias=bool(c["w"] % 2), mask=m))


def a_layer_attention_heads(env, c, A):
    return _attention(env, c, lambda n, h, s, xs, go: lambda: go(xs, n * h + c["v"] if c["w"] % 3 else 0))


def a_layer_attention_shapes(env, c, A):
    def f(n, h, s, xs, go):
        s2 = list(s)
        s2[1 + c["p"] % 2] += c["v"]
        ys = list(xs)    # moments unregister their tensors when dropped
        ys[1 + c["w"] % 2] = _mom(env, c, s2, [s[0], 1, 1] if one else None, 9)
        return lambda: (xs, go(ys, n))
    one = bool(c["w"] // 2 % 2)    # only the shape differs, not the tile
    return _attention(env, c, f, one)


def a_layer_attention_tiles(env, c, A):
    def f(n, h, s, xs, go):
        if max(s[1:]) < 2:
            raise Invalid("one tile")
        i = 1 if s[1] > 1 and (c["p"] % 2 or s[2] == 1) else 2
        t = list(s)
        t[i] = 1
        ys = list(xs)
        ys[1 + c["w"] % 2] = _mom(env, c, list(s), t, 9)
        return lambda: (xs, go(ys, n))
    return _attention(env, c, f)


def a_layer_mixer_side(env, c, A):
    x = _mom(env, c, [2, 2, 3])
    return lambda: env.nn.layer.MixerMlp.generate_simple(x, _bad_side(c), 0)


def _deep(env, c, x, side, nd, nl):
    if c["w"] % 2:
        return env.nn.model.DeepLinear(x, side, nd, 3, 2, nl, 0)
    return env.nn.model.DeepReLU(x, side, nd, 3, 2, nl, 2, 0)


def a_model_side(env, c, A):
    x = _mom(env, c, c["shape"], c["tile"])
    return lambda: _deep(env, c, x, _bad_side(c), 1, 2)


def a_model_layers(env, c, A):
    x = _mom(env, c, c["shape"], c["tile"])
    return lambda: _deep(env, c, x, "LR"[c["w"] // 2 % 2], 1, [1, 0, -1][c["v"] - 1])


def a_model_ndim(env, c, A):
    x = _mom(env, c, c["shape"], c["tile"])
    return lambda: _deep(env, c, x, "LR"[c["w"] // 2 % 2], _bad_count(c), 2)


def a_model_mixer_layers(env, c, A):
    x = _mom(env, c, [2, 2, 3])
    return lambda: env.nn.model.MlpMixer(x, 4, _bad_count(c), 2, 0)


def a_loss_frob(env, c, A):
    s = list(c["shape"])
    s[c["p"]] += c["v"]
    x, y = _mom(env, c, c["shape"], c["tile"]), env.tensor(s, c["tile"], c["dt"], ops.make_data("ints", 5, s, c["dt"]))
    def f():
        l, _ = env.nn.loss.Frob.generate_simple(x, 0)
        env.T.copy_async(y, l.y)
    return f


API = {k[2:]: v for k, v in globals().items() if k.startswith("a_")}


def check_api(env, c):
    a = ops.make_data("normal", c["w"], c["shape"], c["dt"])
    A = env.tensor(c["shape"], c["tile"], c["dt"], a)
    f = API[c["api"]](env, c, A)
    others = [t for t in env.live if t is not A]
    before = [env.get(t) for t in others]
    err = None
    try:
        f()
    except Exception as e:
        err = e
    env.nn.starpu.wait_for_all()
    if err is None:
        raise Fail("accepted", "ill-formed call %s accepted (shape %s, tile %s, variant %d of dimension %d)" % (
            c["api"], c["shape"], c["tile"], c["v"], c["p"]))
    for t, b in zip([A] + others, [a] + before):
        if not core.same_bits(env.get(t), b):
            raise Fail("modified", "rejected call %s modified an operand at %s" % (c["api"], core.first_diff(env.get(t), b)))
    env.T.scal_inplace_async(2.0, A)
    if not core.same_bits(env.get(A), a * ops.NPDT[c["dt"]](2)):
        raise Fail("value", "wrong result after rejected call " + c["api"])


def valid(c):
    if "api" in c:
        try:
            n = len(c["shape"])
            return n == len(c["tile"]) and n >= 1 and min(c["shape"] + c["tile"]) >= 1 and 0 <= c["p"] < n
        except Exception:
            return False
    return ops.valid(c) and c["mut"] in mutations(c)


def shrinks(c):
    if "api" in c:
        for i in range(len(c["shape"])):
            if len(c["shape"]) > 1:
                d = copy.deepcopy(c)
                del d["shape"][i], d["tile"][i]
                d["p"] = min(d["p"], len(d["shape"]) - 1)
                yield d
            for s in (1, 2, c["shape"][i] - 1):
                if 1 <= s < c["shape"][i]:
                    d = copy.deepcopy(c)
                    d["shape"][i] = s
                    d["tile"][i] = min(s, d["tile"][i])
                    yield d
        return
    for d in ops.shrinks(c):
        if d["mut"] in mutations(d):
            yield d
            continue
        same = [m for m in mutations(d) if m[0] == c["mut"][0] and m[1] == c["mut"][1]]
        for m in same[:6]:
            yield dict(d, mut=m)


def nontrivial(c):
    return True


def labels(c):
    if "api" in c:
        return ["api=" + c["api"]]
    return ["op=" + c["op"], "mutation=" + c["mut"][0]]
