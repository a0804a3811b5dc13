"""Single-tile operations against whole-tensor operations."""
import copy
import numpy as np
from vlib import core, ops
from vlib.core import Fail, Invalid
from props import n20

RULE = ("Random operation call on operands of one tile each, executed through the tile-level C++ interface (asynchronous, asynchronous while execution is paused, or blocking) and through the tensor-level operation of the same name: "
    "all operands must end bit-identical (or agree with the extended-precision reference). 30%: the same call made ill-formed by one mutation must raise at the call, keep all operands and leave the interface usable. "
    "Plus tile copy_intersection against an index-by-index model (float, double, integer, half precision) and tile randn against the tensor. Non-trivial: more than one element, or an ill-formed call.")
BUDGET = {"quick": (8000, 30), "thorough": (200000, 500)}
ASSUMPTIONS = ["the tile interface is reached through a thin C++ module that takes the only tile of one-tile tensors",
    "tile-level sumnorm accumulates into its result where the tensor operation clears it first; both start from zeros here",
    "tile-level gemm requires a contracted axis (the tensor operation does not)",
    "tile-level gemm_ex and half precision arithmetic have no CPU implementation"]
NEEDS_TILE = True
NO_TILE = {"embedding", "embedding_backward", "transpose", "hypot_scalar_inverse", "flash_maxsumexp", "flash_softmax_gemm", "flash_softmax_gemm_backward"}
NAMES = [o for o in ops.OPS if o not in NO_TILE]


def gen(rng, tier):
    u = rng.random()
    mode = rng.choice(["async", "async", "paused", "blocking"])
    if u < 0.15:
        nd = rng.choice([0, 1, 1, 2, 2, 3, 4])
        d = [[rng.randint(1, 6), rng.randint(0, 5), rng.randint(1, 6), rng.randint(0, 5)] for _ in range(nd)]
        return {"kind": "ci", "dt": rng.choice(["fp32", "fp64", "int64", "fp16"]), "d": d, "seed": rng.randrange(1 << 30), "mode": mode, "over": rng.choice([0, 0, 1, 5]),
            "bad": rng.choice(["", "", "", "soff", "doff", "rank", "scratch", "scratch2"])}
    if u < 0.25:
        nd = rng.choice([0, 1, 2, 2, 3, 4])
        return {"kind": "randn", "dt": ops.r_dt(rng), "d": [[rng.randint(1, 6), rng.randint(0, 5), rng.randint(0, 5)] for _ in range(nd)],
            "seed": rng.randrange(1 << 62), "mean": rng.choice([0.0, 1.5, -3.0]), "dev": rng.choice([1.0, 0.25, 2.0]), "mode": mode, "bad": rng.choice(["", "", "", "start", "under", "neg", "len"])}
    while True:
        c = ops.OPS[rng.choice(NAMES)].gen(rng)
        c["redux"] = 0
        if c["op"] == "sumnorm":
            c["dk"]["y"] = ["zero", 0]      # the tile operation adds to y, the tensor operation clears it first
        for n in c["ax"]:
            c["ax"][n][1] = c["ax"][n][0]
        if c["op"] == "nrm2":
            c["ax"] = {n: ([1, 1] if n.startswith("g") else a) for n, a in c["ax"].items()}
        if not ops.valid(c) or not in_contract(c):
            continue
        c["kind"] = "op"
        c["mode"] = mode
        if u < 0.5:
            ms = [m for m in mutations(c)]
            if not ms:
                continue
            k = rng.choice(["ndim+", "ndim-", "size", "size", "int", "int"])
            c["mut"] = rng.choice([m for m in ms if m[0] == k] or ms)
        return c


def in_contract(c):
    """tile-level mask_scalar has no batch_ndim argument: the mask spans all axes but the last"""
    if c["op"] == "gemm" and c["sc"]["nk"] == 0:
        return False        # the tile operation rejects products without a contracted axis (tile/gemm.cc: ndim <= 0)
    return c["op"] != "mask_scalar" or len(c["opr"]["mask"]) == len(c["opr"]["x"]) - 1


def mutations(c):
    out = []
    for m in n20.mutations(c):
        if m[0] in ("tile", "dtype") or c["op"] == "mask_scalar" and m[0] == "int":
            continue
        if c["op"] == "nrm2" and (m[1] == "x" or m[1] == "tmp" and m[0] != "ndim+"):
            continue
        out.append(m)
    return out


class Tile:
    """the tile-level functions under the names and argument order of nntile.tensor"""
    def __init__(self, T, vt, blocking):
        self.T, self.vt, self.b = T, vt, blocking
        self.trans, self.notrans = T.trans, T.notrans

    def __getattr__(self, n):
        nm = n[:-6] if n.endswith("_async") else n
        if n.startswith("fused_"):
            g = getattr(self.vt, n[6:] + ("" if self.b else "_async"))
            return lambda p, gr, m, s, lr, eps, b1, b2, wd, it: g(it, b1, b2, eps, lr, wd, gr, m, s, p)
        g = getattr(self.vt, nm + ("" if self.b else "_async"))
        if nm == "mask_scalar":
            return lambda k, v, x, nb: g(k, v, x)
        return lambda *a, redux=0: g(*a)


def tile_call(env, c, fn):
    """run fn in the case's mode"""
    if c["mode"] == "paused":
        env.nn.starpu.pause()
    try:
        fn()
    finally:
        if c["mode"] == "paused":
            env.nn.starpu.resume()


def check(env, c):
    import vtile
    if c["kind"] == "ci":
        return check_ci(env, c, vtile)
    if c["kind"] == "randn":
        return check_randn(env, c, vtile)
    op = ops.OPS[c["op"]]
    api = Tile(env.T, vtile, c["mode"] == "blocking")
    data = ops.prepare(c)
    if "mut" in c:
        bad, keep = {}, {}
        for o in op.roles:
            s, t = n20.shape_tile(c, o)
            dt = op.elt(c, o)
            if s == ops.shape_of(c, o):
                keep[o] = data[o]
            else:
                keep[o] = ops.make_data("normal" if dt in ("fp32", "fp64") else ("half" if dt == "bool" else ["idx", 1, "const"]), 3, s, dt)
            if c["op"] == "nrm2" and o == "tmp" and c["mut"][1] != "tmp":
                s, keep[o] = [], ops.make_data("normal", 3, [], dt)     # a tile takes a scalar
            bad[o] = env.tensor(s, s, dt, keep[o])
        cap = n20.Capture(api)
        op.call(cap, bad, c["sc"], c)
        fn, args, kw = cap.call
        if c["mut"][0] == "int":
            args[c["mut"][1]] = c["mut"][2]
        err = None
        try:
            fn(*args, **kw)
        except Exception as e:
            err = e
        env.nn.starpu.wait_for_all()
        if err is None:
            raise Fail("accepted", "tile-level %s accepted an ill-formed call: %s; shapes %s" % (c["op"], c["mut"], {o: list(bad[o].shape) for o in bad}))
        for o in op.roles:
            got = env.get(bad[o])
            if not core.same_bits(got, keep[o].reshape(got.shape, order="F")):
                raise Fail("modified", "tile-level %s: rejected call modified operand %s" % (c["op"], o))
        env.cleanup()
    mk = lambda: {o: env.tensor(ops.shape_of(c, o), ops.tile_of(c, o), op.elt(c, o), data[o]) for o in op.roles}
    X, Y = mk(), mk()
    if c["op"] == "nrm2":
        X["tmp"] = env.tensor([], [], c["dt"], ops.make_data("normal", 3, [], c["dt"]))     # a tile takes a scalar
    tile_call(env, c, lambda: op.call(api, X, c["sc"], c))
    op.call(env.T, Y, c["sc"], c)
    ref = None
    for o in op.roles:
        if c["op"] == "nrm2" and o == "tmp":
            continue            # scratch
        a, b = env.get(X[o]), env.get(Y[o])
        if core.same_bits(a, b) or a.dtype.kind == "f" and bool(((a == b) | np.isnan(a) & np.isnan(b)).all()):
            continue
        ref = ref or op.ref(c, {k: v.copy(order="F") for k, v in data.items()})
        r = ref.get(o)
        if r is None:
            raise Fail("differs", "tile-level %s and the tensor operation differ in %s: %s" % (c["op"], o, core.first_diff(a, b)))
        core.compare("tile-level %s:%s" % (c["op"], o), a, r[0], r[1], c["dt"], op.C)
    m = env.mon_errors()
    if m:
        raise Fail("monitor", m)


def check_ci(env, c, vt):
    ss, so, ds, do = [[d[i] for d in c["d"]] for i in range(4)]
    nd = len(ss)
    inter = [(max(a, b), min(a + n, b + k)) for n, a, k, b in c["d"]]
    hit = all(h > l for l, h in inter)
    dt = "int64" if c["dt"] == "fp16" else c["dt"]
    rs = np.random.RandomState(c["seed"] & 0x7fffffff)
    if dt == "int64":
        S, D = (np.array(rs.randint(0, 65536 if c["dt"] == "fp16" else 1 << 60, size=s or [1]), dtype=np.int64, order="F") for s in (ss, ds))
    else:
        S, D = (ops.make_data("normal", c["seed"] + i, s, dt) for i, s in enumerate((ss, ds)))
    E = D.copy(order="F")
    if hit:
        si = tuple(slice(l - a, h - a) for (l, h), a in zip(inter, so))
        di = tuple(slice(l - a, h - a) for (l, h), a in zip(inter, do))
        if nd:
            E[di] = S[si]
        else:
            E = S.copy()
    if c["dt"] == "fp16":
        if not hit or not nd:
            raise Invalid("no half precision call")
        out = vt.subcopy16(ss, S.astype(np.uint16), so, ds, D.astype(np.uint16), do, False).reshape(ds, order="F")
        if not (out == E.astype(np.uint16)).all():
            raise Fail("value", "half precision sub-copy differs: " + core.first_diff(np.asfortranarray(out), np.asfortranarray(E.astype(np.uint16))))
        return
    x, y = env.tensor(ss, ss, dt, S), env.tensor(ds, ds, dt, D)
    w = env.tensor([2 * nd + c["over"] + (nd == 0)], [2 * nd + c["over"] + (nd == 0)], "int64")
    f = vt.copy_intersection if c["mode"] == "blocking" else vt.copy_intersection_async
    b = c["bad"]
    if b:
        if b == "rank":
            z = env.tensor(ds + [1], ds + [1], dt, D.reshape(ds + [1], order="F"))
            call = lambda: f(x, so, z, do + [0], w)
        elif b == "soff":
            call = lambda: f(x, so + [0], y, do, w)
        elif b == "doff":
            call = lambda: f(x, so, y, do + [0], w)
        elif b == "scratch":
            if nd == 0:
                raise Invalid("no scratch needed")
            w2 = env.tensor([2 * nd - 1], [2 * nd - 1], "int64")
            call = lambda: f(x, so, y, do, w2)
        else:
            w2 = env.tensor([2 * nd + 1, 1], [2 * nd + 1, 1], "int64")
            call = lambda: f(x, so, y, do, w2)
        try:
            call()
            ok = True
        except Exception:
            ok = False
        env.nn.starpu.wait_for_all()
        if ok:
            raise Fail("accepted", "tile-level copy_intersection accepted an ill-formed call (%s)" % b)
        if not core.same_bits(env.get(y), D):
            raise Fail("modified", "rejected tile-level copy_intersection modified its destination")
    tile_call(env, c, lambda: f(x, so, y, do, w))
    got = env.get(y)
    if not core.same_bits(got, E):
        raise Fail("value", "tile-level copy_intersection: " + core.first_diff(got, E))
    if not core.same_bits(env.get(x), S):
        raise Fail("modified", "tile-level copy_intersection modified its source")


def check_randn(env, c, vt):
    s, a, p = [[d[i] for d in c["d"]] for i in range(3)]
    u = [i + j + k for i, j, k in zip(s, a, p)]
    nd = len(s)
    x, y = (env.tensor(s, s, c["dt"], ops.make_data("const", 3, s, c["dt"])) for _ in range(2))
    f = vt.randn if c["mode"] == "blocking" else vt.randn_async
    if c["bad"] and nd:
        b = c["bad"]
        i = c["seed"] % nd
        a2, u2 = list(a), list(u)
        if b == "start":
            a2[i] = u[i] - s[i] + 1
        elif b == "under":
            u2[i] = a[i] + s[i] - 1
        elif b == "neg":
            a2[i] = -1
        else:
            (a2 if c["seed"] % 2 else u2).append(1)
        before = env.get(x)
        try:
            f(x, a2, u2, c["seed"], c["mean"], c["dev"])
            ok = True
        except Exception:
            ok = False
        env.nn.starpu.wait_for_all()
        if ok:
            raise Fail("accepted", "tile-level randn accepted an ill-formed call (%s)" % b)
        if not core.same_bits(env.get(x), before):
            raise Fail("modified", "rejected tile-level randn modified its destination")
    tile_call(env, c, lambda: f(x, a, u, c["seed"], c["mean"], c["dev"]))
    env.T.randn_async(y, a, u, c["seed"], c["mean"], c["dev"])
    g, h = env.get(x), env.get(y)
    if not core.same_bits(g, h):
        raise Fail("value", "tile-level randn differs from the tensor's: " + core.first_diff(g, h))


def valid(c):
    try:
        if c["kind"] == "op":
            return c["op"] not in NO_TILE and all(a[0] == a[1] for n, a in c["ax"].items()) and in_contract(c) and ops.valid(c) and ("mut" not in c or c["mut"] in mutations(c))
        return all(min(d) >= 0 and d[0] >= 1 and (c["kind"] == "randn" or d[2] >= 1) for d in c["d"])
    except Exception:
        return False


def shrinks(c):
    if c["kind"] == "op":
        if c["mode"] != "async":
            yield dict(copy.deepcopy(c), mode="async")
        if "mut" in c:
            d = copy.deepcopy(c)
            del d["mut"]
            yield d
        for d in ops.shrinks(c):
            if not all(a[0] == a[1] for a in d["ax"].values()):
                continue
            if "mut" in d and d["mut"] not in mutations(d):
                for m in [m for m in mutations(d) if m[:2] == d["mut"][:2]][:4]:
                    yield dict(d, mut=m)
            else:
                yield d
        return
    if c["bad"]:
        yield dict(copy.deepcopy(c), bad="")
    for i in range(len(c["d"])):
        d = copy.deepcopy(c)
        del d["d"][i]
        yield d
        for j, v in enumerate(c["d"][i]):
            for q in (0, 1, v - 1):
                if 0 <= q < v:
                    d = copy.deepcopy(c)
                    d["d"][i][j] = q
                    yield d


def nontrivial(c):
    if c["kind"] == "op":
        return "mut" in c or any(a[0] > 1 for a in c["ax"].values())
    return len(c["d"]) > 0


def labels(c):
    l = ["mode=" + c["mode"], c["dt"]]
    if c["kind"] == "op":
        return l + ["op=" + c["op"]] + (["mutation=" + c["mut"][0]] if "mut" in c else [])
    return l + ["kind=" + c["kind"]] + ["ill-formed"] * bool(c["bad"])
