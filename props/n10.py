"""Random generation: every block of a virtual array, tiled in any way and run
on any schedule, equals the same block of the whole array."""
import contextlib, copy, math, os
import numpy as np
from vlib import core, ops
from vlib.core import Fail, Invalid, LD

RULE = ("Random virtual array (0-5 dims), seed (0, small, 64-bit), 2-4 blocks of it (random start/shape/tiling, executed on 1-3 workers, "
    "possibly submitted together while paused, destination with random earlier content) compared bit by bit with the same block of the "
    "array generated whole, in one tile; affine relation in mean and deviation; another seed gives other values; for a random 64-bit seed and at least "
    "1500 elements the sample is tested against the normal law (Kolmogorov-Smirnov, lag correlation, duplicates). "
    "15%: windows of virtual arrays of 2^31 to 2^62 elements: whole, tiled, and fiber by fiber from the flattened array, bit-identical. "
    "10%: the values of 100 seeds of 8 to 64 random bits at one position have the stated mean, deviation and no outliers. "
    "Non-trivial: some block is a proper sub-block or has several tiles.")
BUDGET = {"quick": (4000, 30), "thorough": (60000, 600)}
ASSUMPTIONS = ["statistical thresholds have a false alarm probability below 1e-7 per test for an ideal generator"]


def gen_huge(rng):
    """a window of an array too large to exist: up to 2^62 elements"""
    nd = rng.choice([1, 2, 2, 3, 3, 4])
    while True:
        U = [rng.choice([rng.randint(1, 9), rng.randint(10, 5000), (1 << 16) + rng.randint(-3, 3), (1 << 31) + rng.randint(-3, 3),
            (1 << 32) + rng.randint(-3, 3), rng.randint(1 << 20, 1 << 40)]) for _ in range(nd)]
        if (1 << 31) < math.prod(U) < (1 << 62):
            break
    sh = [rng.randint(1, min(4, u)) for u in U]
    if nd == 1:
        sh = [rng.randint(2, 40)]
    st = []
    for u, s in zip(U, sh):
        c = [x for x in (0, u - s, (1 << 31) - rng.randint(0, s), (1 << 32) - rng.randint(0, s), rng.randint(0, u - s)) if 0 <= x <= u - s]
        st.append(rng.choice(c))
    return {"kind": "huge", "dt": ops.r_dt(rng), "U": U, "start": st, "shape": sh, "tile": [rng.randint(1, s) for s in sh],
        "start2": [rng.randint(0, u - s) for u, s in zip(U, sh)], "seed": str(rng.getrandbits(64)), "batch": rng.choice([0, 1, 2])}


def check_huge(env, c):
    U, st, sh, seed = c["U"], c["start"], c["shape"], int(c["seed"])

    def win(start, shape, tile, V):
        t = env.tensor(shape, tile, c["dt"], ops.make_data("nanmix", 1, shape, c["dt"]))
        return t, lambda: env.T.randn_async(t, start, V, seed, 0.0, 1.0)

    jobs = [win(st, sh, sh, U), win(st, sh, c["tile"], U), win(c["start2"], sh, sh, U)]
    # every fiber along the first axis is a piece of the flattened array
    fib = list(np.ndindex(*sh[1:]))[:6]
    N = math.prod(U)
    for f in fib:
        lin = st[0]
        k = U[0]
        for i, u in enumerate(U[1:]):
            lin += (st[i + 1] + f[i]) * k
            k *= u
        jobs.append(win([lin], [sh[0]], [sh[0]], [N]))
    if c["batch"] == 1:
        env.nn.starpu.pause()
    try:
        with core.blocking(env) if c["batch"] == 2 else contextlib.nullcontext():
            for t, f in jobs:
                f()
    finally:
        if c["batch"] == 1:
            env.nn.starpu.resume()
    got = [env.get(t) for t, f in jobs]
    what = "window start %s shape %s of an array of shape %s" % (st, sh, U)
    if not np.isfinite(got[0]).all():
        raise Fail("nan", what + " is not finite")
    if not core.same_bits(got[0], got[1]):
        raise Fail("value", "%s generated in tiles of %s differs at %s" % (what, c["tile"], core.first_diff(got[1], got[0])))
    for f, g in zip(fib, got[3:]):
        e = np.array(got[0][(slice(None),) + f], order="F")
        if not core.same_bits(g, e):
            raise Fail("value", "%s: fiber %s differs from the same elements of the flattened array at %s" % (what, f, core.first_diff(e, g)))
    if c["start2"] != st and got[0].size >= 4 and (got[0] == got[2]).mean() > 0.5 and disjoint(c):
        raise Fail("value", "%s repeats the window at %s" % (what, c["start2"]))


def gen_seeds(rng):
    U = [rng.randint(1, 40) for _ in range(rng.choice([0, 1, 2, 3]))]
    pos = [0] * len(U) if rng.random() < 0.25 else [rng.randrange(u) for u in U]
    return {"kind": "seeds", "dt": ops.r_dt(rng), "U": U, "pos": pos, "bits": rng.choice([8, 12, 16, 24, 32, 48, 64, 64]), "seed": str(rng.getrandbits(32)), "batch": 0}


_listed = []


def listed(key):
    """known-findings.txt lists this finding"""
    if not _listed:
        f = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known-findings.txt")
        _listed.append([l for l in open(f) if l.startswith("known: property=N10 ")] if os.path.exists(f) else [])
    return any(" id=%s " % key in l for l in _listed[0])


def check_seeds(env, c):
    import random
    rng = random.Random(c["seed"])
    U, pos, n = c["U"], c["pos"], 100
    seeds = set()
    while len(seeds) < n:
        seeds.add(rng.getrandbits(c["bits"]))
    seeds = sorted(seeds)
    ts = []
    for s in seeds:
        t = env.tensor([1] * len(U), [1] * len(U), c["dt"])
        env.T.randn_async(t, pos, U, s, 0.0, 1.0)
        ts.append(t)
    v = np.array([env.get(t).ravel()[0] for t in ts], dtype=float)
    what = "position %s of an array of shape %s, 100 random seeds of %d bits" % (pos, U, c["bits"])
    if not np.isfinite(v).all():
        raise Fail("nan", what + ": " + repr(v[~np.isfinite(v)][0]))
    m, d, x = v.mean(), v.std(), np.abs(v).max()
    if abs(m) > 0.65 or not 0.55 < d < 1.45 or x > 7.2:
        if not any(pos) and c["bits"] < 64 and not c.get("probe") and listed("small-seed-first-element"):
            return {"known_finding_hits": 1}
        raise Fail("stat", "%s: mean %.3f, deviation %.3f, largest %.3f" % (what, m, d, x))
    if len(set(v)) < n // 2:
        raise Fail("stat", "%s: only %d different values" % (what, len(set(v))))


def disjoint(c):
    return any(abs(a - b) >= s for a, b, s in zip(c["start"], c["start2"], c["shape"]))


def gen(rng, tier):
    if rng.random() < 0.15:
        return gen_huge(rng)
    if rng.random() < 0.1:
        return gen_seeds(rng)
    nd = rng.choice([0, 1, 1, 2, 2, 2, 3, 3, 3, 4, 4, 5])
    big = rng.random() < 0.12
    ax = ops.r_axes(rng, ["d%d" % i for i in range(nd)], maxel=2600)
    U = [ax["d%d" % i][0] for i in range(nd)]
    if big:
        nd = rng.choice([1, 2, 3])
        U = {1: [rng.randint(1500, 3000)], 2: [rng.randint(30, 60), rng.randint(50, 60)],
             3: [rng.randint(11, 14), rng.randint(12, 14), rng.randint(12, 14)]}[nd]
    blocks = []
    for _ in range(rng.randint(2, 4)):
        if rng.random() < 0.3:
            st, sh = [0] * nd, list(U)
        else:
            st, sh = [], []
            for u in U:
                s = rng.randint(0, u - 1)
                st.append(s)
                sh.append(rng.randint(1, u - s))
        tl = [ops.r_tile(rng, s) for s in sh]
        while math.prod((s - 1) // b + 1 for s, b in zip(sh, tl)) > 64:
            i = max(range(nd), key=lambda i: (sh[i] - 1) // tl[i] + 1)
            tl[i] = min(sh[i], tl[i] * 2)
        ms = [0.0, 1.0] if rng.random() < 0.6 else [ops.r_coef(rng), abs(ops.r_coef(rng))]
        blocks.append({"start": st, "shape": sh, "tile": tl, "ms": ms, "fill": rng.randrange(1 << 30)})
    u = rng.random()
    seed = rng.getrandbits(64) if u < 0.6 else (rng.randint(0, 3) if u < 0.8 else rng.getrandbits(rng.randint(2, 60)))
    if big:
        seed = rng.getrandbits(64) | (1 << 63)
    return {"dt": ops.r_dt(rng), "U": U, "seed": str(seed), "blocks": blocks, "batch": rng.choice([0, 0, 1, 1, 2]),
        "seed2": str(rng.getrandbits(64) if rng.random() < 0.5 else seed ^ (1 << rng.randint(32, 63))), "stat": int(big)}


def base(env, case, seed):
    t = env.tensor(case["U"], case["U"] or [], case["dt"])
    env.T.randn_async(t, [0] * len(case["U"]), case["U"], seed, 0.0, 1.0)
    return env.get(t)


def ks(a):
    from scipy.special import ndtr
    x = np.sort(a.ravel().astype(float))
    n = x.size
    F = ndtr(x)
    k = np.arange(n)
    return max(np.max(F - k / n), np.max((k + 1) / n - F)) * math.sqrt(n)


def check(env, case):
    if case.get("kind") == "huge":
        return check_huge(env, case)
    if case.get("kind") == "seeds":
        return check_seeds(env, case)
    T, dt, U = env.T, case["dt"], case["U"]
    seed = int(case["seed"])
    ref = base(env, case, seed)
    if not np.isfinite(ref).all():
        i = tuple(np.argwhere(~np.isfinite(ref))[0])
        raise Fail("nan", "seed %d: element %s is %r" % (seed, core.fmt_idx(i), ref[i]))
    ts = []
    for b in case["blocks"]:
        if any(s + n > u for s, n, u in zip(b["start"], b["shape"], U)) or len(b["shape"]) != len(U):
            raise Invalid("block")
        ts.append(env.tensor(b["shape"], b["tile"], dt, ops.make_data("nanmix", b["fill"], b["shape"], dt)))
    if case["batch"] == 1:
        env.nn.starpu.pause()
    try:
        with core.blocking(env) if case["batch"] == 2 else contextlib.nullcontext():
            for b, t in zip(case["blocks"], ts):
                T.randn_async(t, b["start"], U, seed, *b["ms"])
    finally:
        if case["batch"]:
            env.nn.starpu.resume()
    for n, (b, t) in enumerate(zip(case["blocks"], ts)):
        got = env.get(t)
        exp = ref[tuple(slice(s, s + k) for s, k in zip(b["start"], b["shape"]))] if U else ref
        exp = np.array(exp, order="F")
        m, s = b["ms"]
        if [m, s] == [0.0, 1.0]:
            if not core.same_bits(got, exp):
                raise Fail("value", "block %d (start %s, shape %s, tile %s) differs from the whole array at %s" % (n,
                    b["start"], b["shape"], b["tile"], core.first_diff(got, exp)))
        else:
            z = exp.astype(LD)
            dtp = ops.NPDT[dt]
            ml, sl = LD(dtp(m)), LD(dtp(s))
            core.compare("block %d" % n, got, ml + sl * z, abs(ml) + abs(sl * z), dt, 6)
    other = base(env, case, int(case["seed2"]))
    if case["seed2"] != case["seed"] and ref.size >= 8:
        eq = float(np.mean(other == ref))
        if eq > 0.5:
            raise Fail("value", "seeds %s and %s give the same values" % (case["seed"], case["seed2"]))
    again = base(env, case, seed)
    if not core.same_bits(again, ref):
        raise Fail("value", "the same call repeated gives other values at " + core.first_diff(again, ref))
    if case["stat"] and ref.size >= 1500:
        n = ref.size
        d = ks(ref)
        if not d < 3.2:
            raise Fail("stat", "sample of %d does not look normal (0,1): KS %.2f, mean %.3f, deviation %.3f" % (n, d, ref.mean(), ref.std()))
        if len(np.unique(ref)) < 0.95 * n:
            raise Fail("stat", "only %d distinct values of %d" % (len(np.unique(ref)), n))
        for axis in range(ref.ndim):
            for lag in (1, 2):
                if ref.shape[axis] > lag + 3:
                    x = np.take(ref, range(ref.shape[axis] - lag), axis).ravel().astype(float)
                    y = np.take(ref, range(lag, ref.shape[axis]), axis).ravel().astype(float)
                    c = float(np.mean(x * y)) * math.sqrt(x.size)
                    if abs(c) > 8:
                        raise Fail("stat", "correlation along axis %d at lag %d: %.1f deviations" % (axis, lag, c))
        return {"statistical_samples": 1}


def valid(c):
    try:
        if c.get("kind") == "seeds":
            return len(c["U"]) == len(c["pos"]) and all(0 <= p < u for p, u in zip(c["pos"], c["U"])) and 8 <= c["bits"] <= 64
        if c.get("kind") == "huge":
            return len(c["U"]) >= 1 and all(0 <= a <= u - s and 0 <= b <= u - s and 1 <= t <= s
                for a, b, u, s, t in zip(c["start"], c["start2"], c["U"], c["shape"], c["tile"])) and math.prod(c["U"]) < 1 << 62
        n = len(c["U"])
        for b in c["blocks"]:
            if not len(b["start"]) == len(b["shape"]) == len(b["tile"]) == n:
                return False
            for s, k, t, u in zip(b["start"], b["shape"], b["tile"], c["U"]):
                if s < 0 or k < 1 or t < 1 or s + k > u:
                    return False
        return 0 <= int(c["seed"]) < 2 ** 64
    except Exception:
        return False


def shrinks(c):
    if c.get("kind") == "seeds":
        for i in range(len(c["U"])):
            d = copy.deepcopy(c)
            del d["U"][i], d["pos"][i]
            yield d
            for u, q in ((c["pos"][i] + 1, c["pos"][i]), (c["U"][i], 0), (c["U"][i], c["pos"][i] // 2)):
                if (u, q) != (c["U"][i], c["pos"][i]):
                    d = copy.deepcopy(c)
                    d["U"][i], d["pos"][i] = u, q
                    yield d
        return
    if c.get("kind") == "huge":
        for i in range(len(c["U"])):
            if len(c["U"]) > 1:
                d = copy.deepcopy(c)
                for k in ("U", "start", "start2", "shape", "tile"):
                    del d[k][i]
                yield d
            for k, v in (("shape", 1), ("start", 0), ("start2", 0), ("tile", 1), ("shape", c["shape"][i] - 1), ("U", c["start"][i] + c["shape"][i])):
                if 0 <= v < c[k][i]:
                    d = copy.deepcopy(c)
                    d[k][i] = v
                    if k == "shape":
                        d["tile"][i] = min(d["tile"][i], v)
                    yield d
        if c["batch"]:
            yield dict(copy.deepcopy(c), batch=0)
        return
    for i in range(len(c["blocks"])):
        if len(c["blocks"]) > 1:
            d = copy.deepcopy(c)
            del d["blocks"][i]
            yield d
    for k, v in (("batch", 0), ("stat", 0), ("dt", "fp32")):
        if c[k] != v:
            yield dict(copy.deepcopy(c), **{k: v})
    for i in range(len(c["U"])):
        d = copy.deepcopy(c)
        del d["U"][i]
        for b in d["blocks"]:
            for k in ("start", "shape", "tile"):
                del b[k][i]
        yield d
        for v in (1, 2, c["U"][i] // 2, c["U"][i] - 1):
            if 1 <= v < c["U"][i]:
                d = copy.deepcopy(c)
                d["U"][i] = v
                for b in d["blocks"]:
                    b["start"][i] = min(b["start"][i], v - 1)
                    b["shape"][i] = min(b["shape"][i], v - b["start"][i])
                    b["tile"][i] = min(b["tile"][i], b["shape"][i])
                yield d
        for j in range(len(c["blocks"])):
            b = c["blocks"][j]
            if b["start"][i]:
                d = copy.deepcopy(c)
                d["blocks"][j]["start"][i] = 0
                yield d
            if b["tile"][i] < b["shape"][i]:
                d = copy.deepcopy(c)
                d["blocks"][j]["tile"][i] = b["shape"][i]
                yield d


def nontrivial(c):
    if c.get("kind") == "seeds":
        return True
    if c.get("kind") == "huge":
        return math.prod(c["shape"]) > 1
    return any(b["shape"] != c["U"] or any(t < s for t, s in zip(b["tile"], b["shape"])) for b in c["blocks"])


def labels(c):
    if c.get("kind") == "seeds":
        return ["many seeds", "%d bits" % c["bits"]] + ["first element"] * (not any(c["pos"]))
    if c.get("kind") == "huge":
        return ["huge array", c["dt"], "ndim=%d" % len(c["U"])] + ["blocking form"] * (c["batch"] == 2)
    l = [c["dt"], "ndim=%d" % len(c["U"])]
    if any(any(t < s for t, s in zip(b["tile"], b["shape"])) for b in c["blocks"]):
        l.append("multi-tile")
    if any(any(b["start"]) for b in c["blocks"]):
        l.append("offset-block")
    if c["stat"]:
        l.append("statistics")
    if int(c["seed"]) == 0:
        l.append("seed=0")
    return l
