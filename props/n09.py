"""copy_intersection against an index-by-index model, and transposition."""
import contextlib, copy, math
import numpy as np
from vlib import core, ops
from vlib.core import Fail, Invalid
from props import n08

RULE = ("Half of the cases: 1-4 copy_intersection calls between 2-3 tensors (fp32/fp64/int64, 0-4 dims) of different shapes, tilings and "
    "signed offsets, bit-exact against an element-by-element model; other half: transpose and copy calls of the catalogue. "
    "Non-trivial: several tiles are involved and (for intersections) at least one call has a partial, non-empty overlap.")
BUDGET = {"quick": (6000, 30), "thorough": (80000, 600)}
ASSUMPTIONS = ["numpy as reference", "CPU execution"]
POOL = ["transpose"] * 4 + ["copy"]


def gen(rng, tier):
    if rng.random() < 0.4:
        c = ops.OPS[rng.choice(POOL)].gen(rng)
        if rng.random() < 0.3:
            c["batch"] = 1
        elif rng.random() < 0.25:
            c["sync"] = 1
        return c
    nd = rng.choice([0, 1, 1, 2, 2, 2, 3, 3, 4])
    base = [ops.r_size(rng, 0.03) for _ in range(nd)]
    n = rng.choice([2, 2, 3])
    ts = []
    for _ in range(n):
        shp = [max(1, b + rng.randint(-2, 3)) if rng.random() < 0.7 else ops.r_size(rng, 0.03) for b in base]
        while math.prod(shp) > 1200:
            i = max(range(nd), key=lambda k: shp[k])
            shp[i] = (shp[i] + 1) // 2
        tile = [ops.r_tile(rng, s) for s in shp]
        while math.prod((s - 1) // b + 1 for s, b in zip(shp, tile)) > 40:
            i = rng.randrange(nd)
            tile[i] = min(tile[i] * 2, shp[i])
        ts.append([shp, tile])
    same = rng.random() < 0.1
    if same:    # equal shapes, often as many tiles of another size
        for t in ts[1:]:
            t[0] = list(ts[0][0])
            t[1] = []
            for s, b in zip(*ts[0]):
                g = (s - 1) // b + 1
                eq = [q for q in range(1, s + 2) if (s - 1) // q + 1 == g]
                t[1].append(rng.choice(eq) if rng.random() < 0.8 else rng.choice([b, s]))
    calls = []
    for _ in range(rng.choice([1, 1, 2, 3, 4])):
        i, j = rng.sample(range(n), 2)
        so, do = [], []
        far = rng.choice([1 << 31, -(1 << 31), 1 << 32, 1 << 40, -(1 << 45)]) if rng.random() < 0.08 else 0
        for k in range(nd):
            o = rng.randint(-5, 20) + far * rng.randint(0, 1)
            u = rng.random()
            if u < 0.15:
                d = 0
            elif u < 0.94:   # overlapping by construction
                d = rng.randint(-(ts[j][0][k] - 1), ts[i][0][k] - 1)
            else:
                d = rng.randint(-12, 12)
            so.append(o)
            do.append(o + d)
        if same and rng.random() < 0.6:
            do = list(so)
        calls.append([i, so, j, do])
    return {"kind": "ci", "dt": rng.choice(["fp32", "fp64", "int64"]), "t": ts, "calls": calls,
        "seed": rng.randrange(1 << 30), "batch": rng.choice([0, 0, 1, 1, 2])}


def model_ci(a, ao, b, bo):
    """element by element"""
    out = b.copy(order="F")
    nd = len(ao)
    if nd == 0:
        out[...] = a
        return out, True
    for idx in np.ndindex(*b.shape):
        src = tuple(idx[k] + bo[k] - ao[k] for k in range(nd))
        if all(0 <= src[k] < a.shape[k] for k in range(nd)):
            out[idx] = a[src]
    return out


def check(env, case):
    if case.get("kind") != "ci":
        core.check_op(env, case)
        return
    dt = case["dt"]
    model, tens = [], []
    for i, (shp, tile) in enumerate(case["t"]):
        m = n08.bits(case["seed"] + i, shp, dt)
        model.append(m)
        tens.append(env.tensor(shp, tile, dt, m))
    if case["batch"] == 1:
        env.nn.starpu.pause()
    try:
        for i, so, j, do in case["calls"]:
            with core.blocking(env) if case["batch"] == 2 else contextlib.nullcontext():
                env.T.copy_intersection_async(tens[i], so, tens[j], do)
            r = model_ci(model[i], so, model[j], do)
            model[j] = r[0] if isinstance(r, tuple) else r
    finally:
        env.nn.starpu.resume()
    for i in range(len(tens)):
        got = env.get(tens[i], dt)
        if not core.same_bits(got, model[i]):
            raise Fail("value", "after copy_intersection calls tensor %d differs at %s (got vs expected)" % (i,
                core.first_diff(got, model[i])))


def valid(c):
    if c.get("kind") != "ci":
        return ops.valid(c)
    nd = len(c["t"][0][0])
    return all(len(s) == nd and len(t) == nd and min(s + t + [1]) >= 1 for s, t in c["t"]) and \
        all(len(q[1]) == nd and len(q[3]) == nd and q[0] != q[2] and max(q[0], q[2]) < len(c["t"]) for q in c["calls"])


def shrinks(c):
    if c.get("kind") != "ci":
        yield from ops.shrinks(c)
        return
    for k in range(len(c["calls"])):
        if len(c["calls"]) > 1:
            d = copy.deepcopy(c)
            del d["calls"][k]
            yield d
    nd = len(c["t"][0][0])
    for k in range(nd):
        d = copy.deepcopy(c)
        for s, t in d["t"]:
            del s[k]
            del t[k]
        for q in d["calls"]:
            del q[1][k]
            del q[3][k]
        yield d
    for i, (s, t) in enumerate(c["t"]):
        for k in range(nd):
            for s2 in (1, 2, s[k] // 2, s[k] - 1):
                if 1 <= s2 < s[k]:
                    d = copy.deepcopy(c)
                    d["t"][i][0][k] = s2
                    d["t"][i][1][k] = min(t[k], s2)
                    yield d
            if t[k] < s[k]:
                d = copy.deepcopy(c)
                d["t"][i][1][k] = s[k]
                yield d
    for i, q in enumerate(c["calls"]):
        for k in range(nd):
            if q[1][k] != 0:
                d = copy.deepcopy(c)
                o = d["calls"][i][1][k]
                d["calls"][i][1][k] = 0
                d["calls"][i][3][k] -= o
                yield d
    if c["dt"] != "fp32":
        yield dict(copy.deepcopy(c), dt="fp32")
    if c["batch"]:
        yield dict(copy.deepcopy(c), batch=0)


def overlap(c):
    """classes of overlap of the calls"""
    out = set()
    for i, so, j, do in c["calls"]:
        s, d = c["t"][i][0], c["t"][j][0]
        full = part = True
        empty = False
        for k in range(len(s)):
            lo, hi = max(so[k], do[k]), min(so[k] + s[k], do[k] + d[k])
            if lo >= hi:
                empty = True
            if lo > do[k] or hi < do[k] + d[k]:
                full = False
        out.add("overlap=" + ("empty" if empty else "covers-destination" if full else "partial"))
    return out


def nontrivial(c):
    if c.get("kind") != "ci":
        return core.op_nontrivial(c)
    return any(b < a for s, t in c["t"] for a, b in zip(s, t)) and "overlap=partial" in overlap(c)


def labels(c):
    if c.get("kind") != "ci":
        return core.op_labels(c)
    return ["op=copy_intersection", c["dt"], "ndim=%d" % len(c["t"][0][0])] + sorted(overlap(c))
