"""Schedule independence of programs of asynchronous calls."""
import copy
import numpy as np
from vlib import core, ops, programs as P
from vlib.core import Fail, Invalid

RULE = ("Random program of 5-40 asynchronous calls (whole operation catalogue, randn, copy_intersection) over shared tiled tensors with reads, writes, re-creation of tensors, hints, waits, pause/resume in between, "
    "executed call by call with a wait after each, and twice under random ready-task orders with 1-4 workers and random delays; every read and every final tensor must be bit-identical. "
    "Two fifths of the cases are a single call made of several long tasks, run with one kernel at a time and twice with 1-4 workers whose kernels are interrupted at random moments by a timer; results must be bit-identical. "
    "A third of the programs works on small integers in exact arithmetic and requests concurrent reduction at random. Non-trivial: at least two operations, some tensor written by one call and used by another, several tiles; for a single call: several tiles.")
BUDGET = {"quick": (4000, 50), "thorough": (100000, 700)}
CONFIGS = [{"ncpu": 1, "policy": 1}, {"ncpu": 2, "policy": 1}, {"ncpu": 4, "policy": 1}, {"ncpu": 3, "policy": 1, "delay": 300},
    {"ncpu": 1, "policy": 1}, {"ncpu": 4, "policy": 2, "delay": 100}, {"ncpu": 2, "policy": 1, "delay": 150}]
ASSUMPTIONS = ["CPU workers only", "the order of adding the tiles of one cross-entropy value is not determined, so total_sum_accum over several tiles takes part in exact arithmetic only"]
HANG = 120


# the order of summation of these is not determined
ALONE = [o for o in ops.OPS if o not in ("total_sum_accum", "total_sum_um")]


def gen_alone(rng):
    """one call that is made of several long tasks"""
    while True:
        k = rng.choice(ALONE + ["randn", "copy_intersection", "transpose"])
        if k in ("randn", "copy_intersection"):
            c = {"op": k, "ax": {"d%d" % i: None for i in range(rng.choice([2, 2, 3]))}, "dt": ops.r_dt(rng), "nseed": rng.randrange(1 << 30)}
            free = list(c["ax"])
        else:
            c = ops.OPS[k].gen(rng)
            if c["op"] not in ops.OPS:
                continue
            c["redux"] = 0
            free = [n for n in c["ax"] if n not in P.SPECIAL and not n.startswith("g")]
        if not free:
            continue
        el = rng.choice([4000, 10000, 30000])
        n = max(2, round(el ** (1 / len(free))))
        for a in free:
            s = rng.randint(max(2, n * 2 // 3), max(3, n * 3 // 2))
            c["ax"][a] = [s, (s + 1) // 2 if len(free) > 1 else s // 5 + 1]
        if k not in ("randn", "copy_intersection") and not ops.valid(c):
            continue
        c["alone"] = 1
        return c


def alone(env, c, after):
    """result of one run of the call"""
    T = env.T
    shp, tl = [a[0] for a in c["ax"].values()], [a[1] for a in c["ax"].values()]
    if c["op"] == "randn":
        x = {"x": env.tensor(shp, tl, c["dt"])}
        T.fill_async(0.0, x["x"])
        env.nn.starpu.wait_for_all()
        after()
        T.randn_async(x["x"], [1] * len(shp), [s + 3 for s in shp], c["nseed"], 0.5, 2.0)
    elif c["op"] == "copy_intersection":
        a = ops.make_data("normal", c["nseed"], shp, c["dt"])
        x = {"s": env.tensor(shp, tl, c["dt"], a), "x": env.tensor(shp, [max(1, t - 3) for t in tl], c["dt"], 0 * a)}
        after()
        T.copy_intersection_async(x["s"], [0] * len(shp), x["x"], [2] * len(shp))
    else:
        op = ops.OPS[c["op"]]
        data = ops.prepare(c)
        x = {o: env.tensor(ops.shape_of(c, o), ops.tile_of(c, o), op.elt(c, o), data[o]) for o in op.roles}
        env.nn.starpu.wait_for_all()
        after()
        op.call(T, x, c["sc"], c)
    env.nn.starpu.wait_for_all()
    r = {o: env.get(t) for o, t in x.items()}
    env.cleanup()
    return r


def check_alone(env, c):
    cfg = env.cfg
    env.vs.vs_config(4, 0, 0)       # one kernel at a time
    try:
        r0 = alone(env, c, lambda: None)
        for rep in range(2):
            r1 = alone(env, c, lambda: env.vs.vs_config(cfg.get("policy", 1) | 8, 0, 0))
            env.vs.vs_config(4, 0, 0)
            for o in r0:
                if not P.equal({"exact": 0}, r0[o], r1[o]):
                    raise Fail("alone", "%s: %s depends on whether its tasks run one at a time or at the same time: %s" % (c["op"], o, core.first_diff(r1[o], r0[o])))
    finally:
        env.vs.vs_config(cfg.get("policy", 1), cfg.get("monitor", 0), cfg.get("delay", 0))


def gen(rng, tier):
    return gen_alone(rng) if rng.random() < 0.4 else P.gen(rng, tier)


def check(env, c):
    if "alone" in c:
        return check_alone(env, c)
    cfg = env.cfg
    clamps = {}
    env.vs.vs_config(4, 0, 0)       # one kernel at a time
    try:
        r0, f0 = P.run(env, c, True, clamps)
    finally:
        env.vs.vs_config(cfg.get("policy", 1), cfg.get("monitor", 0), cfg.get("delay", 0))
    env.cleanup()
    for rep in range(2):
        env.vs.vs_config(cfg.get("policy", 1), c["mon"], cfg.get("delay", 0))
        try:
            r1, f1 = P.run(env, c, False, clamps)
        finally:
            env.vs.vs_config(cfg.get("policy", 1), cfg.get("monitor", 0), cfg.get("delay", 0))
        m = env.mon_errors()
        if m:
            raise Fail("monitor", m)
        for (pos, i, a), (_, _, b) in zip(r0, r1):
            if not P.equal(c, a, b):
                raise Fail("read", "the read at step %d of tensor %d gives another value than in program order: %s" % (pos, i, core.first_diff(b, a)))
        for i, (a, b) in enumerate(zip(f0, f1)):
            if not P.equal(c, a, b):
                raise Fail("final", "tensor %d %s ends with another value than in program order: %s; program: %s" % (i, c["tens"][i][:2], core.first_diff(b, a), P.describe(c)[:600]))
        env.cleanup()


def valid(c):
    if "alone" not in c:
        return P.valid(c)
    if c["op"] in ("randn", "copy_intersection"):
        return all(min(a) >= 1 for a in c["ax"].values())
    return c["op"] in ALONE and ops.valid(c)


def shrinks(c):
    if "alone" not in c:
        yield from P.shrinks(c)
        return
    for n, (s, t) in c["ax"].items():
        if n in P.SPECIAL or n.startswith("g"):
            continue
        for q in ([1, 1], [s // 2, (t + 1) // 2], [s, s]):
            if q[0] >= 1 and q != [s, t] and (q[0] < s or q[1] > t):
                d = copy.deepcopy(c)
                d["ax"][n] = q
                yield d


def nontrivial(c):
    if "alone" in c:
        return any(a[1] < a[0] for a in c["ax"].values())
    return P.nops(c) >= 2 and P.shares(c) and any(a[1] < a[0] for a in c["ax"].values())


def labels(c):
    if "alone" in c:
        return ["alone", "alone:" + c["op"], c["dt"]]
    l = ["exact" if c["exact"] else "bitwise", c["dt"], "monitor=%d" % c["mon"], "length=%d-%d" % (P.nops(c) // 10 * 10, P.nops(c) // 10 * 10 + 9)]
    l += sorted({"op=" + (it["op"] if isinstance(it, dict) else it[0]) for it in c["prog"]})
    if any(isinstance(it, dict) and it.get("redux") for it in c["prog"]):
        l.append("redux")
    return l
