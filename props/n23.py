"""Inputs keep their bits; overwritten outputs do not depend on old contents."""
import copy
import numpy as np
from vlib import core, ops, programs
from vlib.core import Fail, Invalid

RULE = ("Random operation call (whole catalogue, plus randn, scatter, gather, covering copy_intersection) executed with the destination holding zeros, NaN, infinities, a mix, and never initialised: every result must be bit-identical, "
    "every operand that is only read must keep its bits, and around every executed task a monitor checks that buffers declared read-only are unchanged and fills buffers declared write-only or scratch with NaN beforehand; "
    "a tenth of the cases are whole random programs under that monitor. Non-trivial: some operand has several tiles, or some destination is overwritten.")
BUDGET = {"quick": (8000, 30), "thorough": (200000, 600)}
CONFIGS = [{"ncpu": 1, "monitor": 3}, {"ncpu": 2, "monitor": 3}, {"ncpu": 1, "monitor": 3}, {"ncpu": 3, "monitor": 1},
    {"ncpu": 1, "monitor": 2}, {"ncpu": 1, "monitor": 3}, {"ncpu": 2, "monitor": 3}]
ASSUMPTIONS = ["a destination counts as overwritten when it is a pure output or its coefficient is exactly zero"]
EXTRA = ["randn", "scatter", "gather", "ci"]


def gen(rng, tier):
    u = rng.random()
    if u < 0.08:
        c = programs.gen(rng, tier)
        c["mon"] = 3
        c["kind"] = "program"
        return c
    if u < 0.2:
        nd = rng.choice([0, 1, 2, 2, 3, 4])
        ax = ops.r_axes(rng, ["d%d" % i for i in range(nd)], maxel=1500, maxtiles=32)
        return {"kind": rng.choice(EXTRA), "dt": ops.r_dt(rng), "shape": [ax["d%d" % i][0] for i in range(nd)], "tile": [ax["d%d" % i][1] for i in range(nd)],
            "pad": [[rng.randint(0, 3), rng.randint(0, 3), rng.randint(1, 6)] for _ in range(nd)], "seed": rng.randrange(1 << 30)}
    c = ops.OPS[rng.choice(list(ops.OPS))].gen(rng)
    c["kind"] = "op"
    if "beta" in c["sc"] and rng.random() < 0.6:
        c["sc"]["beta"] = 0.0
    if "alpha" in c["sc"] and rng.random() < 0.15:
        c["sc"]["alpha"] = 0.0
    if c["op"].startswith("adam") and rng.random() < 0.5:
        c["sc"]["it"] = 1
    return c


FILLS = ["zero", "nan", "inf", "nanmix", None]


def compare_runs(what, ref, got, outs, fill):
    for o in outs:
        a, b = ref[o], got[o]
        if not (core.same_bits(a, b) or a.dtype.kind == "f" and bool(((a == b) | np.isnan(a) & np.isnan(b)).all())):
            raise Fail("old-content", "%s: result %s depends on the old content of the destination (%s instead of zeros): %s" % (
                what, o, fill or "never written", core.first_diff(b, a)))


def mon(env):
    m = env.mon_errors()
    if m:
        raise Fail("monitor", m)


def check(env, c):
    if c["kind"] == "program":
        clamps = {}
        env.vs.vs_config(0, 0, 0)
        try:
            r0, f0 = programs.run(env, c, True, clamps)
        finally:
            env.vs.vs_config(1, 3, 0)
        env.cleanup()
        r1, f1 = programs.run(env, c, False, clamps)
        env.vs.vs_config(1, env.cfg.get("monitor", 0), 0)
        mon(env)
        for a, b in list(zip([r[2] for r in r0], [r[2] for r in r1])) + list(zip(f0, f1)):
            if not programs.equal(c, a, b):
                raise Fail("program", "a tensor differs when scratch and write-only buffers are poisoned: %s; program: %s" % (core.first_diff(b, a), programs.describe(c)[:600]))
        return
    if c["kind"] in EXTRA:
        return check_extra(env, c)
    op = ops.OPS[c["op"]]
    over = sorted(op.overwritten(c))
    data = ops.prepare(c)
    ref = None
    for fill in (FILLS if over else ["zero"]):
        tens = {}
        for o in op.roles:
            s, t, dt = ops.shape_of(c, o), ops.tile_of(c, o), op.elt(c, o)
            if o in over:
                tens[o] = env.tensor(s, t, dt) if fill is None else env.tensor(s, t, dt, ops.make_data(fill, 1, s, dt))
            else:
                tens[o] = env.tensor(s, t, dt, data[o])
        core.set_redux(op, c, tens)
        op.call(env.T, tens, c["sc"], c)
        got = {o: env.get(t, op.elt(c, o)) for o, t in tens.items()}
        env.cleanup()
        mon(env)
        for o, (role, el) in op.roles.items():
            if role == "r" and not core.same_bits(got[o], data[o] if data[o].ndim else data[o].reshape(1)):
                raise Fail("modified", "%s modified its input %s at %s" % (c["op"], o, core.first_diff(got[o], data[o])))
        if ref is None:
            ref = got
        elif not (c.get("redux") and c["op"] not in programs.EXACT):
            if c.get("redux"):
                continue            # the order of summation is not determined
            compare_runs(c["op"], ref, got, over + [o for o in op.roles if op.roles[o][0] not in ("r", "x")], fill)
        # no trace of the old content whatever the order of summation
        if c.get("redux"):
            for o in over:
                if np.isnan(got[o]).any() and not np.isnan(ref[o]).any():
                    raise Fail("old-content", "%s: result %s is NaN with %s in the destination" % (c["op"], o, fill))


def check_extra(env, c):
    T, dt, sh, ti = env.T, c["dt"], c["shape"], c["tile"]
    nd = len(sh)
    ref = None
    src = ops.make_data("normal", c["seed"], sh, dt)
    for fill in FILLS:
        def dest(s, t):
            return env.tensor(s, t, dt) if fill is None else env.tensor(s, t, dt, ops.make_data(fill, 1, s, dt))
        x = None
        k = c["kind"]
        if k == "randn":
            y = dest(sh, ti)
            T.randn_async(y, [p[0] for p in c["pad"]], [s + p[0] + p[1] for s, p in zip(sh, c["pad"])], c["seed"], 0.5, 2.0)
        elif k == "scatter":
            x = env.tensor(sh, sh, dt, src)
            y = dest(sh, ti)
            T.scatter_async(x, y)
        elif k == "gather":
            x = env.tensor(sh, ti, dt, src)
            y = dest(sh, sh)
            T.gather_async(x, y)
        else:
            # the destination lies inside the source
            big = [s + p[0] + p[1] for s, p in zip(sh, c["pad"])]
            src = ops.make_data("normal", c["seed"], big, dt)
            x = env.tensor(big, [p[2] for p in c["pad"]], dt, src)
            y = dest(sh, ti)
            T.copy_intersection_async(x, [0] * nd, y, [p[0] for p in c["pad"]])
        got = {"dst": env.get(y)}
        if x is not None and not core.same_bits(env.get(x), src if src.ndim else src.reshape(1)):
            raise Fail("modified", "%s modified its source" % k)
        env.cleanup()
        mon(env)
        if ref is None:
            ref = got
        compare_runs(k, ref, got, ["dst"], fill)


def valid(c):
    if c["kind"] == "program":
        return programs.valid(c)
    if c["kind"] in EXTRA:
        return len(c["shape"]) == len(c["tile"]) == len(c["pad"]) and all(v >= 1 for v in c["shape"] + c["tile"])
    return ops.valid(c)


def shrinks(c):
    if c["kind"] == "program":
        for d in programs.shrinks(c):
            d["mon"] = 3
            yield d
    elif c["kind"] in EXTRA:
        for i in range(len(c["shape"])):
            d = copy.deepcopy(c)
            for k in ("shape", "tile", "pad"):
                del d[k][i]
            yield d
            for q in ([1, 1], [2, 1], [c["shape"][i] - 1, min(c["tile"][i], max(1, c["shape"][i] - 1))]):
                if 1 <= q[0] < c["shape"][i]:
                    d = copy.deepcopy(c)
                    d["shape"][i], d["tile"][i] = q
                    yield d
    else:
        yield from ops.shrinks(c)


def nontrivial(c):
    if c["kind"] == "program":
        return programs.nops(c) > 0
    if c["kind"] in EXTRA:
        return True
    return core.op_nontrivial(c) or bool(ops.OPS[c["op"]].overwritten(c))


def labels(c):
    if c["kind"] == "op":
        return core.op_labels(c) + ["overwritten"] * bool(ops.OPS[c["op"]].overwritten(c))
    return ["kind=" + c["kind"]]
