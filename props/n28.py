"""A blocking call has finished its work when it returns."""
import copy, importlib, json
import numpy as np
from vlib import core, ops, layers
from vlib.core import Fail, Invalid
from props import n25

RULE = ("Blocking calls under a scheduler that delays tasks at random: 40% the blocking form of one operation of the catalogue while chains of value-preserving calls on its operands are still running, 15% the same for the tile-level "
    "interface, 15% wait_for_all after several operations, 30% whole cases of the properties about layers, losses, optimizers, data movement and random generation with every tensor call in its blocking form (or through the "
    "synchronous layer methods). Right after every such call no task may be in flight, and the results must match the references of those properties. Non-trivial: at least one blocking call was looked at on an operand of several tiles or behind a running chain.")
BUDGET = {"quick": (6000, 30), "thorough": (120000, 500)}
CONFIGS = [{"ncpu": n, "policy": p, "delay": d} for n, p, d in ((1, 1, 800), (2, 1, 800), (3, 1, 400), (1, 0, 800), (4, 1, 800), (2, 2, 1500), (1, 1, 200))]
ASSUMPTIONS = ["a blocking call is over when the runtime reports no task in flight (only tasks on the operands of the call were submitted before it)",
    "operations reach the blocking C++ functions through the table nntile.tensor uses for the asynchronous ones; where a blocking form does not exist nothing is concluded"]
NEEDS_TILE = True
HANG = 120
SUB = ["n07", "n08", "n10", "n11", "n12", "n14", "n15", "n16", "n17"]
_mods = {}


def make_env(cfg):
    env = core.Env(cfg)
    # blocking calls and a paused runtime exclude each other
    env.nn.starpu.pause = lambda: None
    env.nn.starpu.resume = lambda: None
    env.nblocking = 0
    return env


def mod(k):
    if k not in _mods:
        _mods[k] = importlib.import_module("props." + k)
    return _mods[k]


def gen(rng, tier):
    u = rng.random()
    if u < 0.7:
        kind = "op" if u < 0.4 else ("tile" if u < 0.55 else "wait")
        while True:
            c = n25.gen(rng, tier) if kind == "tile" else ops.OPS[rng.choice(list(ops.OPS))].gen(rng)
            if kind != "tile" or c["kind"] == "op" and "mut" not in c:
                break
        return {"kind": kind, "case": c, "chain": rng.choice([0, 1, 3, 6]), "dt": c["dt"]}
    k = rng.choice(SUB)
    c = mod(k).gen(rng, "quick")
    sync = k in ("n15", "n16", "n17") and "op" not in c and rng.random() < 0.4
    if sync:
        c["batch"] = 2
    return {"kind": "sub", "sub": k, "case": c, "sync": int(sync), "dt": c.get("dt", "fp32")}


class swapped:
    """every tensor function in its blocking form"""
    def __init__(self, env):
        self.env = env

    def __enter__(self):
        self.old = getattr(self.env.T, "core_tensor", None)
        if self.old is not None:
            self.env.T.core_tensor = core.Strict(self.old, self.env)

    def __exit__(self, *a):
        if self.old is not None:
            self.env.T.core_tensor = self.old


def chain(env, tens, n):
    """submit calls that leave every operand as it is"""
    for i in range(n):
        for t in tens:
            if env.dt_of(t) in ("fp32", "fp64"):
                env.T.scal_inplace_async(1.0, t)


def check(env, c):
    env.nblocking = 0
    k = c["kind"]
    try:
        if k == "sub":
            if c["sync"]:
                env.strict = 1
                mod(c["sub"]).check(env, c["case"])
            else:
                with swapped(env):
                    mod(c["sub"]).check(env, c["case"])
        else:
            check_op(env, c)
    finally:
        env.strict = 0
    return {"blocking calls looked at": env.nblocking}


class StrictTile(n25.Tile):
    def __init__(self, env, vt):
        n25.Tile.__init__(self, env.T, vt, True)
        self.env = env

    def __getattr__(self, n):
        f = n25.Tile.__getattr__(self, n)

        def call(*a, **k):
            f(*a, **k)
            t = core.nsubmitted()
            self.env.nblocking += 1
            if t:
                raise Fail("blocking", "%d tasks are not finished after the blocking tile-level %s returned" % (t, n.replace("_async", "")))
        return call


def check_op(env, c):
    k = c["case"]
    op = ops.OPS[k["op"]]
    data = ops.prepare(k)
    ref = op.ref(k, {o: a.copy(order="F") for o, a in data.items()})
    sh = ops.shared(k)
    tens = {}
    for o in op.roles:
        if sh and o in sh and (set(sh) - {o}).pop() in tens:
            tens[o] = tens[(set(sh) - {o}).pop()]
        else:
            tens[o] = env.tensor(ops.shape_of(k, o), ops.tile_of(k, o), op.elt(k, o), data[o])
    if c["kind"] == "tile" and k["op"] == "nrm2":
        tens["tmp"] = env.tensor([], [], k["dt"], ops.make_data("normal", 3, [], k["dt"]))
    core.set_redux(op, k, tens)
    if not k.get("redux"):
        chain(env, tens.values(), c["chain"])
    if c["kind"] == "op":
        with swapped(env):
            op.call(env.T, tens, k["sc"], k)
    elif c["kind"] == "tile":
        import vtile
        op.call(StrictTile(env, vtile), tens, k["sc"], k)
    else:
        op.call(env.T, tens, k["sc"], k)
        env.nn.starpu.wait_for_all()
        n = core.nsubmitted()
        env.nblocking += 1
        if n:
            raise Fail("blocking", "%d tasks are not finished after wait_for_all returned" % n)
    got = {o: env.get(t, op.elt(k, o)) for o, t in tens.items()}
    for o, r in ref.items():
        if r is not None and not (c["kind"] == "tile" and k["op"] == "nrm2" and o == "tmp"):
            core.compare("blocking %s:%s" % (k["op"], o), got[o], r[0], r[1], k["dt"], op.C)
    m = env.mon_errors()
    if m:
        raise Fail("monitor", m)


def valid(c):
    try:
        if c["kind"] == "sub":
            return mod(c["sub"]).valid(c["case"]) and (not c["sync"] or c["case"].get("batch") == 2)
        return n25.valid(c["case"]) if c["kind"] == "tile" else ops.valid(c["case"])
    except Exception:
        return False


def shrinks(c):
    m = mod(c["sub"]) if c["kind"] == "sub" else (n25 if c["kind"] == "tile" else ops)
    for d in m.shrinks(c["case"]):
        yield dict(c, case=d)
    for q in (0, 1, c.get("chain", 0) - 1):
        if 0 <= q < c.get("chain", 0):
            yield dict(c, chain=q)


def nontrivial(c):
    return c["kind"] == "sub" and mod(c["sub"]).nontrivial(c["case"]) or c.get("chain", 0) > 0 or c["kind"] in ("op", "wait") and core.op_nontrivial(c["case"])


def labels(c):
    l = ["kind=" + c["kind"]]
    if c["kind"] == "sub":
        return l + ["cases of " + c["sub"].upper() + (" through synchronous methods" if c["sync"] else " in blocking form")]
    return l + ["op=" + c["case"]["op"], c["dt"], "chain=%d" % c["chain"]]
