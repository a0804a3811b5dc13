"""Memory confinement: everything under address and undefined-behaviour sanitizers."""
import copy, importlib
from vlib import core, ops, programs
from vlib.core import Fail, Invalid

RULE = ("Random operation calls (whole catalogue; a third with axes forced to length one, tiles larger than the tensor or single-element tiles) and the random cases of the data movement, generator, optimizer, layer, loss, "
    "attention, pipeline, program and tile-interface properties, executed by a build of the library with address and undefined-behaviour sanitizers; a sanitizer report or a crash ends the process and is the failure. "
    "Values are the business of the other properties. Non-trivial: more than one tile or a degenerate axis.")
BUDGET = {"quick": (4000, 30), "thorough": (100000, 700)}
CONFIGS = [{"ncpu": n, "policy": 1, "flavour": "asan"} for n in (1, 1, 2, 1, 3, 1, 1)]
ASSUMPTIONS = ["misaligned access to the packed argument buffers of gather-type tasks is not counted (alignment and vptr checks are off)",
    "OpenBLAS, StarPU and the Python interpreter are not instrumented; accesses they make on behalf of the library are checked for heap blocks only where interceptors see them"]
HANG = 200
NEEDS_TILE = True
SUB = {"n08": 2, "n09": 2, "n10": 1, "n12": 2, "n15": 2, "n16": 2, "n17": 2, "n07": 1, "n11": 1, "n14": 1, "n19": 1, "n20": 2, "n21": 1, "n22": 2, "n23": 2, "n25": 3}
_mods = {}


def mod(k):
    if k not in _mods:
        _mods[k] = importlib.import_module("props." + k)
    return _mods[k]


POOL = [k for k, n in SUB.items() for _ in range(n)]


def gen(rng, tier):
    if rng.random() < 0.35:
        k = rng.choice(POOL)
        return {"sub": k, "case": mod(k).gen(rng, "quick")}
    c = ops.OPS[rng.choice(list(ops.OPS))].gen(rng)
    op = ops.OPS[c["op"]]
    if rng.random() < 0.35:
        d = copy.deepcopy(c)
        for n in d["ax"]:
            if n in op.fixed_axes or n in op.keep or n.startswith("g") or "g" + n in d["ax"]:
                continue
            u = rng.random()
            if u < 0.3:
                d["ax"][n] = [1, rng.choice([1, 1, 2])]
            elif u < 0.5:
                d["ax"][n][1] = d["ax"][n][0] + rng.randint(1, 5)
            elif u < 0.6:
                d["ax"][n][1] = 1 if d["ax"][n][0] < 6 else d["ax"][n][1]
        if ops.valid(d):
            c = d
    return {"sub": "", "case": c}


def check(env, c):
    try:
        if c["sub"]:
            mod(c["sub"]).check(env, c["case"])
        else:
            core.run_op(env, c["case"], ops.prepare(c["case"]), batch=c["case"]["dk"] and len(str(c["case"]["dk"])) % 2)
    except ops.Violation:
        env.reset()


def valid(c):
    return mod(c["sub"]).valid(c["case"]) if c["sub"] else ops.valid(c["case"])


def shrinks(c):
    it = mod(c["sub"]).shrinks(c["case"]) if c["sub"] else ops.shrinks(c["case"])
    for d in it:
        yield {"sub": c["sub"], "case": d}


def nontrivial(c):
    if c["sub"]:
        return bool(mod(c["sub"]).nontrivial(c["case"]))
    return any(a[1] != a[0] or a[0] == 1 for a in c["case"]["ax"].values())


def labels(c):
    if c["sub"]:
        return ["cases of " + c["sub"].upper()]
    return ["op=" + c["case"]["op"]] + ["degenerate"] * any(a[0] == 1 or a[1] > a[0] for a in c["case"]["ax"].values())
