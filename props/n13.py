"""Optimizer histories interrupted by save/load of the optimizer state."""
import copy, os, tempfile
import numpy as np
from vlib import core, ops, optim
from vlib.core import Fail, Invalid

RULE = ("Random optimizer history (Adam, AMSGrad, FusedAdam, FusedAdamW; 1-6 steps; 1-3 tiled parameters) saved at 1-2 random points (also before the first step and after the last) and loaded "
    "into a fresh optimizer built with other random hyper-parameters and garbage in its state, or into one (also the same one, rolled back) that has done 1-3 other steps; loaded state must equal the saved one bit for bit (rounded to the storage format if fp16/bf16), the saving optimizer "
    "must continue as if it had never saved, and the loaded one must reach bit-identical parameters (half formats: every later step follows the reference update). Non-trivial: at least one step after a load.")
BUDGET = {"quick": (2500, 50), "thorough": (60000, 600)}
ASSUMPTIONS = ["the set of parameters, the amsgrad flag and the element type of the loading optimizer are those of the saving one",
    "fp16/bf16 storage: values are rounded to nearest on saving (torch conversion as the reference)"]


def gen(rng, tier):
    c = optim.gen_case(rng, optim.ADAMS)
    n = len(c["steps"])
    c["cuts"] = sorted({rng.randint(0, n) for _ in range(rng.choice([1, 1, 2]))})
    c["hp2"] = optim.gen_hp(rng, c["opt"])
    c["pre"] = rng.choice([0, 0, 1, 2, 3])
    c["roll"] = c["pre"] > 0 and rng.random() < 0.4
    c["store"] = "native"
    if c["opt"].startswith("Fused"):
        c["store"] = rng.choice(["native", "native", "default", "fp16", "bf16"])
        if c["store"] in ("fp16", "bf16"):
            # gradients whose moments stay in the range of fp16
            c["steps"] = [["normal" if k == "wide" else k, s] for k, s in c["steps"]]
    return c


def half(a, store):
    import torch
    t = torch.tensor(np.ascontiguousarray(a)).to(torch.float16 if store == "fp16" else torch.bfloat16)
    return np.array(t.to(torch.float32).numpy().astype(a.dtype), order="F")


def history(env, c, start, cuts, path, who):
    """run the whole history; at each cut, save, and continue in a fresh
    optimizer if who is 'load', in the same one if who is 'save'"""
    name, dt = c["opt"], c["dt"]
    prm = []
    for (shape, tile), a in zip(c["params"], start):
        v = env.tensor(shape, tile, dt, a)
        g = env.tensor(shape, tile, dt)
        prm.append(env.T.TensorMoments(v, g, True))
    opt = optim.make(env, name, prm, c["hp"], dt)
    if c["poison"]:
        optim.poison(env, opt, name, dt, c["seed"])
    halfs = c["store"] in ("fp16", "bf16")
    loaded = False
    for n in range(1, len(c["steps"]) + 2):
        if n - 1 in cuts:
            old = optim.snapshot(env, opt, name, prm, n)
            kw = {} if c["store"] in ("native", "default") else {"dtype": c["store"]}
            opt.save_state(path, **kw)
            if who == "load":
                opt2 = opt
                if not c.get("roll"):
                    opt2 = optim.make(env, name, prm, c["hp2"], dt)
                    optim.poison(env, opt2, name, dt, c["seed"] + 5)
                if c.get("pre"):
                    # the loading optimizer has a history of its own
                    keep = [env.get(p.value) for p in prm]
                    for k in range(c["pre"]):
                        for i, p in enumerate(prm):
                            env.put(p.grad, ops.make_data("normal", c["seed"] + 31 * k + i + 1000, c["params"][i][0], dt))
                        opt2.step()
                    for p, a in zip(prm, keep):
                        env.put(p.value, a)
                opt2.load_state(path)
                if opt2 is not opt:
                    opt.unregister()
                opt = opt2
                loaded = True
                for k, ts in (optim.states(opt, name).items() if n > 1 else ()):
                    for i, t in enumerate(ts):
                        want = old["st"][k][i]
                        if halfs:
                            want = half(want, c["store"])
                        got = env.get(t)
                        if not core.same_bits(got, want):
                            raise Fail("state", "%s saved after %d steps (%s): state %s of parameter %d differs after loading at %s" % (
                                name, n - 1, c["store"], k, i, core.first_diff(got, want)))
        if n > len(c["steps"]):
            break
        gr = [optim.grad(c, n - 1, i) for i in range(len(prm))]
        for p, g in zip(prm, gr):
            env.put(p.grad, g)
        check = loaded and halfs
        if check:
            before = optim.snapshot(env, opt, name, prm, n)
        opt.step()
        if check:
            optim.check_step(env, c, opt, prm, n, before, gr, "after loading: ")
    end = [env.get(p.value) for p in prm]
    st = {}
    if len(c["steps"]) > 0:
        st = {k: [env.get(t) for t in ts] for k, ts in optim.states(opt, name).items()}
    opt.unregister()
    return end, st


def check(env, c):
    start = [ops.make_data(c["pk"], c["seed"] + i, s, c["dt"]) for i, (s, t) in enumerate(c["params"])]
    fd, path = tempfile.mkstemp(prefix="opt-", suffix=".state")
    os.close(fd)
    try:
        e0, s0 = history(env, c, start, (), path, "run")
        e1, s1 = history(env, c, start, c["cuts"], path, "save")
        e2, s2 = history(env, c, start, c["cuts"], path, "load")
    finally:
        os.unlink(path)
    runs = [("the run that saved its state", e1, s1)]
    if c["store"] in ("native", "default"):
        runs.append(("the run continued from the saved state", e2, s2))
    for what, e, s in runs:
        for i, (a, b) in enumerate(zip(e, e0)):
            if not core.same_bits(a, b):
                raise Fail("params", "%s: %s (saved after %s of %d steps) ends with another parameter %d than the uninterrupted run at %s" % (
                    c["opt"], what, c["cuts"], len(c["steps"]), i, core.first_diff(a, b)))
        for k in s0:
            for i, (a, b) in enumerate(zip(s[k], s0[k])):
                if not core.same_bits(a, b):
                    raise Fail("params", "%s: %s (saved after %s of %d steps) ends with another state %s of parameter %d at %s" % (
                        c["opt"], what, c["cuts"], len(c["steps"]), k, i, core.first_diff(a, b)))


def valid(c):
    return optim.valid(c) and c["opt"] in optim.ADAMS and "hp2" in c and len(c["cuts"]) >= 1 and \
        all(0 <= k <= len(c["steps"]) for k in c["cuts"]) and (c["store"] == "native" or c["opt"].startswith("Fused"))


def shrinks(c):
    for d in optim.shrinks(c):
        d["cuts"] = sorted({min(k, len(d["steps"])) for k in d["cuts"]})
        yield d
    for i in range(len(c["cuts"])):
        if len(c["cuts"]) > 1:
            d = copy.deepcopy(c)
            del d["cuts"][i]
            yield d
        if c["cuts"][i] > 0:
            d = copy.deepcopy(c)
            d["cuts"] = sorted(set(d["cuts"][:i] + [c["cuts"][i] - 1] + d["cuts"][i + 1:]))
            yield d
    if c.get("pre"):
        d = copy.deepcopy(c)
        d["pre"] -= 1
        yield d
    if c.get("roll"):
        d = copy.deepcopy(c)
        d["roll"] = False
        yield d
    for k, v in c["hp"].items():
        if c["hp2"].get(k) != v:
            d = copy.deepcopy(c)
            d["hp2"][k] = v
            yield d


def nontrivial(c):
    return min(c["cuts"]) < len(c["steps"])


def labels(c):
    return optim.labels(c) + ["store=" + c["store"]] + \
        ["save before the first step"] * (0 in c["cuts"]) + ["several saves"] * (len(c["cuts"]) > 1) + \
        ["load into a used optimizer"] * bool(c.get("pre")) + ["roll back"] * bool(c.get("roll"))
