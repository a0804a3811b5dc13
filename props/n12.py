"""Optimizer classes over random histories, and the fused step operations."""
from vlib import core, ops, opprop, optim
from vlib.core import Fail

RULE = ("Half: random history (1-6 steps) of an optimizer object (Adam, AMSGrad, FusedAdam, FusedAdamW, SGD) over 1-3 tiled parameters; after every step "
    "parameters and state are compared with the extended-precision update from the state before it, and the same history submitted at once while execution is paused must end bit-identical. "
    "Half: random direct fused step call. State starts as NaN/inf garbage in half of the cases. Non-trivial: some parameter has several tiles.")
BUDGET = {"quick": (4000, 30), "thorough": (80000, 600)}
opprop.setup(globals(), ("opt",), RULE, BUDGET)
_gen, _check, _valid, _shr, _nt, _lab = gen, check, valid, shrinks, nontrivial, labels


def gen(rng, tier):
    if rng.random() < 0.45:
        return _gen(rng, tier)
    c = optim.gen_case(rng, optim.ADAMS + ["SGD", "SGD"])
    c["batch"] = int(rng.random() < 0.5)
    return c


def check(env, c):
    if "op" in c:
        return _check(env, c)
    prm = optim.build(env, c)
    start = [env.get(p.value) for p in prm]
    opt = optim.make(env, c["opt"], prm, c["hp"], c["dt"])
    if c["poison"]:
        optim.poison(env, opt, c["opt"], c["dt"], c["seed"])
    for n in range(1, len(c["steps"]) + 1):
        gr = [optim.grad(c, n - 1, i) for i in range(len(prm))]
        for p, g in zip(prm, gr):
            env.put(p.grad, g)
        before = optim.snapshot(env, opt, c["opt"], prm, n)
        opt.step()
        optim.check_step(env, c, opt, prm, n, before, gr)
    end = [env.get(p.value) for p in prm]
    opt.unregister()
    if c["batch"]:
        # the same history, submitted without waiting
        for p, a in zip(prm, start):
            env.put(p.value, a)
        gt = [[env.tensor(s, t, c["dt"], optim.grad(c, n, i)) for i, (s, t) in enumerate(c["params"])]
            for n in range(len(c["steps"]))]
        opt = optim.make(env, c["opt"], prm, c["hp"], c["dt"])
        env.nn.starpu.pause()
        try:
            for gs in gt:
                for p, g in zip(prm, gs):
                    env.T.copy_async(g, p.grad)
                opt.step()
        finally:
            env.nn.starpu.resume()
        for i, (p, a) in enumerate(zip(prm, end)):
            got = env.get(p.value)
            if not core.same_bits(got, a):
                raise Fail("async", "%s: parameter %d after %d steps submitted at once differs from stepping one by one at %s" % (
                    c["opt"], i, len(c["steps"]), core.first_diff(got, a)))
        opt.unregister()


def valid(c):
    return _valid(c) if "op" in c else optim.valid(c)


def shrinks(c):
    return _shr(c) if "op" in c else optim.shrinks(c)


def nontrivial(c):
    return _nt(c) if "op" in c else any(any(b < a for a, b in zip(s, t)) for s, t in c["params"])


def labels(c):
    return _lab(c) if "op" in c else optim.labels(c)
