"""Optimizer histories: construction, reference steps, state access."""
import copy, math
import numpy as np
from . import core, ops
from .ops import LD, EPS, NPDT

ADAMS = ["Adam", "AMSGrad", "FusedAdam", "FusedAdamW"]


def gen_hp(rng, name):
    if name == "SGD":
        mom = rng.choice([0.0, 0.0, 0.5, 0.9])
        return {"lr": rng.choice([1e-3, 0.1, 0.5]), "momentum": mom, "nesterov": int(mom > 0 and rng.random() < 0.5),
            "damping": rng.choice([0.0, 0.0, 0.3]), "weight_decay": rng.choice([0.0, 0.1])}
    hp = {"lr": rng.choice([1e-3, 0.1, 1.0]), "beta1": rng.choice([0.9, 0.5, 0.0]), "beta2": rng.choice([0.999, 0.9, 0.5]),
        "weight_decay": rng.choice([0.0, 0.0, 0.1]), "eps": rng.choice([1e-8, 1e-4])}
    if name.startswith("Fused"):
        u = rng.random()
        if u < 0.4:
            hp["start_lr"] = rng.choice([0.0, 1e-4, 2.0])
            hp["full_lr_iter"] = rng.choice([0, 1, 2, 3, 4, 6, 50])
        elif u < 0.5:
            hp["start_lr"] = 0.5
    return hp


def gen_params(rng):
    out = []
    for _ in range(rng.choice([1, 1, 2, 2, 3])):
        nd = rng.choice([1, 1, 2, 2, 3])
        ax = ops.r_axes(rng, ["d%d" % i for i in range(nd)], maxel=300, maxtiles=16)
        out.append([[ax["d%d" % i][0] for i in range(nd)], [ax["d%d" % i][1] for i in range(nd)]])
    return out


def lr_of(hp, n):
    lr, s, f = hp["lr"], hp.get("start_lr"), hp.get("full_lr_iter")
    if s is not None and f is not None and f > 1 and n < f:
        return s + (lr - s) * (n - 1) / (f - 1)
    return lr


def make(env, name, params, hp, dt, tag=0):
    O = env.nn.optimizer
    k = dict(hp, dtype=NPDT[dt])
    if name == "SGD":
        k["nesterov"] = bool(k["nesterov"])
        return O.SGD(params, k.pop("lr"), tag, **k)
    if name in ("Adam", "AMSGrad"):
        return O.Adam(params, k.pop("lr"), tag, amsgrad=(name == "AMSGrad"), **k)
    return getattr(O, name)(params, k.pop("lr"), tag, **k)


def states(opt, name):
    """tensors of the optimizer state by kind"""
    if name == "SGD":
        return {"buf": opt.states} if opt.momentum > 0 else {}
    d = {"m": opt.first_moments, "s": opt.second_moments}
    if name == "AMSGrad":
        d["v"] = opt.max_second_moments
    return d


def poison(env, opt, name, dt, seed):
    for k, ts in states(opt, name).items():
        for i, t in enumerate(ts):
            env.put(t, ops.make_data("nanmix", seed + i, t.shape, dt))


def build(env, case):
    T = env.nn.tensor
    prm = []
    for i, (shape, tile) in enumerate(case["params"]):
        a = ops.make_data(case["pk"], case["seed"] + i, shape, case["dt"])
        v = env.tensor(shape, tile, case["dt"], a)
        g = env.tensor(shape, tile, case["dt"])
        prm.append(T.TensorMoments(v, g, True))
    return prm


def grad(case, step, i):
    kind, seed = case["steps"][step]
    return ops.make_data(kind, seed + 7919 * i, case["params"][i][0], case["dt"])


def ref_step(name, hp, n, dt, p, g, st):
    """one step in extended precision from the actual state.
    returns ({name: value}, {name: scale})"""
    p, g = p.astype(LD), g.astype(LD)
    q = lambda x: LD(NPDT[dt](x))
    a = np.abs
    if name == "SGD":
        lr, mu, wd, dmp = q(hp["lr"]), q(hp["momentum"]), q(hp["weight_decay"]), q(hp["damping"])
        gs = a(g) + a(wd * p)
        g = g + wd * p
        val, sc = {}, {}
        if mu > 0:
            if n == 1:
                buf, bs = g, gs
            else:
                o = st["buf"].astype(LD)
                buf = mu * o + (1 - dmp) * g
                bs = mu * a(o) + (1 - dmp) * gs
            val["buf"], sc["buf"] = buf, 2 * bs
            if hp["nesterov"]:
                g, gs = g + mu * buf, gs + mu * bs
            else:
                g, gs = buf, bs
        val["p"], sc["p"] = p - lr * g, a(p) + 3 * lr * gs
        return val, sc
    fused = name.startswith("Fused")
    c = q if fused else LD
    b1, b2, eps, wd = c(hp["beta1"]), c(hp["beta2"]), c(hp["eps"]), c(hp["weight_decay"])
    lr = c(lr_of(hp, n))
    w = name == "FusedAdamW"
    gs = a(g) + a(wd * p)
    pscale = a(p)
    if wd != 0:
        if w:
            p = p * (1 - lr * wd)
        else:
            g = g + wd * p
    m0 = st["m"].astype(LD) if n > 1 else 0 * p
    s0 = st["s"].astype(LD) if n > 1 else 0 * p
    m = b1 * m0 + (1 - b1) * g
    s = np.sqrt(b2 * s0 * s0 + (1 - b2) * g * g)
    bc1, bc2 = 1 - b1 ** n, np.sqrt(1 - b2 ** n)
    d = s
    val = {"m": m, "s": s}
    es = a(s0) + gs
    ms = a(m0) + gs
    sc = {"m": ms, "s": es / (1 - b2)}
    if name == "AMSGrad":
        d = np.maximum(s, st["v"].astype(LD) if n > 1 else 0 * s)
        val["v"], sc["v"] = d, es / (1 - b2) + d
    # the plain form divides m*sqrt(bc2) by (s + eps*sqrt(bc2))
    den = d / bc2 + eps
    val["p"] = p - lr / bc1 * m / den
    stp = a(lr / bc1) * (a(m) + ms) / den
    cond = 1 / (1 - b2 ** n) + 1 / bc1 + 4
    sc["p"] = pscale * (1 + a(lr * wd)) + stp * cond * (1 + es / den)
    return val, sc


def check_step(env, case, opt, prm, n, before, gr, who=""):
    """compare the state after step n (counted from 1) with the reference"""
    name, dt = case["opt"], case["dt"]
    for i, t in enumerate(prm):
        st = {k: v[i] for k, v in before["st"].items()}
        val, sc = ref_step(name, case["hp"], n, dt, before["p"][i], gr[i], st)
        cur = {"p": env.get(t.value)}
        for k, ts in states(opt, name).items():
            cur[k] = env.get(ts[i])
        for k in val:
            core.compare("%s%s step %d, parameter %d: %s" % (who, name, n, i, k), cur[k], val[k], sc[k], dt, 8)


def snapshot(env, opt, name, prm, n):
    st = {}
    if n > 1:
        st = {k: [env.get(t) for t in ts] for k, ts in states(opt, name).items()}
    return {"p": [env.get(t.value) for t in prm], "st": st}


def gen_case(rng, names):
    name = rng.choice(names)
    n = rng.choice([1, 2, 2, 3, 4, 5, 6])
    prm = gen_params(rng)
    if rng.random() < 0.03:     # long histories: late iterations
        n = rng.choice([15, 40, 110, 260])
        prm = [[[min(s, 2) for s in p[0][:2]], [1] * len(p[0][:2])] for p in prm[:1]]
    return {"opt": name, "hp": gen_hp(rng, name), "dt": ops.r_dt(rng), "params": prm,
        "pk": rng.choice(["normal", "ints", "sparse"]), "seed": rng.randrange(1 << 30),
        "steps": [[rng.choice(["normal", "normal", "ints", "sparse", "zero", "wide"]), rng.randrange(1 << 30)] for _ in range(n)],
        "poison": int(rng.random() < 0.5)}


def valid(c):
    try:
        return c["opt"] in ADAMS + ["SGD"] and len(c["steps"]) >= 1 and len(c["params"]) >= 1 and \
            all(len(s) == len(t) >= 1 and min(s + t) >= 1 for s, t in c["params"])
    except Exception:
        return False


def shrinks(c):
    for i in range(len(c["params"])):
        if len(c["params"]) > 1:
            d = copy.deepcopy(c)
            del d["params"][i]
            yield d
    for i in range(len(c["steps"])):
        if len(c["steps"]) > 1:
            d = copy.deepcopy(c)
            del d["steps"][i]
            if "cut" in d:
                d["cut"] = min(d["cut"], len(d["steps"]))
            yield d
    for i, (s, t) in enumerate(c["params"]):
        for k in range(len(s)):
            if len(s) > 1:
                d = copy.deepcopy(c)
                del d["params"][i][0][k], d["params"][i][1][k]
                yield d
            for v in (1, 2, s[k] // 2):
                if 1 <= v < s[k]:
                    d = copy.deepcopy(c)
                    d["params"][i][0][k] = v
                    d["params"][i][1][k] = min(v, t[k])
                    yield d
            if t[k] < s[k]:
                d = copy.deepcopy(c)
                d["params"][i][1][k] = s[k]
                yield d
    for k, v in (("poison", 0), ("batch", 0), ("dt", "fp32"), ("pk", "ints")):
        if c.get(k, v) != v:
            yield dict(copy.deepcopy(c), **{k: v})
    for k in list(c["hp"]):
        if k in ("start_lr", "full_lr_iter"):
            d = copy.deepcopy(c)
            d["hp"].pop(k)
            yield d
        elif k in ("weight_decay", "momentum", "damping", "nesterov") and c["hp"][k]:
            d = copy.deepcopy(c)
            d["hp"][k] = type(c["hp"][k])(0)
            if k == "momentum":
                d["hp"]["nesterov"] = 0
            yield d
    for i, (k, s) in enumerate(c["steps"]):
        if k != "ints":
            d = copy.deepcopy(c)
            d["steps"][i][0] = "ints"
            yield d


def labels(c):
    l = ["opt=" + c["opt"], c["dt"], "steps=%d" % len(c["steps"]), "params=%d" % len(c["params"])]
    if any(any(b < a for a, b in zip(s, t)) for s, t in c["params"]):
        l.append("multi-tile")
    if c["hp"].get("weight_decay"):
        l.append("weight-decay")
    if c["hp"].get("full_lr_iter") is not None:
        l.append("warm-up")
    return l
