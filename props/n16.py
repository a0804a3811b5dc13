"""Attention and flash attention layers."""
import copy, math
import numpy as np
from vlib import core, ops, layers
from vlib.core import Fail, Invalid
from vlib.layers import V, ein

RULE = ("75%: random Attention or FlashAttention layer: head count and head tile, head size, sequence, batch and embedding sizes and tilings, self-attention or separate query/key/value inputs of different embedding size, "
    "biases, boolean mask (every query sees some key), redux; 1-2 forward/backward passes accumulating into random initial gradients, waited for, submitted at once while paused, or run through the synchronous methods; random parameters frozen (their gradients may be left alone); outputs and all gradients "
    "compared with an extended-precision reference, inputs and parameters must keep their bits. 25%: one call of flash_maxsumexp, flash_softmax_gemm or its backward on random tiled operands against a reference. Non-trivial: sequence, batch, head or embedding dimension has several tiles.")
BUDGET = {"quick": (1500, 50), "thorough": (40000, 700)}
ASSUMPTIONS = ["FlashAttention is applicable with a mask and tiles that divide the sequence, batch and head count evenly",
    "tf32 variants exist on CUDA only and are not covered", "masks in which some query sees no key are outside the domain (softmax undefined)"]
HANG = 120


def even(rng, s):
    return rng.choice([d for d in range(1, s + 1) if s % d == 0])


def gen(rng, tier):
    flash = rng.random() < 0.35
    nh = rng.choice([1, 1, 2, 2, 3, 4])
    hs = rng.choice([1, 2, 2, 3, 4, 5])
    seq, bat = rng.choice([1, 2, 3, 4, 5, 6, 8]), rng.choice([1, 1, 2, 3])
    ek, ev = rng.randint(1, 7), rng.randint(1, 7)
    t = even if flash else ops.r_tile
    c = {"flash": int(flash), "dt": ops.r_dt(rng), "seed": rng.randrange(1 << 30),
        "head": [nh, even(rng, nh) if flash else min(nh, ops.r_tile(rng, nh, False))], "hs": hs,
        "seq": [seq, t(rng, seq)], "bat": [bat, t(rng, bat)],
        "et": rng.randint(1, nh * hs), "ek": [ek, rng.randint(1, ek)], "ev": [ev, rng.randint(1, ev)],
        "same": int(rng.random() < 0.35), "bias": int(rng.random() < 0.6),
        "mask": rng.choice(["causal", "random", "random", "full"]) if flash or rng.random() < 0.6 else None,
        "redux": int(rng.random() < 0.2), "batch": rng.choice([0, 1, 1, 2]), "amp": rng.choice([1, 1, 0.3, 3]),
        "passes": layers.seeds(rng, rng.choice([1, 1, 2])), "frz": rng.choice([0, 0, rng.randrange(1, 1 << 30)])}
    return c


def mask_of(c):
    n = c["seq"][0]
    if c["mask"] is None:
        return None
    i = np.arange(n)
    if c["mask"] == "causal":
        return np.array(i[:, None] <= i[None, :], dtype=bool, order="F")   # [key, query]
    if c["mask"] == "full":
        return np.ones((n, n), dtype=bool, order="F")
    rs = np.random.RandomState(c["seed"] & 0x7fffffff)
    m = rs.random_sample((n, n)) < rs.choice([0.2, 0.5, 0.8])
    m[rs.randint(0, n, size=n), i] = True
    return np.array(m, dtype=bool, order="F")


def reference(P, b, xq, xk, xv, dy, mask, hs):
    r = 1 / np.sqrt(core.LD(hs))
    q = ein("hde,esb->dsbh", P["wq"], xq)
    k = ein("hde,esb->dsbh", P["wk"], xk)
    v = ein("hde,esb->dsbh", P["wv"], xv)
    if b:
        for n, t in (("bq", q), ("bk", k), ("bv", v)):
            e = P[n].reshape((P[n].shape[0], 1, 1, P[n].shape[1]))
            t.v, t.e = (t + e).v, (t + e).e
    a = ein("dkbh,dqbh->kqbh", k, q) * r
    if mask is not None:
        m4 = mask[:, :, None, None]
        a = V(np.where(m4, a.v, -np.inf), np.where(m4, a.e, 0))
    s = layers.softmax(a, 0)
    o = ein("dkbh,kqbh->dqbh", v, s)
    y = ein("ehd,dqbh->eqb", P["w"], o)
    if b:
        y = y + P["bo"].reshape((P["bo"].shape[0], 1, 1))
    G = {}
    G["w"] = ein("eqb,dqbh->ehd", dy, o)
    do = ein("ehd,eqb->dqbh", P["w"], dy)
    ds = ein("dkbh,dqbh->kqbh", v, do)
    dv = ein("dqbh,kqbh->dkbh", do, s)
    da = s * (ds - (s * ds).sum(0, True))
    dk = ein("dqbh,kqbh->dkbh", q, da) * r
    dq = ein("dkbh,kqbh->dqbh", k, da) * r
    for n, g, x in (("q", dq, xq), ("k", dk, xk), ("v", dv, xv)):
        if b:
            G["b" + n] = g.sum((1, 2))
        G["x" + n] = ein("hde,dsbh->esb", P["w" + n], g)
        G["w" + n] = ein("dsbh,esb->hde", g, x)
    if b:
        G["bo"] = dy.sum((1, 2))
    return y, G


def check(env, c):
    nn, dt = env.nn, c["dt"]
    nh, hs = c["head"][0], c["hs"]
    emb = [nh * hs, min(c["et"], nh * hs)]
    rs = np.random.RandomState(c["seed"] & 0x7fffffff)
    D = lambda shape, amp=1.0: np.array(rs.standard_normal(tuple(shape)) * amp, dtype=ops.NPDT[dt], order="F")
    tail = [c["seq"], c["bat"]]

    def inp(e):
        sh, ti = [p[0] for p in [e] + tail], [p[1] for p in [e] + tail]
        g = D(sh)
        return layers.moments(env, sh, ti, dt, None, g), g
    xq, gq = inp(emb)
    if c["same"]:
        xk, gk, xv, gv = xq, gq, xq, gq
    else:
        xk, gk = inp(c["ek"])
        xv, gv = inp(c["ev"])
    mask = mask_of(c)
    mt = None if mask is None else env.tensor([c["seq"][0]] * 2, [c["seq"][1]] * 2, "bool", mask)
    cls = nn.layer.FlashAttention if c["flash"] else nn.layer.Attention
    lay, _ = cls.generate_simple(xq, xk, xv, nh, c["head"][1], 0, bias=bool(c["bias"]), mask=mt, redux=bool(c["redux"]))
    layers.own(env, lay.activations_output, lay.parameters, lay.temporaries)
    par = {"wq": lay.w_q, "wk": lay.w_k, "wv": lay.w_v, "w": lay.w}
    if c["bias"]:
        par.update(bq=lay.in_proj_bias_q, bk=lay.in_proj_bias_k, bv=lay.in_proj_bias_v, bo=lay.out_proj_bias)
    if len(lay.parameters) != len(par):
        raise Fail("parameters", "layer has %d parameters, expected %d" % (len(lay.parameters), len(par)))
    P, G, G0 = {}, {}, {}
    for n, t in par.items():
        P[n] = D(t.value.shape, c["amp"])
        g = D(t.value.shape)
        env.put(t.value, P[n])
        env.put(t.grad, g)
        G[n] = V(g)
        G0[n] = g
    frozen = layers.freeze(par.values(), c.get("frz", 0))
    G["xq"], G["xk"], G["xv"] = V(gq), V(gk), V(gv)
    xs = [xq] if c["same"] else [xq, xk, xv]
    data = [([D(x.value.shape) for x in xs], D(xq.value.shape)) for _ in c["passes"]]
    ys = layers.passes(env, lay, [x.value for x in xs], lay.y, data, c["batch"])
    PV = {n: V(p) for n, p in P.items()}
    for k, (xa, dy) in enumerate(data):
        xa = [V(a) for a in (xa * 3 if c["same"] else xa)]
        y, g = reference(PV, c["bias"], *xa, V(dy), mask, hs)
        core.compare("pass %d: output" % k, ys[k], y.v, y.e, dt, 24)
        for n in g:
            if c["same"] and n in ("xk", "xv"):
                G["xq"] = G["xq"] + g[n]
            else:
                G[n] = G[n] + g[n]
    for n, t in par.items():
        layers.check_grad(env, "gradient of " + n, t, G[n], G0[n], frozen, dt, 24)
        layers.unchanged(env, n, t.value, P[n])
    for n, x in zip(("xq", "xk", "xv"), xs):
        layers.check(env, "gradient of " + n, x.grad, G[n], dt, 24)
    for x, a in zip(xs, data[-1][0]):
        layers.unchanged(env, "input", x.value, a)
    if mt is not None:
        layers.unchanged(env, "mask", mt, mask)
    m = env.mon_errors()
    if m:
        raise Fail("monitor", m)


def valid(c):
    try:
        ps = [c["head"], c["seq"], c["bat"], c["ek"], c["ev"]]
        return all(min(p) >= 1 for p in ps) and c["hs"] >= 1 and c["et"] >= 1 and c["passes"] and c["head"][1] <= c["head"][0] and \
            (not c["flash"] or (c["mask"] and all(p[0] % p[1] == 0 for p in (c["head"], c["seq"], c["bat"]))))
    except Exception:
        return False


def shrinks(c):
    yield from layers.shrink_generic(c, ("head", "seq", "bat", "ek", "ev"), ("passes",), ("batch", "frz", "redux", "bias", "same", "flash"))
    for k in ("hs", "et"):
        for v in (1, 2, c[k] - 1):
            if 1 <= v < c[k]:
                yield dict(copy.deepcopy(c), **{k: v})
    if c["mask"]:
        yield dict(copy.deepcopy(c), mask=None)
        if c["mask"] != "full":
            yield dict(copy.deepcopy(c), mask="full")


def nontrivial(c):
    return any(p[1] < p[0] for p in (c["head"], c["seq"], c["bat"])) or c["et"] < c["head"][0] * c["hs"]


def labels(c):
    l = ["flash" if c["flash"] else "plain", c["dt"], "mask=%s" % c["mask"], "heads=%d" % c["head"][0]]
    for k in ("same", "bias", "redux", "batch", "frz"):
        if c.get(k):
            l.append({"frz": "some parameters frozen", "same": "self-attention", "batch": "batch=%d" % c[k]}.get(k, k))
    if len(c["passes"]) > 1:
        l.append("several passes")
    for k in ("head", "seq", "bat"):
        if c[k][1] < c[k][0]:
            l.append("multi-tile " + k)
    return l


# a quarter of the cases: single calls of the flash operations
OPNAMES = ops.by_tag("flash")


def mixed(f, g):
    return lambda *a: (f if "op" in a[-1] else g)(*a)


def gen_op(rng):
    c = ops.OPS[rng.choice(OPNAMES)].gen(rng)
    u = rng.random()
    if u < 0.3:
        c["batch"] = 1
    elif u < 0.5:
        c["sync"] = 1
    return c


gen_layer = gen
check, valid, shrinks = mixed(core.check_op, check), mixed(ops.valid, valid), mixed(ops.shrinks, shrinks)
nontrivial, labels = mixed(core.op_nontrivial, nontrivial), mixed(core.op_labels, labels)


def gen(rng, tier):
    return gen_op(rng) if rng.random() < 0.25 else gen_layer(rng, tier)
