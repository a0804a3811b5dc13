"""Linear layers and deep linear / ReLU networks of them."""
import copy, math
import numpy as np
from vlib import core, ops, layers
from vlib.core import Fail, Invalid
from vlib.layers import V, ein

RULE = ("Random Linear layer (side, transposition, 1-3 contracted dimensions, 1-2 free output dimensions, bias, redux, input with or without gradient) or DeepLinear/DeepReLU network (2-5 layers), "
    "1-3 forward/backward passes accumulating into random initial gradients, waited for, submitted at once while paused, or run through the synchronous methods; random parameters frozen (their gradients may be left alone); outputs of every pass and all final gradients compared with an extended-precision "
    "reference (exactly, for integer data), inputs and parameters must keep their bits. Non-trivial: some operand has several tiles.")
BUDGET = {"quick": (4000, 30), "thorough": (80000, 600)}
ASSUMPTIONS = ["DeepLinear with one contracted dimension (more is refused by the library because of the bias)",
    "fp16 and tf32 variants exist on CUDA only and are not covered"]


def gen(rng, tier):
    c = {"dt": ops.r_dt(rng), "seed": rng.randrange(1 << 30), "batch": rng.choice([0, 1, 1, 2]),
        "side": rng.choice("LR"), "dk": rng.choice(["ints", "ints", "normal", "wide", "sparse"]),
        "passes": layers.seeds(rng, rng.choice([1, 1, 2, 3])), "frz": rng.choice([0, 0, rng.randrange(1, 1 << 30)])}
    if rng.random() < 0.65:
        nd = rng.choice([1, 1, 1, 2, 2, 3])
        fr = rng.choice([1, 1, 2, 2, 3])
        dims = layers.r_dims(rng, nd + fr)
        no = rng.choice([1, 1, 1, 2])
        c.update(kind="linear", con=dims[:nd], free=dims[nd:], out=layers.r_dims(rng, no, 40, 6),
            tx=int(rng.random() < 0.4), bias=int(no == 1 and rng.random() < 0.6), redux=int(rng.random() < 0.25),
            xgrad=int(rng.random() < 0.8))
    else:
        c.update(kind=rng.choice(["DeepLinear", "DeepReLU", "DeepReLU"]), con=layers.r_dims(rng, 1, 20, 4),
            free=layers.r_dims(rng, rng.choice([1, 1, 2]), 60, 8), hid=layers.r_dims(rng, 1, 12, 4)[0],
            nl=rng.choice([2, 2, 3, 4, 5]), ncls=rng.randint(1, 7), bias=int(rng.random() < 0.5), xgrad=int(rng.random() < 0.7))
        if c["kind"] == "DeepReLU":
            c["nd"] = 1
            if rng.random() < 0.25:
                c["con"] = layers.r_dims(rng, 2, 20, 4)
        else:
            c["bias"] = 1
    return c


def fwd(side, x, w, b, nd):
    """x as matrix-like array: contracted dims nd; canonical layout:
    side L: x[free..., con...], w[con..., out...]; side R: w[out..., con...], x[con..., free...]"""
    m = lambda a, k: a.reshape((math.prod(a.shape[:k]), math.prod(a.shape[k:])))
    if side == "L":
        nf = len(x.shape) - nd
        y = ein("ij,jk->ik", m(x, nf), m(w, nd)).reshape(x.shape[:nf] + w.shape[nd:])
        if b is not None:
            y = y + b.reshape((1,) * (len(y.shape) - 1) + b.shape)
    else:
        no = len(w.shape) - nd
        y = ein("ij,jk->ik", m(w, no), m(x, nd)).reshape(w.shape[:no] + x.shape[nd:])
        if b is not None:
            y = y + b.reshape(b.shape + (1,) * (len(y.shape) - 1))
    return y


def bwd(side, x, w, b, nd, dy):
    m = lambda a, k: a.reshape((math.prod(a.shape[:k]), math.prod(a.shape[k:])))
    if side == "L":
        nf = len(x.shape) - nd
        xm, wm, gm = m(x, nf), m(w, nd), m(dy, nf)
        dx = ein("ik,jk->ij", gm, wm).reshape(x.shape)
        dw = ein("ij,ik->jk", xm, gm).reshape(w.shape)
        db = None if b is None else dy.sum(tuple(range(len(dy.shape) - 1)))
    else:
        no = len(w.shape) - nd
        wm, xm, gm = m(w, no), m(x, nd), m(dy, no)
        dx = ein("ij,ik->jk", wm, gm).reshape(x.shape)
        dw = ein("ik,jk->ij", gm, xm).reshape(w.shape)
        db = None if b is None else dy.sum(tuple(range(1, len(dy.shape))))
    return dx, dw, db


def dat(c, seed, shape):
    k = c["dk"]
    if k == "ints" and c["kind"] != "linear":
        return np.round(ops.make_data("ints", seed, shape, c["dt"]) / 2).astype(ops.NPDT[c["dt"]])
    return ops.make_data(k, seed, shape, c["dt"])


def layout(c):
    """input dimensions in the order of the tensor"""
    if c["kind"] == "linear":
        first_free = (c["side"] == "L") != bool(c["tx"])
    else:
        first_free = c["side"] == "L"
    return c["free"] + c["con"] if first_free else c["con"] + c["free"]


def canon(c, x):
    """tensor order to canonical order (free first for L, contracted first for R)"""
    if c["kind"] != "linear" or not c["tx"]:
        return x
    n1 = len(c["con"]) if c["side"] == "L" else len(c["free"])
    n = len(x.shape)
    return x.t(*(list(range(n1, n)) + list(range(n1))))


def uncanon(c, x):
    if c["kind"] != "linear" or not c["tx"]:
        return x
    n1 = len(c["con"]) if c["side"] == "L" else len(c["free"])
    n = len(x.shape)
    return x.t(*(list(range(n - n1, n)) + list(range(n - n1))))


def check(env, c):
    nn = env.nn
    dt, sd, nd = c["dt"], c["seed"], len(c["con"])
    dims = layout(c)
    shape, tile = [d[0] for d in dims], [d[1] for d in dims]
    g0 = dat(c, sd + 1, shape) if c["xgrad"] else None
    x = layers.moments(env, shape, tile, dt, None, g0, c["xgrad"])
    if c["kind"] == "linear":
        lay, _ = nn.layer.Linear.generate_simple(x, c["side"], nn.tensor.trans if c["tx"] else nn.tensor.notrans, nd,
            [d[0] for d in c["out"]], [d[1] for d in c["out"]], 0, bias=bool(c["bias"]), redux=bool(c["redux"]))
        lins, out, obj = [lay], lay.y, lay
        layers.own(env, lay.activations_output, lay.parameters)
        acts = []
    else:
        if c["kind"] == "DeepLinear":
            obj = nn.model.DeepLinear(x, c["side"], nd, c["hid"][0], c["hid"][1], c["nl"], 0)
        else:
            obj = nn.model.DeepReLU(x, c["side"], nd, c["hid"][0], c["hid"][1], c["nl"], c["ncls"], 0, bias=bool(c["bias"]))
        layers.own(env, obj.activations[1:], obj.parameters)
        lins = [l for l in obj.layers if type(l) is nn.layer.Linear]
        acts = obj.activations
        out = acts[-1]
        # the network has as many linear layers, of such sizes, as was asked for
        hid, last = [c["hid"][0]], ([c["ncls"]] if c["kind"] == "DeepReLU" else [d[0] for d in c["con"]])
        want = [[d[0] for d in c["con"]]] + [hid] * (c["nl"] - 1) + [last]
        want = [b + a if c["side"] == "R" else a + b for a, b in zip(want, want[1:])]
        got = [list(l.w.value.shape) for l in lins]
        if got != want:
            raise Fail("layers", "%s of %d layers has weights %s, expected %s" % (c["kind"], c["nl"], got, want))
    W, B, dW, dB, gW, gB = [], [], [], [], [], []
    for i, l in enumerate(lins):
        w = dat(c, sd + 10 * i + 2, l.w.value.shape)
        gw = dat(c, sd + 10 * i + 3, l.w.value.shape)
        env.put(l.w.value, w)
        env.put(l.w.grad, gw)
        W.append(w)
        dW.append(V(gw))
        gW.append(gw)
        gB.append(None)
        if c["bias"] != (l.b is not None):
            raise Fail("bias", "layer %d has %s bias" % (i, "no" if c["bias"] else "a"))
        if l.b is not None:
            b, gb = dat(c, sd + 10 * i + 4, l.b.value.shape), dat(c, sd + 10 * i + 5, l.b.value.shape)
            env.put(l.b.value, b)
            env.put(l.b.grad, gb)
            B.append(b)
            dB.append(V(gb))
            gB[-1] = gb
        else:
            B.append(None)
            dB.append(None)
    frozen = layers.freeze([t for l in lins for t in (l.w, l.b)], c.get("frz", 0))
    oshape = list(out.value.shape)
    data = [([dat(c, s, shape)], dat(c, s + 1, oshape)) for s in c["passes"]]

    def clear(k):
        # inner activations start from zero gradients, as in the training loop;
        # the gradient of the input is left to accumulate
        for t in acts[1:]:
            nn.tensor.clear_async(t.grad)
    ys = layers.passes(env, obj, [x.value], out, data, c["batch"], clear)
    dX = None if g0 is None else V(g0)
    relu = c["kind"] == "DeepReLU"
    for k, ((xs,), dy) in enumerate(data):
        h = canon(c, V(xs))
        hs, pre = [], []
        for i in range(len(lins)):
            n = nd if i == 0 else 1
            hs.append(h)
            h = fwd(c["side"], h, V(W[i]), None if B[i] is None else V(B[i]), n)
            if relu and i + 1 < len(lins):
                h, d = layers.act("relu", h, dt)
                pre.append(d)
        if list(h.shape) != oshape:
            raise Fail("shape", "output shape %s, expected %s" % (oshape, list(h.shape)))
        core.compare("pass %d: output" % k, ys[k], h.v, h.e, dt, 16)
        g = V(dy)
        for i in reversed(range(len(lins))):
            n = nd if i == 0 else 1
            if relu and i + 1 < len(lins):
                g = g * pre[i]
            g, dw, db = bwd(c["side"], hs[i], V(W[i]), B[i], n, g)
            dW[i] = dW[i] + dw
            if db is not None:
                dB[i] = dB[i] + db
        if dX is not None:
            dX = dX + uncanon(c, g)
    if dX is not None:
        layers.check(env, "input gradient", x.grad, dX, dt)
    for i, l in enumerate(lins):
        layers.check_grad(env, "layer %d weight gradient" % i, l.w, dW[i], gW[i], frozen, dt)
        layers.unchanged(env, "layer %d weight" % i, l.w.value, W[i])
        if l.b is not None:
            layers.check_grad(env, "layer %d bias gradient" % i, l.b, dB[i], gB[i], frozen, dt)
            layers.unchanged(env, "layer %d bias" % i, l.b.value, B[i])
    layers.unchanged(env, "input", x.value, data[-1][0][0])
    m = env.mon_errors()
    if m:
        raise Fail("monitor", m)


def valid(c):
    try:
        ps = c["con"] + c["free"] + (c["out"] if c["kind"] == "linear" else [c["hid"]])
        return len(c["con"]) >= 1 and len(c["free"]) >= 1 and len(c["passes"]) >= 1 and all(min(p) >= 1 for p in ps) and \
            (c["kind"] != "linear" or (len(c["out"]) >= 1 and not (c["bias"] and len(c["out"]) > 1))) and \
            (c["kind"] == "linear" or c["nl"] >= 2) and (c["kind"] != "DeepLinear" or len(c["con"]) == 1)
    except Exception:
        return False


def shrinks(c):
    lin = c["kind"] == "linear"
    yield from layers.shrink_generic(c, ("con", "free", "out") if lin else ("con", "free", "hid"),
        ("passes", "con", "free", "out") if lin else ("passes", "free"), ("batch", "frz", "redux", "bias", "tx") if lin else ("batch", "frz"))
    if not lin and c["nl"] > 2:
        yield dict(copy.deepcopy(c), nl=c["nl"] - 1)
    if c["dk"] != "ints":
        yield dict(copy.deepcopy(c), dk="ints")


def nontrivial(c):
    return any(p[1] < p[0] for p in c["con"] + c["free"] + (c["out"] if c["kind"] == "linear" else [c["hid"]]))


def labels(c):
    l = ["kind=" + c["kind"], c["dt"], "side=" + c["side"], "contracted=%d" % len(c["con"]), "passes=%d" % len(c["passes"]), "data=" + c["dk"]]
    for k in ("tx", "bias", "redux", "batch", "frz"):
        if c.get(k):
            l.append({"batch": "batch=%d" % c["batch"], "frz": "some parameters frozen"}.get(k, k))
    if not c["xgrad"]:
        l.append("input without gradient")
    if any(p[0] % p[1] for p in c["con"] + c["free"]):
        l.append("ragged-last-tile")
    return l
