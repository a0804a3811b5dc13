"""Graphs of residual, slice-add, activation, mixer, pooling layers."""
import copy, math
import numpy as np
from vlib import core, ops, layers
from vlib.core import Fail, Invalid
from vlib.layers import V, ein
from props import n15

RULE = ("Random graph of 1-6 Add, AddSlice, Act (relu, gelu, gelutanh), LayerNorm, square Linear, GAP, MixerMlp (either side) and Mixer layers over a tensor of random shape and tiling, any earlier output feeding any number of layers "
    "(also both operands of one Add); 1-3 forward/backward passes accumulating into random initial gradients, waited for, submitted at once while paused, or run through the synchronous methods; random parameters frozen (their gradients may be left alone); values of all layer outputs and "
    "gradients of the inputs and parameters compared with an extended-precision reference. Non-trivial: several tiles or several layers.")
BUDGET = {"quick": (4000, 30), "thorough": (100000, 700)}
ASSUMPTIONS = ["GAP takes three-dimensional inputs; Mixer takes three-dimensional inputs whose first and last dimensions are one tile",
    "derivative of ReLU is not compared where the pre-activation is zero within rounding"]
HANG = 120
BIN = ("add",)


def tile_after(c, op, t):
    t = list(t)
    s = [p[0] for p in c["dims"]]
    if op == "mlpR":
        t[0] = s[0]
    if op == "mlpL":
        t[-1] = s[-1]
    return t


def tiles(c):
    """tile of every value (input first); raises Invalid for impossible graphs"""
    s = [p[0] for p in c["dims"]]
    out = [[p[1] for p in c["dims"]]]
    sink = set()
    for op, a, b, ax in c["nodes"]:
        if not (0 <= a < len(out)) or a in sink:
            raise Invalid("graph")
        t = out[a]
        if op == "add" and (not (0 <= b < len(out)) or b in sink or out[b] != t):
            raise Invalid("graph")
        if op in ("gap", "mixer") and len(s) != 3:
            raise Invalid("graph")
        if op in ("mlpR", "mlpL") and len(s) < 2:
            raise Invalid("graph")
        if op in ("linL", "linR") and len(s) < 2:
            raise Invalid("graph")
        if op == "mixer" and (t[0] != s[0] or t[2] != s[2]):
            raise Invalid("graph")
        if op in ("norm", "addslice") and not 0 <= ax < len(s):
            raise Invalid("graph")
        if op == "gap":
            sink.add(len(out))
            out.append(None)
        else:
            out.append(tile_after(c, op, t))
    return out


OPS = ["relu", "gelu", "gelutanh", "add", "add", "addslice", "addslice", "norm", "linL", "linR", "gap", "gap", "mlpR", "mlpL", "mixer", "mixer"]


def gen(rng, tier):
    nd = rng.choice([1, 2, 3, 3, 3, 3, 4])
    dims = [[p[0], p[1]] for p in layers.r_dims(rng, nd, 120, 10)]
    mix = nd == 3 and rng.random() < 0.45
    if mix:
        dims = [[p[0], p[0]] if i != 1 else p for i, p in enumerate([[min(p[0], 5), min(p[1], 5)] for p in dims])]
    c = {"dims": dims, "dt": ops.r_dt(rng), "seed": rng.randrange(1 << 30), "batch": rng.choice([0, 1, 1, 2]), "nodes": [],
        "redux": int(rng.random() < 0.2), "xgrad": int(rng.random() < 0.85), "sgrad": int(rng.random() < 0.85),
        "passes": layers.seeds(rng, rng.choice([1, 1, 2, 3])), "frz": rng.choice([0, 0, rng.randrange(1, 1 << 30)])}
    n = rng.choice([1, 1, 2, 3, 4, 5, 6])
    tries = 0
    while len(c["nodes"]) < n and tries < 100:
        tries += 1
        m = len(c["nodes"]) + 1
        pick = lambda: rng.choice([0, m - 1, m - 1, rng.randrange(m)])
        c["nodes"].append([rng.choice(OPS), pick(), pick(), rng.randrange(nd)])
        try:
            if [x[0] for x in c["nodes"]].count("mixer") > 2:
                raise Invalid("size")
            tiles(c)
        except Invalid:
            c["nodes"].pop()
    return c


def needs_grad(c):
    """LayerNorm, GAP and Mixer need a gradient of their input"""
    return any(0 == a and op in ("norm", "gap", "mixer") for op, a, b, ax in c["nodes"])


class Lin:
    def __init__(s, side, w, gw):
        s.side, s.w, s.g = side, V(w), V(gw)
    def f(s, x):
        s.x = x
        return n15.fwd(s.side, x, s.w, None, 1)
    def b(s, dy):
        dx, dw, _ = n15.bwd(s.side, s.x, s.w, None, 1, dy)
        s.g = s.g + dw
        return dx


class Act:
    def __init__(s, name, dt):
        s.n, s.dt = name, dt
    def f(s, x):
        y, s.d = layers.act(s.n, x, s.dt)
        return y
    def b(s, dy):
        return dy * s.d


class Norm:
    def __init__(s, axis, g, b, gg, gb, eps):
        s.axis, s.ga, s.be, s.gg, s.gb, s.eps = axis, V(g), V(b), V(gg), V(gb), eps
    def f(s, x):
        y, s.h, s.inv = layers.layer_norm(x, s.ga, s.be, s.axis, s.eps)
        return y
    def b(s, dy):
        dx, dg, db = layers.layer_norm_bwd(s.h, s.inv, s.ga, dy, s.axis)
        s.gg, s.gb = s.gg + dg, s.gb + db
        return dx


class Mlp:
    def __init__(s, l1, l2, dt):
        s.l1, s.l2, s.a = l1, l2, Act("gelu", dt)
    def f(s, x):
        return s.l2.f(s.a.f(s.l1.f(x)))
    def b(s, dy):
        return s.l1.b(s.a.b(s.l2.b(dy)))


class Mix:
    def __init__(s, n1, m1, n2, m2):
        s.n1, s.m1, s.n2, s.m2 = n1, m1, n2, m2
    def f(s, x):
        z = x + s.m1.f(s.n1.f(x))
        return z + s.m2.f(s.n2.f(z))
    def b(s, dy):
        dz = dy + s.n2.b(s.m2.b(dy))
        return dz + s.n1.b(s.m1.b(dz))


class Gap:
    def f(s, x):
        s.sh = x.shape
        return V(*[a.T for a in ((x.sum(0) * (core.LD(1) / x.shape[0])).v, (x.sum(0) * (core.LD(1) / x.shape[0])).e)])
    def b(s, dy):
        g = dy.t(1, 0) * (core.LD(1) / s.sh[0])
        return V(np.broadcast_to(g.v, s.sh), np.broadcast_to(g.e, s.sh))


class AddS:
    def __init__(s, y, gy, axis):
        s.y, s.g, s.axis = V(y), None if gy is None else V(gy), axis
    def f(s, x):
        return x + V(np.expand_dims(s.y.v, s.axis), np.expand_dims(s.y.e, s.axis))
    def b(s, dy):
        if s.g is not None:
            s.g = s.g + dy.sum(s.axis)
        return dy


def check(env, c):
    nn, dt = env.nn, c["dt"]
    L = nn.layer
    from nntile.layer.add import Add
    from nntile.layer.add_slice import AddSlice
    from nntile.layer.mixer import GAP, MixerMlp, Mixer
    tl = tiles(c)
    shape = [p[0] for p in c["dims"]]
    rs = np.random.RandomState(c["seed"] & 0x7fffffff)
    D = lambda sh: np.array(rs.standard_normal(tuple(sh) if len(sh) else (1,)), dtype=ops.NPDT[dt], order="F").reshape(tuple(sh))
    xg = c["xgrad"] or needs_grad(c)
    gx = D(shape) if xg else None
    x = layers.moments(env, shape, tl[0], dt, None, gx, xg)
    vals, lays, refs, params, inner = [x], [], [], [], []
    def par(t, name):
        """random value and initial gradient"""
        v, g = D(t.value.shape), D(t.value.shape)
        env.put(t.value, v)
        env.put(t.grad, g)
        return v, g
    def lin(side, l, name):
        v, g = par(l.w, name)
        r = Lin(side, v, g)
        params.append((name, l.w, v, r, "g", g))
        return r
    def norm(l, axis, name, eps):
        v, g = par(l.gamma, name)
        v2, g2 = par(l.beta, name)
        r = Norm(axis, v, v2, g, g2, eps)
        params.append((name + " gamma", l.gamma, v, r, "gg", g))
        params.append((name + " beta", l.beta, v2, r, "gb", g2))
        return r
    def mlp(side, l, name):
        return Mlp(lin(side, l.linear_1, name + " first weight"), lin(side, l.linear_2, name + " second weight"), dt)
    slices = []
    for i, (op, a, b, ax) in enumerate(c["nodes"]):
        xi = vals[a]
        nm = "layer %d (%s)" % (i, op)
        if op in ("relu", "gelu", "gelutanh"):
            l, _ = L.Act.generate_simple(xi, op, 0)
            refs.append(Act(op, dt))
        elif op == "add":
            l, _ = Add.generate_simple(xi, vals[b], 0)
            refs.append(None)
        elif op == "addslice":
            sh, ti = shape[:ax] + shape[ax + 1:], tl[a][:ax] + tl[a][ax + 1:]
            v, g = D(sh), D(sh) if c["sgrad"] else None
            s = layers.moments(env, sh, ti, dt, v, g, c["sgrad"])
            l, _ = AddSlice.generate_simple(xi, s, ax, 0, redux=bool(c["redux"]))
            refs.append(AddS(v, g, ax))
            slices.append((nm + " slice", s, v, refs[-1]))
        elif op == "norm":
            l, _ = L.LayerNorm.generate_simple(xi, ax, 1e-2, 0, redux=bool(c["redux"]))
            refs.append(norm(l, ax, nm, 1e-2))
        elif op in ("linL", "linR"):
            k = -1 if op == "linL" else 0
            l, _ = L.Linear.generate_simple(xi, op[-1], nn.tensor.notrans, 1, [shape[k]], [tl[a][k]], 0, bias=False, redux=bool(c["redux"]))
            refs.append(lin(op[-1], l, nm + " weight"))
        elif op == "gap":
            l, _ = GAP.generate_simple(xi, 0)
            refs.append(Gap())
        elif op in ("mlpR", "mlpL"):
            l, _ = MixerMlp.generate_simple(xi, op[-1], 0)
            refs.append(mlp(op[-1], l, nm))
        else:
            l, _ = Mixer.generate_simple(xi, 0)
            refs.append(Mix(norm(l.norm_1, 2, nm + " first norm", 1e-5), mlp("R", l.mlp_1, nm + " first mlp"),
                norm(l.norm_2, 2, nm + " second norm", 1e-5), mlp("L", l.mlp_2, nm + " second mlp")))
            for n in (l.norm_1, l.norm_2):
                layers.own(env, n.temporaries)
        layers.own(env, l.activations_output, l.parameters, l.temporaries)
        lays.append(l)
        inner += [t for t in l.temporaries if hasattr(t, "value")]
        vals.append(l.activations_output[0])
    frozen = layers.freeze([q[1] for q in params], c.get("frz", 0))
    used = {a for op, a, b, ax in c["nodes"]} | {b for op, a, b, ax in c["nodes"] if op == "add"}
    sinks = [i for i in range(1, len(vals)) if i not in used]
    exp_shape = [shape] + [[shape[2], shape[1]] if n[0] == "gap" else shape for n in c["nodes"]]
    for i in range(1, len(vals)):
        if list(vals[i].value.shape) != exp_shape[i]:
            raise Fail("shape", "layer %d (%s): output shape %s, expected %s" % (i - 1, c["nodes"][i - 1][0], vals[i].value.shape, exp_shape[i]))
    like = lambda t, a=None: env.tensor(t.shape, t.basetile_shape, dt, a)
    data = []
    for s in c["passes"]:
        rs = np.random.RandomState(s & 0x7fffffff)
        xa = D(shape)
        dys = {i: D(exp_shape[i]) for i in sinks}
        data.append((xa, dys, like(x.value, xa), {i: like(vals[i].value, d) for i, d in dys.items()}, [like(v.value) for v in vals[1:]]))
    sync = c["batch"] == 2
    if c["batch"] == 1:
        nn.starpu.pause()
    try:
        for xa, dys, xt, dyt, yt in data:
            for t in vals[1:] + inner:
                nn.tensor.clear_async(t.grad)
            nn.tensor.copy_async(xt, x.value)
            for l in lays:
                layers.finished(env, l.forward) if sync else l.forward_async()
            for i, y in enumerate(yt):
                nn.tensor.copy_async(vals[i + 1].value, y)
            for i in sinks:
                nn.tensor.copy_async(dyt[i], vals[i].grad)
            for l in reversed(lays):
                layers.finished(env, l.backward) if sync else l.backward_async()
            if not c["batch"]:
                nn.starpu.wait_for_all()
    finally:
        nn.starpu.resume()
    dX = None if gx is None else V(gx)
    for k, (xa, dys, xt, dyt, yt) in enumerate(data):
        v = [V(xa)]
        for i, (op, a, b, ax) in enumerate(c["nodes"]):
            v.append(v[a] + v[b] if op == "add" else refs[i].f(v[a]))
            core.compare("pass %d: output of layer %d (%s)" % (k, i, op), env.get(yt[i]), v[-1].v, v[-1].e, dt, 24)
        G = [V(np.zeros(tuple(s))) for s in exp_shape]
        for i in sinks:
            G[i] = V(dys[i])
        for i in reversed(range(len(lays))):
            op, a, b, ax = c["nodes"][i]
            g = G[i + 1]
            if op == "add":
                G[a] = G[a] + g
                G[b] = G[b] + g
            else:
                G[a] = G[a] + refs[i].b(g)
        if dX is not None:
            dX = dX + G[0]
    if dX is not None:
        layers.check(env, "input gradient", x.grad, dX, dt, 24)
    for name, t, v, r, attr, g0 in params:
        layers.check_grad(env, "gradient of " + name, t, getattr(r, attr), g0, frozen, dt, 24)
        layers.unchanged(env, name, t.value, v)
    for name, s, v, r in slices:
        if r.g is not None:
            layers.check(env, "gradient of " + name, s.grad, r.g, dt, 24)
        layers.unchanged(env, name, s.value, v)
    layers.unchanged(env, "input", x.value, data[-1][0])
    m = env.mon_errors()
    if m:
        raise Fail("monitor", m)


def valid(c):
    try:
        return all(min(p) >= 1 for p in c["dims"]) and c["dims"] and c["passes"] and len(c["nodes"]) >= 1 and tiles(c) is not None
    except Exception:
        return False


def shrinks(c):
    # remove a node, consumers take its first operand instead
    for i in range(len(c["nodes"])):
        if len(c["nodes"]) > 1:
            d = copy.deepcopy(c)
            a0 = d["nodes"][i][1]
            del d["nodes"][i]
            m = lambda k: a0 if k == i + 1 else (k - 1 if k > i + 1 else k)
            d["nodes"] = [[op, m(a), m(b), ax] if j >= i else [op, a, b, ax] for j, (op, a, b, ax) in enumerate(d["nodes"])]
            yield d
    yield from layers.shrink_generic(c, ("dims",), ("passes",), ("batch", "frz", "redux"))


def nontrivial(c):
    return len(c["nodes"]) > 1 or any(p[1] < p[0] for p in c["dims"])


def labels(c):
    l = sorted({"layer=" + n[0] for n in c["nodes"]}) + [c["dt"], "layers=%d" % len(c["nodes"]), "batch=%d" % c["batch"], "passes=%d" % len(c["passes"])]
    cnt = {}
    for op, a, b, ax in c["nodes"]:
        for k in ([a, b] if op == "add" else [a]):
            cnt[k] = cnt.get(k, 0) + 1
    if max(cnt.values()) > 1:
        l.append("fan-out")
    if not c["xgrad"] and not needs_grad(c):
        l.append("input without gradient")
    if c.get("frz"):
        l.append("some parameters frozen")
    if any(p[1] < p[0] for p in c["dims"]):
        l.append("multi-tile")
    return l
