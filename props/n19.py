"""Training pipeline against the textbook loop."""
import contextlib, copy, io, math
import numpy as np
from vlib import core, ops, layers, optim
from vlib.core import Fail, Invalid, LD
from vlib.layers import V
from props import n15, n17

RULE = ("Random model (deep ReLU, deep linear, or a random residual network of Linear, Act, LayerNorm and Add layers), tiling, loss (CrossEntropy with scale and redux, Frob), optimizer with hyper-parameters (or none), 1-3 epochs of 1-3 batches "
    "of 1-3 minibatches (also a different number in each batch), trained once or twice, models given whole or built by append; gradients, loss value and layer outputs hold garbage before training. A second copy of the model is trained by a loop written out in the check: every minibatch gradient, loss value, batch gradient sum and optimizer step of "
    "that loop is compared with an extended-precision reference computed from the actual parameters, and the pipeline must give bit-identical parameters and losses (cross-entropy values up to the order of summation over tiles; close ones with redux). Non-trivial: more than one minibatch or epoch or tile.")
BUDGET = {"quick": (1500, 50), "thorough": (40000, 700)}
ASSUMPTIONS = ["the loss reported for a batch is the content of the loss object after its last minibatch: the sum over minibatches for cross-entropy, the last minibatch's value for Frob",
    "with redux the loop and the pipeline are compared only through the step-wise reference of the loop and a loose tolerance, on at most two batches"]
HANG = 120


def gen(rng, tier):
    loss = rng.choice(["ce", "ce", "frob"])
    c = {"dt": ops.r_dt(rng), "seed": rng.randrange(1 << 30), "loss": loss, "x": layers.r_dims(rng, 1, 8, 4)[0],
        "b": layers.r_dims(rng, rng.choice([1, 1, 2]), 16, 6), "out": rng.randint(1, 6), "bias": int(rng.random() < 0.5),
        "ep": rng.choice([1, 1, 2, 3]), "nb": rng.choice([1, 2, 3]), "nm": rng.choice([1, 1, 2, 3]), "ragged": int(rng.random() < 0.2), "app": int(rng.random() < 0.3), "again": int(rng.random() < 0.15), "xgrad": int(rng.random() < 0.3),
        "opt": rng.choice(optim.ADAMS + ["SGD", "SGD", "Empty"]), "scale": rng.choice([1.0, 1.0, 0.25]), "redux": int(rng.random() < 0.1)}
    c["hp"] = {} if c["opt"] == "Empty" else optim.gen_hp(rng, c["opt"])
    if "lr" in c["hp"]:
        c["hp"]["lr"] = rng.choice([1e-3, 1e-2, 0.1])
    c["b"] = [[min(p[0], 6), min(p[1], 6)] for p in c["b"]]
    u = rng.random()
    if u < 0.25:
        c["model"] = {"k": "DeepReLU", "hid": layers.r_dims(rng, 1, 8, 4)[0], "nl": rng.choice([2, 3, 4])}
    elif u < 0.4:
        c["model"] = {"k": "DeepLinear", "hid": layers.r_dims(rng, 1, 8, 4)[0], "nl": rng.choice([2, 3])}
        c["x"] = [c["x"][0], c["x"][0]]
    else:
        nodes = []
        for _ in range(rng.choice([1, 2, 3, 4, 5])):
            m = len(nodes) + 1
            nodes.append([rng.choice(["lin", "lin", "relu", "gelu", "gelutanh", "norm", "add"]), rng.choice([m - 1, m - 1, rng.randrange(m)]), rng.randrange(m), layers.r_dims(rng, 1, 8, 4)[0]])
        c["model"] = {"k": "graph", "nodes": nodes}
    if c["redux"]:
        c["ep"], c["nb"], c["again"] = 1, min(c["nb"], 2), 0
    return c


def graph_dims(c):
    d = [c["x"]]
    for op, a, b, h in c["model"]["nodes"]:
        if op == "add" and d[a] != d[b]:
            d.append(None)      # dropped: becomes a pass through an activation
            d[-1] = d[a]
        else:
            d.append(h if op == "lin" else d[a])
    return d


class Run:
    """one model with loss and optimizer"""
    def __init__(self, env, c, params=None):
        nn, dt, m = env.nn, c["dt"], c["model"]
        self.env, self.c = env, c
        from nntile.layer.add import Add
        sh, ti = [p[0] for p in [c["x"]] + c["b"]], [p[1] for p in [c["x"]] + c["b"]]
        x = layers.moments(env, sh, ti, dt, None, None, c["xgrad"])
        rx = bool(c["redux"])
        if m["k"] == "DeepReLU":
            self.m = nn.model.DeepReLU(x, "R", 1, m["hid"][0], m["hid"][1], m["nl"], c["out"], 0, bias=bool(c["bias"]))
        elif m["k"] == "DeepLinear":
            self.m = nn.model.DeepLinear(x, "R", 1, m["hid"][0], m["hid"][1], m["nl"], 0)
        else:
            acts, lays = [x], []
            d = graph_dims(c)
            for i, (op, a, b, h) in enumerate(m["nodes"]):
                if op == "lin":
                    l, _ = nn.layer.Linear.generate_simple(acts[a], "R", nn.tensor.notrans, 1, [h[0]], [h[1]], 0, bias=bool(c["bias"]), redux=rx)
                elif op == "norm" and acts[a].grad is not None:
                    l, _ = nn.layer.LayerNorm.generate_simple(acts[a], 0, 1e-2, 0, redux=rx)
                elif op == "add" and d[a] == d[b]:
                    l, _ = Add.generate_simple(acts[a], acts[b], 0)
                else:
                    l, _ = nn.layer.Act.generate_simple(acts[a], op if op in ("relu", "gelu", "gelutanh") else "gelu", 0)
                lays.append(l)
                acts.extend(l.activations_output)
            l, _ = nn.layer.Linear.generate_simple(acts[-1], "R", nn.tensor.notrans, 1, [c["out"]], [c["out"]], 0, bias=bool(c["bias"]), redux=rx)
            lays.append(l)
            acts.extend(l.activations_output)
            if c.get("app"):
                self.m = nn.model.BaseModel([x], [])
                for l in lays:
                    self.m.append(l)
            else:
                self.m = nn.model.BaseModel(acts, lays)
        layers.own(env, self.m.activations[1:], self.m.parameters)
        for l in self.m.layers:
            layers.own(env, l.temporaries)
        self.out = self.m.activations[-1]
        if c["loss"] == "ce":
            self.loss, _ = nn.loss.CrossEntropy.generate_simple(self.out, 0, redux=rx, scale=c["scale"])
            layers.own(env, [self.loss.y, self.loss.val, self.loss.maxsumexp, self.loss.logsumexp])
        else:
            self.loss, _ = nn.loss.Frob.generate_simple(self.out, 0)
            layers.own(env, [self.loss.y, self.loss.val, self.loss.val_sqrt, self.loss.tmp])
        self.par = self.m.get_parameters()
        self.opt = nn.optimizer.Empty(self.par, 0) if c["opt"] == "Empty" else optim.make(env, c["opt"], self.par, c["hp"], dt)
        # start from the same parameters, with garbage everywhere else
        rs = np.random.RandomState(c["seed"] & 0x7fffffff)
        for p in self.par:
            s = tuple(p.value.shape)
            env.put(p.value, np.array(rs.standard_normal(s) / math.sqrt(s[-1]), dtype=ops.NPDT[dt], order="F"))
        nan = lambda t: env.put(t, np.full(tuple(t.shape), np.nan, dtype=ops.NPDT[dt], order="F"))
        for p in self.par + self.m.activations:
            if p.grad is not None:
                nan(p.grad)
        nan(self.loss.val)

    def values(self):
        return [self.env.get(p.value) for p in self.par]


def refs(run):
    """reference layers of a model from the actual parameters"""
    env, c = run.env, run.c
    ids = {id(a): i for i, a in enumerate(run.m.activations)}
    P = {id(p): env.get(p.value) for p in run.par}
    out = []
    for l in run.m.layers:
        t = type(l).__name__
        if t == "Linear":
            f = ("lin", ids[id(l.x)], V(P[id(l.w.value)] if False else P[id(l.w)]), None if l.b is None else V(P[id(l.b)]), l)
        elif t == "Act":
            f = ("act", ids[id(l.x)], l.funcname, None, l)
        elif t == "LayerNorm":
            f = ("norm", ids[id(l.x)], n17.Norm(0, P[id(l.gamma)], P[id(l.beta)], 0 * P[id(l.gamma)], 0 * P[id(l.beta)], 1e-2), None, l)
        else:
            f = ("add", ids[id(l.x)], ids[id(l.y)], None, l)
        out.append(f)
    return out


def forward_backward(run, R, x, y):
    """reference output, loss, and gradients of parameters {id: V} for one minibatch"""
    c, dt = run.c, run.c["dt"]
    vals, saved = [V(x)], []
    for kind, a, q, b, l in R:
        if kind == "lin":
            vals.append(n15.fwd("R", vals[a], q, b, 1))
            saved.append(None)
        elif kind == "act":
            v, d = layers.act(q, vals[a], dt)
            vals.append(v)
            saved.append(d)
        elif kind == "norm":
            q.gg, q.gb = q.gg * 0, q.gb * 0
            vals.append(q.f(vals[a]))
            saved.append(None)
        else:
            vals.append(vals[a] + vals[q])
            saved.append(None)
    o = vals[-1]
    if c["loss"] == "ce":
        s = LD(c["scale"])
        m = o.v.max(0)
        lse = m + np.log(np.exp(o.v - m).sum(0))
        xy = np.take_along_axis(o.v, y[None], 0)[0]
        ee = o.e.max(0)
        val = V(np.array([(s * (lse - xy)).sum()]), np.array([abs(s) * (np.abs(lse) + np.abs(xy) + np.abs(m) + 4 + 2 * ee).sum()]))
        one = np.zeros(o.v.shape, LD)
        np.put_along_axis(one, y[None], LD(1), 0)
        g = (layers.softmax(o, 0) - V(one)) * s
    else:
        d = V(o.v - y, o.e + np.abs(o.v - y.astype(LD)))
        val = V(np.array([(d.v ** 2).sum() / 2]), np.array([2 * (np.abs(d.v) * d.e).sum() + (d.v ** 2).sum()]))
        g = d
    G = [V(np.zeros(v.shape)) for v in vals]
    G[-1] = g
    dp = {}
    for i in reversed(range(len(R))):
        kind, a, q, b, l = R[i]
        g = G[i + 1]
        if kind == "lin":
            dx, dw, db = n15.bwd("R", vals[a], q, b, 1, g)
            dp[id(l.w)] = dw
            if l.b is not None:
                dp[id(l.b)] = db
            G[a] = G[a] + dx
        elif kind == "act":
            G[a] = G[a] + g * saved[i]
        elif kind == "norm":
            G[a] = G[a] + q.b(g)
            dp[id(l.gamma)], dp[id(l.beta)] = q.gg, q.gb
        else:
            G[a] = G[a] + g
            G[q] = G[q] + g
    return o, val, dp


def check(env, c):
    dt, nn = c["dt"], env.nn
    A = Run(env, c)
    rs = np.random.RandomState((c["seed"] + 1) & 0x7fffffff)
    xsh = [p[0] for p in [c["x"]] + c["b"]]
    xti = [p[1] for p in [c["x"]] + c["b"]]
    ly = A.loss.y
    data = []
    for ib in range(c["nb"]):
        bx = []
        for _ in range(max(1, c["nm"] - ib) if c.get("ragged") else c["nm"]):
            x = np.array(rs.standard_normal(xsh), dtype=ops.NPDT[dt], order="F")
            if c["loss"] == "ce":
                y = np.array(rs.randint(0, A.out.value.shape[0], size=tuple(ly.shape)), dtype=np.int64, order="F")
            else:
                y = np.array(rs.standard_normal(tuple(ly.shape)), dtype=ops.NPDT[dt], order="F")
            bx.append((x, y, env.tensor(xsh, xti, dt, x), env.tensor(ly.shape, ly.basetile_shape, env.dt_of(ly), y)))
        data.append(bx)
    pipe = nn.pipeline.Pipeline([[m[2] for m in b] for b in data], [[m[3] for m in b] for b in data], A.m, A.opt, A.loss, c["ep"])
    with contextlib.redirect_stdout(io.StringIO()):
        for _ in range(1 + c.get("again", 0)):
            pipe.train_async()
    pa = A.values()
    for b in data:
        for x, y, xt, yt in b:
            layers.unchanged(env, "minibatch input", xt, x)
            layers.unchanged(env, "minibatch target", yt, y)
    # the loop written out, each step checked
    B = Run(env, c)
    hist, tols, n = [], [], 0
    zero = lambda t: env.put(t, np.zeros(tuple(t.shape), dtype=ops.NPDT[dt], order="F"))
    for ep in range(c["ep"] * (1 + c.get("again", 0))):
        for b in data:
            n += 1
            where = "epoch %d, batch %d" % (ep, (n - 1) % c["nb"])
            R = refs(B)
            tot = {id(p): V(np.zeros(tuple(p.value.shape))) for p in B.par}
            for p in B.par:
                zero(p.grad)
            zero(B.loss.val)
            val = V(np.zeros(1))
            for x, y, xt, yt in b:
                for t in B.m.activations:
                    if t.grad is not None:
                        zero(t.grad)
                env.put(B.m.activations[0].value, x)
                for l in B.m.layers:
                    l.forward_async()
                env.put(B.loss.y, y)
                B.loss.calc_async()
                for l in reversed(B.m.layers):
                    l.backward_async()
                nn.starpu.wait_for_all()
                o, v, dp = forward_backward(B, R, x, y)
                if not (np.abs(v.v) < 1e8).all() or not all((np.abs(g.e) < 1e10).all() for g in dp.values()):
                    raise Invalid("training diverged")
                layers.check(env, where + ": model output", B.out.value, o, dt, 24)
                val = val + v if c["loss"] == "ce" else v
                core.compare(where + ": loss", env.get(B.loss.val).reshape(1), val.v, val.e, dt, 24)
                for k, g in dp.items():
                    tot[k] = tot[k] + g
            gr = []
            for i, p in enumerate(B.par):
                layers.check(env, where + ": gradient of parameter %d" % i, p.grad, tot[id(p)], dt, 32)
                gr.append(env.get(p.grad))
            if c["opt"] != "Empty":
                before = optim.snapshot(env, B.opt, c["opt"], B.par, n)
            B.opt.step()
            if c["opt"] != "Empty":
                optim.check_step(env, c, B.opt, B.par, n, before, gr, where + ": ")
            hist.append(np.float32(env.get(B.loss.val).reshape(1)[0]))
            tols.append(0 if c["loss"] == "frob" else float(24 * ops.EPS[dt] * val.e[0] + abs(val.v[0]) * 2.0 ** -23))
    pb = B.values()
    got = [np.float32(v) for v in pipe.loss_hist]
    if len(got) != len(hist):
        raise Fail("history", "pipeline recorded %d losses, expected %d" % (len(got), len(hist)))
    if not all(np.isfinite(a).all() for a in pb):
        raise Invalid("training diverged")
    if c["redux"]:
        for i, (a, b) in enumerate(zip(got, hist)):
            if not abs(a - b) <= 1e-3 * (1 + abs(b)):
                raise Fail("loss", "loss of batch %d is %r, the loop gives %r" % (i, float(a), float(b)))
    else:
        # tiles of labels are added to the cross-entropy value in any order
        for i, (a, b, t) in enumerate(zip(got, hist, tols)):
            if not abs(float(a) - float(b)) <= t and a != b and not (np.isnan(a) and np.isnan(b)):
                raise Fail("loss", "loss of batch %d is %r, the loop gives %r" % (i, float(a), float(b)))
        for i, (a, b) in enumerate(zip(pa, pb)):
            if not core.same_bits(a, b):
                raise Fail("parameters", "parameter %d after training differs from the loop's at %s" % (i, core.first_diff(a, b)))
    if c["opt"] != "Empty":
        A.opt.unregister()
        B.opt.unregister()
    m = env.mon_errors()
    if m:
        raise Fail("monitor", m)


def valid(c):
    try:
        return c["opt"] in optim.ADAMS + ["SGD", "Empty"] and all(min(p) >= 1 for p in [c["x"]] + c["b"]) and c["b"] and min(c["ep"], c["nb"], c["nm"], c["out"]) >= 1 and \
            (c["model"]["k"] != "graph" or all(0 <= a <= i and 0 <= b <= i for i, (op, a, b, h) in enumerate(c["model"]["nodes"]))) and \
            (c["model"]["k"] != "DeepLinear" or c["x"][1] >= c["x"][0])
    except Exception:
        return False


def shrinks(c):
    for k in ("ep", "nb", "nm", "out"):
        for v in (1, c[k] - 1):
            if 1 <= v < c[k]:
                yield dict(copy.deepcopy(c), **{k: v})
    m = c["model"]
    if m["k"] == "graph":
        for i in range(len(m["nodes"])):
            d = copy.deepcopy(c)
            a0 = d["model"]["nodes"][i][1]
            del d["model"]["nodes"][i]
            f = lambda k: a0 if k == i + 1 else (k - 1 if k > i + 1 else k)
            d["model"]["nodes"] = [[op, f(a), f(b), h] if j >= i else [op, a, b, h] for j, (op, a, b, h) in enumerate(d["model"]["nodes"])]
            yield d
    else:
        if m["nl"] > 2:
            yield dict(copy.deepcopy(c), model=dict(m, nl=m["nl"] - 1))
    if c["opt"] not in ("Empty", "SGD"):
        yield dict(copy.deepcopy(c), opt="Empty", hp={})
    if c["opt"] != "Empty":
        yield dict(copy.deepcopy(c), opt="SGD", hp={"lr": 0.1, "momentum": 0.0, "nesterov": 0, "damping": 0.0, "weight_decay": 0.0})
    yield from layers.shrink_generic(c, ("x", "b"), ("b",), ("bias", "xgrad", "redux", "ragged", "app", "again"))


def nontrivial(c):
    return c["nm"] > 1 or c["ep"] * c["nb"] > 1 or any(p[1] < p[0] for p in [c["x"]] + c["b"])


def labels(c):
    return ["model=" + c["model"]["k"], "loss=" + c["loss"], "opt=" + c["opt"], c["dt"], "epochs=%d" % c["ep"], "batches=%d" % c["nb"], "minibatches=%d" % c["nm"]] + ["redux"] * c["redux"]
