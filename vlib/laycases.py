"""Layer- and loss-level cases added to operation-level properties. A case has
the key "layer"; every class gives gen, check, valid, shrinks, nontrivial, labels."""
import copy, math
import numpy as np
from . import core, ops, layers
from .core import Fail, Invalid, LD
from .layers import V


def mix(g, cases, share):
    """let a share of the generated cases of module namespace g be layer cases"""
    old = {k: g[k] for k in ("gen", "check", "valid", "shrinks", "nontrivial", "labels")}
    by = {c.name: c for c in cases}

    def gen(rng, tier):
        if rng.random() < share:
            c = rng.choice(cases)
            return dict(c.gen(rng), layer=c.name)
        return old["gen"](rng, tier)
    g["gen"] = gen
    g["check"] = lambda env, c: by[c["layer"]].check(env, c) if "layer" in c else old["check"](env, c)

    def valid(c):
        if "layer" not in c:
            return old["valid"](c)
        try:
            return bool(by[c["layer"]].valid(c))
        except Exception:
            return False
    g["valid"] = valid
    g["shrinks"] = lambda c: by[c["layer"]].shrinks(c) if "layer" in c else old["shrinks"](c)
    g["nontrivial"] = lambda c: by[c["layer"]].nontrivial(c) if "layer" in c else old["nontrivial"](c)
    g["labels"] = lambda c: ["layer=" + c["layer"], c["dt"]] + by[c["layer"]].labels(c) if "layer" in c else old["labels"](c)


def monitor(env):
    m = env.mon_errors()
    if m:
        raise Fail("monitor", m)


class LayerNormCase:
    name = "LayerNorm"

    @staticmethod
    def gen(rng):
        nd = rng.choice([1, 2, 2, 3, 3, 4])
        return {"dims": layers.r_dims(rng, nd, 600, 16), "axis": rng.randrange(nd), "eps": rng.choice([1e-5, 1e-5, 1e-3, 1e-1, 1.0, 1e-12, rng.random()]),
            "dt": ops.r_dt(rng), "seed": rng.randrange(1 << 30), "batch": rng.choice([0, 1, 1, 2]), "redux": int(rng.random() < 0.3),
            "shift": rng.choice([0, 0, 0, 3, 30]), "amp": rng.choice([1, 1, 1, 1e-3, 1e3]), "passes": layers.seeds(rng, rng.choice([1, 1, 2, 3]))}

    @staticmethod
    def check(env, c):
        dt, nn = c["dt"], env.nn
        sh, ti = [p[0] for p in c["dims"]], [p[1] for p in c["dims"]]
        rs = np.random.RandomState(c["seed"] & 0x7fffffff)
        D = lambda s, amp=1.0, shift=0.0: np.array(rs.standard_normal(tuple(s)) * amp + shift, dtype=ops.NPDT[dt], order="F")
        gx = D(sh)
        x = layers.moments(env, sh, ti, dt, None, gx)
        lay, _ = nn.layer.LayerNorm.generate_simple(x, c["axis"], c["eps"], 0, redux=bool(c["redux"]))
        layers.own(env, lay.activations_output, lay.parameters, lay.temporaries)
        n = sh[c["axis"]]
        # a new layer is the plain normalisation
        layers.unchanged(env, "initial gamma", lay.gamma.value, np.ones(n, dtype=ops.NPDT[dt]))
        layers.unchanged(env, "initial beta", lay.beta.value, np.zeros(n, dtype=ops.NPDT[dt]))
        ga, be, gg, gb = D([n]), D([n]), D([n]), D([n])
        for t, a in ((lay.gamma.value, ga), (lay.beta.value, be), (lay.gamma.grad, gg), (lay.beta.grad, gb)):
            env.put(t, a)
        data = [([D(sh, c["amp"], c["amp"] * c["shift"])], D(sh)) for _ in c["passes"]]
        ys = layers.passes(env, lay, [x.value], lay.y, data, c["batch"])
        GX, GG, GB = V(gx), V(gg), V(gb)
        for k, ((xa,), dy) in enumerate(data):
            y, h, inv = layers.layer_norm(V(xa), V(ga), V(be), c["axis"], c["eps"])
            core.compare("pass %d: output" % k, ys[k], y.v, y.e, dt, 24)
            a, b, d = layers.layer_norm_bwd(h, inv, V(ga), V(dy), c["axis"])
            GX, GG, GB = GX + a, GG + b, GB + d
        layers.check(env, "input gradient", x.grad, GX, dt, 24)
        layers.check(env, "gamma gradient", lay.gamma.grad, GG, dt, 24)
        layers.check(env, "beta gradient", lay.beta.grad, GB, dt, 24)
        layers.unchanged(env, "gamma", lay.gamma.value, ga)
        layers.unchanged(env, "beta", lay.beta.value, be)
        layers.unchanged(env, "input", x.value, data[-1][0][0])
        monitor(env)

    @staticmethod
    def valid(c):
        return c["dims"] and all(min(p) >= 1 for p in c["dims"]) and 0 <= c["axis"] < len(c["dims"]) and c["eps"] > 0 and c["passes"]

    @staticmethod
    def shrinks(c):
        yield from layers.shrink_generic(c, ("dims",), ("passes",), ("batch", "redux", "shift"))
        if len(c["dims"]) > 1:
            for i in range(len(c["dims"])):
                d = copy.deepcopy(c)
                del d["dims"][i]
                d["axis"] = min(d["axis"] - (i < d["axis"]), len(d["dims"]) - 1)
                yield d

    @staticmethod
    def nontrivial(c):
        return any(p[1] < p[0] for p in c["dims"])

    @staticmethod
    def labels(c):
        return ["batch=%d" % c["batch"], "passes=%d" % len(c["passes"])] + ["redux"] * c["redux"] + ["shifted input"] * bool(c["shift"])


class EmbeddingCase:
    name = "Embedding"

    @staticmethod
    def gen(rng):
        nd = rng.choice([1, 1, 2, 2, 3])
        vs = rng.randint(1, 12)
        es = rng.randint(1, 12)
        if rng.random() < 0.02:
            vs, es = rng.choice([300, 5000, 33000, 66000]), rng.randint(1, 2)
        wt = rng.randint(1, es)
        return {"dims": layers.r_dims(rng, nd, 120, 12), "axis": rng.randint(0, nd), "vocab": vs, "emb": es, "wt": wt, "yt": wt * rng.choice([1, 1, 2, 3]),
            "dt": ops.r_dt(rng), "seed": rng.randrange(1 << 30), "batch": rng.choice([0, 1, 1, 2]), "hot": int(rng.random() < 0.4),
            "passes": layers.seeds(rng, rng.choice([1, 1, 2, 3]))}

    @staticmethod
    def check(env, c):
        dt, nn = c["dt"], env.nn
        sh, ti, ax = [p[0] for p in c["dims"]], [p[1] for p in c["dims"]], c["axis"]
        rs = np.random.RandomState(c["seed"] & 0x7fffffff)
        D = lambda s: np.array(rs.standard_normal(tuple(s)), dtype=ops.NPDT[dt], order="F")
        hi = max(1, c["vocab"] // 4) if c["hot"] else c["vocab"]
        I = lambda: np.array(rs.randint(0, hi, size=tuple(sh)), dtype=np.int64, order="F")
        x = env.tensor(sh, ti, "int64")
        lay, _ = nn.layer.Embedding.generate_simple(x, env.cls[dt], ax, c["vocab"], c["emb"], c["yt"], c["wt"], 0)
        layers.own(env, lay.activations_output, lay.parameters)
        w, gw = D([c["emb"], c["vocab"]]), D([c["emb"], c["vocab"]])
        env.put(lay.w.value, w)
        env.put(lay.w.grad, gw)
        osh = sh[:ax] + [c["emb"]] + sh[ax:]
        if list(lay.y.value.shape) != osh:
            raise Fail("shape", "output shape %s, expected %s" % (list(lay.y.value.shape), osh))
        data = [([I()], D(osh)) for _ in c["passes"]]
        ys = layers.passes(env, lay, [x], lay.y, data, c["batch"])
        G = V(gw)
        for k, ((ia,), dy) in enumerate(data):
            y = np.moveaxis(w[:, ia], 0, ax)
            if not core.same_bits(ys[k], np.asfortranarray(y)):
                raise Fail("value", "pass %d: output differs at %s" % (k, core.first_diff(ys[k], np.asfortranarray(y))))
            d = np.moveaxis(dy.astype(LD), ax, 0).reshape(c["emb"], -1)
            dv, de = np.zeros(w.shape, LD), np.zeros(w.shape, LD)
            np.add.at(dv, (slice(None), ia.reshape(-1)), d)
            np.add.at(de, (slice(None), ia.reshape(-1)), np.abs(d))
            G = G + V(dv, de)
        layers.check(env, "vocabulary gradient", lay.w.grad, G, dt)
        layers.unchanged(env, "vocabulary", lay.w.value, w)
        layers.unchanged(env, "indices", x, data[-1][0][0])
        monitor(env)

    @staticmethod
    def valid(c):
        return c["dims"] and all(min(p) >= 1 for p in c["dims"]) and 0 <= c["axis"] <= len(c["dims"]) and c["passes"] and \
            min(c["vocab"], c["emb"], c["wt"]) >= 1 and c["yt"] % c["wt"] == 0 and c["yt"] >= 1

    @staticmethod
    def shrinks(c):
        yield from layers.shrink_generic(c, ("dims",), ("passes",), ("batch", "hot"))
        for k in ("vocab", "emb"):
            for v in (1, 2, c[k] - 1):
                if 1 <= v < c[k]:
                    yield dict(copy.deepcopy(c), **{k: v})
        if c["axis"]:
            yield dict(copy.deepcopy(c), axis=0)

    @staticmethod
    def nontrivial(c):
        return any(p[1] < p[0] for p in c["dims"]) or c["wt"] < c["emb"]

    @staticmethod
    def labels(c):
        return ["batch=%d" % c["batch"], "passes=%d" % len(c["passes"]), "axis=" + ("first" if c["axis"] == 0 else "last" if c["axis"] == len(c["dims"]) else "middle")]


class CrossEntropyCase:
    name = "CrossEntropy"

    @staticmethod
    def gen(rng):
        nd = rng.choice([1, 1, 2, 2, 3])
        k = rng.choice([1, 2, 3, 5, 8, 13]) if rng.random() < 0.95 else rng.choice([50, 128, 257, 1000, 50257])
        return {"cls": k, "dims": layers.r_dims(rng, nd, 120 if k < 50 else 8, 12), "dt": ops.r_dt(rng), "seed": rng.randrange(1 << 30), "batch": rng.choice([0, 1]),
            "redux": int(rng.random() < 0.3), "scale": rng.choice([1.0, 1.0, 0.5, 0.125, 3.0, 0.0, -1.0]), "grad": int(rng.random() < 0.85),
            "amp": rng.choice([0, 1, 1, 5, 40]), "v0": rng.choice([0, 0, 1, -7]), "passes": layers.seeds(rng, rng.choice([1, 2, 2, 3, 4]))}

    @staticmethod
    def check(env, c):
        dt, nn, T = c["dt"], env.nn, env.T
        sh, ti = [c["cls"]] + [p[0] for p in c["dims"]], [c["cls"]] + [p[1] for p in c["dims"]]
        out = layers.moments(env, sh, ti, dt, None, np.full(sh, np.nan, dtype=ops.NPDT[dt], order="F") if c["grad"] else None, c["grad"])
        los, _ = nn.loss.CrossEntropy.generate_simple(out, 0, redux=bool(c["redux"]), scale=c["scale"])
        layers.own(env, [los.y, los.val, los.maxsumexp, los.logsumexp])
        env.put(los.val, np.array([c["v0"]], dtype=ops.NPDT[dt]))
        like = lambda t, a=None: env.tensor(t.shape, t.basetile_shape, env.dt_of(t), a)
        data = []
        for s in c["passes"]:
            rs = np.random.RandomState(s & 0x7fffffff)
            x = np.array(rs.standard_normal(tuple(sh)) * c["amp"] + rs.choice([0, 0, 100, -50]), dtype=ops.NPDT[dt], order="F")
            y = np.array(rs.randint(0, c["cls"], size=tuple(sh[1:])), dtype=np.int64, order="F")
            data.append((x, y, like(out.value, x), like(los.y, y), like(out.value) if c["grad"] else None, like(los.val)))
        if c["batch"]:
            nn.starpu.pause()
        try:
            for x, y, xt, yt, gt, vt in data:
                T.copy_async(xt, out.value)
                T.copy_async(yt, los.y)
                los.calc_async()
                if c["grad"]:
                    T.copy_async(out.grad, gt)
                T.copy_async(los.val, vt)
                if not c["batch"]:
                    nn.starpu.wait_for_all()
        finally:
            nn.starpu.resume()
        val = V(np.array([c["v0"]]))
        s = LD(c["scale"])
        for k, (x, y, xt, yt, gt, vt) in enumerate(data):
            xl = x.astype(LD)
            m = xl.max(0)
            lse = m + np.log(np.exp(xl - m).sum(0))
            xy = np.take_along_axis(xl, y[None], 0)[0]
            l = s * (lse - xy)
            val = val + V(np.array([l.sum()]), np.array([(abs(s) * (np.abs(lse) + np.abs(xy) + np.abs(m) + 4)).sum()]))
            core.compare("pass %d: loss" % k, env.get(vt).reshape(1), val.v, val.e, dt, 24)
            if c["grad"]:
                g = layers.softmax(V(xl), 0)
                one = np.zeros(xl.shape, LD)
                np.put_along_axis(one, y[None], LD(1), 0)
                g = (g - V(one)) * s
                core.compare("pass %d: gradient" % k, env.get(gt), g.v, g.e, dt, 24)
        a = np.zeros(1, dtype=ops.NPDT[dt], order="F")
        los.get_val(a)
        if not core.same_bits(a, env.get(los.val).reshape(1)):
            raise Fail("get_val", "get_val gives %r, value is %r" % (a, env.get(los.val)))
        if c["grad"]:
            g = np.zeros(sh, dtype=ops.NPDT[dt], order="F")
            los.get_grad(g)
            if not core.same_bits(g, env.get(out.grad)):
                raise Fail("get_grad", "get_grad differs from the gradient at " + core.first_diff(g, env.get(out.grad)))
        layers.unchanged(env, "model output", out.value, data[-1][0])
        layers.unchanged(env, "labels", los.y, data[-1][1])
        monitor(env)

    @staticmethod
    def valid(c):
        return c["dims"] and all(min(p) >= 1 for p in c["dims"]) and c["cls"] >= 1 and c["passes"]

    @staticmethod
    def shrinks(c):
        yield from layers.shrink_generic(c, ("dims",), ("passes", "dims"), ("batch", "redux", "v0"))
        for v in (1, 2, c["cls"] - 1):
            if 1 <= v < c["cls"]:
                yield dict(copy.deepcopy(c), cls=v)
        if c["scale"] != 1.0:
            yield dict(copy.deepcopy(c), scale=1.0)

    @staticmethod
    def nontrivial(c):
        return any(p[1] < p[0] for p in c["dims"])

    @staticmethod
    def labels(c):
        return ["batch=%d" % c["batch"], "calls=%d" % len(c["passes"]), "scale=%g" % c["scale"]] + ["redux"] * c["redux"] + ["no gradient"] * (1 - c["grad"])


class FrobCase:
    name = "Frob"

    @staticmethod
    def gen(rng):
        nd = rng.choice([0, 1, 2, 2, 3, 4])
        return {"dims": layers.r_dims(rng, nd, 300, 16) if nd else [], "dt": ops.r_dt(rng), "seed": rng.randrange(1 << 30), "batch": rng.choice([0, 1]),
            "amp": rng.choice([1, 1, 1e-3, 1e3, 1e8]), "same": int(rng.random() < 0.1), "passes": layers.seeds(rng, rng.choice([1, 2, 3]))}

    @staticmethod
    def check(env, c):
        dt, nn, T = c["dt"], env.nn, env.T
        sh, ti = [p[0] for p in c["dims"]], [p[1] for p in c["dims"]]
        x = layers.moments(env, sh, ti, dt, None, np.full(sh, np.nan, dtype=ops.NPDT[dt], order="F"))
        los, _ = nn.loss.Frob.generate_simple(x, 0)
        layers.own(env, [los.y, los.val, los.val_sqrt, los.tmp])
        like = lambda t, a=None: env.tensor(t.shape, t.basetile_shape, env.dt_of(t), a)
        data = []
        for s in c["passes"]:
            rs = np.random.RandomState(s & 0x7fffffff)
            R = lambda: np.array(rs.standard_normal(tuple(sh)) * c["amp"], dtype=ops.NPDT[dt], order="F").reshape(tuple(sh))
            a = R()
            b = a.copy(order="F") if c["same"] else R()
            data.append((a, b, like(x.value, a), like(x.value, b), like(x.value), like(los.val)))
        if c["batch"]:
            nn.starpu.pause()
        try:
            for a, b, xt, yt, gt, vt in data:
                T.copy_async(xt, x.value)
                T.copy_async(yt, los.y)
                los.calc_async()
                T.copy_async(x.grad, gt)
                T.copy_async(los.val, vt)
                if not c["batch"]:
                    nn.starpu.wait_for_all()
        finally:
            nn.starpu.resume()
        for k, (a, b, xt, yt, gt, vt) in enumerate(data):
            d = a.astype(LD) - b.astype(LD)
            core.compare("call %d: gradient" % k, env.get(gt), d, np.abs(d), dt, 2)
            v = (d * d).sum() / 2
            core.compare("call %d: loss" % k, env.get(vt).reshape(1), np.array([v]), np.array([v]), dt, 24)
        r = np.zeros(1, dtype=ops.NPDT[dt], order="F")
        los.get_val(r)
        if not core.same_bits(r, env.get(los.val).reshape(1)):
            raise Fail("get_val", "get_val gives %r, value is %r" % (r, env.get(los.val)))
        if sh:
            g = np.zeros(sh, dtype=ops.NPDT[dt], order="F")
            los.get_grad(g)
            if not core.same_bits(g, env.get(x.grad)):
                raise Fail("get_grad", "get_grad differs from the gradient at " + core.first_diff(g, env.get(x.grad)))
        layers.unchanged(env, "input", x.value, data[-1][0])
        layers.unchanged(env, "target", los.y, data[-1][1])
        monitor(env)

    @staticmethod
    def valid(c):
        return all(min(p) >= 1 for p in c["dims"]) and c["passes"]

    @staticmethod
    def shrinks(c):
        yield from layers.shrink_generic(c, ("dims",), ("passes", "dims"), ("batch", "same"))
        if c["amp"] != 1:
            yield dict(copy.deepcopy(c), amp=1)

    @staticmethod
    def nontrivial(c):
        return any(p[1] < p[0] for p in c["dims"])

    @staticmethod
    def labels(c):
        return ["batch=%d" % c["batch"], "calls=%d" % len(c["passes"])]
