"""Torch-side helpers of the MLP-Mixer: image patching, the torch model used for conversion and comparison."""
import contextlib, copy, io, math
import numpy as np
from vlib import core
from vlib.core import Fail, Invalid

RULE = ("Random image batches (1-4 images, 1-5 channels, 1-5 x 1-5 patches of 1-6 pixels, rectangular, four element types, memory filled with NaN before) cut into patches: every element against the index formula, the input unchanged, every pixel exactly once, "
    "indivisible patch sizes rejected; random torch Mixer, MixerMlp and MlpMixer modules in double precision, parameters loaded by set_weight, set_weight_parameters and set_normalization_parameters or initialised by torch: output against a numpy reference, "
    "sizes that do not match rejected, printed accuracy of evaluate against the share of right predictions. Non-trivial: more than one patch, or more than one row and column.")
BUDGET = {"quick": (6000, 30), "thorough": (100000, 400)}
ASSUMPTIONS = ["torch itself is trusted", "accuracy is compared for test sets without ties"]
CONFIGS = [{"ncpu": 1, "policy": 1, "delay": 0}] * 7


def gen(rng, tier):
    k = rng.choice(["rgb", "gray", "mlp", "mixer", "model", "model", "eval"])
    c = {"k": k, "seed": rng.randrange(1 << 30)}
    if k in ("rgb", "gray"):
        c.update(p=rng.choice([1, 1, 2, 2, 3, 4, 5, 6]), b=rng.randint(1, 4), ny=rng.randint(1, 5), nx=rng.randint(1, 5), c=rng.choice([1, 2, 3, 3, 4, 5]), dt=rng.choice(["float32", "float64", "int64", "uint8"]),
            bad=rng.choice([0, 0, 0, 0, 0, 1, 2, 3]), perm=rng.randrange(2))
    else:
        c.update(ch=rng.randint(1, 7), d=rng.randint(1, 7), b=rng.randint(1, 4), side=rng.choice("LR"), n=rng.randint(1, 3), d0=rng.randint(1, 6), cls=rng.randint(2, 5), load=rng.choice([0, 1, 1]), bad=int(rng.random() < 0.1),
            nb=rng.randint(1, 3), nm=rng.randint(1, 3))
    return c


def gelu(x):
    return 0.5 * x * (1 + np.vectorize(math.erf, otypes=[np.float64])(x / math.sqrt(2)))


def mlp(x, w1, w2):
    """along the last axis; w1 (d, 4d), w2 (4d, d)"""
    return gelu(x @ w1) @ w2


def norm(x, g, b, eps=1e-5):
    m = x.mean(-1, keepdims=True)
    return (x - m) / np.sqrt(((x - m) ** 2).mean(-1, keepdims=True) + eps) * g + b


def mixer(x, P):
    g1, b1, r1, r2, g2, b2, l1, l2 = P
    y = x + np.swapaxes(mlp(np.swapaxes(norm(x, g1, b1), 0, 2), r1, r2), 0, 2)
    return y + mlp(norm(y, g2, b2), l1, l2)


def near(what, a, b):
    if tuple(a.shape) != tuple(b.shape):
        raise Fail("shape", "%s has shape %s, expected %s" % (what, tuple(a.shape), tuple(b.shape)))
    e = np.abs(a - b)
    if not (e <= 1e-8 * (1 + np.abs(b).max())).all():
        raise Fail("value", "%s is wrong: %s instead of %s" % (what, a.ravel()[e.argmax()], b.ravel()[e.argmax()]))


def rejected(what, f):
    try:
        f()
    except Exception:
        return
    raise Fail("accepted", what + " was accepted")


def parts(m):
    """numpy parameters of a torch Mixer in the order of mixer()"""
    n = lambda t: t.detach().numpy()
    R, L = m.mlp_1.fn, m.mlp_2.fn
    return [n(m.norm_1.weight), n(m.norm_1.bias), n(R[0].weight).T, n(R[2].weight).T, n(m.norm_2.weight), n(m.norm_2.bias), n(L[0].weight).T, n(L[2].weight).T]


def fill(m, c, rs):
    """load or randomise the parameters of a Mixer, returns what is expected"""
    import torch
    ch, d = c["ch"], c["d"]
    if not c["load"]:
        with torch.no_grad():
            for p in m.parameters():
                p.copy_(torch.from_numpy(rs.standard_normal(tuple(p.shape))))
        return parts(m)
    R = rs.standard_normal
    g1, b1, g2, b2 = R(d), R(d), R(d), R(d)
    # orientation of NNTile: side R keeps (out, in), side L (in, out)
    r1, r2, l1, l2 = R((4 * ch, ch)), R((ch, 4 * ch)), R((d, 4 * d)), R((4 * d, d))
    before = [a.copy() for a in (g1, b1, g2, b2, r1, r2, l1, l2)]
    m.set_normalization_parameters(g1, b1, g2, b2)
    m.set_weight_parameters(r1, r2, l1, l2)
    for a, b in zip((g1, b1, g2, b2, r1, r2, l1, l2), before):
        if not np.array_equal(a, b):
            raise Fail("modified", "loading changed the given array")
    return [g1, b1, r1.T, r2.T, g2, b2, l1, l2]


def check(env, c):
    import torch
    from nntile.torch_models import mlp_mixer as M
    rs = np.random.RandomState(c["seed"])
    if c["k"] in ("rgb", "gray"):
        return check_patch(c, rs, torch, M)
    if c["k"] == "eval":
        return check_eval(c, rs, torch, M)
    ch, d, b = c["ch"], c["d"], c["b"]
    x = rs.standard_normal((ch, b, d))
    xt = torch.from_numpy(x.copy())
    if c["k"] == "mlp":
        n = d if c["side"] == "L" else ch
        m = M.MixerMlp(c["side"], n).double()
        w1, w2 = rs.standard_normal((n, 4 * n)), rs.standard_normal((4 * n, n))
        a1, a2 = (w1, w2) if c["side"] == "L" else (np.ascontiguousarray(w1.T), np.ascontiguousarray(w2.T))
        if c["bad"]:
            e = rs.standard_normal((n + 1, 4 * n)) if c["side"] == "L" else rs.standard_normal((4 * n, n + 1))
            rejected("weight of a wrong size", lambda: m.set_weight(e, a2))
            rejected("side X", lambda: M.MixerMlp("X", n))
            rejected("dimension 0", lambda: M.MixerMlp(c["side"], 0))
        if c["load"]:
            m.set_weight(a1, a2)
        else:
            w1, w2 = m.fn[0].weight.detach().numpy().T, m.fn[2].weight.detach().numpy().T
        y = m(xt).detach().numpy()
        z = mlp(x, w1, w2) if c["side"] == "L" else np.swapaxes(mlp(np.swapaxes(x, 0, 2), w1, w2), 0, 2)
    elif c["k"] == "mixer":
        m = M.Mixer(ch, d).double()
        P = fill(m, c, rs)
        y, z = m(xt).detach().numpy(), mixer(x, P)
    else:
        m = M.MlpMixer(ch, c["d0"], d, c["n"], c["cls"]).double()
        x = rs.standard_normal((ch, b, c["d0"]))
        xt = torch.from_numpy(x.copy())
        if len(m.mixer_sequence) != c["n"] + 1:
            raise Fail("depth", "%d mixer layers instead of %d" % (len(m.mixer_sequence) - 1, c["n"]))
        z = x @ m.mixer_sequence[0].weight.detach().numpy().T
        for l in list(m.mixer_sequence)[1:]:
            P = fill(l, c, rs)
            z = mixer(z, P)
        z = z.mean(0) @ m.classification.weight.detach().numpy().T
        y = m(xt).detach().numpy()
    near("output of torch " + c["k"], y, z)
    if not np.array_equal(xt.numpy(), x):
        raise Fail("modified", "the pass changed its input")


def check_eval(c, rs, torch, M):
    m = M.MlpMixer(c["ch"], c["d0"], c["d"], c["n"], c["cls"]).double()
    X = rs.standard_normal((c["nb"], c["nm"], c["ch"], c["b"], c["d0"]))
    Y = rs.randint(0, c["cls"], size=(c["nb"], c["nm"], c["b"]))
    good = n = 0
    with torch.no_grad():
        for i in range(c["nb"]):
            for j in range(c["nm"]):
                o = m(torch.from_numpy(X[i, j])).numpy()
                s = np.sort(o, 1)
                if (s[:, -1] - s[:, -2] < 1e-9).any():
                    raise Invalid("tie")
                if c["seed"] % 2:
                    Y[i, j] = np.where(rs.random_sample(c["b"]) < 0.6, o.argmax(1), Y[i, j])
                good += int((o.argmax(1) == Y[i, j]).sum())
                n += c["b"]
    f = io.StringIO()
    with contextlib.redirect_stdout(f):
        m.evaluate(torch.from_numpy(X), torch.from_numpy(Y), "cpu")
    v = float(f.getvalue().split()[-1])
    if abs(v - good / n) > 1e-9:
        raise Fail("accuracy", "evaluate prints %r, %d of %d are right" % (f.getvalue(), good, n))


def check_patch(c, rs, torch, M):
    p, b, ny, nx, ch = c["p"], c["b"], c["ny"], c["nx"], c["c"]
    h, w = ny * p, nx * p
    if c["bad"]:
        if p == 1:
            raise Invalid("patch size 1 divides everything")
        h += c["bad"] % 2 * (1 + c["seed"] % (p - 1))
        w += c["bad"] // 2 * (1 + c["seed"] % (p - 1))
    shape = (b, h, w, ch) if c["k"] == "rgb" else (h, b, w)
    a = rs.permutation(math.prod(shape)).reshape(shape)
    a = (a % 251).astype(c["dt"]) if c["dt"] == "uint8" else a.astype(c["dt"])
    t = torch.from_numpy(a.copy())
    if c["perm"]:   # same values, another layout
        o = rs.permutation(len(shape))
        t = torch.from_numpy(np.ascontiguousarray(a.transpose(o))).permute(*np.argsort(o).tolist())
    f = M.image_patching_rgb if c["k"] == "rgb" else M.image_patching
    junk = [torch.full((a.size,), 77, dtype=t.dtype) for _ in range(2)]    # memory that was used before
    del junk
    if c["bad"]:
        return rejected("patch size %d for %d x %d" % (p, h, w), lambda: f(t, p))
    r = f(t, p)
    if c["k"] == "rgb":
        r, n, m = r
        if n != ny * nx or m != ch * p * p:
            raise Fail("count", "%s patches of %s, expected %d of %d" % (n, m, ny * nx, ch * p * p))
        # (b, y, i, x, j, c) -> (y, x, b, c, i, j)
        e = a.reshape(b, ny, p, nx, p, ch).transpose(1, 3, 0, 5, 2, 4).reshape(ny * nx, b, ch * p * p)
    else:
        e = a.reshape(ny, p, b, nx, p).transpose(0, 3, 2, 1, 4).reshape(ny * nx, b, p * p)
    g = r.numpy()
    if g.shape != e.shape or g.dtype != a.dtype:
        raise Fail("shape", "patches are %s of %s, expected %s of %s" % (g.shape, g.dtype, e.shape, a.dtype))
    if not np.array_equal(g, e):
        raise Fail("patch", "patches are wrong at " + core.first_diff(g, e))
    if not np.array_equal(t.numpy(), a):
        raise Fail("modified", "patching changed the images")


def valid(c):
    return all(c[k] >= (2 if k == "cls" else 1) for k in ("p", "b", "ny", "nx", "c", "ch", "d", "d0", "n", "cls", "nb", "nm") if k in c)


def shrinks(c):
    for k in ("b", "ny", "nx", "c", "ch", "d", "d0", "n", "nb", "nm", "p", "cls"):
        if k in c:
            for v in (2, 1) if k != "cls" else (2,):
                if v < c[k]:
                    yield dict(copy.deepcopy(c), **{k: v})
    for k in ("perm", "load"):
        if c.get(k):
            yield dict(copy.deepcopy(c), **{k: 0})


def nontrivial(c):
    return c["ny"] * c["nx"] > 1 if "ny" in c else c["ch"] > 1 and c["d"] > 1


def labels(c):
    return ["kind=" + c["k"]] + (["ill-formed"] if c.get("bad") else [])
