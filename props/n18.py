"""Models converted from PyTorch."""
import copy, math, warnings
import numpy as np
from vlib import core, ops, layers
from vlib.core import Fail, Invalid

RULE = ("Random GPT2 (language-model head not tied), GPT2 MLP, deep ReLU or MLP-Mixer PyTorch model (sizes, layer counts, heads, biases, activation) with random parameters, converted with from_torch under random tilings, redux and attention kind; "
    "1-2 forward/backward passes with random inputs and output gradients; outputs and all parameter gradients compared with the PyTorch model evaluated in double precision, parameters compared bit for bit after conversion, "
    "and converted back (GPT2, MLP-Mixer) after replacing them by new values, which must reproduce every parameter exactly. Non-trivial: more than one tile or layer (all models have several layers).")
BUDGET = {"quick": (600, 50), "thorough": (20000, 700)}
ASSUMPTIONS = ["PyTorch in double precision is the reference; tolerance 1e-3 of the largest entry of the tensor plus 200 times the observed difference between PyTorch in single and double precision",
    "GPT2: language-model head separate from the token embedding, no dropout; flash attention with tiles that divide the sequence, batch and head count",
    "cases with a ReLU input within rounding of zero are skipped"]
HANG = 180


def even(rng, s):
    return rng.choice([d for d in range(1, s + 1) if s % d == 0])


def gen(rng, tier):
    k = rng.choice(["gpt2", "gpt2", "gpt2", "gpt2mlp", "deeprelu", "deeprelu", "mixer", "mixer"])
    c = {"kind": k, "seed": rng.randrange(1 << 30), "batch": int(rng.random() < 0.5), "np": rng.choice([1, 1, 2]), "dt": "fp32"}
    if k == "gpt2":
        flash = int(rng.random() < 0.5)
        t = even if flash else (lambda r, s: r.randint(1, s))
        nh, hs, seq, bat = rng.choice([1, 2, 2, 3, 4]), rng.choice([1, 2, 3, 4]), rng.randint(1, 6), rng.randint(1, 4)
        e = nh * hs
        et = rng.randint(1, e)
        inner = rng.randint(1, 10)
        c.update(nh=nh, hs=hs, seq=[seq, t(rng, seq)], bat=[bat, t(rng, bat)], et=et, vt=even(rng, et), vocab=rng.randint(1, 12),
            npos=seq + rng.choice([0, 0, 1, 3]), inner=[inner, rng.randint(1, inner)], nl=rng.choice([1, 1, 2, 3]), nht=even(rng, nh) if flash else rng.randint(1, nh),
            eps=rng.choice([1e-5, 1e-3]), act=rng.choice(["gelutanh", "gelutanh", "gelu", "relu"]), flash=flash, redux=int(rng.random() < 0.2))
    elif k == "gpt2mlp":
        e, inner, n = rng.randint(1, 9), rng.randint(1, 12), rng.randint(1, 7)
        c.update(e=[e, rng.randint(1, e)], inner=[inner, rng.randint(1, inner)], n=[n, rng.randint(1, n)], act=rng.choice(["gelutanh", "gelu", "relu"]), redux=int(rng.random() < 0.3),
            xgrad=int(rng.random() < 0.5))
    elif k == "deeprelu":
        c.update(e=rng.randint(1, 7), hid=rng.choice([1, 2, 3, 5, 8]), nl=rng.choice([2, 2, 3, 4, 5]), ncls=rng.randint(1, 6), bias=int(rng.random() < 0.5), n=rng.randint(1, 6))
        if rng.random() < 0.3:
            c["e"] = c["hid"]
    else:
        c.update(patches=rng.randint(1, 4), pix=rng.randint(1, 6), hid=rng.randint(1, 5), nl=rng.choice([1, 1, 2]), ncls=rng.randint(1, 6), n=rng.randint(1, 4))
        if rng.random() < 0.3:
            c["pix"] = c["hid"]
    return c


def build(c):
    import torch
    from torch import nn
    torch.set_num_threads(1)
    k = c["kind"]
    if k == "gpt2":
        from transformers import GPT2LMHeadModel, GPT2Config
        cfg = GPT2Config(vocab_size=c["vocab"], n_embd=c["nh"] * c["hs"], n_layer=c["nl"], n_head=c["nh"], n_inner=c["inner"][0], n_positions=c["npos"],
            activation_function={"gelutanh": "gelu_new"}.get(c["act"], c["act"]), layer_norm_epsilon=c["eps"],
            attn_pdrop=0.0, embd_pdrop=0.0, resid_pdrop=0.0, use_cache=False, tie_word_embeddings=False, bos_token_id=0, eos_token_id=0)
        m = GPT2LMHeadModel(cfg)
    elif k == "gpt2mlp":
        class Conv1D(nn.Module):
            def __init__(s, nf, nx):
                super().__init__()
                s.weight = nn.Parameter(torch.empty(nx, nf))
                s.bias = nn.Parameter(torch.empty(nf))
            def forward(s, x):
                return x @ s.weight + s.bias
        act = {"gelutanh": nn.GELU(approximate="tanh"), "gelu": nn.GELU(), "relu": nn.ReLU()}[c["act"]]
        m = nn.Sequential(Conv1D(c["inner"][0], c["e"][0]), act, Conv1D(c["e"][0], c["inner"][0]))
    elif k == "deeprelu":
        sz = [c["e"]] + [c["hid"]] * (c["nl"] - 1) + [c["ncls"]]
        ls = []
        for i in range(c["nl"]):
            ls += [nn.Linear(sz[i], sz[i + 1], bias=bool(c["bias"]))] + ([nn.ReLU()] if i + 1 < c["nl"] else [])
        m = nn.Sequential(*ls)
    else:
        from nntile.torch_models.mlp_mixer import MlpMixer
        m = MlpMixer(c["patches"], c["pix"], c["hid"], c["nl"], c["ncls"])
    g = torch.Generator().manual_seed(c["seed"])
    with torch.no_grad():
        for n, p in m.named_parameters():
            s = 1.0 if p.ndim == 1 else 1.5 / math.sqrt(max(1, p.shape[-1]))
            p.copy_(torch.randn(p.shape, generator=g) * s + (1.0 if "ln_" in n and n.endswith("weight") else 0.0))
    m.eval()
    return m


def to_layout(c, name, arrs):
    """nntile arrays of one PyTorch parameter in PyTorch's layout"""
    part = name.split(".")
    if c["kind"] == "gpt2":
        e = c["nh"] * c["hs"]
        if part[-2] == "c_attn":
            if part[-1] == "weight":
                return np.concatenate([a.reshape(e, e).T for a in arrs], axis=1)
            return np.concatenate([a.T.reshape(-1) for a in arrs])
        if part[-2] == "c_proj" and part[-3] == "attn" and part[-1] == "weight":
            return arrs[0].reshape(e, e).T
        if part[-2] == "lm_head":
            return arrs[0]
        return arrs[0].T
    if c["kind"] == "gpt2mlp":
        return arrs[0].T
    if c["kind"] == "deeprelu":
        return arrs[0]
    # mixer: left-hand side layers hold the transposed matrix
    if name.startswith("mixer_sequence.0.") or ".mlp_2." in name:
        return arrs[0].T
    return arrs[0]


def grouped(c, names, params):
    it = iter(params)
    out = []
    for n in names:
        k = 3 if c["kind"] == "gpt2" and ".c_attn." in n else 1
        out.append([next(it) for _ in range(k)])
    return out


def torch_eval(c, m, xs, dys, dt):
    """outputs of the passes and the accumulated gradients of all parameters"""
    import torch
    m = copy.deepcopy(m).to(dt)
    near = []
    for l in m.modules():
        if isinstance(l, torch.nn.ReLU):
            l.register_forward_pre_hook(lambda mod, a: near.append(float((a[0].detach().abs() / (a[0].detach().abs().max() + 1e-30)).min())))
    ys = []
    for x, dy in zip(xs, dys):
        t = torch.from_numpy(x)
        if x.dtype == np.float32:
            t = t.to(dt)
        y = m(t)
        if c["kind"] == "gpt2":
            y = y.logits
        ys.append(y.detach().double().numpy())
        y.backward(torch.from_numpy(dy).to(dt))
    if near and min(near) < 2e-5:
        raise Invalid("pre-activation close to zero")
    return ys, [np.zeros(tuple(p.shape)) if p.grad is None else p.grad.detach().double().numpy() for p in m.parameters()]


def close(name, got, ref, lo, base):
    tol = 1e-3 * np.abs(ref).max() + 200 * np.abs(lo - ref).max() + 1e-5 * base
    if got.shape != ref.shape:
        raise Fail("shape", "%s: shape %s, expected %s" % (name, got.shape, ref.shape))
    d = np.abs(got.astype(np.float64) - ref)
    if not (d <= tol).all():
        i = np.unravel_index(int(np.argmax(np.where(np.isnan(d), np.inf, d))), d.shape)
        raise Fail("value", "%s%s = %r, PyTorch has %r (tolerance %.3g; %d of %d elements wrong)" % (name, core.fmt_idx(i), float(got[i]), float(ref[i]), tol, int((~(d <= tol)).sum()), d.size))


def check(env, c):
    warnings.simplefilter("ignore")
    import torch
    nn, T, k = env.nn, env.T, c["kind"]
    m = build(c)
    names = [n for n, p in m.named_parameters()]
    orig = [p.detach().numpy().copy() for p in m.parameters()]
    rs = np.random.RandomState(c["seed"] & 0x7fffffff)
    xgrad = None
    if k == "gpt2":
        from nntile.model.gpt2 import GPT2Config, GPT2Model
        cfg = GPT2Config(c["vocab"], c["vt"], c["nh"] * c["hs"], c["et"], c["npos"], c["inner"][0], c["inner"][1], c["eps"], c["nl"], c["nh"], c["nht"], c["act"], bool(c["flash"]), bool(c["redux"]))
        model, _ = GPT2Model.from_torch(m, c["bat"][0], c["bat"][1], c["seq"][0], c["seq"][1], cfg, 0)
        layers.own(env, [model.mask])
        xs = [rs.randint(0, c["vocab"], size=(c["bat"][0], c["seq"][0])).astype(np.int64) for _ in range(c["np"])]
        oshape = (c["bat"][0], c["seq"][0], c["vocab"])
        xin = lambda x: np.asfortranarray(x.T)
        yout = lambda y: y.T
    elif k == "gpt2mlp":
        from nntile.model.gpt2 import GPT2MLP
        sh, ti = [c["e"][0], c["n"][0]], [c["e"][1], c["n"][1]]
        xgrad = rs.standard_normal(sh).astype(np.float32) if c["xgrad"] else None
        x = layers.moments(env, sh, ti, "fp32", None, xgrad, c["xgrad"])
        model, _ = GPT2MLP.from_torch(m, x, {"embed_dim": c["e"][0], "embed_dim_tile": c["e"][1], "inner_dim": c["inner"][0], "inner_dim_tile": c["inner"][1],
            "activation_function": c["act"], "redux": bool(c["redux"])}, 0)
        xs = [rs.standard_normal((c["n"][0], c["e"][0])).astype(np.float32) for _ in range(c["np"])]
        oshape = (c["n"][0], c["e"][0])
        xin, yout = (lambda x: np.asfortranarray(x.T)), (lambda y: y.T)
    elif k == "deeprelu":
        model, _ = nn.model.DeepReLU.from_torch(m, c["n"], c["ncls"], "relu", 0)
        xs = [rs.standard_normal((c["n"], c["e"])).astype(np.float32) for _ in range(c["np"])]
        oshape = (c["n"], c["ncls"])
        xin, yout = (lambda x: np.asfortranarray(x.T)), (lambda y: y.T)
    else:
        model, _ = nn.model.MlpMixer.from_torch(m, c["n"], c["ncls"], 0)
        for l in model.layers:
            layers.own(env, l.temporaries)
            for n in ("norm_1", "norm_2"):
                if hasattr(l, n):
                    layers.own(env, getattr(l, n).temporaries)
        xs = [rs.standard_normal((c["patches"], c["n"], c["pix"])).astype(np.float32) for _ in range(c["np"])]
        oshape = (c["n"], c["ncls"])
        xin, yout = np.asfortranarray, (lambda y: y.T)
    own_model(env, model)
    params = model.get_parameters()
    if k == "gpt2" and len(params) != len(names) + 4 * c["nl"] or k != "gpt2" and len(params) != len(names):
        raise Fail("parameters", "%d parameters for %d of PyTorch" % (len(params), len(names)))
    grp = grouped(c, names, params)
    for n, o, g in zip(names, orig, grp):
        got = to_layout(c, n, [env.get(p.value) for p in g])
        if not core.same_bits(np.ascontiguousarray(got), o):
            raise Fail("conversion", "parameter %s differs after from_torch" % n)
    dys = [rs.standard_normal(oshape).astype(np.float32) for _ in xs]
    ref, gref = torch_eval(c, m, xs, dys, torch.float64)
    lo, glo = torch_eval(c, m, xs, dys, torch.float32)
    inp, out = model.activations[0], model.activations[-1]
    like = lambda t, a=None: env.tensor(t.shape, t.basetile_shape, env.dt_of(t), a)
    if list(out.value.shape) != list(oshape)[::-1]:
        raise Fail("shape", "output shape %s, expected %s" % (list(out.value.shape), list(oshape)[::-1]))
    aux = [(like(inp.value, xin(x)), like(out.value, np.asfortranarray(dy.T)), like(out.value)) for x, dy in zip(xs, dys)]
    if c["batch"]:
        nn.starpu.pause()
    try:
        model.clear_gradients()
        for i, (x, dy, y) in enumerate(aux):
            model.clear_activations_grads()
            T.copy_async(x, inp.value)
            model.forward_async()
            T.copy_async(out.value, y)
            T.copy_async(dy, out.grad)
            model.backward_async()
            if not c["batch"]:
                nn.starpu.wait_for_all()
    finally:
        nn.starpu.resume()
    base = max([np.abs(r).max() for r in ref])
    for i, (x, dy, y) in enumerate(aux):
        close("pass %d: output" % i, yout(env.get(y)), ref[i], lo[i], base)
    base = max([np.abs(g).max() for g in gref])
    for n, g, r, l in zip(names, grp, gref, glo):
        close("gradient of " + n, to_layout(c, n, [env.get(p.grad) for p in g]), r, l, base)
    # back to PyTorch, with other values
    if k in ("gpt2", "mixer"):
        new = []
        for g in grp:
            arrs = [np.asfortranarray(rs.standard_normal(tuple(p.value.shape)).astype(np.float32)) for p in g]
            for p, a in zip(g, arrs):
                env.put(p.value, a)
            new.append(arrs)
        m2 = build(dict(c, seed=c["seed"] + 1))
        model.to_torch(m2)
        for n, a, p in zip(names, new, m2.parameters()):
            exp = np.ascontiguousarray(to_layout(c, n, a))
            got = p.detach().numpy()
            if not core.same_bits(np.ascontiguousarray(got), exp):
                raise Fail("conversion", "parameter %s differs after to_torch" % n)
    m_ = env.mon_errors()
    if m_:
        raise Fail("monitor", m_)


def own_model(env, model):
    layers.own(env, model.activations, model.parameters)
    for l in model.layers:
        layers.own(env, l.temporaries)


def valid(c):
    try:
        k = c["kind"]
        if k == "gpt2":
            ok = c["et"] <= c["nh"] * c["hs"] and c["et"] % c["vt"] == 0 and c["nht"] <= c["nh"] and c["npos"] >= c["seq"][0] and \
                all(1 <= p[1] <= p[0] for p in (c["seq"], c["bat"], c["inner"])) and \
                (not c["flash"] or all(p[0] % p[1] == 0 for p in (c["seq"], c["bat"], [c["nh"], c["nht"]])))
            return ok and min(c["nh"], c["hs"], c["vocab"], c["nl"], c["et"], c["vt"], c["nht"]) >= 1
        if k == "gpt2mlp":
            return all(1 <= p[1] <= p[0] for p in (c["e"], c["inner"], c["n"]))
        return min(v for q, v in c.items() if q in ("e", "hid", "ncls", "n", "patches", "pix")) >= 1 and c["nl"] >= (2 if k == "deeprelu" else 1)
    except Exception:
        return False


def shrinks(c):
    k = c["kind"]
    dims = {"gpt2": ("seq", "bat", "inner"), "gpt2mlp": ("e", "inner", "n")}.get(k, ())
    yield from layers.shrink_generic(c, dims, (), [f for f in ("batch", "redux", "bias", "flash", "xgrad") if f in c])
    if c["np"] > 1:
        yield dict(c, np=1)
    for f in ("nl", "nh", "hs", "vocab", "npos", "et", "vt", "nht", "ncls", "hid", "e", "n", "patches", "pix"):
        if isinstance(c.get(f), int):
            for v in (1, 2, c[f] - 1):
                if 1 <= v < c[f]:
                    d = copy.deepcopy(c)
                    d[f] = v
                    if k == "gpt2":
                        d["et"] = min(d["et"], d["nh"] * d["hs"])
                        d["nht"] = min(d["nht"], d["nh"])
                        if d["et"] % d["vt"]:
                            d["vt"] = 1
                        d["npos"] = max(d["npos"], d["seq"][0])
                    yield d


def nontrivial(c):
    return True


def labels(c):
    l = ["model=" + c["kind"], "passes=%d" % c["np"]]
    if c["kind"] == "gpt2":
        l += ["flash" if c["flash"] else "plain attention", "act=" + c["act"], "layers=%d" % c["nl"]] + ["redux"] * c["redux"]
        if c["seq"][1] < c["seq"][0] or c["bat"][1] < c["bat"][0] or c["et"] < c["nh"] * c["hs"]:
            l.append("multi-tile")
    if c["kind"] == "mixer" and c["pix"] == c["hid"] or c["kind"] == "deeprelu" and c["e"] == c["hid"]:
        l.append("square weights")
    return l
