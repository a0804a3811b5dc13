"""Parameter lists, clearing of gradients, random initialisation."""
import gc, random
import numpy as np
from vlib import core, ops
from vlib.core import Fail, Invalid
from props import n27

RULE = ("Random models and layers (the random cases of the properties about linear, attention, residual, mixer, normalisation and embedding layers, converted models and training pipelines, after their own history of passes and steps), some of their "
    "parameters and activations marked as needing no gradient. The parameter list must hold every parameter of every layer inside once; in random order, after all storage was filled with random values, the functions that clear gradients must zero exactly the "
    "gradients they are about, and random initialisation must change exactly the values of the parameters of the layer, reproducibly and with the stated deviation; a pass after clearing gradients must not depend on what gradients held before. "
    "Non-trivial: a model or layer with at least one parameter.")
BUDGET = {"quick": (2500, 50), "thorough": (60000, 500)}
CONFIGS = [{"ncpu": n, "policy": p, "delay": d} for n, p, d in ((1, 1, 0), (2, 1, 0), (1, 0, 0), (3, 1, 50), (1, 1, 0), (2, 2, 30), (1, 1, 0))]
ASSUMPTIONS = ["inter-layer activations of an MLP-Mixer model include the activations inside its layers", "a gradient marked as not required is not touched",
    "values of activations that need no gradient can change only by a forward pass"]
HANG = 180
SUB = {"n07": 1, "n11": 1, "n15": 5, "n16": 3, "n17": 4, "n18": 6, "n19": 4}
POOL = [k for k, n in SUB.items() for _ in range(n)]
PARAMS = {"Linear": ("w", "b"), "LayerNorm": ("gamma", "beta"), "Embedding": ("w",), "Attention": ("w_q", "w_k", "w_v", "w", "in_proj_bias_q", "in_proj_bias_k", "in_proj_bias_v", "out_proj_bias"),
    "Mixer": (), "MixerMlp": (), "Add": (), "AddSlice": (), "Act": (), "GAP": ()}
PARAMS["FlashAttention"] = PARAMS["Attention"]


def gen(rng, tier):
    k = rng.choice(POOL)
    while True:
        s = n27.mod(k).gen(rng, "quick")
        if (k not in n27.LAYER or "layer" in s) and "op" not in s:
            break
    return {"sub": k, "case": s, "seed": rng.randrange(1 << 30), "frz": int(rng.random() < 0.4), "dt": "fp32"}


def inner(rec, o):
    """layers inside, the object itself first if it is one"""
    r, seen = [], set()

    def go(o):
        if id(o) in seen:
            return
        seen.add(id(o))
        if isinstance(o, rec.bl):
            r.append(o)
        for v in list(vars(o).values()):
            for x in (v if isinstance(v, (list, tuple)) else [v]):
                if isinstance(x, rec.bl):
                    go(x)
    go(o)
    return r


def own_params(rec, o):
    """the parameters by name, of all the layers inside"""
    r = []
    for l in inner(rec, o):
        n = type(l).__name__
        if n not in PARAMS:
            raise Invalid("layer type " + n)
        r += [("%s.%s" % (n, a), getattr(l, a)) for a in PARAMS[n] if getattr(l, a) is not None]
    return r


def storage(env, rec, objs):
    """all tensors reachable -> {id: (name, tensor)}"""
    out, seen = {}, set()
    tens = tuple(env.cls.values())
    M = env.T.TensorMoments

    def go(name, v, depth):
        if isinstance(v, tens):
            out.setdefault(id(v), (name, v))
        elif id(v) in seen or depth > 8:
            pass
        elif isinstance(v, M):
            seen.add(id(v))
            go(name + ".value", v.value, depth + 1)
            go(name + ".grad", v.grad, depth + 1)
        elif isinstance(v, (list, tuple)):
            for i, x in enumerate(v):
                go("%s[%d]" % (name, i), x, depth + 1)
        elif isinstance(v, (rec.bl, rec.bm)):
            seen.add(id(v))
            for k, x in vars(v).items():
                go("%s.%s" % (name, k), x, depth + 1)
    for o in objs:
        go(type(o).__name__, o, 0)
    return out


class Filled:
    """everything holds random values; afterwards only some may have changed"""
    def __init__(self, env, st, rs):
        self.env, self.st, self.vals = env, st, {}
        for i, (n, t) in st.items():
            dt = env.dt_of(t)
            if dt in ("fp32", "fp64"):
                a = np.array(rs.standard_normal(tuple(t.shape) or (1,)), dtype=ops.NPDT[dt], order="F")
                env.put(t, a)
                self.vals[i] = a

    def look(self, what, changed):
        """changed: {id: function of the new array -> None or message}"""
        env = self.env
        for i, a in self.vals.items():
            n, t = self.st[i]
            b = env.get(t)
            if i in changed:
                m = changed[i](b, a)
                if m:
                    raise Fail("not done", "%s: %s %s" % (what, n, m))
            elif not core.same_bits(b, a):
                raise Fail("changed", "%s changed %s at %s" % (what, n, core.first_diff(b, a)))


def zero(b, a):
    return None if not b.any() and not np.isnan(b).any() else "is not zero: %s" % b.ravel("F")[:5]


def grads(ms):
    return {id(t.grad): zero for t in ms if t is not None and t.grad is not None and t.grad_required}


def normal(b, a):
    n = b.size
    s = 1 / np.sqrt(n)
    r = b.ravel("F")[1:]    # the first element: known finding of N10
    if not np.isfinite(b).all() or r.size and np.abs(r).max() > 8 * s or np.abs(b).max() > 10 * s:
        return "is not normal with deviation %g: %s" % (s, b.ravel("F")[:5])
    if (b == a).any():
        return "was not initialised completely"
    if n >= 60 and not 0.5 < r.std() / s < 1.6 or n >= 60 and abs(r.mean()) > 6 * s / np.sqrt(n):
        return "has mean %g and deviation %g, expected 0 and %g" % (b.mean(), b.std(), s)


def garbage(env, rec, o, everything, rs, loose):
    """a pass after clear_gradients does not depend on earlier gradients"""
    y = o.activations[-1]
    if any(m.grad is not None and not m.grad_required for m in o.activations[1:]):
        return 0
    if y.grad is None or not any(y is a for a in o.layers[-1].activations_output):
        raise Invalid("last activation")
    new = lambda t: np.array(rs.standard_normal(tuple(t.shape) or (1,)), dtype=ops.NPDT[env.dt_of(t)], order="F")
    G = new(y.grad)
    par = [(n, p) for n, p in own_params(rec, o) if p.grad is not None and p.grad_required]
    res = []
    for k in range(2):
        for m in everything.values():
            if m.grad is not None:
                env.put(m.grad, new(m.grad))
        o.clear_gradients()
        env.put(y.grad, G)
        o.forward_async()
        o.backward_async()
        res.append([env.get(p.grad) for n, p in par])
    top = max([float(np.abs(b).max()) for b in res[0]] + [1e-30])
    for (n, p), a, b in zip(par, *res):
        if not (np.allclose(a, b, rtol=1e-3, atol=1e-4 * top) if loose else core.same_bits(a, b)):
            raise Fail("stale", "after clear_gradients of %s the gradient of %s depends on what gradients held before, at %s" % (type(o).__name__, n, core.first_diff(a, b)))
    return 1


def check(env, c):
    rec = n27.Recorder(env)
    try:
        ok, made, live = n27.run(env, c, rec)
    except BaseException:
        rec.stop()
        raise
    if not ok:
        raise Invalid("the case itself fails")
    env.nn.starpu.wait_for_all()
    rng = random.Random(c["seed"])
    rs = np.random.RandomState(c["seed"] & 0x7fffffff)
    inside = {id(l) for k, o in rec.objs if k in ("model", "layer") for l in inner(rec, o) if l is not o}
    top = [o for k, o in rec.objs if k in ("model", "layer") and id(o) not in inside]
    # a model inside another one (the MLP of GPT2)
    if sum(isinstance(o, rec.bm) for o in top) > 1:
        n = {id(o): len(getattr(o, "layers", [])) for o in top}
        top = [o for o in top if not (isinstance(o, rec.bm) and any(p is not o and isinstance(p, rec.bm) and len(p.layers) > len(o.layers) and all(any(x is y for y in p.layers) for x in o.layers) for p in top))]
    ncheck = 0
    for o in top:
        name = type(o).__name__
        par = list(o.get_parameters() if isinstance(o, rec.bm) else o.parameters)
        exp = own_params(rec, o)
        ids = [id(p) for p in par]
        for n, p in exp:
            if ids.count(id(p)) != 1:
                raise Fail("parameters", "%s is %d times in the parameters of %s" % (n, ids.count(id(p)), name))
        if len(par) != len(exp):
            raise Fail("parameters", "%s has %d parameters, expected %d" % (name, len(par), len(exp)))
        ncheck += 1
    st = storage(env, rec, top)
    if not st:
        raise Invalid("nothing to look at")
    everything = {id(m): m for l in {id(x): x for o in top for x in inner(rec, o)}.values() for m in l.parameters + l.activations_input + l.activations_output
        if isinstance(m, env.T.TensorMoments)}
    if not c["frz"]:
        for o in top:
            if isinstance(o, rec.bm):
                ncheck += garbage(env, rec, o, everything, rs, bool(c["case"].get("redux")))
    for m in everything.values():
        if c["frz"] and rng.random() < 0.3 and m.grad is not None:
            m.grad_required = False
    todo = []
    for o in top:
        name = type(o).__name__
        if isinstance(o, rec.bm):
            par = grads(p for n, p in own_params(rec, o))
            act = grads(o.activations)
            tmp = grads(t for l in o.layers for t in l.temporaries if isinstance(t, env.T.TensorMoments)) if name == "MlpMixer" else {}
            todo += [(name + ".clear_gradients", o.clear_gradients, {**par, **act, **tmp}), (name + ".clear_parameters_grads", o.clear_parameters_grads, par),
                (name + ".clear_activations_grads", o.clear_activations_grads, {**act, **tmp})]
            if name == "MlpMixer":
                todo.append((name + ".clear_tmp_grads", o.clear_tmp_grads, tmp))
        for l in inner(rec, o):
            n = type(l).__name__
            p = [x for _, x in own_params(rec, l)]
            if hasattr(l, "clear_gradients"):
                todo.append((n + ".clear_gradients", l.clear_gradients, grads(p + l.activations_input + l.activations_output + l.temporaries)))
            if p:
                todo.append((n + ".init_randn_async", l.init_randn_async, {id(x.value): normal for x in p}))
        if hasattr(o, "init_randn_async") and isinstance(o, rec.bm):
            # the models initialise their linear layers
            p = [x for l in inner(rec, o) for _, x in own_params(rec, l)]
            todo.append((name + ".init_randn_async", o.init_randn_async, {id(x.value): normal for x in p}))
    rng.shuffle(todo)
    for what, f, changed in todo[:6]:
        fl = Filled(env, st, rs)
        f()
        env.nn.starpu.wait_for_all() if rng.random() < 0.5 else None
        fl.look(what, changed)
        ncheck += 1
        if "init_randn" in what:
            v = {i: env.get(st[i][1]) for i in changed}
            fl = Filled(env, st, rs)
            f()
            fl.look(what, {i: (lambda b, a, w=w: None if core.same_bits(b, w) else "differs when it is repeated") for i, w in v.items()})
    return {"looks": ncheck}


def valid(c):
    try:
        return c["sub"] in SUB and (c["sub"] not in n27.LAYER or "layer" in c["case"]) and n27.mod(c["sub"]).valid(c["case"])
    except Exception:
        return False


def shrinks(c):
    for d in n27.mod(c["sub"]).shrinks(c["case"]):
        yield dict(c, case=d)
    if c["frz"]:
        yield dict(c, frz=0)


def nontrivial(c):
    return c["sub"] != "n17" or c["case"].get("layer") not in ("Add", "AddSlice", "Act", "GAP")


def labels(c):
    return ["cases of " + c["sub"].upper()] + ["frozen"] * c["frz"]
