"""Life cycle: unregistering or dropping objects frees exactly their data."""
import copy, ctypes, gc, importlib, os, random
import numpy as np
from vlib import core, ops
from vlib.core import Fail, Invalid

RULE = ("Random use of tensors, layers, layer graphs, losses, optimizers, models and training pipelines (the random cases of the properties about them), after which everything is released: "
    "by the unregister methods of layers, losses, optimizers and models in random order, some twice, some with work still submitted, or by dropping all references; some parameters and activations were marked as needing no gradient. The memory StarPU accounts for must "
    "return to the level before the case, other live tensors must keep their bits, work submitted before must have its result. Non-trivial: a layer, loss, optimizer or model was released.")
BUDGET = {"quick": (2500, 50), "thorough": (60000, 500)}
CONFIGS = [{"ncpu": n, "policy": 1, "nocache": 1, "delay": d} for n, d in ((1, 0), (2, 0), (1, 0), (3, 50), (1, 0), (2, 30), (1, 0))]
ASSUMPTIONS = ["memory use is what StarPU accounts for on the main memory node, with its allocation cache switched off"]
HANG = 180
SUB = {"n08": 1, "n12": 2, "n13": 1, "n15": 4, "n16": 3, "n17": 4, "n07": 1, "n11": 1, "n14": 2, "n18": 3, "n19": 3}
LAYER = ("n07", "n11", "n14")
_mods = {}


def mod(k):
    if k not in _mods:
        _mods[k] = importlib.import_module("props." + k)
    return _mods[k]


POOL = [k for k, n in SUB.items() for _ in range(n)]


def gen(rng, tier):
    k = rng.choice(POOL)
    while True:
        s = mod(k).gen(rng, "quick")
        if (k not in LAYER or "layer" in s) and (k != "n12" or "op" not in s):
            break
    return {"sub": k, "case": s, "seed": rng.randrange(1 << 30), "frz": int(rng.random() < 0.4), "how": rng.choice(["unregister", "unregister", "async", "async", "drop"]), "dt": "fp32"}


class Recorder:
    def __init__(self, env):
        nn = env.nn
        self.objs, self.classes, self.old = [], [], []
        from nntile.layer.base_layer import BaseLayer
        from nntile.model.base_model import BaseModel
        O, L = nn.optimizer, nn.loss
        self.bl, self.bm = BaseLayer, BaseModel
        self.cls = {"layer": [BaseLayer], "model": [BaseModel, nn.model.MlpMixer], "opt": [O.Adam, O.FusedAdam, O.FusedAdamW, O.SGD], "loss": [L.CrossEntropy, L.Frob]}
        for kind, cs in self.cls.items():
            for c in cs:
                self.wrap(c, kind)

    def wrap(self, c, kind):
        old, rec = c.__init__, self

        def init(self, *a, **k):
            if not any(o is self for _, o in rec.objs):
                rec.objs.append((kind, self))
            return old(self, *a, **k)
        self.old.append((c, old))
        c.__init__ = init

    def stop(self):
        for c, old in reversed(self.old):
            c.__init__ = old
        self.old = []


def inner_layers(rec, o, out):
    """layers inside a layer or model"""
    for v in list(vars(o).values()):
        for x in (v if isinstance(v, (list, tuple)) else [v]):
            if isinstance(x, rec.bl) and id(x) not in out:
                out.add(id(x))
                inner_layers(rec, x, out)


_so = []


def used():
    if not _so:
        p = [l.split()[-1] for l in open("/proc/self/maps") if "/libstarpu-" in l][0]
        s = ctypes.CDLL(p)
        s.starpu_memory_get_used.restype = ctypes.c_size_t
        _so.append(s)
    return _so[0].starpu_memory_get_used(0)


def run(env, c, rec):
    """execute the case; tensors made by the harness"""
    made, old = [], type(env).tensor
    base = len(env.live)

    def tensor(shape, tile, dt, array=None):
        t = old(env, shape, tile, dt, array)
        made.append(t)
        return t
    env.tensor = tensor
    try:
        mod(c["sub"]).check(env, c["case"])
        ok = True
    except Invalid:
        raise
    except ops.Violation:
        ok = False
    finally:
        del env.tensor
        rec.stop()
    return ok, made, env.live[base:]


def check(env, c):
    by = []
    try:
        check1(env, c, by)
    finally:
        for t in by:
            t.unregister()


def check1(env, c, bys):
    nn, T = env.nn, env.T
    rng = random.Random(c["seed"])
    if not _so:
        gc.collect()
        gc.freeze()
    gc.collect()
    nn.starpu.wait_for_all()
    u0 = used()
    rs = np.random.RandomState(c["seed"] & 0x7fffffff)
    by = env.tensor([5, 4], [3, 3], "fp32", np.array(rs.standard_normal((5, 4)), dtype=np.float32, order="F"))
    bys.append(by)
    env.live = []
    a0 = env.get(by)
    size = used() - u0
    rec = Recorder(env)
    try:
        ok, made, live = run(env, c, rec)
    except BaseException:
        rec.stop()
        raise
    if not ok:
        env.reset()
        raise Invalid("the case itself fails")
    nn.starpu.wait_for_all()
    env.live = []
    names = []
    copies = []
    if c["how"] == "drop":
        rec.objs = []
        del made, live
        gc.collect()
    else:
        inside = set()
        for k, o in rec.objs:
            if k in ("model", "layer"):
                inner_layers(rec, o, inside)
                for l in getattr(o, "layers", []):
                    inside.add(id(l))
        top = [(k, o) for k, o in rec.objs if id(o) not in inside]
        acts = [("output", a) for k, o in top if k == "layer" for a in o.activations_output]
        # GPT2 and other models whose mask or input belongs to the caller
        own = [("tensor", t) for t in made]
        todo = top + acts + own
        if c["how"] == "async":
            for k, o in top:
                if k in ("layer", "model"):
                    y = (o.activations_output if k == "layer" else [o.activations[-1]])[0].value
                    o.forward_async()
                    nn.starpu.wait_for_all()
                    ref = env.get(y)
                    z = env.tensor(y.shape, y.basetile_shape, env.dt_of(y))
                    o.forward_async()
                    T.copy_async(y, z)
                    copies.append((type(o).__name__, z, ref))
        # whether a gradient is wanted has no influence on whom it belongs to
        for k, o in top:
            for t in list(getattr(o, "parameters", []) or []) + list(getattr(o, "activations_output", []) or []):
                if c.get("frz") and hasattr(t, "grad_required") and rng.random() < 0.4:
                    t.grad_required = False
        rng.shuffle(todo)
        todo += [x for x in todo if rng.random() < 0.2]
        names = sorted({type(o).__name__ for k, o in top})
        for k, o in todo:
            o.unregister()
        for n, z, ref in copies:
            got = env.get(z)
            if not np.allclose(got, ref, rtol=1e-3, atol=1e-3 * (1e-30 + np.abs(ref[np.isfinite(ref)]).max() if np.isfinite(ref).any() else 1), equal_nan=True):
                raise Fail("lost work", "result of %s submitted before unregistering differs at %s" % (n, core.first_diff(got, ref)))
            z.unregister()
    nn.starpu.wait_for_all()
    u1 = used()
    if u1 > u0 + size:
        raise Fail("leak", "%d bytes are still held after releasing %s (%s)" % (u1 - u0 - size, ", ".join(names) or "everything", c["how"]))
    if not core.same_bits(env.get(by), a0):
        raise Fail("modified", "another tensor changed at %s" % core.first_diff(env.get(by), a0))
    if used() < u0 + size:
        raise Invalid("memory of an earlier case was released")
    env.live = []


def valid(c):
    try:
        return c["how"] in ("unregister", "async", "drop") and (c["sub"] not in LAYER or "layer" in c["case"]) and mod(c["sub"]).valid(c["case"])
    except Exception:
        return False


def shrinks(c):
    for d in mod(c["sub"]).shrinks(c["case"]):
        yield dict(c, case=d)
    if c.get("frz"):
        yield dict(c, frz=0)
    if c["how"] == "async":
        yield dict(c, how="unregister")


def nontrivial(c):
    return c["sub"] != "n08"


def labels(c):
    return ["cases of " + c["sub"].upper(), c["how"]]
