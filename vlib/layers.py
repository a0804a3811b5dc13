"""Layers: values with error scales, tensors with gradients, forward/backward passes."""
import random
import numpy as np
from . import core, ops
from .ops import LD, NPDT


class V:
    """value and scale of its rounding error (error <= C*eps*e, e >= |v|)"""
    def __init__(self, v, e=None):
        self.v = np.asarray(v, dtype=LD)
        self.e = np.abs(self.v) if e is None else np.asarray(e, dtype=LD)

    def __add__(self, o):
        return V(self.v + o.v, self.e + o.e)

    def __sub__(self, o):
        return V(self.v - o.v, self.e + o.e)

    def __mul__(self, o):
        if isinstance(o, V):
            return V(self.v * o.v, self.e * o.e)
        return V(self.v * LD(o), self.e * abs(LD(o)))

    def __getitem__(self, i):
        return V(self.v[i], self.e[i])

    def t(self, *p):
        return V(self.v.transpose(*p), self.e.transpose(*p))

    def sum(self, axis, keepdims=False):
        return V(self.v.sum(axis=axis, keepdims=keepdims), self.e.sum(axis=axis, keepdims=keepdims))

    def reshape(self, s):
        return V(self.v.reshape(s), self.e.reshape(s))

    @property
    def shape(self):
        return self.v.shape


def ein(sub, a, b):
    return V(np.einsum(sub, a.v, b.v), np.einsum(sub, a.e, b.e))


def softmax(a, axis=0):
    m = a.v.max(axis=axis, keepdims=True)
    x = np.exp(a.v - m)
    s = x / x.sum(axis=axis, keepdims=True)
    ae = np.where(np.isfinite(a.e), a.e, 0)
    return V(s, s * (4 + ae + ae.max(axis=axis, keepdims=True)))


def act(name, x, dt):
    """activation and its derivative as values with error scales"""
    eps = ops.EPS[dt]
    if name == "relu":
        d = (x.v > 0) * LD(1)
        # the side of zero is not determined within rounding
        near = (np.abs(x.v) <= 64 * eps * x.e) & (x.v != 0)
        return V(np.maximum(x.v, 0), x.e), V(d, np.where(near, LD(1e30), d))
    f, d = {"gelu": (ops._f_gelu, ops._d_gelu), "gelutanh": (ops._f_gelutanh, ops._d_gelutanh)}[name]
    fv, fs = f(x.v, eps)
    dv, ds = d(x.v, eps)
    fin = lambda a: np.where(np.isfinite(a), a, 0)
    return V(fv, np.abs(fv) + 2 * fin(fs) + 1.2 * x.e), V(dv, np.abs(dv) + 2 * fin(ds) + 1.2 * x.e)


def layer_norm(x, g, b, axis, eps):
    """(y, normalised x, inverse deviation) with error scales"""
    n = x.shape[axis]
    k = dict(axis=axis, keepdims=True)
    m = x.sum(**k) * (LD(1) / n)
    c = x - m
    var = (c.v * c.v).mean(**k) + LD(eps)
    inv = 1 / np.sqrt(var)
    rel = 2 + np.sqrt((c.e * c.e).mean(**k)) * inv
    inv = V(inv, inv * rel)
    h = V(c.v * inv.v, c.e * inv.v + np.abs(c.v) * inv.e)
    sh = [1] * x.v.ndim
    sh[axis] = n
    return h * g.reshape(sh) + b.reshape(sh), h, inv


def layer_norm_bwd(h, inv, g, dy, axis):
    """gradients of x, gamma and beta"""
    n = h.shape[axis]
    other = tuple(i for i in range(h.v.ndim) if i != axis)
    sh = [1] * h.v.ndim
    sh[axis] = n
    k = dict(axis=axis, keepdims=True)
    d = dy * g.reshape(sh)
    p = d - h * ((d * h).sum(**k) * (LD(1) / n)) - d.sum(**k) * (LD(1) / n)
    return p * inv, (dy * h).sum(other), dy.sum(other)


# --------------------------------------------------------------------------

def moments(env, shape, tile, dt, value=None, grad=None, need=True):
    """value and gradient tensors"""
    v = env.tensor(shape, tile, dt, value)
    g = env.tensor(shape, tile, dt, grad) if need else None
    return env.T.TensorMoments(v, g, bool(need))


def own(env, *objs):
    """register the tensors of a layer for clean up"""
    for o in objs:
        for t in o:
            if t is None:
                continue
            if hasattr(t, "value"):
                env.live.append(t.value)
                if t.grad is not None:
                    env.live.append(t.grad)
            else:
                env.live.append(t)


def passes(env, layer, ins, out, data, batch, between=None):
    """run forward and backward passes. data: [(list of input arrays, dy)].
    ins: tensors receiving the inputs. batch = 1: everything is submitted at
    once while execution is paused, 2: through the synchronous methods.
    Returns outputs of the passes."""
    T = env.T
    dt = env.dt_of(out.value)
    def like(t, a=None):
        return env.tensor(t.shape, t.basetile_shape, env.dt_of(t), a)
    aux = []
    for xs, dy in data:
        aux.append(([like(t, a) for t, a in zip(ins, xs)], like(out.value, dy) if dy is not None else None, like(out.value)))
    if batch == 1:
        env.nn.starpu.pause()
    try:
        for k, (xs, dy, y) in enumerate(aux):
            if between:
                between(k)
            for s, t in zip(xs, ins):
                T.copy_async(s, t)
            sync = batch == 2 and hasattr(layer, "forward")
            finished(env, layer.forward) if sync else layer.forward_async()
            T.copy_async(out.value, y)
            if dy is not None:
                T.copy_async(dy, out.grad)
                finished(env, layer.backward) if sync else layer.backward_async()
            if not batch:
                env.nn.starpu.wait_for_all()
    finally:
        env.nn.starpu.resume()
    return [env.get(y) for _, _, y in aux]


def finished(env, f):
    """a synchronous call; its work has to be over when it returns"""
    f()
    if getattr(env, "strict", 0):
        n = core.nsubmitted()
        env.nblocking += 1
        if n:
            raise core.Fail("blocking", "%d tasks are not finished after %s returned" % (n, getattr(f, "__qualname__", "a synchronous method")))


def check(env, name, tensor, ref, dt, C=16):
    core.compare(name, env.get(tensor), ref.v, ref.e, dt, C)


def unchanged(env, name, tensor, a):
    got = env.get(tensor)
    a = np.array(a.reshape(got.shape), order="F")
    if not core.same_bits(got, a):
        raise core.Fail("modified", "%s was modified at %s" % (name, core.first_diff(got, a)))


def freeze(params, seed):
    """switch off grad_required for random parameters; returns the initial
    gradients of these by id"""
    out = {}
    if seed:
        rng = random.Random(seed)
        for t in params:
            if t is not None and rng.random() < 0.4:
                t.grad_required = False
                out[id(t)] = t
    return out


def check_grad(env, name, t, ref, g0, frozen, dt, C=16):
    """the gradient of a parameter; a frozen one may be left alone"""
    if id(t) in frozen:
        got = env.get(t.grad)
        if core.same_bits(got, np.array(np.asarray(g0).reshape(got.shape), order="F")):
            return
    check(env, name, t.grad, ref, dt, C)


def r_dims(rng, n, maxel=1500, maxtiles=24):
    ax = ops.r_axes(rng, ["d%d" % i for i in range(n)], maxel=maxel, maxtiles=maxtiles)
    return [ax["d%d" % i] for i in range(n)]


def seeds(rng, n):
    return [rng.randrange(1 << 30) for _ in range(n)]


def shrink_generic(c, dims=(), lists=(), flags=()):
    """candidate simplifications: [size, tile] pairs under keys dims (or lists
    of pairs), list elements, flags to switch off"""
    import copy
    for k in lists:
        if len(c[k]) > 1:
            for i in range(len(c[k])):
                d = copy.deepcopy(c)
                del d[k][i]
                yield d
    for k in flags:
        if c.get(k):
            d = copy.deepcopy(c)
            d[k] = 0
            yield d
    if c.get("dt") == "fp64":
        yield dict(copy.deepcopy(c), dt="fp32")
    for k in dims:
        pairs = [((k,), c[k])] if c[k] and not isinstance(c[k][0], list) else [((k, i), p) for i, p in enumerate(c[k])]
        for path, (s, t) in pairs:
            new = [[1, 1], [2, 1], [2, 2], [s // 2, min(t, s // 2)], [s - 1, min(t, s - 1)], [s, s]]
            for q in new:
                if q[0] >= 1 and q[1] >= 1 and q != [s, t] and q[0] <= s and (q[0] < s or q[1] > t):
                    d = copy.deepcopy(c)
                    if len(path) == 1:
                        d[path[0]] = q
                    else:
                        d[path[0]][path[1]] = q
                    yield d
