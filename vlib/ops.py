"""Catalogue of tensor-level operations: generators and reference semantics.

A case is plain JSON:
  {"op": name, "dt": "fp32"|"fp64",
   "ax": {axis: [size, tile]},            symbolic dimensions
   "opr": {operand: [axis, ...]},          operand -> its dimensions
   "sc": {...scalars...},  "redux": 0|1,
   "dk": {operand: [kind, seed]}}          data recipe per operand
Operand shapes and tilings are derived from "ax", so shrinking an axis keeps
all operands consistent.
"""
import math
import numpy as np
from scipy import special as _sp

LD = np.longdouble
EPS = {"fp32": float(np.finfo(np.float32).eps), "fp64": float(np.finfo(np.float64).eps)}
NPDT = {"fp32": np.float32, "fp64": np.float64, "int64": np.int64, "bool": np.bool_}


class Violation(Exception):
    """The property does not hold on this case."""


class Invalid(Exception):
    """The case is not well-formed (only ever raised while shrinking)."""


# --------------------------------------------------------------------------
# random pieces

def r_size(rng, big=0.08):
    u = rng.random()
    if u < 0.14:
        return 1
    if u < 0.62:
        return rng.randint(2, 5)
    if u < 1 - big:
        return rng.randint(6, 11)
    return rng.choice([12, 13, 16, 17, 19, 31, 32, 33, 40, 65])


def r_tile(rng, s, over=True):
    u = rng.random()
    if u < 0.2:
        return s
    if over and u < 0.25:
        return s + rng.randint(1, 3)
    if u < 0.35:
        return 1 if s <= 12 else max(2, s // 6)
    lo = 1 if s <= 12 else max(2, s // 6)
    return rng.randint(min(lo, s), s)


HUGE = [2047, 2049, 4096, 4099, 8193, 10007, 16385, 33000, 65539]


def r_large(rng, names, over=True, huge=False):
    """one long axis, or two axes of a few dozen: tiles large enough to enter blocked, unrolled or vectorised loops
    and to have a remainder there; the other axes are tiny"""
    ax = {}
    k = 1 if huge or rng.random() < 0.5 else 2
    pick = rng.sample(list(names), min(k, len(names)))
    for n in names:
        if n not in pick:
            s = rng.choice([1, 1, 2, 3])
        elif len(pick) == 1:
            s = rng.choice(HUGE) if huge else rng.choice([63, 64, 65, 100, 127, 128, 129, 130, 200, 255, 256, 257, 300, 511, 513, 700, 1025, 1030])
        else:
            s = rng.choice([15, 16, 17, 18, 20, 23, 24, 31, 32, 33, 34, 35, 37, 40, 47, 48, 49])
        u = rng.random()
        t = s if u < 0.5 else (s + 1) // 2 if u < 0.7 else max(1, s - rng.randint(1, 9)) if u < 0.9 else max(1, s // rng.randint(2, 5))
        ax[n] = [s, t]
    return ax


def r_axes(rng, names, maxel=3000, maxtiles=64, over=True, big=0.08):
    ax = {n: None for n in names}
    if names and big and rng.random() < 0.05:
        huge = maxel >= 3000 and rng.random() < 0.08
        ax = r_large(rng, names, over, huge)
        bound_axes(ax, 70000 if huge else maxel, maxtiles)
        return ax
    if names and big and maxel >= 3000 and maxtiles >= 64 and rng.random() < 0.003:
        # hundreds of tiles
        pick = rng.sample(list(names), min(rng.choice([1, 2]), len(names)))
        for n in names:
            s = rng.randint(1, 2)
            ax[n] = [s, s]
        for n in pick:
            s = rng.randint(200, 700) if len(pick) == 1 else rng.randint(17, 35)
            ax[n] = [s, rng.choice([1, 1, 1, 2])]
        return ax
    for n in names:
        s = r_size(rng, big)
        ax[n] = [s, r_tile(rng, s, over)]
    bound_axes(ax, maxel, maxtiles)
    return ax


def bound_axes(ax, maxel=3000, maxtiles=64):
    def el(): return math.prod(a[0] for a in ax.values())
    def tl(): return math.prod((a[0] - 1) // a[1] + 1 for a in ax.values())
    while ax and el() > maxel:
        n = max(ax, key=lambda k: ax[k][0])
        s = max(1, ax[n][0] // 2)
        ax[n] = [s, min(ax[n][1], s) if ax[n][1] <= ax[n][0] else s]
    while ax and tl() > maxtiles:
        n = max(ax, key=lambda k: (ax[k][0] - 1) // ax[k][1] + 1)
        ax[n][1] = min(ax[n][0], ax[n][1] * 2)


def r_coef(rng):
    u = rng.random()
    if u < 0.22:
        return 0.0
    if u < 0.44:
        return 1.0
    if u < 0.54:
        return -1.0
    if u < 0.6:
        return rng.choice([1e-7, -1e-5, 1e-3, 1.001, 0.999, -1.001, 1e3, 1e-20])
    return rng.choice([2.0, 0.5, -0.25, 3.0, -2.5, round(rng.uniform(-3, 3), 3)])


def r_nz(rng):
    c = r_coef(rng)
    return c if c != 0 else 1.5


def r_dt(rng):
    return "fp32" if rng.random() < 0.6 else "fp64"


def r_kind(rng, kinds=("normal", "ints", "wide", "sparse", "const")):
    w = rng.random()
    return kinds[0] if w < 0.45 else rng.choice(kinds)


# --------------------------------------------------------------------------
# data

def make_data(kind, seed, shape, dt, ctx=None):
    """Deterministic array from a recipe. dt: numpy dtype name key."""
    rs = np.random.RandomState(seed & 0x7fffffff)
    shp = tuple(shape) if len(shape) else (1,)
    npdt = NPDT[dt]
    if dt == "bool":
        p = {"half": 0.5, "most": 0.9, "few": 0.15, "all": 1.1, "none": -1.0}.get(kind, 0.5)
        a = rs.random_sample(shp) < p
        return np.array(a, dtype=bool, order="F")
    if dt == "int64":
        if isinstance(kind, (list, tuple)):  # ["idx", n, mode]
            _, n, mode = kind
            if mode == "const":
                a = np.full(shp, rs.randint(n))
            elif mode == "edge":
                a = rs.choice([0, n - 1], size=shp)
            elif mode == "perm":
                k = int(np.prod(shp))
                a = np.resize(rs.permutation(n), k).reshape(shp)
            else:
                a = rs.randint(0, n, size=shp)
        else:
            a = rs.randint(-2**62, 2**62, size=shp)
        return np.array(a, dtype=np.int64, order="F")
    nrm = rs.standard_normal(shp)
    fi = np.finfo(npdt)
    if kind in ("normal", "pair"):
        a = nrm
    elif kind == "ints":
        a = rs.randint(-4, 5, size=shp).astype(float)
    elif kind == "posints":
        a = rs.randint(1, 5, size=shp).astype(float)
    elif kind == "wide":
        a = nrm * 10.0 ** rs.uniform(-3, 3, size=shp)
    elif kind == "sparse":
        a = nrm * (rs.random_sample(shp) < 0.3)
    elif kind == "const":
        a = np.full(shp, nrm.flat[0])
    elif kind == "pos":
        a = np.abs(nrm) + 0.05
    elif kind == "poswide":
        a = (np.abs(nrm) + 0.05) * 10.0 ** rs.uniform(-3, 3, size=shp)
    elif kind == "nonneg":
        a = np.abs(nrm) * (rs.random_sample(shp) < 0.7)
    elif kind == "big":      # finite, far range, squares overflow
        e = rs.uniform(0.3, 0.9, size=shp) * np.log10(float(fi.max))
        a = np.sign(nrm) * 10.0 ** e
    elif kind == "small":
        e = rs.uniform(0.3, 0.9, size=shp) * np.log10(float(fi.tiny))
        a = np.sign(nrm) * 10.0 ** e
    elif kind == "mixed":
        e = rs.uniform(-0.85, 0.85, size=shp) * np.log10(float(fi.max))
        a = np.sign(nrm) * 10.0 ** e
        a = a * (rs.random_sample(shp) < 0.8)
    elif kind == "extreme":  # whole finite range incl. zeros and max
        e = rs.uniform(-0.99, 0.99, size=shp) * np.log10(float(fi.max))
        a = np.sign(nrm) * 10.0 ** e
        pick = rs.randint(0, 12, size=shp)
        a = np.where(pick == 0, 0.0, a)
        a = np.where(pick == 1, float(fi.max), a)
        a = np.where(pick == 2, -float(fi.max), a)
        a = np.where(pick == 3, float(fi.tiny), a)
        a = np.where(pick == 4, -0.0, a)
        a = np.where(pick == 5, nrm * 6, a)
        a = np.where(pick == 6, nrm * 60, a)
        a = np.where(pick == 7, nrm * 3e4, a)
    elif kind == "act":      # interesting range of activations
        a = rs.uniform(-8, 8, size=shp)
    elif kind == "logit":
        a = nrm * 5
    elif kind == "hotlogit":
        a = nrm * 10.0 ** rs.uniform(-1, 4)
    elif kind == "shiftlogit":
        a = nrm * 3 + rs.choice([-1, 1]) * 10.0 ** rs.uniform(1, 6)
    elif kind == "hugelogit":
        a = nrm * 10.0 ** rs.uniform(5, 30)
    elif kind == "masked":
        a = nrm * 5
        p = rs.choice([0.1, 0.5, 0.9])
        a = np.where(rs.random_sample(shp) < p, -np.inf, a)
    elif kind == "maskedhot":
        a = nrm * 300
        p = rs.choice([0.1, 0.5, 0.9])
        a = np.where(rs.random_sample(shp) < p, -np.inf, a)
    elif kind == "zero":
        a = np.zeros(shp)
    elif kind == "one":
        a = np.ones(shp)
    elif kind == "nan":
        a = np.full(shp, np.nan)
    elif kind == "inf":
        a = np.full(shp, np.inf) * np.where(nrm > 0, 1, -1)
    elif kind == "nanmix":
        a = rs.choice([np.nan, np.inf, -np.inf, 1e30, 0.0], size=shp)
    elif kind == "offset":   # large common mean, small spread
        a = nrm + 10.0 ** rs.uniform(0, 2)
    else:
        raise Invalid("kind " + str(kind))
    with np.errstate(over="ignore"):
        return np.array(a, dtype=npdt, order="F")


def shape_of(case, o):
    return [case["ax"][d][0] for d in case["opr"][o]]


def tile_of(case, o):
    return [case["ax"][d][1] for d in case["opr"][o]]


def axidx(case, o, name):
    return case["opr"][o].index(name)


# --------------------------------------------------------------------------
# operation specs

class Op:
    """roles: operand -> (role, elemtype); role r | rw | w (overwritten)"""
    def __init__(self, name, roles, gen, call, ref, C=8.0, kinds=None,
            over=None, fixed_axes=(), groups=(), redux=False, minaxes=None,
            keep=(), tags=()):
        self.name = name
        self.roles = roles
        self._gen = gen
        self.call = call
        self.ref = ref
        self.C = C
        self.kinds = kinds or {}
        self.over = over            # case -> set of overwritten operands
        self.fixed_axes = set(fixed_axes)   # axes shrinking must not touch
        self.groups = groups
        self.redux = redux
        self.keep = set(keep)       # axes that may not be dropped
        self.tags = tags

    def gen(self, rng):
        case = {"op": self.name, "dt": r_dt(rng), "redux": 0}
        case.update(self._gen(rng))
        if self.redux and rng.random() < 0.4:
            case["redux"] = 1
        dk = {}
        for o, (role, el) in self.roles.items():
            k = self.kinds.get(o)
            if callable(k):
                k = k(rng, case)
            elif isinstance(k, (list, tuple)):
                k = rng.choice(k)
            if k is None:
                k = r_kind(rng) if el == "f" else "half"
            dk[o] = [k, rng.randrange(1 << 30)]
        case["dk"] = dk
        return case

    def overwritten(self, case):
        s = {o for o, (role, el) in self.roles.items() if role == "w"}
        if self.over:
            s |= self.over(case)
        return s

    def elt(self, case, o):
        el = self.roles[o][1]
        return {"f": case["dt"], "i": "int64", "b": "bool"}[el]

    def data(self, case):
        d = {}
        for o in self.roles:
            kind, seed = case["dk"][o]
            d[o] = make_data(kind, seed, shape_of(case, o), self.elt(case, o))
        return d

    def valid(self, case):
        try:
            if case["dt"] not in ("fp32", "fp64"):
                return False
            for n, a in case["ax"].items():
                if a[0] < 1 or a[1] < 1:
                    return False
            used = set()
            for o in self.roles:
                ds = case["opr"][o]
                if len(set(ds)) != len(ds):
                    return False
                used |= set(ds)
                for d in ds:
                    if d not in case["ax"]:
                        return False
            if not self.keep <= set(case["ax"]):
                return False
            return True
        except Exception:
            return False


OPS = {}


def reg(*a, **k):
    op = Op(*a, **k)
    OPS[op.name] = op
    return op


def tens_axes(rng, nmin=0, nmax=4, **k):
    nd = rng.choice([n for n in (0, 1, 1, 2, 2, 2, 3, 3, 3, 4, 4, 5) if nmin <= n <= nmax])
    names = ["d%d" % i for i in range(nd)]
    return names, r_axes(rng, names, **k)


def gen_ew(operands, scal=None, nmin=0, nmax=5):
    def g(rng):
        names, ax = tens_axes(rng, nmin, nmax)
        c = {"ax": ax, "opr": {o: list(names) for o in operands},
             "sc": scal(rng) if scal else {}}
        return c
    return g


def L(a):
    return a.astype(LD)


# ---- activations -----------------------------------------------------------
# reference functions in extended precision; second value: error scale

def _f_relu(z, e):
    return np.maximum(z, 0), 0 * z


def _erfc_ld(x):
    # double-precision erfc on the (exactly representable) double argument
    return _sp.erfc(x.astype(np.float64)).astype(LD)


SQ2 = np.sqrt(LD(2))
PI = LD("3.14159265358979323846264338327950288")


def _f_gelu(z, e):
    u = -z / SQ2
    y = _erfc_ld(u)
    # conditioning: |d/du erfc| * |u| * eps, plus result rounding
    with np.errstate(over="ignore", under="ignore", invalid="ignore"):
        der = 2 / np.sqrt(PI) * np.exp(-u * u) * np.abs(u)
        v = z * y / 2
        sc = np.abs(z) / 2 * (np.abs(y) + der * (1 + 0 * z))
    return v, np.where(np.isfinite(sc), sc, 0) + _ufl(z, e)


def _ufl(z, e):
    """results are cut off where an intermediate value leaves the range"""
    tiny = np.finfo(np.float32 if e > 1e-10 else np.float64).tiny
    return LD(tiny) / LD(e) * (1 + np.minimum(np.abs(z), 1000))


def _sig2(t):
    """1/(1+exp(-t))"""
    with np.errstate(over="ignore", under="ignore"):
        return 1 / (1 + np.exp(-t))


def _gt_arg(z):
    a = 2 * np.sqrt(2 / PI)
    with np.errstate(over="ignore"):
        zc = np.clip(z, -1e6, 1e6)   # saturated beyond
        return a * (zc + LD("0.044715") * zc ** 3)


def _f_gelutanh(z, e):
    t = _gt_arg(z)
    s = _sig2(t)
    with np.errstate(over="ignore", under="ignore", invalid="ignore"):
        # condition: relative error of exp(-t) is |t|*eps (times a few)
        sc = np.abs(z) * s * (1 + (1 - s) * np.abs(t))
    return z * s, np.where(np.isfinite(sc), sc, 0) + _ufl(z, e)


def _d_gelu(z, e):
    zc = np.clip(z, -1e4, 1e4)
    y = _erfc_ld(-zc / SQ2) / 2
    with np.errstate(under="ignore"):
        ph = np.exp(-zc * zc / 2) / np.sqrt(2 * PI)
    v = y + zc * ph
    sc = y + np.abs(zc) * ph * (1 + zc * zc)
    return v, sc


def _d_gelutanh(z, e):
    zc = np.clip(z, -1e4, 1e4)
    t = _gt_arg(zc)
    s = _sig2(t)
    a = 2 * np.sqrt(2 / PI)
    dt = a * (1 + 3 * LD("0.044715") * zc * zc)
    with np.errstate(under="ignore"):
        v = s + zc * s * (1 - s) * dt
        # (1-s) is formed as 1-1/(1+exp): absolute error about eps, but never
        # more than a few times (1-s) itself once it drops below eps
        sc = s * (1 + np.abs(zc * dt) * ((1 - s) * (1 + np.abs(t)) + np.minimum(0.25, (1 - s) / e))
            + np.abs(t) * (1 - s))
    # exponents that overflow cut the result off at about |z f'|*tiny
    return v, sc + _ufl(zc * dt, e)


def _d_relu(z, e):
    return (z > 0).astype(LD), 0 * z


ACTK = ["normal", "act", "act", "extreme", "ints", "wide", "zero", "const"]


def _act_inplace(name, f, fn, C):
    def ref(case, d):
        e = EPS[case["dt"]]
        v, sc = f(L(d["x"]), e)
        return {"x": (v, sc)}
    reg(name, {"x": ("rw", "f")}, gen_ew(["x"]),
        lambda T, o, s, c: getattr(T, fn)(o["x"]), ref, C=C,
        kinds={"x": ACTK}, tags=("act",))


def _act_out(name, f, fn, C):
    def ref(case, d):
        v, sc = f(L(d["x"]), EPS[case["dt"]])
        return {"y": (v, sc)}
    reg(name, {"x": ("r", "f"), "y": ("w", "f")}, gen_ew(["x", "y"]),
        lambda T, o, s, c: getattr(T, fn)(o["x"], o["y"]), ref, C=C,
        kinds={"x": ACTK}, tags=("act",))


def _act_back(name, f, fn, C):
    def ref(case, d):
        v, sc = f(L(d["x"]), EPS[case["dt"]])
        dy, dx = L(d["dy"]), L(d["dx"])
        return {"dx": (dx + v * dy, sc * np.abs(dy) + np.abs(v * dy) + np.abs(dx))}
    reg(name, {"x": ("r", "f"), "dy": ("r", "f"), "dx": ("rw", "f")},
        gen_ew(["x", "dy", "dx"]),
        lambda T, o, s, c: getattr(T, fn)(o["x"], o["dy"], o["dx"]), ref, C=C,
        kinds={"x": ACTK}, tags=("act",))


_act_inplace("relu", _f_relu, "relu_async", 1)
_act_out("relu_forward", _f_relu, "relu_forward_async", 1)
_act_back("relu_backward", _d_relu, "relu_backward_async", 2)
_act_inplace("drelu", _d_relu, "drelu_async", 1)
_act_inplace("gelu", _f_gelu, "gelu_async", 16)
_act_inplace("dgelu", _d_gelu, "dgelu_async", 16)
_act_back("gelu_backward", _d_gelu, "gelu_backward_async", 16)
_act_out("gelutanh", _f_gelutanh, "gelutanh_async", 16)
_act_inplace("gelutanh_inplace", _f_gelutanh, "gelutanh_inplace_async", 16)
_act_inplace("dgelutanh", _d_gelutanh, "dgelutanh_async", 16)
_act_back("gelutanh_backward", _d_gelutanh, "gelutanh_backward_async", 16)

# ---- element-wise arithmetic ------------------------------------------------

def _sc(case, k):
    """scalar as the library sees it (converted to the element type)"""
    return LD(NPDT[case["dt"]](case["sc"][k]))


reg("fill", {"x": ("w", "f")}, gen_ew(["x"], lambda r: {"val": r_coef(r)}),
    lambda T, o, s, c: T.fill_async(s["val"], o["x"]),
    lambda case, d: {"x": (np.full(d["x"].shape, _sc(case, "val")), 0 * L(d["x"]))}, C=1, tags=("ew",))
reg("clear", {"x": ("w", "f")}, gen_ew(["x"]),
    lambda T, o, s, c: T.clear_async(o["x"]),
    lambda case, d: {"x": (0 * L(d["x"]), 0 * L(d["x"]))}, C=1, tags=("ew",))


def _ref_add(case, d):
    a, b = _sc(case, "alpha"), _sc(case, "beta")
    x, y = L(d["x"]), L(d["y"])
    with np.errstate(invalid="ignore"):
        t2 = b * y if b != 0 else 0 * x
        t1 = a * x if a != 0 else 0 * x
    return {"y": (t1 + t2, np.abs(t1) + np.abs(t2))}


def _ab(r):
    return {"alpha": r_coef(r), "beta": r_coef(r)}


def over_beta(dst):
    def f(case):
        return {dst} if case["sc"]["beta"] == 0 else set()
    return f


reg("add", {"x": ("r", "f"), "y": ("rw", "f")}, gen_ew(["x", "y"], _ab),
    lambda T, o, s, c: T.add_async(s["alpha"], o["x"], s["beta"], o["y"]),
    _ref_add, C=3, over=over_beta("y"), tags=("ew",))


def _ref_axpy(case, d):
    a = _sc(case, "alpha")
    x, y = L(d["x"]), L(d["y"])
    return {"y": (y + a * x, np.abs(a * x) + np.abs(y))}


reg("axpy", {"x": ("r", "f"), "y": ("rw", "f")},
    gen_ew(["x", "y"], lambda r: {"alpha": r_coef(r)}),
    lambda T, o, s, c: T.axpy_async(s["alpha"], o["x"], o["y"]), _ref_axpy,
    C=3, tags=("ew",))


def _gen_axpyt(rng):
    c = gen_ew(["x", "y"])(rng)
    c["opr"]["alpha"] = []
    return c


reg("axpy_t", {"alpha": ("r", "f"), "x": ("r", "f"), "y": ("rw", "f")}, _gen_axpyt,
    lambda T, o, s, c: T.axpy_async(o["alpha"], o["x"], o["y"]),
    lambda case, d: {"y": (L(d["y"]) + L(d["alpha"])[0] * L(d["x"]),
        np.abs(L(d["alpha"])[0] * L(d["x"])) + np.abs(L(d["y"])))}, C=3, tags=("ew",))

reg("prod", {"x": ("r", "f"), "y": ("rw", "f")}, gen_ew(["x", "y"]),
    lambda T, o, s, c: T.prod_async(o["x"], o["y"]),
    lambda case, d: {"y": (L(d["x"]) * L(d["y"]), np.abs(L(d["x"]) * L(d["y"])))},
    C=1, tags=("ew",))
reg("maximum", {"x": ("r", "f"), "y": ("rw", "f")}, gen_ew(["x", "y"]),
    lambda T, o, s, c: T.maximum_async(o["x"], o["y"]),
    lambda case, d: {"y": (np.maximum(L(d["x"]), L(d["y"])), 0 * L(d["x"]))}, C=1, tags=("ew",))
reg("add_scalar", {"x": ("rw", "f")}, gen_ew(["x"], _ab),
    lambda T, o, s, c: T.add_scalar_async(s["alpha"], s["beta"], o["x"]),
    lambda case, d: {"x": (_sc(case, "alpha") + _sc(case, "beta") * L(d["x"]),
        np.abs(_sc(case, "alpha")) + np.abs(_sc(case, "beta") * L(d["x"])))}, C=3, tags=("ew",))
reg("scal", {"x": ("r", "f"), "y": ("w", "f")},
    gen_ew(["x", "y"], lambda r: {"alpha": r_coef(r)}),
    lambda T, o, s, c: T.scal_async(s["alpha"], o["x"], o["y"]),
    lambda case, d: {"y": (_sc(case, "alpha") * L(d["x"]), np.abs(_sc(case, "alpha") * L(d["x"])))}, C=1, tags=("ew",))
reg("scal_inplace", {"x": ("rw", "f")}, gen_ew(["x"], lambda r: {"alpha": r_coef(r)}),
    lambda T, o, s, c: T.scal_inplace_async(s["alpha"], o["x"]),
    lambda case, d: {"x": (_sc(case, "alpha") * L(d["x"]), np.abs(_sc(case, "alpha") * L(d["x"])))}, C=1, tags=("ew",))
reg("sqrt", {"x": ("r", "f"), "y": ("w", "f")}, gen_ew(["x", "y"]),
    lambda T, o, s, c: T.sqrt_async(o["x"], o["y"]),
    lambda case, d: {"y": (np.sqrt(L(d["x"])), np.sqrt(L(d["x"])))}, C=1,
    kinds={"x": ["pos", "poswide", "nonneg", "posints"]}, tags=("ew",))
reg("sqrt_inplace", {"x": ("rw", "f")}, gen_ew(["x"]),
    lambda T, o, s, c: T.sqrt_inplace_async(o["x"]),
    lambda case, d: {"x": (np.sqrt(L(d["x"])), np.sqrt(L(d["x"])))}, C=1,
    kinds={"x": ["pos", "poswide", "nonneg", "posints"]}, tags=("ew",))


def _pow_k(rng, case):
    e = case["sc"]["exp"]
    if e == int(e):
        return rng.choice(["pos", "poswide"]) if e < 0 else rng.choice(["normal", "ints", "pos"])
    return rng.choice(["pos", "poswide", "posints"])


def _ref_pow(case, d):
    a, e = _sc(case, "alpha"), _sc(case, "exp")
    v = a * np.power(L(d["x"]), e)
    return {"x": (v, np.abs(v))}


reg("pow", {"x": ("rw", "f")}, gen_ew(["x"], lambda r: {"alpha": r_coef(r),
    "exp": r.choice([-1.0, -1.0, 2.0, 0.5, -0.5, 0.0, 1.0, 3.0, -2.0, 1.7])}),
    lambda T, o, s, c: T.pow_async(s["alpha"], s["exp"], o["x"]), _ref_pow, C=6,
    kinds={"x": _pow_k}, tags=("ew",))


def _ref_addcdiv(case, d):
    val, eps = _sc(case, "val"), _sc(case, "eps")
    t = val * L(d["nom"]) / (L(d["denom"]) + eps)
    return {"src": (L(d["src"]) + t, np.abs(L(d["src"])) + np.abs(t))}


reg("addcdiv", {"nom": ("r", "f"), "denom": ("r", "f"), "src": ("rw", "f")},
    gen_ew(["nom", "denom", "src"], lambda r: {"val": r_coef(r), "eps": r.choice([1e-8, 1e-3, 0.5, 0.0])}),
    lambda T, o, s, c: T.addcdiv_async(s["val"], s["eps"], o["nom"], o["denom"], o["src"]),
    _ref_addcdiv, C=5, kinds={"denom": ["pos", "poswide", "posints"]}, tags=("ew",))


def _ref_hypot(case, d):
    a, b = _sc(case, "alpha"), _sc(case, "beta")
    x, y = L(d["x"]), L(d["y"])
    ay = np.abs(b * y) if b != 0 else 0 * x
    ax_ = np.abs(a * x) if a != 0 else 0 * x
    m = np.maximum(ax_, ay)
    mm = np.where(m == 0, 1, m)
    v = mm * np.sqrt((ax_ / mm) ** 2 + (ay / mm) ** 2) * (m > 0)
    return {"y": (v, v)}


reg("hypot", {"x": ("r", "f"), "y": ("rw", "f")}, gen_ew(["x", "y"], _ab),
    lambda T, o, s, c: T.hypot_async(s["alpha"], o["x"], s["beta"], o["y"]),
    _ref_hypot, C=4, over=over_beta("y"),
    kinds={"x": ["normal", "ints", "wide", "big", "small", "mixed", "sparse"],
        "y": ["normal", "ints", "wide", "big", "small", "mixed", "sparse", "zero"]},
    tags=("ew", "norm"))


def _ref_hsi(case, d):
    e, a = _sc(case, "eps"), _sc(case, "alpha")
    x = np.abs(a * L(d["x"]))
    m = np.maximum(x, e)
    v = 1 / (m * np.sqrt((x / m) ** 2 + (e / m) ** 2))
    return {"x": (v, v)}


reg("hypot_scalar_inverse", {"x": ("rw", "f")},
    gen_ew(["x"], lambda r: {"eps": r.choice([1e-5, 1e-2, 1.0, 0.3]), "alpha": r_nz(r)}),
    lambda T, o, s, c: T.hypot_scalar_inverse_async(s["eps"], s["alpha"], o["x"]),
    _ref_hsi, C=5, kinds={"x": ["normal", "ints", "wide", "big", "small", "sparse"]}, tags=("ew", "norm"))


def _gen_mask(rng):
    nm = rng.randint(1, 3)
    nb = rng.randint(0, 2)
    ms = ["m%d" % i for i in range(nm)]
    bs = ["b%d" % i for i in range(nb)]
    return {"ax": r_axes(rng, ms + bs), "opr": {"mask": ms, "x": ms + bs},
            "sc": {"val": rng.choice([0.0, 1.0, -2.5, "-inf"])}}


def _val(v):
    return float(v)


def _ref_mask(case, d):
    v = LD(NPDT[case["dt"]](_val(case["sc"]["val"])))
    m = d["mask"]
    x = L(d["x"])
    mm = m.reshape(m.shape + (1,) * (x.ndim - m.ndim))
    return {"x": (np.where(mm, x, v), 0 * x)}


reg("mask_scalar", {"mask": ("r", "b"), "x": ("rw", "f")}, _gen_mask,
    lambda T, o, s, c: T.mask_scalar_async(o["mask"], _val(s["val"]), o["x"],
        len(c["opr"]["x"]) - len(c["opr"]["mask"])), _ref_mask, C=1,
    kinds={"mask": ["half", "most", "few", "all", "none"]}, tags=("ew",))

# ---- broadcasts -------------------------------------------------------------

def gen_slice(full, part, scal, nmin=1, nmax=4, lead=None):
    def g(rng):
        names, ax = tens_axes(rng, nmin, nmax)
        axis = rng.choice(names)
        sl = [n for n in names if n != axis]
        opr = {}
        for o in full:
            opr[o] = list(names)
        for o in part:
            opr[o] = list(sl)
        if lead:
            ax[lead] = [2, 2]
            for o in part:
                opr[o] = [lead] + opr[o]
        sc = scal(rng) if scal else {}
        sc["axis"] = axis
        return {"ax": ax, "opr": opr, "sc": sc}
    return g


def gen_fiber(full, part, scal, batch=True, nmin=1, nmax=4):
    def g(rng):
        names, ax = tens_axes(rng, nmin, nmax)
        nb = rng.choice([0, 0, 1, 1, 2]) if batch else 0
        nb = min(nb, len(names) - 1)
        core = names[:len(names) - nb]
        bs = names[len(names) - nb:]
        axis = rng.choice(core)
        opr = {o: list(names) for o in full}
        for o in part:
            opr[o] = [axis] + bs
        sc = scal(rng) if scal else {}
        sc["axis"] = axis
        sc["nb"] = nb
        return {"ax": ax, "opr": opr, "sc": sc}
    return g


def exp_slice(case, d, o, full):
    """slice operand broadcast to the full tensor"""
    return np.expand_dims(L(d[o]).reshape(shape_of(case, o)), axidx(case, full, case["sc"]["axis"]))


def exp_fiber(case, d, o, full):
    ds = case["opr"][full]
    shp = [case["ax"][n][0] if n in case["opr"][o] else 1 for n in ds]
    a = L(d[o]).reshape(shape_of(case, o))
    # fiber dims are (axis, batch...) in the same relative order as in full
    return a.reshape(shp, order="F") if [n for n in ds if n in case["opr"][o]] == case["opr"][o] else None


def axv(case, o="x"):
    return axidx(case, o, case["sc"]["axis"])


def full_of(d, case, o):
    return L(d[o]).reshape(shape_of(case, o))


def _lin(alpha, s, beta, x):
    t1 = alpha * s + 0 * x if alpha != 0 else 0 * x + 0 * s
    t2 = beta * x if beta != 0 else 0 * x
    return t1 + t2, np.abs(t1) + np.abs(t2)


def r_add_slice(case, d):
    return {"x": _lin(_sc(case, "alpha"), exp_slice(case, d, "s", "x"), _sc(case, "beta"), full_of(d, case, "x"))}


reg("add_slice", {"s": ("r", "f"), "x": ("rw", "f")}, gen_slice(["x"], ["s"], _ab),
    lambda T, o, s, c: T.add_slice_async(s["alpha"], o["s"], s["beta"], o["x"], axv(c)),
    r_add_slice, C=3, over=over_beta("x"), tags=("bc",))


def r_add_slice3(case, d):
    return {"y": _lin(_sc(case, "alpha"), exp_slice(case, d, "s", "x"), _sc(case, "beta"), full_of(d, case, "x"))}


reg("add_slice3", {"s": ("r", "f"), "x": ("r", "f"), "y": ("w", "f")},
    gen_slice(["x", "y"], ["s"], _ab),
    lambda T, o, s, c: T.add_slice3_async(s["alpha"], o["s"], s["beta"], o["x"], o["y"], axv(c)),
    r_add_slice3, C=3, tags=("bc",))


def r_add_fiber(case, d):
    return {"x": _lin(_sc(case, "alpha"), exp_fiber(case, d, "s", "x"), _sc(case, "beta"), full_of(d, case, "x"))}


reg("add_fiber", {"s": ("r", "f"), "x": ("rw", "f")}, gen_fiber(["x"], ["s"], _ab),
    lambda T, o, s, c: T.add_fiber_async(s["alpha"], o["s"], s["beta"], o["x"], axv(c), s["nb"]),
    r_add_fiber, C=3, over=over_beta("x"), tags=("bc",))


def _prodref(out, ex):
    def f(case, d):
        v = _sc(case, "alpha") * ex(case, d, "s", "x") * full_of(d, case, "x")
        return {out: (v, np.abs(v))}
    return f


_al = lambda r: {"alpha": r_coef(r)}
reg("prod_slice", {"s": ("r", "f"), "x": ("rw", "f")}, gen_slice(["x"], ["s"], _al),
    lambda T, o, s, c: T.prod_slice_async(o["s"], s["alpha"], o["x"], axv(c)),
    _prodref("x", exp_slice), C=3, tags=("bc",))
reg("prod_fiber", {"s": ("r", "f"), "x": ("rw", "f")}, gen_fiber(["x"], ["s"], _al, batch=False),
    lambda T, o, s, c: T.prod_fiber_async(o["s"], s["alpha"], o["x"], axv(c)),
    _prodref("x", exp_fiber), C=3, tags=("bc",))
reg("prod_fiber3", {"s": ("r", "f"), "x": ("r", "f"), "y": ("w", "f")},
    gen_fiber(["x", "y"], ["s"], _al, batch=False),
    lambda T, o, s, c: T.prod_fiber3_async(o["s"], s["alpha"], o["x"], o["y"], axv(c)),
    _prodref("y", exp_fiber), C=3, tags=("bc",))

# ---- reductions -------------------------------------------------------------

def _acc(case, v, sc, old):
    a, b = _sc(case, "alpha"), _sc(case, "beta")
    t2 = b * old if b != 0 else 0 * old
    return a * v + t2, np.abs(a) * sc + np.abs(t2)


def _red_axes_slice(case):
    return (axidx(case, "x", case["sc"]["axis"]),)


def _red_axes_fiber(case):
    return tuple(i for i, n in enumerate(case["opr"]["x"]) if n not in case["opr"]["y"])


def _ntiles(case, axes):
    t = 1
    for i in axes:
        s, b = case["ax"][case["opr"]["x"][i]]
        t *= (s - 1) // b + 1
    return t


def _r_sum(axes):
    def f(case, d):
        x = full_of(d, case, "x")
        ra = axes(case)
        nt = _ntiles(case, ra)
        v, sc = _acc(case, x.sum(axis=ra), np.abs(x).sum(axis=ra), full_of(d, case, "y"))
        return {"y": (v, sc * (2 + nt))}
    return f


def _r_sumprod(axes):
    def f(case, d):
        x = full_of(d, case, "x") * full_of(d, case, "x2")
        ra = axes(case)
        nt = _ntiles(case, ra)
        n = np.prod([x.shape[i] for i in ra]) if ra else 1
        v, sc = _acc(case, x.sum(axis=ra), np.abs(x).sum(axis=ra), full_of(d, case, "y"))
        return {"y": (v, sc * (3 + nt + n))}
    return f


_rd = {"redux": True}
reg("sum_slice", {"x": ("r", "f"), "y": ("rw", "f")}, gen_slice(["x"], ["y"], _ab),
    lambda T, o, s, c: T.sum_slice_async(s["alpha"], o["x"], s["beta"], o["y"], axv(c), redux=c["redux"]),
    _r_sum(_red_axes_slice), C=2, over=over_beta("y"), redux=True, tags=("red",))
reg("sum_fiber", {"x": ("r", "f"), "y": ("rw", "f")}, gen_fiber(["x"], ["y"], _ab),
    lambda T, o, s, c: T.sum_fiber_async(s["alpha"], o["x"], s["beta"], o["y"], axv(c), s["nb"], redux=c["redux"]),
    _r_sum(_red_axes_fiber), C=2, over=over_beta("y"), redux=True, tags=("red",))
reg("sumprod_slice", {"x": ("r", "f"), "x2": ("r", "f"), "y": ("rw", "f")},
    gen_slice(["x", "x2"], ["y"], _ab),
    lambda T, o, s, c: T.sumprod_slice_async(s["alpha"], o["x"], o["x2"], s["beta"], o["y"], axv(c), redux=c["redux"]),
    _r_sumprod(_red_axes_slice), C=1, over=over_beta("y"), redux=True, tags=("red",))
reg("sumprod_fiber", {"x": ("r", "f"), "x2": ("r", "f"), "y": ("rw", "f")},
    gen_fiber(["x", "x2"], ["y"], _ab, batch=False),
    lambda T, o, s, c: T.sumprod_fiber_async(s["alpha"], o["x"], o["x2"], s["beta"], o["y"], axv(c), redux=c["redux"]),
    _r_sumprod(_red_axes_fiber), C=1, over=over_beta("y"), redux=True, tags=("red",))


def scaled_norm(x, axis):
    m = np.max(np.abs(x), axis=axis, keepdims=True) if x.size else 0
    mm = np.where(m == 0, 1, m)
    v = np.sqrt(((x / mm) ** 2).sum(axis=axis, keepdims=True)) * m
    return v.reshape(np.squeeze(v, axis=axis).shape) if axis is not None else v


def hyp(a, b):
    m = np.maximum(np.abs(a), np.abs(b))
    mm = np.where(m == 0, 1, m)
    return m * np.sqrt((a / mm) ** 2 + (b / mm) ** 2)


NORMK = ["normal", "ints", "wide", "big", "small", "mixed", "sparse", "zero"]


def _r_norm_slice(case, d):
    a, b = _sc(case, "alpha"), _sc(case, "beta")
    x = full_of(d, case, "x")
    ra = _red_axes_slice(case)
    v = scaled_norm(x, ra)
    old = full_of(d, case, "y")
    v = hyp(a * v, b * old if b != 0 else 0 * old)
    return {"y": (v, v * (3 + _ntiles(case, ra)))}


reg("norm_slice", {"x": ("r", "f"), "y": ("rw", "f")}, gen_slice(["x"], ["y"], _ab),
    lambda T, o, s, c: T.norm_slice_async(s["alpha"], o["x"], s["beta"], o["y"], axv(c), redux=c["redux"]),
    _r_norm_slice, C=3, over=over_beta("y"), redux=True, tags=("red", "norm"),
    kinds={"x": NORMK, "y": ["normal", "big", "small", "zero", "ints"]})


def _gen_nrm2(rng):
    names, ax = tens_axes(rng, 0, 4)
    for n in names:
        g = (ax[n][0] - 1) // ax[n][1] + 1
        ax["g" + n] = [g, 1]
    return {"ax": ax, "opr": {"x": list(names), "y": [], "tmp": ["g" + n for n in names]},
            "sc": _ab(rng)}


def _v_nrm2(case):
    for n in case["opr"]["x"]:
        s, t = case["ax"][n]
        if case["ax"].get("g" + n) != [(s - 1) // t + 1, 1]:
            return False
    return case["opr"]["tmp"] == ["g" + n for n in case["opr"]["x"]]


def _r_nrm2(case, d):
    a, b = _sc(case, "alpha"), _sc(case, "beta")
    x = L(d["x"]).reshape(-1)
    v = scaled_norm(x, (0,))
    old = L(d["y"])
    v = hyp(a * v, b * old if b != 0 else 0 * old)
    nt = np.prod(shape_of(case, "tmp")) if case["opr"]["tmp"] else 1
    return {"y": (v, v * (3 + nt + 0.5 * x.size)), "tmp": None}


_o = reg("nrm2", {"x": ("r", "f"), "y": ("rw", "f"), "tmp": ("x", "f")}, _gen_nrm2,
    lambda T, o, s, c: T.nrm2_async(s["alpha"], o["x"], s["beta"], o["y"], o["tmp"]),
    _r_nrm2, C=3, over=over_beta("y"), tags=("norm", "red"),
    kinds={"x": ["normal", "ints", "wide", "big", "small", "mixed", "sparse", "zero"],
           "y": ["normal", "big", "small", "zero", "ints"]})
_o.extra_valid = _v_nrm2


def _r_sumnorm(case, d):
    x = full_of(d, case, "x")
    ra = _red_axes_slice(case)
    v = np.stack([x.sum(axis=ra), scaled_norm(x, ra)])
    n = x.shape[ra[0]]
    sc = np.stack([np.abs(x).sum(axis=ra) * (1 + n), v[1] * (3 + n)])
    return {"y": (v, sc)}


reg("sumnorm", {"x": ("r", "f"), "y": ("w", "f")},
    gen_slice(["x"], ["y"], None, lead="two"),
    lambda T, o, s, c: T.sumnorm_async(o["x"], o["y"], axv(c)), _r_sumnorm, C=2,
    kinds={"x": ["normal", "ints", "wide", "sparse", "zero", "offset"]},
    fixed_axes=["two"], keep=["two"], tags=("red",))


def _gen_normalize(rng):
    c = gen_slice(["y"], ["x"], None, lead="two")(rng)
    c["opr"]["gb"] = ["two"]
    c["sc"]["eps"] = rng.choice([1e-5, 1e-3, 0.1, 1.0])
    c["sc"]["nseed"] = rng.randrange(1 << 30)
    return c


def _d_normalize(case, d):
    """sum/norm operand made consistent with a real source slice"""
    y = full_of(d, case, "y")
    ax_ = axidx(case, "y", case["sc"]["axis"])
    s = y.sum(axis=ax_)
    nrm = scaled_norm(y, (ax_,))
    x = np.stack([s, nrm]).astype(NPDT[case["dt"]])
    d["x"] = np.array(x.reshape(shape_of(case, "x")), order="F")


def _r_normalize(case, d):
    y = full_of(d, case, "y")
    ax_ = axidx(case, "y", case["sc"]["axis"])
    l = y.shape[ax_]
    sn = full_of(d, case, "x")
    eps = _sc(case, "eps")
    g, b = L(d["gb"])[0], L(d["gb"])[1]
    mean = sn[0] / l
    ms = sn[1] ** 2 / l
    var = np.maximum(ms - mean ** 2, 0)
    dev = np.sqrt(var + eps)
    E = lambda a: np.expand_dims(a, ax_)
    v = (y - E(mean)) / E(dev) * g + b
    # relative error of dev from cancellation: eps*ms/(var+eps)
    rel = 2 + 2 * ms / (var + eps)
    sc = np.abs(b) + np.abs(g) * (np.abs(y) + E(np.abs(mean))) / E(dev) \
        + np.abs((y - E(mean)) / E(dev) * g) * E(rel)
    # cancellation can swallow the variance: not a first-order effect
    u = EPS[case["dt"]]
    lo = np.sqrt(np.maximum(var - 8 * u * ms, 0) + eps)
    sc = sc + np.abs((y - E(mean)) * g) * E(1 / lo - 1 / dev) / (8 * u)
    return {"y": (v, sc)}


_o = reg("normalize", {"gb": ("r", "f"), "x": ("r", "f"), "y": ("rw", "f")}, _gen_normalize,
    lambda T, o, s, c: T.normalize_async(o["gb"], o["x"], o["y"],
        c["ax"][s["axis"]][0], s["eps"], axidx(c, "y", s["axis"])),
    _r_normalize, C=8, kinds={"x": ["zero"], "y": ["normal", "ints", "zero", "const", "offset", "sparse"],
        "gb": ["normal", "ints"]}, fixed_axes=["two"], keep=["two"], tags=("lnorm",))
_o.fix_data = _d_normalize

# ---- gemm -------------------------------------------------------------------

def _gen_gemm(rng):
    u = rng.random()
    nm, nn = rng.choice([(1, 1), (1, 1), (1, 2), (2, 1), (2, 2), (0, 1), (1, 0), (0, 0), (3, 1), (1, 3)])
    nk = rng.choice([1, 1, 1, 2, 2, 3])
    if rng.random() < 0.04:
        nk = 0
    nb = rng.choice([0, 0, 0, 1, 1, 2])
    M = ["m%d" % i for i in range(nm)]
    N = ["n%d" % i for i in range(nn)]
    K = ["k%d" % i for i in range(nk)]
    B = ["b%d" % i for i in range(nb)]
    ax = {}
    big = 0.15 if nm + nn + nk + nb <= 3 else 0.0
    for n in M + N + K + B:
        s = r_size(rng, big)
        if nm + nn + nk + nb > 4:
            s = min(s, rng.randint(2, 5))
        ax[n] = [s, r_tile(rng, s)]
    # bound the work and the number of tasks
    bound_axes(ax, 20000, 150)
    ta, tb = rng.randint(0, 1), rng.randint(0, 1)
    opr = {"A": ((K + M) if ta else (M + K)) + B,
           "B": ((N + K) if tb else (K + N)) + B, "C": M + N + B}
    return {"ax": ax, "opr": opr, "sc": {"alpha": r_coef(rng) if rng.random() < .7 else r_nz(rng),
        "beta": r_coef(rng), "ta": ta, "tb": tb, "nk": nk, "nb": nb}}


def _r_gemm(case, d):
    names = list(case["ax"])
    let = {n: chr(97 + i) for i, n in enumerate(names)}
    sub = ["".join(let[n] for n in case["opr"][o]) for o in "ABC"]
    A, B, C = (full_of(d, case, o) for o in "ABC")
    es = "%s,%s->%s" % tuple(sub)
    a, b = _sc(case, "alpha"), _sc(case, "beta")
    v = a * np.einsum(es, A, B)
    s = np.abs(a) * np.einsum(es, np.abs(A), np.abs(B))
    t = b * C if b != 0 else 0 * C
    K = math.prod(case["ax"][n][0] for n in names if n[0] == "k")
    return {"C": (v + t, (s + np.abs(t)) * (2 + K))}


def _v_gemm(case):
    o, s = case["opr"], case["sc"]
    K = [n for n in case["ax"] if n[0] == "k"]
    M = [n for n in case["ax"] if n[0] == "m"]
    N = [n for n in case["ax"] if n[0] == "n"]
    B = [n for n in case["ax"] if n[0] == "b"]
    return s["nk"] == len(K) and s["nb"] == len(B) and \
        o["A"] == ((K + M) if s["ta"] else (M + K)) + B and \
        o["B"] == ((N + K) if s["tb"] else (K + N)) + B and o["C"] == M + N + B


def _tr(T, f):
    return T.trans if f else T.notrans


_o = reg("gemm", {"A": ("r", "f"), "B": ("r", "f"), "C": ("rw", "f")}, _gen_gemm,
    lambda T, o, s, c: T.gemm_async(s["alpha"], _tr(T, s["ta"]), o["A"], _tr(T, s["tb"]), o["B"],
        s["beta"], o["C"], s["nk"], s["nb"], redux=c["redux"]),
    _r_gemm, C=1.5, over=over_beta("C"), redux=True, tags=("gemm",))
_o.extra_valid = _v_gemm

# ---- softmax family ----------------------------------------------------------
LOGK = ["normal", "logit", "hotlogit", "shiftlogit", "hugelogit", "masked", "masked", "maskedhot", "ints", "const"]


def _mse(x, ax_, old=None):
    """(max, sum exp(x-max)) over axis, -inf entries have no weight"""
    fin = np.isfinite(x)
    m = np.max(np.where(fin, x, -np.inf), axis=ax_)
    has = np.isfinite(m)
    m0 = np.where(has, m, 0)
    with np.errstate(under="ignore", invalid="ignore", over="ignore"):
        ex = np.where(fin, np.exp(np.where(fin, x, 0) - np.expand_dims(m0, ax_)), 0)
    s = ex.sum(axis=ax_)
    return m0, s, has


def _merge(m, s, has, om, os_):
    """merge with an old (max, sum) pair; old sum 0 = empty"""
    oh = os_ != 0
    M = np.where(has & oh, np.maximum(m, om), np.where(has, m, om))
    with np.errstate(under="ignore", invalid="ignore", over="ignore"):
        S = np.where(has, s * np.exp(np.where(has, m - M, 0)), 0) \
            + np.where(oh, os_ * np.exp(np.where(oh, om - M, 0)), 0)
    return M, S


def _r_maxsumexp(case, d):
    x = full_of(d, case, "x")
    ax_ = axidx(case, "x", case["sc"]["axis"])
    m, s, has = _mse(x, ax_)
    old = full_of(d, case, "y")
    M, S = _merge(m, s, has, old[0], old[1])
    e = EPS[case["dt"]]
    n = x.shape[ax_]
    # exp(x-M): absolute error of the difference is eps*|x-M| for terms that
    # matter (|x-M| < ~750)
    sc = S * (8 + _ntiles(case, (ax_,)) * 4 + 2 * 30)
    return {"y": (np.stack([M, S]), np.stack([0 * M, sc]))}


def _fix_mse_old(case, d):
    """previous content of the destination: empty or a valid pair"""
    y = d["y"]
    k = case["dk"]["y"][0]
    if k == "zero":
        y[...] = 0
        return
    rs = np.random.RandomState(case["dk"]["y"][1] & 0x7fffffff)
    shp = y.shape[1:]
    sc_ = 10.0 ** rs.uniform(-1, 2)
    y[0] = (rs.standard_normal(shp) * sc_).astype(y.dtype)
    y[1] = (rs.random_sample(shp) * 5 + 1).astype(y.dtype)
    emp = rs.random_sample(shp) < 0.3
    y[0] = np.where(emp, 0, y[0])
    y[1] = np.where(emp, 0, y[1])


_o = reg("maxsumexp", {"x": ("r", "f"), "y": ("rw", "f")},
    gen_slice(["x"], ["y"], None, lead="two"),
    lambda T, o, s, c: T.maxsumexp_async(o["x"], o["y"], axv(c), redux=c["redux"]),
    _r_maxsumexp, C=1, kinds={"x": LOGK, "y": ["zero", "zero", "pair"]},
    fixed_axes=["two"], keep=["two"], redux=True, tags=("smx",))
_o.fix_data = _fix_mse_old


def _gen_softmax(inplace):
    def g(rng):
        c = gen_slice(["y"] if inplace else ["x", "y"], ["mse"], lambda r: {"alpha": r_nz(r)}, lead="two")(rng)
        return c
    return g


def _fix_softmax(src):
    def f(case, d):
        x = full_of(d, case, src)
        ax_ = axidx(case, src, case["sc"]["axis"])
        m, s, has = _mse(x, ax_)
        pair = np.stack([m, s]).astype(NPDT[case["dt"]])
        d["mse"] = np.array(pair.reshape(shape_of(case, "mse")), order="F")
    return f


def _r_softmax(src):
    def f(case, d):
        x = full_of(d, case, src)
        ax_ = axidx(case, src, case["sc"]["axis"])
        E = lambda a: np.expand_dims(a, ax_)
        mse = full_of(d, case, "mse")
        m, s = E(mse[0]), E(mse[1])
        fin = np.isfinite(x)
        a = _sc(case, "alpha")
        with np.errstate(under="ignore", invalid="ignore", over="ignore", divide="ignore"):
            v = np.where(fin, a * np.exp(np.where(fin, x - m, 0)) / np.where(s == 0, 1, s), 0)
        dlt = np.where(fin, np.minimum(np.abs(x - m), 800), 0)
        tiny = float(np.finfo(NPDT[case["dt"]]).tiny)
        return {"y": (v, np.abs(v) * (6 + 2 * dlt) + tiny / EPS[case["dt"]])}
    return f


_o = reg("softmax", {"mse": ("r", "f"), "x": ("r", "f"), "y": ("w", "f")}, _gen_softmax(False),
    lambda T, o, s, c: T.softmax_async(o["mse"], o["x"], s["alpha"], o["y"], axv(c)),
    _r_softmax("x"), C=1.5, kinds={"mse": ["zero"], "x": LOGK}, fixed_axes=["two"], keep=["two"], tags=("smx",))
_o.fix_data = _fix_softmax("x")
_o = reg("softmax_inplace", {"mse": ("r", "f"), "y": ("rw", "f")}, _gen_softmax(True),
    lambda T, o, s, c: T.softmax_inplace_async(o["mse"], s["alpha"], o["y"], axv(c, "y")),
    _r_softmax("y"), C=1.5, kinds={"mse": ["zero"], "y": LOGK}, fixed_axes=["two"], keep=["two"], tags=("smx",))
_o.fix_data = _fix_softmax("y")


def _gen_lse(rng):
    names, ax = tens_axes(rng, 0, 3)
    ax["two"] = [2, 2]
    return {"ax": ax, "opr": {"x": ["two"] + names, "y": names}, "sc": {}}


def _fix_lse(case, d):
    x = d["x"]
    rs = np.random.RandomState(case["dk"]["x"][1] & 0x7fffffff)
    x[1] = (np.abs(rs.standard_normal(x.shape[1:])) * 10 ** rs.uniform(-1, 3) + 1).astype(x.dtype)


def _r_lse(case, d):
    x = full_of(d, case, "x")
    l = np.log(x[1])
    v = x[0] + l
    if not case["opr"]["y"]:
        v, l, m = v.reshape(1), np.reshape(l, (1,)), np.abs(x[0]).reshape(1)
    else:
        m = np.abs(x[0])
    return {"y": (v, np.abs(l) + m + 0 * v)}


_o = reg("logsumexp", {"x": ("r", "f"), "y": ("w", "f")}, _gen_lse,
    lambda T, o, s, c: T.logsumexp_async(o["x"], o["y"]), _r_lse, C=4,
    kinds={"x": ["normal", "ints", "wide"]}, fixed_axes=["two"], keep=["two"], tags=("smx",))
_o.fix_data = _fix_lse

# ---- losses -----------------------------------------------------------------

def _gen_labels(ops, scal):
    def g(rng):
        nd = rng.choice([1, 1, 2, 2, 3])
        names = ["d%d" % i for i in range(nd)]
        ax = r_axes(rng, names, maxel=600)
        nc = rng.choice([1, 2, 3, 5, 7, 10, 17, 33])
        ax["c"] = [nc, nc]
        opr = {}
        for o in ops:
            opr[o] = {"c": ["c"] + names, "l": names, "s": []}[ops[o]]
        return {"ax": ax, "opr": opr, "sc": scal(rng)}
    return g


def _lab(rng, case):
    return ["idx", case["ax"]["c"][0], rng.choice(["rand", "rand", "const", "edge", "perm"])]


def _fix_lab(case, d):
    n = case["ax"]["c"][0]
    k = case["dk"]["labels"]
    if k[0][1] != n:
        k[0][1] = n
    d["labels"] = make_data(k[0], k[1], shape_of(case, "labels"), "int64")


def _r_sub_idx(case, d):
    x = full_of(d, case, "dst")
    lab = d["labels"].reshape(shape_of(case, "labels"))
    v = x.copy()
    oh = np.arange(x.shape[0]).reshape((-1,) + (1,) * lab.ndim) == lab[None]
    v = x - _sc(case, "val") * oh
    return {"dst": (v, np.where(oh, np.abs(x) + np.abs(_sc(case, "val")), 0))}


_o = reg("subtract_indexed_outputs", {"labels": ("r", "i"), "dst": ("rw", "f")},
    _gen_labels({"labels": "l", "dst": "c"}, lambda r: {"val": r_coef(r)}),
    lambda T, o, s, c: T.subtract_indexed_outputs_async(s["val"], o["labels"], o["dst"]),
    _r_sub_idx, C=1, kinds={"labels": _lab}, keep=["c"], tags=("loss",))
_o.fix_data = _fix_lab


def _r_tsa(case, d):
    x = full_of(d, case, "src")
    lab = d["labels"].reshape(shape_of(case, "labels"))
    lse = full_of(d, case, "lse")
    pick = np.take_along_axis(x, lab[None], axis=0)[0]
    a = _sc(case, "alpha")
    t = a * (lse - pick)
    v = L(d["val"]) + t.sum()
    sc = np.abs(L(d["val"])) + (np.abs(a) * (np.abs(lse) + np.abs(pick))).sum()
    return {"val": (v, sc * (3 + t.size))}


_o = reg("total_sum_accum", {"lse": ("r", "f"), "src": ("r", "f"), "labels": ("r", "i"), "val": ("rw", "f")},
    _gen_labels({"lse": "l", "src": "c", "labels": "l", "val": "s"}, lambda r: {"alpha": r_coef(r)}),
    lambda T, o, s, c: T.total_sum_accum_async(s["alpha"], o["lse"], o["src"], o["labels"], o["val"]),
    _r_tsa, C=1, kinds={"labels": _lab}, keep=["c"], tags=("loss",))
_o.fix_data = _fix_lab

# ---- data movement ------------------------------------------------------------
reg("copy", {"x": ("r", "f"), "y": ("w", "f")}, gen_ew(["x", "y"]),
    lambda T, o, s, c: T.copy_async(o["x"], o["y"]),
    lambda case, d: {"y": (L(d["x"]), 0 * L(d["x"]))}, C=1, tags=("mv",))


def _gen_transpose(rng):
    names, ax = tens_axes(rng, 2, 5)
    nd = rng.randint(1, len(names) - 1)
    return {"ax": ax, "opr": {"x": names, "y": names[nd:] + names[:nd]},
            "sc": {"alpha": r_nz(rng), "nd": nd}}


def _r_transpose(case, d):
    x = full_of(d, case, "x")
    nd = case["sc"]["nd"]
    p = list(range(nd, x.ndim)) + list(range(nd))
    v = _sc(case, "alpha") * np.transpose(x, p)
    return {"y": (v, np.abs(v))}


_o = reg("transpose", {"x": ("r", "f"), "y": ("w", "f")}, _gen_transpose,
    lambda T, o, s, c: T.transpose_async(s["alpha"], o["x"], o["y"], s["nd"]),
    _r_transpose, C=1, tags=("mv",))
_o.extra_valid = lambda c: len(c["opr"]["x"]) >= 2 and 0 < c["sc"]["nd"] < len(c["opr"]["x"]) and \
    c["opr"]["y"] == c["opr"]["x"][c["sc"]["nd"]:] + c["opr"]["x"][:c["sc"]["nd"]]

# ---- embedding ------------------------------------------------------------------

def _gen_embed(rng):
    ni = rng.choice([1, 1, 2, 2, 3])
    I = ["i%d" % j for j in range(ni)]
    ax = r_axes(rng, I, maxel=200, maxtiles=24)
    es = r_size(rng, 0.05)
    et = r_tile(rng, es, over=False)
    div = [q for q in range(1, et + 1) if et % q == 0]
    vt = rng.choice(div)
    vn = rng.choice([1, 2, 3, 5, 9, 20])
    if rng.random() < 0.03:
        vn = rng.choice([300, 5000, 33000, 70000]) // (es if es > 3 else 1) + 1
    ax["e"] = [es, et]          # embedding direction in the output
    ax["ve"] = [es, vt]         # the same direction in the vocabulary
    ax["v"] = [vn, vn]
    pos = rng.randint(0, ni)
    return {"ax": ax, "opr": {"index": I, "vocab": ["ve", "v"], "embed": I[:pos] + ["e"] + I[pos:]},
            "sc": {"axis": "e"}}


def _v_embed(case):
    ax = case["ax"]
    return ax["e"][0] == ax["ve"][0] and ax["e"][1] % ax["ve"][1] == 0 and \
        ax["v"][0] == ax["v"][1] and ax["e"][1] <= max(ax["e"][0], ax["e"][1]) and \
        [n for n in case["opr"]["embed"] if n != "e"] == case["opr"]["index"] and \
        len(case["opr"]["index"]) >= 1


def _eidx(rng, case):
    return ["idx", case["ax"]["v"][0], rng.choice(["rand", "rand", "const", "edge", "perm"])]


def _fix_eidx(case, d):
    k = case["dk"]["index"]
    k[0][1] = case["ax"]["v"][0]
    d["index"] = make_data(k[0], k[1], shape_of(case, "index"), "int64")


def _r_embed(case, d):
    idx = d["index"].reshape(shape_of(case, "index"))
    v = full_of(d, case, "vocab")[:, idx]      # (e, I...)
    pos = axidx(case, "embed", "e")
    v = np.moveaxis(v, 0, pos)
    return {"embed": (v, 0 * v)}


_o = reg("embedding", {"index": ("r", "i"), "vocab": ("r", "f"), "embed": ("w", "f")}, _gen_embed,
    lambda T, o, s, c: T.embedding_async(o["index"], o["vocab"], o["embed"], axidx(c, "embed", "e")),
    _r_embed, C=1, kinds={"index": _eidx}, keep=["e", "ve", "v"], fixed_axes=["ve"], tags=("emb",))
_o.fix_data = _fix_eidx
_o.extra_valid = _v_embed


def _r_embed_b(case, d):
    idx = d["index"].reshape(-1)
    pos = axidx(case, "embed", "e")
    g = np.moveaxis(full_of(d, case, "embed"), pos, 0).reshape(case["ax"]["e"][0], -1)
    voc = full_of(d, case, "vocab")
    v, s = voc.copy(), np.abs(voc)
    cnt = np.zeros(voc.shape[1], dtype=LD)
    for j, t in enumerate(idx):
        v[:, t] += g[:, j]
        s[:, t] += np.abs(g[:, j])
        cnt[t] += 1
    return {"vocab": (v, s * cnt[None, :])}


_o = reg("embedding_backward", {"index": ("r", "i"), "embed": ("r", "f"), "vocab": ("rw", "f")}, _gen_embed,
    lambda T, o, s, c: T.embedding_backward_async(o["index"], o["embed"], o["vocab"], axidx(c, "embed", "e"), redux=c["redux"]),
    _r_embed_b, C=1, kinds={"index": _eidx}, keep=["e", "ve", "v"], fixed_axes=["ve"], redux=True, tags=("emb",))
_o.fix_data = _fix_eidx
_o.extra_valid = _v_embed

# ---- fused optimizer steps ----------------------------------------------------------

def _adam_sc(rng):
    return {"it": rng.choice([1, 1, 2, 3, 10, 1000]), "b1": rng.choice([0.9, 0.5, 0.0, 0.99]),
        "b2": rng.choice([0.999, 0.9, 0.5]), "eps": rng.choice([1e-8, 1e-4]),
        "lr": rng.choice([1e-3, 0.1]), "wd": rng.choice([0.0, 0.1, 1.0])}


def adam_ref(p, g, m, s, it, b1, b2, eps, lr, wd, w):
    """reference update (s = sqrt of second moment)"""
    if wd != 0:
        if w:
            p = p * (1 - lr * wd)
        else:
            g = g + wd * p
    if it == 1:
        m = (1 - b1) * g
        s = np.sqrt(1 - b2) * np.abs(g)
    else:
        m = b1 * m + (1 - b1) * g
        s = np.sqrt(b2 * s * s + (1 - b2) * g * g)
    den = s / np.sqrt(1 - b2 ** it) + eps
    p2 = p - lr / (1 - b1 ** it) * m / den
    return p2, m, s


def _r_adam(w):
    def f(case, d):
        sc = case["sc"]
        c = lambda k: _sc(case, k)
        p, g, m, s = (L(d[k]) for k in ("p", "g", "m", "s"))
        p2, m2, s2 = adam_ref(p, g, m, s, sc["it"], c("b1"), c("b2"), c("eps"), c("lr"), c("wd"), w)
        gg = np.abs(g) + np.abs(c("wd") * p)
        cond = 1 / (1 - c("b2") ** sc["it"]) + 1 / (1 - c("b1") ** sc["it"]) + 4
        mden = s2 / np.sqrt(1 - c("b2") ** sc["it"]) + c("eps")
        stp = c("lr") / (1 - c("b1") ** sc["it"]) * (np.abs(m2) + np.abs(gg) + (np.abs(m) if sc["it"] > 1 else 0)) / mden
        es = gg + (np.abs(s) if sc["it"] > 1 else 0)
        ms = gg + (np.abs(m) if sc["it"] > 1 else 0)
        ps = np.abs(p) + stp * cond * (1 + es / (mden))
        return {"p": (p2, ps), "m": (m2, ms), "s": (s2, es * (1 / (1 - c("b2"))))}
    return f


def _over_adam(case):
    return {"m", "s"} if case["sc"]["it"] == 1 else set()


for _nm, _w in (("adam_step", False), ("adamw_step", True)):
    reg(_nm, {"p": ("rw", "f"), "g": ("r", "f"), "m": ("rw", "f"), "s": ("rw", "f")},
        gen_ew(["p", "g", "m", "s"], _adam_sc),
        (lambda fn: lambda T, o, s, c: getattr(T, fn)(o["p"], o["g"], o["m"], o["s"], s["lr"], s["eps"],
            s["b1"], s["b2"], s["wd"], s["it"]))("fused_" + _nm),
        _r_adam(_w), C=6, kinds={"p": ["normal", "ints"], "g": ["normal", "ints", "sparse"],
            "m": ["normal", "zero"], "s": ["pos", "nonneg"]}, over=_over_adam, tags=("opt",))


# ---- flash attention -------------------------------------------------------
# axes: h head size (one tile), s sequence of keys, gs the same for queries, b batch, n heads; tiles divide the sizes

def _gen_flash(rng):
    ax = {"h": None}
    h = rng.choice([1, 2, 2, 3, 4, 5, 8])
    ax["h"] = [h, h]
    for n, q in (("s", [1, 2, 3, 4, 4, 6, 6, 8, 9]), ("b", [1, 1, 2, 3]), ("n", [1, 1, 2, 4])):
        z = rng.choice(q)
        ax[n] = [z, rng.choice([t for t in range(1, z + 1) if z % t == 0])]
    ax["gs"], ax["two"] = list(ax["s"]), [2, 2]
    if rng.random() < 0.06:
        ax["s"] = ax["gs"] = [24, rng.choice([8, 12, 24])]
        ax["h"] = [16, 16]
    o = {k: ["h", "s", "b", "n"] for k in ("K", "V", "dK", "dV")}
    o.update({k: ["h", "gs", "b", "n"] for k in ("Q", "dQ", "dst")})
    o["mask"], o["mse"] = ["s", "gs"], ["two", "gs", "b", "n"]
    o["tmp"] = o["tmpg"] = ["s", "gs", "b", "n"]
    o["ss"] = ["gs", "b", "n"]
    return {"ax": ax, "opr": o, "sc": {}}


def _valid_flash(case):
    ax = case["ax"]
    return ax["s"] == ax["gs"] and ax["h"][0] == ax["h"][1] and all(a[0] % a[1] == 0 for a in ax.values())


def _flash_scores(case, d):
    """scores, their absolute error (in eps) and the mask"""
    k, q = full_of(d, case, "K"), full_of(d, case, "Q")
    H = k.shape[0]
    r = 1 / np.sqrt(LD(H))
    A = np.einsum("hkbn,hqbn->kqbn", k, q) * r
    E = np.einsum("hkbn,hqbn->kqbn", np.abs(k), np.abs(q)) * r * (H + 4)
    m = d["mask"].reshape(case["ax"]["s"][0], -1)[:, :, None, None]
    return A, E, np.broadcast_to(m, A.shape)


def _fix_flash(case, d):
    m = d["mask"]
    n = m.shape[0]
    rs = np.random.RandomState(case["dk"]["mask"][1] & 0x7fffffff)
    m[rs.randint(0, n, size=n), np.arange(n)] = True
    if case["op"] == "flash_maxsumexp":
        c = {"dk": {"y": case["dk"]["mse"]}}
        _fix_mse_old(c, {"y": d["mse"]})
        return
    A, E, M = _flash_scores(case, d)
    a, s, has = _mse(np.where(M, A, -np.inf), 0)
    d["mse"][0], d["mse"][1] = a.astype(d["mse"].dtype), s.astype(d["mse"].dtype)
    if case["op"] == "flash_softmax_gemm_backward":
        d["ss"][...] = 0


def _flash_probs(case, d):
    A, E, M = _flash_scores(case, d)
    mx, sm = full_of(d, case, "mse")
    with np.errstate(over="ignore", under="ignore", invalid="ignore"):
        P = np.where(M, np.exp(A - mx[None]) / sm[None], 0)
    return P, P * (12 + E + 2 * np.abs(np.where(M, A - mx[None], 0)))


def _r_flash_mse(case, d):
    A, E, M = _flash_scores(case, d)
    m, s, has = _mse(np.where(M, A, -np.inf), 0)
    old = full_of(d, case, "mse")
    X, S = _merge(m, s, has, old[0], old[1])
    e = np.max(np.where(M, E, 0), axis=0)
    with np.errstate(over="ignore", under="ignore", invalid="ignore"):
        w = np.where(M, np.exp(np.where(M, A - X[None], 0)) * (4 * E + 2 * np.abs(A - X[None])), 0).sum(axis=0)
    tiles = _ntiles(case, (1,)) if False else case["ax"]["s"][0]
    return {"mse": (np.stack([X, S]), np.stack([e + 1 + 0 * X, w + S * (12 + 4 * tiles + 4 * e)]))}


def _r_flash_sg(case, d):
    P, sP = _flash_probs(case, d)
    v = full_of(d, case, "V")
    return {"dst": (np.einsum("hkbn,kqbn->hqbn", v, P), np.einsum("hkbn,kqbn->hqbn", np.abs(v), sP + P * (v.shape[1] + 4)))}


def _r_flash_back(case, d):
    P, sP = _flash_probs(case, d)
    k, q, v, g = (full_of(d, case, o) for o in ("K", "Q", "V", "dst"))
    H, n = k.shape[0], k.shape[1]
    r = 1 / np.sqrt(LD(H))
    ab = np.abs
    dV = np.einsum("hqbn,kqbn->hkbn", g, P)
    sdV = np.einsum("hqbn,kqbn->hkbn", ab(g), sP + P * (n + 4))
    dP = np.einsum("hkbn,hqbn->kqbn", v, g)
    aP = np.einsum("hkbn,hqbn->kqbn", ab(v), ab(g))
    sdP = aP * (H + 4)
    ss = (P * dP).sum(axis=0)
    sss = (sP * aP + P * sdP + P * aP * (n + 6)).sum(axis=0)
    dA = P * (dP - ss[None])
    sdA = sP * (ab(dP) + ab(ss[None])) + P * (sdP + sss[None] + 2 * aP + 2 * ab(ss[None]))
    sA = sdA + ab(dA) * (n + 6)
    return {"dV": (dV, sdV), "ss": (ss, sss),
        "dQ": (np.einsum("hkbn,kqbn->hqbn", k, dA) * r, np.einsum("hkbn,kqbn->hqbn", ab(k), sA) * r),
        "dK": (np.einsum("hqbn,kqbn->hkbn", q, dA) * r, np.einsum("hqbn,kqbn->hkbn", ab(q), sA) * r)}


def _reg_flash(name, roles, call, ref, C):
    def g(rng):
        c = _gen_flash(rng)
        c["opr"] = {o: c["opr"][o] for o in roles}
        if "two" not in sum(c["opr"].values(), []):
            del c["ax"]["two"]
        return c
    f = ["normal", "normal", "ints", "sparse"]
    kinds = {o: f for o in roles if roles[o] == ("r", "f")}
    kinds.update({"mask": ["half", "most", "few", "all"], "mse": ["zero", "zero", "pair"], "ss": ["zero"]})
    o = reg(name, roles, g, call, ref, C=C, kinds=kinds, fixed_axes=["two", "gs"], keep=["h", "s", "gs", "b", "n"], tags=("flash",))
    o.extra_valid = _valid_flash
    o.fix_data = _fix_flash
    o.standalone = True


_reg_flash("flash_maxsumexp", {"Q": ("r", "f"), "K": ("r", "f"), "mask": ("r", "b"), "mse": ("rw", "f"), "tmp": ("x", "f")},
    lambda T, o, s, c: T.flash_maxsumexp_async(o["Q"], o["K"], o["mask"], o["mse"], o["tmp"], redux=c["redux"]), _r_flash_mse, 4)
_reg_flash("flash_softmax_gemm", {"Q": ("r", "f"), "K": ("r", "f"), "V": ("r", "f"), "mask": ("r", "b"), "mse": ("r", "f"), "dst": ("w", "f"),
    "tmp": ("x", "f")}, lambda T, o, s, c: T.flash_softmax_gemm_async(o["Q"], o["K"], o["V"], o["mask"], o["mse"], o["dst"], o["tmp"],
    redux=c["redux"]), _r_flash_sg, 4)
_reg_flash("flash_softmax_gemm_backward", {"Q": ("r", "f"), "dQ": ("w", "f"), "K": ("r", "f"), "dK": ("w", "f"), "V": ("r", "f"), "dV": ("w", "f"),
    "mask": ("r", "b"), "mse": ("r", "f"), "dst": ("r", "f"), "tmp": ("x", "f"), "tmpg": ("x", "f"), "ss": ("rw", "f")},
    lambda T, o, s, c: T.flash_softmax_gemm_backward_async(o["Q"], o["dQ"], o["K"], o["dK"], o["V"], o["dV"], o["mask"], o["mse"], o["dst"],
    o["tmp"], o["tmpg"], o["ss"], redux=c["redux"]), _r_flash_back, 4)


def by_tag(*tags):
    return [n for n, o in OPS.items() if set(o.tags) & set(tags)]


def valid(case):
    op = OPS.get(case.get("op"))
    if op is None or not op.valid(case):
        return False
    ex = getattr(op, "extra_valid", None)
    try:
        if ex and not ex(case):
            return False
        a = case["sc"].get("axis")
        if a is not None and a not in case["ax"]:
            return False
        if "nb" in case["sc"] and case["op"] != "gemm":
            x = case["opr"]["x"]
            y = case["opr"]["y" if case["op"] in ("sum_fiber", "sumprod_fiber") else "s"]
            nb = case["sc"]["nb"]
            if nb < 0 or nb >= len(x) or y != [a] + x[len(x) - nb:] or a in x[len(x) - nb:]:
                return False
        return True
    except Exception:
        return False


def prepare(case):
    """input arrays of a case"""
    op = OPS[case["op"]]
    d = op.data(case)
    sh = shared(case)
    if sh:
        d[sh[1]] = d[sh[0]].copy(order="F")
    f = getattr(op, "fix_data", None)
    if f:
        f(case, d)
    return d


def shared(case):
    """the pair of read-only operands that are one tensor in this case, or None (the shapes must be equal)"""
    sh = case.get("share")
    if not sh:
        return None
    op = OPS[case["op"]]
    a, b = sh
    if shape_of(case, a) != shape_of(case, b) or tile_of(case, a) != tile_of(case, b) or op.elt(case, a) != op.elt(case, b):
        return None
    return sh


def share_some(rng, case):
    """let two read-only operands be the same tensor, if there are such of equal shape (gemm: make the shapes equal)"""
    import itertools
    op = OPS[case["op"]]
    r = [o for o, (role, el) in op.roles.items() if role == "r" and el == "f"]
    pairs = list(itertools.combinations(r, 2))
    rng.shuffle(pairs)
    for a, b in pairs:
        if a not in op.kinds and b in op.kinds:
            a, b = b, a
        if b in op.kinds:
            continue
        if case["op"] == "gemm":
            x, y = case["opr"][a], case["opr"][b]
            if len(x) != len(y):
                continue
            for _ in range(4):
                for n, m in zip(x, y):
                    if n != m:
                        case["ax"][m] = list(case["ax"][n])
        case["share"] = [a, b]
        if shared(case):
            return
        case.pop("share")


def shrinks(case):
    """smaller variants of an operation case"""
    import copy
    op = OPS[case["op"]]
    for n in list(case["ax"]):
        if n in op.keep or n in op.fixed_axes or n == case["sc"].get("axis"):
            continue
        c = copy.deepcopy(case)
        del c["ax"][n]
        c["ax"].pop("g" + n, None)
        for o in c["opr"]:
            c["opr"][o] = [k for k in c["opr"][o] if k not in (n, "g" + n)]
        if n[0] == "k" and "nk" in c["sc"]:
            c["sc"]["nk"] -= 1
        if n[0] == "b" and case["op"] == "gemm":
            c["sc"]["nb"] -= 1
        elif "nb" in c["sc"] and case["op"] != "gemm":
            x = case["opr"]["x"]
            if n in x[len(x) - c["sc"]["nb"]:]:
                c["sc"]["nb"] -= 1
        if "nd" in c["sc"]:
            i = case["opr"]["x"].index(n)
            if i < c["sc"]["nd"]:
                c["sc"]["nd"] -= 1
        yield c
    for n, (s, t) in case["ax"].items():
        if n in op.fixed_axes or n.startswith("g"):
            continue
        opts = []
        for s2 in (1, 2, s // 2, s - 1):
            if 1 <= s2 < s:
                for t2 in (s2, 1, min(t, s2)):
                    opts.append([s2, t2])
        for t2 in (s, (s + 1) // 2):
            if t2 != t and t2 > t or t > s and t2 == s:
                opts.append([s, t2])
        for o in opts:
            c = copy.deepcopy(case)
            c["ax"][n] = o
            if "g" + n in c["ax"]:
                c["ax"]["g" + n] = list(o) if getattr(op, "standalone", 0) else [(o[0] - 1) // o[1] + 1, 1]
            if n == "e":
                c["ax"]["ve"] = [o[0], 1]
            if n in ("c", "v"):
                c["ax"][n] = [o[0], o[0]]
            yield c
    for k, v in case["sc"].items():
        if isinstance(v, float):
            for v2 in (0.0, 1.0):
                if v != v2 and not (k in ("eps", "lr", "b1", "b2")):
                    c = copy.deepcopy(case)
                    c["sc"][k] = v2
                    yield c
    for k in ("redux", "sync", "batch", "share"):
        if case.get(k):
            c = copy.deepcopy(case)
            c[k] = 0
            yield c
    if case["dt"] != "fp32":
        c = copy.deepcopy(case)
        c["dt"] = "fp32"
        yield c
    for o, (k, sd) in case["dk"].items():
        if isinstance(k, str) and k not in ("ints", "zero", "pair", "half", "one") and \
                op.elt(case, o) in ("fp32", "fp64") and o not in op.kinds:
            c = copy.deepcopy(case)
            c["dk"][o][0] = "ints"
            yield c
