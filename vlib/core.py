"""Execution environment of a check: one process, one runtime configuration."""
import ctypes, json, os, sys
import numpy as np

from . import build, ops
from .ops import Violation, Invalid, EPS, NPDT, LD

np.seterr(all="ignore")


class Fail(Violation):
    """A violation with a category used to keep shrinking on one failure."""
    def __init__(self, kind, msg):
        super().__init__("%s: %s" % (kind, msg))
        self.kind = kind
        self.msg = msg


def runtime_env(cfg):
    """environment variables of a worker process"""
    e = build.base_env()
    e.update(STARPU_SCHED_LIB=os.path.join(build.BUILD, "libvsched.so"),
        STARPU_SCHED="vrand", STARPU_SILENT="1", STARPU_FXT_TRACE="0",
        STARPU_WORKERS_NOBIND="1", STARPU_MAIN_THREAD_NOBIND="1",
        OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
        CUDA_VISIBLE_DEVICES="", MALLOC_PERTURB_=str(cfg.get("perturb", 1)),
        PYTHONHASHSEED="0", TMPDIR=os.environ.get("TMPDIR", "/tmp"),
        TRANSFORMERS_OFFLINE="1", HF_HUB_OFFLINE="1",
        PYTHONPATH=build.VERIF + ":" + build.py_dir(cfg.get("flavour", "plain")))
    if cfg.get("nocache"):
        e["STARPU_USE_ALLOCATION_CACHE"] = "0"
    e.pop("MALLOC_PERTURB_", None) if not cfg.get("perturb", 1) else None
    if cfg.get("flavour") == "asan":
        import subprocess
        def lib(n):
            return subprocess.run(["gcc", "-print-file-name=" + n], env=e,
                stdout=subprocess.PIPE).stdout.decode().strip()
        e.pop("MALLOC_PERTURB_", None)
        e["LD_PRELOAD"] = lib("libasan.so") + " " + lib("libstdc++.so")
        e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:" \
            "detect_stack_use_after_return=0:allocator_may_return_null=1:" \
            "max_malloc_fill_size=1000000:malloc_fill_byte=254:handle_segv=1"
        e["UBSAN_OPTIONS"] = "halt_on_error=1:print_stacktrace=1:exitcode=98"
    return e


class Env:
    def __init__(self, cfg):
        self.cfg = cfg
        import nntile
        self.nn = nntile
        self.T = nntile.tensor
        self.vs = ctypes.CDLL(os.path.join(build.BUILD, "libvsched.so"))
        self.vs.vs_errmsg.restype = ctypes.c_char_p
        self.vs.vs_seed.argtypes = [ctypes.c_uint64]
        self.vs.vs_config(cfg.get("policy", 1), cfg.get("monitor", 0),
            cfg.get("delay", 0))
        self.vs.vs_seed(cfg.get("sseed", 1))
        self.config = nntile.starpu.Config(cfg.get("ncpu", 1), 0, 0)
        nntile.starpu.init()
        T = self.T
        self.cls = {"fp32": T.Tensor_fp32, "fp64": T.Tensor_fp64,
            "int64": T.Tensor_int64, "bool": T.Tensor_bool}
        self.live = []

    # -- schedule control ---------------------------------------------------
    def sched(self, seed):
        self.vs.vs_seed(seed & 0xffffffffffffffff)

    def stats(self):
        a = (ctypes.c_ulong * 6)()
        self.vs.vs_stats(a)
        return dict(zip(("tasks", "nonfifo_picks", "multi_ready_picks",
            "max_ready", "readonly_checks", "poisoned_buffers"), list(a)))

    def mon_errors(self):
        if self.vs.vs_errors():
            m = self.vs.vs_errmsg().decode()
            self.vs.vs_clear()
            return m
        return None

    # -- tensors ------------------------------------------------------------
    def tensor(self, shape, tile, dt, array=None):
        tr = self.T.TensorTraits(list(shape), list(tile))
        t = self.cls[dt](tr, [0] * tr.grid.nelems, 0)
        self.live.append(t)
        if array is not None:
            self.put(t, array)
        return t

    def put(self, t, array):
        a = np.asfortranarray(array)
        if a.ndim == 0:
            a = a.reshape(1)
        t.from_array(a)

    def get(self, t, dt=None):
        if dt is None:
            dt = self.dt_of(t)
        shp = tuple(t.shape) if len(t.shape) else (1,)
        # a sentinel fill, so that elements that are not written are noticed
        out = np.zeros(shp, dtype=NPDT[dt], order="F")
        if dt in ("fp32", "fp64"):
            out.fill(np.nan)
        t.to_array(out)
        return out

    def dt_of(self, t):
        for k, c in self.cls.items():
            if isinstance(t, c):
                return k
        raise Invalid("tensor type")

    def cleanup(self):
        for t in self.live:
            try:
                t.unregister()
            except Exception:
                pass
        self.live = []

    def reset(self):
        """after an exception in the middle of a case"""
        try:
            self.nn.starpu.resume()
        except Exception:
            pass
        self.cleanup()


# --------------------------------------------------------------------------

def fmt_idx(i):
    return "[" + ",".join(str(int(k)) for k in i) + "]"


def compare(name, got, ref, scale, dt, C, where=None):
    """|got-ref| <= C*eps*scale, elementwise; raises Fail"""
    e = EPS[dt]
    fi = np.finfo(NPDT[dt])
    shp = got.shape
    r = np.asarray(ref, dtype=LD)
    s = np.asarray(scale, dtype=LD)
    if r.size != got.size:
        raise Invalid("reference has wrong size for " + name)
    r = r.reshape(shp)
    s = np.broadcast_to(s.reshape(shp) if s.size == got.size else s, shp)
    g = got.astype(LD)
    tol = C * e * s + 2 * LD(fi.tiny)
    with np.errstate(all="ignore"):
        fin = np.isfinite(r)
        over = np.abs(r) + tol > LD(fi.max)          # may round to infinity
        bad = np.where(fin, ~(np.abs(g - r) <= tol),
            ~((g == r) | (np.isnan(r) & np.isnan(g))))
        okover = over & fin & ((np.abs(g) >= LD(fi.max) / 4) & (np.sign(g) == np.sign(r)))
        bad &= ~okover
        bad &= ~(fin & ~np.isfinite(tol))            # tolerance not defined
    if where is not None:
        bad = bad & where
    if bad.any():
        i = tuple(np.argwhere(bad)[0])
        n = int(bad.sum())
        gv, rv = got[i], float(r[i])
        kind = "nan" if np.isnan(gv) and np.isfinite(r[i]) else "value"
        raise Fail(kind, "%s%s = %r, expected %r (tolerance %.3g; %d of %d elements wrong)"
            % (name, fmt_idx(i), float(gv), rv, float(tol[i]), n, got.size))


def same_bits(a, b):
    return a.shape == b.shape and a.dtype == b.dtype and \
        np.ascontiguousarray(a).tobytes() == np.ascontiguousarray(b).tobytes()


def first_diff(a, b):
    av = np.ascontiguousarray(a).view(np.uint8).reshape(a.shape + (a.itemsize,))
    bv = np.ascontiguousarray(b).view(np.uint8).reshape(b.shape + (b.itemsize,))
    d = (av != bv).any(axis=-1)
    i = tuple(np.argwhere(d)[0])
    return "%s: %r vs %r (%d of %d elements differ)" % (fmt_idx(i), a[i], b[i],
        int(d.sum()), a.size)


def set_redux(op, case, tens):
    """concurrent reduction needs the combining operation to be declared on the
    destination first, as every layer of the library does"""
    if not case.get("redux"):
        return
    for o, (role, el) in op.roles.items():
        if role == "rw":
            k = {"norm_slice": "hypot", "maxsumexp": "maxsumexp"}.get(op.name, "add")
            getattr(tens[o], "set_reduction_" + k)()


class Blocking:
    """stands for nntile_core.tensor: every asynchronous function is replaced by its blocking form of the same type"""
    def __init__(self, m):
        self._m = m
        self.blocking = self.other = 0

    def __getattr__(self, n):
        if "_async" in n:
            b = n.replace("_async", "", 1)
            if hasattr(self._m, b):
                self.blocking += 1
                return getattr(self._m, b)
            self.other += 1
        return getattr(self._m, n)


class blocking:
    """with blocking(env): functions of nntile.tensor wait for what they submit (where the module reaches the C++ functions in
    another way than through core_tensor, this has no effect and nothing is concluded)"""
    def __init__(self, env):
        self.env = env

    def __enter__(self):
        self.old = getattr(self.env.T, "core_tensor", None)
        if self.old is not None:
            self.new = Blocking(self.old)
            self.env.T.core_tensor = self.new

    def __exit__(self, et, ev, tb):
        if self.old is None:
            return
        self.env.T.core_tensor = self.old
        if et is None and self.new.blocking and not self.new.other:
            n = nsubmitted()
            if n:
                raise Fail("blocking", "%d tasks are not finished after the blocking call returned" % n)


class Strict(Blocking):
    """every blocking form is followed at once by a look at the tasks in flight"""
    def __init__(self, m, env):
        Blocking.__init__(self, m)
        self._env = env

    def __getattr__(self, n):
        f = Blocking.__getattr__(self, n)
        if "_async" not in n or not hasattr(self._m, n.replace("_async", "", 1)):
            return f

        def call(*a, **k):
            r = f(*a, **k)
            t = nsubmitted()
            self._env.nblocking += 1
            if t:
                raise Fail("blocking", "%d tasks are not finished after the blocking %s returned" % (t, n.replace("_async", "", 1)))
            return r
        return call


_so = []


def starpu_lib():
    if not _so:
        p = [l.split()[-1] for l in open("/proc/self/maps") if "/libstarpu-" in l][0]
        _so.append(ctypes.CDLL(p))
    return _so[0]


def nsubmitted():
    return starpu_lib().starpu_task_nsubmitted()


def run_op(env, case, data, check_inputs=False, batch=False):
    """execute one catalogue operation, return {operand: array after}"""
    op = ops.OPS[case["op"]]
    tens = {}
    sh = ops.shared(case)
    for o in op.roles:
        if sh and o == sh[1] and sh[0] in tens:
            tens[o] = tens[sh[0]]
            continue
        if sh and o == sh[0] and sh[1] in tens:
            tens[o] = tens[sh[1]]
            continue
        tens[o] = env.tensor(ops.shape_of(case, o), ops.tile_of(case, o),
            op.elt(case, o), data[o])
    set_redux(op, case, tens)
    if batch:
        env.nn.starpu.pause()
        try:
            op.call(env.T, tens, case["sc"], case)
        finally:
            env.nn.starpu.resume()
    elif case.get("sync"):
        with blocking(env):
            op.call(env.T, tens, case["sc"], case)
    else:
        op.call(env.T, tens, case["sc"], case)
    return {o: env.get(t, op.elt(case, o)) for o, t in tens.items()}


def check_op(env, case):
    """value check of one catalogue operation against its reference"""
    op = ops.OPS[case["op"]]
    data = ops.prepare(case)
    ref = op.ref(case, {k: v.copy(order="F") for k, v in data.items()})
    got = run_op(env, case, data, batch=bool(case.get("batch")))
    env.cleanup()
    for o, r in ref.items():
        if r is None:
            continue
        compare(case["op"] + ":" + o, got[o], r[0], r[1], case["dt"], op.C)
    return data, got, ref


def op_labels(case):
    """classification used in evidence files"""
    ax = case["ax"]
    mt = [n for n, a in ax.items() if a[1] < a[0]]
    ragged = [n for n, a in ax.items() if a[0] % a[1]]
    lab = ["op=" + case["op"], case["dt"]]
    if mt:
        lab.append("multi-tile")
    if ragged:
        lab.append("ragged-last-tile")
    if any(a[1] > a[0] for a in ax.values()):
        lab.append("tile-larger-than-tensor")
    if case.get("redux"):
        lab.append("redux")
    if case.get("sync"):
        lab.append("blocking form")
    if ops.shared(case):
        lab.append("one tensor as two inputs")
    if "beta" in case["sc"]:
        lab.append("beta=%s" % ({0.0: "0", 1.0: "1"}.get(case["sc"]["beta"], "other")))
    if "alpha" in case["sc"]:
        lab.append("alpha=%s" % ({0.0: "0", 1.0: "1"}.get(case["sc"]["alpha"], "other")))
    for k, v in case["dk"].items():
        if isinstance(v[0], str) and v[0] in ("extreme", "big", "small", "mixed", "masked", "maskedhot", "hugelogit"):
            lab.append("data=" + v[0])
    return lab


def op_nontrivial(case):
    """an operation case is non-trivial when some operand has several tiles
    and more than one element"""
    ax = case["ax"]
    return any(a[1] < a[0] for a in ax.values())
