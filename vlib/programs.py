"""Random programs of asynchronous operations over shared tensors."""
import copy, math
import numpy as np
from . import core, ops
from .core import Fail, Invalid

# exact on small integers whatever the order of summation
EXACT = ["fill", "clear", "add", "axpy", "axpy_t", "prod", "maximum", "add_scalar", "scal", "scal_inplace", "relu", "relu_forward", "relu_backward",
    "drelu", "copy", "transpose", "add_slice", "add_slice3", "add_fiber", "prod_slice", "prod_fiber", "prod_fiber3", "sum_slice", "sum_fiber",
    "sumprod_slice", "sumprod_fiber", "gemm", "mask_scalar", "subtract_indexed_outputs", "total_sum_accum", "embedding", "embedding_backward"]
EXACT = [o for o in EXACT if o in ops.OPS]
LIMIT = 2.0 ** 19
SPECIAL = {"two": "two", "c": "c", "v": "c", "e": "e", "ve": "ve"}


def gen(rng, tier, exact=None):
    exact = (rng.random() < 0.35) if exact is None else exact
    npool = rng.choice([2, 3, 3, 4])
    ax = {}
    # long running tasks, several of them at a time
    wide = rng.random() < 0.06
    for i in range(npool):
        s = rng.choice([1, 2, 3, 4, 4, 5, 6, 7])
        ax["p%d" % i] = [s, ops.r_tile(rng, s)]
        if wide and i < 2:
            s = rng.randint(90, 240)
            ax["p%d" % i] = [s, s // rng.randint(1, 3) + rng.randint(0, 3)]
    n = rng.choice([2, 3, 5])
    ax["two"], ax["c"] = [2, 2], [n, n]
    es = rng.choice([2, 4, 5])
    et = rng.choice([1, 2, 4, es])
    et = min(et, es)
    ax["e"] = [es, et]
    ax["ve"] = [es, rng.choice([q for q in range(1, et + 1) if et % q == 0])]
    c = {"dt": "fp64" if exact else ops.r_dt(rng), "exact": int(exact), "ax": ax, "tens": [], "prog": [], "seed": rng.randrange(1 << 30),
        "ncopies": rng.choice([1, 1, 2, 3]), "mon": rng.choice([0, 0, 1, 3])}
    names = EXACT if exact else [o for o in ops.OPS if not getattr(ops.OPS[o], "standalone", 0)]
    favourite = rng.sample(names, min(len(names), rng.choice([3, 6, 12])))
    length = 5 if wide else rng.choice([5, 10, 15, 20, 30, 40])
    tries = 0
    paused = 0
    summed = set()
    while len(c["prog"]) < length and tries < 20 * length:
        tries += 1
        u = rng.random()
        if u < 0.2 and c["tens"]:
            t = rng.randrange(len(c["tens"]))
            k = rng.choice(["wait", "pause", "resume", "resume", "hint", "get", "put", "ci", "ci", "randn", "randn", "new", "rcpu", "rrestore"])
            if k == "pause":
                c["prog"].append(["pause"])
                paused = 1
                continue
            if k in ("wait", "get", "put", "new") and paused:
                c["prog"].append(["resume"])
                paused = 0
            if k == "resume":
                paused = 0
            if k in ("wait", "resume", "rcpu", "rrestore"):
                c["prog"].append([k])
            elif k == "hint":
                c["prog"].append([k, t, rng.choice(["wont_use", "invalidate_submit"])])
            elif k == "get":
                c["prog"].append([k, t])
            elif k in ("put", "new"):
                c["prog"].append([k, t, rng.randrange(1 << 30)])
            elif c["tens"][t][0] == "f" and k == "randn" and not exact:
                c["prog"].append([k, t, rng.randrange(1 << 30)])
            elif k == "ci":
                same = [i for i, q in enumerate(c["tens"]) if i != t and q[0] == c["tens"][t][0] and len(q[1]) == len(c["tens"][t][1])]
                if same and c["tens"][t][0] == "f":
                    d = rng.choice(same)
                    n = len(c["tens"][t][1])
                    c["prog"].append([k, t, d, [rng.randint(0, 3) for _ in range(n)], [rng.randint(0, 3) for _ in range(n)]])
            continue
        op = ops.OPS[rng.choice(favourite) if rng.random() < 0.8 else rng.choice(names)]
        k = op.gen(rng)
        sp = {n: SPECIAL[n] for n in k["ax"] if n in SPECIAL}
        free = [n for n in k["ax"] if n not in SPECIAL]
        pool = ["p%d" % i for i in range(npool)]
        if any(n.startswith("g") for n in free) or len(free) > npool or len(set(sp.values())) < len(sp):
            continue
        m = dict(sp)
        m.update(zip(free, rng.sample(pool, len(free))))
        it = {"op": k["op"], "opr": k["opr"], "sc": k["sc"], "map": m, "ar": {}}
        if exact:
            it["sc"] = {q: (rng.choice([0.0, 1.0, 1.0, -1.0, 2.0]) if isinstance(v, float) else v) for q, v in it["sc"].items()}
            if "val" in it["sc"] and not isinstance(it["sc"]["val"], (int, float)):
                it["sc"]["val"] = 3.0
            it["redux"] = int(op.redux and rng.random() < 0.6)
        used, written = set(), set()
        order = sorted(op.roles, key=lambda o: op.roles[o][0] == "r")
        bad = False
        for o in order:
            role, el = op.roles[o]
            key = [el, [m[a] for a in k["opr"][o]]]
            if el == "i":
                key[0] = "i%d" % ax["c"][0]
            have = [i for i, q in enumerate(c["tens"]) if q[0] == key[0] and q[1] == key[1]]
            ok = [i for i in have if i not in written and not (role != "r" and i in used)]
            lim = c["ncopies"] + (1 if len(op.roles) > 1 else 0)
            if not ok or len(have) < lim and rng.random() < 0.4:
                if len(c["tens"]) >= 40:
                    bad = True
                    break
                c["tens"].append(key + [rng.randrange(1 << 30)])
                ok = [len(c["tens"]) - 1]
            i = rng.choice(ok)
            it["ar"][o] = i
            used.add(i)
            if role != "r":
                written.add(i)
        if bad:
            continue
        if not exact and it["op"] == "total_sum_accum":
            # the order of these summations is not determined
            if any(ax[a][1] < ax[a][0] for a in c["tens"][it["ar"]["labels"]][1]) or it["ar"]["val"] in summed:
                continue
            summed.add(it["ar"]["val"])
        c["prog"].append(it)
        if rng.random() < 0.12:
            race(rng, c, paused or rng.random() < 0.4)
    return c


def race(rng, c, asis):
    """the last call waits for a chain of calls on one of its sources, while
    the same operation on other sources is ready earlier"""
    it = c["prog"].pop()
    op = ops.OPS[it["op"]]
    src = [o for o, (role, el) in op.roles.items() if role == "r" and el == "f"]
    dst = [o for o, (role, el) in op.roles.items() if role == "rw"]
    if src and dst and it["op"] != "total_sum_accum" and not any(it["ar"][s] in [it["ar"][d] for d in dst] for s in src):
        s = it["ar"][rng.choice(src)]
        chain = [{"op": "scal_inplace", "opr": {"x": ["x%d" % i for i in range(len(c["tens"][s][1]))]}, "map": {"x%d" % i: a for i, a in enumerate(c["tens"][s][1])},
            "sc": {"alpha": rng.choice([1.0, -1.0])}, "ar": {"x": s}} for _ in range(rng.choice([2, 4, 8]))]
        two = copy.deepcopy(it)
        taken = set(it["ar"].values())
        for o in src:
            key = c["tens"][it["ar"][o]][:2]
            free = [i for i, q in enumerate(c["tens"]) if q[:2] == key and i not in taken]
            if not free:
                c["tens"].append(key + [rng.randrange(1 << 30)])
                free = [len(c["tens"]) - 1]
            two["ar"][o] = rng.choice(free)
            taken.add(two["ar"][o])
        for q, v in two["sc"].items():
            if isinstance(v, float) and q in ("alpha", "beta"):
                two["sc"][q] = rng.choice([2.0, -1.0, 1.0])
        c["prog"] += chain + [it, two] if asis else [["pause"]] + chain + [it, two, ["resume"]]
    else:
        c["prog"].append(it)


def initial(c, i, seed=None):
    el, axes, s0 = c["tens"][i]
    s = s0 if seed is None else seed
    shape = [c["ax"][a][0] for a in axes]
    if el == "b":
        return ops.make_data("half", s, shape, "bool")
    if el[0] == "i":
        return ops.make_data(["idx", c["ax"]["c"][0], ["rand", "edge", "const"][s % 3]], s, shape, "int64")
    kind = ["ints", "posints", "sparse"][s % 3] if c["exact"] else ["normal", "normal", "ints", "pos", "wide"][s % 5]
    if c["exact"] and kind == "sparse":
        return np.array(np.round(ops.make_data("sparse", s, shape, "fp64")), order="F")
    return ops.make_data(kind, s, shape, c["dt"])


def case_of(c, it):
    return {"op": it["op"], "dt": c["dt"], "ax": {n: c["ax"][p] for n, p in it["map"].items()}, "opr": it["opr"], "sc": it["sc"], "redux": it.get("redux", 0), "dk": {}}


def dt_of(c, i):
    return {"f": c["dt"], "b": "bool", "i": "int64"}[c["tens"][i][0][0]]


def make(env, c, i, seed=None):
    axes = c["tens"][i][1]
    return env.tensor([c["ax"][a][0] for a in axes], [c["ax"][a][1] for a in axes], dt_of(c, i), initial(c, i, seed))


def run(env, c, seq, clamps=None, after=None):
    """execute the program; seq: wait after every call and ignore pauses.
    Returns (reads, final contents). clamps: {position: [tensors]} whose
    contents are replaced to keep the arithmetic exact (filled when seq)."""
    nn, T = env.nn, env.T
    X = [make(env, c, i) for i in range(len(c["tens"]))]
    # reductions have to be declared before the first use
    red = {it["ar"][o] for it in c["prog"] if isinstance(it, dict) and it.get("redux") for o in it["ar"] if ops.OPS[it["op"]].roles[o][0] == "rw"}
    for i in red:
        X[i].set_reduction_add()
    reads = []
    paused = False
    try:
        for pos, it in enumerate(c["prog"]):
            w = []
            if isinstance(it, dict):
                op = ops.OPS[it["op"]]
                k = case_of(c, it)
                op.call(T, {o: X[i] for o, i in it["ar"].items()}, it["sc"], k)
                w = [i for o, i in it["ar"].items() if op.roles[o][0] != "r"]
            elif it[0] == "wait":
                nn.starpu.wait_for_all()
            elif it[0] == "pause":
                if not seq and not paused:
                    nn.starpu.pause()
                    paused = True
            elif it[0] == "resume":
                if not seq and paused:
                    nn.starpu.resume()
                    paused = False
            elif it[0] == "hint":
                getattr(X[it[1]], it[2])()
            elif it[0] == "rcpu":
                nn.starpu.restrict_cpu()
            elif it[0] == "rrestore":
                nn.starpu.restrict_restore()
            elif it[0] == "get":
                if paused:
                    nn.starpu.resume()
                    paused = False
                reads.append((pos, it[1], env.get(X[it[1]])))
            elif it[0] == "put":
                if paused:
                    nn.starpu.resume()
                    paused = False
                env.put(X[it[1]], initial(c, it[1], it[2]))
            elif it[0] == "new":
                if paused:
                    nn.starpu.resume()
                    paused = False
                X[it[1]].unregister()
                env.live = [t for t in env.live if t is not X[it[1]]]
                X[it[1]] = make(env, c, it[1], it[2])
                if it[1] in red:
                    X[it[1]].set_reduction_add()
            elif it[0] == "randn":
                x = X[it[1]]
                sh = list(x.shape)
                T.randn_async(x, [it[2] % 3] * len(sh), [s + 5 for s in sh], it[2], 0.25, 1.5)
                w = [it[1]]
            elif it[0] == "ci":
                T.copy_intersection_async(X[it[1]], it[3], X[it[2]], it[4])
                w = [it[2]]
            if seq:
                nn.starpu.wait_for_all()
                if after:
                    after(pos, it, X, w)
                if clamps is not None and c["exact"]:
                    for i in w:
                        if not (np.abs(env.get(X[i])) <= LIMIT).all():
                            clamps.setdefault(pos, []).append(i)
            for i in (clamps or {}).get(pos, ()):
                T.fill_async(2.0, X[i])
    finally:
        nn.starpu.resume()
        nn.starpu.restrict_restore()
    nn.starpu.wait_for_all()
    return reads, [env.get(x) for x in X]


def equal(c, a, b):
    if c["exact"]:
        return a.dtype == b.dtype and a.shape == b.shape and bool((a == b).all())
    if core.same_bits(a, b):
        return True
    return a.dtype.kind == "f" and a.shape == b.shape and bool(((a == b) & (np.signbit(a) == np.signbit(b)) | np.isnan(a) & np.isnan(b)).all())


def describe(c):
    return "; ".join(("%s%s" % (it["op"], it["ar"])) if isinstance(it, dict) else str(it) for it in c["prog"])


def valid(c):
    try:
        ax = c["ax"]
        if ax["two"] != [2, 2] or ax["c"][0] != ax["c"][1] or ax["e"][0] != ax["ve"][0] or ax["e"][1] % ax["ve"][1] or ax["e"][1] > ax["e"][0]:
            return False
        if any(min(p) < 1 for p in ax.values()):
            return False
        for it in c["prog"]:
            if not isinstance(it, dict):
                continue
            op = ops.OPS[it["op"]]
            for o, i in it["ar"].items():
                if c["tens"][i][1] != [it["map"][a] for a in it["opr"][o]]:
                    return False
        return True
    except Exception:
        return False


def shrinks(c):
    n = len(c["prog"])
    k = n // 2
    while k >= 1:
        for i in range(0, n, k):
            d = copy.deepcopy(c)
            del d["prog"][i:i + k]
            yield d
        k //= 2
    # drop tensors nobody uses
    used = set()
    for it in c["prog"]:
        used |= set(it["ar"].values()) if isinstance(it, dict) else set(j for j in it[1:3 if it[0] == "ci" else 2] if isinstance(j, int))
    if len(used) < len(c["tens"]):
        d = copy.deepcopy(c)
        keep = sorted(used)
        new = {j: i for i, j in enumerate(keep)}
        d["tens"] = [d["tens"][j] for j in keep]
        for it in d["prog"]:
            if isinstance(it, dict):
                it["ar"] = {o: new[j] for o, j in it["ar"].items()}
            elif it[0] in ("hint", "get", "put", "new", "randn", "ci"):
                it[1] = new[it[1]]
                if it[0] == "ci":
                    it[2] = new[it[2]]
        yield d
    for a, (s, t) in c["ax"].items():
        if a[0] != "p":
            continue
        for q in ([1, 1], [2, 1], [2, 2], [s - 1, min(t, s - 1)], [s, s]):
            if q[0] >= 1 and q[1] >= 1 and q != [s, t] and (q[0] < s or q[0] == s and q[1] > t):
                d = copy.deepcopy(c)
                d["ax"][a] = q
                yield d
    for i, it in enumerate(c["prog"]):
        if isinstance(it, dict) and it.get("redux"):
            d = copy.deepcopy(c)
            d["prog"][i]["redux"] = 0
            yield d
    if c["mon"]:
        yield dict(copy.deepcopy(c), mon=0)


def nops(c):
    return sum(isinstance(it, dict) for it in c["prog"])


def shares(c):
    """some tensor is written by one call and used by another one"""
    seen, wr = {}, set()
    for it in c["prog"]:
        if isinstance(it, dict):
            for o, i in it["ar"].items():
                seen[i] = seen.get(i, 0) + 1
                if ops.OPS[it["op"]].roles[o][0] != "r":
                    wr.add(i)
    return any(seen[i] > 1 for i in wr)
