"""Runtime life cycle and controls."""
import json, os, select, signal, subprocess, tempfile
from vlib import core, build
from vlib.core import Fail

RULE = ("Histories of a fresh process: Config objects are made, nested, shut down explicitly (also repeatedly), destroyed and made again with another number of workers; in between tensors are made, changed by exact operations, "
    "read, unregistered or dropped with work in flight, and the controls are used (init again, pause and resume also nested, restrict_cpu/restrict_cuda/restrict_restore, profiling switches, wait_for_all, signals that arrive while waiting). "
    "After every step the state and worker count of the runtime match a model, values are exact, and the process ends by itself with status 0. Non-trivial: at least one tensor operation and two of: a second Config, an explicit shutdown, a control, a signal.")
BUDGET = {"quick": (6000, 30), "thorough": (120000, 500)}
CONFIGS = [{"ncpu": 1, "policy": p, "delay": d} for p, d in ((1, 0), (0, 0), (1, 200), (2, 100), (1, 20), (2, 0), (1, 500))]
ASSUMPTIONS = ["tensors are released before the last Config is shut down or the process ends (a tensor that outlives the runtime is undefined)", "at most 8 CPU workers, no CUDA device",
    "a history that does not end within 60 s hangs"]
HANG = 120
LIMIT = 60


class Env:
    """the histories have their own processes: nothing runs here"""
    def __init__(self, cfg):
        self.cfg = cfg
        self.n = 0
        self.ss = 1
        self.srv = None

    def server(self):
        if self.srv is None or self.srv.poll() is not None:
            e = core.runtime_env(self.cfg)
            self.srv = subprocess.Popen([build.PY, os.path.join(build.VERIF, "vlib", "life.py")], env=e, stdin=subprocess.PIPE,
                stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        return self.srv

    def sched(self, seed):
        self.ss = seed & 0xffffffffffffffff

    def cleanup(self):
        pass

    reset = cleanup

    def stats(self):
        return {"processes": self.n}


def make_env(cfg):
    return Env(cfg)


def gen_segment(rng, steps, names):
    """steps between the creation and the end of one runtime"""
    pool, paused = {}, 0
    for _ in range(rng.choice([2, 4, 8, 14])):
        u = rng.random()
        if not pool and not paused or u < 0.1 and not paused and len(pool) < 3:
            k = "t%d" % names[1]
            names[1] += 1
            same = [v for v in pool.values()]
            if same:
                dt, n, b = same[0]
            else:
                dt, n = rng.choice(["fp32", "fp64"]), rng.choice([1, 2, 3, 4, 5])
                b = rng.randint(1, n)
            pool[k] = (dt, n, b)
            steps.append(["new", k, dt, [n, n], [b, b], rng.randrange(1000)])
        elif u < 0.45:
            if pool:
                a, b = rng.choice(sorted(pool)), rng.choice(sorted(pool))
                steps.append(["work", rng.choice(["scal", "add", "fill", "clear", "copy", "relu", "prod", "gemm"]), a, b, rng.choice([-1, 0, 1, 2])])
        elif u < 0.53:
            if not paused:
                steps.append(["read"])
        elif u < 0.63:
            if paused:
                steps.append(["resume"])
                paused -= 1
            else:
                steps.append(["pause", int(rng.random() < 0.5)])
                paused += 1
                if rng.random() < 0.2:
                    steps.append(["pause", 0])
                    paused += 1
        elif u < 0.68:
            if not paused:
                steps.append(["wait"])
        elif u < 0.74:
            if not paused:
                steps.append(["sigwait", rng.choice(["raise", "resume"])])
        elif u < 0.86:
            steps.append([rng.choice(["cpu", "cuda", "restore"])])
        elif u < 0.90:
            steps.append(rng.choice([["prof", 1], ["prof", 0], ["profinit"]]))
        elif u < 0.94:
            steps.append(["init"])
        elif pool and not paused:
            k = rng.choice(sorted(pool))
            steps.append([rng.choice(["unreg", "drop"]), k])
            pool.pop(k)
        yield paused
    for _ in range(paused):
        steps.append(["resume"])
    if rng.random() < 0.8:
        steps.append(["read"])
    for k in sorted(pool):
        steps.append([rng.choice(["unreg", "unreg", "drop"]), k])


def gen(rng, tier):
    steps, names = [], [0, 0]
    nseg = rng.choice([1, 1, 2, 2, 3])
    last = rng.choice(["return", "exit", "atexit"])
    for s in range(nseg):
        live = []
        def config():
            live.append("c%d" % names[0])
            names[0] += 1
            steps.append(["config", live[-1], rng.choice([1, 1, 2, 3, 4])])
        def close(c):
            live.remove(c)
            if rng.random() < 0.3:
                steps.append(["del", c])
            else:
                steps.append(["shutdown", c, rng.choice([0, 0, 1, 2]), rng.choice([0, 1])])
        if rng.random() < 0.1:
            steps.append(["bad"])
        if s == 0 and rng.random() < 0.2:
            steps.append(["init"])
            config()
        else:
            config()
            if rng.random() < 0.1:
                steps.append([rng.choice(["cpu", "cuda", "restore"])])
            if s == 0 or rng.random() < 0.5:
                steps.append(["init"])
        for paused in gen_segment(rng, steps, names):
            if paused:
                continue
            if rng.random() < 0.06 and len(live) < 3:
                config()
            elif rng.random() < 0.1 and len(live) > 1:
                close(rng.choice(live))
            elif rng.random() < 0.05:
                steps.append(["forget"])
        if s < nseg - 1 or rng.random() < 0.5:
            while live:
                close(rng.choice(live))
    return {"steps": steps, "end": last, "dt": "fp32"}


def check(env, c):
    j = dict(c, policy=env.cfg["policy"], delay=env.cfg["delay"], sseed=env.ss)
    env.n += 1
    with tempfile.TemporaryDirectory() as d:
        with open(d + "/case.json", "w") as f:
            json.dump(j, f)
        srv = env.server()
        srv.stdin.write(d + "/case.json\n")
        srv.stdin.flush()
        pid = int(srv.stdout.readline())
        if select.select([srv.stdout], [], [], LIMIT)[0]:
            rc = int(srv.stdout.readline())
        else:
            rc = None
            os.killpg(pid, signal.SIGKILL)
            srv.stdout.readline()
        with open(d + "/case.json.out", "rb") as f:
            text = f.read().decode(errors="replace")
    res = [l for l in text.splitlines() if l.startswith("LIFE ")]
    tail = text[-600:]
    if res and res[-1] != "LIFE null":
        r = json.loads(res[-1][5:])
        raise Fail(r["kind"], r["msg"])
    if rc is None:
        raise Fail("hang", "the process did not end within %d s%s" % (LIMIT, " although all steps were done" if res else ""))
    if not res:
        raise Fail("crash" if rc < 0 else "error", "the process ended with status %d in the middle of the history: %s" % (rc, tail))
    if rc != 0:
        raise Fail("exit", "the process ended with status %d at interpreter exit: %s" % (rc, tail))
    return {"steps": len(c["steps"])}


def valid(c):
    """steps are legal for a model of the runtime"""
    live, pool, paused, used, inited = set(), {}, 0, set(), False
    for s in c["steps"]:
        o = s[0]
        if o == "config":
            if s[1] in used or not 1 <= s[2] <= 8 or paused:
                return False
            used.add(s[1])
            live.add(s[1])
        elif o in ("shutdown", "del"):
            if s[1] not in live or paused or len(live) == 1 and pool:
                return False
            live.discard(s[1])
        elif o == "bad":
            if live:
                return False
        elif o == "forget":
            pass
        elif o == "init":
            inited = True
        elif not live or not inited and o not in ("cpu", "cuda", "restore"):
            return False
        elif o == "new":
            if paused or s[1] in pool or pool and set(map(str, pool.values())) != {str(s[2:5])}:
                return False
            pool[s[1]] = s[2:5]
        elif o == "work":
            if s[2] not in pool or s[3] not in pool:
                return False
        elif o in ("read", "wait", "sigwait"):
            if paused or o == "sigwait" and not pool:
                return False
        elif o == "pause":
            if s[1] and paused:
                return False
            paused += 1
        elif o == "resume":
            if not paused:
                return False
            paused -= 1
        elif o in ("unreg", "drop"):
            if s[1] not in pool or paused:
                return False
            pool.pop(s[1])
    return not paused and not pool


def shrinks(c):
    n = len(c["steps"])
    names = sorted({s[1] for s in c["steps"] if s[0] in ("config", "new")})
    for k in names:     # everything about one object
        yield dict(c, steps=[s for s in c["steps"] if k not in s[1:4] or s[0] not in ("config", "shutdown", "del", "new", "work", "unreg", "drop")])
    w = n // 2
    while w:
        for i in range(0, n, w):
            yield dict(c, steps=c["steps"][:i] + c["steps"][i + w:])
        w //= 2
    for i in range(n):
        for j in range(i + 1, n):
            yield dict(c, steps=[s for k, s in enumerate(c["steps"]) if k not in (i, j)])
    if c["end"] != "return":
        yield dict(c, end="return")


def nontrivial(c):
    ops = [s[0] for s in c["steps"]]
    k = (ops.count("config") > 1) + ("shutdown" in ops) + ("sigwait" in ops)
    k += any(o in ops for o in ("pause", "cpu", "cuda", "restore", "prof", "wait"))
    return "work" in ops and k >= 2


def labels(c):
    ops = [s[0] for s in c["steps"]]
    r = ["end:" + c["end"], "configs:%d" % ops.count("config")]
    return r + sorted({"step:" + o for o in ops})
