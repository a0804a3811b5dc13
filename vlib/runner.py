"""Runs the check of one property: build, search, replay, shrink, evidence.

usage: runner.py PROPERTY [--tier quick|thorough] [--replay FILE] [--jobs N]
Exit status 0: held on everything explored; 1: a VIOLATION line was printed.
"""
import concurrent.futures
import argparse, hashlib, importlib, json, os, random, shutil, signal
import subprocess, sys, time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import build, core

VERIF = build.VERIF
PYEXE = build.PY
KNOWN = os.path.join(VERIF, "known-findings.txt")

# default runtime configurations of the search processes
CONFIGS = [
    {"ncpu": 1, "policy": 1, "monitor": 0},
    {"ncpu": 1, "policy": 0, "monitor": 2},
    {"ncpu": 2, "policy": 1, "monitor": 0},
    {"ncpu": 1, "policy": 2, "monitor": 2},
    {"ncpu": 1, "policy": 1, "monitor": 2},
    {"ncpu": 3, "policy": 1, "monitor": 0, "delay": 30},
    {"ncpu": 1, "policy": 1, "monitor": 0},
]


def log(*a):
    print(*a, flush=True)


def load_known(pid):
    """entries of the known-findings file for this property"""
    out = []
    if not os.path.exists(KNOWN):
        return out
    for line in open(KNOWN):
        line = line.strip()
        if not line.startswith("known:"):
            continue
        kv = dict(w.split("=", 1) for w in line.split() if "=" in w and
            w.split("=", 1)[0] in ("property", "id", "case"))
        if kv.get("property") == pid:
            kv["text"] = line.split("what=", 1)[1] if "what=" in line else line
            out.append(kv)
    return out


def trim(d):
    """the telling part of a process's error output"""
    i = max(d.find(b"==ERROR: "), d.find(b"runtime error: "))
    if i >= 0:
        i = d.rfind(b"\n", 0, i) + 1
        return d[i:i + 6000].decode(errors="replace")
    return d[-6000:].decode(errors="replace")


class Server:
    """a fresh process that executes given cases"""
    count = 0

    def __init__(self, pid, cfg, work, hang):
        self.pid, self.cfg, self.work, self.hang = pid, cfg, work, hang
        self.p = None
        Server.count += 1
        self.name = "serve-%d" % Server.count

    def start(self):
        job = os.path.join(self.work, self.name + ".json")
        json.dump({"prop": self.pid, "cfg": self.cfg}, open(job, "w"))
        self.errf = open(os.path.join(self.work, self.name + ".err"), "w+b")
        self.p = subprocess.Popen([PYEXE, os.path.join(VERIF, "vlib", "worker.py"),
            "serve", job], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            stderr=self.errf, env=core.runtime_env(self.cfg), cwd=self.work,
            start_new_session=True)
        r = self._readline(120)
        if r is None or r.strip() != b"READY":
            e = self.err()
            self.stop()
            raise RuntimeError("check process did not start: " + e)

    def _readline(self, tmo):
        import select
        buf = b""
        fd = self.p.stdout.fileno()
        end = time.time() + tmo
        while True:
            left = end - time.time()
            if left <= 0:
                return None
            r, _, _ = select.select([fd], [], [], left)
            if not r:
                return None
            c = os.read(fd, 65536)
            if not c:
                return b"" if not buf else buf
            buf += c
            if buf.endswith(b"\n"):
                return buf

    def err(self):
        try:
            self.errf.flush()
            with open(self.errf.name, "rb") as f:
                d = f.read()
            return trim(d)
        except Exception:
            return ""

    def stop(self):
        if self.p:
            try:
                os.killpg(self.p.pid, signal.SIGKILL)
            except Exception:
                pass
            self.p.wait()
            self.p.stdin.close()
            self.p.stdout.close()
            self.p = None

    def run(self, cases, sseed=1):
        """-> None if it held, else failure dict"""
        if self.p is None:
            self.start()
        try:
            self.p.stdin.write((json.dumps({"cases": cases, "sseed": sseed}) + "\n").encode())
            self.p.stdin.flush()
        except (BrokenPipeError, OSError):
            pass
        r = self._readline(self.hang)
        if r is None:
            self.stop()
            return {"kind": "hang", "msg": "no result within %d s" % self.hang}
        if r == b"" or not r.endswith(b"\n"):
            rc = self.p.wait()
            e = self.err()
            self.stop()
            return {"kind": "crash", "msg": "process ended abnormally (status %s)" % rc,
                "trace": summarize_crash(e)}
        return json.loads(r)


def summarize_crash(e):
    for key in ("ERROR: AddressSanitizer", "runtime error:", "Assertion", "terminate called"):
        i = e.find(key)
        if i >= 0:
            return e[max(0, i - 200):i + 1800]
    return e[-1500:]


def category(res):
    k = res["kind"]
    if k in ("crash", "hang") or k.startswith("error:"):
        return k
    return k


class Check:
    def __init__(self, pid, tier, jobs=None):
        self.pid, self.tier = pid, tier
        self.mod = importlib.import_module("props." + pid.lower())
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.work = os.path.join(build.BUILD, "run-%s-%d" % (pid, os.getpid()))
        os.makedirs(self.work, exist_ok=True)
        self.configs = getattr(self.mod, "CONFIGS", CONFIGS)
        if jobs:
            self.configs = self.configs[:jobs]
        self.hang = getattr(self.mod, "HANG", 90)
        self.events = []
        self.known = load_known(pid)
        self.t0 = time.time()

    # -- search ---------------------------------------------------------------
    def search(self, ncases, tcap, starts):
        """one search by all processes until the first failure; starts: next
        case of every process"""
        procs = []
        for w, cfg in enumerate(self.configs):
            procs.append(self.spawn(w, cfg, ncases - starts[w], tcap, starts[w]))
        results = []
        failures = []
        stop = False
        while procs:
            time.sleep(0.05)
            for pr in list(procs):
                rc = pr["p"].poll()
                hung = False
                if rc is None:
                    try:
                        age = time.time() - max(os.path.getmtime(pr["journal"]), pr["t0"])
                    except OSError:
                        age = time.time() - pr["t0"]
                    if age > self.hang + 30:
                        hung = True
                    elif stop:
                        pass
                    else:
                        continue
                    try:
                        os.killpg(pr["p"].pid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
                    pr["p"].wait()
                    if stop and not hung:
                        procs.remove(pr)
                        try:
                            starts[pr["w"]] = json.loads(open(pr["journal"]).readline())["i"] + 1
                        except Exception:
                            pass
                        results.append({"evaluations": starts[pr["w"]] - pr["start"], "skipped": 0, "labels": {},
                            "samples": [], "fail": None, "stats": {}, "extra": {}, "hs": b""})
                        continue
                procs.remove(pr)
                r = None
                if not hung and os.path.exists(pr["out"]):
                    r = json.load(open(pr["out"]))
                    try:
                        pr["hs"] = open(pr["hashes"], "rb").read()
                    except OSError:
                        pr["hs"] = b""
                    r["hs"] = pr["hs"]
                    results.append(r)
                    starts[pr["w"]] = r["next"]
                    if r["fail"]:
                        f = dict(r["fail"], cfg=pr["cfg"], widx=pr["w"])
                        failures.append(f)
                        stop = True
                    continue
                # crash or hang: the journal names the case
                try:
                    j = json.loads(open(pr["journal"]).readline())
                except Exception:
                    j = None
                err = trim(open(pr["err"], "rb").read())
                if j is None:
                    raise RuntimeError("search process did not start: " + err[-3000:])
                res = {"kind": "hang", "msg": "a case took more than %d s" % (self.hang + 30)} if hung \
                    else {"kind": "crash", "msg": "process ended abnormally (status %s)" % rc,
                          "trace": summarize_crash(err)}
                starts[pr["w"]] = j["i"] + 1
                failures.append({"case": j["case"], "i": j["i"], "res": res, "cfg": pr["cfg"],
                    "widx": pr["w"], "sseed": 1})
                results.append({"evaluations": max(0, j["i"] + 1 - pr["start"]), "skipped": 0, "labels": {},
                    "samples": [], "fail": None, "stats": {}, "extra": {}, "hs": b""})
                stop = True
        return results, failures

    def spawn(self, w, cfg, ncases, tcap, start):
        b = os.path.join(self.work, "w%d" % w)
        job = {"prop": self.pid, "cfg": cfg, "seed": self.seed, "widx": w, "tier": self.tier,
            "ncases": ncases, "tcap": tcap, "start": start, "journal": b + ".journal",
            "out": b + ".out", "hashes": b + ".hashes"}
        for k in ("journal", "out", "hashes"):
            if os.path.exists(job[k]):
                os.remove(job[k])
        json.dump(job, open(b + ".job", "w"))
        err = open(b + ".err", "wb")
        p = subprocess.Popen([PYEXE, os.path.join(VERIF, "vlib", "worker.py"), "search",
            b + ".job"], stdin=subprocess.DEVNULL, stdout=err, stderr=err,
            env=core.runtime_env(cfg), cwd=self.work, start_new_session=True)
        return {"p": p, "w": w, "cfg": cfg, "start": start, "t0": time.time(), "journal": job["journal"],
            "out": job["out"], "hashes": job["hashes"], "err": b + ".err"}

    # -- replay and shrinking ---------------------------------------------------
    def gen_case(self, w, i):
        rng = random.Random("%s|%s|%s|%s" % (self.seed, self.pid, w, i))
        return json.loads(json.dumps(self.mod.gen(rng, self.tier)))

    def reproduce(self, f):
        """-> (cases, sseed, res, how) or None"""
        cfg = f["cfg"]
        flaky = cfg.get("ncpu", 1) > 1 or f["res"]["kind"] in ("crash", "hang")
        tries = 3 if f["res"]["kind"] != "hang" else 2
        hits = 0
        res = None
        for k in range(tries):
            s = Server(self.pid, cfg, self.work, self.hang)
            r = s.run([f["case"]], f["sseed"])
            s.stop()
            if r and "kind" in r:
                hits += 1
                res = r
        if hits == tries:
            return [f["case"]], f["sseed"], res, "alone, %d of %d times" % (hits, tries)
        if hits:
            return [f["case"]], f["sseed"], res, "alone, %d of %d times (timing dependent)" % (hits, tries)
        # more attempts with other schedules
        t0 = time.time()
        found, tried = [], []

        def attempts(w):
            s = Server(self.pid, cfg, self.work, self.hang)
            k = w
            while not found and k < 1000 and time.time() - t0 < 30:
                r = s.run([f["case"]], f["sseed"] + k)
                tried.append(k)
                if r and "kind" in r:
                    found.append((f["sseed"] + k, r))
                k += 6
            s.stop()
        with concurrent.futures.ThreadPoolExecutor(6) as ex:
            list(ex.map(attempts, range(6)))
        if found:
            return [f["case"]], found[0][0], found[0][1], "alone, once in %d schedules" % len(tried)
        # depends on what ran before in the same process
        for back in (5, 40, 300):
            lo = max(0, f["i"] - back)
            cs = [self.gen_case(f["widx"], j) for j in range(lo, f["i"])] + [f["case"]]
            ok = 0
            for k in range(2):
                s = Server(self.pid, cfg, self.work, max(self.hang, 120))
                r = s.run(cs, f["sseed"])
                s.stop()
                if r and "kind" in r:
                    ok += 1
                    res = r
            if ok:
                # smallest suffix
                while len(cs) > 1:
                    s = Server(self.pid, cfg, self.work, max(self.hang, 120))
                    half = cs[len(cs) // 2:]
                    r = s.run(half, f["sseed"])
                    s.stop()
                    if r and "kind" in r:
                        cs, res = half, r
                    else:
                        break
                return cs, f["sseed"], res, "after %d earlier cases in the same process" % (len(cs) - 1)
            if lo == 0:
                break
        return None

    def shrink(self, case, sseed, res, cfg, limit=40):
        if not hasattr(self.mod, "shrinks") or os.environ.get("VERIF_NOSHRINK"):
            return case, res, 0
        cat = category(res)
        t0 = time.time()
        s = Server(self.pid, cfg, self.work, min(self.hang, 30))
        steps = tried = 0
        reps = 1 if cfg.get("ncpu", 1) == 1 else 4
        progress = True
        while progress and time.time() - t0 < limit:
            progress = False
            for c in self.mod.shrinks(case):
                if time.time() - t0 > limit:
                    break
                if hasattr(self.mod, "valid") and not self.mod.valid(c):
                    continue
                tried += 1
                r = None
                for k in range(reps):
                    r = s.run([c], sseed + k)
                    if r and "kind" in r:
                        break
                if r and "kind" in r and category(r) == cat and not self.is_known(c, r):
                    case, res = c, r
                    steps += 1
                    progress = True
                    break
        s.stop()
        # the shrunk case has to reproduce from a fresh process
        s = Server(self.pid, cfg, self.work, self.hang)
        r = None
        for k in range(3 if reps == 1 else 20):
            r = s.run([case], sseed + k)
            if r and "kind" in r:
                break
        s.stop()
        return case, (r if r and "kind" in r else None), steps

    def is_known(self, case, res):
        f = getattr(self.mod, "known", None)
        if not f:
            return None
        k = f(case, res)
        return k if any(e.get("id") == k for e in self.known) else None

    # -- main ---------------------------------------------------------------------
    def replay_file(self, cases, sseed, res, cfg, how):
        d = os.path.join(VERIF, "replay")
        os.makedirs(d, exist_ok=True)
        body = {"property": self.pid, "cfg": cfg, "sseed": sseed, "cases": cases,
            "failure": res, "reproduces": how}
        h = hashlib.sha256(json.dumps(cases, sort_keys=True).encode()).hexdigest()[:10]
        p = os.path.join(d, "%s-%s.json" % (self.pid, h))
        json.dump(body, open(p, "w"), indent=1)
        return p

    def handle(self, f):
        """a failure found by the search: True if it is a violation"""
        log("  failing case %d of process %d: %s" % (f["i"], f["widx"], f["res"]["msg"][:400]))
        rep = self.reproduce(f)
        if rep is None:
            self.events.append({"unreproduced": f["res"]["msg"][:500], "case": f["case"], "cfg": f["cfg"]})
            log("  could not be reproduced in a fresh process; recorded, not reported")
            return False
        cases, sseed, res, how = rep
        if len(cases) == 1:
            c, r, steps = self.shrink(cases[0], sseed, res, f["cfg"])
            if r:
                cases, res = [c], r
                how += "; %d shrinking steps" % steps
        p = self.replay_file(cases, sseed, res, f["cfg"], how)
        log("  reproduced %s" % how)
        log("  case: %s" % json.dumps(cases[-1])[:1500])
        log("  failure: %s" % res["msg"][:1000])
        if res.get("trace"):
            log("  " + res["trace"][:1500].replace("\n", "\n  "))
        log("VIOLATION property=%s replay=%s" % (self.pid, p))
        self.events.append({"violation": res["msg"][:500], "replay": p})
        return True

    def probe_known(self):
        """replays the listed findings, and any regression inputs of fixed ones"""
        lines, bad = [], False
        for e in self.known:
            case = json.load(open(os.path.join(VERIF, e["case"])))
            s = Server(self.pid, case.get("cfg", self.configs[0]), self.work, self.hang)
            r = s.run(case["cases"], case.get("sseed", 1))
            s.stop()
            if r and "kind" in r:
                log("KNOWN-FINDING: property=%s %s" % (self.pid, e["text"]))
                lines.append(e["text"])
        return lines

    def regressions(self):
        """saved inputs that once failed (repaired defects): must hold"""
        d = os.path.join(VERIF, "regress", self.pid)
        n = 0
        if not os.path.isdir(d):
            return n, False
        s = None
        bad = False
        for fn in sorted(os.listdir(d)):
            b = json.load(open(os.path.join(d, fn)))
            cfg = b.get("cfg", self.configs[0])
            if s and s.cfg != cfg:
                s.stop()
                s = None
            s = s or Server(self.pid, cfg, self.work, self.hang)
            r = s.run(b["cases"], b.get("sseed", 1))
            n += 1
            if r and "kind" in r:
                f = {"case": b["cases"][-1], "i": 0, "res": r, "cfg": cfg,
                    "widx": 0, "sseed": b.get("sseed", 1)}
                s.stop()
                s = None
                if self.handle(f):
                    bad = True
                    break
        if s:
            s.stop()
        return n, bad

    def main(self):
        m = self.mod
        flv = sorted({c.get("flavour", "plain") for c in self.configs})
        bt = 0
        for fl in flv:
            bt += build.ensure(fl, tile=getattr(m, "NEEDS_TILE", False))
        log("%s: built in %.0f s" % (self.pid, bt))
        klines = self.probe_known()
        nreg, bad = self.regressions()
        ncases, tcap = m.BUDGET[self.tier]
        tcap = float(os.environ.get("VERIF_TCAP", tcap))
        allres = []
        violations = 1 if bad else 0
        t1 = time.time()
        if not bad:
            starts = [0] * len(self.configs)
            left = tcap
            # a failure that does not come back does not end the search
            for rnd in range(6):
                t2 = time.time()
                results, failures = self.search(ncases, left, starts)
                left -= time.time() - t2
                allres += results
                for f in failures:
                    if self.handle(f):
                        violations += 1
                        break
                if violations or not failures or left < 3 or min(starts) >= ncases:
                    break
        ev = self.evidence(allres, violations, bt, nreg, klines)
        log("%s: %d cases (%d distinct non-trivial) in %.0f s, %s" % (self.pid,
            ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"],
            time.time() - t1, "VIOLATED" if violations else "held"))
        shutil.rmtree(self.work, ignore_errors=True)
        return 1 if violations else 0

    def evidence(self, results, violations, bt, nreg, klines):
        hs = set()
        lab, extra, stats = {}, {}, {}
        samples = []
        for r in results:
            b = r["hs"]
            hs.update(b[k:k + 8] for k in range(0, len(b), 8))
            for k, v in r["labels"].items():
                lab[k] = lab.get(k, 0) + v
            for k, v in r["extra"].items():
                extra[k] = extra.get(k, 0) + v
            for k, v in r["stats"].items():
                stats[k] = max(stats.get(k, 0), v) if k == "max_ready" else stats.get(k, 0) + v
            samples += r["samples"][:1]
        if not samples:
            samples = [r["samples"][0] for r in results if r["samples"]][:1]
        if not samples:
            samples = [self.gen_case(0, 0)]
        cov = {"evaluations": sum(r["evaluations"] for r in results) + nreg,
            "distinct_nontrivial": len(hs), "rule": self.mod.RULE,
            "samples": samples[:4], "classification": dict(sorted(lab.items())),
            "runtime": stats, "regression_inputs": nreg,
            "discarded": sum(r["skipped"] for r in results),
            "processes": [dict(c) for c in self.configs], "build_s": round(bt, 1)}
        if extra:
            cov["counters"] = extra
        if self.events:
            cov["events"] = self.events
        if klines:
            cov["known_findings"] = klines
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "exploration",
            "coverage": cov, "assumptions": getattr(self.mod, "ASSUMPTIONS", []),
            "wall_s": round(time.time() - self.t0, 1), "violations": violations}
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        return ev


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int)
    a = ap.parse_args()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    c = Check(a.property, tier, a.jobs)
    try:
        if a.replay:
            b = json.load(open(a.replay))
            build.ensure(b["cfg"].get("flavour", "plain"), tile=getattr(c.mod, "NEEDS_TILE", False))
            s = Server(a.property, b["cfg"], c.work, c.hang)
            r = None
            for k in range(1 if b["cfg"].get("ncpu", 1) == 1 else 50):
                r = s.run(b["cases"], b.get("sseed", 1) + k)
                if r and "kind" in r:
                    break
            s.stop()
            if r and "kind" in r:
                log(r["msg"])
                log(r.get("trace", ""))
                log("VIOLATION property=%s replay=%s" % (a.property, a.replay))
                return 1
            log("held", r or "")
            return 0
        return c.main()
    finally:
        shutil.rmtree(c.work, ignore_errors=True)


if __name__ == "__main__":
    try:
        rc = main()
    except build.BuildError as e:
        print("BUILD FAILED", e)
        rc = 2
    sys.exit(rc)
