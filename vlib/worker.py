"""One check process: generates or replays cases in one runtime config.

  worker.py search  JOB.json     generate cases, stop at the first failure
  worker.py serve   JOB.json     read cases on stdin, one JSON per line
"""
import hashlib, importlib, json, os, random, sys, time, traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, ops


def seed_of(*a):
    h = hashlib.sha256("|".join(str(x) for x in a).encode()).digest()
    return int.from_bytes(h[:8], "little")


def canon(case):
    return json.dumps(case, sort_keys=True)


def run_case(env, mod, case, sseed):
    """-> None, or {"kind","msg"} on failure, or {"invalid":1}"""
    env.sched(sseed)
    try:
        info = mod.check(env, case)
        env.cleanup()
        return None, info
    except core.Invalid as e:
        env.reset()
        return {"invalid": str(e)}, None
    except ops.Violation as e:
        env.reset()
        return {"kind": getattr(e, "kind", "value"), "msg": str(e)}, None
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, SystemExit)):
            raise
        tb = traceback.format_exc()
        env.reset()
        return {"kind": "error:" + type(e).__name__,
            "msg": "unexpected %s: %s" % (type(e).__name__, e),
            "trace": tb[-3000:]}, None


def main():
    mode, jobf = sys.argv[1], sys.argv[2]
    job = json.load(open(jobf))
    if mode == "serve":     # anything else printed must not reach the protocol
        out = os.fdopen(os.dup(1), "w")
        os.dup2(2, 1)
    pid = job["prop"]
    mod = importlib.import_module("props." + pid.lower())
    env = mod.make_env(job["cfg"]) if hasattr(mod, "make_env") else core.Env(job["cfg"])
    if mode == "serve":
        out.write("READY\n")
        out.flush()
        for line in sys.stdin:
            req = json.loads(line)
            res = None
            for case in req["cases"]:
                res, _ = run_case(env, mod, case, req.get("sseed", 1))
                if res is not None:
                    break
            out.write(json.dumps(res) + "\n")
            out.flush()
        os._exit(0)
    seed, widx, ncases, tcap = job["seed"], job["widx"], job["ncases"], job["tcap"]
    tier = job["tier"]
    jf = open(job["journal"], "w+")
    labels, samples = {}, []
    hashes = set()
    nontriv = evals = skipped = 0
    extra = {}
    fail = None
    t0 = time.time()
    i = job.get("start", 0)
    end = i + ncases
    while i < end and time.time() - t0 < tcap:
        rng = random.Random("%s|%s|%s|%s" % (seed, pid, widx, i))
        case = mod.gen(rng, tier)
        cs = canon(case)
        jf.seek(0)
        jf.write(json.dumps({"i": i, "case": case}) + "\n")
        jf.truncate()
        jf.flush()
        ss = seed_of(seed, pid, widx, i)
        res, info = run_case(env, mod, case, ss)
        i += 1
        if res is not None and "invalid" in res:
            skipped += 1
            continue
        evals += 1
        if res is not None:
            fail = {"case": case, "res": res, "i": i - 1, "sseed": ss}
            break
        nt = mod.nontrivial(case)
        if nt:
            h = hashlib.blake2b(cs.encode(), digest_size=8).digest()
            hashes.add(h)
        for l in mod.labels(case):
            labels[l] = labels.get(l, 0) + 1
        if isinstance(info, dict):
            for k, v in info.items():
                extra[k] = extra.get(k, 0) + v
        if nt and len(samples) < 3 and len(cs) < 2500 and rng.random() < 0.2:
            samples.append(case)
    r = {"evaluations": evals, "skipped": skipped, "labels": labels,
        "samples": samples, "fail": fail, "time": time.time() - t0, "next": i,
        "stats": env.stats(), "extra": extra}
    with open(job["hashes"], "wb") as f:
        f.write(b"".join(hashes))
    with open(job["out"] + ".tmp", "w") as f:
        json.dump(r, f)
    os.rename(job["out"] + ".tmp", job["out"])
    os._exit(0)


if __name__ == "__main__":
    main()
