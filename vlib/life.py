"""Processes going through a history of the runtime (property N29).

  life.py     reads names of case files on stdin; for each of them a forked
              process (nothing of the runtime exists before the fork) goes
              through the history and ends the way a program does. The last
              line it writes to CASE.out before the interpreter ends is
              "LIFE " and a JSON object: null or a failure. Prints the pid of
              the process and, when it is over, its status.
"""
import ctypes, json, os, signal, sys, time
import numpy as np

os.environ.setdefault("STARPU_SILENT", "1")


class Alarm(Exception):
    pass


def fail(kind, msg):
    print("\nLIFE " + json.dumps({"kind": kind, "msg": msg}), flush=True)
    os._exit(0)


def main(case):
    from vlib import build
    vs = ctypes.CDLL(os.path.join(build.BUILD, "libvsched.so"))
    vs.vs_seed.argtypes = [ctypes.c_uint64]
    vs.vs_config(case["policy"], 0, case["delay"])
    vs.vs_seed(case["sseed"])
    import nntile
    S, T = nntile.starpu, nntile.tensor
    sp = vs             # linked with the runtime
    NP = {"fp32": np.float32, "fp64": np.float64}
    confs, pool, keep = {}, {}, []
    workers = 0         # workers of the running runtime
    paused = 0

    def alive():
        return len(confs) > 0

    def look(where):
        up = bool(sp.starpu_is_initialized())
        if up != alive():
            fail("state", "%s: the runtime is %s, but %d Config objects are in use" % (where, "up" if up else "down", len(confs)))
        if up:
            n = sp.starpu_worker_get_count_by_type(0)
            if n != workers:
                fail("workers", "%s: %d CPU workers, %d were requested" % (where, n, workers))

    def compare(where):
        for k, (t, m) in pool.items():
            a = np.full(m.shape, np.nan, dtype=m.dtype, order="F")
            t.to_array(a)
            if not np.array_equal(a, m):
                fail("value", "%s: tensor %s is\n%s\nbut shall be\n%s" % (where, k, a, m))

    def work(op, a, b, x):
        (ta, ma), (tb, mb) = pool[a], pool[b]
        x = float(x)
        if op == "scal":
            T.scal_inplace_async(x, ta)
            ma *= ma.dtype.type(x)
        elif op == "add" and a != b:
            T.add_async(x, ta, 1.0, tb)
            mb += ma.dtype.type(x) * ma
        elif op == "fill":
            T.fill_async(x, ta)
            ma[...] = x
        elif op == "clear":
            T.clear_async(ta)
            ma[...] = 0
        elif op == "copy" and a != b:
            T.copy_async(ta, tb)
            mb[...] = ma
        elif op == "relu":
            T.relu_async(ta)
            np.maximum(ma, 0, out=ma)
        elif op == "prod" and a != b:
            T.prod_async(ta, tb)
            mb *= ma
        elif op == "gemm" and a != b:
            nt = nntile.notrans
            T.gemm_async(1.0, nt, ta, nt, ta, x, tb, 1, 0)
            mb[...] = ma @ ma + ma.dtype.type(x) * mb
        for k in (a, b):        # stay in the range of exact integers
            t, m = pool[k]
            if np.abs(m).max() > 1000:
                T.fill_async(1.0, t)
                m[...] = 1

    for i, st in enumerate(case["steps"]):
        o = st[0]
        where = "step %d %s" % (i, st)
        if o == "config":
            c = S.Config(st[2], 0, 0)
            if not alive():
                workers = st[2]
            confs[st[1]] = c
            look(where)
        elif o == "init":
            S.init()
        elif o == "bad":        # no worker at all: refused, nothing changes
            try:
                c = S.Config(0, 0, 0)
            except RuntimeError:
                pass
            else:
                fail("accepted", "%s: a Config without workers was made" % where)
            look(where)
        elif o == "new":
            shape, tile = st[3], st[4]
            tr = T.TensorTraits(shape, tile)
            t = {"fp32": T.Tensor_fp32, "fp64": T.Tensor_fp64}[st[2]](tr, [0] * tr.grid.nelems, 0)
            m = np.asfortranarray(np.random.RandomState(st[5]).randint(-3, 4, size=shape).astype(NP[st[2]]))
            t.from_array(m)
            pool[st[1]] = (t, m.copy(order="F"))
        elif o == "work":
            work(*st[1:])
        elif o == "read":
            compare(where)
        elif o == "pause":
            if st[1]:
                S.wait_for_all()
            S.pause()
            paused += 1
            if st[1]:
                for k in pool:
                    work("scal", k, k, -1)
                time.sleep(0.02)
                n = sp.starpu_task_nsubmitted()
                if pool and n == 0:
                    fail("pause", "%s: tasks submitted while the execution is paused were executed" % where)
        elif o == "resume":
            S.resume()
            paused -= 1
        elif o == "wait":
            S.wait_for_all()
            n = sp.starpu_task_nsubmitted()
            if n:
                fail("wait", "%s: wait_for_all returned with %d tasks in flight" % (where, n))
        elif o == "sigwait":    # a signal reaches the program while it waits
            got = []
            def handler(*a):
                got.append(1)
                if st[1] == "resume":
                    S.resume()
                else:
                    raise Alarm()
            S.pause()
            for k in pool:
                work("scal", k, k, -1)
            n = sp.starpu_task_nsubmitted()
            old = signal.signal(signal.SIGALRM, handler)
            signal.setitimer(signal.ITIMER_REAL, 0.01)
            try:
                S.wait_for_all()
                if st[1] != "resume":
                    fail("signal", "%s: wait_for_all returned although the signal handler raised an exception" % where)
            except Alarm:
                if st[1] == "resume":
                    fail("signal", "%s: unexpected exception" % where)
                if n and not sp.starpu_task_nsubmitted():
                    fail("pause", "%s: paused tasks were executed" % where)
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)
            if st[1] != "resume":
                S.resume()
        elif o == "cpu":
            S.restrict_cpu()
        elif o == "cuda":
            S.restrict_cuda()
        elif o == "restore":
            S.restrict_restore()
        elif o == "prof":
            (S.profiling_enable if st[1] else S.profiling_disable)()
        elif o == "profinit":
            S.profiling_init()
        elif o == "unreg":
            t, m = pool.pop(st[1])
            t.unregister()
        elif o == "drop":       # last reference, tasks may be in flight
            t = pool.pop(st[1])
            del t
        elif o == "shutdown":   # explicit, the object stays
            c = confs.pop(st[1])
            c.shutdown()
            for j in range(st[2]):
                c.shutdown()
            look(where)
            if st[3]:
                keep.append(c)
            del c
            look(where + " (object destroyed)")
        elif o == "del":
            c = confs.pop(st[1])
            del c
            look(where)
        elif o == "forget":     # destroy objects that were shut down before
            keep.clear()
            look(where)
    print("\nLIFE null", flush=True)
    end = case["end"]
    if end == "exit":
        sys.exit(0)
    if end == "atexit":
        import atexit
        for c in confs.values():
            atexit.register(c.shutdown)
    return confs, keep, pool


def serve():
    """returns the name of a case file in a process of its own, or None"""
    import nntile
    while True:
        line = sys.stdin.readline()
        if not line:
            return None
        name = line.strip()
        pid = os.fork()
        if pid == 0:
            os.setsid()
            fd = os.open(name + ".out", os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
            os.dup2(fd, 1)
            os.dup2(fd, 2)
            os.close(fd)
            fd = os.open("/dev/null", os.O_RDONLY)
            os.dup2(fd, 0)
            os.close(fd)
            return name
        print(pid, flush=True)
        st = os.waitpid(pid, 0)[1]
        print(os.waitstatus_to_exitcode(st), flush=True)


if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    name = serve()
    if name is not None:
        left = main(json.load(open(name)))
