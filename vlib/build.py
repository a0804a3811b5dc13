"""Out-of-tree build of /repo's current working tree into /verif/build.

/repo is mirrored by content (unchanged files keep their mtime, so ninja only
rebuilds what really changed) and built with the same flags as the project's
own build, in one of two flavours: "plain" and "asan".
"""
import fcntl, glob, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
PY = "/opt/nntile-venv/bin/python"
SRC = os.path.join(BUILD, "src")


class BuildError(Exception):
    pass


def _run(cmd, log, cwd=None, env=None):
    with open(log, "ab") as f:
        f.write(("$ " + " ".join(cmd) + "\n").encode())
        f.flush()
        r = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, cwd=cwd,
                env=env, stdin=subprocess.DEVNULL)
    if r.returncode != 0:
        tail = open(log, "rb").read()[-6000:].decode(errors="replace")
        raise BuildError("command failed (%d): %s\n%s" % (r.returncode,
            " ".join(cmd), tail))


def base_env():
    e = dict(os.environ)
    for k in ("PYTHONPATH", "LD_PRELOAD"):
        e.pop(k, None)
    e.update(PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        HOME=BUILD, PYTHONDONTWRITEBYTECODE="1", STARPU_SILENT="1",
        STARPU_HOME=BUILD, STARPU_HOSTNAME="verif")
    return e


def flavour_dir(fl):
    return os.path.join(BUILD, "b-" + fl)


def py_dir(fl):
    return os.path.join(BUILD, "py-" + fl)


def _compile_sched(log, env):
    src = os.path.join(VERIF, "cxx", "vsched.c")
    out = os.path.join(BUILD, "libvsched.so")
    if not os.path.exists(out) or os.path.getmtime(out) < os.path.getmtime(src):
        _run(["gcc", "-O1", "-g", "-fPIC", "-shared", "-o", out + ".tmp", src,
            "-I/usr/include/starpu/1.4", "-lstarpu-1.4", "-lpthread"], log,
            env=env)
        os.replace(out + ".tmp", out)


def _calibrate(env):
    """the runtime measures the machine once; do it before processes start
    concurrently, so that they do not race on the files"""
    code = "import ctypes; l=ctypes.CDLL('libstarpu-1.4.so.4'); r=l.starpu_init(None); l.starpu_shutdown() if r==0 else None"
    e = dict(env, STARPU_NCPU="1", STARPU_NCUDA="0", STARPU_SILENT="1",
        STARPU_WORKERS_NOBIND="1", STARPU_MAIN_THREAD_NOBIND="1")
    subprocess.run([PY, "-c", code], env=e, stdin=subprocess.DEVNULL,
        stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)


def _compile_tilemod(fl, log, env):
    """pybind11 module exposing the tile-level C++ API"""
    src = os.path.join(VERIF, "cxx", "vtile.cc")
    if not os.path.exists(src):
        return
    d = py_dir(fl)
    out = os.path.join(d, "vtile.so")
    lib = libs(fl)[0]
    hdrs = [src] + glob.glob(SRC + "/include/**/*.hh", recursive=True) \
            + glob.glob(flavour_dir(fl) + "/include/**/*.h*", recursive=True)
    newest = max(os.path.getmtime(h) for h in hdrs)
    if os.path.exists(out) and os.path.getmtime(out) >= newest:
        return
    inc = subprocess.run([PY, "-c", "import sysconfig;print(sysconfig.get_paths()['include'])"],
            stdout=subprocess.PIPE, env=env).stdout.decode().strip()
    flags = ["-O1", "-g0"]
    if fl == "asan":
        flags += ["-fsanitize=address,undefined", "-fno-sanitize=vptr,alignment"]
    _run(["g++", "-std=c++17", "-fPIC", "-shared", "-w", "-include", "cmath"]
        + flags + ["-o", out + ".tmp", src, "-I" + SRC + "/include",
        "-I" + flavour_dir(fl) + "/include",
        "-I/usr/include/starpu/1.4", "-I" + inc, "-I/usr/include/pybind11/..",
        lib, "-Wl,-rpath," + os.path.dirname(lib), "-lstarpu-1.4"], log, env=env)
    os.replace(out + ".tmp", out)


def libs(fl):
    b = flavour_dir(fl)
    l = glob.glob(b + "/**/libnntile.so", recursive=True)
    c = glob.glob(b + "/**/nntile_core*.so", recursive=True)
    if not l or not c:
        raise BuildError("libraries not found in " + b)
    return l[0], c[0]


def ensure(fl="plain", tile=False, verbose=False):
    """Build flavour fl from /repo's working tree. Returns seconds spent."""
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        log = os.path.join(BUILD, "build-%s.log" % fl)
        open(log, "wb").close()
        env = base_env()
        _run(["rsync", "-rlpc", "--delete", "--exclude=/.git",
            "--exclude=/_build", "--exclude=__pycache__", REPO + "/", SRC + "/"],
            log, env=env)
        b = flavour_dir(fl)
        flags = "-Wno-error -w -include cmath"
        bt = "RelWithDebInfo"
        extra = ["-DCMAKE_CXX_FLAGS_RELWITHDEBINFO=-O2 -DNDEBUG"]
        if fl == "asan":
            flags += " -fsanitize=address,undefined -fno-omit-frame-pointer" \
                    " -fno-sanitize=vptr,alignment"
            extra = ["-DCMAKE_CXX_FLAGS_RELWITHDEBINFO=-O1 -g1 -DNDEBUG"]
        _run(["cmake", "-S", SRC, "-B", b, "-G", "Ninja", "-Wno-dev",
            "-DCMAKE_C_COMPILER=gcc", "-DCMAKE_CXX_COMPILER=g++",
            "-DCMAKE_BUILD_TYPE=" + bt, "-DCMAKE_CXX_FLAGS=" + flags,
            "-DBUILD_TESTS=OFF", "-DUSE_CUDA=OFF", "-DPYTHON_EXECUTABLE=" + PY,
            "-DFETCHCONTENT_FULLY_DISCONNECTED=ON",
            "-DFETCHCONTENT_TRY_FIND_PACKAGE_MODE=ALWAYS"] + extra, log, env=env)
        _run(["ninja", "-C", b, "-j8", "nntile", "nntile_core"], log, env=env)
        lib, core = libs(fl)
        d = py_dir(fl)
        os.makedirs(d, exist_ok=True)
        _run(["rsync", "-rlpc", "--delete", "--exclude=__pycache__",
            "--exclude=*.so", SRC + "/wrappers/python/nntile", d + "/"], log,
            env=env)
        dst = os.path.join(d, "nntile", os.path.basename(core))
        _run(["rsync", "-lpc", core, dst], log, env=env)
        _compile_sched(log, env)
        _calibrate(env)
        if tile:
            _compile_tilemod(fl, log, env)
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()
    return time.time() - t0


if __name__ == "__main__":
    try:
        for fl in (sys.argv[1:] or ["plain", "asan"]):
            print("build", fl, "%.1fs" % ensure(fl, tile=True))
    except BuildError as e:
        print(e)
        sys.exit(2)
