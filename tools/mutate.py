#!/usr/bin/env python3
"""Samples small mutants of /repo and runs the checks against each, in throw-away copies of /repo and /verif bind-mounted in
private mount namespaces. For finding gaps only; no check uses it.

mutate.py gen SEED PER_FILE PATTERN... > mutants.json     (patterns: path fragments)
mutate.py run mutants.json WORKERS OUT.jsonl               results, survivors have "caught": null
"""
import ast, glob, json, os, random, re, subprocess, sys, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TAG = {"act": ["N01"], "ew": ["N02"], "norm": ["N26", "N02"], "bc": ["N03"], "red": ["N04"], "lnorm": ["N07"], "gemm": ["N05"], "smx": ["N06"], "loss": ["N14"], "mv": ["N09", "N08"],
    "emb": ["N11"], "opt": ["N12"], "flash": ["N16"]}
FILEP = {"copy_intersection": ["N09", "N08", "N25", "N28"], "subcopy": ["N09", "N08", "N25"], "scatter": ["N08"], "gather": ["N08"], "copy": ["N08", "N09"], "randn": ["N10", "N25"], "distributions": ["N21"], "traits": ["N21", "N08"],
    "tensor.py": ["N02", "N03", "N04", "N12", "N20"], "accumulate": ["N04", "N15"], "accumulate_hypot": ["N04"], "accumulate_maxsumexp": ["N06"],
    "linear.py": ["N15"], "attention.py": ["N16"], "flash_attention.py": ["N16"], "layer_norm.py": ["N07", "N17"], "mixer.py": ["N17"], "act.py": ["N17"], "add.py": ["N17"], "add_slice.py": ["N17"],
    "embedding.py": ["N11"], "base_layer.py": ["N30", "N15", "N27", "N28"], "frob.py": ["N14"], "crossentropy.py": ["N14"], "pipeline.py": ["N19"], "gpt2.py": ["N18"], "mlp_mixer.py": ["N18", "N19"],
    "deep_linear.py": ["N15", "N18"], "deep_relu.py": ["N15", "N18"], "base_model.py": ["N30", "N19", "N18", "N15"], "adam.py": ["N12", "N13"], "adamw.py": ["N12", "N13"], "sgd.py": ["N12", "N13"], "empty.py": ["N19"]}
REST = ["N23", "N25", "N20", "N22", "N28", "N27", "N19", "N17", "N16", "N15", "N18", "N24"]


def props_of(path):
    b = os.path.basename(path)
    n = os.path.basename(os.path.dirname(path)) if b == "cpu.cc" else b.replace(".in", "").replace(".cc", "").replace(".hh", "")
    first = list(FILEP.get(n, []))
    sys.path.insert(0, V)
    from vlib import ops
    for q in (n, n.split("_backward_")[0], n + "_backward" if n.startswith("flash") else n):
        if q in ops.OPS:
            for t in ops.OPS[q].tags:
                first += [p for p in TAG.get(t, []) if p not in first]
    if "/tile/" in path:
        first = ["N25"] + first
    if n.startswith("flash"):
        first = first or ["N16"]
    out = first + [p for p in REST if p not in first]
    return out


def swaps(line, cpp, rng):
    """possible replacements of one line"""
    out = []

    def alt(pat, rep):
        for m in re.finditer(pat, line):
            out.append(line[:m.start()] + m.expand(rep) + line[m.end():])
    alt(r"(?<![<\-])<(?=[ =]*[\w(])(?!=)", "<=") if not cpp or "for(" in line or "if(" in line else None
    alt(r"<=", "<")
    alt(r"(?<=[\w\])] )>(?= )|(?<=[\w\])])>(?=[\w(] ?\w*\))", ">=") if not cpp or "if(" in line else None
    alt(r">=", ">")
    alt(r" == ", " != ")
    alt(r" != ", " == ")
    alt(r"(?<=[\w\])])( ?)\+( ?)(?=[\w(])", r"\1-\2")
    alt(r"(?<=[\w\])])( ?)-( ?)(?=[\w(])(?!>)", r"\1+\2")
    alt(r"(?<=[\w\])])( ?)\*( ?)(?=[\w(])(?! ?\*)", r"\1/\2") if "void *" not in line and "const T *" not in line and "*)" not in line else None
    alt(r"(?<=[\w\])])( ?)/( ?)(?=[\w(])(?!/)", r"\1*\2")
    alt(r"\band\b", "or")
    alt(r"\bor\b", "and")
    alt(r"(?<![\w.])0(?![\w.])", "1")
    alt(r"(?<![\w.])1(?![\w.])", "0")
    alt(r"(?<![\w.])1(?![\w.])", "2")
    alt(r"(?<![\w.])2(?![\w.])", "3")
    alt(r"\b0\.0\b", "1.0")
    alt(r"\b1\.0\b", "0.0")
    alt(r"\bzero\b", "one")
    alt(r"\bone\b", "zero")
    alt(r"\balpha\b", "beta")
    alt(r"\bbeta\b", "alpha")
    alt(r"STARPU_RW\b", "STARPU_R")
    alt(r"\+=", "=")
    alt(r"\btrue\b", "false")
    alt(r"\bfalse\b", "true")
    alt(r"\bTrue\b", "False")
    alt(r"\bFalse\b", "True")
    alt(r"\bm\b", "n")
    alt(r"\bn\b", "m")
    alt(r"\bi\b", "i+1") if cpp and "Index i" not in line else None
    alt(r"\bmatrix_shape\b", "matrix_shape") if 0 else None
    alt(r"\.value\b", ".grad")
    alt(r"\.grad\b", ".value")
    alt(r"\bstd::max\b", "std::min")
    alt(r"\bstd::min\b", "std::max")
    alt(r"\bnotrans\b", "trans")
    alt(r"(?<!no)\btrans\b", "notrans")
    if cpp:
        m = re.match(r"(\s*)(else )?if\((.*)\)\s*$", line)
        if m:
            out.append("%s%sif(false and (%s))" % (m.group(1), m.group(2) or "", m.group(3)))
            out.append("%s%sif(true or (%s))" % (m.group(1), m.group(2) or "", m.group(3)))
        if re.match(r"\s*[\w\[\]:.>()\-]+ ?[*+\-/]?= .*;\s*$", line) and not re.match(r"\s*(auto|const|Index|T|int|bool)\b", line):
            out.append(re.sub(r"\S.*", ";", line, count=1))
        if re.match(r"\s*[\w:<>]+\(.*\);\s*$", line):
            out.append(re.sub(r"\S.*", ";", line, count=1))
    else:
        m = re.match(r"(\s*)(el)?if (.*):\s*$", line)
        if m:
            out += ["%s%sif %s:" % (m.group(1), m.group(2) or "", q) for q in ("False and (%s)" % m.group(3), "True or (%s)" % m.group(3), "not (%s)" % m.group(3))]
        if re.match(r"\s+[\w.\[\]]+(\(.*\)| [*+\-/]?= .*)$", line):
            out.append(re.match(r"\s*", line).group() + "pass")
        m = re.search(r"\(([^()]*)\)", line)
        if m:
            a = m.group(1).split(", ")
            for i in range(len(a) - 1):
                b = list(a)
                b[i], b[i + 1] = b[i + 1], b[i]
                out.append(line[:m.start(1)] + ", ".join(b) + line[m.end(1):])
    return [o for o in out if o != line]


def candidates(path):
    s = open("/repo/" + path).read()
    lines = s.split("\n")
    cpp = not path.endswith(".py")
    res = []
    comment = cuda = False
    func = ""
    depth = ns = 0
    for k, l in enumerate(lines):
        t = l.strip()
        if cpp:
            if t.startswith("/*") or t.startswith("/*!"):
                comment = True
            if comment:
                if "*/" in t:
                    comment = False
                continue
            if t.startswith("#if") and "CUDA" in t:
                cuda = True
            if t.startswith("#"):
                if t.startswith("#endif") or t.startswith("#else"):
                    cuda = False
                continue
            if cuda:
                continue
            m = re.match(r"[\w:<>]+[\w:<> *&]* \**(\w+)\(", l)
            if m and not l.startswith(" "):
                func = m.group(1)
            d0 = depth
            depth += l.count("{") - l.count("}")
            if t.startswith("namespace"):
                continue
            if t.startswith("//") or t.startswith("throw") or t.startswith('"') or "mpi" in t or d0 < 3 or func in ("footprint", "init", "restrict_where", "restore_where", "operator") or t.startswith("template"):
                continue
            if re.match(r"(static |constexpr |const )*[\w:<>]+ [\w&* ]*\(|(static|constexpr|extern|Codelet)\b", t) and (t.endswith(",") or "constexpr" in t or "Codelet" in t):
                continue
            if re.match(r"(Index|Scalar|T|Y|int|bool|const [\w:<>&]+|Handle|void) [\w*&]+[,)]", t) or re.search(r"\b(Index|Scalar|Handle|const \w+<T>) &?\w+[,)]", t):
                continue
            if "FXT" in t or "ret != 0" in t or "Error in" in t or t.startswith("//") or "prio" in t or "cublas" in t or "flops" in t or "_nbuffers" in t:
                continue
        else:
            if t.startswith("#") or t.startswith("import") or t.startswith("from") or t.startswith('"') or "wont_use" in t or "invalidate_submit" in t or "print(" in t or "raise" in t or t.startswith("def ") or t.startswith("class "):
                continue
        for o in swaps(l, cpp, None):
            if not cpp:
                new = lines[:k] + [o] + lines[k + 1:]
                try:
                    ast.parse("\n".join(new))
                except SyntaxError:
                    continue
            res.append((k, l, o))
    return res


def gen(seed, per, pats):
    rng = random.Random(seed)
    files = sorted(glob.glob("/repo/src/kernel/*/cpu.cc") + glob.glob("/repo/src/starpu/*.cc*") + glob.glob("/repo/src/tensor/*.cc*") + glob.glob("/repo/src/tile/*.cc*")
        + glob.glob("/repo/wrappers/python/nntile/*.py") + glob.glob("/repo/wrappers/python/nntile/*/*.py") + glob.glob("/repo/include/nntile/*/*.hh"))
    out = []
    for f in files:
        p = f[6:]
        if not any(q in p for q in pats) or any(q in p for q in ("fp16", "fp32_to", "tf32", "gemm_ex", "__init__", "_mp.py", "torch_models", "print_", "config.hh", "version", "include/nntile/layer", "include/nntile/model", "include/nntile/tensor/tensor.hh", "logger", "include/nntile/kernel")):
            continue
        c = candidates(p)
        rng.shuffle(c)
        seen = set()
        for k, a, b in c:
            if k in seen and len(c) > per:
                continue
            seen.add(k)
            ps = props_of(p)
            if "false and" in b or "true or" in b or re.search(r"if\(.*!=", a):
                ps = ps[:1] + ["N20"] + [q for q in ps[1:] if q != "N20"]
            if "wait_for_all" in a or re.search(r"_async<T>\(", a):
                ps = ps[:1] + ["N28"] + [q for q in ps[1:] if q != "N28"]
            out.append({"file": p, "line": k + 1, "old": a, "new": b, "props": ps})
            if len(seen) >= per:
                break
    rng.shuffle(out)
    json.dump(out, sys.stdout, indent=0)


def work(mf, w, n, outf, full):
    ms = json.load(open(mf))
    for i, m in enumerate(ms):
        if i % n != w:
            continue
        p = "/repo/" + m["file"]
        s = open(p).read()
        lines = s.split("\n")
        assert lines[m["line"] - 1] == m["old"]
        lines[m["line"] - 1] = m["new"]
        open(p, "w").write("\n".join(lines))
        t0 = time.time()
        res = dict(m, id=i, caught=None, tried=[])
        ps = m["props"] if full else m["props"][:4]
        try:
            for q in ps:
                e = dict(os.environ, VERIF_TCAP="10" if not full else "25", VERIF_NOSHRINK="1", VERIF_SEED="1")
                r = subprocess.run(["timeout", "600", "./check", q, "--jobs", "3" if not full else "7"], cwd="/verif", env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)
                o = r.stdout.decode(errors="replace")
                res["tried"].append(q)
                if r.returncode == 1 and "VIOLATION" in o:
                    res["caught"] = q
                    f = [l for l in o.split("\n") if "failure:" in l]
                    res["how"] = f[0][:200] if f else ""
                    break
                if r.returncode != 0:
                    res["caught"] = "error %s" % r.returncode
                    res["how"] = o[-400:]
                    break
        finally:
            open(p, "w").write(s)
        res["t"] = round(time.time() - t0, 1)
        del res["props"]
        with open(outf, "a") as f:
            f.write(json.dumps(res) + "\n")


def run(mf, n, outf, full):
    ps = []
    for w in range(n):
        D = "/tmp/mut/s%d" % w
        subprocess.check_call("mkdir -p %s/verif; cp -a /repo %s/repo; cd /verif; git archive HEAD | tar x -C %s/verif; cp -a build %s/verif/build; cp -a props vlib cxx tools %s/verif/" % ((D,) * 5), shell=True)
        ps.append(subprocess.Popen(["unshare", "-m", "bash", "-c", "mount --bind %s/repo /repo && mount --bind %s/verif /verif && exec /opt/nntile-venv/bin/python /verif/tools/mutate.py work %s %d %d %s %s" % (D, D, mf, w, n, outf, full)]))
    for p in ps:
        p.wait()
    for w in range(n):
        subprocess.call(["rm", "-rf", "/tmp/mut/s%d" % w])


if __name__ == "__main__":
    a = sys.argv
    if a[1] == "gen":
        gen(int(a[2]), int(a[3]), a[4:])
    elif a[1] == "run":
        run(os.path.abspath(a[2]), int(a[3]), os.path.abspath(a[4]), a[5] if len(a) > 5 else "")
    else:
        work(a[2], int(a[3]), int(a[4]), a[5], a[6] if len(a) > 6 else "")
