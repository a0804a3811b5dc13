"""Property modules made of catalogue operations checked against references."""
from . import core, ops


def setup(g, tags, rule, budget, weights=None, only=None, gen_extra=None):
    names = only or ops.by_tag(*tags)
    pool = []
    for n in names:
        pool += [n] * (weights or {}).get(n, 1)

    def gen(rng, tier):
        c = ops.OPS[rng.choice(pool)].gen(rng)
        if rng.random() < 0.3:
            c["batch"] = 1          # submit everything before anything runs
        elif rng.random() < 0.2:
            c["sync"] = 1           # the blocking form of the operation
        if rng.random() < 0.1:
            ops.share_some(rng, c)
        if gen_extra:
            c = gen_extra(rng, c, tier)
        return c

    def check(env, case):
        core.check_op(env, case)

    g.setdefault("gen", gen)
    g.setdefault("check", check)
    g.setdefault("valid", ops.valid)
    g.setdefault("shrinks", ops.shrinks)
    g.setdefault("nontrivial", core.op_nontrivial)
    g.setdefault("labels", core.op_labels)
    g.setdefault("RULE", rule)
    g.setdefault("BUDGET", budget)
    g.setdefault("ASSUMPTIONS", [
        "numpy long double arithmetic as the reference; tolerance C*eps*(condition scale) per operation",
        "CPU execution; StarPU executes a task only after its declared dependencies"])
