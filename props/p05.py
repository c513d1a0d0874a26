"""C05: the law of sample() is exp(log_likelihood)."""
from symtorch.harness import *
from .circuits import *
from spflow.utils.sampling_context import SamplingContext
from spflow.utils.cache import Cache

BOUNDS = ["every configuration of props/circuits.py (scopes of 1-4 finite-domain variables, <= 2 channels and <= 2 repetitions per module)",
          "all raw parameter values; every joint assignment; every random outcome (draws are stubbed by their documented law, infeasible outcomes pruned by z3)"]


def draw(m, D, F, c, r, n):
    data = torch.full((n, D), float("nan"))
    ctx = SamplingContext(channel_index=torch.full((n, F), c, dtype=torch.long), mask=torch.ones((n, F), dtype=torch.bool),
                          repetition_index=torch.full((n,), r, dtype=torch.long))
    with torch.no_grad():
        return m._sample(data, ctx, Cache())


def public(m, D, n):
    with torch.no_grad():
        return m.sample(num_samples=n)


def check(ctx, cfg):
    m = cfg.make(ctx)
    n_mc = 2000 if cfg.name in SLOW_SAMPLING else 20000
    vs = cfg.vars()
    D = cfg.ncols
    asg = list(cfg.assignments())
    ll = table(ctx, cfg, m, asg)
    _, F, C, R_ = ll.shape
    dens = {(i, c, r): g_prod([g_exp(ll[i, f, c, r]) for f in range(F)]) for i in range(len(asg)) for c in range(C) for r in range(R_)}
    if "multiclass" not in cfg.tags:
        for c in range(C):
            for r in range(R_):
                law = ctx.law(lambda n, c=c, r=r: draw(m, D, F, c, r, n), n_mc)
                for i, a in enumerate(asg):
                    law.eq_prob([a[v] for v in vs], dens[i, c, r], f"law{fmt(a)}[{c},{r}]", cols=vs)
    law = ctx.law(lambda n: public(m, D, n), n_mc)
    for i, a in enumerate(asg):
        law.eq_prob([a[v] for v in vs], dens[i, 0, 0], f"public{fmt(a)}", cols=vs)


def fmt(a):
    return "".join("?" if v is None else str(v) for v in a.values())


CASES = cases("C05", check, select(exclude=NO_SAMPLING))


# ---- continuous and count leaves: the draw as a function of its noise -------------------------------
def leaf(name, shape):
    def run(ctx):
        from . import draws, leaves
        nf, C, R_ = shape
        cols = [3, 1][:nf]
        m = leaves.make(ctx, name, shape, cols)
        P = leaves.raw(ctx, m)
        D, rows = 5, 2 if name != "Laplace" else 1      # every Laplace cell forks on the sign of its noise
        for s in range(C):
            n = rows if ctx.symbolic else rows * 4000
            torch.manual_seed(ctx.seed + 3)
            ch = torch.tensor([[(b + f + s) % C for f in range(nf)] for b in range(rows)] * (n // rows), dtype=torch.long)
            rep = torch.tensor([b % R_ for b in range(rows)] * (n // rows), dtype=torch.long)
            sc = SamplingContext(channel_index=ch, mask=torch.ones((n, nf), dtype=torch.bool), repetition_index=rep)
            data = torch.full((n, D), float("nan"), dtype=torch.float64)
            with torch.no_grad():
                out = m._sample(data, sc, Cache())
            used = []
            e = ctx.vals(out) if ctx.symbolic else out.numpy()
            for b in range(rows):
                for f in range(nf):
                    ix = (f, (b + f + s) % C, b % R_)
                    lab = f"shift {s} row {b} feature {f}"
                    if ctx.symbolic:
                        draws.law(ctx, name, m, P, e[b, cols[f]], ix, lab, used)
                    else:
                        draws.numeric_law(ctx, name, m, P, e[b::rows, cols[f]], ix, lab)
            if ctx.symbolic:
                ctx.true(len(set(used)) == len(used), f"shift {s}: cells are drawn independently", str(used))
                for b in range(rows):
                    for j in range(D):
                        if j not in cols:
                            ctx.true(isinstance(e[b, j], float) and e[b, j] != e[b, j], f"shift {s}: column {j} untouched", str(e[b, j]))
    return run


for _f in ("Normal", "LogNormal", "Laplace", "Exponential", "Gamma", "Uniform", "Poisson", "NegativeBinomial", "Geometric"):
    for _s in ((1, 2, 2), (2, 2, 1)) if _f != "Laplace" else ((1, 2, 1), (1, 1, 2), (2, 1, 1)):
        CASES.append(Case(f"leaf:{_f}:{_s}", leaf(_f, _s), timeout=100, witnesses=1))


def hist(ctx):
    from . import draws, leaves
    m = leaves.make(ctx, "Histogram", (1, 2, 2), [2])
    P = leaves.raw(ctx, m)
    for c in range(2):
        for r in range(2):
            def run(n):
                sc = SamplingContext(channel_index=torch.full((n, 1), c, dtype=torch.long), mask=torch.ones((n, 1), dtype=torch.bool),
                                     repetition_index=torch.full((n,), r, dtype=torch.long))
                with torch.no_grad():
                    return m._sample(torch.full((n, 3), float("nan"), dtype=torch.float64), sc, Cache())[:, 2:]
            draws.histogram(ctx, run, m, P, (0, c, r), f"[{c},{r}]")


CASES.append(Case("leaf:Histogram", hist, timeout=100, witnesses=1))
