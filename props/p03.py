"""C03: NaN entries are marginalised exactly."""
from symtorch.harness import *
from .circuits import *


def check(ctx, cfg):
    m = cfg.make(ctx)
    full = list(cfg.assignments())
    part = [a for a in cfg.assignments(with_nan=True) if any(v is None for v in a.values())]
    ll = table(ctx, cfg, m, full + part)
    n, F, C, R_ = ll.shape
    for c in range(C):
        for r in range(R_):
            dens = [g_prod([g_exp(ll[i, f, c, r]) for f in range(F)]) for i in range(n)]
            for k, a in enumerate(part):
                comp = [dens[i] for i, b in enumerate(full) if all(a[v] is None or a[v] == b[v] for v in a)]
                ctx.eq(dens[len(full) + k], g_sum(comp), f"marg{fmt(a)}[{c},{r}]")
                if all(v is None for v in a.values()):
                    for f in range(F):
                        ctx.eqlog(ll[len(full) + k, f, c, r], ctx.c(0), f"allmissing[{f},{c},{r}]")


def fmt(a):
    return "".join("?" if v is None else str(v) for v in a.values())


CASES = cases("C03", check, select())
