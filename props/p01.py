"""C01: every output density sums to one over its scope."""
from symtorch.harness import *
from .circuits import *


def check(ctx, cfg):
    m = cfg.make(ctx)
    asg = list(cfg.assignments())
    ll = table(ctx, cfg, m, asg)
    n, F, C, R_ = ll.shape
    for c in range(C):
        for r in range(R_):
            # features have disjoint scopes, so the product over features is a density over all variables
            tot = g_sum(g_prod([g_exp(ll[i, f, c, r]) for f in range(F)]) for i in range(n))
            ctx.eq(tot, ctx.c(1), f"sum[{c},{r}]")


CASES = cases("C01", check, select())
