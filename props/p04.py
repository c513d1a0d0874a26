"""C04: marginalize() returns the marginal distribution."""
from symtorch.harness import *
from .circuits import *


def check(ctx, cfg, prune):
    m = cfg.make(ctx)
    vs = cfg.vars()
    asg = list(cfg.assignments())
    asg = asg[:1] + asg[len(asg) // 3:len(asg) // 3 + 1] + asg[-1:]
    before = table(ctx, cfg, m, asg)
    for k in range(1, len(vs) + 1):
        for marg in itertools.combinations(vs, k):
            lab = "{" + ",".join(map(str, marg)) + "}"
            try:
                with torch.no_grad():
                    m2 = m.marginalize(list(marg), prune=prune)
            except NotImplementedError:
                continue                      # refused loudly: no circuit, no claim
            except Exception as e:
                ctx.true(False, f"{lab}:no-exception", repr(e))
                continue
            if k == len(vs):
                ctx.true(m2 is None, f"{lab}:none")
                continue
            ctx.true(m2 is not None, f"{lab}:not-none")
            if m2 is None:
                continue
            ctx.true(set(m2.scope.query) == set(vs) - set(marg), f"{lab}:scope", str(m2.scope))
            miss = [{v: (None if v in marg else x) for v, x in a.items()} for a in asg]
            want = table(ctx, cfg, m, miss)
            try:
                got = table(ctx, cfg, m2, asg)      # marginalised columns carry arbitrary values: must be ignored
            except Exception as e:
                ctx.true(False, f"{lab}:usable", repr(e))
                continue
            ctx.true(want.shape[2:] == got.shape[2:], f"{lab}:channels", f"{want.shape} vs {got.shape}")
            if want.shape[2:] != got.shape[2:]:
                continue
            for i in range(len(asg)):
                for c, r in np.ndindex(*want.shape[2:]):
                    w = g_prod([g_exp(want[i, f, c, r]) for f in range(want.shape[1])])
                    g = g_prod([g_exp(got[i, f, c, r]) for f in range(got.shape[1])])
                    ctx.eq(g, w, f"{lab}:row{i}[{c},{r}]")
    after = table(ctx, cfg, m, asg)
    for ix in np.ndindex(*before.shape):
        ctx.eqlog(after[ix], before[ix], f"original-unchanged{list(ix)}")


UNSUPPORTED = ("prod",)      # elementwise/outer products (and RAT-SPNs over them) raise NotImplementedError: see DESIGN.md
NAMES = [n for n in select(without=UNSUPPORTED) if not n.startswith("rat_")]
CASES = [Case(f"{n}:{'prune' if p else 'noprune'}", (lambda ctx, c=CFGS[n], p=p: check(ctx, c, p))) for n in NAMES for p in (True, False)]
