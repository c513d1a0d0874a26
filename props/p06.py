"""C06: sample_with_evidence draws from the exact posterior."""
from symtorch.harness import *
from .circuits import *
from .p05 import fmt
from spflow.utils.sampling_context import SamplingContext
from spflow.utils.cache import Cache

BOUNDS = ["every configuration of props/circuits.py except products over SplitByIndex (sampling refused) ",
          "all evidence patterns with 1..n-1 observed variables for n <= 3; for n = 4 the patterns with exactly one or three observed variables plus two pairs; every observed value",
          "all raw parameter values (configurations with many parameters: one parameter tensor symbolic at a time, the others at fixed generic values; quick tier: one pair and one triple of observed variables, half of the observed values); every completion; every random outcome"]


def run(m, row, F, c, r, n):
    data = torch.tensor([row] * n)
    cache = Cache()
    with torch.no_grad():
        m.log_likelihood(data, cache=cache)
        ctx = SamplingContext(channel_index=torch.full((n, F), c, dtype=torch.long), mask=torch.ones((n, F), dtype=torch.bool),
                              repetition_index=torch.full((n,), r, dtype=torch.long))
        return m._sample(data, ctx, cache)


def public(m, row, n):
    with torch.no_grad():
        return m.sample_with_evidence(torch.tensor([row] * n))


def patterns(cfg):
    vs = cfg.vars()
    for k in range(1, len(vs)):
        for obs in itertools.combinations(vs, k):
            if len(vs) == 4 and k == 2 and obs not in ((vs[0], vs[3]), (vs[1], vs[2])):
                continue
            yield obs


def check(ctx, cfg, only=None, pats=None, half=False):
    m = cfg.make(ctx, only=only)
    n_mc = 1000 if cfg.name in SLOW_SAMPLING else 10000
    vs = cfg.vars()
    asg = list(cfg.assignments())
    ll = table(ctx, cfg, m, asg)
    _, F, C, R_ = ll.shape
    dens = {(i, c, r): g_prod([g_exp(ll[i, f, c, r]) for f in range(F)]) for i in range(len(asg)) for c in range(C) for r in range(R_)}
    roots = [(c, r) for c in range(C) for r in range(R_)]
    if len(vs) > 2:
        roots = roots[:1] + roots[-1:] if len(roots) > 1 else roots
    for obs in (pats or patterns(cfg)):
        groups = {}
        for i, a in enumerate(asg):
            groups.setdefault(tuple(a[v] for v in obs), []).append(i)
        for val, idx in groups.items():
            if half and val[0] == asg[0][obs[0]]:
                continue
            ev = {v: (a if v in obs else None) for v, a in asg[idx[0]].items()}
            row = cfg.rows([ev])[0]
            lab = fmt(ev)
            todo = [] if "multiclass" in cfg.tags else [(f"[{c},{r}]", c, r, (lambda n, c=c, r=r: run(m, row, F, c, r, n))) for c, r in roots if (c, r) != (0, 0)]
            todo.append(("public", 0, 0, lambda n: public(m, row, n)))
            for nm, c, r, f in todo:
                pe = g_sum([dens[i, c, r] for i in idx])
                law = ctx.law(f, n_mc)
                for i in idx:
                    law.eq_prob([asg[i][v] for v in vs], g_div(dens[i, c, r], pe), f"{lab}->{fmt(asg[i])}{nm}", cols=vs)


HEAVY6 = HEAVY + ("sumconv", "sumconv_multi")
NAMES = [n for n in select(exclude=NO_SAMPLING) if len(CFGS[n].domains) > 1]
CASES = cases("C06", check, [n for n in NAMES if n not in HEAVY6], timeout=150, witnesses=1)
for _n in NAMES:
    if _n in HEAVY6:
        _c = CFGS[_n]
        _vs = _c.vars()
        for _i, _p in enumerate(_c.params()):
            for _o in patterns(_c):
                # quick: one triple and one pair per parameter tensor; every other pattern in the thorough tier
                _q = len(_vs) < 4 or _o in ((_vs[0], _vs[2], _vs[3]), (_vs[1], _vs[2]))
                nm = f"{_n}@{_p}:obs{''.join(map(str, _o))}"
                if _q:
                    CASES.append(Case(nm, (lambda ctx, c=_c, p=_p, o=_o: check(ctx, c, p, [o], True)), timeout=150, witnesses=1))
                CASES.append(Case(nm + ":all", (lambda ctx, c=_c, p=_p, o=_o: check(ctx, c, p, [o])), timeout=300, witnesses=1, tier="thorough"))
