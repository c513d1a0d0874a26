"""C12: interval evidence gives the probability of the box."""
from symtorch.harness import *
from symtorch import sym
from symtorch.sym import S, R
from .circuits import *
from torch.utils._python_dispatch import _disable_current_modes

BOUNDS = ["circuits: every configuration of props/circuits.py whose leaves are Bernoulli or Categorical; per variable all boxes with end points from "
          "{unbounded, -1, 0, 0.5, 1, 1.5, 2, +-inf} (n <= 2 variables: all pairs of boxes; 3-4 variables: a covering selection), all raw parameter values",
          "leaves: Normal, Laplace, Exponential, Gamma, LogNormal, Uniform with real symbolic bounds and parameters, 1-2 features, 1-2 channels",
          "families without a closed-form cdf must refuse with NotImplementedError"]
ASSUMPTIONS = ["erf and the regularised incomplete gamma function are uninterpreted, strictly increasing functions with the right range"]
NAN, INF = float("nan"), float("inf")


def interval(low, high):
    from spflow.meta.data import IntervalEvidence
    return IntervalEvidence(low=low, high=high)


def boxes(d):
    hi = max(d)
    ends = [(NAN, NAN), (NAN, 0.5), (0.5, NAN), (0, 0), (1, 1), (0, 1), (-1, 5), (0.25, 0.75), (-INF, 0.0), (1, INF), (NAN, -1.0), (hi + 0.5, NAN)]
    if hi > 1:
        ends += [(0.5, 1.5), (1, 2), (2, 2)]
    return ends


def inside(v, b):
    return (b[0] != b[0] or b[0] <= v) and (b[1] != b[1] or v <= b[1])


def same(ctx, have, want, label):
    """an empty box may be reported with the documented floor 1e-40"""
    if (not isinstance(want, R)) and want == 0:
        ctx.le(have, ctx.c(Fraction(1, 10 ** 30)), label)
    else:
        ctx.eq(have, want, label)


def check(ctx, cfg, only=None):
    m = cfg.make(ctx, only=only)
    vs = cfg.vars()
    asg = list(cfg.assignments())
    ll = table(ctx, cfg, m, asg)
    per = [boxes(cfg.domains[v]) for v in vs]
    if len(vs) <= 2:
        combos = list(itertools.product(*per))
    else:
        # every box of every variable together with shifted boxes of the others
        combos = [tuple(per[j][(i * (j + 1) + k) % len(per[j])] for j in range(len(vs))) for i in range(max(map(len, per))) for k in (0, 3)]
        combos = list(dict.fromkeys(str(c) for c in combos) and {str(c): c for c in combos}.values())
    lo, hi = [], []
    for c in combos:
        l, h = [NAN] * cfg.ncols, [NAN] * cfg.ncols
        for v, b in zip(vs, c):
            l[v], h[v] = float(b[0]), float(b[1])
        lo.append(l), hi.append(h)
    with torch.no_grad():
        got = ctx.vals(m.log_likelihood(interval(ctx.tensor(lo), ctx.tensor(hi))))
    _, F, C, R_ = ll.shape
    ctx.true(got.shape == (len(combos), F, C, R_), "shape", str(got.shape))
    for c in range(C):
        for r in range(R_):
            dens = [g_prod([g_exp(ll[i, f, c, r]) for f in range(F)]) for i in range(len(asg))]
            for k, cb in enumerate(combos):
                b = dict(zip(vs, cb))
                want = g_sum([d for a, d in zip(asg, dens) if all(inside(a[v], b[v]) for v in vs)])
                same(ctx, g_prod([g_exp(got[k, f, c, r]) for f in range(F)]), want, f"[{c},{r}] {cb}")


NAMES = [n for n in CFGS if not n.startswith(("leaf_binomial", "leaf_cltree", "leaf_hypergeom", "mix_catbin", "cltree"))]
CASES = cases("C12", check, NAMES, split=("einsum_deep", "convpc", "convpc_sumconv"), timeout=120)


# ---- continuous leaves with symbolic bounds -----------------------------------------------------
def fn(name, *a):
    return sym.fn(name, *a) if S.mode_symbolic else sym.NUMFN[name](*map(float, a))


def half_erf(x):
    return g_div(g_sum([one(), fn("erf", x)]), two())


def one():
    return sym.F1 if S.mode_symbolic else 1.0


def two():
    return Fraction(2) if S.mode_symbolic else 2.0


def neg(x):
    return sym.neg(x) if S.mode_symbolic else -x


def sub(a, b):
    return g_sum([a, neg(b)])


def norm_cdf(x, loc, scale):
    s2 = g_pow(two(), Fraction(1, 2))
    return half_erf(g_div(sub(x, loc), g_prod([scale, s2])))


def laplace_cdf(x, loc, b):
    d = g_div(sub(x, loc), b)
    zero = sub(one(), one())
    if g_lt(d, zero):
        return g_div(g_exp(d), two())
    return sub(one(), g_div(g_exp(neg(d)), two()))


def leaf_case(family, shape, kd):
    def run(ctx):
        from spflow.meta.data import Scope
        import spflow.modules.leaves as L
        nf, C, R_ = shape
        with _disable_current_modes():
            torch.manual_seed(0)
            sc = Scope(list(range(nf)))
            if family == "Uniform":
                m = L.Uniform(scope=sc, low=torch.zeros(shape), high=torch.ones(shape))
            else:
                m = getattr(L, family)(scope=sc, out_channels=C, num_repetitions=R_)
        ctx.symbolize(m)
        if family == "Uniform":
            lo = np.empty(shape, dtype=object)
            hi = np.empty(shape, dtype=object)
            for ix in np.ndindex(*shape):
                lo[ix] = ctx.real(f"lo{ix}")
                hi[ix] = g_sum([lo[ix], ctx.pos(f"len{ix}")])
            m.low, m.high = ctx.tensor(lo), ctx.tensor(hi)
        pv = {k: ctx.vals(v) for k, v in m.params().items()}
        if True:
            lows, highs = [], []
            for f in range(nf):
                a = ctx.pos(f"a{f}") if family in ("Exponential", "Gamma", "LogNormal") else ctx.real(f"a{f}")
                d = ctx.pos(f"d{f}")
                b = g_sum([a, d])
                loc = pv["loc"][f, 0, 0] if family == "Laplace" else None
                if kd.startswith("[loc"):
                    x = ctx.pos(f"x{f}")
                l, h = {"[loc-x-d,loc-x]": lambda: (sub(sub(loc, x), d), sub(loc, x)), "[loc-x,loc+d]": lambda: (sub(loc, x), g_sum([loc, d])),
                        "[loc+x,loc+x+d]": lambda: (g_sum([loc, x]), g_sum([loc, x, d]))}[kd]() if kd.startswith("[loc") else {"[a,a+d]": (a, b), "(-inf,a]": (NAN, a), "[a,inf)": (a, NAN), "all": (NAN, NAN), "(-inf,inf)": (-INF, INF),
                        "[-a,d]": (neg(a), d), "[-a-d,-a]": (neg(g_sum([a, d])), neg(a)), "(-inf,-a]": (NAN, neg(a))}[kd]
                lows.append(l), highs.append(h)
            with torch.no_grad():
                got = ctx.vals(m.log_likelihood(interval(ctx.tensor([lows]), ctx.tensor([highs]))))
            for f in range(nf):
                for c in range(C):
                    for r in range(R_):
                        p = {k: v[f, c, r] for k, v in pv.items()}
                        want = box_prob(family, lows[f], highs[f], p)
                        have = g_exp(got[0, f, c, r])
                        same(ctx, have, want, f"{kd} {[f, c, r]}")
    return run


def cdf(family, x, p):
    """x: scalar, or -inf/inf"""
    if isinstance(x, float) and x != x or isinstance(x, float) and abs(x) == INF:
        raise ValueError
    if family == "Normal":
        return norm_cdf(x, p["loc"], p["scale"])
    if family == "Laplace":
        return laplace_cdf(x, p["loc"], p["scale"])
    zero = sub(one(), one())
    if not g_lt(zero, x):
        return zero
    if family == "Exponential":
        return sub(one(), g_exp(neg(g_prod([p["rate"], x]))))
    if family == "Gamma":
        return fn("igamma", p["concentration"], g_prod([p["rate"], x]))
    if family == "LogNormal":
        return norm_cdf(g_log(x), p["loc"], p["scale"])
    raise ValueError(family)


def box_prob(family, l, h, p):
    zero = sub(one(), one())
    if family == "Uniform":
        a, b = p["low"], p["high"]
        isf = lambda x: not (isinstance(x, float) and (x != x or abs(x) == INF))
        lo = g_max([a, l]) if isf(l) else a
        hi = neg(g_max([neg(b), neg(h)])) if isf(h) else b
        return g_div(g_max([sub(hi, lo), zero]), sub(b, a))
    unb = lambda x: isinstance(x, float) and (x != x or abs(x) == INF)
    up = one() if unb(h) else cdf(family, h, p)
    dn = zero if unb(l) else cdf(family, l, p)
    return sub(up, dn)


def refuses(family):
    def run(ctx):
        from spflow.meta.data import Scope
        import spflow.modules.leaves as L
        with _disable_current_modes():
            torch.manual_seed(0)
            kw = {"Binomial": dict(total_count=torch.full((1, 1, 1), 3.0)), "NegativeBinomial": dict(total_count=torch.full((1, 1, 1), 3.0)),
                  "Hypergeometric": dict(K=torch.full((1, 1, 1), 2.0), N=torch.full((1, 1, 1), 4.0), n=torch.full((1, 1, 1), 2.0))}.get(family, dict(out_channels=1))
            m = getattr(L, family)(scope=Scope([0]), **kw)
        ctx.symbolize(m)
        ctx.raises(NotImplementedError, lambda: m.log_likelihood(interval(ctx.tensor([[0.0]]), ctx.tensor([[1.0]]))), "refuses")
    return run


def invalid(ctx):
    a, d = ctx.real("a"), ctx.pos("d")
    ctx.raises(ValueError, lambda: interval(ctx.tensor([[g_sum([a, d])]]), ctx.tensor([[a]])), "low > high is rejected")
    ctx.raises(ValueError, lambda: interval(ctx.tensor([[a, d]]), ctx.tensor([[a]])), "shape mismatch is rejected")
    ctx.raises(ValueError, lambda: interval(ctx.tensor([a]), ctx.tensor([a])), "one-dimensional bounds are rejected")
    e = interval(ctx.tensor([[a, NAN, NAN, -INF]]), ctx.tensor([[a, a, NAN, INF]]))
    ctx.true(tuple(e.shape) == (1, 4), "valid evidence accepted")


for _f, _s in (("Normal", (1, 2, 1)), ("Normal", (2, 1, 1)), ("Laplace", (1, 1, 1)), ("Laplace", (2, 1, 1)), ("Exponential", (1, 1, 2)), ("Exponential", (2, 1, 1)),
               ("Gamma", (1, 2, 1)), ("LogNormal", (1, 2, 1)), ("Uniform", (1, 1, 1)), ("Uniform", (2, 1, 1))):
    for _k in (["[loc-x-d,loc-x]", "[loc-x,loc+d]", "[loc+x,loc+x+d]"] if _f == "Laplace" else ["[a,a+d]"]) + ["(-inf,a]", "[a,inf)", "all", "(-inf,inf)"] + (["[-a,d]", "[-a-d,-a]", "(-inf,-a]"] if _f in ("Exponential", "Gamma", "LogNormal") else []):
        CASES.append(Case(f"leaf:{_f}{list(_s)}:{_k}", leaf_case(_f, _s, _k), max_paths=3000))
for _f in ("Poisson", "Geometric", "Binomial", "NegativeBinomial", "Hypergeometric"):
    CASES.append(Case(f"refuse:{_f}", refuses(_f)))
CASES.append(Case("evidence", invalid))
