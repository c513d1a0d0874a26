"""C25: leaf densities and supports match their families."""
from symtorch.harness import *
from symtorch import sym
from symtorch.harness import S
from . import leaves as LV
from .leaves import FAM, k, sub, neg, sigm
from torch.utils._python_dispatch import _disable_current_modes

NAN, INF = float("nan"), float("inf")
TOL = Fraction(1, 10 ** 9)
BOUNDS = ["Bernoulli, Categorical, Binomial, Geometric, NegativeBinomial, Poisson, Hypergeometric, Normal, LogNormal, Laplace, Exponential, Gamma, Uniform, Histogram: 1-2 features x 1-2 channels x 1-2 repetitions, every raw parameter value, "
          "every real in-support value (continuous) or counts up to 4 (discrete); values outside the support must give -inf or be rejected, for one row and inside a mixed batch",
          "accessors: every valid parameter value assigned by constructor and setter is reported and used"]
ASSUMPTIONS = ["lgamma is an uninterpreted function of a symbolic argument"]


def compare(ctx, name, have, want, label):
    if want is LV.FLOOR:
        for a, b, side in ((Fraction(1, 2 * 10 ** 12) * Fraction(999999, 1000000), None, "lower"), (None, Fraction(1, 2 * 10 ** 12) * Fraction(1000001, 1000000), "upper")):
            ctx.le(ctx.c(a) if a else g_exp(have), ctx.c(b) if b else g_exp(have), f"{label} floor {side}")
        return
    ctx.eqlog(have, want, label)


def density(name, shape, scope=None, first=0):
    def run(ctx):
        fam = FAM[name]
        nf, C, R = shape
        m = LV.make(ctx, name, shape, scope=scope)
        sc = list(m.scope.query)
        P = LV.raw(ctx, m)
        n = len(fam.support) if fam.discrete else 1
        rows = [[fam.value(ctx, first + i, f, m) for f in range(nf)] for i in range(n)]
        data = [[NAN if c not in sc else r[sc.index(c)] for c in range(max(sc) + 1)] for r in rows]
        with torch.no_grad():
            ll = ctx.vals(m.log_likelihood(ctx.tensor(data)))
        ctx.true(ll.shape == (n, nf, C, R), "shape", str(ll.shape))
        for i in range(n):
            for ix in np.ndindex(nf, C, R):
                compare(ctx, name, ll[(i,) + ix], fam.logd(m, P, rows[i][ix[0]], ix), f"row {i} cell {list(ix)}")
    return run


def outside(name, shape, x, cell):
    """x outside the support of every channel, in feature `cell` of one row, alone or next to a supported row"""
    def run(ctx):
        fam = FAM[name]
        nf, C, R = shape
        m = LV.make(ctx, name, shape)
        for nm, extra in (("alone", 0), ("batch", 1)):
            rows = [[fam.value(ctx, i, f, m) for f in range(nf)] for i in range(1 + extra)]
            rows[0][cell] = x
            try:
                with torch.no_grad():
                    ll = ctx.vals(m.log_likelihood(ctx.tensor(rows)))
            except ValueError:
                ctx.true(True, f"{nm}: rejected")
                continue
            for c, r in np.ndindex(C, R):
                v = ll[0, cell, c, r]
                ctx.true(isinstance(v, float) and v == -INF, f"{nm}: -inf {[c, r]}", f"{v!r}")
    return run


def hyper_cells(ctx):
    """different supports per channel: each cell follows its own mass function"""
    import spflow.modules.leaves as L
    with _disable_current_modes():
        m = L.Hypergeometric(scope=[0], K=torch.tensor([[[1.0], [3.0]]]), N=torch.tensor([[[4.0], [4.0]]]), n=torch.tensor([[[2.0], [2.0]]]))
    ctx.symbolize(m)
    for x in (0, 1, 2):
        with torch.no_grad():
            ll = ctx.vals(m.log_likelihood(ctx.tensor([[float(x)]])))
        for c, (K, N, n) in enumerate([(1, 4, 2), (3, 4, 2)]):
            p = math.comb(K, x) * math.comb(N - K, n - x) / math.comb(N, n)
            ctx.eq(g_exp(ll[0, 0, c, 0]), ctx.c(Fraction(math.comb(K, x) * math.comb(N - K, n - x), math.comb(N, n))), f"x={x} channel {c}")
            del p


def uniform_sides(side):
    def run(ctx):
        import spflow.modules.leaves as L
        with _disable_current_modes():
            m = L.Uniform(scope=[0], low=torch.zeros(1, 1, 1), high=torch.ones(1, 1, 1), validate_args=False)
        ctx.symbolize(m)
        FAM["Uniform"].setup(ctx, m)
        d = ctx.pos("d")
        lo, hi = ctx.vals(m.low)[0, 0, 0], ctx.vals(m.high)[0, 0, 0]
        x = sub(lo, d) if side == "below" else g_sum([hi, d])
        with torch.no_grad():
            v = ctx.vals(m.log_likelihood(ctx.tensor([[x]])))[0, 0, 0, 0]
        ctx.true(isinstance(v, float) and v == -INF, "density zero", repr(v))
    return run


# ---- accessors ----------------------------------------------------------------------------------
ACC = {"Bernoulli": ("probs", "unit"), "Geometric": ("probs", "unit"), "Binomial": ("probs", "unit"), "NegativeBinomial": ("probs", "unit"), "Categorical": ("probs", "simplex"),
       "Histogram": ("probs", "simplex"), "Poisson": ("rate", "pos"), "Exponential": ("rate", "pos"), "Gamma": ("concentration", "pos"), "Gamma2": ("rate", "pos"), "Normal": ("scale", "pos"),
       "Laplace": ("scale", "pos"), "LogNormal": ("scale", "pos")}


def param_values(ctx, kind, shape, nm):
    if kind == "simplex":
        e = np.empty(shape + (3,), dtype=object)
        for ix in np.ndindex(*shape):
            for j, v in enumerate(ctx.simplex(f"{nm}{list(ix)}", 3)):
                e[ix + (j,)] = v
        return ctx.tensor(e)
    return ctx.fill(shape, lambda ix: (ctx.unit if kind == "unit" else ctx.pos)(f"{nm}{list(ix)}"))


def accessor(fam, how):
    name = fam.rstrip("2")
    pname, kind = ACC[fam]

    def run(ctx):
        import spflow.modules.leaves as L
        from spflow.meta.data import Scope
        shape = FAM[name].shapes[0]
        want = param_values(ctx, kind, shape, "v")
        if name == "Histogram":
            for v in ctx.vals(want).reshape(-1):
                ctx.assume(g_lt(ctx.c(Fraction(1, 1000)), v))      # above the documented floor
        kw = FAM[name].kwargs(*shape)
        if how == "constructor":
            kw = {a: b for a, b in kw.items() if a not in ("out_channels", "num_repetitions", "K")}
            kw[pname] = want
            if name == "Gamma":
                kw["rate" if pname == "concentration" else "concentration"] = param_values(ctx, "pos", shape, "o")
            if name in ("Normal", "Laplace", "LogNormal"):
                kw["loc"] = ctx.fill(shape, lambda ix: ctx.real(f"m{list(ix)}"))
            m = getattr(L, name)(scope=Scope(list(range(shape[0]))), **kw)
            m._parameters.update({a: p for a, p in m._parameters.items()})
        else:
            m = LV.make(ctx, name, shape)
            setattr(m, pname, want)
        got, wv = ctx.vals(getattr(m, pname)), ctx.vals(want)
        ctx.true(got.shape == wv.shape, "shape", str(got.shape))
        for ix in np.ndindex(*wv.shape):
            ctx.eq(got[ix], wv[ix], f"reported {list(ix)}")
        pv = {a: ctx.vals(b) for a, b in m.params().items()}
        if pname in pv:
            for ix in np.ndindex(*wv.shape):
                ctx.eq(pv[pname][ix], wv[ix], f"params() {list(ix)}")
        if name in ("Normal", "Laplace", "LogNormal") and how == "constructor":
            for ix in np.ndindex(*shape):
                ctx.eq(ctx.vals(m.loc)[ix], ctx.vals(kw["loc"])[ix], f"loc {list(ix)}")
        # the likelihood uses the assigned value
        P = LV.raw(ctx, m)
        x = FAM[name].value(ctx, 0, 0, m)
        with torch.no_grad():
            ll = ctx.vals(m.log_likelihood(ctx.tensor([[x] * shape[0]])))
        for ix in np.ndindex(*shape):
            if kind == "unit" and name == "Bernoulli":
                ctx.eq(g_exp(ll[(0,) + ix]), wv[ix] if x == 1 else sub(ctx.c(1), wv[ix]), f"used {list(ix)}")
            elif name == "Categorical":
                ctx.eq(g_exp(ll[(0,) + ix]), wv[ix + (int(x),)], f"used {list(ix)}")
            elif name == "Histogram":
                ctx.eq(g_exp(ll[(0,) + ix]), wv[ix + (0,)], f"used {list(ix)}")      # first bin has width one
            else:
                compare(ctx, name, ll[(0,) + ix], FAM[name].logd(m, P, x, ix), f"used {list(ix)}")
    return run


def valid(name):
    """whatever the raw parameters are, the reported ones are in the family's range"""
    def run(ctx):
        m = LV.make(ctx, name, FAM[name].shapes[0])
        for a, t in m.params().items():
            v = ctx.vals(t)
            if a in ("rate", "scale", "concentration"):
                for ix in np.ndindex(*v.shape):
                    ctx.lt_(ctx.c(0), v[ix], f"{a}{list(ix)} > 0")
        if hasattr(m, "probs"):
            v = ctx.vals(m.probs)
            for ix in np.ndindex(*v.shape):
                ctx.lt_(ctx.c(0), v[ix], f"probs{list(ix)} > 0")
                ctx.lt_(v[ix], ctx.c(1), f"probs{list(ix)} < 1")
            if v.ndim == 4:
                for ix in np.ndindex(*v.shape[:3]):
                    ctx.eq(g_sum(list(v[ix])), ctx.c(1), f"probs sum to one {list(ix)}")
    return run


CASES = []
for _n, _f in FAM.items():
    for _s in _f.shapes:
        for _i in range(3 if _n == "Histogram" else 1):
            CASES.append(Case(f"density:{_n}{list(_s)}" + (f":bin{_i}" if _n == "Histogram" else ""), density(_n, _s, first=_i)))
        for _x in _f.oos:
            CASES.append(Case(f"outside:{_n}{list(_s)}:{_x}", outside(_n, (1, 2, 1) if _n == "Histogram" else _s, _x, _s[0] - 1)))
    if _n != "Histogram":
        CASES.append(Case(f"density:{_n}:scope[3,1]", density(_n, (2, 1, 1), scope=[3, 1])))
    if _n not in ("Uniform", "Hypergeometric"):
        CASES.append(Case(f"valid:{_n}", valid(_n)))
for _n in ACC:
    CASES += [Case(f"accessor:{_n}:{h}", accessor(_n, h)) for h in ("setter", "constructor")]
CASES += [Case("hypergeometric:cells", hyper_cells), Case("uniform:below", uniform_sides("below")), Case("uniform:above", uniform_sides("above"))]
