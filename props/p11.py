"""C11: leaf fitting is the exact weighted maximum-likelihood estimate."""
from symtorch.harness import *
from symtorch import sym
from .circuits import *
from . import leaves
from .leaves import neg, sub, k, gabs
from torch.utils._python_dispatch import _disable_current_modes

NAN = float("nan")
BOUNDS = ["per leaf family: 3 rows (2-4 in the thorough tier), leaves with 1-2 features x 1-2 channels x 1-2 repetitions, gapped scopes; all data values (continuous families) or every pattern of support values (discrete "
          "families), all positive weights per row, feature, channel and repetition, default weights, rows of weight zero, missing values dropped with nan_strategy='ignore', bias correction on and off",
          "Naive Bayes fitting from class labels (every label pattern of 3 rows)"]
ASSUMPTIONS = ["data for which the maximum-likelihood estimate exists (not all values equal for Gamma, not all zero for Exponential); weights of a parameter cell are scaled to sum to the number of rows, as documented",
               "the estimators documented as closed-form approximations are checked against that closed form (Gamma)"]
CONT = ("Normal", "LogNormal", "Laplace", "Exponential", "Gamma")
DISC = ("Bernoulli", "Binomial", "NegativeBinomial", "Geometric", "Poisson", "Categorical")


def leaf(ctx, name, shape, scope=None):
    return leaves.make(ctx, name, shape, scope)


def data_for(ctx, name, n, scope, pattern=None):
    cols = max(scope) + 1
    rows = []
    for i in range(n):
        r = [ctx.c(17)] * cols                     # columns outside the scope hold something else
        for j, v in enumerate(scope):
            if name in ("Normal", "Laplace"):
                r[v] = ctx.real(f"x{i}{j}")
            elif name in ("LogNormal", "Exponential", "Gamma"):
                r[v] = ctx.pos(f"x{i}{j}")
            else:
                r[v] = ctx.c(pattern[(i + j) % len(pattern)])
        rows.append(r)
    return rows


def weights_for(ctx, kind, n, shape, zero=()):
    """(n, F, C, R) nested scalars"""
    F, C, R_ = shape
    w = np.empty((n, F, C, R_), dtype=object)
    for ix in np.ndindex(*w.shape):
        w[ix] = ctx.c(0) if ix[0] in zero else ctx.c(1) if kind == "default" else ctx.pos(f"w{list(ix)}") if kind == "cells" else ctx.pos(f"w{ix[0]}") if kind == "rows" else ctx.c(kind[ix[0]])
    return w


def total(xs):
    return g_sum(list(xs))


def expected(ctx, name, m, P0, xs, ws, bias, n, ix, P, lab):
    """obligations on the fitted parameters P of one cell; xs data of the feature, ws the cell's weights (unnormalised)"""
    W = total(ws)
    N = ctx.c(n)
    one = ctx.c(1)
    v = [g_div(g_prod([w, N]), W) for w in ws]
    b = one if bias else ctx.c(0)
    Nb = sub(N, b)
    wx = total(g_prod([a, x]) for a, x in zip(v, xs))
    if name in ("Normal", "LogNormal"):
        ys = [g_log(x) for x in xs] if name == "LogNormal" else xs
        loc = g_div(total(g_prod([a, y]) for a, y in zip(v, ys)), N)
        ctx.eq(P["loc"][ix], loc, f"{lab} loc: weighted mean")
        num = total(g_prod([a, sub(y, loc), sub(y, loc)]) for a, y in zip(v, ys))
        s = g_exp(P["log_scale"][ix])
        if g_lt(ctx.c(0), num):
            ctx.eq(g_prod([s, s, Nb]), num, f"{lab} scale: weighted deviation")
        else:
            ctx.lt_(ctx.c(0), s, f"{lab} scale: positive")
    elif name == "Laplace":
        loc = P["loc"][ix]
        dev = lambda c: total(g_prod([a, gabs(sub(x, c))]) for a, x in zip(ws, xs))
        d = dev(loc)
        for j, x in enumerate(xs):
            ctx.le(d, g_prod([dev(x), ctx.c(1 + Fraction(1, 10 ** 5))]), f"{lab} loc: no data value has a smaller weighted absolute deviation ({j})")
        s = g_exp(P["log_scale"][ix])
        if g_lt(ctx.c(0), d):
            ctx.eq(g_prod([s, W]), d, f"{lab} scale: weighted mean absolute deviation")
        else:
            ctx.lt_(ctx.c(0), s, f"{lab} scale: positive")
    elif name == "Exponential":
        ctx.eq(g_prod([g_exp(P["log_rate"][ix]), wx]), Nb, f"{lab} rate")
    elif name == "Gamma":
        ml = g_div(total(g_prod([a, g_log(x)]) for a, x in zip(v, xs)), N)
        mx = g_div(wx, N)
        mxl = g_div(total(g_prod([a, x, g_log(x)]) for a, x in zip(v, xs)), N)
        th = sub(mxl, g_prod([mx, ml]))
        if not g_lt(ctx.c(0) if ctx.symbolic else ctx.c(1e-9), th):
            ctx.assume(False)
        a = g_div(mx, th)
        r = g_div(one, th)
        if bias:
            c = lambda p, q: ctx.c(Fraction(p, q))
            a1 = g_sum([one, a])
            a = sub(a, g_div(g_sum([g_prod([ctx.c(3), a]), neg(g_prod([c(2, 3), g_div(a, a1)])), neg(g_prod([c(4, 5), g_div(a, g_prod([a1, a1]))]))]), N))
            r = g_div(g_prod([r, Nb]), N)
        for nm, want in (("concentration", a), ("rate", r)):
            got = g_exp(P[f"log_{nm}"][ix])
            if g_lt(ctx.c(0), want):
                near(ctx, got, want, f"{lab} {nm}")
            else:
                ctx.lt_(ctx.c(0), got, f"{lab} {nm}: positive")
    elif name == "Poisson":
        got = g_exp(P["log_rate"][ix])
        zero_or(ctx, got, wx, lambda: ctx.eq(g_prod([got, N]), wx, f"{lab} rate: weighted mean"), lab)
    elif name == "Bernoulli":
        p = leaves.sigm(P["_logits"][ix])
        bounded(ctx, p, g_div(wx, N), lab)
    elif name == "Binomial":
        p = leaves.sigm(P["_logits"][ix])
        bounded(ctx, p, g_div(wx, g_prod([N, P0["_total_count"][ix]])), lab)
        ctx.eq(P["_total_count"][ix], P0["_total_count"][ix], f"{lab} total_count unchanged")
    elif name == "Geometric":
        q = g_div(N, g_sum([wx, N]))
        if bias:
            q = sub(q, g_div(g_prod([q, sub(one, q)]), N))
        if not g_lt(q, one):
            got = P["_logits"][ix]
            ctx.true(isinstance(got, float) and got == INF, f"{lab} probs: one", str(got))
            return
        ctx.eq(leaves.sigm(P["_logits"][ix]), q, f"{lab} probs")
    elif name == "NegativeBinomial":
        r = sub(g_prod([N, P0["_total_count"][ix]]), b)
        bounded(ctx, leaves.sigm(P["_logits"][ix]), sub(one, g_div(r, g_sum([wx, r]))), lab)
        ctx.eq(P["_total_count"][ix], P0["_total_count"][ix], f"{lab} total_count unchanged")
    elif name == "Categorical":
        p = softmax_list(list(P["_logits"][ix]))
        for c in range(len(p)):
            cnt = total([w for w, x in zip(ws, xs) if float(x) == c] or [ctx.c(0)])
            frac = g_div(cnt, W)
            near(ctx, p[c], frac, f"{lab} probs[{c}]: weighted frequency", Fraction(1, 10 ** 8))


INF = float("inf")


def near(ctx, got, want, lab, tol=None):
    if tol is None:
        ctx.le(g_prod([want, ctx.c(Fraction(10 ** 9 - 1, 10 ** 9))]), got, lab + " (lower)")
        ctx.le(got, g_prod([want, ctx.c(Fraction(10 ** 9 + 1, 10 ** 9))]), lab + " (upper)")
        return
    ctx.le(sub(want, ctx.c(tol)), got, lab + " (lower)")
    ctx.le(got, g_sum([want, ctx.c(tol)]), lab + " (upper)")


def zero_or(ctx, got, stat, fn, lab):
    if g_lt(ctx.c(0), stat):
        fn()
    else:
        ctx.lt_(ctx.c(0), got, f"{lab} positive")
        ctx.le(got, ctx.c(Fraction(1, 10 ** 6)), f"{lab} close to zero")


def bounded(ctx, p, q, lab):
    """estimate q of a probability; q in {0, 1} is moved inside by at most 1e-6"""
    one = ctx.c(1)
    ctx.lt_(ctx.c(0), p, f"{lab} probs: positive")
    ctx.lt_(p, one, f"{lab} probs: below one")
    near(ctx, p, q, f"{lab} probs", Fraction(1, 10 ** 6))


def fit(ctx, name, shape, scope, n, kind, bias, pattern=None, zero=(), nan=()):
    m = leaf(ctx, name, shape, scope)
    P0 = leaves.raw(ctx, m)
    rows = data_for(ctx, name, n, scope, pattern)
    w = weights_for(ctx, kind, n, shape, zero)
    full = [list(r) for r in rows]
    for i, j in nan:
        full[i][scope[j]] = NAN
    kept = [i for i in range(n) if not any(i == a for a, _ in nan)]
    kw = {} if kind == "default" else {"weights": ctx.tensor(w)}
    if nan:
        kw["nan_strategy"] = "ignore"
    with torch.no_grad():
        m.maximum_likelihood_estimation(ctx.tensor(full), bias_correction=bias, **kw)
    P = leaves.raw(ctx, m)
    if name in ("Uniform", "Hypergeometric"):
        for nm in P:
            for ix in np.ndindex(*P0[nm].shape):
                ctx.eq(P[nm][ix], P0[nm][ix], f"{nm}{list(ix)} unchanged")
        return
    F, C, R_ = shape
    for ix in np.ndindex(F, C, R_):
        xs = [rows[i][scope[ix[0]]] for i in kept]
        ws = [ctx.c(1) if kind == "default" else w[(i,) + ix] for i in kept]
        if zero and not bias:
            xs, ws = [x for x, i in zip(xs, kept) if i not in zero], [y for y, i in zip(ws, kept) if i not in zero]
        expected(ctx, name, m, P0, xs, ws, bias, len(xs), ix, P, f"{ix}")


CASES = []


def add(name, shape, scope, n, kind, bias, tier="quick", **kw):
    nm = f"{name}:{shape}:{scope}:{n}:{kind}:{'bias' if bias else 'plain'}" + "".join(f":{a}={b}" for a, b in kw.items())
    CASES.append(Case(nm, lambda ctx: fit(ctx, name, shape, scope, n, kind, bias, **kw), tier=tier, timeout=100 if tier == "quick" else 300, max_paths=1000, witnesses=2))


for _f in CONT:
    for _b in (True, False):
        add(_f, (1, 1, 1), [0], 3, "cells", _b)
        add(_f, (2, 2, 1), [0, 2], 2, "default", _b)
        add(_f, (1, 2, 2) if _f != "Gamma" or not _b else (1, 1, 2), [1], 2, "cells", _b, tier="quick" if _f != "Gamma" or not _b else "thorough")
        add(_f, (2, 1, 1), [2, 0], 2, "cells", _b)
        add(_f, (2, 1, 2), [0, 1], 3, "rows", _b, tier="thorough")
        add(_f, (1, 1, 1), [0], 4, "cells", _b, tier="thorough")
    add(_f, (1, 2, 1), [0], 3, "cells", False, zero=(1,))
    add(_f, (2, 1, 1), [0, 1], 3, "cells", False, nan=((1, 1),))
    add(_f, (2, 1, 1), [0, 1], 3, "cells" if _f != "Gamma" else "default", True, nan=((0, 0),))
    add(_f, (1, 1, 1), [0], 3, (2, 1, 3), False)
PATTERNS = {"Bernoulli": [(0, 1, 1), (1, 1, 1), (0, 0, 0)], "Binomial": [(0, 1, 2), (2, 2, 2), (0, 0, 0)], "NegativeBinomial": [(0, 1, 3), (0, 0, 0)], "Geometric": [(0, 1, 3), (0, 0, 0), (2, 2, 1)],
            "Poisson": [(0, 1, 4), (0, 0, 0), (2, 2, 2)], "Categorical": [(0, 1, 2), (1, 1, 1), (2, 0, 2)]}
for _f in DISC:
    for _p in PATTERNS[_f]:
        for _b in (True, False):
            add(_f, (1, 2, 2), [1], 3, "cells", _b, pattern=_p)
            add(_f, (2, 2, 1), [2, 0], 3, "cells", _b, pattern=_p)
    _p = PATTERNS[_f][0]
    add(_f, (2, 2, 2), [0, 1], 3, "default", True, pattern=_p)
    add(_f, (2, 1, 1), [0, 1], 3, "cells", False, pattern=_p, zero=(1,))
    add(_f, (2, 1, 1), [0, 1], 3, "cells", False, pattern=_p, nan=((1, 1),))
    add(_f, (2, 1, 1), [0, 1], 3, "cells", True, pattern=_p, nan=((0, 0), (2, 1)))
    add(_f, (1, 1, 1), [0], 3, (2, 1, 3), False, pattern=_p)
    add(_f, (2, 2, 2), [0, 3], 4, "cells", True, pattern=_p, tier="thorough")
for _f in ("Uniform", "Hypergeometric"):
    add(_f, (2, 2, 1), [0, 1], 3, "cells", True, pattern=(Fraction(1, 2), Fraction(1, 4)) if _f == "Uniform" else (1, 0, 2))


# ---- histogram -------------------------------------------------------------------------------------------
def histogram(ctx, bins, kind, C, R_, zero=()):
    e = [Fraction(0), Fraction(1), Fraction(3), Fraction(7, 2)]
    m = leaf(ctx, "Histogram", (1, C, R_), [1])
    n = len(bins)
    rows = [[ctx.c(17), g_sum([ctx.c(e[b]), g_prod([ctx.c(e[b + 1] - e[b]), ctx.unit(f"x{i}")])])] for i, b in enumerate(bins)]
    w = weights_for(ctx, kind, n, (1, C, R_), zero)
    with torch.no_grad():
        m.maximum_likelihood_estimation(ctx.tensor(rows), **({} if kind == "default" else {"weights": ctx.tensor(w)}))
    P = leaves.raw(ctx, m)
    for c, r in np.ndindex(C, R_):
        ws = [ctx.c(1) if kind == "default" else w[i, 0, c, r] for i in range(n)]
        p = softmax_list(list(P["_logits"][0, c, r]))
        for j in range(3):
            near(ctx, p[j], g_div(total([x for x, b in zip(ws, bins) if b == j] or [ctx.c(0)]), total(ws)), f"{(c, r)} bin {j}: weighted frequency", Fraction(1, 10 ** 8))


for _bins in ((0, 1, 2), (1, 1, 2), (0, 0, 0), (2, 0, 1, 2)):
    CASES.append(Case(f"Histogram:{_bins}", lambda ctx, b=_bins: histogram(ctx, b, "cells", 2 if len(b) == 3 else 1, 2 if b == (0, 1, 2) else 1)))
CASES.append(Case("Histogram:default", lambda ctx: histogram(ctx, (0, 2, 2), "default", 2, 2)))
CASES.append(Case("Histogram:zero-weight", lambda ctx: histogram(ctx, (0, 2, 1), "cells", 1, 2, zero=(1,))))


# ---- refusals --------------------------------------------------------------------------------------------
def refuse(ctx, name):
    m = leaf(ctx, name, (2, 1, 1), [0, 1])
    P0 = leaves.raw(ctx, m)
    x = ctx.c(1)
    for lab, rows, kw in (("missing values without a strategy", [[x, NAN], [x, x]], {}), ("all values missing", [[NAN, NAN]] * 2, {"nan_strategy": "ignore"}),
                          ("unknown strategy", [[x, NAN], [x, x]], {"nan_strategy": "drop"})):
        ctx.raises((ValueError,), lambda rows=rows, kw=kw: m.maximum_likelihood_estimation(ctx.tensor(rows), **kw), lab)
    ctx.raises((ValueError, RuntimeError, IndexError), lambda: m.maximum_likelihood_estimation(ctx.tensor([[x, x]] * 2), weights=torch.ones(3, 2, 1, 1)), "one weight per row")
    P = leaves.raw(ctx, m)
    for nm in P0:
        for ix in np.ndindex(*P0[nm].shape):
            ctx.eq(P[nm][ix], P0[nm][ix], f"{nm}{list(ix)} unchanged")


for _f in CONT + DISC:
    CASES.append(Case(f"refuse:{_f}", lambda ctx, f=_f: refuse(ctx, f)))


# ---- Naive Bayes from labels -------------------------------------------------------------------------------
def nb(ctx, labels, K, learn):
    I = imports()
    with _disable_current_modes():
        torch.manual_seed(0)
        m = I.NaiveBayes([bern(I, [0], K), I.L.Normal(scope=I.Scope([1]), out_channels=K)], num_classes=K, class_prior=[1.0, 2.0, 5.0][:K], learnable_prior=learn)
    ctx.symbolize(m, "p", kinds=(lambda mn, mod, pn, p: "keep" if mod is m.root_node else None))
    n = len(labels)
    before = ctx.vals(m.root_node.log_weights.detach())
    rows = [[ctx.c(i % 2), ctx.real(f"x{i}")] for i in range(n)]
    with torch.no_grad():
        m.maximum_likelihood_estimation(ctx.tensor(rows), targets=torch.tensor(labels), bias_correction=False)
    B_, L_ = (leaves.raw(ctx, l) for l in m.leaf_modules)
    for c in range(K):
        mine = [i for i in range(n) if labels[i] == c]
        if not mine:
            continue
        bounded(ctx, leaves.sigm(B_["_logits"][0, c, 0]), g_div(total([rows[i][0] for i in mine]), ctx.c(len(mine))), f"class {c}: bernoulli")
        mean = g_div(total([rows[i][1] for i in mine]), ctx.c(len(mine)))
        ctx.eq(L_["loc"][0, c, 0], mean, f"class {c}: mean of its rows")
        if len(mine) > 1:
            s = g_exp(L_["log_scale"][0, c, 0])
            v = total([g_prod([sub(rows[i][1], mean)] * 2) for i in mine])
            if g_lt(ctx.c(0), v):
                ctx.eq(g_prod([s, s, ctx.c(len(mine))]), v, f"class {c}: variance of its rows")
    after = ctx.vals(m.root_node.log_weights.detach())
    for c in range(K):
        if learn:
            near(ctx, g_exp(after[0, c, 0, 0]), ctx.c(Fraction(labels.count(c), n)), f"class {c}: prior is the label frequency", Fraction(1, 10 ** 8))
        else:
            ctx.eq(after[0, c, 0, 0], before[0, c, 0, 0], f"class {c}: fixed prior unchanged")


for _l, _k in (([0, 1, 0], 2), ([1, 1, 0, 0], 2), ([2, 0, 1, 0], 3)):
    for _b in (True, False):
        CASES.append(Case(f"naive-bayes:{_l}:{'learned' if _b else 'fixed'}", lambda ctx, l=_l, K=_k, b=_b: nb(ctx, l, K, b)))
