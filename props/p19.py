"""C19: inner products are exact; squared circuits are normalised by them."""
import itertools
from symtorch.harness import *
from symtorch import sym
from symtorch.harness import S
from .circuits import *
from . import leaves as LV
from .leaves import FAM, sigm
from torch.utils._python_dispatch import _disable_current_modes

NAN = float("nan")
TOL = Fraction(1, 10 ** 9)


class Sq:
    """a pair / triple of circuits over the same variables"""

    def __init__(self, name, build, domains, norm=True):
        self.name, self.build, self.domains, self.norm = name, build, domains, norm

    def make(self, ctx, prefix="", signs=None, free=None):
        """signs: None: weights of any sign; k: the k-th fixed sign pattern (every weight is positive in one and negative in another), any magnitudes;
        free: "leaf", "inner" or "root": the weights of the other modules have fixed magnitudes"""
        with _disable_current_modes():
            torch.manual_seed(0)
            np.random.seed(0)
            ms = self.build(imports19())
            for m in ms:
                m.eval()

        def kinds(mn, mod, pn, p):
            part = "leaf" if getattr(mod, "inputs", None) is None else "root" if mn == "" else "inner"
            if free is not None and part != free:
                with _disable_current_modes():
                    n = p.numel()
                    x = (1 + torch.arange(n, dtype=torch.float64).reshape(p.shape) % 3) / 4
                    p.data = x if pn == "weights" else torch.zeros_like(p)
                return "keep"
            return "pos" if signs is not None and pn == "weights" else None
        for i, m in enumerate(ms):
            ctx.symbolize(m, prefix=f"{prefix}{i}.", norm=self.norm, kinds=kinds)
        if signs is not None:
            done = set()
            for i, m in enumerate(ms):
                for mn, mod in m.named_modules():
                    if "weights" in mod._parameters and id(mod) not in done:
                        done.add(id(mod))
                        w = ctx.vals(mod.weights.detach())
                        for j, ix in enumerate(np.ndindex(*w.shape)):
                            h = (j + j // 2 + i + len(mn)) % 3
                            if (signs == 2 and j % 5 == 3):
                                w[ix] = ctx.c(0)
                            elif h == 0 if signs == 0 else h != 0 if signs == 1 else h == 1:
                                w[ix] = LV.neg(w[ix])
                        mod._parameters["weights"] = torch.nn.Parameter(ctx.tensor(w))
        return ms

    def vars(self):
        return sorted(self.domains)

    @property
    def ncols(self):
        return max(self.domains) + 1

    assignments = Cfg.assignments
    rows = Cfg.rows


def imports19():
    I = imports()
    from spflow.modules.sos import SOCS
    from spflow.zoo.sos.exp_socs import ExpSOCS
    from spflow.zoo.sos.signed_categorical import SignedCategorical
    I.SOCS, I.ExpSOCS, I.SignedCategorical = SOCS, ExpSOCS, SignedCategorical
    return I


def scat(I, sc, K=2, oc=1, rep=1):
    return I.SignedCategorical(scope=I.Scope(list(sc)), out_channels=oc, num_repetitions=rep, K=K)


# ------------------------------------------------------------------ what a circuit computes, as a real function
def value(ctx, mod, a, memo=None):
    """reference: (F, C, R) table of real values at the complete assignment a (variable -> value)"""
    memo = {} if memo is None else memo
    if id(mod) in memo:
        return memo[id(mod)]
    t = type(mod).__name__
    if t == "SignedCategorical":
        w = ctx.vals(mod.weights.detach())
        F, C, R, _ = w.shape
        out = np.empty((F, C, R), dtype=object)
        for f, c, r in np.ndindex(F, C, R):
            out[f, c, r] = w[f, c, r, int(a[mod.scope.query[f]])]
    elif t == "Product":
        x = value(ctx, mod.inputs, a, memo)
        out = np.empty((1,) + x.shape[1:], dtype=object)
        for c, r in np.ndindex(*x.shape[1:]):
            out[0, c, r] = g_prod(x[:, c, r])
    elif t == "Cat":
        out = np.concatenate([value(ctx, m, a, memo) for m in mod.inputs], axis=mod.dim - 1)
    elif t in ("Sum", "SignedSum"):
        x = value(ctx, mod.inputs, a, memo)
        if t == "Sum":
            lg = ctx.vals(mod.logits.detach())
            w = np.empty(lg.shape, dtype=object)
            for f, o, r in np.ndindex(lg.shape[0], lg.shape[2], lg.shape[3]):
                w[f, :, o, r] = softmax_list(list(lg[f, :, o, r]))
        else:
            w = ctx.vals(mod.weights.detach())
        F, I, O, R = w.shape
        out = np.empty((F, O, R), dtype=object)
        for f, o, r in np.ndindex(F, O, R):
            out[f, o, r] = g_sum(g_prod([w[f, i, o, r], x[f, i, min(r, x.shape[2] - 1)]]) for i in range(I))
    else:
        row = [NAN] * (max(a) + 1)
        for v, x in a.items():
            row[v] = float(x)
        with torch.no_grad():
            ll = ctx.vals(mod.log_likelihood(torch.tensor([row])))[0]
        out = np.empty(ll.shape, dtype=object)
        for ix in np.ndindex(*ll.shape):
            out[ix] = g_exp(ll[ix])
    memo[id(mod)] = out
    return out


def feature_vars(mod, f):
    return sorted(mod.feature_to_scope[f, 0].query)


def assigns_of(cfg, vs):
    base = {v: cfg.domains[v][0] for v in cfg.vars()}
    for combo in itertools.product(*[cfg.domains[v] for v in vs]):
        yield {**base, **dict(zip(vs, combo))}


def inner(ctx, cfg):
    from spflow.utils.inner_product import inner_product_matrix, triple_product_tensor
    from spflow.utils.cache import Cache
    ms = cfg.make(ctx)
    m = list(ms) + [ms[0]] * (3 - len(ms))
    cache = Cache()
    with torch.no_grad():
        for (i, a), (j, b) in itertools.product(enumerate(ms), repeat=2):
            tabs = {f: [(value(ctx, a, x), value(ctx, b, x)) for x in assigns_of(cfg, feature_vars(a, f))] for f in range(a.out_shape.features)}
            for c in (None, cache):
                k = ctx.vals(inner_product_matrix(a, b, cache=c))
                ctx.true(k.shape == (a.out_shape.features, a.out_shape.channels, b.out_shape.channels, a.out_shape.repetitions), f"shape {i}{j} {c is None}", str(k.shape))
                for f, p, q, r in np.ndindex(*k.shape):
                    ctx.eq(k[f, p, q, r], g_sum(g_prod([u[f, p, r], v[f, q, r]]) for u, v in tabs[f]), f"inner {i}{j} [{f},{p},{q},{r}] cache={c is not None}")


def signed_eval(ctx, cfg, row=None, signs=None):
    from spflow.modules.sos.socs import _signed_eval
    from spflow.utils.cache import Cache
    ms = cfg.make(ctx, signs=signs)
    rows = list(cfg.assignments())
    rows = rows if row is None else rows[row:row + 1]
    with torch.no_grad():
        for i, m in enumerate(ms):
            lab, sg = _signed_eval(m, torch.tensor(cfg.rows(rows)), Cache())
            lab, sg = ctx.vals(lab), ctx.vals(sg)
            for b, a in enumerate(rows):
                v = value(ctx, m, a)
                for ix in np.ndindex(*v.shape):
                    ctx.eq(g_prod([sg[(b,) + ix], g_exp(lab[(b,) + ix])]), v[ix], f"value {i} {a} {list(ix)}")


def triple(ctx, cfg, order=(0, 1, 2)):
    from spflow.utils.inner_product import triple_product_tensor
    from spflow.utils.cache import Cache
    ms = cfg.make(ctx)
    ms = [ms[i % len(ms)] for i in order]
    with torch.no_grad():
        t = ctx.vals(triple_product_tensor(*ms))
        cache = Cache()
        for pm in ((0, 1, 2), (1, 0, 2), (2, 0, 1)):
            u = ctx.vals(triple_product_tensor(*[ms[i] for i in pm], cache=cache))
            for f, p, q, s, r in np.ndindex(*t.shape):
                ix = (p, q, s)
                ctx.eq(u[(f,) + tuple(ix[i] for i in pm) + (r,)], t[f, p, q, s, r], f"order {pm} [{f},{p},{q},{s},{r}]")
        for f in range(t.shape[0]):
            tabs = [[value(ctx, m, x) for m in ms] for x in assigns_of(cfg, feature_vars(ms[0], f))]
            for p, q, s, r in np.ndindex(*t.shape[1:]):
                ctx.eq(t[f, p, q, s, r], g_sum(g_prod([u[f, p, r], v[f, q, r], w[f, s, r]]) for u, v, w in tabs), f"triple [{f},{p},{q},{s},{r}]")


def socs(ctx, cfg, row=None, signs=None, free=None):
    I = imports19()
    ms = cfg.make(ctx, signs=signs, free=free)
    m = I.SOCS(list(ms))
    m.eval()
    normalised(ctx, cfg, m, row, lambda a, ix: g_sum(g_prod([value(ctx, c, a)[ix]] * 2) for c in ms))


def expsocs(ctx, cfg, row=None, signs=None):
    I = imports19()
    ms = cfg.make(ctx, signs=signs)
    mono, comps = ms[0], list(ms[1:])
    m = I.ExpSOCS(monotone=mono, components=comps)
    m.eval()
    normalised(ctx, cfg, m, row, lambda a, ix: g_prod([value(ctx, mono, a)[ix], g_sum(g_prod([value(ctx, c, a)[ix]] * 2) for c in comps)]))


def normalised(ctx, cfg, m, row, dens):
    """exp(log-likelihood) times the sum of the unnormalised density over all assignments is the unnormalised density"""
    rows = list(cfg.assignments())
    ask = rows if row is None else rows[row:row + 1]
    with torch.no_grad():
        Z = {ix: g_sum(dens(a, ix) for a in assigns_of(cfg, feature_vars(m, ix[0]))) for ix in np.ndindex(*tuple(m.out_shape))}
        for z in Z.values():            # the function that is zero everywhere has no normalisation
            ctx.assume(g_lt(LV.k(0), z))
        ll = ctx.vals(m.log_likelihood(torch.tensor(cfg.rows(ask))))
        for ix in np.ndindex(*ll.shape[1:]):
            vs = feature_vars(m, ix[0])
            z = Z[ix]
            for b, a in enumerate(ask):
                ctx.eq(g_prod([g_exp(ll[(b,) + ix]), z]), dens(a, ix), f"density {a} {list(ix)}")
            if row is None:
                seen = {tuple(a[v] for v in vs): g_exp(ll[(b,) + ix]) for b, a in enumerate(ask)}
                ctx.eq(g_sum(seen.values()), ctx.c(1), f"total mass {list(ix)}")


PAIRS = {}


def pair(name, domains, norm=True):
    def deco(f):
        PAIRS[name] = Sq(name, f, domains, norm)
        PAIRS[name].kind = "pair"
        return f
    return deco


def chain(I, a, o=1, r=1):
    """signed sum over a product over signed sums"""
    return I.SignedSum(I.Product(I.SignedSum(a, out_channels=2, num_repetitions=r)), out_channels=o, num_repetitions=r)


# pairs with different channel counts: inner products only
@pair("bernoulli", dom([0, 1]))
def _(I):
    return [bern(I, [0, 1], 2, 2), bern(I, [0, 1], 3, 2)]


@pair("binomial", dom([0], [0, 1, 2, 3]))
def _(I):
    return [binom(I, [0], 3, 2), binom(I, [0], 3, 1)]


@pair("signed_cat", dom([0], [0, 1, 2]))
def _(I):
    return [scat(I, [0], 3, 2, 2), cat(I, [0], 3, 1, 2), cat(I, [0], 3, 2, 2)]


@pair("signed_sum", dom([0]))
def _(I):
    return [I.SignedSum(bern(I, [0], 2), out_channels=2), I.SignedSum(bern(I, [0], 3), out_channels=1)]


@pair("sum_signed_sum", dom([0]))
def _(I):
    return [I.Sum(bern(I, [0], 2), out_channels=3), I.SignedSum(bern(I, [0], 2), out_channels=2)]


@pair("sum_features", dom([0, 1]))
def _(I):
    return [I.SignedSum(bern(I, [0, 1], 2), out_channels=1), I.Sum(bern(I, [0, 1], 2), out_channels=2)]


@pair("sum_reps", dom([0]))
def _(I):
    return [I.SignedSum(bern(I, [0], 2, 2), out_channels=1, num_repetitions=2), I.Sum(bern(I, [0], 2, 2), out_channels=2, num_repetitions=2)]


@pair("cat_channels", dom([0]))
def _(I):
    return [I.SignedSum([bern(I, [0], 1), cat_as(I)], out_channels=1), I.SignedSum([bern(I, [0], 2), bern(I, [0], 1)], out_channels=2)]


def cat_as(I):
    return bern(I, [0], 2)


@pair("cat_features", dom([0, 2]))
def _(I):
    return [I.Product([bern(I, [0], 2), bern(I, [2], 2)]), I.Product([bern(I, [0], 1), bern(I, [2], 1)])]


@pair("product", dom([0, 1]))
def _(I):
    return [I.Product(I.SignedSum(bern(I, [0, 1], 2), out_channels=2)), I.Product(I.Sum(bern(I, [0, 1], 2), out_channels=1))]


@pair("cltree", dom([0, 1, 2]))
def _(I):
    def t(o):
        return I.L.CLTree(scope=I.Scope([0, 1, 2]), out_channels=o, K=2, parents=torch.tensor([-1, 0, 0]))
    return [I.Product(t(1)), I.Product(t(2))]


# ------------------------------------------------------------------ squared circuits
SQUARES = {}


def square(name, domains, norm=True):
    def deco(f):
        SQUARES[name] = Sq(name, f, domains, norm)
        SQUARES[name].kind = "square"
        return f
    return deco


@square("leaf", dom([0]))
def _(I):
    return [bern(I, [0], 2), bern(I, [0], 2)]


@square("signed_leaf", dom([0, 1], [0, 1, 2]))
def _(I):
    return [scat(I, [0, 1], 3, 2), scat(I, [0, 1], 3, 2)]


@square("signed_sum", dom([0]))
def _(I):
    return [I.SignedSum(bern(I, [0], 2), out_channels=2), I.SignedSum(bern(I, [0], 3), out_channels=2)]


@square("mixed", dom([0]))
def _(I):
    return [I.Sum(bern(I, [0], 2), out_channels=1), I.SignedSum(cat(I, [0], 2, 2), out_channels=1)]


@square("features", dom([0, 1]))
def _(I):
    return [I.SignedSum(bern(I, [0, 1], 2), out_channels=1)]


@square("reps", dom([0]))
def _(I):
    return [I.SignedSum(bern(I, [0], 2, 2), out_channels=1, num_repetitions=2)]


@square("product", dom([0, 1]))
def _(I):
    return [I.SignedSum(I.Product(cat(I, [0, 1], 2, 2)), out_channels=1), I.SignedSum(I.Product(scat(I, [0, 1], 2, 2)), out_channels=1)]


@square("product_list", dom([0, 2]))
def _(I):
    return [I.SignedSum(I.Product([scat(I, [0], 2, 2), scat(I, [2], 2, 2)]), out_channels=1)]


@square("orders", dom([0, 1]))
def _(I):
    return [I.SignedSum(I.Product([scat(I, [0], 2, 2), scat(I, [1], 2, 2)]), out_channels=1), I.SignedSum(I.Product([scat(I, [1], 2, 2), scat(I, [0], 2, 2)]), out_channels=1)]


@square("deep", dom([0, 1]))
def _(I):
    return [chain(I, scat(I, [0, 1], 2, 2))]


@square("shared", dom([0, 1]))
def _(I):
    leaf = scat(I, [0, 1], 2, 2)
    return [I.SignedSum(I.Product(leaf), out_channels=1), I.SignedSum(I.Product(leaf), out_channels=1)]


# ------------------------------------------------------------------ leaf families
def two(ctx, name, n, C, scope=None):
    ms = [LV.make(ctx, name, (1 if name == "Histogram" else 2, c, 2), prefix=f"{i}.") for i, c in enumerate((C, 1, 2)[:n])]
    if name == "Hypergeometric":        # a product is only defined for equal population sizes
        for m in ms:
            with _disable_current_modes():
                m.N = torch.full_like(m.N, 6.0)
    return ms


def leaf_sum(name, n):
    """finite discrete families: the sum over the whole support"""
    def run(ctx):
        from spflow.utils.inner_product import inner_product_matrix, triple_product_tensor
        fam = FAM[name]
        ms = two(ctx, name, n, 2)
        Ps = [LV.raw(ctx, m) for m in ms]
        with torch.no_grad():
            k = ctx.vals(inner_product_matrix(*ms) if n == 2 else triple_product_tensor(*ms))
        dens = []
        for m, P in zip(ms, Ps):
            d = {}
            for ix in np.ndindex(2, m.out_shape.channels, 2):
                for x in range(4):
                    d[ix + (x,)] = 0 if outside(name, P, x, ix) else g_exp(fam.logd(m, P, x, ix))
            dens.append(d)
        for ix in np.ndindex(*k.shape):
            f, cs, r = ix[0], ix[1:-1], ix[-1]
            terms = []
            for x in range(4):
                fs = [d[(f, c, r, x)] for d, c in zip(dens, cs)]
                if not any(isinstance(v, int) and v == 0 for v in fs):
                    terms.append(g_prod(fs))
            ctx.eq(k[ix], g_sum(terms), f"{name} {list(ix)}")
    return run


def outside(name, P, x, ix):
    if name == "Binomial":
        return x > int(P["_total_count"][ix])
    if name == "Hypergeometric":
        K, N, n = (int(P[q][ix]) for q in ("K", "N", "n"))
        return x > min(K, n) or x < max(0, n + K - N)
    return x > (1 if name == "Bernoulli" else 2)


def merged(name, n):
    """continuous families closed under products: the product of the densities is the inner product times a density of the family, at every point"""
    def run(ctx):
        from spflow.utils.inner_product import inner_product_matrix, triple_product_tensor
        fam = FAM[name]
        ms = two(ctx, name, n, 2)
        Ps = [LV.raw(ctx, m) for m in ms]
        if name == "Gamma":
            for i, f, r in np.ndindex(2, 2, 2):
                for c in range(ms[0].out_shape.channels):
                    ctx.assume(g_lt(LV.k(1), g_sum([g_exp(Ps[0]["log_concentration"][f, c, r]), g_exp(Ps[1]["log_concentration"][f, 0, r])])))
        with torch.no_grad():
            kk = ctx.vals(inner_product_matrix(*ms) if n == 2 else triple_product_tensor(*ms))
        if name == "Geometric":
            xs = [0, 1, 3]
        else:
            xs = [fam.value(ctx, 0, 0, None)]
        for ix in np.ndindex(*kk.shape):
            f, cs, r = ix[0], ix[1:-1], ix[-1]
            cell = [(f, c, r) for c in cs]
            for x in xs:
                have = g_sum([g_log(kk[ix]), product_density(name, Ps, cell, x)])
                want = g_sum(fam.logd(None, P, x, c) for P, c in zip(Ps, cell))
                near(ctx, have, want, f"{name} {list(ix)} x={'*' if not isinstance(x, int) else x}")
    return run


def near(ctx, a, b, label):
    ctx.le(a, g_sum([b, LV.k(TOL)]), label + " upper")
    ctx.le(b, g_sum([a, LV.k(TOL)]), label + " lower")


def product_density(name, Ps, cell, x):
    """log density, at x, of the family member proportional to the product of the densities"""
    k, neg, sub = LV.k, LV.neg, LV.sub
    if name in ("Normal", "LogNormal"):
        y = x if name == "Normal" else g_log(x)
        ts = [g_div(k(1), g_prod([g_exp(P["log_scale"][c])] * 2)) for P, c in zip(Ps, cell)]
        T = g_sum(ts)
        mean = g_div(g_sum([g_prod([t, P["loc"][c]]) for t, P, c in zip(ts, Ps, cell)] + ([k(-(len(ts) - 1))] if name == "LogNormal" else [])), T)
        d = sub(y, mean)
        out = [neg(g_div(g_prod([T, d, d]), k(2))), g_div(g_log(T), k(2)), neg(LV.CONST("half_log_2pi"))]
        return g_sum(out + ([neg(y)] if name == "LogNormal" else []))
    if name == "Exponential":
        R = g_sum(g_exp(P["log_rate"][c]) for P, c in zip(Ps, cell))
        return sub(g_log(R), g_prod([R, x]))
    if name == "Gamma":
        a = g_sum([g_exp(P["log_concentration"][c]) for P, c in zip(Ps, cell)] + [k(-(len(Ps) - 1))])
        b = g_sum(g_exp(P["log_rate"][c]) for P, c in zip(Ps, cell))
        return g_sum([g_prod([a, g_log(b)]), g_prod([sub(a, k(1)), g_log(x)]), neg(g_prod([b, x])), neg(LV.lgamma(a))])
    if name == "Geometric":
        q = g_prod(sub(k(1), sigm(P["_logits"][c])) for P, c in zip(Ps, cell))
        return g_log(g_prod([sub(k(1), q), LV.pw(q, x)]))


def laplace(ctx):
    """closed form of the overlap integral of two Laplace densities (unequal scales) and its limit (equal scales)"""
    from spflow.utils.inner_product import inner_product_matrix
    ms = [LV.make(ctx, "Laplace", (1, 1, 1), prefix=f"{i}.") for i in range(2)]
    Ps = [LV.raw(ctx, m) for m in ms]
    k, sub, neg = LV.k, LV.sub, LV.neg
    b1, b2 = (g_exp(P["log_scale"][0, 0, 0]) for P in Ps)
    d = LV.gabs(sub(Ps[0]["loc"][0, 0, 0], Ps[1]["loc"][0, 0, 0]))
    ctx.assume(g_lt(g_sum([b1, b2]), k(100)))
    gap = LV.gabs(sub(b1, b2))
    ctx.assume(g_lt(g_sum([k(Fraction(1, 10 ** 7)), g_prod([k(Fraction(1, 10 ** 4)), b2])]), gap))
    with torch.no_grad():
        v = ctx.vals(inner_product_matrix(*ms))[0, 0, 0, 0]
    e1, e2 = (g_exp(neg(g_div(d, b))) for b in (b1, b2))
    ctx.eq(g_prod([v, k(2), sub(g_prod([b1, b1]), g_prod([b2, b2]))]), sub(g_prod([b1, e1]), g_prod([b2, e2])), "unequal scales")


def laplace_same(ctx):
    from spflow.utils.inner_product import inner_product_matrix
    m = LV.make(ctx, "Laplace", (1, 2, 1))
    P = LV.raw(ctx, m)
    k, sub, neg = LV.k, LV.sub, LV.neg
    b = g_exp(P["log_scale"][0, 0, 0])
    with torch.no_grad():
        v = ctx.vals(inner_product_matrix(m, m))
        ctx.eq(v[0, 0, 0, 0], g_div(k(1), g_prod([k(4), b])), "with itself")
        m.log_scale = torch.nn.Parameter(ctx.fill((1, 2, 1), lambda ix: P["log_scale"][0, 0, 0]))
        v = ctx.vals(inner_product_matrix(m, m))
    d = LV.gabs(sub(P["loc"][0, 0, 0], P["loc"][0, 1, 0]))
    ctx.eq(v[0, 0, 1, 0], g_div(g_prod([g_exp(neg(g_div(d, b))), g_sum([b, d])]), g_prod([k(4), b, b])), "equal scales")
    ctx.eq(v[0, 1, 0, 0], v[0, 0, 1, 0], "symmetric")


def poisson(ctx):
    """sum_k Poisson(k; a) Poisson(k; b) = exp(-a-b) I0(2 sqrt(ab)); I0 is torch's"""
    from spflow.utils.inner_product import inner_product_matrix
    ms = two(ctx, "Poisson", 2, 2)
    Ps = [LV.raw(ctx, m) for m in ms]
    with torch.no_grad():
        v = ctx.vals(inner_product_matrix(*ms))
    for f, p, q, r in np.ndindex(*v.shape):
        la, lb = Ps[0]["log_rate"][f, p, r], Ps[1]["log_rate"][f, q, r]
        z = g_prod([LV.k(2), g_exp(g_div(g_sum([la, lb]), LV.k(2)))])
        ctx.eq(v[f, p, q, r], g_prod([g_exp(LV.neg(g_sum([g_exp(la), g_exp(lb)]))), LV.fn("i0", z)]), f"[{f},{p},{q},{r}]")


def uniform(n):
    def run(ctx):
        from spflow.utils.inner_product import inner_product_matrix, triple_product_tensor
        fam = FAM["Uniform"]
        import spflow.modules.leaves as L
        from spflow.meta.data import Scope
        ms, B = [], []
        for i in range(n):
            with _disable_current_modes():
                m = L.Uniform(scope=Scope([0]), low=torch.zeros(1, 1, 1), high=torch.ones(1, 1, 1))
                m.eval()
            lo = ctx.real(f"lo{i}")
            hi = g_sum([lo, ctx.pos(f"w{i}")])
            m.low, m.high = ctx.fill((1, 1, 1), lambda ix: lo), ctx.fill((1, 1, 1), lambda ix: hi)
            ms.append(m), B.append((lo, hi))
        with torch.no_grad():
            v = ctx.vals(inner_product_matrix(*ms) if n == 2 else triple_product_tensor(*ms)).reshape(-1)[0]
        lo, hi = B[0]
        for l, h in B[1:]:
            lo, hi = (l if g_lt(lo, l) else lo), (h if g_lt(h, hi) else hi)
        want = LV.sub(hi, lo) if g_lt(lo, hi) else LV.k(0)
        ctx.eq(g_prod([v] + [LV.sub(h, l) for l, h in B]), want, "overlap")
    return run


EDGES = {"same": ([0, 1, 3], [0, 1, 3], [0, 1, 3]), "single": ([0, 2], [0, 2], [0, 2]), "nested": ([0, 1, 4], [1, 2, 3], [0.5, 1.5, 2.5]), "overlap": ([0, 1, 2], [1, 3, 4], [0, 1.5, 3]),
         "apart": ([0, 1, 2], [3, 4], [0, 4]), "finer": ([0, 4], [0, 1, 2, 4], [0, 2, 4])}


def histogram(n, which):
    def run(ctx):
        from spflow.utils.inner_product import inner_product_matrix, triple_product_tensor
        import spflow.modules.leaves as L
        from spflow.meta.data import Scope
        ms, dens = [], []
        for i in range(n):
            e = EDGES[which][i]
            C = (2, 1, 2)[i]
            with _disable_current_modes():
                m = L.Histogram(scope=Scope([0]), out_channels=C, num_repetitions=2, bin_edges=torch.tensor(e, dtype=torch.float64), probs=torch.full((1, C, 2, len(e) - 1), 1 / (len(e) - 1)))
                m.eval()
            ctx.symbolize(m, prefix=f"{i}.")
            lg = ctx.vals(m._logits.detach())
            d = np.empty(lg.shape, dtype=object)
            for f, c, r in np.ndindex(*lg.shape[:3]):
                d[f, c, r, :] = [g_div(p, ctx.c(Fraction(e[j + 1]) - Fraction(e[j]))) for j, p in enumerate(softmax_list(list(lg[f, c, r])))]
            ms.append(m), dens.append(d)
        with torch.no_grad():
            v = ctx.vals(inner_product_matrix(*ms) if n == 2 else triple_product_tensor(*ms))
        ctx.true(v.shape == (1,) + tuple(m.out_shape.channels for m in ms) + (2,), "shape", str(v.shape))
        if v.shape != (1,) + tuple(m.out_shape.channels for m in ms) + (2,):
            return
        grid = sorted({x for e in EDGES[which][:n] for x in e})
        for ix in np.ndindex(*v.shape):
            terms = []
            for a, b in zip(grid, grid[1:]):
                cells = []
                for i, d in enumerate(dens):
                    e = EDGES[which][i]
                    j = [q for q in range(len(e) - 1) if e[q] <= a and b <= e[q + 1]]
                    if j:
                        cells.append(d[0, ix[1 + i], ix[-1], j[0]])
                if len(cells) == n:
                    terms.append(g_prod(cells + [ctx.c(Fraction(b) - Fraction(a))]))
            ctx.eq(v[ix], g_sum(terms) if terms else ctx.c(0), f"{list(ix)}")
    return run


def leaf_order(n):
    """circuits that list the same variables in another order are integrated variable by variable or rejected"""
    def run(ctx):
        from spflow.utils.inner_product import inner_product_matrix, triple_product_tensor
        from spflow.exceptions import ShapeError
        I = imports19()
        for nm, build in (("leaf", lambda sc: cat(I, sc, 2, 1)), ("product", lambda sc: I.Product(cat(I, sc, 2, 1))), ("sum", lambda sc: I.SignedSum(cat(I, sc, 2, 2), out_channels=1))):
            with _disable_current_modes():
                torch.manual_seed(0)
                ms = [build([0, 1]), build([1, 0]), build([0, 1])][:n]
            for i, m in enumerate(ms):
                ctx.symbolize(m, prefix=f"{nm}{i}.", norm=True)
            try:
                with torch.no_grad():
                    v = ctx.vals(inner_product_matrix(*ms) if n == 2 else triple_product_tensor(*ms))
            except ShapeError:
                ctx.true(True, f"{nm} rejected")
                continue
            if nm != "product":
                ctx.true(False, f"{nm}: features of different variables are paired")
                continue
            ctx.eq(v.reshape(-1)[0], g_sum(g_prod(value(ctx, m, {0: a, 1: b})[0, 0, 0] for m in ms) for a in (0, 1) for b in (0, 1)), f"{nm}")
    return run


def piecewise(n):
    """integral of products of piecewise linear densities with given knots and arbitrary heights"""
    def run(ctx):
        from spflow.utils.inner_product import inner_product_matrix, triple_product_tensor
        from spflow.utils.domain import Domain
        import spflow.modules.leaves as L
        from spflow.meta.data import Scope
        knots = [[[0, 1, 3], [0, 2, 3, 4]], [[1, 2, 3.5]], [[0.5, 2, 2.5]]]
        ms, H = [], []
        for i in range(n):
            C = len(knots[i])
            with _disable_current_modes():
                m = L.PiecewiseLinear(scope=Scope([0]), out_channels=C)
                m.eval()
            h = [[LV.k(0)] + [ctx.pos(f"y{i}{c}{j}") for j in range(len(e) - 2)] + [LV.k(0)] for c, e in enumerate(knots[i])]
            m.xs = [[[[torch.tensor(e, dtype=torch.float64)]] for e in knots[i]]]
            m.ys = [[[[ctx.tensor(y)]] for y in h]]
            m.domains = [Domain.continuous_range(0.0, 4.0)]
            m.is_initialized = True
            ms.append(m), H.append(h)
            for y in h:
                for v in y[1:-1]:
                    ctx.assume(g_lt(v, LV.k(3)))
        with torch.no_grad():
            v = ctx.vals(inner_product_matrix(*ms) if n == 2 else triple_product_tensor(*ms))
        for ix in np.ndindex(*v.shape):
            ks = [knots[i][ix[1 + i]] for i in range(n)]
            grid = sorted({Fraction(x) for e in ks for x in e})
            terms = []
            for a, b in zip(grid, grid[1:]):
                if any(a < e[0] or b > e[-1] for e in ks):
                    continue
                lin = []
                for i, e in enumerate(ks):
                    y = H[i][ix[1 + i]]
                    j = [q for q in range(len(e) - 1) if e[q] <= a and b <= e[q + 1]][0]
                    w = Fraction(e[j + 1]) - Fraction(e[j])
                    lin.append([g_sum([g_prod([y[j], LV.k((Fraction(e[j + 1]) - t) / w)]), g_prod([y[j + 1], LV.k((t - Fraction(e[j])) / w)])]) for t in (a, b)])
                # exact integral of a product of up to three linear functions: Simpson's rule
                mid = [g_div(g_sum(p), LV.k(2)) for p in lin]
                terms.append(g_prod([LV.k((b - a) / 6), g_sum([g_prod(p[0] for p in lin), g_prod([LV.k(4)] + mid), g_prod(p[1] for p in lin)])]))
            near(ctx, v[ix], g_sum(terms), f"{list(ix)}")
    return run


CASES = []
for _f in ("Bernoulli", "Categorical", "Binomial", "Hypergeometric"):
    for _k in (2, 3):
        CASES.append(Case(f"leaf:{_f}:{_k}", leaf_sum(_f, _k)))
for _f in ("Normal", "LogNormal", "Exponential", "Gamma", "Geometric"):
    CASES.append(Case(f"leaf:{_f}:2", merged(_f, 2)))
for _f in ("Normal", "Geometric"):
    CASES.append(Case(f"leaf:{_f}:3", merged(_f, 3)))
CASES += [Case("leaf:Laplace:unequal", laplace), Case("leaf:Laplace:equal", laplace_same), Case("leaf:Poisson:2", poisson)]
for _k in (2, 3):
    CASES.append(Case(f"leaf:Uniform:{_k}", uniform(_k)))
    CASES.append(Case(f"leaf:PiecewiseLinear:{_k}", piecewise(_k)))
    CASES.append(Case(f"leaf:order:{_k}", leaf_order(_k)))
    for _e in EDGES:
        CASES.append(Case(f"leaf:Histogram:{_e}:{_k}", histogram(_k, _e)))
# ------------------------------------------------------------------ a monotone circuit times a squared circuit
EXPS = {}


def exp_(name, domains, norm=True):
    def deco(f):
        EXPS[name] = Sq(name, f, domains, norm)
        return f
    return deco


@exp_("signed_sum", dom([0]))
def _(I):
    return [I.Sum(bern(I, [0], 2), out_channels=1), I.SignedSum(bern(I, [0], 2), out_channels=1)]


@exp_("two", dom([0], [0, 1, 2]))
def _(I):
    return [cat(I, [0], 3), scat(I, [0], 3, 1), scat(I, [0], 3, 1)]


@exp_("product", dom([0, 1]))
def _(I):
    return [I.Sum(I.Product(cat(I, [0, 1], 2, 2)), out_channels=1), I.SignedSum(I.Product(scat(I, [0, 1], 2, 2)), out_channels=1)]


@exp_("product_list", dom([0, 2]))
def _(I):
    return [I.Product([cat(I, [0], 2), cat(I, [2], 2)]), I.Product([scat(I, [0], 2), scat(I, [2], 2)])]


SIGN_PATTERNS = (0, 1, 2)
HARD = {"deep": ("leaf", "root"), "shared": ("leaf", "root"), "product": ("root",), "mixed": ("leaf", "root")}
for _n, _c in PAIRS.items():
    CASES.append(Case(f"inner:{_n}:pair", lambda ctx, c=_c: inner(ctx, c)))
    if _n != "cltree":
        CASES.append(Case(f"triple:{_n}", lambda ctx, c=_c: triple(ctx, c)))
    for _i in range(len(list(_c.assignments()))):
        for _s in SIGN_PATTERNS:
            CASES.append(Case(f"eval:{_n}:pair:row{_i}:signs{_s}", lambda ctx, c=_c, i=_i, s=_s: signed_eval(ctx, c, i, s)))
for _n, _c in SQUARES.items():
    if _n not in ("mixed", "orders"):
        CASES.append(Case(f"inner:{_n}:square", lambda ctx, c=_c: inner(ctx, c)))
    for _i in range(len(list(_c.assignments()))):
        for _s in SIGN_PATTERNS:
            CASES.append(Case(f"eval:{_n}:square:row{_i}:signs{_s}", lambda ctx, c=_c, i=_i, s=_s: signed_eval(ctx, c, i, s)))
            for _free in () if (_n, _s) == ("signed_leaf", 2) else HARD.get(_n, (None,)):
                CASES.append(Case(f"socs:{_n}:row{_i}:signs{_s}" + (f":{_free}" if _free else ""), lambda ctx, c=_c, i=_i, s=_s, fr=_free: socs(ctx, c, i, s, fr)))
for _n, _c in EXPS.items():
    for _i in range(len(list(_c.assignments()))):
        for _s in SIGN_PATTERNS:
            CASES.append(Case(f"exp:{_n}:row{_i}:signs{_s}", tier="thorough" if (_n, _s) == ("product", 2) else "quick", fn=lambda ctx, c=_c, i=_i, s=_s: expsocs(ctx, c, i, s)))
# every sign of every weight, all rows in one batch
CASES.append(Case("socs:leaf:all", lambda ctx, c=SQUARES["leaf"]: socs(ctx, c)))
for _n in ("leaf", "product_list", "orders", "shared", "product", "deep"):
    CASES.append(Case(f"eval:{_n}:all", lambda ctx, c=SQUARES[_n]: signed_eval(ctx, c), tier="quick" if _n == "leaf" else "thorough", max_paths=6000, timeout=600))
for _n in ("signed_sum", "two"):
    CASES.append(Case(f"exp:{_n}:all", lambda ctx, c=EXPS[_n]: expsocs(ctx, c), tier="quick" if _n == "signed_sum" else "thorough", max_paths=6000, timeout=600))

BOUNDS = {"circuits": "the listed pairs and squares: up to 3 channels, 2 repetitions, 3 variables, 2-4 values per variable, 2 nesting levels of signed sums",
          "weights": "every real magnitude; every sign in inner/triple and *:all cases, three fixed sign patterns (with zeros) elsewhere",
          "leaves": "2 features x 2 channels x 2 repetitions, pairs and triples; binomial counts and hypergeometric populations as listed"}
ASSUMPTIONS = ["the Bessel function I0 in the Poisson overlap is uninterpreted (torch.special.i0 is taken as I0)", "the function that is zero everywhere (Z = 0) is excluded",
               "NegativeBinomial's truncated series and the Metropolis-Hastings sampler are outside", "real arithmetic instead of floating point"]
