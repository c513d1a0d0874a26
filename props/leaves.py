"""Leaf families: construction, in-support symbolic values, textbook log-densities, out-of-support values, modes."""
from __future__ import annotations
import math
from fractions import Fraction
import numpy as np
import torch
from symtorch import sym
from symtorch.explore import Infeasible
from symtorch.harness import g_exp, g_log, g_sum, g_prod, g_div, g_pow, g_max, g_lt, softmax_list, S
from torch.utils._python_dispatch import _disable_current_modes

NAN, INF = float("nan"), float("inf")


def neg(a):
    return sym.neg(a) if S.mode_symbolic else -a


def sub(a, b):
    return g_sum([a, neg(b)])


def fn(name, *a):
    return sym.fn(name, *a) if S.mode_symbolic else sym.NUMFN[name](*map(float, a))


def lgamma(a):
    return sym.lgamma(a) if S.mode_symbolic else math.lgamma(float(a))


def k(x):
    return Fraction(x) if S.mode_symbolic else float(x)


def iszero(x):
    return not isinstance(x, (float, sym.R)) and x == 0 if S.mode_symbolic else x == 0


def gabs(x):
    return neg(x) if g_lt(x, k(0)) else x


class Fam:
    shapes = [(1, 2, 2), (2, 2, 1)]
    discrete = False
    oos = ()            # concrete values outside the support
    multi = True

    def kwargs(self, nf, C, R):
        return dict(out_channels=C, num_repetitions=R)

    def build(self, name, scope, nf, C, R):
        import spflow.modules.leaves as L
        return getattr(L, name)(scope=scope, **self.kwargs(nf, C, R))

    def setup(self, ctx, m):
        pass


class Disc(Fam):
    discrete = True
    support = (0, 1)

    def value(self, ctx, i, f, m):
        return float(self.support[(2 * i + f + 1) % len(self.support)])


def pw(base, n):
    return g_prod([base] * int(n)) if n else k(1)


def sigm(l):
    return g_div(g_exp(l), g_sum([k(1), g_exp(l)]))


class FBernoulli(Disc):
    oos = (2.0, -1.0, 0.5)

    def logd(self, m, P, x, ix):
        p = sigm(P["_logits"][ix])
        return g_log(p if x == 1 else sub(k(1), p))


class FCategorical(Disc):
    support = (0, 1, 2)
    oos = (3.0, -1.0, 0.5)

    def kwargs(self, nf, C, R):
        return dict(out_channels=C, num_repetitions=R, K=3)

    def logd(self, m, P, x, ix):
        return g_log(softmax_list(list(P["_logits"][ix]))[int(x)])


def counts(nf, C, R, base=2):
    t = torch.empty(nf, C, R)
    for i in np.ndindex(nf, C, R):
        t[i] = base + (i[0] + 2 * i[1] + i[2]) % 2
    return t


class FBinomial(Disc):
    support = (0, 1, 2)
    oos = (4.0, -1.0, 0.5)

    def kwargs(self, nf, C, R):
        return dict(out_channels=C, num_repetitions=R, total_count=counts(nf, C, R))

    def logd(self, m, P, x, ix):
        p, n, x = sigm(P["_logits"][ix]), int(P["_total_count"][ix]), int(x)
        return g_log(g_prod([k(math.comb(n, x)), pw(p, x), pw(sub(k(1), p), n - x)]))


class FGeometric(Disc):
    support = (0, 1, 3)
    oos = (-1.0, 0.5)

    def logd(self, m, P, x, ix):
        p = sigm(P["_logits"][ix])
        return g_log(g_prod([p, pw(sub(k(1), p), x)]))


class FNegativeBinomial(Disc):
    support = (0, 1, 3)
    oos = (-1.0, 0.5)

    def kwargs(self, nf, C, R):
        return dict(out_channels=C, num_repetitions=R, total_count=counts(nf, C, R))

    def logd(self, m, P, x, ix):
        p, n, x = sigm(P["_logits"][ix]), int(P["_total_count"][ix]), int(x)
        return g_log(g_prod([k(math.comb(n + x - 1, x)), pw(sub(k(1), p), n), pw(p, x)]))


class FPoisson(Disc):
    support = (0, 1, 4)
    oos = (-1.0, 0.5)

    def logd(self, m, P, x, ix):
        r = g_exp(P["log_rate"][ix])
        return g_sum([g_prod([k(int(x)), P["log_rate"][ix]]), neg(r), neg(g_log(k(math.factorial(int(x)))))])


class FHypergeometric(Disc):
    support = (0, 1, 2)
    oos = (4.0, -1.0, 0.5)

    def kwargs(self, nf, C, R):
        def full(v):
            t = torch.empty(nf, C, R)
            for i in np.ndindex(nf, C, R):
                t[i] = v[(i[1] + i[2]) % len(v)]
            return t
        return dict(out_channels=C, num_repetitions=R, K=full([2.0, 3.0]), N=full([5.0, 6.0]), n=full([2.0, 3.0]))

    def logd(self, m, P, x, ix):
        K, N, n, x = (int(v) for v in (P["K"][ix], P["N"][ix], P["n"][ix], x))
        return g_log(k(Fraction(math.comb(K, x) * math.comb(N - K, n - x), math.comb(N, n)) if S.mode_symbolic else math.comb(K, x) * math.comb(N - K, n - x) / math.comb(N, n)))


class FNormal(Fam):
    def value(self, ctx, i, f, m):
        return ctx.real(f"x{i}{f}")

    def logd(self, m, P, x, ix):
        s = g_exp(P["log_scale"][ix])
        d = g_div(sub(x, P["loc"][ix]), s)
        return g_sum([neg(g_div(g_prod([d, d]), k(2))), neg(P["log_scale"][ix]), neg(CONST("half_log_2pi"))])


class FLogNormal(FNormal):
    oos = (0.0, -1.0)

    def value(self, ctx, i, f, m):
        return ctx.pos(f"x{i}{f}")

    def logd(self, m, P, x, ix):
        return g_sum([FNormal.logd(self, m, P, g_log(x), ix), neg(g_log(x))])


class FLaplace(Fam):
    def value(self, ctx, i, f, m):
        return ctx.real(f"x{i}{f}")

    def logd(self, m, P, x, ix):
        s = g_exp(P["log_scale"][ix])
        return g_sum([neg(g_div(gabs(sub(x, P["loc"][ix])), s)), neg(P["log_scale"][ix]), neg(g_log(k(2)))])


class FExponential(Fam):
    oos = (-1.0, -0.25)

    def value(self, ctx, i, f, m):
        return ctx.pos(f"x{i}{f}")

    def logd(self, m, P, x, ix):
        return sub(P["log_rate"][ix], g_prod([g_exp(P["log_rate"][ix]), x]))


class FGamma(FExponential):
    def logd(self, m, P, x, ix):
        a, b = g_exp(P["log_concentration"][ix]), g_exp(P["log_rate"][ix])
        return g_sum([g_prod([a, P["log_rate"][ix]]), g_prod([sub(a, k(1)), g_log(x)]), neg(g_prod([b, x])), neg(lgamma(a))])


class FUniform(Fam):
    """bounds are symbolic; every value lies in the common part of all channels"""
    def kwargs(self, nf, C, R):
        return dict(out_channels=C, num_repetitions=R, low=torch.zeros(nf, C, R), high=torch.ones(nf, C, R))

    def setup(self, ctx, m):
        shape = tuple(m.low.shape)
        self.c = [ctx.real(f"c{f}") for f in range(shape[0])]
        self.w = [ctx.pos(f"w{f}") for f in range(shape[0])]
        m.low = ctx.fill(shape, lambda ix: sub(self.c[ix[0]], ctx.pos(f"a{list(ix)}")))
        m.high = ctx.fill(shape, lambda ix: g_sum([self.c[ix[0]], self.w[ix[0]], ctx.pos(f"b{list(ix)}")]))

    def value(self, ctx, i, f, m):
        t = ctx.pos(f"t{i}{f}")
        return g_sum([self.c[f], g_prod([self.w[f], g_div(t, g_sum([k(1), t]))])])

    def logd(self, m, P, x, ix):
        return neg(g_log(sub(P["high"][ix], P["low"][ix])))


FLOOR = "floor"       # stands for the documented density floor 1e-12 / 2 of the histogram


class FHistogram(Fam):
    """bin widths symbolic, at least the documented floor"""
    shapes = [(1, 2, 2)]
    nb = 3

    def kwargs(self, nf, C, R):
        return dict(out_channels=C, num_repetitions=R, bin_edges=torch.tensor([0.0, 1.0, 3.0, 3.5]))

    def build(self, name, scope, nf, C, R):
        import spflow.modules.leaves as L
        return L.Histogram(scope=scope, probs=torch.full((nf, C, R, 3), 1 / 3), **self.kwargs(nf, C, R))

    def value(self, ctx, i, f, m):
        e = [0, 1, 3, Fraction(7, 2)]
        j = i % 3
        t = ctx.pos(f"t{i}{f}")
        lo, hi = (ctx.c(e[j]), ctx.c(e[j + 1]))
        return g_sum([lo, g_prod([sub(hi, lo), g_div(t, g_sum([k(1), t]))])])

    def logd(self, m, P, x, ix):
        e = [k(v) if S.mode_symbolic else float(v) for v in (0, 1, 3, Fraction(7, 2))]
        j = 0 if g_lt(x, e[1]) else 1 if g_lt(x, e[2]) else 2
        p = softmax_list(list(P["_logits"][ix]))[j]
        d = g_div(p, sub(e[j + 1], e[j]))
        if not S.mode_symbolic:
            return g_log(g_max([d, 0.5e-12]))
        lo, hi = (k(Fraction(1, 2 * 10 ** 12) * (1 + Fraction(s, 10 ** 6))) for s in (-1, 1))      # the floor itself is a float constant
        if g_lt(d, lo):
            return FLOOR
        if not g_lt(hi, d):
            raise Infeasible()
        return g_log(d)

    oos = (-0.5, 3.5, 4.0, INF)


def CONST(name):
    v = {"half_log_2pi": 0.5 * math.log(2 * math.pi)}[name]
    return sym.from_float(v) if S.mode_symbolic else v


FAM = {c.__name__[1:]: c() for c in (FBernoulli, FCategorical, FBinomial, FGeometric, FNegativeBinomial, FPoisson, FHypergeometric, FNormal, FLogNormal, FLaplace,
                                     FExponential, FGamma, FUniform, FHistogram)}


def make(ctx, name, shape, scope=None, prefix=""):
    from spflow.meta.data import Scope
    nf, C, R = shape
    with _disable_current_modes():
        torch.manual_seed(0)
        np.random.seed(0)
        m = FAM[name].build(name, Scope(list(scope or range(nf))), nf, C, R)
        m.eval()
    ctx.symbolize(m, prefix=prefix)
    FAM[name].setup(ctx, m)
    return m


def raw(ctx, m):
    """current raw parameters and buffers as scalar arrays"""
    d = {n: ctx.vals(p) for n, p in m.named_parameters()}
    d.update({n: ctx.vals(p) for n, p in m.named_buffers() if p.numel() or p.dim()})
    return d
