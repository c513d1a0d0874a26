"""C09: mixture weights are always on the simplex and round-trip."""
from symtorch.harness import *
from symtorch.harness import S
from .circuits import *
from . import circuits
from .circuits import imports
from . import ref
from torch.utils._python_dispatch import _disable_current_modes

BOUNDS = ["every sum-like module (Sum, ElementwiseSum, RepetitionMixingLayer, EinsumLayer, LinsumLayer, SumConv, WeightedSum) with 1-2 features, 2-3 mixed children, 1-2 outputs, 1-2 repetitions, Bernoulli/Categorical children",
          "every raw parameter value (simplex), every valid weight tensor (setter, log setter, constructor: reported and used in the likelihood of one symbolic-parameter batch covering both values of each variable)",
          "invalid weights: each single entry non-positive by any amount, one mixture off by any amount in (1e-3, 10], weights normalised over a different axis, wrong shapes; setter and constructor"]
ASSUMPTIONS = ["the log-weight setter is required to round-trip only normalised log-weights"]


def bern(*a):
    with _disable_current_modes():
        return circuits.bern(*a)


def cat(*a):
    with _disable_current_modes():
        return circuits.cat(*a)


def spec(name, build, shape, axes, nf, ctor=True, logset=True):
    return dict(name=name, build=build, shape=shape, axes=axes, nf=nf, ctor=ctor, logset=logset)


# build(I, weights or None) -> module; `shape`: weight layout; `axes`: mixed axes
SPECS = [
    spec("sum", lambda I, w: I.Sum(inputs=bern(I, [0], 3), **(dict(weights=w) if w is not None else dict(out_channels=2))), (1, 3, 2, 1), (1,), 1),
    spec("sum_f2_r2", lambda I, w: I.Sum(inputs=bern(I, [0, 1], 2, 2), **(dict(weights=w) if w is not None else dict(out_channels=2, num_repetitions=2))), (2, 2, 2, 2), (1,), 2),
    spec("sum_list", lambda I, w: I.Sum(inputs=[bern(I, [0], 2), bern(I, [0], 1)], **(dict(weights=w) if w is not None else {})), (1, 3, 1, 1), (1,), 1),
    spec("ewsum", lambda I, w: I.ElementwiseSum(inputs=[bern(I, [0], 2), cat(I, [0], 2, 2), bern(I, [0], 2)], **(dict(weights=w) if w is not None else dict(out_channels=2))), (1, 2, 2, 3, 1), (3,), 1),
    spec("ewsum_f2_r2", lambda I, w: I.ElementwiseSum(inputs=[bern(I, [0, 1], 1, 2), bern(I, [0, 1], 1, 2)], **(dict(weights=w) if w is not None else dict(out_channels=2, num_repetitions=2))), (2, 1, 2, 2, 2), (3,), 2),
    spec("repmix", lambda I, w: I.RepetitionMixingLayer(inputs=bern(I, [0, 1], 2, 2), **(dict(weights=w) if w is not None else dict(out_channels=2, num_repetitions=2))), (2, 2, 2), (2,), 2),
    spec("repmix_r3", lambda I, w: I.RepetitionMixingLayer(inputs=bern(I, [0], 1, 3), **(dict(weights=w) if w is not None else dict(out_channels=1, num_repetitions=3))), (1, 1, 3), (2,), 1),
    spec("einsum", lambda I, w: I.EinsumLayer(inputs=[bern(I, [0], 2), bern(I, [1], 2)], out_channels=2, weights=w), (1, 2, 1, 2, 2), (3, 4), 2),
    spec("einsum_uneq", lambda I, w: I.EinsumLayer(inputs=[bern(I, [0], 2), bern(I, [1], 3)], out_channels=1, weights=w), (1, 1, 1, 2, 3), (3, 4), 2),
    spec("einsum_split_r2", lambda I, w: I.EinsumLayer(inputs=bern(I, [0, 1], 2, 2), out_channels=1, num_repetitions=2, weights=w), (1, 1, 2, 2, 2), (3, 4), 2),
    spec("linsum", lambda I, w: I.LinsumLayer(inputs=[bern(I, [0], 2), bern(I, [1], 2)], out_channels=2, weights=w), (1, 2, 1, 2), (3,), 2),
    spec("linsum_split_r2", lambda I, w: I.LinsumLayer(inputs=bern(I, [0, 1], 2, 2), out_channels=2, num_repetitions=2, weights=w), (1, 2, 2, 2), (3,), 2),
    spec("sumconv", lambda I, w: I.SumConv(inputs=bern(I, [0, 1, 2, 3], 2), out_channels=2, kernel_size=2), (2, 2, 2, 2, 1), (1,), 4, ctor=False, logset=False),
]


def build(sp, weights=None):
    I = imports()
    if weights is not None:
        return sp["build"](I, weights)
    with _disable_current_modes():
        torch.manual_seed(0)
        m = sp["build"](I, None)
        m.eval()
    return m


def groups(sp):
    """index sets that are mixed together"""
    shape, axes = sp["shape"], sp["axes"]
    rest = [a for a in range(len(shape)) if a not in axes]
    for o in np.ndindex(*[shape[a] for a in rest]):
        g = []
        for i in np.ndindex(*[shape[a] for a in axes]):
            ix = [0] * len(shape)
            for a, v in zip(rest, o):
                ix[a] = v
            for a, v in zip(axes, i):
                ix[a] = v
            g.append(tuple(ix))
        yield g


def weights(ctx, sp, nm="w"):
    w = np.empty(sp["shape"], dtype=object)
    for k, g in enumerate(groups(sp)):
        for ix, v in zip(g, ctx.simplex_norm(f"{nm}{k}", len(g))):
            w[ix] = v
    return w


def close(ctx, a, b, label):
    ctx.eq(a, b, label)


def on_simplex(ctx, sp, m, tag):
    w, lw = ctx.vals(m.weights), ctx.vals(m.log_weights)
    ctx.true(w.shape == sp["shape"] and lw.shape == sp["shape"], f"{tag}: shape")
    for k, g in enumerate(groups(sp)):
        ctx.eq(g_sum([w[i] for i in g]), ctx.c(1), f"{tag}: mixture {k} sums to one")
        for i in g:
            ctx.lt_(ctx.c(0), w[i], f"{tag}: {i} positive")
            ctx.eq(g_exp(lw[i]), w[i], f"{tag}: {i} log-weights agree")


def used(ctx, sp, m, w, tag):
    """the likelihood mixes with exactly these weights"""
    rows = [[float((b >> v) & 1) for v in range(sp["nf"])] for b in (0, (1 << sp["nf"]) - 1)]
    data = ctx.tensor(rows)
    with torch.no_grad():
        ll = ctx.vals(m.log_likelihood(data))
    want = with_weights(ctx, m, w, data)
    ctx.true(ll.shape == want.shape, f"{tag}: out shape", f"{ll.shape} {want.shape}")
    for ix in np.ndindex(*ll.shape):
        ctx.eqlog(ll[ix], want[ix], f"{tag}: likelihood {list(ix)}")


def with_weights(ctx, m, w, data):
    """reference evaluation with the mixture weights w (not read from the module)"""
    class C:
        vals = staticmethod(lambda t: lw if t is m.logits else ctx.vals(t))
        symbolic = ctx.symbolic
        c = ctx.c
    lw = np.empty(w.shape, dtype=object)
    for ix in np.ndindex(*w.shape):
        lw[ix] = g_log(w[ix])
    memo = {}
    kids = lambda c: ref.table_of(ctx, c, data, memo)
    return ref.layer(C, m, kids)


def simplex(sp):
    def run(ctx):
        m = build(sp)
        ctx.symbolize(m)
        on_simplex(ctx, sp, m, "raw")
        used(ctx, sp, m, ctx.vals(m.weights), "raw")
    return run


def setter(sp, log):
    def run(ctx):
        m = build(sp)
        ctx.symbolize(m)
        w = weights(ctx, sp)
        if log:
            lw = np.empty(w.shape, dtype=object)
            for ix in np.ndindex(*w.shape):
                lw[ix] = g_log(w[ix])
            m.log_weights = ctx.tensor(lw)
        else:
            m.weights = ctx.tensor(w)
        got = ctx.vals(m.weights)
        for ix in np.ndindex(*w.shape):
            ctx.eq(got[ix], w[ix], f"reported {list(ix)}")
        on_simplex(ctx, sp, m, "after")
        used(ctx, sp, m, w, "after")
        # a second assignment replaces the first one, also after the module was evaluated
        w2 = weights(ctx, sp, "u")
        if log:
            lw = np.empty(w2.shape, dtype=object)
            for ix in np.ndindex(*w2.shape):
                lw[ix] = g_log(w2[ix])
            m.log_weights = ctx.tensor(lw)
        else:
            m.weights = ctx.tensor(w2)
        got = ctx.vals(m.weights)
        for ix in np.ndindex(*w.shape):
            ctx.eq(got[ix], w2[ix], f"reported again {list(ix)}")
        used(ctx, sp, m, w2, "again")
    return run


def constructor(sp):
    def run(ctx):
        w = weights(ctx, sp)
        m = build(sp, ctx.tensor(w))
        got = ctx.vals(m.weights)
        ctx.true(got.shape == w.shape, "shape")
        for ix in np.ndindex(*w.shape):
            ctx.eq(got[ix], w[ix], f"reported {list(ix)}")
        for i, c in enumerate(ref.children(m)):
            ctx.symbolize(c, prefix=f"c{i}")
        used(ctx, sp, m, w, "constructed")
    return run


def bad(ctx, sp, how):
    w = weights(ctx, sp, "bad")
    g = list(groups(sp))
    if how.startswith("nonpos"):
        grp = g[-1] if how.endswith("last") else g[0]
        ix = grp[-1] if how.endswith("last") else grp[0]
        d = ctx.pos("d")
        # the group still sums to one, but one weight is zero or negative
        j = grp[0] if ix != grp[0] else grp[1]
        moved = ctx.c(0) if "zero" in how else d
        tot = g_sum([w[ix], w[j]])
        w[ix] = g_prod([ctx.c(-1), moved])
        w[j] = g_sum([tot, moved])
    elif how == "sum":
        d = ctx.pos("d")
        ctx.assume(g_lt(ctx.c(Fraction(1, 1000)), d))
        ctx.assume(g_lt(d, ctx.c(10)))
        ix = g[-1][0]
        w[ix] = g_sum([w[ix], d])
    elif how == "sum_low":
        # one mixture scaled down
        s = ctx.unit("s")
        ctx.assume(g_lt(s, ctx.c(Fraction(999, 1000))))
        for ix in g[-1]:
            w[ix] = g_prod([w[ix], s])
    elif how == "total":
        # every mixture has total 2 and 1/2 alternately or everything sums to one over the whole tensor
        n = len(g)
        for grp in g:
            for ix in grp:
                w[ix] = g_div(w[ix], ctx.c(n))
    elif how == "axis":
        # normalised over another axis
        ax = [a for a in range(len(sp["shape"])) if a not in sp["axes"] and sp["shape"][a] > 1]
        o = dict(sp, axes=(ax[0],))
        w = weights(ctx, o, "axis")
        grp = next(iter(groups(sp)))
        t = g_sum([w[i] for i in grp])
        lo, hi = ctx.c(Fraction(999, 1000)), ctx.c(Fraction(1001, 1000))
        ctx.assume(g_lt(t, lo) or g_lt(hi, t))
    return w


def rejected(sp, how, via):
    def run(ctx):
        from spflow.exceptions import InvalidWeightsError, ShapeError
        if how.startswith("shape"):
            v = {"shape_flat": (int(np.prod(sp["shape"])),), "shape_extra": sp["shape"][:-1] + (sp["shape"][-1] + 1,), "shape_perm": sp["shape"][::-1]}[how]
            if v == sp["shape"]:
                return ctx.true(True, "same shape")
            t = ctx.fill(v, lambda ix: ctx.unit(f"w{list(ix)}"))
        else:
            t = ctx.tensor(bad(ctx, sp, how))
        if via == "constructor":
            try:
                build(sp, t)
            except (ValueError, RuntimeError):
                return ctx.true(True, "rejected")
            return ctx.true(False, "rejected", "constructor accepted invalid weights")
        m = build(sp)
        ctx.symbolize(m)
        before, bl = ctx.vals(m.weights), ctx.vals(m.logits)
        try:
            m.weights = t
        except (ValueError, RuntimeError):
            ctx.true(True, "rejected")
        else:
            ctx.true(False, "rejected", "setter accepted invalid weights")
        after, al = ctx.vals(m.weights), ctx.vals(m.logits)
        ctx.true(after.shape == before.shape and al.shape == bl.shape, "unchanged shape")
        for ix in np.ndindex(*before.shape):
            ctx.eq(after[ix], before[ix], f"unchanged {list(ix)}")
        used(ctx, sp, m, before, "unchanged")
    return run


# ---- WeightedSum: raw weights ------------------------------------------------------------------
def weighted_sum(zero):
    def run(ctx):
        from spflow.zoo.pic.weighted_sum import WeightedSum
        I = imports()
        with _disable_current_modes():
            m = WeightedSum(inputs=bern(I, [0, 1], 2), weights=torch.ones(2, 2, 2, 1))
            m.eval()
        ctx.symbolize(m)
        w = np.empty((2, 2, 2, 1), dtype=object)
        for ix in np.ndindex(*w.shape):
            w[ix] = ctx.c(0) if zero and ix == (1, 0, 1, 0) else ctx.pos(f"w{list(ix)}")
        m.weights = ctx.tensor(w)
        got = ctx.vals(m.weights)
        data = ctx.tensor([[0.0, 1.0], [1.0, 1.0]])
        with torch.no_grad():
            ll, x = ctx.vals(m.log_likelihood(data)), ctx.vals(m.inputs.log_likelihood(data))
        for ix in np.ndindex(*w.shape):
            ctx.eq(got[ix], w[ix], f"reported {list(ix)}")
        for b, f, o in np.ndindex(2, 2, 2):
            ctx.eq(g_exp(ll[b, f, o, 0]), g_sum([g_prod([w[f, c, o, 0], g_exp(x[b, f, c, 0])]) for c in range(2)]), f"likelihood {[b, f, o]}")
    return run


CASES = []
for _s in SPECS:
    CASES += [Case(f"simplex:{_s['name']}", simplex(_s)), Case(f"setter:{_s['name']}", setter(_s, False))]
    if _s["logset"]:
        CASES.append(Case(f"log_setter:{_s['name']}", setter(_s, True)))
    if _s["ctor"]:
        CASES.append(Case(f"constructor:{_s['name']}", constructor(_s)))
    for _h in ("nonpos_first", "nonpos_last", "nonpos_zero_last", "sum", "sum_low", "total", "axis", "shape_flat", "shape_extra", "shape_perm"):
        if _h == "total" and len(list(groups(_s))) == 1:
            continue
        if _h == "axis" and not [a for a in range(len(_s["shape"])) if a not in _s["axes"] and _s["shape"][a] > 1]:
            continue
        CASES.append(Case(f"reject:{_s['name']}:{_h}:setter", rejected(_s, _h, "setter")))
        if _s["ctor"] and not _h.startswith("shape"):
            CASES.append(Case(f"reject:{_s['name']}:{_h}:constructor", rejected(_s, _h, "constructor")))
CASES += [Case("weighted_sum", weighted_sum(False)), Case("weighted_sum:zero", weighted_sum(True))]
