"""C21: exact information measures match their definitions."""
from symtorch.harness import *
from symtorch import sym
from .circuits import *
from . import ref, leaves
from .given import Given
from torch.utils._python_dispatch import _disable_current_modes

NAN = float("nan")
BOUNDS = ["entropy / mutual information / conditional mutual information, exact: all parameter values of circuits over 2-4 Bernoulli/Categorical variables (contiguous, gapped and offset variable indices, mixtures, "
          "products, multi-channel and multi-repetition roots, zero-probability assignments), every (disjoint) choice of the variable groups",
          "Monte-Carlo estimators: the estimate as a function of the drawn rows, for every drawn batch of 3 rows (symbolic likelihoods)",
          "conditional probability, weight of evidence and its leave-one-out scores: all parameter values, every assignment and pattern of missing features; Laplace correction for n in {1, 10}",
          "aggregation of channels/repetitions: all values of 2x2x3x2 / 2x2x3 / 2x3 likelihood tensors"]
ASSUMPTIONS = ["likelihoods of partially observed rows are marginals of the joint (decided by C03); the clamp of corrected probabilities is inactive or hit exactly"]

B01, D3 = (0, 1), (0, 1, 2)
MODELS = {}


def model(name, doms):
    def deco(fn):
        MODELS[name] = (fn, doms)
        return fn
    return deco


@model("bern1", {0: B01})
def _(I): return bern(I, [0], 1)


@model("cat_offset", {2: D3})
def _(I): return cat(I, [2], 3, 1)


@model("leaf2ch", {0: B01, 1: B01})
def _(I): return I.Product(inputs=bern(I, [0, 1], 2))


@model("leaf2rep", {0: B01, 1: B01})
def _(I): return I.Product(inputs=bern(I, [0, 1], 2, 2))


@model("features", {0: B01, 1: B01})
def _(I): return bern(I, [0, 1], 2)


@model("mix2", {0: B01, 1: B01})
def _(I): return I.Sum(inputs=I.Product(inputs=bern(I, [0, 1], 2)), out_channels=1)


@model("mixcat", {0: B01, 1: D3})
def _(I): return I.Sum(inputs=I.ElementwiseProduct(inputs=[bern(I, [0], 2), cat(I, [1], 3, 2)]), out_channels=1)


@model("swapped", {0: D3, 1: B01})
def _(I): return I.Sum(inputs=I.ElementwiseProduct(inputs=[bern(I, [1], 2), cat(I, [0], 3, 2)]), out_channels=1)


@model("gapped", {1: B01, 3: B01})
def _(I): return I.Sum(inputs=I.Product(inputs=bern(I, [1, 3], 2)), out_channels=1)


@model("mix3", {0: B01, 1: B01, 2: B01})
def _(I): return I.Sum(inputs=I.Product(inputs=bern(I, [0, 1, 2], 2)), out_channels=1)


@model("gapped3", {0: B01, 2: B01, 5: B01})
def _(I): return I.Sum(inputs=I.Product(inputs=bern(I, [0, 2, 5], 2)), out_channels=1)


@model("prod3", {0: B01, 1: B01, 2: B01})
def _(I): return I.Product(inputs=bern(I, [0, 1, 2], 1))


@model("mix4", {0: B01, 1: B01, 2: B01, 3: B01})
def _(I): return I.Sum(inputs=I.Product(inputs=bern(I, [0, 1, 2, 3], 2)), out_channels=1)


def make(ctx, name, zeros=False):
    fn, doms = MODELS[name]
    with _disable_current_modes():
        torch.manual_seed(0)
        m = fn(imports())
    ctx.symbolize(m, "p")
    return m, doms


def agg(ctx, t, how=("logmeanexp", "logmeanexp")):
    """(F, C, R) log-likelihoods -> likelihood: product over features, then repetitions, then channels"""
    F, C, R_ = t.shape
    one = lambda xs, h: xs[0] if h == "first" or len(xs) == 1 else g_sum(xs) if h == "logsumexp" else g_div(g_sum(xs), ctx.c(len(xs)))
    return one([one([g_prod([g_exp(t[f, c, r]) for f in range(F)]) for r in range(R_)], how[1]) for c in range(C)], how[0])


def prob(ctx, m, doms, rows, how=("logmeanexp", "logmeanexp")):
    n = max(doms) + 1
    with torch.no_grad():
        ll = ctx.vals(m.log_likelihood(ctx.tensor([[ctx.c(r[v]) if r.get(v) is not None else NAN for v in range(n)] for r in rows])))
    return [agg(ctx, ll[i], how) for i in range(len(rows))]


def H(ctx, m, doms, vs, how=("logmeanexp", "logmeanexp")):
    """-sum p log p over the joint assignments of vs"""
    rows = [dict(zip(vs, x)) for x in itertools.product(*[doms[v] for v in vs])]
    return g_sum([g_prod([ctx.c(-1), p, g_log(p)]) for p in prob(ctx, m, doms, rows, how)])


def groups(vs, k):
    """all tuples of k disjoint non-empty groups (ordered)"""
    out = []
    for lab in itertools.product(range(k + 1), repeat=len(vs)):
        g = [[v for v, l in zip(vs, lab) if l == i] for i in range(k)]
        if all(g):
            out.append(g)
    return out


def q(x):
    return x.reshape(-1)[0]


def ent(ctx, name, how=None):
    from spflow import measures
    from spflow.meta.data.scope import Scope
    m, doms = make(ctx, name)
    kw = {} if how is None else dict(channel_agg=how[0], repetition_agg=how[1])
    vs = sorted(doms)
    for k in range(1, len(vs) + 1):
        for g in itertools.permutations(vs, k) if len(vs) <= 3 else itertools.combinations(vs, k):
            want = H(ctx, m, doms, list(g), how or ("logmeanexp", "logmeanexp"))
            for form, s in (("list", list(g)), ("scope", Scope(list(g)))) + ((("int", g[0]),) if k == 1 else ()):
                with torch.no_grad():
                    got = q(ctx.vals(measures.entropy(m, s, method="exact", **kw)))
                ctx.eq(got, want, f"H{list(g)} {form}")


def mi(ctx, name, part=(0, 1)):
    from spflow import measures
    m, doms = make(ctx, name)
    for x, y in groups(sorted(doms), 2)[part[0]::part[1]]:
        want = g_sum([H(ctx, m, doms, x), H(ctx, m, doms, y), leaves.neg(H(ctx, m, doms, x + y))])
        with torch.no_grad():
            ctx.eq(q(ctx.vals(measures.mutual_information(m, x, y, method="exact"))), want, f"I({x};{y})")
            if len(x) == 1 and len(y) == 1:
                ctx.eq(q(ctx.vals(measures.mutual_information(m, x[0], y[0], method="exact"))), want, f"I({x};{y}) int")


def cmi(ctx, name, part=(0, 1)):
    from spflow import measures
    m, doms = make(ctx, name)
    for x, y, z in groups(sorted(doms), 3)[part[0]::part[1]]:
        want = g_sum([H(ctx, m, doms, x + z), H(ctx, m, doms, y + z), leaves.neg(H(ctx, m, doms, z)), leaves.neg(H(ctx, m, doms, x + y + z))])
        with torch.no_grad():
            ctx.eq(q(ctx.vals(measures.conditional_mutual_information(m, x, y, z, method="exact"))), want, f"I({x};{y}|{z})")


CASES = []
for _n in MODELS:
    CASES.append(Case(f"entropy:{_n}", lambda ctx, n=_n: ent(ctx, n)))
for _h in itertools.product(("logmeanexp", "logsumexp", "first"), repeat=2):
    CASES.append(Case(f"entropy:leaf2rep:{_h[0]}:{_h[1]}", lambda ctx, h=_h: ent(ctx, "leaf2rep", h)))
for _n in ("leaf2ch", "leaf2rep", "features", "mix2", "mixcat", "swapped", "gapped", "mix3", "gapped3"):
    CASES.append(Case(f"mi:{_n}", lambda ctx, n=_n: mi(ctx, n)))
for _n in ("mix3", "gapped3", "prod3"):
    CASES.append(Case(f"cmi:{_n}", lambda ctx, n=_n: cmi(ctx, n)))
for _k in range(4):
    CASES.append(Case(f"cmi:mix4:{_k}", lambda ctx, k=_k: cmi(ctx, "mix4", (k, 4)), tier="thorough", timeout=300))
    CASES.append(Case(f"mi:mix4:{_k}", lambda ctx, k=_k: mi(ctx, "mix4", (k, 4)), tier="thorough", timeout=300))


# ---- zero-probability assignments -------------------------------------------------------------------
def zero(ctx):
    from spflow import measures
    g = Joint(ctx, {0: B01, 1: B01}, holes=[(0, 1)])
    for s in ([0], [1], [0, 1]):
        with torch.no_grad():
            got = q(ctx.vals(measures.entropy(g, s, method="exact")))
        rows = [dict(zip(s, x)) for x in itertools.product(*[B01 for _ in s])]
        ps = [g.p(r) for r in rows]
        ctx.eq(got, g_sum([g_prod([ctx.c(-1), p, g_log(p)]) for p in ps if not (isinstance(p, Fraction) and p == 0) and not (isinstance(p, float) and p == 0)]), f"H{s}")


class Joint(torch.nn.Module):
    """a joint distribution given by its table (symbolic), queried through the module interface the measures use"""

    def __init__(self, ctx, doms, holes=()):
        from spflow.modules.leaves.bernoulli import Bernoulli
        from spflow.meta import Scope
        super().__init__()
        self.ctx, self.doms = ctx, doms
        self.scope = Scope(sorted(doms))
        cells = [c for c in itertools.product(*[doms[v] for v in sorted(doms)]) if c not in holes]
        self.t = dict(zip(cells, ctx.simplex("j", len(cells))))
        with _disable_current_modes():
            self.inputs = Bernoulli(scope=Scope(sorted(doms)))
        self.batch = None

    device = torch.device("cpu")

    def p(self, row):
        vs = sorted(self.doms)
        xs = [x for c, x in self.t.items() if all(row.get(v) is None or row[v] == c[i] for i, v in enumerate(vs))]
        return g_sum(xs) if xs else self.ctx.c(0)

    def log_likelihood(self, data):
        e = self.ctx.vals(data)
        out = np.empty((e.shape[0], 1, 1, 1), dtype=object)
        for i in range(e.shape[0]):
            row = {v: None if isinstance(e[i][v], float) and e[i][v] != e[i][v] else int(e[i][v]) for v in self.doms}
            p = self.p(row)
            out[i, 0, 0, 0] = float("-inf") if not isinstance(p, sym.R) and p == 0 else g_log(p)
        return self.ctx.tensor(out)

    def sample(self, num_samples):
        assert num_samples == len(self.batch)
        return self.ctx.tensor([[self.ctx.c(x) for x in r] for r in self.batch])


CASES.append(Case("entropy:zero-probability", zero))


# ---- Monte-Carlo estimators as functions of the drawn rows --------------------------------------------
def mc(ctx, which):
    from spflow import measures
    g = Joint(ctx, {0: B01, 1: B01, 2: B01})
    L = lambda r, vs: g_log(g.p({v: r[v] for v in vs}))
    for batch in ([(0, 0, 0), (1, 0, 1), (0, 1, 1)], [(1, 1, 1), (1, 1, 1), (0, 1, 0)], [(1, 0, 0)]):
        g.batch = batch
        n, mean = len(batch), (lambda xs: g_div(g_sum(xs), ctx.c(len(xs))))
        with torch.no_grad():
            if which == "entropy":
                for s in ([0], [2], [0, 2], [0, 1, 2]):
                    for seed in (None, 3):
                        ctx.eq(q(ctx.vals(measures.entropy(g, s, num_samples=n, seed=seed))), mean([leaves.neg(L(r, s)) for r in batch]), f"H{s} {batch} {seed}")
            elif which == "mi":
                for x, y in groups([0, 1, 2], 2):
                    got = q(ctx.vals(measures.mutual_information(g, x, y, num_samples=n)))
                    ctx.eq(got, mean([g_sum([L(r, x + y), leaves.neg(L(r, x)), leaves.neg(L(r, y))]) for r in batch]), f"I({x};{y}) {batch}")
            else:
                for x, y, z in groups([0, 1, 2], 3):
                    got = q(ctx.vals(measures.conditional_mutual_information(g, x, y, z, num_samples=n)))
                    ctx.eq(got, mean([g_sum([L(r, x + y + z), L(r, z), leaves.neg(L(r, x + z)), leaves.neg(L(r, y + z))]) for r in batch]), f"I({x};{y}|{z}) {batch}")


for _w in ("entropy", "mi", "cmi"):
    CASES.append(Case(f"mc:{_w}", lambda ctx, w=_w: mc(ctx, w)))


# ---- conditional probability and weight of evidence -----------------------------------------------------
def rows_of(doms):
    vs = sorted(doms)
    return [dict(zip(vs, x)) for x in itertools.product(*[tuple(doms[v]) + (None,) for v in vs])]


def tens(ctx, doms, rows):
    return ctx.tensor([[ctx.c(r[v]) if r.get(v) is not None else NAN for v in range(max(doms) + 1)] for r in rows])


def isn(x):
    return isinstance(x, float) and x != x


def cond(ctx, name, part):
    from spflow.measures.weight_of_evidence import conditional_probability
    m, doms = make(ctx, name)
    rows = rows_of(doms)[part[0]::part[1]]
    for y in sorted(doms):
        for v in doms[y]:
            with torch.no_grad():
                got = ctx.vals(conditional_probability(m, y_index=y, y_value=v, evidence=tens(ctx, doms, rows)))
            num = prob(ctx, m, doms, [{**r, y: v} for r in rows])
            den = prob(ctx, m, doms, [{**r, y: None} for r in rows])
            for i, r in enumerate(rows):
                ctx.eq(g_prod([got[i], den[i]]), num[i], f"p({y}={v} | {r})")


def laplace(ctx, p, n, k):
    return g_div(g_sum([g_prod([p, ctx.c(n)]), ctx.c(1)]), ctx.c(n + k))


def logodds_eq(ctx, got, p1, p2, n, k, label):
    """exp(got) = odds(L(p1)) / odds(L(p2)); the clamp away from 0 and 1 cannot be active for the n used"""
    a, b = laplace(ctx, p1, n, k), laplace(ctx, p2, n, k)
    one = ctx.c(1)
    ctx.eq(g_prod([g_exp(got), b, leaves.sub(one, a)]), g_prod([a, leaves.sub(one, b)]), label)


def woe(ctx, name, n, part):
    from spflow.measures.weight_of_evidence import weight_of_evidence
    m, doms = make(ctx, name)
    rows = rows_of(doms)
    pairs = list(zip(rows, rows[3:] + rows[:3]))[part[0]::part[1]]
    for y in sorted(doms):
        k = len(doms[y])
        v = doms[y][-1]
        c = lambda rs: [g_div(a, b) for a, b in zip(prob(ctx, m, doms, [{**r, y: v} for r in rs]), prob(ctx, m, doms, [{**r, y: None} for r in rs]))]
        p1, p2 = c([a for a, _ in pairs]), c([b for _, b in pairs])
        for kk in (None, k + 1):
            with torch.no_grad():
                got = ctx.vals(weight_of_evidence(m, y_index=y, y_value=v, evidence_full=tens(ctx, doms, [a for a, _ in pairs]), evidence_reduced=tens(ctx, doms, [b for _, b in pairs]), n=n, k=kk))
            for i, (a, b) in enumerate(pairs):
                logodds_eq(ctx, got[i], p1[i], p2[i], n, kk or k, f"woe {y}={v} k={kk} {a} vs {b}")


def loo(ctx, name, part):
    from spflow.measures.weight_of_evidence import weight_of_evidence_leave_one_out
    m, doms = make(ctx, name)
    rows = rows_of(doms)[part[0]::part[1]]
    for y in sorted(doms):
        k, v = len(doms[y]), doms[y][0]
        with torch.no_grad():
            got = ctx.vals(weight_of_evidence_leave_one_out(m, y_index=y, y_value=v, x_instance=tens(ctx, doms, rows), n=10))
        ctx.true(got.shape == (len(rows), max(doms) + 1), f"{y}: one score per entry", str(got.shape))
        for i, r in enumerate(rows):
            for j in range(max(doms) + 1):
                if j == y or r.get(j) is None:
                    ctx.true(isn(got[i][j]), f"{y}={v} {r} feature {j}: undefined", str(got[i][j]))
                    continue
                full, red = {**r, y: v}, {**r, y: v, j: None}
                p = [g_div(prob(ctx, m, doms, [e])[0], prob(ctx, m, doms, [{**e, y: None}])[0]) for e in (full, red)]
                logodds_eq(ctx, got[i][j], p[0], p[1], 10, k, f"{y}={v} {r} feature {j}")


for _n in ("mix2", "mixcat", "gapped", "leaf2rep", "mix3"):
    _k = 3 if _n == "mix3" else 1
    for _i in range(_k):
        CASES.append(Case(f"cond:{_n}:{_i}", lambda ctx, n=_n, p=(_i, _k): cond(ctx, n, p)))
        CASES.append(Case(f"loo:{_n}:{_i}", lambda ctx, n=_n, p=(_i, _k): loo(ctx, n, p)))
        for _m in (1, 10):
            CASES.append(Case(f"woe:{_n}:{_m}:{_i}", lambda ctx, n=_n, s=_m, p=(_i, _k): woe(ctx, n, s, p)))


# ---- clamp -------------------------------------------------------------------------------------------
def clamp(ctx):
    """p(y|x) = 1 with a huge n: the corrected probability is clamped to 1 - eps"""
    from spflow.measures.weight_of_evidence import weight_of_evidence
    g = Joint(ctx, {0: B01, 1: B01}, holes=[(1, 0), (0, 1)])
    e = Fraction(1, 8)
    ev, no = ctx.tensor([[NAN, ctx.c(1)]]), ctx.tensor([[NAN, ctx.c(0)]])
    with torch.no_grad():
        up = ctx.vals(weight_of_evidence(g, y_index=0, y_value=1, evidence_full=ev, evidence_reduced=no, n=1000, k=2, eps=0.125))[0]
    ctx.eq(g_exp(up), ctx.c((1 - e) / e * (1 - e) / e), "clamped on both sides")


CASES.append(Case("woe:clamp", clamp))


# ---- aggregation -------------------------------------------------------------------------------------
def reduce_(ctx, how, dims):
    from spflow.measures._utils import reduce_log_likelihood
    shape = {4: (2, 2, 3, 2), 3: (2, 2, 3), 2: (2, 3)}[dims]
    L = np.empty(shape, dtype=object)
    for ix in np.ndindex(*shape):
        L[ix] = g_log(ctx.pos(f"l{list(ix)}"))
    with torch.no_grad():
        got = ctx.vals(reduce_log_likelihood(ctx.tensor(L), channel_agg=how[0], repetition_agg=how[1]))
    X = L.reshape(shape + (1,) * (4 - dims))
    ctx.true(got.shape == (2,), "one value per row", str(got.shape))
    for b in range(2):
        ctx.eq(g_exp(got[b]), agg(ctx, X[b], how), f"row {b}")


for _h in itertools.product(("logmeanexp", "logsumexp", "first"), repeat=2):
    for _d in (2, 3, 4):
        CASES.append(Case(f"reduce:{_h[0]}:{_h[1]}:{_d}", lambda ctx, h=_h, d=_d: reduce_(ctx, h, d)))
