"""C20: class posteriors follow Bayes' rule."""
from symtorch.harness import *
from symtorch import sym, tensor as T
from .circuits import *
from . import ref, leaves

NAN = float("nan")
BOUNDS = ["RAT-SPN (mixing layer and outer product, 1-2 repetitions), Einet (linsum/einsum, top-down/bottom-up), Naive Bayes (shared and per-feature leaves, given and default priors), the abstract "
          "Classifier.predict and the scikit-learn classifier/density wrappers; 2-3 classes, 2-3 binary/ternary variables, every assignment with every pattern of missing features, all raw parameter values",
          "log_posterior(likelihoods, priors) for all likelihood/prior values incl. classes with likelihood zero; classification and density training losses for all values and all targets"]
ASSUMPTIONS = ["predictions are compared only where one class is strictly most probable", "at least one class gives the row positive likelihood"]

MODELS = {}


def model(name, doms, classes):
    def deco(fn):
        MODELS[name] = (fn, doms, classes)
        return fn
    return deco


B01, D3 = (0, 1), (0, 1, 2)


@model("rat_outer_2cls", {0: B01, 1: B01}, 2)
def _(I): return I.RatSPN(leaf_modules=[bern(I, [0, 1], 2, 1)], n_root_nodes=2, n_region_nodes=2, num_repetitions=1, depth=1, outer_product=True)


@model("rat_2cls_rep2", {0: B01, 1: B01}, 2)
def _(I): return I.RatSPN(leaf_modules=[bern(I, [0, 1], 2, 2)], n_root_nodes=2, n_region_nodes=2, num_repetitions=2, depth=1)


@model("rat_3cls_3var", {0: B01, 1: B01, 2: B01}, 3)
def _(I): return I.RatSPN(leaf_modules=[bern(I, [0, 1, 2], 2, 1)], n_root_nodes=3, n_region_nodes=2, num_repetitions=1, depth=1)


@model("einet_ein_2cls", {0: B01, 1: B01}, 2)
def _(I): return I.Einet(leaf_modules=[bern(I, [0, 1], 2, 1)], num_classes=2, num_sums=2, num_leaves=2, depth=1, num_repetitions=1, layer_type="einsum")


@model("einet_lin_3cls_rep2", {0: B01, 1: B01}, 3)
def _(I): return I.Einet(leaf_modules=[bern(I, [0, 1], 2, 2)], num_classes=3, num_sums=2, num_leaves=2, depth=1, num_repetitions=2, layer_type="linsum")


@model("einet_bu_2cls", {0: B01, 1: B01}, 2)
def _(I): return I.Einet(leaf_modules=[bern(I, [0, 1], 2, 1)], num_classes=2, num_sums=2, num_leaves=2, depth=1, num_repetitions=1, layer_type="linsum", structure="bottom-up")


@model("nb_2cls", {0: B01, 1: B01}, 2)
def _(I): return I.NaiveBayes(bern(I, [0, 1], 2), num_classes=2)


@model("nb_3cls_learnable", {0: B01, 1: D3, 2: B01}, 3)
def _(I): return I.NaiveBayes([bern(I, [0, 2], 3), cat(I, [1], 3, 3)], num_classes=3, class_prior=[1.0, 2.0, 5.0], learnable_prior=True)


@model("nb_3cls_fixed", {0: B01, 1: D3}, 3)
def _(I): return I.NaiveBayes([cat(I, [1], 3, 3), bern(I, [0], 3)], num_classes=3, class_prior=[1.0, 2.0, 5.0])


HARD = ("rat_2cls_rep2", "einet_lin_3cls_rep2")


def make(ctx, name, only=None):
    fn, doms, K = MODELS[name]
    with torch.utils._python_dispatch._disable_current_modes():
        torch.manual_seed(0)
        m = fn(imports())
    fixed = name == "nb_3cls_fixed"
    ctx.symbolize(m, "p", kinds=(lambda mn, mod, pn, p: "keep" if mod is m.root_node else None) if fixed else
                  (lambda mn, mod, pn, p: "logconst" if f"{mn}.{pn}" != only and "logits" in pn else None) if only else None)
    return m, doms, K


def all_rows(doms):
    vs = list(doms)
    return [dict(zip(vs, x)) for x in itertools.product(*[tuple(doms[v]) + (None,) for v in vs])]


def data_of(ctx, rows, doms):
    return ctx.tensor([[NAN if r[v] is None else ctx.c(r[v]) for v in sorted(doms)] for r in rows])


def conditionals(ctx, m, data):
    """class-conditional likelihoods from the layer formulas of the sub-circuit below the class sum (never from log_posterior)"""
    child = ref.children(m.root_node)[0]
    t = ref.table_of(ctx, child, data, {})
    return t


def check(ctx, name, how, part):
    m, doms, K = make(ctx, name)
    rows = all_rows(doms)[part[0]::part[1]]
    data = data_of(ctx, rows, doms)
    if name.startswith("nb"):
        tabs = []
        for leaf in m.leaf_modules:
            with torch.no_grad():
                tabs.append(ctx.vals(leaf.log_likelihood(data)))
        like = [[g_prod([g_exp(t[i, f, k, 0]) for t in tabs for f in range(t.shape[1])]) for k in range(K)] for i in range(len(rows))]
    else:
        t = conditionals(ctx, m, data)
        ctx.true(t.shape[1:] == (1, K, 1), "one class-conditional per class", str(t.shape))
        like = [[g_exp(t[i, 0, k, 0]) for k in range(K)] for i in range(len(rows))]
    raw = ctx.vals(m.root_node.logits)
    if name == "nb_3cls_fixed":
        prior = [ctx.c(x) for x in (Fraction(1, 8), Fraction(2, 8), Fraction(5, 8))]
    else:
        prior = softmax_list([raw[0, k, 0, 0] for k in range(K)])
    with torch.no_grad():
        if how == "log_posterior":
            got = ctx.vals(m.log_posterior(data))
        elif how == "predict_proba":
            got = ctx.vals(m.predict_proba(data))
        elif how == "cached":
            from spflow.utils.cache import Cache
            c = Cache()
            m.log_likelihood(data, cache=c)
            got = ctx.vals(m.log_posterior(data, cache=c))
        elif how == "marginal":
            got = ctx.vals(m.log_likelihood(data))
        else:
            got = sk(ctx, lambda e: e.predict_proba([[NAN if r[v] is None else float(r[v]) for v in sorted(doms)] for r in rows]), m, K)
    if how == "marginal":
        ctx.true(got.shape == (len(rows), 1, 1, 1), "one value per row", str(got.shape))
        for i in range(len(rows)):
            if name == "nb_3cls_fixed":
                lo, hi = Fraction(10**9 - 1, 10**9), Fraction(10**9 + 1, 10**9)
                x, y = g_exp(got[i, 0, 0, 0]), g_sum([g_prod([a, b]) for a, b in zip(prior, like[i])])
                ctx.le(g_prod([ctx.c(lo), y]), x, f"row {i}: mixture of the classes (lower)")
                ctx.le(x, g_prod([ctx.c(hi), y]), f"row {i}: mixture of the classes (upper)")
            else:
                ctx.eqlog(got[i, 0, 0, 0], g_log(g_sum([g_prod([a, b]) for a, b in zip(prior, like[i])])), f"row {i}: mixture of the classes")
        return
    ctx.true(got.shape == (len(rows), K), "one probability per row and class", str(got.shape))
    for i in range(len(rows)):
        joint = [g_prod([a, b]) for a, b in zip(prior, like[i])]
        tot = g_sum(joint)
        for k in range(K):
            x = g_exp(got[i, k]) if how in ("log_posterior", "cached") else got[i, k]
            if name == "nb_3cls_fixed":
                ctx.le(g_prod([ctx.c(Fraction(10**9 - 1, 10**9)), joint[k]]), g_prod([x, tot]), f"row {i} class {k}: prior times likelihood, normalised (lower)")
                ctx.le(g_prod([x, tot]), g_prod([ctx.c(Fraction(10**9 + 1, 10**9)), joint[k]]), f"row {i} class {k}: prior times likelihood, normalised (upper)")
            else:
                ctx.eq(g_prod([x, tot]), joint[k], f"row {i} class {k}: prior times likelihood, normalised")


def sk(ctx, go, m, K, labels=None):
    from spflow.interfaces.sklearn import SPFlowClassifier
    e = SPFlowClassifier(m, dtype="float64")
    e.fit([[0.0]] * K, list(labels or range(K)))
    T.NUMPY_OBJECTS[0] = True
    try:
        return go(e)
    finally:
        T.NUMPY_OBJECTS[0] = False


def predict(ctx, name, how, k):
    """the reported class is one of largest reported probability (the probabilities are decided by the other cases)"""
    m, doms, K = make(ctx, name, "root_node.logits" if name in HARD else None)
    rows = all_rows(doms)[k::5][:1]
    data = data_of(ctx, rows, doms)
    X = [[NAN if r[v] is None else float(r[v]) for v in sorted(doms)] for r in rows]
    labels = [3, 7, 11][:K]
    with torch.no_grad():
        P = ctx.vals(m.predict_proba(data))
        got = [int(x) for x in ctx.vals(m.predict(data))] if how == "predict" else [labels.index(int(x)) for x in sk(ctx, lambda e: e.predict(X), m, K, labels[::-1])]
    for i in range(len(rows)):
        for c in range(K):
            ctx.le(P[i, c], P[i, got[i]], f"row {i}: class {c} not more probable than the prediction")


CASES = []
for _n in MODELS:
    for _h in ("log_posterior", "predict_proba", "cached", "marginal", "sklearn"):
        CASES.append(Case(f"{_n}:{_h}", lambda ctx, n=_n, h=_h: check(ctx, n, h, (0, 1))))
    for _h in ("predict", "sklearn-predict"):
        for _k in range(2):
            CASES.append(Case(f"{_n}:{_h}:{_k}", lambda ctx, n=_n, h=_h, k=_k: predict(ctx, n, h, k), max_paths=1500))


# ---- the formula itself, for all likelihoods ------------------------------------------------------------
def formula(ctx, K, rows, holes):
    from spflow.utils.inference import log_posterior
    like = [[float("-inf") if (b, k) in holes else g_log(ctx.pos(f"l{b}{k}")) for k in range(K)] for b in range(rows)]
    pri = [g_log(ctx.pos(f"w{k}")) for k in range(K)]
    with torch.no_grad():
        got = ctx.vals(log_posterior(ctx.tensor(like), ctx.tensor(pri)))
        got2 = ctx.vals(log_posterior(ctx.tensor(like), ctx.tensor([pri])))
    for b in range(rows):
        joint = [ctx.c(0) if (b, k) in holes else g_prod([g_exp(pri[k]), g_exp(like[b][k])]) for k in range(K)]
        for k in range(K):
            for g, t in ((got, "1d prior"), (got2, "2d prior")):
                ctx.eq(g_prod([g_exp(g[b, k]), g_sum(joint)]), joint[k], f"{t} {b},{k}")


for _K, _r, _h in ((2, 2, ()), (3, 2, ()), (3, 2, ((0, 1), (1, 0), (1, 2))), (4, 1, ((0, 3),)), (1, 2, ())):
    CASES.append(Case(f"formula:{_K}:{len(_h)}", lambda ctx, K=_K, r=_r, h=_h: formula(ctx, K, r, h)))


class _Stub:
    """a classifier with arbitrary probabilities"""


def stub_predict(ctx, K):
    from spflow.interfaces.classifier import Classifier

    class C_(Classifier):
        def predict_proba(self, data):
            return self.p
    c = C_()
    P = [[ctx.pos(f"p{b}{k}") for k in range(K)] for b in range(2)]
    c.p = ctx.tensor(P)
    got = [int(x) for x in ctx.vals(c.predict(None))]
    for b in range(2):
        for k in range(K):
            ctx.le(P[b][k], P[b][got[b]], f"row {b}: class {k} not more probable than the prediction")


for _K in (2, 3):
    CASES.append(Case(f"predict:stub:{_K}", lambda ctx, K=_K: stub_predict(ctx, K)))


# ---- training losses ------------------------------------------------------------------------------------
def losses(ctx, name):
    from spflow.learn import gradient_descent as gd
    from spflow.utils.cache import Cache
    m, doms, K = make(ctx, name)
    rows = all_rows(doms)[1::3][:3]
    data = data_of(ctx, rows, doms)
    with torch.no_grad():
        ll = ctx.vals(m.log_likelihood(data))
        post = ctx.vals(m.log_posterior(data))
        nll = ctx.vals(gd.negative_log_likelihood_loss(m, data))
        ctx.eq(g_prod([nll.reshape(-1)[0], ctx.c(len(rows))]), leaves.neg(g_sum([ll[i, 0, 0, 0] for i in range(len(rows))])), "negative mean log-likelihood")
        for y in itertools.product(range(K), repeat=2):
            tgt = list(y) + [0] * (len(rows) - 2)
            lp = gd._classifier_log_probabilities(m, data)
            lq = gd._classifier_log_probabilities_cached(m, data, Cache())
            for z, l in (("plain", lp), ("cached", lq)):
                got = ctx.vals(gd.classification_loss(l, torch.tensor(tgt))).reshape(-1)[0]
                ctx.eq(g_prod([got, ctx.c(len(rows))]), leaves.neg(g_sum([post[i, tgt[i]] for i in range(len(rows))])), f"classification loss {z} {y}")


for _n in ("nb_2cls", "einet_ein_2cls", "rat_3cls_3var"):
    CASES.append(Case(f"loss:{_n}", lambda ctx, n=_n: losses(ctx, n)))


# ---- density wrapper ---------------------------------------------------------------------------------------
def density(ctx, agg, ragg, dims):
    from spflow.interfaces.sklearn import _reduce_log_likelihood
    shape = {4: (2, 2, 3, 2), 3: (2, 2, 3), 2: (2, 3)}[dims]
    L = np.empty(shape, dtype=object)
    for ix in np.ndindex(*shape):
        L[ix] = g_log(ctx.pos(f"l{list(ix)}"))
    with torch.no_grad():
        got = ctx.vals(_reduce_log_likelihood(ctx.tensor(L), channel_agg=agg, repetition_agg=ragg))
    X = L.reshape(shape + (1,) * (4 - dims))
    _, F, C, R_ = X.shape
    ctx.true(got.shape == (2,), "one score per row", str(got.shape))
    one = lambda xs, how: xs[0] if how == "first" else g_sum(xs) if how == "logsumexp" else g_div(g_sum(xs), ctx.c(len(xs)))
    for b in range(2):
        v = one([one([g_prod([g_exp(X[b, f, c, r]) for f in range(F)]) for r in range(R_)], ragg) for c in range(C)], agg)
        ctx.eq(g_exp(got[b]), v, f"row {b}")


for _a in ("logmeanexp", "logsumexp", "first"):
    for _b in ("logmeanexp", "logsumexp", "first"):
        CASES.append(Case(f"score:{_a}:{_b}:4", lambda ctx, a=_a, b=_b: density(ctx, a, b, 4)))
    CASES.append(Case(f"score:{_a}:first:3", lambda ctx, a=_a: density(ctx, a, "first", 3)))
    CASES.append(Case(f"score:{_a}:first:2", lambda ctx, a=_a: density(ctx, a, "first", 2)))


def score_samples(ctx):
    from spflow.interfaces.sklearn import SPFlowDensityEstimator
    m, doms, K = make(ctx, "nb_3cls_learnable")
    rows = all_rows(doms)
    e = SPFlowDensityEstimator(m, fit_params=False, dtype="float64")
    X = [[NAN if r[v] is None else float(r[v]) for v in sorted(doms)] for r in rows]
    e.fit(X)
    T.NUMPY_OBJECTS[0] = True
    try:
        got = e.score_samples(X)
    finally:
        T.NUMPY_OBJECTS[0] = False
    want = ctx.vals(m.log_likelihood(data_of(ctx, rows, doms)).detach())
    for i in range(len(rows)):
        ctx.eqlog(got[i], want[i, 0, 0, 0], f"row {i}")


CASES.append(Case("score:model", score_samples))
