"""C10: one EM step is the exact expected-count update."""
from symtorch.harness import *
from symtorch import sym
from .circuits import *
from . import ref, leaves, p11
from .given import Given, fill
from .leaves import sub
from torch.utils._python_dispatch import _disable_current_modes

BOUNDS = ["circuit structures as listed in the evidence (3-4 variables at most), batches of 1-3 complete rows over the finite domains (Gaussian leaves: all data values), one EM step from every "
          "parameter value (all weights and leaf parameters symbolic), bias correction off and on; two consecutive steps in the batched driver",
          "expected counts by definition: probability mass of the batch rows that flows through a weight (or a leaf cell), p(x) minus p(x) with that weight set to zero, over p(x), before the step"]
ASSUMPTIONS = ["stabilising constants of 1e-10 and 1e-12 added to responsibilities are treated as zero", "likelihood ascent is decided for single layers over arbitrary child likelihoods (2-3 children, 1-2 rows); for whole circuits it follows from the exact update", "batches have complete rows (leaf fitting refuses missing values)"]
sym.EXPAND_LIMIT = 1000
SUMS = ("Sum", "ElementwiseSum", "RepetitionMixingLayer", "EinsumLayer", "LinsumLayer", "SumConv")
NINF = float("-inf")


def reachable(m):
    """sum modules and leaves below m, each once"""
    out, seen, todo = [], set(), [m]
    while todo:
        x = todo.pop(0)
        if id(x) in seen:
            continue
        seen.add(id(x))
        out.append(x)
        if not ref.is_leaf(x):
            todo += [x.root_node] if hasattr(x, "root_node") else ref.children(x)
    return out


def outputs(ctx, m, data, leaf_memo, hook):
    ref.HOOK[0] = hook
    try:
        memo = {}
        for k, (mod, t) in leaf_memo.items():
            t = t.copy()
            if hook is not None:
                for ix in np.ndindex(*t.shape):
                    t[ix] = hook(mod, ix[1:], None, t[ix])
            memo[k] = t
        return np.vectorize(g_exp, otypes=[object])(ref.table_of(ctx, m, data, memo))
    finally:
        ref.HOOK[0] = None


def counts(ctx, m, data):
    """{(module id, index): [per-row expected count]} under the current parameters (the definition, not the gradient)"""
    mods = reachable(m)
    leaf_memo = {}
    for x in mods:
        if ref.is_leaf(x):
            with torch.no_grad():
                leaf_memo[id(x)] = (x, ctx.vals(x.log_likelihood(data)))
    base = outputs(ctx, m, data, leaf_memo, None)
    sites = {}

    def record(mod, ix, site, q):
        sites.setdefault((id(mod), ix), []).append(site) if site not in sites.get((id(mod), ix), []) else None
        return q
    outputs(ctx, m, data, leaf_memo, record)
    res = {}
    for (mid, ix), ss in sites.items():
        rows = [[] for _ in range(base.shape[0])]
        for site in ss:
            def zero(mod, i, s, q):
                if id(mod) == mid and i == ix and s == site:
                    return NINF if ref.is_leaf(mod) else ctx.c(0)
                return q
            t = outputs(ctx, m, data, leaf_memo, zero)
            for b in range(base.shape[0]):
                for o in np.ndindex(*base.shape[1:]):
                    rows[b].append(g_div(sub(base[(b,) + o], t[(b,) + o]), base[(b,) + o]))
        res[(mid, ix)] = [g_sum(r) for r in rows]
    return mods, res, base


def nothing(v):
    return not isinstance(v, sym.R) and v == 0


def groups(mod, shape):
    """index groups of one mixture each"""
    ax = {"Sum": (1,), "ElementwiseSum": (3,), "RepetitionMixingLayer": (2,), "EinsumLayer": (3, 4), "LinsumLayer": (3,), "SumConv": (1,)}[type(mod).__name__]
    d = {}
    for ix in np.ndindex(*shape):
        d.setdefault(tuple(v for a, v in enumerate(ix) if a not in ax), []).append(ix)
    return list(d.values())


def check_update(ctx, m, rows, step, bias, lab="", data_of=None):
    data = ctx.tensor(rows)
    mods, cnt, base = counts(ctx, m, data)
    before = {id(x): leaves.raw(ctx, x) for x in mods if ref.is_leaf(x)}
    step()
    for n, x in enumerate(mods):
        nm = f"{lab}{n}:{type(x).__name__}"
        if type(x).__name__ in SUMS:
            w = np.vectorize(g_exp, otypes=[object])(ctx.vals(x.log_weights.detach()))
            for g in groups(x, w.shape):
                g = [ix for ix in g if (id(x), ix) in cnt]
                tot = g_sum([c for ix in g for c in cnt[(id(x), ix)]])
                if nothing(tot):
                    continue                     # this mixture receives no mass: no expected counts to normalise
                for ix in g:
                    ctx.eq(g_prod([w[ix], tot]), g_sum(cnt[(id(x), ix)]), f"{nm} weight {list(ix)}: normalised expected count")
        elif ref.is_leaf(x):
            name = type(x).__name__
            P0, P = before[id(x)], leaves.raw(ctx, x)
            if name in ("Uniform", "Hypergeometric"):
                for pn in P:
                    for ix in np.ndindex(*P0[pn].shape):
                        ctx.eq(P[pn][ix], P0[pn][ix], f"{nm} {pn}{list(ix)} unchanged")
                continue
            if name not in p11.CONT + p11.DISC:
                continue
            F, C, R_ = x.out_shape.features, x.out_shape.channels, x.out_shape.repetitions
            for ix in np.ndindex(F, C, R_):
                ws = cnt[(id(x), ix)]
                if nothing(g_sum(ws)):
                    continue
                xs = [rows[b][x.scope.query[ix[0]]] for b in range(len(rows))]
                p11.expected(ctx, name, x, P0, xs, ws, bias, len(rows), ix, P, f"{nm} {list(ix)}")
    return base


def em(ctx, cfg, batch, bias, only=None):
    from spflow.learn.expectation_maximization import expectation_maximization
    m = cfg.make(ctx, "p", only=only, norm=True)
    rows = [[ctx.c(int(v)) if v == v else ctx.c(7) for v in r] for r in cfg.rows(batch)]
    got = {}

    def step():
        got["h"] = expectation_maximization(m, ctx.tensor(rows), max_steps=1, bias_correction=bias)
    base = check_update(ctx, m, rows, step, bias)
    history(ctx, got["h"], [base], len(rows))


def history(ctx, h, bases, n):
    """history entries are the mean log-likelihoods before each step"""
    h = ctx.vals(h)
    ctx.true(h.shape == (len(bases),), "one history entry per step", str(h.shape))
    for i, base in enumerate(bases):
        ctx.eqlog(g_prod([h[i], ctx.c(n)]), g_sum(g_log(v) for v in base.flatten()), f"history[{i}]: mean log-likelihood before the step")


def params_equal(ctx, a, b, lab):
    pb = dict(b.named_parameters())
    for n, p in a.named_parameters():
        u, v = ctx.vals(p.detach()), ctx.vals(pb[n].detach())
        for ix in np.ndindex(*u.shape):
            ctx.eqlog(u[ix], v[ix], f"{lab}: {n}{list(ix)}")


def driver(ctx, cfg, only):
    """the drivers repeat the one-step update: batched = one step per batch and epoch, max_steps=2 = two steps"""
    from spflow.learn.expectation_maximization import expectation_maximization, expectation_maximization_batched
    a = list(cfg.assignments())
    one = [[ctx.c(int(v)) for v in r] for r in cfg.rows([a[0], a[-1]])]
    two = [[ctx.c(int(v)) for v in r] for r in cfg.rows([a[1], a[-1], a[len(a) // 2]])]
    ref_, bat, two_steps = (cfg.make(ctx, "p", only=only, norm=True) for _ in range(3))
    h1 = expectation_maximization(ref_, ctx.tensor(one), max_steps=1, bias_correction=False)
    h2 = expectation_maximization(ref_, ctx.tensor(two), max_steps=1, bias_correction=False)
    hb = expectation_maximization_batched(bat, [ctx.tensor(one), (ctx.tensor(two),)], num_epochs=1, bias_correction=False)
    params_equal(ctx, bat, ref_, "batched = one step per batch")
    hb, h1, h2 = ctx.vals(hb), ctx.vals(h1), ctx.vals(h2)
    ctx.true(hb.shape == (1,), "one entry per epoch")
    ctx.eqlog(g_prod([hb[0], ctx.c(5)]), g_sum([g_prod([h1[0], ctx.c(2)]), g_prod([h2[0], ctx.c(3)])]), "epoch history: mean over all rows")


def two_step(ctx, cfg, only):
    from spflow.learn.expectation_maximization import expectation_maximization
    a = list(cfg.assignments())
    one = [[ctx.c(int(v)) for v in r] for r in cfg.rows([a[0], a[-1]])]
    ref_, both = (cfg.make(ctx, "p", only=only, norm=True) for _ in range(2))
    g = [expectation_maximization(ref_, ctx.tensor(one), max_steps=1, bias_correction=False) for _ in range(2)]
    h = ctx.vals(expectation_maximization(both, ctx.tensor(one), max_steps=2, bias_correction=False))
    params_equal(ctx, both, ref_, "two steps = one step twice")
    for i in range(2):
        ctx.eq(h[i], ctx.vals(g[i])[0], f"history[{i}]")


class Fixed(Given):
    def _expectation_maximization_step(self, data, bias_correction=True, *, cache):
        pass


def ascent(ctx, kind, K, rows):
    """one step never lowers the likelihood of the batch, for every child likelihood and every weight"""
    from spflow.learn.expectation_maximization import expectation_maximization
    I = imports()
    with _disable_current_modes():
        torch.manual_seed(0)
        g = Fixed([0], K, 1) if kind != "repmix" else Fixed([0], 1, K)
        if kind == "sum":
            m = I.Sum(inputs=g, out_channels=1)
        elif kind == "repmix":
            m = I.RepetitionMixingLayer(inputs=g, out_channels=1, num_repetitions=K)
        elif kind == "linsum":
            m = I.LinsumLayer(inputs=[g, Fixed([1], K, 1)], out_channels=1)
        elif kind == "sumconv":
            m = I.SumConv(inputs=g, out_channels=1, kernel_size=1)
    ctx.symbolize(m, "w", norm=True)
    for i, c in enumerate(m.inputs if kind == "linsum" else [g]):
        fill(ctx, c, rows, f"l{i}")
    data = ctx.tensor([[ctx.c(0), ctx.c(0)]] * rows)
    with torch.no_grad():
        before = ctx.vals(m.log_likelihood(data))
    expectation_maximization(m, data, max_steps=1)
    with torch.no_grad():
        after = ctx.vals(m.log_likelihood(data))
    pr = lambda t: g_prod([g_exp(v) for v in t.flatten()])
    ctx.le(pr(before), pr(after), "batch likelihood does not decrease")


def gauss(ctx, name, rows, bias, oc=2):
    """mixture of continuous leaves, all data values"""
    from spflow.learn.expectation_maximization import expectation_maximization
    I = imports()
    with _disable_current_modes():
        torch.manual_seed(0)
        leaf = {"Normal": I.L.Normal, "Laplace": I.L.Laplace, "Exponential": I.L.Exponential, "LogNormal": I.L.LogNormal}[name](scope=I.Scope([0]), out_channels=oc)
        m = I.Sum(inputs=leaf, out_channels=1)
    ctx.symbolize(m, "p", norm=True)
    x = [[ctx.real(f"x{i}") if name in ("Normal", "Laplace") else ctx.pos(f"x{i}")] for i in range(rows)]
    check_update(ctx, m, x, lambda: expectation_maximization(m, ctx.tensor(x), max_steps=1, bias_correction=bias), bias)


def shared_sum(I):
    a = I.Sum(inputs=bern(I, [0], 2), out_channels=2)
    return I.Sum(inputs=[I.Product(inputs=[a, bern(I, [1], 2)]), I.Product(inputs=[a, cat(I, [1], 2, 2)])], out_channels=1)


def bayes(learn):
    def b(I):
        return I.NaiveBayes([bern(I, [0], 2), bern(I, [1], 2)], num_classes=2, class_prior=[1.0, 2.0], learnable_prior=learn)
    return b


LOCAL = {"shared_sum": Cfg("shared_sum", shared_sum, dom([0, 1]), True), "naive_bayes_learned": Cfg("naive_bayes_learned", bayes(True), dom([0, 1]), True)}


def batches(cfg, n):
    a = list(cfg.assignments())
    k = len(a)
    out = [[a[0], a[-1]], [a[k // 2], a[1 % k], a[k // 2]]]
    if n > 2:
        out += [[a[i]] for i in range(k)] + [[a[i], a[(i + 1) % k], a[(3 * i + 2) % k]] for i in range(k)]
    return out[:n] if n < 100 else out


CASES = []
NAMES = [n for n in CFGS if not n.startswith("leaf") and "cltree" not in n]
HEAVY_EM = ("dag_shared", "deep", "hier_list", "repmix", "sum_leaf", "convpc_sumconv")


def parts(n, p):
    """into how many chunks a parameter tensor is divided (one symbolic chunk per case)"""
    if n.startswith("convpc"):
        return 8 if p.endswith("_logits") else 4 if p.endswith(".inputs.logits") else 1
    if n == "deep":
        return 2
    if n == "einsum_deep":
        return 8 if p.endswith("_logits") else 4 if p != "logits" else 1
    if p.endswith("_logits") and (n.startswith(("outer_", "rat_d1_rep2", "rat_d2", "einet_bu", "einet_lin")) or n == "repmix"):
        return 4
    return 1


def split_em(n):
    """which parameter tensors (or chunks of them) are symbolic, one per case"""
    if not (n in HEAVY_EM or n.startswith(("einet", "einsum", "linsum", "rat", "convpc", "outer_cons", "outer_inter", "outer_idx"))):
        return [None]
    return [p if parts(n, p) == 1 else f"{p}#{i}/{parts(n, p)}" for p in CFGS[n].params() for i in range(parts(n, p))]


for _n in NAMES:
    for _i, _b in enumerate(batches(CFGS[_n], 2)):
        for _o in split_em(_n):
            CASES.append(Case(f"{_n}:{_i}" + (f":{_o}" if _o else ""), lambda ctx, n=_n, b=_b, o=_o: em(ctx, CFGS[n], b, False, only=o), timeout=50, max_paths=600, tier="quick" if _i == 0 or not split_em(_n)[-1] else "thorough"))

for _n, _c in LOCAL.items():
    for _i, _b in enumerate(batches(_c, 2)):
        for _o in _c.params():
            CASES.append(Case(f"{_n}:{_i}:{_o}", lambda ctx, c=_c, b=_b, o=_o: em(ctx, c, b, False, only=o), timeout=50))
for _n in ("mix2", "mix_catbin", "sum_reps", "ewsum", "linsum_2in", "sumconv", "naive_bayes"):
    for _o in CFGS[_n].params()[:1]:
        CASES.append(Case(f"driver:{_n}:{_o}", lambda ctx, n=_n, o=_o: driver(ctx, CFGS[n], o), timeout=60))
        if _n not in ("mix_catbin", "linsum_2in"):
            CASES.append(Case(f"two-step:{_n}:{_o}", lambda ctx, n=_n, o=_o: two_step(ctx, CFGS[n], o), timeout=60))
for _k in ("sum", "repmix", "linsum", "sumconv"):
    for _K, _r in ((2, 1), (3, 1), (2, 2)):
        CASES.append(Case(f"ascent:{_k}:{_K}:{_r}", lambda ctx, k=_k, K=_K, r=_r: ascent(ctx, k, K, r), timeout=80, solver_ms=60000))
for _l in ("Normal", "Exponential", "LogNormal"):
    for _b in (True, False):
        CASES.append(Case(f"continuous:{_l}:{_b}", lambda ctx, l=_l, b=_b: gauss(ctx, l, 2, b), timeout=60))
