"""C08: mpe follows, at every sum node, a branch that maximises weight times evidence likelihood; leaves emit a mode."""
from symtorch.harness import *
from symtorch import sym
from symtorch.sym import R, Lazy, B
from symtorch.explore import Infeasible
from .circuits import *
from . import ref, leaves
from .p07 import call, patterns, isnan, g_min
from torch.utils._python_dispatch import _disable_current_modes

NAN = float("nan")
BOUNDS = ["every configuration of props/circuits.py that supports sampling; all parameter values (ties between branches excluded); rows with every variable missing, "
          "alternating evidence, and all but the last variable observed; public mpe / sample_with_evidence(is_mpe) and the last channel and repetition of the root",
          "two rows with different evidence in one batch for circuits over 1-2 variables",
          "leaf modes: every family with a mode, 2 features x 2 channels x 2 repetitions, all parameter values, against the family's own textbook density"]
ASSUMPTIONS = ["branches whose scores are exactly equal are interchangeable: such parameter values are excluded"]


class Decoder:
    def __init__(self, ctx, m, row, cfg):
        self.ctx, self.row, self.cfg = ctx, row, cfg
        self.memo, self.leafs, self.weights = {}, {}, {}
        self.data = ctx.tensor([row])
        self.root = m

    def table(self, m):
        return ref.table_of(self.ctx, m, self.data, self.memo)

    def logits(self, m):
        if id(m) not in self.weights:
            self.weights[id(m)] = self.ctx.vals(m.logits)
        return self.weights[id(m)]

    def best(self, scores):
        """index of the strictly largest score"""
        k = 0
        for i in range(1, len(scores)):
            if self.less(scores[k], scores[i]):
                k = i
            elif not self.less(scores[i], scores[k]):
                self.tie()
        return k

    def less(self, a, b):
        if S.mode_symbolic:
            return g_lt(a, b)
        return a < b - 1e-9 * (abs(a) + abs(b))

    def tie(self):
        self.ctx.assume(False)

    def choose(self, m, w, lls):
        """w: logits, lls: lists of log-likelihoods multiplied per branch"""
        return self.best([g_prod([g_exp(a)] + [g_exp(x) for x in l]) for a, l in zip(w, lls)])

    def leaf(self, m, f, c, r):
        vs = list(m.scope.query)
        multi = type(m).__name__ in ("CLTree",)
        mine = vs if multi else [vs[f]]
        free = [v for v in mine if isnan(self.row[v])]
        if not free:
            return {}
        key = id(m)
        if (key, tuple(mine)) not in self.leafs:
            combos = [dict(zip(free, x)) for x in itertools.product(*[self.cfg.domains[v] for v in free])]
            rows = []
            for cb in combos:
                rr = [NAN] * len(self.row)
                for v in mine:
                    rr[v] = self.ctx.c(cb[v]) if v in cb else self.row[v]
                rows.append(rr)
            with torch.no_grad():
                self.leafs[key, tuple(mine)] = (combos, self.ctx.vals(m.log_likelihood(self.ctx.tensor(rows))))
        combos, ll = self.leafs[key, tuple(mine)]
        fs = range(ll.shape[1]) if multi else [f if ll.shape[1] > 1 else 0]
        return combos[self.best([g_prod([g_exp(ll[i, k_, c, r]) for k_ in fs]) for i in range(len(combos))])]

    def cell(self, m, f, c, r):
        t = type(m).__name__
        D = self.cell
        if ref.is_leaf(m):
            return self.leaf(m, f, c, r)
        ch = ref.children(m)
        if t == "Cat":
            off = 0
            for k in ch:
                n = self.table(k).shape[m.dim]
                x = (f, c)[m.dim - 1]
                if x < off + n:
                    return D(k, x - off if m.dim == 1 else f, x - off if m.dim == 2 else c, r)
                off += n
        if t == "Sum":
            x, w = self.table(ch[0]), self.logits(m)
            C = x.shape[2]
            rr = r if x.shape[3] > 1 else 0
            i = self.choose(m, [w[f, k, c, r] for k in range(C)], [[x[0, f, k, rr]] for k in range(C)])
            return D(ch[0], f, i, rr)
        if t == "ElementwiseSum":
            w = self.logits(m)
            Co = w.shape[2]
            ci, co = divmod(c, Co)
            xs = [self.table(k) for k in ch]
            cc = [ci if x.shape[2] > 1 else 0 for x in xs]
            i = self.choose(m, [w[f, ci, co, k, r] for k in range(len(xs))], [[x[0, f, cc[k], r]] for k, x in enumerate(xs)])
            return D(ch[i], f, cc[i], r)
        if t == "RepetitionMixingLayer":
            x, w = self.table(ch[0]), self.logits(m)
            i = self.choose(m, [w[f, c, k] for k in range(x.shape[3])], [[x[0, f, c, k]] for k in range(x.shape[3])])
            return D(ch[0], f, c, i)
        if t == "Product":
            return self.merge([D(ch[0], k, c, r) for k in range(self.table(ch[0]).shape[1])])
        if t == "Factorize":
            ix = self.ctx.vals(m.indices)
            return self.merge([D(ch[0], k, c, r if self.table(ch[0]).shape[3] > 1 else 0) for k in range(ix.shape[0]) if ix[k, f, r] == 1])
        if t in ("ElementwiseProduct", "OuterProduct", "EinsumLayer", "LinsumLayer"):
            xs = ref.inputs_tables(self.ctx, m, self.table)
            if len(ch) == 1 and type(ch[0]).__name__.startswith("Split"):
                s, src = ch[0], ref.children(ch[0])[0]
                parts = ref.split_parts(s, self.table(src).shape[1])
                go = [lambda f_, c_, r_, p=p: D(src, p[f_], c_, r_) for p in parts]
            else:
                go = [lambda f_, c_, r_, k=k: D(k, f_, c_, r_) for k in ch]
            fs = [f if x.shape[1] > 1 else 0 for x in xs]
            if t == "ElementwiseProduct":
                return self.merge([g(fs[i], c if xs[i].shape[2] > 1 else 0, r) for i, g in enumerate(go)])
            if t == "OuterProduct":
                combo = list(itertools.product(*[range(x.shape[2]) for x in xs]))[c]
                return self.merge([g(fs[i], combo[i], r) for i, g in enumerate(go)])
            w = self.logits(m)
            if t == "EinsumLayer":
                I_, J = w.shape[3], w.shape[4]
                pairs = list(itertools.product(range(I_), range(J)))
                k = self.choose(m, [w[f, c, r, i, j] for i, j in pairs], [[xs[0][0, fs[0], i, r], xs[1][0, fs[1], j, r]] for i, j in pairs])
                return self.merge([go[0](fs[0], pairs[k][0], r), go[1](fs[1], pairs[k][1], r)])
            k = self.choose(m, [w[f, c, r, i] for i in range(w.shape[3])], [[xs[0][0, fs[0], i, r], xs[1][0, fs[1], i, r]] for i in range(w.shape[3])])
            return self.merge([go[0](fs[0], k, r), go[1](fs[1], k, r)])
        if t == "ProdConv":
            F = self.table(ch[0]).shape[1]
            H = int(round(F ** 0.5))
            ow = (H + 2 * m.padding_w) // m.kernel_size_w
            i, j = divmod(f, ow)
            cells = [(i * m.kernel_size_h + a - m.padding_h, j * m.kernel_size_w + e - m.padding_w) for a in range(m.kernel_size_h) for e in range(m.kernel_size_w)]
            return self.merge([D(ch[0], h * H + w_, c, r) for h, w_ in cells if 0 <= h < H and 0 <= w_ < H])
        if t == "SumConv":
            x, w = self.table(ch[0]), self.logits(m)
            H, K = int(round(x.shape[1] ** 0.5)), m.kernel_size
            h, w_ = divmod(f, H)
            a, e = (h % K, w_ % K) if H >= K else (0, 0)
            i = self.choose(m, [w[c, k, a, e, r] for k in range(x.shape[2])], [[x[0, f, k, r]] for k in range(x.shape[2])])
            return D(ch[0], f, i, r)
        if t in ("RatSPN", "Einet", "ConvPc", "NaiveBayes"):
            return D(m.root_node if hasattr(m, "root_node") else ch[0], f, c, r)
        raise Unsupported(t)

    @staticmethod
    def merge(ds):
        out = {}
        for d in ds:
            for v, x in d.items():
                out[v] = x
        return out


def concrete(v):
    if isinstance(v, Lazy):
        return int(v)
    if isinstance(v, B):
        return int(bool(v))
    return v


def value_of(ctx, x, dom):
    """the value of a discrete output cell (forks)"""
    x = concrete(x)
    if isinstance(x, R):
        for d in dom:
            if not sym.truth(sym.lt(x, ctx.c(d))) and not sym.truth(sym.lt(ctx.c(d), x)):
                return d
        return None
    return None if isnan(x) else float(x)


def check(ctx, cfg, how, names, root="public", only=None):
    m = cfg.make(ctx, only=only, const="logprime")
    for name in names:
        asgs = patterns(cfg)[name]
        rows = []
        for a in asgs:
            r = [NAN] * cfg.ncols
            for v, x in a.items():
                if x is not None:
                    r[v] = ctx.c(x)
            rows.append(r)
        data = ctx.tensor(rows)
        c = r_ = 0
        with torch.no_grad():
            if root == "public":
                out = call(m, how, data)
            else:
                from spflow.utils.sampling_context import SamplingContext
                from spflow.utils.cache import Cache
                cache = Cache()
                sh = m.log_likelihood(data, cache=cache).shape
                c, r_ = sh[2] - 1, sh[3] - 1
                n = len(rows)
                out = m._sample(data, SamplingContext(channel_index=torch.full((n, sh[1]), c, dtype=torch.long), mask=torch.ones((n, sh[1]), dtype=torch.bool),
                                                      repetition_index=torch.full((n,), r_, dtype=torch.long), is_mpe=True), cache)
        e = ctx.vals(out)
        got = [{v: value_of(ctx, e[i][v], cfg.domains[v]) for v in cfg.vars() if isnan(rows[i][v])} for i in range(len(rows))]
        for i, row in enumerate(rows):
            d = Decoder(ctx, m, row, cfg)
            F = d.table(m).shape[1]
            want = d.merge([d.cell(m, f, c, r_) for f in range(F)])
            for v in got[i]:
                ctx.true(v in want and got[i][v] is not None and float(want[v]) == float(got[i][v]), f"{how} {name} row {i} variable {v}", f"{got[i][v]} instead of {want.get(v)}")


HEAVY8 = HEAVY + ("outer_cons_3way", "outer_inter_3way", "sumconv", "sumconv_multi", "rat_d1_outer_cls", "einet_ein_cls")
CASES = []
NAMES = [n for n in select(exclude=NO_SAMPLING)]


WIDE = ("dag_shared", "rat_d1_rep2", "einet_lin", "repmix", "einsum_reps", "einsum_2in", "einsum_inter_2", "einsum_idx_2", "einsum_cons_2", "outer_2in", "outer_inter_2",
        "outer_cons_2")


def add(n, h, p, root="public", tier="quick", split=None):
    c = CFGS[n]
    tag = "" if root == "public" else ":last"
    if n in HEAVY8 if split is None else split:
        for k in c.params():
            t = "thorough" if n == "einsum_deep" and k.count("inputs") > 1 else tier
            CASES.append(Case(f"{n}:{h}:{p}{tag}@{k}", lambda ctx, k=k: check(ctx, c, h, [p], root, only=k),
                              timeout=100 if t == "quick" else 300, witnesses=2, max_paths=2000, tier=t))
    else:
        CASES.append(Case(f"{n}:{h}:{p}{tag}", lambda ctx: check(ctx, c, h, [p], root), timeout=100 if tier == "quick" else 300, witnesses=2, max_paths=2000, tier=tier))


for _n in NAMES:
    _c = CFGS[_n]
    _big = _n in HEAVY8
    add(_n, "mpe", "none", tier="thorough" if _big else "quick")
    add(_n, "mpe", "even", tier="thorough" if _n == "einsum_deep" else "quick")
    add(_n, "evidence-mpe", "odd", tier="thorough" if _n in ("outer_cons_3way", "outer_inter_3way") else "quick")
    add(_n, "evidence-mpe", "even", tier="thorough")
    if len(_c.domains) > 1:
        small = len(_c.domains) == 2 and not _big and _n not in WIDE
        add(_n, "evidence-mpe", "full|last", tier="quick" if small else "thorough")
        add(_n, "mpe", "even|odd", tier="quick" if small and _n not in ("mix_catbin", "sum_list", "sum_multi_feature") else "thorough")
        if _n in WIDE:
            add(_n, "mpe", "even|odd", split=True)
    if "multiclass" not in _c.tags and "leaf" not in _c.tags:
        add(_n, "evidence-mpe", "odd", "last", tier="thorough" if _big else "quick")


# ---- modes of the leaf families -----------------------------------------------------------------------
def mode_case(name, shape):
    def run(ctx):
        from spflow.utils.sampling_context import SamplingContext
        from spflow.utils.cache import Cache
        fam = leaves.FAM[name]
        nf, C, R_ = shape
        m = leaves.make(ctx, name, shape)
        P = leaves.raw(ctx, m)
        cells = list(np.ndindex(C, R_))
        n = len(cells)
        sc = SamplingContext(channel_index=torch.tensor([[c] * nf for c, _ in cells], dtype=torch.long), mask=torch.ones((n, nf), dtype=torch.bool),
                             repetition_index=torch.tensor([r for _, r in cells], dtype=torch.long), is_mpe=True)
        with torch.no_grad():
            out = ctx.vals(m._sample(ctx.tensor([[NAN] * nf] * n), sc, Cache()))
        one = ctx.c(1)
        for b, (c, r) in enumerate(cells):
            for f in range(nf):
                ix, x, lab = (f, c, r), out[b, f], f"{(f, c, r)}"
                if name in ("Bernoulli", "Categorical", "Hypergeometric"):
                    x = concrete(x)
                    dom = fam.support if name != "Hypergeometric" else range(0, 4)
                    d = {v: g_exp(fam.logd(m, P, v, ix)) for v in dom if name != "Hypergeometric" or hyper_ok(P, v, ix)}
                    ctx.true(x in d or float(x) in d, f"{lab}: in the support", str(x))
                    if x in d or float(x) in d:
                        for v in d:
                            ctx.le(d[v], d[x if x in d else float(x)], f"{lab}: at least as probable as {v}")
                elif name in ("Poisson", "Binomial", "NegativeBinomial", "Geometric"):
                    ctx.le(ctx.c(0), x, f"{lab}: support")
                    up = g_sum([x, one])
                    if name == "Poisson":
                        lam = g_exp(P["log_rate"][ix])
                        ctx.le(lam, up, f"{lab}: not less probable than the next")
                        ctx.le(x, lam, f"{lab}: not less probable than the previous")
                    elif name == "Binomial":
                        q = g_prod([g_sum([P["_total_count"][ix], one]), leaves.sigm(P["_logits"][ix])])
                        ctx.le(x, P["_total_count"][ix], f"{lab}: support (upper)")
                        ctx.le(q, up, f"{lab}: not less probable than the next")
                        ctx.le(x, q, f"{lab}: not less probable than the previous")
                    elif name == "Geometric":
                        ctx.eq(x, ctx.c(0), f"{lab}: zero")
                    else:
                        p_, n_ = leaves.sigm(P["_logits"][ix]), P["_total_count"][ix]
                        ctx.le(g_prod([g_sum([x, n_]), p_]), up, f"{lab}: not less probable than the next")
                        if not (isinstance(x, (int, float, Fraction)) and x == 0):
                            prev = g_prod([g_sum([x, n_, leaves.neg(one)]), p_])
                            if g_lt(ctx.c(0), x):
                                ctx.le(x, prev, f"{lab}: not less probable than the previous")
                elif name in ("Normal", "Laplace"):
                    ctx.eq(x, P["loc"][ix], f"{lab}: location")
                elif name == "LogNormal":
                    s = g_exp(P["log_scale"][ix])
                    ctx.eq(g_log(x), leaves.sub(P["loc"][ix], g_prod([s, s])), f"{lab}: exp(loc - scale^2)")
                elif name == "Exponential":
                    ctx.eq(x, ctx.c(0), f"{lab}: zero")
                elif name == "Gamma":
                    a, rt = g_exp(P["log_concentration"][ix]), g_exp(P["log_rate"][ix])
                    if g_lt(one, a):
                        ctx.eq(g_prod([x, rt]), leaves.sub(a, one), f"{lab}: (a-1)/b")
                    else:
                        ctx.eq(x, ctx.c(0), f"{lab}: boundary")
                elif name == "Histogram":
                    e = [Fraction(0), Fraction(1), Fraction(3), Fraction(7, 2)]
                    p_ = softmax_list(list(P["_logits"][ix]))
                    k = 0
                    for j in (1, 2):
                        if g_lt(p_[k], p_[j]):
                            k = j
                        elif not g_lt(p_[j], p_[k]):
                            ctx.assume(False)
                    ctx.eq(x, ctx.c((e[k] + e[k + 1]) / 2), f"{lab}: midpoint of the most probable bin")
    return run


def hyper_ok(P, x, ix):
    K, N, n = (int(P[k_][ix]) for k_ in ("K", "N", "n"))
    return max(0, n + K - N) <= x <= min(n, K)


for _f in leaves.FAM:
    if _f == "Uniform":
        continue
    for _s in ([(1, 2, 2), (2, 2, 1)] if _f not in ("Histogram", "Categorical", "Binomial", "NegativeBinomial", "Gamma") else [(1, 2, 1), (1, 1, 2)] + ([(2, 1, 1)] if _f != "Histogram" else [])):
        CASES.append(Case(f"mode:{_f}:{_s}", mode_case(_f, _s), timeout=100, max_paths=2000))
