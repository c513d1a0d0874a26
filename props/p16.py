"""C16: differentiable (one-hot) sampling follows hard (integer) sampling."""
import contextlib
import functools
import itertools
from symtorch.harness import *
from symtorch.harness import S
from .circuits import imports, CFGS, NO_SAMPLING
from .given import Given, fill
from . import leaves as LV
from torch.utils._python_dispatch import _disable_current_modes

BOUNDS = ["every routing layer that supports differentiable sampling over 1-2 children with 1-4 features, 1-3 channels, 1-2 repetitions, all weights symbolic, every parent channel / repetition / mask choice, with and without "
          "(symbolic, possibly -inf) child likelihoods as evidence",
          "most-probable routing, and random routing coupled through the same symbolic noise: hard draws pick argmax p_k*e_k of the noise e > 0 (the exponential race the Gumbel-max trick uses), differentiable draws see the uniform "
          "numbers exp(-1/e); temperatures 1 and 1/2",
          "leaf values: the mode of every family with a differentiable sampler (2 channels, 2 repetitions, symbolic parameters), coupled draws of Bernoulli/Categorical/Histogram, one-hot and soft (convex) routing",
          "whole circuits of props/circuits.py with one symbolic weight tensor at a time (evidence: none and one observed variable)"]
ASSUMPTIONS = ["the Gumbel-max/exponential-race theorem: argmax_k p_k*e_k with 1/e_k independent unit exponentials has law p (the differentiable sampler's noise transform itself is encoded)"]


def pick(ctx, name, n):
    """an arbitrary choice among 0..n-1 (every one is explored)"""
    if n == 1:
        return 0
    v = ctx.real(name)
    return next((k for k in range(n - 1) if g_lt(v, ctx.c(k))), n - 1)


@contextlib.contextmanager
def coupled(ctx, tag="e"):
    """uniform, normal, Bernoulli and categorical draws all read the same symbolic noise e > 0, in call order"""
    n = [0]

    def noise(shape):
        n[0] += 1
        t = np.empty(tuple(shape), dtype=object)
        for j, ix in enumerate(np.ndindex(*t.shape)):
            t[ix] = ctx.pos(f"{tag}{n[0]}_{j}")
        return ctx.tensor(t)

    def rand(*size, **k):
        size = size[0] if len(size) == 1 and not isinstance(size[0], int) else size
        return torch.exp(-1.0 / noise(size)).to(k.get("dtype") or torch.get_default_dtype())

    def rand_like(x, **k):
        return rand(tuple(x.shape), dtype=x.dtype)

    def multinomial(p, num_samples, replacement=False, **k):
        return torch.stack([(p * noise(p.shape)).argmax(-1) for _ in range(num_samples)], dim=-1)

    def bernoulli(p, *a, **k):
        e = noise((*p.shape, 2))
        return (p * e[..., 1] > (1 - p) * e[..., 0]).to(p.dtype)

    def normal(mean, std, *a, **k):
        return mean + std * torch.log(noise(mean.shape))

    def normal_(self, mean=0.0, std=1.0, **k):
        return mean + std * torch.log(noise(self.shape))

    def uniform_(self, lo=0.0, hi=1.0, **k):
        return lo + (hi - lo) * rand(tuple(self.shape), dtype=self.dtype)

    saved = {k: getattr(torch, k) for k in ("rand", "rand_like", "multinomial", "bernoulli", "normal")}
    try:
        torch.rand, torch.rand_like, torch.multinomial, torch.bernoulli, torch.normal = rand, rand_like, multinomial, bernoulli, normal
        torch.Tensor.normal_, torch.Tensor.uniform_ = normal_, uniform_
        yield
    finally:
        del torch.Tensor.normal_, torch.Tensor.uniform_
        for k, v in saved.items():
            setattr(torch, k, v)


def context(ctx, ch, mk, rep, C, R, diff, mpe, tau=1.0):
    """hard or one-hot request for channels ch (b, f), repetition rep (b,)"""
    from spflow.utils.sampling_context import SamplingContext
    mask = torch.tensor(mk)
    if not diff:
        return SamplingContext(channel_index=torch.tensor(ch), mask=mask, repetition_index=torch.tensor(rep), is_mpe=mpe)
    oh = torch.nn.functional.one_hot(torch.tensor(ch), C).to(torch.float64)
    return SamplingContext(channel_index=oh, mask=mask, repetition_index=torch.nn.functional.one_hot(torch.tensor(rep), R).to(torch.float64),
                           is_mpe=mpe, is_differentiable=True, tau=tau)


def kids_ll(ctx, gs, rows, hole=None):
    for i, g in enumerate(gs):
        fill(ctx, g, rows, f"x{i}", hole if i == 0 else None)


def compare(ctx, gs, hard, soft):
    """requests of every child in both modes"""
    for i, g in enumerate(gs):
        ctx.true(len(hard[i]) == len(soft[i]), f"child {i}: number of requests")
        for j, (h, s) in enumerate(zip(hard[i], soft[i])):
            lab = f"child {i}" + (f".{j}" if len(hard[i]) > 1 else "")
            hm, sm = ctx.vals(h.mask), ctx.vals(s.mask)
            hc, sc = ctx.vals(h.channel_index), ctx.vals(s.channel_index)
            hr, sr = ctx.vals(h.repetition_index), ctx.vals(s.repetition_index)
            ctx.true(hm.shape == sm.shape, f"{lab}: mask shape", f"{hm.shape} {sm.shape}")
            ctx.true(sc.shape == (*hc.shape, g.out_shape.channels), f"{lab}: one-hot shape", str(sc.shape))
            ctx.true(sr.shape == (hc.shape[0], g.out_shape.repetitions), f"{lab}: repetition shape", str(sr.shape))
            for ix in np.ndindex(*hm.shape):
                ctx.true(bool(hm[ix]) == bool(sm[ix]), f"{lab}: mask {list(ix)}", f"{hm[ix]} {sm[ix]}")
                if hm[ix]:
                    for c in range(g.out_shape.channels):
                        ctx.eq(sc[ix][c], ctx.c(int(int(hc[ix]) == c)), f"{lab}: channel {list(ix)} = {c}")
            for b in range(hm.shape[0]):
                if hm[b].any():
                    for r in range(g.out_shape.repetitions):
                        ctx.eq(sr[b, r], ctx.c(int(int(hr[b]) == r)), f"{lab}: repetition [{b}] = {r}")


def route(build, rows=1, mpe=True, ev=False, hole=None, tau=1.0, kinds=None, width=None, whole=False):
    """build(I) -> (module, [Given children])"""
    def run(ctx):
        from spflow.utils.cache import Cache
        with _disable_current_modes():
            torch.manual_seed(0)
            np.random.seed(0)
            m, gs = build(imports())
            m.eval()
        for g in gs:
            g.ll = None
        ctx.symbolize(m, prefix="", kinds=kinds)
        kids_ll(ctx, gs, rows, hole)
        F, C, R = m.out_shape.features, m.out_shape.channels, m.out_shape.repetitions
        W = F if width is None else width
        n = max(v for g in gs for v in g.order) + 1
        base = pick(ctx, "c", C)
        ch = [[(base + b + f * (b + 1)) % C for f in range(W)] for b in range(rows)]
        rep = [(pick(ctx, "r", R) + b) % R for b in range(rows)]
        drop = pick(ctx, "m", W + 1) - 1 if W > 1 and not whole else -1
        mk = [[f != (drop + b) % W if drop >= 0 else True for f in range(W)] for b in range(rows)]
        log = []
        for diff in (False, True):
            for g in gs:
                g.requests.clear()
            cache = Cache()
            with torch.no_grad(), (contextlib.nullcontext() if mpe else coupled(ctx)):
                if ev:
                    m.log_likelihood(ctx.tensor([[0.0] * n] * rows), cache=cache)
                m._sample(data=torch.full((rows, n), float("nan")), sampling_ctx=context(ctx, ch, mk, rep, C, R, diff, mpe, tau), cache=cache)
            log.append([list(g.requests) for g in gs])
        compare(ctx, gs, *log)
    return run


def G(*spec):
    return [Given(sc, C, R) for sc, C, R in spec]


def one(f, *spec):
    def b(I):
        gs = G(*spec)
        return f(I, gs), gs
    return b


SUMS = {
    "sum": one(lambda I, g: I.Sum(inputs=g[0], out_channels=2, num_repetitions=1), ([0], 3, 1)),
    "sum_f2": one(lambda I, g: I.Sum(inputs=g[0], out_channels=2, num_repetitions=1), ([0, 1], 2, 1)),
    "sum_r2": one(lambda I, g: I.Sum(inputs=g[0], out_channels=2, num_repetitions=2), ([0], 2, 2)),
    "sum_two": one(lambda I, g: I.Sum(inputs=g, out_channels=1, num_repetitions=1), ([0], 2, 1), ([0], 1, 1)),
    "elemsum": one(lambda I, g: I.ElementwiseSum(inputs=g, out_channels=2), ([0], 2, 1), ([0], 2, 1)),
    "elemsum_r2": one(lambda I, g: I.ElementwiseSum(inputs=g, out_channels=1, num_repetitions=2), ([0], 2, 2), ([0], 2, 2)),
    "repmix": one(lambda I, g: I.RepetitionMixingLayer(inputs=g[0], out_channels=2, num_repetitions=2), ([0], 2, 2)),
    "einsum": one(lambda I, g: I.EinsumLayer(inputs=g, out_channels=2), ([0], 2, 1), ([1], 2, 1)),
    "einsum_r2": one(lambda I, g: I.EinsumLayer(inputs=g, out_channels=1, num_repetitions=2), ([0], 2, 2), ([1], 1, 2)),
    "einsum_single": one(lambda I, g: I.EinsumLayer(inputs=g[0], out_channels=1), ([0, 1], 2, 1)),
    "linsum": one(lambda I, g: I.LinsumLayer(inputs=g, out_channels=2), ([0], 2, 1), ([1], 2, 1)),
    "linsum_r2": one(lambda I, g: I.LinsumLayer(inputs=g, out_channels=1, num_repetitions=2), ([0], 2, 2), ([1], 2, 2)),
    "linsum_single": one(lambda I, g: I.LinsumLayer(inputs=g[0], out_channels=1), ([0, 1], 2, 1)),
    "sumconv": one(lambda I, g: I.SumConv(inputs=g[0], out_channels=2, kernel_size=1), ([0], 2, 1)),
    "sumconv_k2": one(lambda I, g: I.SumConv(inputs=g[0], out_channels=1, kernel_size=2), ([0, 1, 2, 3], 2, 1)),
    "sumconv_r2": one(lambda I, g: I.SumConv(inputs=g[0], out_channels=2, kernel_size=1, num_repetitions=2), ([0], 2, 2)),
}
PRODS = {
    "product": one(lambda I, g: I.Product(inputs=g[0]), ([0, 1, 2], 3, 2)),
    "product_two": one(lambda I, g: I.Product(inputs=g), ([0, 1], 2, 1), ([2], 2, 1)),
    "elem": one(lambda I, g: I.ElementwiseProduct(inputs=g), ([0, 1], 3, 2), ([2, 3], 3, 2)),
    "elem_bcast": one(lambda I, g: I.ElementwiseProduct(inputs=g), ([0], 3, 1), ([1], 1, 1)),
    "elem_split": one(lambda I, g: I.ElementwiseProduct(inputs=I.SplitMode.interleaved(2).create(g[0])), ([0, 1, 2, 3], 2, 1)),
    "outer": one(lambda I, g: I.OuterProduct(inputs=g), ([0, 1], 2, 1), ([2, 3], 3, 1)),
    "outer3": one(lambda I, g: I.OuterProduct(inputs=g), ([0], 2, 2), ([1], 1, 2), ([2], 2, 2)),
    "outer_split": one(lambda I, g: I.OuterProduct(inputs=I.SplitMode.consecutive(2).create(g[0])), ([0, 1, 2, 3], 2, 1)),
    "cat1": one(lambda I, g: I.Cat(inputs=g, dim=1), ([0, 1], 2, 2), ([2], 2, 2)),
    "cat2": one(lambda I, g: I.Cat(inputs=g, dim=2), ([0, 1], 2, 2), ([0, 1], 1, 2)),
    "cons": one(lambda I, g: I.SplitMode.consecutive(2).create(g[0]), ([0, 1, 2, 3], 3, 2)),
    "inter": one(lambda I, g: I.SplitMode.interleaved(2).create(g[0]), ([0, 1, 2, 3], 3, 2)),
    "byidx": one(lambda I, g: I.SplitMode.by_index([[3, 0], [1, 2]]).create(g[0]), ([0, 1, 2, 3], 3, 2)),
    "factorize": one(lambda I, g: I.Factorize(inputs=g, depth=1, num_repetitions=2), ([0, 1, 2], 2, 2)),
    "factorize4": one(lambda I, g: I.Factorize(inputs=g, depth=2, num_repetitions=1), ([0, 1, 2, 3], 2, 1)),
    "prodconv": one(lambda I, g: I.ProdConv(inputs=g[0], kernel_size_h=2, kernel_size_w=2), ([0, 1, 2, 3], 2, 2)),
    "prodconv_row": one(lambda I, g: I.ProdConv(inputs=g[0], kernel_size_h=1, kernel_size_w=2), ([0, 1, 2, 3], 2, 1)),
}


# ---- soft routing ------------------------------------------------------------------------------
def soft(build):
    """routing layers are linear: soft channel (and repetition) weights reach the children as the same mixture of hard requests"""
    def run(ctx):
        from spflow.utils.cache import Cache
        from spflow.utils.sampling_context import SamplingContext
        with _disable_current_modes():
            torch.manual_seed(0)
            np.random.seed(0)
            m, gs = build(imports())
            m.eval()
        F, C, R = m.out_shape.features, m.out_shape.channels, m.out_shape.repetitions
        n = max(v for g in gs for v in g.order) + 1
        w = [ctx.simplex(f"w{f}", C) for f in range(F)]
        rep = pick(ctx, "r", R)
        nan = torch.full((1, n), float("nan"))
        want = [dict() for _ in gs]
        for combo in range(C):
            for g in gs:
                g.requests.clear()
            m._sample(data=nan.clone(), sampling_ctx=context(ctx, [[combo] * F], [[True] * F], [rep], C, R, False, True), cache=Cache())
            for i, g in enumerate(gs):
                want[i][combo] = [int(v) for v in ctx.vals(g.requests[0].channel_index)[0]]
        own = [owners(ctx, m, gs, i, F, C, R, n, rep) for i in range(len(gs))]
        for g in gs:
            g.requests.clear()
        cw = ctx.tensor(np.array([w], dtype=object))
        rw = ctx.tensor([[1.0 if r == rep else 0.0 for r in range(R)]])
        m._sample(data=nan.clone(), sampling_ctx=SamplingContext(channel_index=cw, mask=torch.ones((1, F), dtype=torch.bool), repetition_index=rw,
                                                              is_mpe=True, is_differentiable=True), cache=Cache())
        for i, g in enumerate(gs):
            got = ctx.vals(g.requests[0].channel_index)
            for f in range(got.shape[1]):
                for c in range(g.out_shape.channels):
                    ctx.eq(got[0, f, c], g_sum([w[own[i][f]][k] for k in range(C) if want[i][k][f] == c] or [ctx.c(0)]), f"child {i}: weight [{f},{c}]")
    return run


def owners(ctx, m, gs, i, F, C, R, n, rep):
    """parent feature that decides each child feature's request"""
    from spflow.utils.cache import Cache
    out = {}
    for o in range(F):
        for g in gs:
            g.requests.clear()
        m._sample(data=torch.full((1, n), float("nan")), sampling_ctx=context(ctx, [[0] * F], [[f == o for f in range(F)]], [rep], C, R, False, True), cache=Cache())
        if gs[i].requests:
            for f, v in enumerate(ctx.vals(gs[i].requests[0].mask)[0]):
                if v:
                    out[f] = o
    return out


# ---- leaves ------------------------------------------------------------------------------------
def settle(ctx, x):
    """a drawn index that the path has not looked at yet: split into its values"""
    return ctx.c(int(x)) if type(x).__name__ == "Lazy" else x


SMALL = ("Bernoulli", "Categorical", "Histogram", "Gamma")      # modes fork: one feature, two channels or two repetitions
DIFF_LEAVES = [n for n in LV.FAM]


def leaf(name, mpe=True, weights="hard", small=None):
    def run(ctx):
        from spflow.utils.cache import Cache
        from spflow.utils.sampling_context import SamplingContext
        shape, scope = (small, [1]) if small else ((2, 2, 2), [2, 0])
        m = LV.make(ctx, name, shape, scope)
        F, C, R = m.out_shape.features, m.out_shape.channels, m.out_shape.repetitions
        n = max(scope) + 1
        nan = torch.full((1, n), float("nan"))

        def go(diff, ch, rep):
            with torch.no_grad(), (contextlib.nullcontext() if mpe else coupled(ctx)):
                return ctx.vals(m._sample(data=nan.clone(), sampling_ctx=context(ctx, [ch], [[True] * F], [rep], C, R, diff, mpe), cache=Cache()))
        if weights == "hard":
            base, rep = pick(ctx, "c", C), pick(ctx, "r", R)
            ch = [(base + f) % C for f in range(F)]
            a, b = go(False, ch, rep), go(True, ch, rep)
            ctx.true(a.shape == b.shape, "shape")
            for v in scope:
                ctx.eq(settle(ctx, b[0, v]), settle(ctx, a[0, v]), f"value of variable {v}")
            return
        w, q = [ctx.simplex(f"w{f}", C) for f in range(F)], ctx.simplex("q", R)
        with torch.no_grad():
            b = ctx.vals(m._sample(data=nan.clone(), sampling_ctx=SamplingContext(
                channel_index=ctx.tensor(np.array([w], dtype=object)), mask=torch.ones((1, F), dtype=torch.bool), repetition_index=ctx.tensor(np.array([q], dtype=object)),
                is_mpe=True, is_differentiable=True), cache=Cache()))
        vals = {(c, r): go(False, [c] * F, r) for c in range(C) for r in range(R)}
        for f, v in enumerate(sorted(scope) if name == "Histogram" else m.scope.query):
            want = [w[f][c] * q[r] * vals[c, r][0, v] if not isinstance(vals[c, r][0, v], (int, float)) else w[f][c] * q[r] * ctx.c(vals[c, r][0, v]) for c in range(C) for r in range(R)]
            ctx.eq(b[0, v], g_sum(want), f"mixture of variable {v}")
    return run


# ---- primitives --------------------------------------------------------------------------------
def simple(K, how, mpe, tau):
    def run(ctx):
        from spflow.utils.sampling_context import sample_from_logits, SIMPLE
        l = np.array([[ctx.real(f"l{b}{k}") for k in range(K)] for b in range(2)], dtype=object)
        if how == "weights":
            l = np.array([[g_log(v) for v in ctx.simplex_norm(f"p{b}", K)] for b in range(2)], dtype=object)
        t = ctx.tensor(l)
        with (contextlib.nullcontext() if mpe else coupled(ctx)):
            hard = ctx.vals(sample_from_logits(t, dim=-1, is_mpe=mpe, is_differentiable=False))
        with (contextlib.nullcontext() if mpe else coupled(ctx)):
            s = ctx.vals(sample_from_logits(t, dim=-1, is_mpe=mpe, is_differentiable=True, tau=tau) if how != "weights" else SIMPLE(log_weights=t, dim=-1, is_mpe=mpe, tau=tau))
        for b in range(2):
            for k in range(K):
                ctx.eq(s[b, k], ctx.c(int(int(hard[b]) == k)), f"one-hot [{b},{k}]")
    return run


def gumbel():
    def run(ctx):
        """g = -log(-log u): exp(-exp(-g)) = u, i.e. g has the standard Gumbel law"""
        from spflow.utils.sampling_context import sample_gumbel
        with coupled(ctx):
            g = ctx.vals(sample_gumbel((3,)))
        for j in range(3):
            e = ctx.pos(f"e1_{j}")
            ctx.eq(g_exp(g[j]), e, f"noise {j}")
    return run


def index(shape, dim, hole=False):
    def run(ctx):
        from spflow.utils.sampling_context import index_tensor, index_one_hot, to_one_hot
        K = shape[dim]
        rest = tuple(s for i, s in enumerate(shape) if i != dim)
        x = np.empty(shape, dtype=object)
        for j, ix in enumerate(np.ndindex(*shape)):
            x[ix] = float("-inf") if hole and j % 2 else ctx.real(f"x{list(ix)}")
        if not hole:
            w = np.moveaxis(np.array([ctx.simplex(f"w{list(ix)}", K) for ix in np.ndindex(*rest)], dtype=object).reshape(*rest, K), -1, dim)
            s = ctx.vals(index_one_hot(ctx.tensor(x), ctx.tensor(w), dim=dim))
            for ix in np.ndindex(*rest):
                full = [ix[:dim] + (k,) + ix[dim:] for k in range(K)]
                ctx.eq(s[ix], g_sum([w[f] * x[f] for f in full]), f"convex combination {list(ix)}")
        k = np.empty(rest, dtype=object)
        for ix in np.ndindex(*rest):
            k[ix] = pick(ctx, f"k{list(ix)}", K)
        kt = torch.tensor(k.astype(int).tolist())
        oh = to_one_hot(kt, dim=dim, dim_size=K, dtype=torch.float64)
        a = ctx.vals(index_tensor(ctx.tensor(x), index=kt.unsqueeze(dim), dim=dim, is_differentiable=False))
        b = ctx.vals(index_tensor(ctx.tensor(x), index=oh, dim=dim, is_differentiable=True))
        for ix in np.ndindex(*rest):
            ctx.eqlog(b[ix], a[ix], f"selection {list(ix)}")
            ctx.eqlog(a[ix], x[ix[:dim] + (int(k[ix]),) + ix[dim:]], f"entry {list(ix)}")
    return run


CASES = []
for _n, _b in SUMS.items():
    layer = functools.partial(route, whole=_n == "sumconv_k2")
    CASES.append(Case(f"route:{_n}:mode", layer(_b, mpe=True), max_paths=1500))
    CASES.append(Case(f"route:{_n}:draw", layer(_b, mpe=False, tau=0.5), max_paths=1500))
    CASES.append(Case(f"route:{_n}:mode:evidence", layer(_b, mpe=True, ev=True, tau=0.5), max_paths=1500))
    CASES.append(Case(f"route:{_n}:draw:evidence", layer(_b, mpe=False, ev=True), max_paths=1500))
    CASES.append(Case(f"route:{_n}:mode:impossible", layer(_b, mpe=True, ev=True, hole=lambda b, f, c, r: (c + r) % 2 == 0), max_paths=1500))
layer = route
for _n, _b in PRODS.items():
    CASES.append(Case(f"route:{_n}", layer(_b, rows=2)))
    if _n not in ("cat2",):
        CASES.append(Case(f"soft:{_n}", soft(_b)))
for _n in ("sum_f2", "elem", "outer", "cat1", "cat2", "product_two"):
    CASES.append(Case(f"wide:{_n}", layer({**SUMS, **PRODS}[_n], width=1)))
for _n in DIFF_LEAVES:
    for _s in ((1, 2, 1), (1, 1, 2)) if _n in SMALL else ((2, 2, 2),):
        CASES.append(Case(f"leaf:{_n}:{'x'.join(map(str, _s))}:mode", leaf(_n, small=_s if _n in SMALL else None)))
        CASES.append(Case(f"leaf:{_n}:{'x'.join(map(str, _s))}:soft", leaf(_n, weights="soft", small=_s if _n in SMALL else None)))
for _n in ("Bernoulli", "Categorical", "Histogram", "Normal", "Uniform"):
    CASES.append(Case(f"leaf:{_n}:draw", leaf(_n, mpe=False, small=(1, 2, 1) if _n in SMALL else None)))
for _K, _h, _m, _t in itertools.product((2, 3), ("logits", "weights"), (True, False), (1.0, 0.5)):
    CASES.append(Case(f"one_hot:{_K}:{_h}:{'mode' if _m else 'draw'}:tau{_t}", simple(_K, _h, _m, _t)))
CASES.append(Case("gumbel", gumbel()))
for _s, _d in (((2, 2), 0), ((2, 3), 1), ((1, 2, 2), 1), ((2, 2, 1), 2)):
    CASES += [Case(f"index:{list(_s)}:{_d}".replace(" ", ""), index(_s, _d)), Case(f"index:{list(_s)}:{_d}:impossible".replace(" ", ""), index(_s, _d, True))]


# ---- whole circuits ----------------------------------------------------------------------------
def circuit(ctx, cfg, only=None, ev=False):
    from spflow.utils.cache import Cache
    m = cfg.make(ctx, only=only)
    F, C, R = m.out_shape.features, m.out_shape.channels, m.out_shape.repetitions
    if "multiclass" in cfg.tags:
        R, C = 1, (m.root_node.inputs.out_shape.channels if cfg.name.startswith("rat") else C)
    vs = cfg.vars()
    row = cfg.rows([{v: (next(iter(cfg.assignments()))[v] if ev and v == vs[0] else None) for v in vs}])[0]
    base, rep = (C - 1, R - 1) if C * R > 4 else (pick(ctx, "c", C), pick(ctx, "r", R))
    vals = []
    for diff in (False, True):
        cache = Cache()
        data = torch.tensor([row])
        with torch.no_grad():
            if ev:
                m.log_likelihood(data.clone(), cache=cache)
            vals.append(ctx.vals(m._sample(data=data.clone(), sampling_ctx=context(ctx, [[(base + f) % C for f in range(F)]], [[True] * F], [rep], C, R, diff, True), cache=cache)))
    for v in vs:
        ctx.eq(settle(ctx, vals[1][0, v]), settle(ctx, vals[0][0, v]), f"variable {v}")


for _n, _c in CFGS.items():
    if _n in NO_SAMPLING or any(k in _n for k in ("cltree", "signed", "piecewise")):
        continue
    for _p in _c.params():
        _leaf = _p.endswith("_logits")
        CASES.append(Case(f"circuit:{_n}@{_p}", lambda ctx, c=_c, p=_p: circuit(ctx, c, p), tier="thorough" if _leaf and len(_c.vars()) > 2 else "quick"))
        CASES.append(Case(f"circuit:{_n}@{_p}:evidence", lambda ctx, c=_c, p=_p: circuit(ctx, c, p, True), tier="thorough" if _leaf else "quick"))
