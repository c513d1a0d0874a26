"""C24: wrapping a circuit for image tensors changes only the data layout."""
import itertools
from symtorch.harness import *
from .circuits import *
from . import leaves as LV
from torch.utils._python_dispatch import _disable_current_modes

NAN = float("nan")
BOUNDS = ["images of 1-2 channels and 1-3 rows and columns (at most 8 pixels); leaf-only, product, sum, Einsum, RAT-SPN and Einet circuits over the pixels, variables listed in any order; "
          "all parameter values; arbitrary real pixels (Normal leaves) or every binary image; missing pixels: every pattern up to 4 pixels, selected ones beyond",
          "every choice of channels, rows and columns to marginalise, and two marginalisations in a row",
          "one expectation-maximisation step on two images"]
ASSUMPTIONS = ["the wrapped circuit itself is the reference (its own correctness is C01-C10)", "random draws follow their documented law"]


class W:
    def __init__(self, name, build, shape, real=False, tags=()):
        self.name, self.build, self.shape, self.real, self.tags = name, build, shape, real, tags

    def make(self, ctx, prefix=""):
        """(wrapper, bare circuit) with the same parameters"""
        from spflow.modules.wrapper.image_wrapper import ImageWrapper
        ms = []
        for _ in range(2):
            with _disable_current_modes():
                torch.manual_seed(0)
                np.random.seed(0)
                m = self.build(imports())
                m.eval()
            ctx.symbolize(m, prefix=prefix, norm=True)
            ms.append(m)
        return ImageWrapper(ms[0], *self.shape), ms[1]

    @property
    def n(self):
        return int(np.prod(self.shape))

    def pixels(self):
        """pixel -> variable: channel by channel, row by row"""
        C, H, Wd = self.shape
        return {(c, h, w): (c * H + h) * Wd + w for c in range(C) for h in range(H) for w in range(Wd)}

    def image(self, ctx, rows, pix=None, shape=None):
        pix = self.pixels() if pix is None else pix
        e = np.empty((len(rows),) + tuple(shape or self.shape), dtype=object)
        for b, row in enumerate(rows):
            for p, v in pix.items():
                e[(b,) + p] = row[v]
        return ctx.tensor(e)

    def rows(self, ctx, pats, tag="x"):
        """one row per pattern of missing variables"""
        out = []
        for i, miss in enumerate(pats):
            out.append([NAN if v in miss else ctx.real(f"{tag}{i}_{v}") if self.real else ctx.c((i // 2 ** v + v * i) % 2) for v in range(self.n)])
        return out


def patterns(n):
    vs = range(n)
    out = [set(s) for k in range(n + 1) for s in itertools.combinations(vs, k)]
    if n > 4:
        out = [set(), set(vs)] + [{v} for v in vs] + [set(vs) - {v} for v in vs] + [set(range(0, n, 2)), set(range(1, n, 2)), set(range(n // 2))]
    return out


def same_table(ctx, a, b, label):
    a, b = ctx.vals(a), ctx.vals(b)
    ctx.true(a.shape == b.shape, f"{label} shape", f"{a.shape} {b.shape}")
    if a.shape != b.shape:
        return
    for ix in np.ndindex(*a.shape):
        ctx.eqlog(a[ix], b[ix], f"{label} {list(ix)}")


def likelihood(ctx, cfg):
    from spflow.utils.cache import Cache
    w, m = cfg.make(ctx)
    ctx.true(set(w.scope.query) == set(range(cfg.n)), "scope")
    ctx.true(tuple(w.out_shape) == tuple(m.out_shape) and w.feature_to_scope.shape == m.feature_to_scope.shape
             and all(set(a.query) == set(b.query) for a, b in zip(w.feature_to_scope.flatten(), m.feature_to_scope.flatten())), "shape and scopes")
    rows = cfg.rows(ctx, patterns(cfg.n))
    img, flat = cfg.image(ctx, rows), ctx.tensor(rows)
    with torch.no_grad():
        want = m.log_likelihood(flat)
        same_table(ctx, w.log_likelihood(img), want, "log-likelihood")
        same_table(ctx, w.log_likelihood(img, cache=Cache()), want, "with a cache")
        same_table(ctx, w.log_likelihood(img.permute(0, 2, 3, 1).contiguous().permute(0, 3, 1, 2)), want, "channels-last memory")
        same_table(ctx, w.log_likelihood(img.flip(0)).flip(0), want, "other row order")
        v, u = ctx.vals(w.probability(img)), ctx.vals(m.probability(flat))
        for ix in np.ndindex(*v.shape):
            ctx.eq(v[ix], u[ix], f"probability {list(ix)}")
    got = ctx.vals(img)
    for b, row in enumerate(rows):
        for p, v in cfg.pixels().items():
            x, y = row[v], got[(b,) + p]
            if isinstance(x, float) and x != x:
                ctx.true(isinstance(y, float) and y != y, f"input kept {b} {p}")
            else:
                ctx.eq(y, x, f"input kept {b} {p}")


def layout(ctx, cfg):
    """flatten and to_image_format are each other's inverse and wrong shapes are refused"""
    from spflow.exceptions import ShapeError, StructureError
    from spflow.modules.wrapper.image_wrapper import ImageWrapper
    w, m = cfg.make(ctx)
    pix = cfg.pixels()
    rows = [[ctx.real(f"r{b}_{v}") for v in range(cfg.n)] for b in range(2)]
    img = cfg.image(ctx, rows)
    flat = ctx.vals(w.flatten(img))
    ctx.true(flat.shape == (2, cfg.n), "flat shape")
    back = ctx.vals(w.to_image_format(ctx.tensor(rows)))
    one = ctx.vals(w.to_image_format(ctx.tensor(rows[0]), batch=False))
    for p, v in pix.items():
        for b in range(2):
            ctx.eq(flat[b, v], rows[b][v], f"flatten {b} {p}")
            ctx.eq(back[(b,) + p], rows[b][v], f"to image {b} {p}")
        ctx.eq(one[p], rows[0][v], f"to image, no batch {p}")
    C, H, Wd = cfg.shape
    for s in {(C, Wd, H), (H, C, Wd), (Wd, H, C), (C, 1, H * Wd), (C, H * Wd, 1), (1, C * H, Wd), (C, H + 1, Wd), (C + 1, H, Wd), (C, H, 1)} - {cfg.shape}:
        bad = torch.zeros(1, *s)
        ctx.raises(ShapeError, lambda: w.log_likelihood(bad), f"{s} refused")
    ctx.raises(ShapeError, lambda: w.log_likelihood(torch.zeros(1, cfg.n)), "flat data refused")
    for s in ((C, H, Wd + 1), (C + 1, H, Wd)):
        ctx.raises(StructureError, lambda: ImageWrapper(m, *s), f"size {s} refused")


def outcomes(vs):
    return itertools.product((0, 1), repeat=len(vs))


def sampling(ctx, cfg, miss, how):
    """the law of the sampled images is the conditional distribution of the circuit"""
    w, m = cfg.make(ctx)
    pix = cfg.pixels()
    order = sorted(pix, key=lambda p: pix[p])
    row = [NAN if v in miss else ctx.c((v + 1) // 2 % 2) for v in range(cfg.n)]
    asg = [[x if v in miss else row[v] for v, x in enumerate(y)] for y in outcomes(range(cfg.n)) if all(v in miss or x == float(row[v]) for v, x in enumerate(y))]
    with torch.no_grad():
        lls = ctx.vals(m.log_likelihood(ctx.tensor([[ctx.c(x) if isinstance(x, int) else x for x in a] for a in asg])))
        le = ctx.vals(m.log_likelihood(ctx.tensor([row])))
    dens = [g_prod(g_exp(lls[i, f, 0, 0]) for f in range(lls.shape[1])) for i in range(len(asg))]
    de = g_prod(g_exp(le[0, f, 0, 0]) for f in range(lls.shape[1]))

    def run(n):
        if how == "count":
            x = w.sample(num_samples=n)
        elif how == "data":
            x = w.sample(data=cfg.image(ctx, [row] * n))
        elif how == "params":
            x, recs = w.sample(num_samples=n, return_leaf_params=True)
            assert len(recs) > 0
        else:
            x = w.sample_with_evidence(cfg.image(ctx, [row] * n))
        assert tuple(x.shape) == (n,) + cfg.shape
        return torch.stack([x[(slice(None),) + p] for p in order], dim=1)
    with torch.no_grad():
        law = ctx.law(run, 4000)
    for a, d in zip(asg, dens):
        law.eq_prob([float(x) for x in a], g_div(d, de), f"{how} {''.join('?' if v in miss else str(int(float(row[v]))) for v in range(cfg.n))} -> {''.join(str(int(float(x))) for x in a)}")


def mpe(ctx, cfg, miss):
    """most probable images equal the circuit's own"""
    w, m = cfg.make(ctx)
    row = [NAN if v in miss else ctx.c((v + 1) // 2 % 2) for v in range(cfg.n)]
    with torch.no_grad():
        want = ctx.vals(m.mpe(data=ctx.tensor([row, row])))
        got = {"mpe": w.mpe(data=cfg.image(ctx, [row, row])), "evidence": w.sample_with_evidence(cfg.image(ctx, [row, row]), is_mpe=True)}
        if len(miss) == cfg.n:
            got["count"] = w.mpe(num_samples=2)
            got["sample"] = w.sample(num_samples=2, is_mpe=True)
    for nm, g in got.items():
        g = ctx.vals(g)
        ctx.true(g.shape == (2,) + cfg.shape, f"{nm} shape", str(g.shape))
        for b in range(2):
            for p, v in cfg.pixels().items():
                ctx.eq(g[(b,) + p], want[b][v], f"{nm} {b} {p}")


def em(ctx, cfg):
    from spflow.learn.expectation_maximization import expectation_maximization
    w, m = cfg.make(ctx)
    rows = [[ctx.c((b * (v + 1) + v // 2) % 2) for v in range(cfg.n)] for b in range(2)]
    h = expectation_maximization(w, cfg.image(ctx, rows), max_steps=1, bias_correction=False)
    g = expectation_maximization(m, ctx.tensor(rows), max_steps=1, bias_correction=False)
    h, g = ctx.vals(h).reshape(-1), ctx.vals(g).reshape(-1)
    for i in range(len(g)):
        ctx.eqlog(h[i], g[i], f"history {i}")
    qs = dict(w.module.named_parameters())
    for n, p in m.named_parameters():
        a, b = ctx.vals(qs[n].detach()), ctx.vals(p.detach())
        for ix in np.ndindex(*a.shape):
            ctx.eqlog(a[ix], b[ix], f"{n}{list(ix)}")


def choices(shape):
    C, H, Wd = shape
    subs = lambda n: [list(s) for k in range(n + 1) for s in itertools.combinations(range(n), k)]
    return [(c, h, w) for c in subs(C) for h in subs(H) for w in subs(Wd) if c or h or w]


def marginal(ctx, cfg, ch, second=None):
    """the wrapper of the smaller image is the circuit with the removed pixels missing"""
    from spflow.modules.wrapper.image_wrapper import MarginalizationContext, ImageWrapper
    w, m = cfg.make(ctx)
    C, H, Wd = cfg.shape
    keep = [[i for i in range(n) if i not in gone] for n, gone in zip(cfg.shape, ch)]
    r = w.marginalize(MarginalizationContext(*[x or None for x in ch]))
    if second is not None and r is not None:
        ch2 = second
        keep = [[x for i, x in enumerate(k) if i not in gone] for k, gone in zip(keep, ch2)]
        r = r.marginalize(MarginalizationContext(*ch2))
    if not all(keep):
        ctx.true(r is None, "everything marginalised", str(type(r)))
        return
    ctx.true(isinstance(r, ImageWrapper), "is a wrapper", str(type(r)))
    if not isinstance(r, ImageWrapper):
        return
    shape = tuple(len(k) for k in keep)
    ctx.true((r.num_channel, r.height, r.width) == shape, "image size", str((r.num_channel, r.height, r.width)))
    full = cfg.pixels()
    pix = {tuple(k.index(x) for k, x in zip(keep, p)): v for p, v in full.items() if all(x in k for k, x in zip(keep, p))}
    left = set(pix.values())
    ctx.true(set(r.scope.query) == left, "scope", str(r.scope.query))
    ls = sorted(left)
    pats = [set(ls[i] for i in s) for s in patterns(len(ls))]
    rows = [[x if v in left else NAN for v, x in enumerate(row)] for row in cfg.rows(ctx, pats)]
    with torch.no_grad():
        a, b = ctx.vals(r.log_likelihood(cfg.image(ctx, rows, pix, shape))), ctx.vals(m.log_likelihood(ctx.tensor(rows)))
    if m.out_shape.features == len(full):       # a leaf: one output per pixel
        b = b[:, [v for v in range(len(full)) if m.feature_to_scope[v, 0].query[0] in left]]
    ctx.true(a.shape == b.shape, "shape", f"{a.shape} {b.shape}")
    if a.shape == b.shape:
        for ix in np.ndindex(*a.shape):
            ctx.eqlog(a[ix], b[ix], f"log-likelihood {list(ix)}")
    if not cfg.real and len(left) <= 3 and second is None:
        with torch.no_grad():
            x = r.sample(num_samples=2)
            ctx.true(tuple(x.shape) == (2,) + shape, "sample shape", str(tuple(x.shape)))
            le = ctx.vals(m.log_likelihood(ctx.tensor([[NAN] * cfg.n])))
            asg = list(itertools.product((0, 1), repeat=len(ls)))
            lls = ctx.vals(m.log_likelihood(ctx.tensor([[ctx.c(a[ls.index(v)]) if v in left else NAN for v in range(cfg.n)] for a in asg])))
            inv = {v: p for p, v in pix.items()}

            def run(n):
                x = r.sample(num_samples=n)
                return torch.stack([x[(slice(None),) + inv[v]] for v in ls], dim=1)
            law = ctx.law(run, 4000)
        for i, a in enumerate(asg):
            law.eq_prob([float(x) for x in a], g_prod(g_exp(lls[i, f, 0, 0]) for f in range(lls.shape[1])), f"sample {a}")


CFG24 = {}


def img(name, shape, real=False, tags=()):
    def deco(f):
        CFG24[name] = W(name, f, shape, real, tags)
        return f
    return deco


def norm(I, sc, oc=1, rep=1):
    return I.L.Normal(scope=I.Scope(list(sc)), out_channels=oc, num_repetitions=rep)


@img("leaf", (1, 2, 2))
def _(I):
    return bern(I, range(4), 2, 1)


@img("sum", (1, 2, 2))
def _(I):
    return I.Sum(I.Product(bern(I, range(4), 2)), out_channels=1)


@img("channels", (2, 1, 2))
def _(I):
    return I.Sum(I.Product(bern(I, range(4), 2)), out_channels=1)


@img("strip", (1, 3, 1))
def _(I):
    return I.Sum(I.Product(bern(I, range(3), 2)), out_channels=2)


@img("wide", (1, 1, 3))
def _(I):
    return I.Sum(I.Product(bern(I, range(3), 2, 2)), out_channels=1, num_repetitions=2)


@img("shuffled", (1, 2, 2))
def _(I):
    return I.Sum(I.Product([bern(I, [2, 1], 2), bern(I, [3, 0], 2)]), out_channels=1)


@img("shuffled_leaf", (2, 1, 2))
def _(I):
    return I.Product(bern(I, [3, 1, 0, 2], 1))


@img("normal", (1, 2, 2), real=True)
def _(I):
    return I.Product(norm(I, range(4), 2))


@img("normal8", (2, 2, 2), real=True)
def _(I):
    return I.Sum(I.Product(norm(I, range(8), 2)), out_channels=1)


@img("normal6", (1, 2, 3), real=True)
def _(I):
    return I.Product([norm(I, [5, 0, 3], 1), norm(I, [1, 4, 2], 1)])


@img("mixed", (1, 2, 2), real=True)
def _(I):
    return I.Sum(I.Product([norm(I, [3], 2), norm(I, [0, 2], 2), norm(I, [1], 2)]), out_channels=1)


@img("ratspn", (1, 2, 2), tags=("model",))
def _(I):
    return I.RatSPN(leaf_modules=[bern(I, range(4), 2, 1)], n_root_nodes=1, n_region_nodes=2, num_repetitions=1, depth=1, outer_product=True)


SUBSETS = {4: [set(), {0, 1, 2, 3}, {0}, {1, 2}, {0, 3}, {1, 2, 3}, {0, 1, 2}], 3: [{0, 1, 2}, {0}, {1, 2}]}
CASES = []
for _n, _c in CFG24.items():
    CASES.append(Case(f"likelihood:{_n}", lambda ctx, c=_c: likelihood(ctx, c)))
    CASES.append(Case(f"layout:{_n}", lambda ctx, c=_c: layout(ctx, c)))
    for _ch in choices(_c.shape):
        if "model" in _c.tags:
            continue
        CASES.append(Case(f"marginal:{_n}:" + "|".join("".join(map(str, x)) for x in _ch), lambda ctx, c=_c, ch=_ch: marginal(ctx, c, ch), tier="quick" if _c.n < 8 or sum(map(len, _ch)) < 3 else "thorough"))
    if _n in ("normal6", "normal8", "sum", "shuffled"):
        for _i, (_a, _b) in enumerate([(([], [0], []), ([], [], [0])), (([], [], [1]), ([], [0], [])), (([], [], [0]), ([], [1], []))]):
            CASES.append(Case(f"marginal-twice:{_n}:{_i}", lambda ctx, c=_c, a=_a, b=_b: marginal(ctx, c, a, b)))
    if _c.real:
        continue
    for _miss in SUBSETS[_c.n]:
        _t = "".join(map(str, sorted(_miss)))
        if len(_miss) == _c.n:
            for _h in ("count", "data", "params"):
                CASES.append(Case(f"sample:{_n}:{_h}", lambda ctx, c=_c, s=_miss, h=_h: sampling(ctx, c, s, h)))
        CASES.append(Case(f"sample:{_n}:evidence:{_t}", lambda ctx, c=_c, s=_miss: sampling(ctx, c, s, "evidence")))
        CASES.append(Case(f"mpe:{_n}:{_t}", lambda ctx, c=_c, s=_miss: mpe(ctx, c, s)))
    CASES.append(Case(f"em:{_n}", lambda ctx, c=_c: em(ctx, c)))
