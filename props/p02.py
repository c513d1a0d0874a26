"""C02: every layer's log-likelihood is the documented combination of its children's log-likelihoods."""
from symtorch.harness import *
from .circuits import *
from . import ref
from torch.utils._python_dispatch import _disable_current_modes


def check(ctx, cfg):
    m = cfg.make(ctx)
    asg = [a for i, a in enumerate(cfg.assignments(with_nan=True))]
    asg = [asg[0], asg[len(asg) * 2 // 3], asg[1 + len(asg) // 4]]
    data = ctx.tensor(cfg.rows(asg))
    # local check: every inner module against the reference applied to its children's real tables
    tabs = {}

    def get(mod):
        if id(mod) not in tabs:
            with torch.no_grad():
                ll = mod.log_likelihood(data)
            tabs[id(mod)] = [ctx.vals(x) for x in ll] if isinstance(ll, (list, tuple)) else ctx.vals(ll)
        return tabs[id(mod)]
    from spflow.modules.module import Module
    n = 0
    for name, mod in m.named_modules():
        if not isinstance(mod, Module) or ref.is_leaf(mod):
            continue
        try:
            exp = ref.layer(ctx, mod, get)
        except KeyError:
            continue
        got = get(mod)
        if not isinstance(exp, list):
            exp, got = [exp], [got]
        ctx.true(len(exp) == len(got), f"{type(mod).__name__}:{name}:parts")
        for k, (e, g) in enumerate(zip(exp, got)):
            lab = f"{type(mod).__name__}:{name}"
            ctx.true(e.shape == g.shape, f"{lab}:shape", f"{e.shape} vs {g.shape}")
            if e.shape != g.shape:
                continue
            n += 1
            for ix in np.ndindex(*e.shape):
                ctx.eqlog(g[ix], e[ix], f"{lab}[{k}]{list(ix)}")


# ---- one layer over arbitrary child tables ------------------------------------------------------
# name -> build(I, G) ; G(scope, channels, repetitions) makes a child whose log-likelihoods are arbitrary
LAYERS = {
    "sum": lambda I, G: I.Sum(inputs=G([0, 1], 3), out_channels=2),
    "sum_reps": lambda I, G: I.Sum(inputs=G([0], 2, 2), out_channels=2, num_repetitions=2),
    "sum_list": lambda I, G: I.Sum(inputs=[G([0, 1], 2), G([0, 1], 1)], out_channels=2),
    "ewsum": lambda I, G: I.ElementwiseSum(inputs=[G([0, 1], 2), G([0, 1], 2), G([0, 1], 1)], out_channels=2),
    "ewsum_reps": lambda I, G: I.ElementwiseSum(inputs=[G([0], 2, 2), G([0], 2, 2)], out_channels=1, num_repetitions=2),
    "repmix": lambda I, G: I.RepetitionMixingLayer(inputs=G([0, 1], 2, 3), out_channels=2, num_repetitions=3),
    "product": lambda I, G: I.Product(inputs=G([0, 1, 2], 2, 2)),
    "product_list": lambda I, G: I.Product(inputs=[G([0, 1], 2), G([2], 2)]),
    "ewprod": lambda I, G: I.ElementwiseProduct(inputs=[G([0, 1], 2), G([2, 3], 2), G([4, 5], 1)]),
    "ewprod_reps": lambda I, G: I.ElementwiseProduct(inputs=[G([0], 2, 2), G([1], 2, 2)]),
    "ewprod_split3": lambda I, G: I.ElementwiseProduct(inputs=I.SplitMode.interleaved(3).create(G([0, 1, 2, 3, 4, 5], 2)), num_splits=3),
    "outer": lambda I, G: I.OuterProduct(inputs=[G([0, 1], 2), G([2, 3], 3)]),
    "outer3": lambda I, G: I.OuterProduct(inputs=[G([0], 2), G([1], 1), G([2], 3)]),
    "outer_split": lambda I, G: I.OuterProduct(inputs=I.SplitMode.consecutive(2).create(G([0, 1, 2, 3], 2))),
    "einsum": lambda I, G: I.EinsumLayer(inputs=[G([0, 1], 2), G([2, 3], 3)], out_channels=2),
    "einsum_swapped": lambda I, G: I.EinsumLayer(inputs=[G([0, 1], 3), G([2, 3], 2)], out_channels=2),
    "einsum_split": lambda I, G: I.EinsumLayer(inputs=G([0, 1, 2, 3], 2), out_channels=1, split_mode=I.SplitMode.interleaved(2)),
    "einsum_reps": lambda I, G: I.EinsumLayer(inputs=[G([0], 2, 2), G([1], 2, 2)], out_channels=2, num_repetitions=2),
    "linsum": lambda I, G: I.LinsumLayer(inputs=[G([0, 1], 3), G([2, 3], 3)], out_channels=2),
    "linsum_split": lambda I, G: I.LinsumLayer(inputs=G([0, 1, 2, 3], 2), out_channels=1, split_mode=I.SplitMode.by_index([[3, 0], [1, 2]])),
    "linsum_reps": lambda I, G: I.LinsumLayer(inputs=[G([0], 2, 2), G([1], 2, 2)], out_channels=2, num_repetitions=2),
    "factorize": lambda I, G: I.Factorize(inputs=[G([0, 1, 2], 2, 1)], depth=1, num_repetitions=1),
    "factorize_reps": lambda I, G: I.Factorize(inputs=[G([0, 1, 2, 3], 1, 2)], depth=2, num_repetitions=2),
    "factorize_list": lambda I, G: I.Factorize(inputs=[G([0, 1], 2, 1), G([2], 2, 1)], depth=1, num_repetitions=1),
    "prodconv": lambda I, G: I.ProdConv(inputs=G(range(8), 2), kernel_size_h=2, kernel_size_w=2) if False else I.ProdConv(inputs=G(range(4), 2), kernel_size_h=2, kernel_size_w=1),
    "prodconv_9": lambda I, G: I.ProdConv(inputs=G(range(9), 1), kernel_size_h=3, kernel_size_w=1),
    "prodconv_pad": lambda I, G: I.ProdConv(inputs=G(range(4), 1), kernel_size_h=2, kernel_size_w=2, padding_h=1, padding_w=1),
    "sumconv": lambda I, G: I.SumConv(inputs=G(range(4), 2), out_channels=2, kernel_size=2),
    "sumconv_16": lambda I, G: I.SumConv(inputs=G(range(16), 2), out_channels=1, kernel_size=2),
    "sumconv_reps": lambda I, G: I.SumConv(inputs=G(range(4), 2, 2), out_channels=1, kernel_size=2, num_repetitions=2),
    "sumconv_k1": lambda I, G: I.SumConv(inputs=G(range(4), 2), out_channels=2, kernel_size=1),
    "cat1": lambda I, G: I.Cat(inputs=[G([0, 1], 2), G([2], 2)], dim=1),
    "cat2": lambda I, G: I.Cat(inputs=[G([0, 1], 2), G([0, 1], 1)], dim=2),
}

HOLES = {
    "none": None,
    "one": lambda b, f, c, r: (b, f, c) == (0, 0, 0),                # one impossible entry
    "feature": lambda b, f, c, r: b == 0 and f == 0,                 # a child feature impossible under every channel
    "all": lambda b, f, c, r: b == 0,                                # a row impossible everywhere
}


def over(layer, hole, wide=False):
    def run(ctx):
        from .circuits import imports
        from .given import Given, fill
        kids = []

        def G(sc, C=1, R=1):
            g = Given(sc, C, R)
            kids.append(g)
            return g
        with _disable_current_modes():
            torch.manual_seed(0)
            np.random.seed(0)
            m = LAYERS[layer](imports(), G)
            m.eval()
        if wide:        # the contraction schedule meant for wide layers
            m._use_factored_probability_contraction = lambda *a, **k: True
        ctx.symbolize(m)
        tabs = {}
        h = HOLES[hole]
        for i, g in enumerate(kids):
            tabs[id(g)] = fill(ctx, g, 2, f"x{i}", h if i == 0 or hole in ("all",) else None)

        def get(mod):
            if id(mod) not in tabs:
                tabs[id(mod)] = ref.layer(ctx, mod, get)
            return tabs[id(mod)]
        want = get(m)
        with torch.no_grad():
            got = ctx.vals(m.log_likelihood(ctx.tensor([[0.0] * 9, [1.0] * 9])))
        ctx.true(got.shape == want.shape, "shape", f"{got.shape} vs {want.shape}")
        for ix in np.ndindex(*want.shape):
            ctx.eqlog(got[ix], want[ix], f"entry {list(ix)}")
    return run


BOUNDS = ["every circuit configuration of the library of small circuits, three rows including missing entries, all raw parameters",
          "every layer over children with arbitrary log-likelihood tables (1-16 features, 1-3 channels, 1-3 repetitions), none, one, some or all of a row's entries impossible (-inf)"]

CASES = cases("C02", check, select(without=("leaf",)))

for _l in LAYERS:
    for _h in HOLES:
        CASES.append(Case(f"given:{_l}:{_h}", over(_l, _h)))
for _l in ("einsum", "einsum_swapped", "einsum_split", "einsum_reps"):
    for _h in ("none", "one", "feature"):
        CASES.append(Case(f"given:{_l}:{_h}:wide", over(_l, _h, True)))
