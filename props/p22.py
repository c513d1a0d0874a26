"""C22: structure transformations, copies and the expression DSL preserve the distribution."""
import builtins
import contextlib
import copy
import itertools
import os
import tempfile
from symtorch.harness import *
from symtorch.harness import S
from .circuits import *
from . import leaves as LV
from torch.utils._python_dispatch import _disable_current_modes

NAN = float("nan")
BOUNDS = ["expressions: the listed shapes (up to 4 terms, 3 nesting levels, 3 binary variables), written with term(), with w() and inside dsl(), every positive weight and leaf parameter, every complete and partially observed row",
          "prune_sums: the listed nestings of sums, concatenations and products (up to 3 channels, 2 features, 2 repetitions)",
          "copies (deepcopy, save/load of a file, state dict into a differently initialised model): every configuration of props/circuits.py, every row, all parameter values"]
ASSUMPTIONS = ["a pickled symbolic tensor is restored with its contents (the pickle protocol of torch.Tensor itself is trusted)"]


# ------------------------------------------------------------------ expressions
class Weight(builtins.float):
    """a symbolic weight the DSL takes for a number (the float behind it only answers questions such as isfinite)"""

    def __new__(cls, v, shown=0.5):
        self = builtins.float.__new__(cls, shown)
        self.v = v
        return self

    def _other(self, o):
        return o.v if isinstance(o, Weight) else LV.k(Fraction(o))

    def _op(f):
        def g(self, o):
            return f(self.v, self._other(o)) if isinstance(o, (int, builtins.float)) else NotImplemented
        return g
    __le__ = _op(lambda a, b: not g_lt(b, a))
    __lt__ = _op(lambda a, b: bool(g_lt(a, b)))
    __gt__ = _op(lambda a, b: bool(g_lt(b, a)))
    __ge__ = _op(lambda a, b: not g_lt(a, b))
    __add__ = __radd__ = _op(lambda a, b: Weight(g_sum([a, b])))
    __mul__ = __rmul__ = _op(lambda a, b: Weight(g_prod([a, b])))
    __sub__ = _op(lambda a, b: Weight(LV.sub(a, b)))
    __truediv__ = _op(lambda a, b: Weight(g_div(a, b)))
    __rtruediv__ = _op(lambda a, b: Weight(g_div(b, a)))
    __hash__ = object.__hash__

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return "Weight"


class _Float(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.float, Weight))

    def __call__(cls, x=0.0):
        return x if isinstance(x, (Weight, torch.Tensor)) else builtins.float(x)


class SymFloat(metaclass=_Float):
    pass


@contextlib.contextmanager
def numbers(ctx):
    """spflow.dsl computes with symbolic weights"""
    import spflow.dsl as D
    if not ctx.symbolic:
        yield
        return

    class T:
        def __getattr__(self, n):
            return getattr(torch, n)

        def as_tensor(self, x, **k):
            if isinstance(x, Weight):
                return ctx.tensor([x.v]).reshape(())
            if isinstance(x, list) and any(isinstance(v, Weight) for v in x):
                return ctx.tensor([v.v if isinstance(v, Weight) else ctx.c(v) for v in x])
            return torch.as_tensor(x, **k)
        tensor = as_tensor
    D.float, D.torch = SymFloat, T()
    try:
        yield
    finally:
        del D.float
        D.torch = torch


class Box:
    def __init__(self, v):
        self.v = v


class Ref:
    """what an expression means: value(rowvalues) -> (F, C, R) array of densities"""

    def __init__(self, kind, *a):
        self.kind, self.a = kind, a

    def terms(self):
        return self.a[0] if self.kind == "mix" else None

    def __mul__(self, o):
        if not isinstance(o, Ref):
            return Ref("w", o, self)
        if self.kind == "w":
            return Ref("w", self.a[0], self.a[1] * o)
        if o.kind == "w":
            return Ref("w", o.a[0], self * o.a[1])
        return Ref("prod", self, o)

    __rmul__ = __mul__

    def __add__(self, o):
        ts = []
        for x in (self, o):
            ts += [(x.a[0], x.a[1])] if x.kind == "w" else x.a[0]
        return Ref("mix", ts)

    def value(self, ctx, leafval):
        if self.kind == "leaf":
            return leafval[self.a[0]]
        if self.kind == "prod":
            x, y = (e.value(ctx, leafval) for e in self.a)
            out = np.empty((1,) + x.shape[1:], dtype=object)
            for c, r in np.ndindex(*x.shape[1:]):
                out[0, c, r] = g_prod(list(x[:, c, r]) + list(y[:, c, r]))
            return out
        ws = [w.v for w, _ in self.a[0]]
        vs = [e.value(ctx, leafval) for _, e in self.a[0]]
        out = np.empty(vs[0].shape, dtype=object)
        for ix in np.ndindex(*out.shape):
            out[ix] = g_div(g_sum(g_prod([w, v[ix]]) for w, v in zip(ws, vs)), g_sum(ws))
        return out


EXPRS = {
    # name: (leaf scopes, channels, repetitions, number of weights, f(leaves, weights))
    "product": ([[0], [1]], 1, 1, 0, lambda L, W: L[0] * L[1]),
    "product3": ([[0], [1], [2]], 2, 1, 0, lambda L, W: L[0] * L[1] * L[2]),
    "product_grouped": ([[2], [0], [1]], 1, 2, 0, lambda L, W: L[0] * (L[1] * L[2])),
    "product_multi": ([[0, 2], [1]], 2, 1, 0, lambda L, W: L[0] * L[1]),
    "mix": ([[0], [0]], 1, 1, 2, lambda L, W: W[0] * L[0] + W[1] * L[1]),
    "mix_right": ([[0], [0]], 1, 1, 2, lambda L, W: L[0] * W[0] + L[1] * W[1]),
    "mix3": ([[0], [0], [0]], 1, 1, 3, lambda L, W: W[0] * L[0] + W[1] * L[1] + W[2] * L[2]),
    "mix3_grouped": ([[0], [0], [0]], 1, 2, 3, lambda L, W: W[0] * L[0] + (W[1] * L[1] + W[2] * L[2])),
    "mix4": ([[0], [0], [0], [0]], 1, 1, 4, lambda L, W: (W[0] * L[0] + W[1] * L[1]) + (W[2] * L[2] + W[3] * L[3])),
    "mix_shared": ([[0], [0]], 1, 1, 3, lambda L, W: W[0] * L[0] + W[1] * L[1] + W[2] * L[0]),
    "mix_multi": ([[0, 1], [0, 1]], 1, 1, 2, lambda L, W: W[0] * L[0] + W[1] * L[1]),
    "naive": ([[0], [1], [0], [1]], 1, 1, 2, lambda L, W: W[0] * (L[0] * L[1]) + W[1] * (L[2] * L[3])),
    "compact": ([[0], [1], [0], [1]], 1, 1, 2, lambda L, W: W[0] * L[0] * L[1] + W[1] * L[2] * L[3]),
    "compact3": ([[0], [1], [2], [0], [1], [2]], 1, 1, 2, lambda L, W: W[0] * L[0] * L[1] * L[2] + W[1] * L[4] * L[3] * L[5]),
    "nested": ([[0], [0], [0]], 1, 1, 4, lambda L, W: W[0] * (W[1] * L[0] + W[2] * L[1]) + W[3] * L[2]),
    "nested_right": ([[0], [0], [0]], 1, 1, 4, lambda L, W: W[3] * L[2] + (W[1] * L[0] + W[2] * L[1]) * W[0]),
    "mix_in_product": ([[0], [0], [1]], 1, 1, 2, lambda L, W: (W[0] * L[0] + W[1] * L[1]) * L[2]),
    "mixes_in_product": ([[0], [0], [1], [1]], 1, 2, 4, lambda L, W: (W[0] * L[0] + W[1] * L[1]) * (W[2] * L[2] + W[3] * L[3])),
    "deep": ([[0], [0], [1], [0], [1]], 1, 1, 4, lambda L, W: W[0] * ((W[1] * L[0] + W[2] * L[1]) * L[2]) + W[3] * (L[4] * L[3])),
    "product_reused": ([[0], [1], [0]], 1, 1, 2, lambda L, W: W[0] * (L[0] * L[1]) + W[1] * (L[2] * L[1])),
    "weight_inside": ([[0], [1], [0], [1]], 1, 1, 2, lambda L, W: (L[0] * L[1]) * W[0] + W[1] * L[2] * L[3]),
}
# Module * weighted term is only documented inside dsl()
EXPRS_CONTEXT = {
    "module_times_weighted": ([[0], [1], [0], [1]], 1, 1, 2, lambda L, W: L[0] * (W[0] * L[1]) + W[1] * L[2] * L[3]),
}


def expression(ctx, spec, mode):
    import spflow.dsl as D
    scopes, ch, rep, nw, f = spec
    with _disable_current_modes():
        torch.manual_seed(0)
        I = imports()
        mods = [bern(I, sc, ch, rep) for sc in scopes]
        for m in mods:
            m.eval()
    for i, m in enumerate(mods):
        ctx.symbolize(m, prefix=f"l{i}.", norm=True)
    ws = [ctx.pos(f"w{i}") for i in range(nw)]
    W = [Weight(v) if ctx.symbolic else builtins.float(v) for v in ws]
    with numbers(ctx):
        if mode == "context":
            with D.dsl():
                e = f(mods, W)
            m = D.build(e)
        elif mode == "inside":
            with D.dsl():
                m = f(mods, W).build()
        else:
            m = D.build(f([D.term(x) for x in mods], W))
    ref = f([Ref("leaf", i) for i in range(len(mods))], [Box(v) for v in ws])
    vs = sorted({v for sc in scopes for v in sc})
    ctx.true(set(m.scope.query) == set(vs), "scope", str(m.scope.query))
    rows = [[x for x in r] for r in itertools.product((0.0, 1.0, NAN), repeat=len(vs))]
    with torch.no_grad():
        data = torch.tensor(rows)
        ll = ctx.vals(m.log_likelihood(data))
        lv = [ctx.vals(x.log_likelihood(data)) for x in mods]
        for b, row in enumerate(rows):
            val = {}
            for i, t in enumerate(lv):
                val[i] = np.empty(t.shape[1:], dtype=object)
                for ix in np.ndindex(*t.shape[1:]):
                    val[i][ix] = g_exp(t[(b,) + ix])
            v = ref.value(ctx, val)
            ctx.true(v.shape == ll.shape[1:], f"shape {b}", f"{v.shape} {ll.shape}")
            if v.shape != ll.shape[1:]:
                return
            for ix in np.ndindex(*v.shape):
                ctx.eq(g_exp(ll[(b,) + ix]), v[ix], f"{['?' if x != x else int(x) for x in row]} {list(ix)}")


def refused(ctx):
    """meaningless expressions raise"""
    import spflow.dsl as D
    from spflow.exceptions import ScopeError, ShapeError, InvalidParameterError, InvalidWeightsError
    I = imports()
    with _disable_current_modes():
        a0, b0, a1, c01, d0, r0 = bern(I, [0]), bern(I, [0]), bern(I, [1]), bern(I, [0, 1]), bern(I, [0], 2), bern(I, [0], 1, 2)
    t = D.term
    v = ctx.pos("v")
    with numbers(ctx):
        neg, zero, pos = (Weight(LV.neg(v), -0.5), Weight(LV.k(0), 0.0), Weight(v)) if ctx.symbolic else (-float(v), 0.0, float(v))
        for nm, exc, f in [
                ("overlapping product", ScopeError, lambda: (t(a0) * t(b0)).build()),
                ("contained product", ScopeError, lambda: (t(c01) * t(a1)).build()),
                ("mixture of different scopes", ScopeError, lambda: (0.5 * t(a0) + 0.5 * t(a1)).build()),
                ("mixture of nested scopes", ScopeError, lambda: (0.5 * t(a0) + 0.5 * t(c01)).build()),
                ("negative weight", InvalidWeightsError, lambda: neg * t(a0)),
                ("zero weight", InvalidWeightsError, lambda: zero * t(a0)),
                ("negative weight in w()", InvalidWeightsError, lambda: D.w(neg, a0)),
                ("infinite weight", InvalidWeightsError, lambda: float("inf") * t(a0)),
                ("missing weight", InvalidWeightsError, lambda: float("nan") * t(a0)),
                ("sum without weights", InvalidParameterError, lambda: t(a0) + t(b0)),
                ("weighted plus unweighted", InvalidParameterError, lambda: pos * t(a0) + t(b0)),
                ("weighted term alone", InvalidParameterError, lambda: (pos * t(a0)).build()),
                ("channels differ", ShapeError, lambda: (t(d0) * t(a1)).build()),
                ("mixture of several channels", ShapeError, lambda: (0.5 * t(d0) + 0.5 * t(d0)).build()),
                ("repetitions differ in product", ShapeError, lambda: (t(r0) * t(a1)).build()),
                ("repetitions differ in mixture", ShapeError, lambda: (0.5 * t(r0) + 0.5 * t(a0)).build())]:
            ctx.raises(exc, f, nm)


def restored(ctx):
    """operators on modules exist inside dsl() only"""
    import spflow.dsl as D
    I = imports()
    with _disable_current_modes():
        a, b = bern(I, [0]), bern(I, [1])
    ctx.raises(TypeError, lambda: a * b, "before")
    with D.dsl():
        a * b
        with D.dsl():
            a * b
        ctx.true(isinstance(a * b, D.ProductExpr), "after the inner context")
    ctx.raises(TypeError, lambda: a * b, "after")
    ctx.raises(TypeError, lambda: 0.5 * a, "after, weight")
    try:
        with D.dsl():
            raise KeyError("x")
    except KeyError:
        pass
    ctx.raises(TypeError, lambda: a * b, "after an exception")
    ctx.raises(TypeError, lambda: a + b, "after an exception, sum")


# ------------------------------------------------------------------ prune_sums
PRUNE = {}


def prune(name, domains):
    def deco(f):
        PRUNE[name] = Cfg(name, f, domains)
        return f
    return deco


@prune("two", dom([0]))
def _(I):
    return I.Sum([I.Sum(bern(I, [0], 2), out_channels=1), I.Sum(bern(I, [0], 2), out_channels=1)], out_channels=1)


@prune("uneven", dom([0]))
def _(I):
    return I.Sum([I.Sum(bern(I, [0], 3), out_channels=1), I.Sum(bern(I, [0], 1), out_channels=1)], out_channels=2)


@prune("channels", dom([0]))
def _(I):
    return I.Sum([I.Sum(bern(I, [0], 2), out_channels=2), I.Sum(bern(I, [0], 2), out_channels=2)], out_channels=1)


@prune("uneven_channels", dom([0]))
def _(I):
    return I.Sum([I.Sum(bern(I, [0], 2), out_channels=1), I.Sum(bern(I, [0], 2), out_channels=3)], out_channels=2)


@prune("square", dom([0]))
def _(I):
    return I.Sum([I.Sum(bern(I, [0], 2), out_channels=2), I.Sum(bern(I, [0], 2), out_channels=2)], out_channels=2)


@prune("repetitions", dom([0]))
def _(I):
    return I.Sum([I.Sum(bern(I, [0], 2, 2), out_channels=1, num_repetitions=2), I.Sum(bern(I, [0], 2, 2), out_channels=1, num_repetitions=2)], out_channels=1, num_repetitions=2)


@prune("features", dom([0, 1]))
def _(I):
    return I.Sum([I.Sum(bern(I, [0, 1], 2), out_channels=1), I.Sum(bern(I, [0, 1], 2), out_channels=1)], out_channels=2)


@prune("cat_cat", dom([0]))
def _(I):
    s = lambda: I.Sum([bern(I, [0], 1), bern(I, [0], 2)], out_channels=1)
    return I.Sum([s(), s()], out_channels=1)


@prune("cat_features", dom([0, 1]))
def _(I):
    return I.Sum(I.Cat([I.Sum(bern(I, [0], 2), out_channels=2), I.Sum(bern(I, [1], 2), out_channels=2)], dim=1), out_channels=1)


@prune("inner_cat_features", dom([0, 1]))
def _(I):
    s = lambda: I.Sum(I.Cat([bern(I, [0], 2), bern(I, [1], 2)], dim=1), out_channels=1)
    return I.Sum([s(), s()], out_channels=1)


@prune("three_levels", dom([0]))
def _(I):
    s = lambda: I.Sum([I.Sum(bern(I, [0], 2), out_channels=1), I.Sum(bern(I, [0], 1), out_channels=1)], out_channels=1)
    return I.Sum([s(), s()], out_channels=1)


@prune("three_levels_channels", dom([0]))
def _(I):
    return I.Sum([I.Sum([I.Sum(bern(I, [0], 1), out_channels=2), I.Sum(bern(I, [0], 1), out_channels=1)], out_channels=2), I.Sum([I.Sum(bern(I, [0], 1), out_channels=1)] * 2, out_channels=1)], out_channels=1)


@prune("mixed_children", dom([0]))
def _(I):
    return I.Sum([I.Sum(bern(I, [0], 2), out_channels=1), bern(I, [0], 1)], out_channels=1)


@prune("below_product", dom([0, 1]))
def _(I):
    s = lambda v: I.Sum([I.Sum(bern(I, [v], 2), out_channels=1), I.Sum(bern(I, [v], 1), out_channels=1)], out_channels=2)
    return I.Sum(I.Product([s(0), bern(I, [1], 2)]), out_channels=1)


@prune("products_between", dom([0, 1]))
def _(I):
    p = lambda: I.Product([I.Sum([I.Sum(bern(I, [0], 2), out_channels=1), I.Sum(bern(I, [0], 1), out_channels=1)], out_channels=1), bern(I, [1], 1)])
    return I.Sum([I.Sum(p(), out_channels=1), I.Sum(p(), out_channels=1)], out_channels=1)


@prune("single_child", dom([0]))
def _(I):
    return I.Sum(I.Sum(bern(I, [0], 2), out_channels=2), out_channels=1)


@prune("shared_child", dom([0]))
def _(I):
    s = I.Sum(bern(I, [0], 2), out_channels=1)
    return I.Sum([s, s], out_channels=1)


@prune("product_root", dom([0, 1]))
def _(I):
    s = lambda v: I.Sum([I.Sum(bern(I, [v], 2), out_channels=1), I.Sum(bern(I, [v], 2), out_channels=1)], out_channels=1)
    return I.Product([s(0), s(1)])


def pruned(ctx, cfg, how="likelihood"):
    from spflow.learn.learn_spn import prune_sums
    m = cfg.make(ctx, norm=True)
    asg = list(cfg.assignments(with_nan=True))
    rows = torch.tensor(cfg.rows(asg))
    with torch.no_grad():
        before = ctx.vals(m.log_likelihood(rows)).copy()
        f2s = [set(s.query) for s in m.feature_to_scope.flatten()]
        shape = tuple(m.out_shape)
        prune_sums(m)
        ctx.true(tuple(m.out_shape) == shape and [set(s.query) for s in m.feature_to_scope.flatten()] == f2s, "shape and scopes kept")
        if how == "twice":
            prune_sums(m)
        after = ctx.vals(m.log_likelihood(rows))
        for ix in np.ndindex(*before.shape):
            ctx.eq(g_exp(after[ix]), g_exp(before[ix]), f"{fmt(asg[ix[0]])} {list(ix[1:])}")
        if how == "sample":
            full = [i for i, a in enumerate(asg) if None not in a.values()]
            law = ctx.law(lambda n: m.sample(num_samples=n), 4000)
            for i in full:
                law.eq_prob([asg[i][v] for v in cfg.vars()], g_prod(g_exp(before[i, f, 0, 0]) for f in range(before.shape[1])), f"sample {fmt(asg[i])}", cols=cfg.vars())


def fmt(a):
    return "".join("?" if x is None else str(x) for x in a.values())


# ------------------------------------------------------------------ copies
def _copy(ctx, cfg, m, how):
    from spflow.utils.model_manager import save_model, load_model
    if how == "deepcopy":
        with _disable_current_modes():
            return copy.deepcopy(m)
    if how == "file":
        fd, path = tempfile.mkstemp(prefix="c22_")
        os.close(fd)
        try:
            with _disable_current_modes():
                save_model(m, path)
                return load_model(path)
        finally:
            os.unlink(path)
    with _disable_current_modes():
        torch.manual_seed(7)
        np.random.seed(7)
        o = cfg.build(imports())
        o.eval()
    ctx.symbolize(o, prefix="other.", norm=cfg.norm)
    r = o.load_state_dict(m.state_dict())
    ctx.true(not r.missing_keys and not r.unexpected_keys, "state dict complete")
    return o


def copied(ctx, cfg, how):
    m = cfg.make(ctx)
    asg = list(cfg.assignments(with_nan=len(cfg.domains) <= 3))
    if len(asg) > 40:
        asg = asg[::len(asg) // 40 + 1]
    rows = torch.tensor(cfg.rows(asg))
    with torch.no_grad():
        want = ctx.vals(m.log_likelihood(rows)).copy()
        o = _copy(ctx, cfg, m, how)
        got = ctx.vals(o.log_likelihood(rows))
        ctx.true(type(o) is type(m) and o is not m and tuple(o.out_shape) == tuple(m.out_shape) and not ({id(p) for p in o.parameters()} & {id(p) for p in m.parameters()}), "a separate module of the same shape")
        ctx.true([set(s.query) for s in o.feature_to_scope.flatten()] == [set(s.query) for s in m.feature_to_scope.flatten()], "scopes of the outputs")
        if got.shape != want.shape:
            ctx.true(False, "shape", f"{got.shape} {want.shape}")
            return
        for ix in np.ndindex(*want.shape):
            ctx.eqlog(got[ix], want[ix], f"{fmt(asg[ix[0]])} {list(ix[1:])}")
        full = [i for i, a in enumerate(asg) if None not in a.values()]
        if how == "state" and want.shape[2:] == (1, 1) and len(full) == np.prod([len(d) for d in cfg.domains.values()]) and cfg.name not in NO_SAMPLING + HEAVY:
            law = ctx.law(lambda n: o.sample(num_samples=n), 4000)
            for i in full:
                law.eq_prob([asg[i][v] for v in cfg.vars()], g_prod(g_exp(want[i, f, 0, 0]) for f in range(want.shape[1])), f"sample {fmt(asg[i])}", cols=cfg.vars())
        # sharing is kept and changing the original leaves the copy alone
        if how != "state":
            ctx.true(len(list(o.modules())) == len(list(m.modules())) and len(list(o.parameters())) == len(list(m.parameters())), "same number of parts")
        for p in m.parameters():
            p.add_(1.0)
            p.mul_(2.0)
        again = ctx.vals(o.log_likelihood(rows[:2]))
        for ix in np.ndindex(*again.shape):
            ctx.eqlog(again[ix], want[ix], f"after changing the original {fmt(asg[ix[0]])} {list(ix[1:])}")


def replaced(ctx, cfg, target):
    """replace() swaps one method for the duration of the context and restores the circuit"""
    from spflow.utils.replace import replace
    import spflow.modules.sums.sum as SM
    I = imports()
    m = cfg.make(ctx)
    asg = list(cfg.assignments())
    rows = torch.tensor(cfg.rows(asg))
    orig = I.Sum.log_likelihood
    calls = []

    def best(self, data, cache=None):       # the largest weighted input instead of the sum
        calls.append(self)
        x = self.inputs.log_likelihood(data, cache=cache)
        return (x.unsqueeze(3) + self.log_weights.unsqueeze(0)).sum(dim=2)

    with torch.no_grad():
        want = ctx.vals(m.log_likelihood(rows)).copy()
        try:
            with replace(I.Sum.log_likelihood, best):
                inside = ctx.vals(m.log_likelihood(rows))
                if target == "exception":
                    raise KeyError("x")
        except KeyError:
            pass
        ctx.true(I.Sum.log_likelihood is orig, "method restored")
        n = sum(isinstance(x, I.Sum) for x in m.modules())
        ctx.true(len(calls) == n and len({id(c) for c in calls}) == n, "every sum called once (still cached)", f"{len(calls)} calls, {n} sums")
        after = ctx.vals(m.log_likelihood(rows))
        for ix in np.ndindex(*want.shape):
            ctx.eqlog(after[ix], want[ix], f"restored {fmt(asg[ix[0]])} {list(ix[1:])}")
        if isinstance(m, I.Sum):
            x = ctx.vals(m.inputs.log_likelihood(rows)) if n == 1 else None
            w = ctx.vals(m.log_weights.detach())
            if x is not None:
                for b, f, o, r in np.ndindex(*inside.shape):
                    ctx.eqlog(inside[b, f, o, r], g_sum(g_sum([x[b, f, i, r], w[f, i, o, r]]) for i in range(w.shape[1])), f"inside {fmt(asg[b])} {[f, o, r]}")


CASES = []
for _n, _s in EXPRS.items():
    for _m in ("term", "context", "inside"):
        CASES.append(Case(f"dsl:{_n}:{_m}", lambda ctx, s=_s, m=_m: expression(ctx, s, m)))
for _n, _s in EXPRS_CONTEXT.items():
    for _m in ("context", "inside"):
        CASES.append(Case(f"dsl:{_n}:{_m}", lambda ctx, s=_s, m=_m: expression(ctx, s, m)))
CASES += [Case("dsl:refused", refused), Case("dsl:restored", restored)]
for _n, _c in PRUNE.items():
    for _h in ("likelihood", "twice", "sample"):
        CASES.append(Case(f"prune:{_n}:{_h}", lambda ctx, c=_c, h=_h: pruned(ctx, c, h)))
for _n, _c in CFGS.items():
    for _h in ("deepcopy", "file", "state"):
        CASES.append(Case(f"copy:{_n}:{_h}", lambda ctx, c=_c, h=_h: copied(ctx, c, h), tier="quick" if _n not in HEAVY or _h == "state" else "thorough"))
for _n in ("sum_leaf", "mix2", "deep", "hier_list"):
    for _t in ("normal", "exception"):
        if _n in CFGS:
            CASES.append(Case(f"replace:{_n}:{_t}", lambda ctx, c=CFGS[_n], t=_t: replaced(ctx, c, t)))
