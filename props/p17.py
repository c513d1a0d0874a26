"""C17: every query reflects the current parameters; caches and earlier calls never change a result; likelihood queries modify nothing."""
import copy
import io
from symtorch.harness import *
from symtorch.harness import S
from .circuits import *
from .given import Given, fill
from torch.utils._python_dispatch import _disable_current_modes

BOUNDS = ["histories warm-up -> parameter update -> query on every configuration of props/circuits.py: warm-up = likelihood (with and without missing values), decoding and marginalisation calls in evaluation and training mode; "
          "update = whole-tensor in-place copy, replacement of .data, in-place copy through .data, a fresh nn.Parameter, load_state_dict (copying and assigning), parameter vector assignment, one SGD step, the public weight "
          "setters, one EM step, each from any symbolic parameter values to any others; query = all log-likelihoods with every missing pattern of the listed assignments",
          "deep copies (updated any of these ways), twice-updated modules, evaluation-mode / training-mode / gradient-enabled queries, module replicas that share no parameters",
          "cache arguments: none, fresh, and the cache of an identical earlier call; shared sub-circuits",
          "non-modification: parameters, buffers, data, interval bounds and weights before and after each read-only query"]


def copy_vals(ts):
    return {n: p.detach().clone() for n, p in ts}


def _assign(m, P, how, state=None):
    named = dict(m.named_parameters())
    owner = {n: (m.get_submodule(n.rpartition(".")[0]), n.rpartition(".")[2]) for n in named}
    with torch.no_grad():
        if how == "copy_":
            for n, p in named.items():
                p.copy_(P[n])
        elif how == "data":
            for n, p in named.items():
                p.data = P[n].clone()
        elif how == "data_copy_":
            for n, p in named.items():
                p.data.copy_(P[n])
        elif how == "parameter":
            for n, (o, k) in owner.items():
                setattr(o, k, torch.nn.Parameter(P[n].clone()))
        elif how == "load":
            m.load_state_dict(state)
        elif how == "load_assign":
            m.load_state_dict({n: torch.nn.Parameter(v.clone()) if v.is_floating_point() else v.clone() for n, v in state.items()}, assign=True)
        elif how == "vector":
            torch.nn.utils.vector_to_parameters(torch.cat([v.reshape(-1) for v in P.values()]), m.parameters())
    if how == "sgd":
        opt = torch.optim.SGD(m.parameters(), lr=1.0, foreach=False)
        for n, p in named.items():
            p.grad = (p.detach() - P[n])
        opt.step()
        for p in named.values():
            p.grad = None


ROUTES = ("copy_", "data", "data_copy_", "parameter", "load", "load_assign", "vector", "sgd")


def warm(ctx, m, cfg, kind):
    rows = cfg.rows(list(cfg.assignments())[:2])
    with torch.no_grad():
        m.log_likelihood(torch.tensor(rows))
        if kind == "twice":
            m.log_likelihood(torch.tensor(cfg.rows([{v: None for v in cfg.vars()}])))
            m.train()
            m.log_likelihood(torch.tensor(rows[:1]))
            m.eval()
            m.log_likelihood(torch.tensor(rows[1:]))
    if kind == "grad":
        m.log_likelihood(torch.tensor(rows))
        for mod in m.modules():
            if hasattr(type(mod), "weights"):
                mod.weights


def asked(cfg, full=False):
    a = list(cfg.assignments())
    out = a if full or len(a) <= 4 else a[:2] + a[-1:]
    return out + [{v: (None if i == 0 else a[0][v]) for i, v in enumerate(cfg.vars())}]


def table_of(ctx, m, rows, **k):
    return ctx.vals(m.log_likelihood(torch.tensor(rows), **k).detach())


def same(ctx, got, want, label):
    ctx.true(got.shape == want.shape, f"{label}: shape", f"{got.shape} {want.shape}")
    for ix in np.ndindex(*want.shape):
        ctx.eqlog(got[ix], want[ix], f"{label} {list(ix)}")


def history(ctx, cfg, routes):
    rows = cfg.rows(asked(cfg))
    for how in routes:
        m, f = cfg.make(ctx, prefix="a"), cfg.make(ctx, prefix="b")
        P = copy_vals(f.named_parameters())
        warm(ctx, m, cfg, "grad" if how in ("data", "load") else "twice" if how in ("copy_", "parameter") else "once")
        _assign(m, P, how, copy_vals(f.state_dict().items()))
        with torch.no_grad():
            want = table_of(ctx, f, rows)
            same(ctx, table_of(ctx, m, rows), want, f"{how}: evaluation")
        if how in ("data_copy_", "parameter"):
            same(ctx, table_of(ctx, m, rows), want, f"{how}: with gradients")
            m.train()
            with torch.no_grad():
                same(ctx, table_of(ctx, m, rows), want, f"{how}: training mode")


def chain(ctx, cfg, how):
    """copy, then as many in-place updates as the original had seen before it was copied; the original is unaffected"""
    rows = cfg.rows(asked(cfg)[:2])
    m, f, g = cfg.make(ctx, prefix="a"), cfg.make(ctx, prefix="b"), cfg.make(ctx, prefix="d")
    P, Q = copy_vals(f.named_parameters()), copy_vals(g.named_parameters())
    with torch.no_grad():
        _assign(m, P, how)                         # history of one update before the first query
        warm(ctx, m, cfg, "once")
        with _disable_current_modes():
            c = copy.deepcopy(m)
        _assign(c, Q, how)
        want = table_of(ctx, g, rows)
        same(ctx, table_of(ctx, c, rows), want, f"copy {how}")
        same(ctx, table_of(ctx, m, rows), table_of(ctx, f, rows), f"original after copy {how}")
        _assign(m, Q, how)
        same(ctx, table_of(ctx, m, rows), want, f"original {how}")
        _assign(m, P, how)
        same(ctx, table_of(ctx, m, rows), table_of(ctx, f, rows), f"back {how}")


def setters(ctx, cfg):
    """public weight setters after a query"""
    rows = cfg.rows(asked(cfg)[:2])
    for attr in ("log_weights", "weights"):
        m, f = cfg.make(ctx, prefix="a"), cfg.make(ctx, prefix="b")
        warm(ctx, m, cfg, "twice")
        with torch.no_grad():
            for (n, a), (_, b) in zip(m.named_modules(), f.named_modules()):
                prop = getattr(type(a), attr, None)
                if isinstance(prop, property) and prop.fset is not None and "logits" in a._parameters:
                    v = getattr(b, attr).detach()
                    if attr == "weights":
                        # arbitrary positive weights summing to one: softmax of symbolic logits is one of them
                        v = v.clone()
                    setattr(a, attr, v)
                elif a._parameters:
                    for k, p in b._parameters.items():
                        if p is not None and getattr(prop, "fset", None) is None:
                            a._parameters[k].copy_(p)
            ok = {n for n, a in m.named_modules() if isinstance(getattr(type(a), attr, None), property) and getattr(type(a), attr).fset is None and "logits" in a._parameters}
            for n in ok:
                m.get_submodule(n).logits.copy_(f.get_submodule(n).logits)
            want, got = table_of(ctx, f, rows), table_of(ctx, m, rows)
            same(ctx, got, want, f"set {attr}")


def returned(ctx, cfg):
    """tensors handed out (weights, log-likelihoods) are the caller's: changing them changes no later result"""
    rows = cfg.rows(asked(cfg)[:2])
    m, f = cfg.make(ctx, prefix="a"), cfg.make(ctx, prefix="a")
    with torch.no_grad():
        want = table_of(ctx, f, rows)
        for mod in m.modules():
            if isinstance(getattr(type(mod), "weights", None), property):
                mod.weights.mul_(2.0)
            if isinstance(getattr(type(mod), "log_weights", None), property) and getattr(type(mod), "log_weights").fget is not None:
                mod.log_weights.add_(1.0)
        same(ctx, table_of(ctx, m, rows), want, "after changing returned weights")
        m.log_likelihood(torch.tensor(rows)).add_(1.0)
        same(ctx, table_of(ctx, m, rows), want, "after changing returned likelihoods")


def caches(ctx, cfg):
    from spflow.utils.cache import Cache
    rows, other = cfg.rows(asked(cfg)), cfg.rows(asked(cfg)[:1])
    m = cfg.make(ctx)
    with torch.no_grad():
        plain = table_of(ctx, m, rows)
        c = Cache()
        same(ctx, table_of(ctx, m, rows, cache=c), plain, "fresh cache")
        same(ctx, table_of(ctx, m, rows, cache=c), plain, "same query, same cache")
        o = table_of(ctx, m, other)
        same(ctx, o, plain[:1], "other query without cache")
        same(ctx, table_of(ctx, m, rows), plain, "repeated query")
    # a cache holds every module's own table
    ll = c["log_likelihood"]
    for n, mod in m.named_modules():
        v = ll.get(mod) if hasattr(mod, "log_likelihood") else None
        if torch.is_tensor(v):
            with torch.no_grad():
                same(ctx, ctx.vals(v.detach()), table_of(ctx, mod, rows), f"cached {n or 'root'}")


def snapshot(ctx, m):
    return {n: ctx.vals(t.detach()).copy() for n, t in m.state_dict().items() if torch.is_tensor(t)}


def unchanged(ctx, a, m, label):
    b = snapshot(ctx, m)
    ctx.true(list(a) == list(b), f"{label}: state names")
    bad = []
    for n in a:
        for ix in np.ndindex(*a[n].shape):
            x, y = a[n][ix], b[n][ix]
            if x is y or (isinstance(x, float) and isinstance(y, float) and (x == y or x != x and y != y)):
                continue
            if type(x).__name__ == "R" or type(y).__name__ == "R" or not S.mode_symbolic:
                ctx.eqlog(x, y, f"{label}: {n} {list(ix)}")
            elif x != y:
                bad.append(n)
    ctx.true(not bad, f"{label}: state", str(bad[:3]))


def asking(f):
    """whether the query is supported and what it answers is C04's and C13's business; here only what it leaves behind counts"""
    try:
        return f()
    except Exception:
        return None


def readonly(ctx, cfg, kind):
    m = cfg.make(ctx)
    vs = cfg.vars()
    rows = cfg.rows(asked(cfg)[:3] + asked(cfg)[-1:])
    data = torch.tensor(rows)
    keep = data.clone()
    before = snapshot(ctx, m)

    def check(label):
        unchanged(ctx, before, m, label)
        d = ctx.vals(data)
        k = ctx.vals(keep)
        ctx.true(all((d[ix] == k[ix]) or (d[ix] != d[ix] and k[ix] != k[ix]) for ix in np.ndindex(*k.shape)), f"{label}: data")
        ctx.true(not m.training, f"{label}: mode")
    with torch.no_grad():
        want = table_of(ctx, m, rows)
        if kind == "likelihood":
            m.log_likelihood(data)
            check("log_likelihood")
            m.probability(data)
            check("probability")
        elif kind == "interval":
            from spflow.meta.data import IntervalEvidence
            low = torch.tensor([[0.0] * cfg.ncols])
            high = torch.tensor([[1.0] * cfg.ncols])
            e = IntervalEvidence(low, high)
            asking(lambda: m.log_likelihood(e))
            unchanged(ctx, before, m, "interval")
            ctx.true(bool((ctx.vals(low) == 0).all() and (ctx.vals(high) == 1).all()), "interval: bounds")
        elif kind == "marginalize":
            for prune in (True, False):
                for rvs in ([vs[0]], list(vs)):
                    asking(lambda: m.marginalize(rvs, prune=prune))
                    check(f"marginalize {rvs} {prune}")
            same(ctx, table_of(ctx, m, rows), want, "likelihood after marginalising")
        elif kind == "decode":
            m.mpe(num_samples=1)
            unchanged(ctx, before, m, "mpe")
            same(ctx, table_of(ctx, m, rows[:1]), want[:1], "likelihood after decoding")
        elif kind == "marg_independent":
            g = asking(lambda: m.marginalize([vs[0]], prune=True))
            if g is not None:
                for p in g.parameters():
                    p.data = p.data.clone()
                    p.data.add_(1.0)
            unchanged(ctx, before, m, "updating the marginal")


def after_em(ctx, cfg):
    """after an EM step every query equals that of a fresh module holding the updated parameters"""
    from spflow.learn.expectation_maximization import expectation_maximization
    rows = cfg.rows(asked(cfg)[:2])
    m = cfg.make(ctx, prefix="a")
    warm(ctx, m, cfg, "once")
    data = torch.tensor(cfg.rows(list(cfg.assignments())[:2]))
    expectation_maximization(m, data, max_steps=1)
    f = cfg.make(ctx, prefix="b")
    with torch.no_grad():
        for (n, p), (_, q) in zip(f.named_parameters(), m.named_parameters()):
            p.data = q.detach().clone()
    m.eval()
    with torch.no_grad():
        same(ctx, table_of(ctx, m, rows), table_of(ctx, f, rows), "after EM")


CORE = ["leaf_bernoulli", "leaf_categorical", "leaf_binomial", "leaf_cltree", "sum_leaf", "mix2", "sum_multi_feature", "sum_list", "sum_reps", "ewprod_2in", "outer_2in", "einsum_2in", "einsum_2in_f2", "einsum_reps",
        "linsum_2in", "linsum_reps", "ewsum", "repmix", "dag_shared", "prodconv", "sumconv", "rat_d1", "einet_lin", "einet_ein_cls", "convpc", "naive_bayes", "einsum_inter_4", "cltree_mix"]
CORE = [c for c in CORE if c in CFGS]
EINSUM = ["einsum_2in", "einsum_reps", "einet_ein_cls", "einet_lin"]
HEAVY = ("einsum_2in_f2", "einsum_inter_4", "leaf_binomial", "einet_ein_cls")
CASES = []
for _n in CORE:
    _c = CFGS[_n]
    for _r in ROUTES:
        CASES.append(Case(f"history:{_n}:{_r}", lambda ctx, c=_c, r=_r: history(ctx, c, [r]), tier="quick" if _n in EINSUM[:2] or _r == "data" and _n not in ("leaf_binomial", "einsum_2in_f2") or _n not in HEAVY and _r in ("load_assign", "copy_") else "thorough"))
    for _r in ("copy_", "parameter", "data_copy_"):
        CASES.append(Case(f"copies:{_n}:{_r}", lambda ctx, c=_c, r=_r: chain(ctx, c, r), tier="quick" if _n in EINSUM[:2] or _r == "copy_" and _n not in HEAVY else "thorough"))
    CASES.append(Case(f"returned:{_n}", lambda ctx, c=_c: returned(ctx, c)))
    if any(p.endswith("logits") and not p.endswith("_logits") for p in _c.params()):
        CASES.append(Case(f"setters:{_n}", lambda ctx, c=_c: setters(ctx, c)))
for _n, _c in CFGS.items():
    CASES.append(Case(f"cache:{_n}", lambda ctx, c=_c: caches(ctx, c)))
    CASES.append(Case(f"readonly:{_n}:likelihood", lambda ctx, c=_c: readonly(ctx, c, "likelihood")))
    CASES.append(Case(f"readonly:{_n}:marginalize", lambda ctx, c=_c: readonly(ctx, c, "marginalize")))
for _n in CORE:
    _c = CFGS[_n]
    CASES.append(Case(f"readonly:{_n}:interval", lambda ctx, c=_c: readonly(ctx, c, "interval")))
    CASES.append(Case(f"readonly:{_n}:marg_independent", lambda ctx, c=_c: readonly(ctx, c, "marg_independent")))
EM_QUICK = ("mix2", "sum_reps", "ewprod_2in", "ewsum", "repmix", "naive_bayes")
for _n in ("sum_leaf", "mix2", "sum_reps", "ewprod_2in", "einsum_2in", "linsum_2in", "ewsum", "repmix", "naive_bayes"):
    CASES.append(Case(f"readonly:{_n}:decode", lambda ctx, c=CFGS[_n]: readonly(ctx, c, "decode"), max_paths=1500))
    CASES.append(Case(f"em:{_n}", lambda ctx, c=CFGS[_n]: after_em(ctx, c), timeout=60 if _n in EM_QUICK else 200, tier="quick" if _n in EM_QUICK else "thorough"))
