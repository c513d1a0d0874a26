"""C14: reported scopes are exactly the variables each output depends on; shapes; rejection at construction."""
from symtorch.harness import *
from .circuits import *
from torch.utils._python_dispatch import _disable_current_modes

BOUNDS = ["metadata: every module inside every configuration of props/circuits.py, all raw parameter values, every data column changed through its whole domain",
          "construction: leaf scopes with symbolic variable indices (1-2 variables per child, 2-3 children)"]


def named(m):
    from spflow.modules.module import Module
    for n, mod in m.named_modules():
        if isinstance(mod, Module):
            yield n or "root", mod


def check(ctx, cfg):
    from spflow.modules.ops.split import Split
    m = cfg.make(ctx)
    vs = cfg.vars()
    base = {v: cfg.domains[v][0] for v in vs}
    alt = {v: cfg.domains[v][-1] for v in vs}
    rows, pairs = [], []
    for b in (base, alt):
        rows.append(b)
        i0 = len(rows) - 1
        for v in vs:
            for x in cfg.domains[v]:
                if x != b[v]:
                    rows.append({**b, v: x})
                    pairs.append((v, i0, len(rows) - 1))
    data = ctx.tensor(cfg.rows(rows))
    for name, mod in named(m):
        lab = f"{name}:{type(mod).__name__}"
        f2s = np.asarray(mod.feature_to_scope, dtype=object)
        with torch.no_grad():
            out = mod.log_likelihood(data)
        if isinstance(mod, Split):
            parts = [ctx.vals(o) for o in out]
            for k, ll in enumerate(parts):
                ctx.true(f2s.ndim == 3 and f2s.shape[1] == len(parts), f"{lab}:f2s layout", str(f2s.shape))
                dep(ctx, f"{lab}:part{k}", ll, f2s[:, k, :], vs, pairs, None)
            ctx.true(tuple(sum(p.shape[1] for p in parts) if i == 0 else parts[0].shape[1 + i] for i in range(3)) == tuple(mod.out_shape), f"{lab}:out_shape")
            continue
        ll = ctx.vals(out)
        for k, ax in enumerate(("features", "channels", "repetitions")):
            ctx.true(ll.shape[1 + k] == mod.out_shape[k], f"{lab}:out_shape {ax}", f"{ll.shape} vs {tuple(mod.out_shape)}")
        if any(type(x).__name__ == "CLTree" for x in mod.modules()) and ll.shape[1] > 1:
            # a Chow-Liu tree reports its joint density in the first feature: only the total is meaningful
            tot = np.empty((ll.shape[0], 1) + ll.shape[2:], dtype=object)
            for ix in np.ndindex(*tot.shape):
                tot[ix] = g_sum([ll[ix[0], f, ix[2], ix[3]] for f in range(ll.shape[1])])
            from spflow.meta.data import Scope
            f2s = np.array([[Scope(sorted(set().union(*[s.query for s in f2s[:, r]]))) for r in range(f2s.shape[1])]], dtype=object)
            dep(ctx, lab, tot, f2s, vs, pairs, mod.scope)
            continue
        dep(ctx, lab, ll, f2s, vs, pairs, mod.scope)


def dep(ctx, lab, ll, f2s, vs, pairs, scope):
    _, F, C, R_ = ll.shape
    ctx.true(f2s.shape[0] >= F and f2s.shape[1] >= R_, f"{lab}:f2s shape", str(f2s.shape))
    if f2s.shape[0] < F or f2s.shape[1] < R_:
        return
    union = set()
    for f in range(F):
        for r in range(R_):
            sc = f2s[f, r]
            q = set(sc.query)
            union |= q
            ctx.true(q <= set(vs), f"{lab}:known variables[{f},{r}]")
            for v in vs:
                for c in range(C):
                    prs = [(i, j) for (w, i, j) in pairs if w == v]
                    if v in q:
                        ctx.exists([(ll[i, f, c, r], ll[j, f, c, r]) for i, j in prs], f"{lab}:[{f},{c},{r}] depends on {v}")
                    else:
                        for i, j in prs:
                            ctx.eqlog(ll[i, f, c, r], ll[j, f, c, r], f"{lab}:[{f},{c},{r}] independent of {v} ({i}-{j})")
    if scope is not None:
        ctx.true(set(scope.query) == union, f"{lab}:module scope is the union", f"{scope} vs {union}")


# ---- rejection of invalid scopes at construction -------------------------------------------------
def scopes(ctx, sizes):
    from spflow.meta.data import Scope
    out = []
    for k, n in enumerate(sizes):
        q = [ctx.integer(f"s{k}_{i}") for i in range(n)]
        for i, x in enumerate(q):
            if x < 0 or any(x == y for y in q[:i]):
                ctx.assume(False)
        out.append(q)
    return out


def rejects(kind, sizes):
    def run(ctx):
        I = imports()
        qs = scopes(ctx, sizes)
        mk = lambda q, oc=2: I.L.Bernoulli(scope=I.Scope(list(q)), out_channels=oc)
        pair = lambda a, b: any(x == y for x in a for y in b)
        overlap = any(pair(a, b) for i, a in enumerate(qs) for b in qs[:i])
        ss = lambda a, b: len(a) == len(b) and all(x == y for x, y in zip(a, b))
        aligned = all(ss(a, qs[0]) for a in qs[1:])
        same = all(len(a) == len(qs[0]) and all(any(x == y for y in qs[0]) for x in a) for a in qs[1:])
        with _disable_current_modes():
            ls = [mk(q) for q in qs]
            f, bad = {
                "product": (lambda: I.Product(inputs=ls), overlap),
                "ew": (lambda: I.ElementwiseProduct(inputs=ls), overlap),
                "outer": (lambda: I.OuterProduct(inputs=ls), overlap),
                "einsum": (lambda: I.EinsumLayer(inputs=ls, out_channels=2), overlap),
                "linsum": (lambda: I.LinsumLayer(inputs=ls, out_channels=2), overlap),
                "cat1": (lambda: I.Cat(inputs=ls, dim=1), overlap),
                "cat2": (lambda: I.Cat(inputs=ls, dim=2), not aligned),
                "sum": (lambda: I.Sum(inputs=ls, out_channels=2), not aligned),
                "ewsum": (lambda: I.ElementwiseSum(inputs=ls, out_channels=2), not aligned),
            }[kind]
            try:
                m = f()
                err = None
            except Exception as e:
                m, err = None, e
        if kind in ("cat2", "sum", "ewsum") and same and not aligned:
            ctx.true(m is None, "features in different order are rejected", f"{qs} accepted")
            return
        ctx.true((m is None) == bool(bad), f"rejected exactly when the scopes are {'overlapping' if bad == overlap and kind not in ('cat2', 'sum', 'ewsum') else 'different'}",
                 f"{kind} {qs}: {'rejected ' + repr(err) if m is None else 'accepted'}")
        if m is not None and not bad:
            want = [x for q in qs for x in q]
            got = list(m.scope.query)
            ctx.true(all(any(x == y for y in got) for x in want) and all(any(x == y for y in want) for x in got), "scope is the union")
    return run


CASES = cases("C14", check, list(CFGS))
CASES += [Case(f"reject:{k}:{'-'.join(map(str, s))}", rejects(k, s), max_paths=4000) for k in ("product", "ew", "outer", "einsum", "linsum", "cat1", "cat2", "sum", "ewsum")
          for s in ((1, 1), (2, 2), (2, 1), (1, 1, 1))
          if not (k in ("einsum", "linsum") and len(s) == 3) and not (k in ("ew", "outer", "einsum", "linsum", "cat2", "sum", "ewsum") and s == (2, 1))]
