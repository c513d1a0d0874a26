"""C23: Chow-Liu trees - exact inference, maximum likelihood, maximum spanning trees, top-k trees, hidden Chow-Liu trees."""
import builtins
import contextlib
import itertools
from symtorch.harness import *
from symtorch.harness import S
from symtorch import tensor as ST
from .circuits import *
from . import leaves as LV
from torch.utils._python_dispatch import _disable_current_modes

NAN = float("nan")
BOUNDS = ["inference: every rooted tree over 3 variables (9, two channels, two repetitions, 2 or 3 categories, shuffled and gapped scopes) with every complete and partially observed row, alone and mixed; every rooted tree over 4 variables (64) with every row; all conditional tables",
          "sampling: every rooted tree over 3 variables, every evidence pattern; MPE completions likewise",
          "maximum likelihood: every rooted tree over 3 variables, a data set of 6 rows with arbitrary positive weights per row, channel and repetition; rows with missing values",
          "mutual information: 3 variables, 2 and 3 categories, 5 rows with arbitrary positive weights, pseudocounts 0 and 1",
          "spanning trees: every real weight matrix over 2 to 4 nodes (top-k: k up to 4 for 3 nodes; k up to 2 (quick) and 3 (thorough) for 4 nodes; all 16 trees of 4 nodes for weight matrices whose ordered weights each exceed the sum of the smaller ones)",
          "hidden Chow-Liu trees: the trees learned from listed data sets over 3 and 4 variables, 2 hidden categories, 2 and 3 observed categories, mixtures of 2 trees; every parameter value, every complete and partially observed row"]
ASSUMPTIONS = ["numpy's comparison sorts are modelled by a stable comparison sort (np.lexsort on symbolic keys)",
               "where the structure learner is examined for arbitrary mutual information matrices, the matrix is supplied in place of the estimator's (which has its own check)"]


# ------------------------------------------------------------------ trees
def rooted(n):
    """parent lists of every rooted labelled tree"""
    for root in range(n):
        for ps in itertools.product(range(n), repeat=n - 1):
            par = list(ps)
            par.insert(root, -1)
            ok = all(par[i] != i for i in range(n))
            for i in range(n):
                j, seen = i, 0
                while ok and par[j] != -1:
                    j, seen = par[j], seen + 1
                    ok = seen <= n
            if ok:
                yield tuple(par)


def spanning(n):
    return sorted({tuple(sorted(tuple(sorted((i, p))) for i, p in enumerate(par) if p >= 0)) for par in rooted(n)})


def tree(ctx, parents, scope, C=1, R_=1, K=2):
    I = imports()
    with _disable_current_modes():
        torch.manual_seed(0)
        m = I.L.CLTree(scope=I.Scope(list(scope)), out_channels=C, num_repetitions=R_, K=K, parents=torch.tensor(parents))
        m.eval()
    ctx.symbolize(m, norm=True)
    return m


def own(ctx, m):
    """arbitrary parameters; buffers that the module may reassign"""
    ctx.symbolize(m, norm=True)
    if ctx.symbolic:
        for mod in m.modules():
            for k, b in list(mod._buffers.items()):
                if b is not None:
                    mod._buffers[k] = ST.wrap(b)


def joint(ctx, m, parents, K):
    """P[c, r][assignment] of the Bayesian network"""
    T = ctx.vals(m.log_cpt)
    _, C, R_ = T.shape[:3]
    out = {}
    for c, r in np.ndindex(C, R_):
        for a in itertools.product(range(K), repeat=len(parents)):
            out[c, r, a] = g_prod([g_exp(T[i, c, r, a[i], a[p] if p >= 0 else 0]) for i, p in enumerate(parents)])
    return out


def put(scope, assign, width):
    row = [NAN] * width
    for v, x in zip(scope, assign):
        row[v] = NAN if x is None else float(x)
    return row


def fmt(a):
    return "".join("?" if x is None else str(x) for x in a)


def matches(a, o):
    return all(y is None or x == y for x, y in zip(a, o))


def infer(ctx, parents, scope, C=1, R_=1, K=2, batches=("complete", "all", "single")):
    m = tree(ctx, parents, scope, C, R_, K)
    P = joint(ctx, m, parents, K)
    n, width = len(parents), max(scope) + 1
    rows = list(itertools.product(list(range(K)) + [None], repeat=n))
    sets = {"complete": [[r for r in rows if None not in r]], "all": [rows],
            "single": [[r] for r in rows[::5]], "mixed": [rows[1::4]]}
    for b in batches:
        for k, rs in enumerate(sets[b]):
            with torch.no_grad():
                ll = ctx.vals(m.log_likelihood(torch.tensor([put(scope, r, width) for r in rs])))
            for j, o in enumerate(rs):
                for c, r in np.ndindex(C, R_):
                    ctx.eq(g_prod([g_exp(ll[j, f, c, r]) for f in range(n)]), g_sum([P[c, r, a] for a in itertools.product(range(K), repeat=n) if matches(a, o)]), f"{b}{k} {fmt(o)} [{c},{r}]")


def laws(ctx, parents, scope, K=2, cell=(0, 0), obs=None):
    """conditional samples follow the network's posterior"""
    from spflow.utils.sampling_context import SamplingContext
    from spflow.utils.cache import Cache
    m = tree(ctx, parents, scope, 2, 2, K)
    P = joint(ctx, m, parents, K)
    n, width = len(parents), max(scope) + 1
    c, r = cell
    for o in obs:
        row = put(scope, o, width)

        def run(k):
            sc = SamplingContext(channel_index=torch.full((k, n), c, dtype=torch.long), mask=torch.ones((k, n), dtype=torch.bool),
                                 repetition_index=torch.full((k,), r, dtype=torch.long))
            with torch.no_grad():
                return m._sample(torch.tensor([row] * k), sc, Cache())
        law = ctx.law(run, 1000)
        al = [a for a in itertools.product(range(K), repeat=n) if matches(a, o)]
        tot = g_sum([P[c, r, a] for a in al])
        for a in al:
            law.eq_prob(list(a), g_div(P[c, r, a], tot), f"{fmt(o)}->{fmt(a)}", cols=list(scope))


def mpe(ctx, parents, scope, K=2, cell=(0, 0), obs=None):
    from spflow.utils.sampling_context import SamplingContext
    from spflow.utils.cache import Cache
    m = tree(ctx, parents, scope, 2, 2, K)
    P = joint(ctx, m, parents, K)
    n, width = len(parents), max(scope) + 1
    c, r = cell
    k = len(obs)
    sc = SamplingContext(channel_index=torch.full((k, n), c, dtype=torch.long), mask=torch.ones((k, n), dtype=torch.bool),
                         repetition_index=torch.full((k,), r, dtype=torch.long), is_mpe=True)
    with torch.no_grad():
        out = ctx.vals(m._sample(torch.tensor([put(scope, o, width) for o in obs]), sc, Cache()))
    for j, o in enumerate(obs):
        a = tuple(concrete_int(out[j, v]) for v in scope)
        ok = matches(a, o) and all(x in range(K) for x in a)
        ctx.true(ok, f"{fmt(o)}: completes the evidence", str(a))
        if ok:
            for b in itertools.product(range(K), repeat=n):
                if matches(b, o) and b != a:
                    ctx.le(P[c, r, b], P[c, r, a], f"{fmt(o)}: {fmt(a)} at least as probable as {fmt(b)}")


def concrete_int(x):
    x = concrete(x)
    return int(x) if x == x else x


def concrete(x):
    if isinstance(x, sym.Lazy):
        return x.force()
    return x


# ------------------------------------------------------------------ maximum likelihood
DATA = {2: [(0, 0, 1), (1, 0, 1), (1, 1, 0), (0, 1, 1), (1, 1, 1), (0, 0, 0)],
        3: [(0, 2, 1), (1, 0, 2), (2, 1, 0), (0, 1, 1), (1, 1, 2), (2, 2, 0)]}


def mle(ctx, parents, scope, C=1, R_=1, K=2, weighted=True, alpha=0.25, missing=()):
    I = imports()
    with _disable_current_modes():
        torch.manual_seed(0)
        m = I.L.CLTree(scope=I.Scope(list(scope)), out_channels=C, num_repetitions=R_, K=K, alpha=alpha, parents=torch.tensor(parents))
    own(ctx, m)
    data, n, width = DATA[K], len(parents), max(scope) + 1
    rows = [put(scope, d, width) for d in data]
    for i, v in missing:
        rows[i][scope[v]] = NAN
    keep = [i for i in range(len(data)) if i not in {i for i, _ in missing}]
    w = {}
    if weighted:
        for i, c, r in np.ndindex(len(data), C, R_):
            w[i, c, r] = ctx.pos(f"w{i},{c},{r}")
        W = ctx.tensor([[[[w[i, c, r] for r in range(R_)] for c in range(C)] for _ in range(n)] for i in range(len(data))])
        # row weights are rescaled so that they add up to the number of complete rows
        scale = g_div(ctx.c(len(keep)), g_sum([w[i, c, r] for i in keep for c in range(C) for r in range(R_) for _ in range(n)]))
    else:
        W = None
        for ix in np.ndindex(len(data), C, R_):
            w[ix] = ctx.c(1)
        scale = g_div(ctx.c(1), ctx.c(n * C * R_))
    for ix in w:
        w[ix] = g_prod([w[ix], scale])
    m.maximum_likelihood_estimation(torch.tensor(rows), weights=W)
    ctx.true([int(p) for p in m.parents.tolist()] == list(parents), "structure kept")
    T = ctx.vals(m.log_cpt)
    a = ctx.c(Fraction(alpha))
    for c, r, i in np.ndindex(C, R_, n):
        p = parents[i]
        for kp in range(K):
            rows_p = [j for j in keep if p < 0 or data[j][p] == kp]
            tot = g_sum([g_prod([a, ctx.c(K)])] + [w[j, c, r] for j in rows_p])
            for k in range(K):
                num = g_sum([a] + [w[j, c, r] for j in rows_p if data[j][i] == k])
                ctx.eq(g_exp(T[i, c, r, k, kp]), g_div(num, tot), f"P(x{i}={k}|{kp}) [{c},{r}]")


def matrix(ctx, n, diag=True):
    e = {}
    for i, j in itertools.combinations(range(n), 2):
        e[i, j] = ctx.real(f"m{i}{j}")
    rows = [[(ctx.c(0) if i == j else e[min(i, j), max(i, j)]) for j in range(n)] for i in range(n)]
    return e, rows


def weight(e, t):
    return g_sum([e[x] for x in t]) if t else 0


def optimal(ctx, e, n, t, lab, sign=1):
    t = tuple(sorted(tuple(sorted(x)) for x in t))
    ok = t in spanning(n)
    ctx.true(ok, f"{lab}: spanning tree", str(t))
    if ok:
        for o in spanning(n):
            if o != t:
                a, b = weight(e, o), weight(e, t)
                ctx.le(a if sign > 0 else b, b if sign > 0 else a, f"{lab}: {t} not worse than {o}")


def prim(ctx, n, root):
    import spflow.modules.leaves.cltree as T
    f = getattr(T, "_prim_maximum_spanning_tree", None)
    if f is None:
        ctx.true(True, "no such helper")
        return
    e, rows = matrix(ctx, n)
    p = f(ctx.tensor(rows), root=root)
    ctx.true([i for i, x in enumerate(p) if x == -1] == [root], "root", str(p))
    optimal(ctx, e, n, [(i, x) for i, x in enumerate(p) if i != root], "prim")


def structure(ctx, n, scope, first=None, fit="fit"):
    """the learned structure is a maximum spanning tree of the mutual information matrix; orders agree with it"""
    I = imports()
    with _disable_current_modes():
        torch.manual_seed(0)
        m = I.L.CLTree(scope=I.Scope(list(scope)), out_channels=1, K=2)
    own(ctx, m)
    e, rows = matrix(ctx, n)
    if first is not None:
        for x in e:
            if x != first:
                ctx.assume(not_less(ctx, e[first], e[x]))
    used = []
    if hasattr(m, "_compute_mutual_information"):
        m._compute_mutual_information = lambda *a, **k: (used.append(1), ctx.tensor(rows))[1]
    data = torch.tensor([put(scope, [(i >> j) & 1 for j in range(n)], max(scope) + 1) for i in (0, 3, 5, 6, 2, 1)])
    if fit == "fit":
        m.fit_structure(data)
    else:
        m.maximum_likelihood_estimation(data)
    p = [int(x) for x in m.parents.tolist()]
    ctx.true(p.count(-1) == 1, "one root", str(p))
    if used:
        optimal(ctx, e, n, [(i, x) for i, x in enumerate(p) if x >= 0], "structure")
    pre, post = [int(x) for x in m.pre_order.tolist()], [int(x) for x in m.post_order.tolist()]
    ctx.true(sorted(pre) == list(range(n)) and all(p[i] < 0 or pre.index(p[i]) < pre.index(i) for i in range(n)), "pre_order visits parents first", f"{p} {pre}")
    ctx.true(sorted(post) == list(range(n)) and all(p[i] < 0 or post.index(p[i]) > post.index(i) for i in range(n)), "post_order visits children first", f"{p} {post}")


def not_less(ctx, a, b):
    return sym.le(b, a) if ctx.symbolic else b <= a


# ------------------------------------------------------------------ mutual information
@contextlib.contextmanager
def numbers(ctx, *mods):
    """float() in spflow.zoo.hclt keeps symbolic numbers; numpy's sort and finiteness tests accept them"""
    if not ctx.symbolic:
        yield
        return

    def flt(x=0.0):
        if isinstance(x, sym.R):
            return x if mode[0] == "np" else ctx.tensor([x]).reshape(())
        if isinstance(x, (sym.Lazy, Fraction)):
            return x
        return builtins.float(x)

    class N:
        inf, nan = np.inf, np.nan

        def __getattr__(self, k):
            return getattr(np, k)

        def isfinite(self, a):
            return np.vectorize(lambda v: not (isinstance(v, float) and (v != v or v in (np.inf, -np.inf))), otypes=[bool])(a) if np.size(a) else np.ones(np.shape(a), bool)

        def isnan(self, a):
            return np.vectorize(lambda v: isinstance(v, float) and v != v, otypes=[bool])(a) if np.size(a) else np.zeros(np.shape(a), bool)

        def lexsort(self, keys):
            ix = list(range(len(keys[0])))
            for k in keys:
                ix = stable(ix, k)
            return np.array(ix, dtype=int)

        def argsort(self, k, *a, **kw):
            return np.array(stable(list(range(len(k))), k), dtype=int)
    mode = ["torch"]
    saved = []
    for m in mods:
        for nm, v in (("float", flt), ("np", N())):
            saved.append((m, nm, m.__dict__.get(nm, ST)))
            if nm == "np" and "np" not in m.__dict__:
                saved.pop()
                continue
            setattr(m, nm, v)
        if m.__name__.endswith("topk_mst"):
            mode[0] = "np"
    ST.NUMPY_OBJECTS[0] = True
    try:
        yield
    finally:
        ST.NUMPY_OBJECTS[0] = False
        for m, nm, v in saved:
            if v is ST:
                delattr(m, nm)
            else:
                setattr(m, nm, v)


def stable(ix, k):
    class Key:
        __slots__ = ("v",)

        def __init__(self, v):
            self.v = v

        def __lt__(self, o):
            return bool(self.v < o.v)
    return sorted(ix, key=lambda i: Key(k[i]))


MIDATA = {2: [(0, 0, 1), (1, 0, 1), (1, 1, 0), (0, 1, 1), (1, 1, 1)],
          3: [(0, 2, 1), (1, 0, 1), (2, 1, 0), (0, 1, 1), (1, 0, 2)]}


def plogp(p, q):
    return g_prod([p, g_log(q)])


def mutual(ctx, kind, K, pc, weighted, as_bool=False, chunk=4096):
    import spflow.zoo.hclt.mi as M
    I = imports()
    data = MIDATA[K]
    n = len(data[0])
    w = [ctx.pos(f"w{i}") for i in range(len(data))] if weighted else [ctx.c(1)] * len(data)
    W = ctx.tensor(w) if weighted else None
    x = torch.tensor(data, dtype=torch.bool if as_bool else torch.float64)
    N, sw = len(data), g_sum(w)
    with numbers(ctx, M):
        if kind == "cltree":
            with _disable_current_modes():
                m = I.L.CLTree(scope=I.Scope(list(range(n))), K=K, alpha=pc)
            if not hasattr(m, "_compute_mutual_information"):
                ctx.true(True, "no such helper")
                return
            mi = ctx.vals(m._compute_mutual_information(x.long(), sample_weights=W))
        elif kind == "marginal":
            mg = ctx.vals(M.pairwise_marginal_binary(x, weights=W, pseudocount=pc))
        elif kind == "binary":
            mi = ctx.vals(M.pairwise_mi_binary(x, weights=W, pseudocount=pc))
        else:
            mi = ctx.vals(M.pairwise_mi_categorical(x, num_cats=K, weights=W, pseudocount=pc, chunk_size_pairs=chunk))
    p = ctx.c(Fraction(pc))
    count = lambda f: g_sum([ctx.c(0)] + [w[i] for i in range(N) if f(data[i])])
    if kind == "cltree":
        # weights add up to the number of rows, alpha is added to every cell
        sc = g_div(ctx.c(N), sw)
        single = lambda i, a: g_div(g_sum([p, g_prod([sc, count(lambda d: d[i] == a)])]), g_sum([ctx.c(N), g_prod([p, ctx.c(K)])]))
        pair = lambda i, j, a, b: g_div(g_sum([p, g_prod([sc, count(lambda d: (d[i], d[j]) == (a, b))])]), g_sum([ctx.c(N), g_prod([p, ctx.c(K * K)])]))
    else:
        if kind == "categorical":
            p = g_prod([p, g_div(sw, ctx.c(N))])
        Z = g_sum([sw, p])
        single = lambda i, a: g_div(g_sum([g_div(p, ctx.c(K)), count(lambda d: d[i] == a)]), Z)
        pair = lambda i, j, a, b: g_div(g_sum([g_div(p, ctx.c(K * K)), count(lambda d: (d[i], d[j]) == (a, b))]), Z)
    for i in range(n):
        for j in range(n):
            if kind == "marginal":
                for a, b in itertools.product(range(2), repeat=2):
                    e = pair(i, j, a, b) if i != j else single(i, a) if a == b else ctx.c(0)
                    ctx.eq(mg[i, j, 2 * a + b], e, f"{i},{j} {a}{b}")
            elif i == j:
                if kind != "cltree":
                    ctx.eq(mi[i, i], LV.neg(g_sum([plogp(single(i, a), single(i, a)) for a in range(K) if not zero(single(i, a))])), f"entropy {i}")
            else:
                t = []
                for a, b in itertools.product(range(K), repeat=2):
                    q = pair(i, j, a, b)
                    if not zero(q):
                        t += [plogp(q, q), LV.neg(plogp(q, single(i, a))), LV.neg(plogp(q, single(j, b)))]
                ctx.eq(mi[i, j], g_sum(t), f"mi {i},{j}")


def zero(x):
    return isinstance(x, (int, float, Fraction)) and x == 0


# ------------------------------------------------------------------ spanning trees over dense matrices
def array(ctx, rows):
    if not ctx.symbolic:
        return np.array([[float(x) for x in r] for r in rows])
    a = np.empty((len(rows), len(rows)), dtype=object)
    for i, r in enumerate(rows):
        for j, x in enumerate(r):
            a[i, j] = x
    return a.view(ST.ObjArray)


def order(ctx, e, chunk):
    """restrict the weights: chunk = edges in decreasing order, the rest is below them"""
    rest = [x for x in e if x not in chunk]
    for a, b in zip(chunk, chunk[1:]):
        ctx.assume(not_less(ctx, e[a], e[b]))
    for x in rest:
        ctx.assume(not_less(ctx, e[chunk[-1]], e[x]))


def kruskal(ctx, n, minimize):
    import spflow.zoo.hclt.topk_mst as M
    e, rows = matrix(ctx, n)
    with numbers(ctx, M):
        t = M.kruskal_mst_complete(array(ctx, rows), minimize=minimize)
    ctx.true(all(a < b for a, b in t), "canonical edges", str(t))
    optimal(ctx, e, n, t, "kruskal", -1 if minimize else 1)


def topk(ctx, n, k, minimize, chunk=None, steep=None):
    import spflow.zoo.hclt.topk_mst as M
    e, rows = matrix(ctx, n)
    if chunk:
        order(ctx, e, chunk)
    if steep:
        below = []
        for x in reversed(steep):
            ctx.assume(lt_(ctx, weight(e, below) if below else ctx.c(0), e[x]))
            below.append(x)
    with numbers(ctx, M):
        out = M.topk_mst(array(ctx, rows), num_trees=k, minimize=minimize)
    all_t = spanning(n)
    out = [tuple(sorted(tuple(sorted(x)) for x in t)) for t in out]
    ctx.true(len(out) == min(k, len(all_t)), "as many trees as requested or as exist", str(len(out)))
    ctx.true(all(t in all_t for t in out), "spanning trees", str(out))
    ctx.true(len(set(out)) == len(out), "distinct", str(out))
    if not all(t in all_t for t in out):
        return
    for i, (a, b) in enumerate(zip(out, out[1:])):
        better(ctx, e, a, b, minimize, f"{i}: {a} before {b}")
    if out:
        for o in all_t:
            if o not in out:
                better(ctx, e, out[-1], o, minimize, f"{o} not better than {out[-1]}")


def better(ctx, e, a, b, minimize, lab):
    x, y = weight(e, a), weight(e, b)
    ctx.le(x if minimize else y, y if minimize else x, lab)


def lt_(ctx, a, b):
    return sym.lt(a, b) if ctx.symbolic else a < b


def learned(ctx, kind, n, k):
    """learn_chow_liu_tree(s)_*: maximum trees of the mutual information matrix"""
    import spflow.zoo.hclt.chow_liu as CL
    import spflow.zoo.hclt.topk_mst as M
    e, rows = matrix(ctx, n)
    nm = f"pairwise_mi_{kind}"
    if not hasattr(CL, nm):
        ctx.true(True, "no such helper")
        return
    used = []
    old = getattr(CL, nm)
    setattr(CL, nm, lambda *a, **kw: (used.append(1), ctx.tensor(rows))[1])
    data = torch.tensor([[(i >> j) & 1 for j in range(n)] for i in (0, 3, 5, 6)])
    try:
        with numbers(ctx, CL, M):
            if k == 0:
                out = [getattr(CL, f"learn_chow_liu_tree_{kind}")(data)]
            else:
                out = getattr(CL, f"learn_chow_liu_trees_{kind}")(data, num_trees=k)
    finally:
        setattr(CL, nm, old)
    if not used:
        ctx.true(True, "computed elsewhere")
        return
    all_t = spanning(n)
    out = [tuple(sorted(tuple(sorted(x)) for x in t)) for t in out]
    ctx.true(len(out) == min(max(k, 1), len(all_t)) and len(set(out)) == len(out), "trees", str(out))
    for i, (a, b) in enumerate(zip(out, out[1:])):
        better(ctx, e, a, b, False, f"{i}: {a} before {b}")
    for o in all_t:
        if o not in out:
            better(ctx, e, out[-1], o, False, f"{o} not better than {out[-1]}")


# ------------------------------------------------------------------ hidden Chow-Liu trees
HDATA = {"star3": [(0, 0, 0), (1, 1, 0), (1, 1, 1), (0, 0, 0), (1, 0, 1), (0, 1, 0), (1, 1, 1), (0, 0, 0)],
         "chain3": [(0, 1, 1), (1, 0, 0), (1, 1, 1), (0, 0, 0), (0, 0, 0), (1, 1, 1), (0, 1, 1), (1, 0, 1)],
         "mid4": [(0, 0, 0, 1), (1, 1, 1, 1), (0, 1, 0, 1), (1, 0, 1, 0), (0, 0, 0, 0), (1, 1, 1, 1), (1, 1, 0, 1), (0, 0, 1, 0)],
         "cat3": [(0, 2, 1), (1, 0, 0), (2, 2, 1), (0, 1, 0), (1, 0, 2), (2, 1, 1), (0, 2, 1)]}


def hidden(ctx, ds, kind, H, trees, init="uniform", free="all"):
    from spflow.zoo.hclt import learn_hclt_binary, learn_hclt_categorical
    import spflow.zoo.hclt.chow_liu as CL
    I = imports()
    with _disable_current_modes():
        torch.manual_seed(0)
        data = torch.tensor(HDATA[ds], dtype=torch.float64)
        K = int(data.max()) + 1
        m = {"binary": learn_hclt_binary, "categorical": learn_hclt_categorical}[kind](data, num_hidden_cats=H, num_trees=trees, init=init)
        m.eval()
        structs = {"binary": CL.learn_chow_liu_trees_binary, "categorical": CL.learn_chow_liu_trees_categorical}[kind](data, num_trees=trees)
    n = data.shape[1]
    ctx.true(len(structs) == trees, "trees", str(structs))
    if init == "uniform":
        for mod in m.modules():
            if isinstance(mod, I.Sum):
                ctx.true(bool(((mod.weights - 1.0 / mod.weights.shape[1]).abs() < 1e-9).all()) if not ctx.symbolic else uniform(mod), f"uniform {id_of(m, mod)}")
    kinds = None
    if free == "emissions":
        kinds = lambda mn, mod, pn, p: "logconst" if isinstance(mod, I.Sum) else None
    elif free == "sums":
        kinds = lambda mn, mod, pn, p: None if isinstance(mod, I.Sum) else "logconst"
    ctx.symbolize(m, norm=True, kinds=kinds)
    parts = [m]
    mixw = [ctx.c(1)]
    if trees > 1:
        lw = ctx.vals(m.log_weights)
        cat = [x for x in m.inputs.inputs] if hasattr(m.inputs, "inputs") else list(m.inputs)
        parts = cat
        mixw = [g_exp(lw[0, i, 0, 0]) for i in range(trees)]
    models = []
    for part, edges in zip(parts, structs):
        sums = {}
        for mod in part.modules():
            if isinstance(mod, I.Sum) and mod is not part:
                sums[frozenset(mod.scope.query)] = mod
        em = {mod.scope.query[0]: mod for mod in part.modules() if isinstance(mod, (I.L.Bernoulli, I.L.Categorical))}
        adj = {v: [] for v in range(n)}
        for a, b in edges:
            adj[a].append(b)
            adj[b].append(a)
        par, order_ = {0: -1}, [0]
        for v in order_:
            for u in adj[v]:
                if u not in par:
                    par[u] = v
                    order_.append(u)

        def below(v):
            return frozenset([v]).union(*[below(u) for u in par if par[u] == v])
        want = {below(v) for v in par if v}
        ctx.true(set(sums) == want and set(em) == set(range(n)), "one transition per edge, one emission per variable", f"{list(sums)} {edges}")
        if set(sums) != want:
            return
        prior = [g_exp(ctx.vals(part.log_weights)[0, z, 0, 0]) for z in range(H)]
        trans = {v: np.vectorize(lambda x: g_exp(x), otypes=[object])(ctx.vals(sums[below(v)].log_weights)) for v in par if v}
        with torch.no_grad():
            emis = {v: ctx.vals(em[v].log_likelihood(torch.tensor([[float(x)] * n for x in range(K)]))) for v in range(n)}
        models.append((par, prior, trans, emis))
    dom_ = list(itertools.product(range(K), repeat=n))
    P = {}
    for a in dom_:
        tot = []
        for w, (par, prior, trans, emis) in zip(mixw, models):
            for z in itertools.product(range(H), repeat=n):
                t = [w, prior[z[0]]]
                for v in par:
                    t.append(g_exp(emis[v][a[v], 0, z[v], 0]))
                    if v:
                        t.append(trans[v][0, z[v], z[par[v]], 0])
                tot.append(g_prod(t))
        P[a] = g_sum(tot)
    rows = [o for o in itertools.product(list(range(K)) + [None], repeat=n)]
    if len(rows) > 64:
        rows = rows[::len(rows) // 40 | 1]
    with torch.no_grad():
        ll = ctx.vals(m.log_likelihood(torch.tensor([put(range(n), o, n) for o in rows])))
    ctx.true(ll.shape == (len(rows), 1, 1, 1), "shape", str(ll.shape))
    for j, o in enumerate(rows):
        ctx.eq(g_exp(ll[j, 0, 0, 0]), g_sum([P[a] for a in dom_ if matches(a, o)]), fmt(o))


def uniform(mod):
    with _disable_current_modes():
        return bool(((mod.weights - 1.0 / mod.weights.shape[1]).abs() < 1e-6).all())


def id_of(m, mod):
    return next((n for n, x in m.named_modules() if x is mod), "?")


# ------------------------------------------------------------------ cases
CASES = []


def case(nm, f, *a, tier="quick", timeout=150, **k):
    cs = {x: k.pop(x) for x in ("witnesses", "max_paths", "weight", "solver_ms", "mem") if x in k}
    CASES.append(Case(nm, (lambda ctx: f(ctx, *a, **k)), timeout=timeout, tier=tier, **cs))


SC3 = [(0, 1, 2), (2, 0, 1), (1, 4, 2)]
T3 = list(rooted(3))
T4 = list(rooted(4))
for _i, _t in enumerate(T3):
    _s = SC3[_i % 3]
    _n = ",".join(map(str, _t))
    case(f"infer3:{_n}", infer, _t, _s, C=2, R_=2)
    case(f"infer3K3:{_n}", infer, _t, SC3[(_i + 1) % 3], C=1, R_=1, K=3, batches=("complete", "all"), tier="quick" if _i % 3 == 0 else "thorough", timeout=300)
    _obs = list(itertools.product((0, 1, None), repeat=3))
    _obs = [o for o in _obs if None in o]
    for _j in range(3):
        case(f"sample:{_n}:{_j}", laws, _t, _s, obs=_obs[_j::3], cell=((0, 0), (1, 1), (1, 0), (0, 1))[(_i + _j) % 4], witnesses=1, tier="quick" if (_i + _j) % 3 == 0 else "thorough", timeout=300)
    for _j, _o in enumerate(_obs):
        case(f"mpe:{_n}:{fmt(_o)}", mpe, _t, _s, obs=[_o], cell=((0, 0), (1, 1), (1, 0), (0, 1))[(_i + _j) % 4], tier="quick" if (_i + _j) % 4 == 0 or _o == (None,) * 3 else "thorough", timeout=300)
    case(f"mle:{_n}", mle, _t, _s)
    case(f"mle_multi:{_n}", mle, _t, _s, C=2, R_=2, K=2 + (_i % 2), alpha=0.5)
    case(f"mle_missing:{_n}", mle, _t, _s, C=1, R_=1, K=3, missing=((1, 0), (4, 2)))
    case(f"mle_unweighted:{_n}", mle, _t, _s, C=1, R_=1, K=2, weighted=False)
for _i, _t in enumerate(T4):
    _n = ",".join(map(str, _t))
    case(f"infer4:{_n}", infer, _t, ((0, 1, 2, 3), (3, 1, 0, 2), (5, 0, 2, 1))[_i % 3], batches=("complete", "mixed"))
    case(f"infer4all:{_n}", infer, _t, ((0, 1, 2, 3), (3, 1, 0, 2), (5, 0, 2, 1))[(_i + 1) % 3], C=2, batches=("complete", "all"), tier="thorough", timeout=300)
for _nn in (2, 3, 4):
    for _r in range(_nn):
        case(f"prim{_nn}:root{_r}", prim, _nn, _r)
case("structure3", structure, 3, (0, 1, 2))
case("structure3_gapped", structure, 3, (4, 0, 2))
case("structure3_mle", structure, 3, (2, 0, 1), fit="mle")
case("structure4", structure, 4, (3, 1, 0, 2))
for _k in ("marginal", "binary", "categorical", "cltree"):
    for _K in (2, 3):
        if _K == 3 and _k in ("marginal", "binary"):
            continue
        for _pc in (0.0, 1.0, 0.25):
            if _k == "cltree" and _pc == 0.0:
                continue
            for _w in (False, True):
                case(f"mi:{_k}:K{_K}:pc{_pc}:{'weighted' if _w else 'unweighted'}", mutual, _k, _K, _pc, _w, as_bool=_k in ("marginal", "binary") and _pc == 1.0, chunk=2 if _pc == 1.0 else 4096)
EDGES4 = list(itertools.combinations(range(4), 2))
for _mi in (True, False):
    _m = "min" if _mi else "max"
    for _n in (1, 2, 3):
        case(f"kruskal{_n}:{_m}", kruskal, _n, _mi)
    case(f"kruskal4:{_m}", kruskal, 4, _mi, max_paths=2000)
    case(f"topk2:{_m}", topk, 2, 2, _mi)
    for _k in (1, 2, 3, 4):
        case(f"topk3:k{_k}:{_m}", topk, 3, _k, _mi)
    for _a, _b in itertools.permutations(EDGES4, 2):
        case(f"topk4:k2:{_m}:{_a[0]}{_a[1]}>{_b[0]}{_b[1]}", topk, 4, 2, _mi, chunk=(_a, _b), tier="quick" if (EDGES4.index(_a) * 5 + EDGES4.index(_b)) % 3 == 0 else "thorough", timeout=300, max_paths=2000)
        case(f"topk4:k3:{_m}:{_a[0]}{_a[1]}>{_b[0]}{_b[1]}", topk, 4, 3, _mi, chunk=(_a, _b), tier="thorough", timeout=600, max_paths=5000)
    for _i in range(4):
        _st = tuple(EDGES4[(j * (1, 5, 1, 5)[_i] + _i) % 6] for j in range(6))
        case(f"topk4:k16:{_m}:{_i}", topk, 4, (16, 20, 9, 5)[_i], _mi, steep=_st, timeout=300)
for _k in ("binary", "categorical"):
    for _t in (0, 1, 2, 4):
        case(f"learned3:{_k}:{_t}", learned, _k, 3, _t)
    case(f"learned4:{_k}", learned, _k, 4, 1, max_paths=2000)
for _f in ("all", "emissions", "sums"):
    _q = "quick" if _f != "all" else "thorough"
    for _ds in ("star3", "chain3"):
        case(f"hclt:{_ds}:{_f}", hidden, _ds, "binary", 2, 1, free=_f)
        case(f"hclt:{_ds}:random:{_f}", hidden, _ds, "binary", 2, 1, init="random", free=_f)
        case(f"hclt:{_ds}:mix2:{_f}", hidden, _ds, "binary", 2, 2, free=_f, tier=_q, timeout=300)
    case(f"hclt:chain3:H3:{_f}", hidden, "chain3", "binary", 3, 1, free=_f, tier=_q, timeout=300)
    case(f"hclt:mid4:{_f}", hidden, "mid4", "binary", 2, 1, free=_f, tier=_q, timeout=300)
    case(f"hclt:mid4:mix2:{_f}", hidden, "mid4", "binary", 2, 2, tier="thorough", timeout=600, free=_f)
    case(f"hclt:cat3:{_f}", hidden, "cat3", "categorical", 2, 1, free=_f, tier=_q, timeout=300)
    case(f"hclt:cat3:mix2:{_f}", hidden, "cat3", "categorical", 2, 2, tier="thorough", timeout=300, free=_f)
