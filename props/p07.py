"""C07: sampling and MPE keep the evidence, fill every gap of the scope, touch nothing else, and treat rows separately."""
from symtorch.harness import *
from symtorch import sym
from symtorch.sym import R, Lazy
from .circuits import *
from . import leaves
from torch.utils._python_dispatch import _disable_current_modes

NAN = float("nan")
BOUNDS = ["every configuration of props/circuits.py that supports sampling, all parameter values, every random routing outcome; batches of 2 rows with a full-missing row, "
          "an all-observed row and partially observed rows; two columns outside the scope (one missing, one with an arbitrary real value)",
          "leaves: every continuous and discrete family, 2 features over gapped columns, arbitrary real evidence",
          "row independence: joint law of two rows with different evidence for circuits over 1-2 variables (all completions, all parameter values)"]
ASSUMPTIONS = ["random draws are stubbed by their documented law (finite choice, or a fresh real noise variable for continuous families)"]


def call(m, how, data):
    with torch.no_grad():
        if how == "sample":
            return m.sample(data=data)
        if how == "mpe":
            return m.mpe(data=data)
        return m.sample_with_evidence(data, is_mpe=(how == "evidence-mpe"))


def run_batch(ctx, m, how, rows, copies=60):
    """one batch; numerically the batch is repeated to see many random outcomes"""
    if ctx.symbolic:
        return [resolved(ctx.vals(call(m, how, ctx.tensor(rows))))]
    torch.manual_seed(ctx.seed + 5)
    n = copies if how in ("sample", "evidence") else 1
    t = call(m, how, torch.tensor([[float(x) for x in r] for r in rows] * n, dtype=torch.float64)).numpy()
    return [t[i * len(rows):(i + 1) * len(rows)] for i in range(n)]


def resolved(e):
    ex = S.explorer
    o = e.copy()
    for ix in np.ndindex(*e.shape):
        if isinstance(e[ix], Lazy) and e[ix].uid in ex.forced:
            o[ix] = Fraction(ex.forced[e[ix].uid])
    return o


def isnan(v):
    return isinstance(v, float) and v != v


def in_dom(v, dom):
    if isinstance(v, Lazy):
        return set(v.dom) <= set(dom)
    if isinstance(v, sym.B):
        return {0, 1} <= set(dom)
    return (not isnan(v)) and float(v) in [float(d) for d in dom]


def contract(ctx, outs, rows, cols, domains, label):
    for k, out in enumerate(outs):
        if out.shape != (len(rows), len(rows[0])):
            ctx.true(False, f"{label}: shape", str(out.shape))
            return
        for i, row in enumerate(rows):
            for j, v in enumerate(row):
                x = out[i][j]
                if j in domains and isnan(v):
                    ctx.true(in_dom(x, domains[j]), f"{label} #{k} row {i} col {j}: filled with a value of the domain", str(x))
                elif isnan(v):
                    ctx.true(isnan(x), f"{label} #{k} row {i} col {j}: outside the scope", str(x))
                else:
                    if isinstance(x, Lazy) or isnan(x):
                        ctx.true(False, f"{label} #{k} row {i} col {j}: observed", str(x))
                    else:
                        ctx.eq(x, v, f"{label} #{k} row {i} col {j}: observed")


def patterns(cfg):
    """batches of assignments (None: missing)"""
    vs = cfg.vars()
    val = lambda i: {v: cfg.domains[v][(i + k) % len(cfg.domains[v])] for k, v in enumerate(vs)}
    full, other = val(0), val(1)
    none = {v: None for v in vs}
    a = {v: (full[v] if k % 2 == 0 else None) for k, v in enumerate(vs)}
    b = {v: (other[v] if k % 2 == 1 else None) for k, v in enumerate(vs)}
    last = {v: (None if v == vs[-1] else full[v]) for v in vs}
    out = {"none": [none], "even": [a], "odd": [b], "full": [full], "none|full": [none, full], "even|odd": [a, b]}
    if len(vs) > 1:
        out["full|last"] = [other, last]
    return out


def build_rows(ctx, cfg, asgs):
    rows = []
    extra = ctx.real("extra")
    for i, a in enumerate(asgs):
        r = [NAN] * (cfg.ncols + 2)
        for j in range(cfg.ncols):
            if j not in cfg.domains:
                r[j] = extra if i == 0 else NAN
        for v, x in a.items():
            if x is not None:
                r[v] = ctx.c(x)
        r[cfg.ncols + (i % 2)] = extra
        rows.append(r)
    return rows


def check(ctx, cfg, how, which=None):
    m = cfg.make(ctx)
    for name in which:
        asgs = patterns(cfg)[name]
        rows = build_rows(ctx, cfg, asgs)
        outs = run_batch(ctx, m, how, rows, 10 if cfg.name in SLOW_SAMPLING else 60)
        contract(ctx, outs, rows, cfg.ncols, cfg.domains, f"{how} {name}")


def count(ctx, cfg, mpe):
    """sample(num_samples) / mpe(num_samples): a table that reaches the largest variable, every variable of the scope filled"""
    m = cfg.make(ctx)
    with torch.no_grad():
        t = m.mpe(num_samples=1) if mpe else m.sample(num_samples=1)
    contract(ctx, [resolved(ctx.vals(t)) if ctx.symbolic else t.numpy()], [[NAN] * cfg.ncols], cfg.ncols, cfg.domains, "num_samples")


NAMES = select(exclude=NO_SAMPLING)
CASES = []
HOWS = ("sample", "mpe", "evidence", "evidence-mpe")
for _n in NAMES:
    for _h in HOWS:
        for _p in patterns(CFGS[_n]):
            _q = _p in (("even", "odd") if _h == "sample" else ("even", "full") if _h == "evidence" else ("even",)) and not (_n == "einsum_deep" and "mpe" in _h)
            CASES.append(Case(f"{_n}:{_h}:{_p}", (lambda ctx, c=CFGS[_n], h=_h, p=_p: check(ctx, c, h, [p])), timeout=90 if _q else 300, witnesses=1, max_paths=600, tier="quick" if _q else "thorough"))


for _n in NAMES:
    CASES.append(Case(f"{_n}:count", (lambda ctx, c=CFGS[_n]: count(ctx, c, False)), timeout=90, witnesses=1, max_paths=600))
    CASES.append(Case(f"{_n}:count-mpe", (lambda ctx, c=CFGS[_n]: count(ctx, c, True)), timeout=300, witnesses=1, max_paths=600, tier="thorough"))


# ---- leaves ---------------------------------------------------------------------------------------
def supported(ctx, name, P, x, f, label):
    """x lies in the support (of every channel)"""
    z = ctx.c(0)
    if isnan(x):
        return ctx.true(False, label + ": filled", "nan")
    if name in ("Bernoulli", "Categorical", "Binomial", "Hypergeometric"):
        top = {"Bernoulli": 1, "Hypergeometric": 3, "Categorical": 2, "Binomial": 4}[name]
        if isinstance(x, R):
            ctx.le(z, x, label + ": support (lower)")
            return ctx.le(x, ctx.c(top), label + ": support (upper)")
        return ctx.true(in_dom(x, range(top + 1)), label + ": support", str(x))
    if name in ("Poisson", "Geometric", "NegativeBinomial"):
        if not ctx.symbolic:
            ctx.true(x >= 0 and x == int(x), label + ": support", str(x))
        return                # symbolically: a draw of the family (law decided by C05)
    if name in ("LogNormal", "Exponential", "Gamma"):
        ctx.lt_(z, x, label + ": support")
    if name == "Uniform":
        ctx.le(g_min([P["low"][ix] for ix in np.ndindex(*P["low"].shape) if ix[0] == f]), x, label + ": low")
        ctx.le(x, g_max([P["high"][ix] for ix in np.ndindex(*P["high"].shape) if ix[0] == f]), label + ": high")
    if name == "Histogram":
        ctx.le(z, x, label + ": low")
        ctx.le(x, ctx.c(Fraction(7, 2)), label + ": high")


def g_min(xs):
    return leaves.neg(g_max([leaves.neg(x) for x in xs]))


def leaf(name, hows):
    def run(ctx):
        fam = leaves.FAM[name]
        shape = (2, 1, 1) if name == "Uniform" else (1, 1, 1) if name in ("Histogram", "Laplace", "Hypergeometric") else (2, 1, 1) if name == "Binomial" else (2, 2, 1)
        cols = [3, 1][:shape[0]]
        m = leaves.make(ctx, name, shape, cols)
        P = leaves.raw(ctx, m)
        out = ctx.real("outside")
        for how in hows:
            for obs in [o for k_ in range(len(cols) + 1) for o in itertools.combinations(range(len(cols)), k_)]:
                row = [out, NAN, NAN, NAN, out]
                for f in obs:
                    v = fam.value(ctx, 0, f, m)
                    row[cols[f]] = ctx.c(int(v)) if isinstance(v, float) and ctx.symbolic else v
                outs = run_batch(ctx, m, how, [row])
                for n, e in enumerate(outs):
                    lab = f"{how} observed {obs} #{n}"
                    for j, v in enumerate(row):
                        x = e[0][j]
                        f = cols.index(j) if j in cols else None
                        if f is not None and f not in obs:
                            supported(ctx, name, P, x, f, f"{lab} col {j}")
                        elif isnan(v):
                            ctx.true(isnan(x), f"{lab} col {j}: untouched", str(x))
                        elif isinstance(x, Lazy) or isnan(x):
                            ctx.true(False, f"{lab} col {j}: kept", str(x))
                        else:
                            ctx.eq(x, v, f"{lab} col {j}: kept")
    return run


for _f in leaves.FAM:
    for _h in HOWS:
        if "mpe" not in _h or _f not in ("Uniform", "Exponential", "Gamma"):       # no unique mode / mode on the boundary: see C08
            CASES.append(Case(f"leaf:{_f}:{_h}", leaf(_f, (_h,)), timeout=90, witnesses=1))


# ---- rows are independent ---------------------------------------------------------------------------
def independent(ctx, cfg, how):
    m = cfg.make(ctx)
    vs = cfg.vars()
    D = cfg.ncols
    asg = list(cfg.assignments())
    for name, asgs in patterns(cfg).items():
        if len(asgs) < 2:
            continue
        rows = cfg.rows(asgs)

        def one(n, r):
            return call(m, how, torch.tensor([r] * n))

        def both(n):
            return call(m, how, torch.tensor(rows * n)).reshape(n, 2 * D)

        n_mc = 2000 if cfg.name in SLOW_SAMPLING else 10000
        la, lb = ctx.law(lambda n: one(n, rows[0]), n_mc), ctx.law(lambda n: one(n, rows[1]), n_mc)
        joint = ctx.law(both, n_mc)
        for a in asg:
            for b in asg:
                if any(asgs[0][v] not in (None, a[v]) or asgs[1][v] not in (None, b[v]) for v in vs):
                    continue
                pa, pb = la.prob([a[v] for v in vs], vs), lb.prob([b[v] for v in vs], vs)
                joint.eq_prob([a[v] for v in vs] + [b[v] for v in vs], g_prod([pa, pb]), f"{name} {list(a.values())} {list(b.values())}", cols=vs + [D + v for v in vs])


for _n in NAMES:
    if len(CFGS[_n].domains) <= 2:
        for _h in ("sample", "evidence"):
            _t = "thorough" if _n in ("einet_ein_cls", "rat_d1_outer_cls", "leaf_hypergeom") and _h == "evidence" else "quick"
            if not (_n in ("leaf_binomial", "mix_catbin") and _h == "evidence"):      # conditional draws fork on the evidence
                CASES.append(Case(f"rows:{_n}:{_h}", (lambda ctx, c=CFGS[_n], h=_h: independent(ctx, c, h)), timeout=150, witnesses=1, tier=_t))
