"""C18: batch rows are processed independently."""
from symtorch.harness import *
from symtorch import sym
from symtorch.harness import S
from .circuits import *
from . import leaves as LV

NAN = float("nan")
BOUNDS = ["every configuration of props/circuits.py: a batch mixing complete, partially missing and fully missing rows in a scrambled order, against every row alone, duplicated rows, and the reversed batch; all raw parameter values",
          "leaf families of props/leaves.py with symbolic continuous data; interval evidence; class posteriors with symbolic likelihoods; conditional probabilities and weight of evidence",
          "configurations with many parameters: at most 8 rows of the mixed batch"]


def mixed_rows(cfg, limit=12):
    vs = cfg.vars()
    asg = list(cfg.assignments())
    out = []
    for i in range(limit):
        a = dict(asg[(i * 7 + 3) % len(asg)])
        k = i % 4
        if k == 1:
            a[vs[i % len(vs)]] = None
        elif k == 2:
            for v in vs:
                a[v] = None
        elif k == 3 and len(vs) > 1:
            for v in vs:
                if v != vs[(i // 4) % len(vs)]:
                    a[v] = None
        out.append(a)
    return out


def same_tables(ctx, full, single, label):
    ctx.true(full.shape == single.shape, f"shape {label}", f"{full.shape} {single.shape}")
    for ix in np.ndindex(*full.shape):
        ctx.eqlog(full[ix], single[ix], f"{label}{list(ix)}")


def check(ctx, cfg, only=None):
    m = cfg.make(ctx, only=only)
    rows = mixed_rows(cfg, 6 if cfg.name in HEAVY else 10)
    full = table(ctx, cfg, m, rows)
    for i, a in enumerate(rows):
        same_tables(ctx, full[i:i + 1], table(ctx, cfg, m, [a]), f"row {i} alone ")
    rev = table(ctx, cfg, m, rows[::-1])
    same_tables(ctx, full, rev[::-1], "reversed batch ")
    two = table(ctx, cfg, m, [rows[0], rows[0], rows[1]])
    same_tables(ctx, two[:2], np.concatenate([full[:1], full[:1]]), "duplicated row ")


def check_interval(ctx, cfg):
    from .p12 import interval
    m = cfg.make(ctx)
    bs = [(NAN, NAN), (0.0, 0.0), (0.5, NAN), (-INF_, 0.5), (1.0, 1.0), (0.0, 1.0), (2.0, 3.0)]
    lo, hi = [], []
    for i in range(6):
        l, h = [NAN] * cfg.ncols, [NAN] * cfg.ncols
        for j, v in enumerate(cfg.vars()):
            l[v], h[v] = bs[(i * (j + 2) + j) % len(bs)]
        lo.append(l), hi.append(h)

    def q(idx):
        with torch.no_grad():
            return ctx.vals(m.log_likelihood(interval(ctx.tensor([lo[i] for i in idx]), ctx.tensor([hi[i] for i in idx]))))
    full = q(range(6))
    for i in range(6):
        same_tables(ctx, full[i:i + 1], q([i]), f"box {i} alone ")


INF_ = float("inf")


def posterior(nrow, ncls):
    def run(ctx):
        from spflow.utils.inference import log_posterior
        ll = ctx.fill((nrow, ncls), lambda ix: g_log(ctx.pos(f"l{list(ix)}")))
        prior = ctx.tensor([g_log(p) for p in ctx.simplex("p", ncls)])
        full = ctx.vals(log_posterior(ll, prior))
        for i in range(nrow):
            one = ctx.vals(log_posterior(ll[i:i + 1], prior))
            for k in range(ncls):
                ctx.eqlog(full[i, k], one[0, k], f"row {i} class {k}")
    return run


def proba(name):
    def run(ctx):
        cfg = CFGS[name]
        m = cfg.make(ctx)
        rows = mixed_rows(cfg, 4)
        f = m.predict_proba if hasattr(m, "predict_proba") else m.log_posterior

        def q(idx):
            with torch.no_grad():
                return ctx.vals(f(ctx.tensor(cfg.rows([rows[i] for i in idx]))))
        full = q(range(4))
        for i in range(4):
            one = q([i])
            for ix in np.ndindex(*one.shape[1:]):
                ctx.eq(g_exp(full[(i,) + ix]), g_exp(one[(0,) + ix]), f"row {i}{list(ix)}")
    return run


def woe(name):
    def run(ctx):
        from spflow.measures.weight_of_evidence import conditional_probability, weight_of_evidence, weight_of_evidence_leave_one_out
        cfg = CFGS[name]
        m = cfg.make(ctx)
        vs = cfg.vars()
        y = vs[0]
        rows = mixed_rows(cfg, 5)
        data = cfg.rows(rows)
        red = [list(r) for r in data]
        for r in red:
            r[vs[-1]] = NAN
        qs = {"p": lambda ix: conditional_probability(m, y_index=y, y_value=1, evidence=ctx.tensor([data[i] for i in ix])),
              "woe": lambda ix: weight_of_evidence(m, y_index=y, y_value=1, evidence_full=ctx.tensor([data[i] for i in ix]), evidence_reduced=ctx.tensor([red[i] for i in ix]), n=10, k=2),
              "loo": lambda ix: weight_of_evidence_leave_one_out(m, y_index=y, y_value=1, x_instance=ctx.tensor([data[i] for i in ix]), n=10, k=2)}
        for nm, f in qs.items():
            with torch.no_grad():
                full = ctx.vals(f(range(5)))
            for i in range(5):
                with torch.no_grad():
                    one = ctx.vals(f([i]))
                for ix in np.ndindex(*one.shape[1:]):
                    a, b = full[(i,) + ix], one[(0,) + ix]
                    na, nb = (isinstance(z, float) and z != z for z in (a, b))
                    if na or nb:
                        ctx.true(na == nb, f"{nm} row {i}{list(ix)} undefined alike", f"batch {a!r} alone {b!r}")
                    elif nm == "p":
                        ctx.eq(a, b, f"{nm} row {i}{list(ix)}")
                    else:
                        ctx.eqlog(a, b, f"{nm} row {i}{list(ix)}")
    return run


def leaf(name, shape):
    def run(ctx):
        fam = LV.FAM[name]
        m = LV.make(ctx, name, shape)
        nf = shape[0]
        rows = [[fam.value(ctx, i, f, m) for f in range(nf)] for i in range(2)]
        rows.insert(1, [NAN] * nf)
        rows.append([rows[0][0]] + [NAN] * (nf - 1))
        rows.append([NAN] * (nf - 1) + [rows[2][-1]])
        with torch.no_grad():
            full = ctx.vals(m.log_likelihood(ctx.tensor(rows)))
        for i, r in enumerate(rows):
            with torch.no_grad():
                one = ctx.vals(m.log_likelihood(ctx.tensor([r])))
            for ix in np.ndindex(*one.shape[1:]):
                ctx.eq(full[(i,) + ix], one[(0,) + ix], f"row {i}{list(ix)}")
    return run


CASES = cases("C18", check, list(CFGS), timeout=120, split=("einsum_deep", "convpc", "convpc_sumconv"))
CASES += [Case(f"interval:{n}", (lambda ctx, c=CFGS[n]: check_interval(ctx, c))) for n in ("leaf_bernoulli", "leaf_categorical", "mix2", "sum_cat3", "hier_list", "outer_2in", "einsum_2in", "linsum_reps", "prodconv", "rat_d1_rep2")]
CASES += [Case(f"log_posterior:{r}x{k}", posterior(r, k)) for r, k in ((1, 2), (2, 2), (3, 2), (2, 3), (3, 3))]
CASES += [Case(f"posterior:{n}", proba(n)) for n in ("rat_d1_outer_cls", "einet_ein_cls")]
CASES += [Case(f"woe:{n}", woe(n)) for n in ("mix2", "prod_leaf", "hier_list")]
CASES += [Case(f"leaf:{n}{list(s)}", leaf(n, s), max_paths=3000, timeout=200) for n in LV.FAM for s in (LV.FAM[n].shapes if n != "Laplace" else [(1, 2, 1), (2, 1, 1), (1, 1, 2)])]
