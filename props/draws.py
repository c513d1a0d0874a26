"""Draws of leaf families with infinite support, compared with the textbook law through the noise that produced them.

Symbolically a draw is an expression over one fresh noise variable (U: uniform on (0,1), N: standard normal,
Gamma/Poisson: a draw of that family with explicit parameters).  The checks state which function of the draw must be that noise.
Numerically (replays) frequencies / probability-integral-transform means are compared."""
from symtorch.harness import *
from symtorch import sym
from symtorch.sym import S, R
from . import leaves
from .leaves import k, sub, neg, sigm

CONTINUOUS = ("Normal", "LogNormal", "Laplace", "Exponential", "Gamma", "Uniform", "Histogram")
COUNTS = ("Poisson", "NegativeBinomial", "Geometric")
TOL = Fraction(1, 10 ** 5)


def noise_of(x, prefix="$"):
    return [a for a in sym.atoms_of(x) if str(a.name).startswith(prefix)] if isinstance(x, R) else []


def near(ctx, a, b, label):
    ctx.le(a, g_sum([b, k(TOL)]), label + " (upper)")
    ctx.le(b, g_sum([a, k(TOL)]), label + " (lower)")


def uniform_noise(ctx, x, label):
    ns = noise_of(x)
    ok = len(ns) == 1 and str(ns[0].name).startswith("$U")
    ctx.true(ok, label + ": one uniform noise", str([n.name for n in ns]))
    return (sym.of_base(ns[0]), ns[0].name) if ok else (None, None)


def law(ctx, name, m, P, x, ix, label, used):
    """x: symbolic draw for cell ix"""
    if not isinstance(x, R):
        ctx.true(False, label + ": random", str(x))
        return
    if name in ("Normal", "LogNormal"):
        ns = noise_of(x, "$N")
        ctx.true(len(ns) == 1 and len(noise_of(x)) == 1, label + ": one normal noise", str([n.name for n in ns]))
        if len(ns) != 1:
            return
        used.append(ns[0].name)
        z = sym.of_base(ns[0])
        y = g_log(x) if name == "LogNormal" else x
        d = g_div(sub(y, P["loc"][ix]), g_exp(P["log_scale"][ix]))
        ctx.eq(g_prod([d, d]), g_prod([z, z]), label + ": standardised")
        return
    if name == "Gamma":
        ns = noise_of(x, "$Gamma")
        ctx.true(len(ns) <= 1, label + ": one gamma draw", str([n.name for n in ns]))
        if len(ns) != 1:
            return
        used.append(ns[0].name)
        ctx.eq(ns[0].args[0] if not hasattr(ns[0].args[0], "terms") else sym.of_base(ns[0].args[0]), g_exp(P["log_concentration"][ix]), label + ": concentration")
        ctx.eq(g_prod([x, g_exp(P["log_rate"][ix])]), sym.of_base(ns[0]), label + ": rate")
        return
    if name == "Poisson":
        ns = [a for a in noise_of(x, "$Poisson")]
        ctx.true(len(ns) == 1, label + ": one poisson draw", str([n.name for n in ns]))
        if len(ns) == 1:
            used.append(ns[0].name)
            ctx.eq(x, sym.of_base(ns[0]), label + ": the draw itself")
            ctx.eq(arg(ns[0]), g_exp(P["log_rate"][ix]), label + ": rate")
        return
    if name == "NegativeBinomial":
        ns = [b for b, _ in x.fac if str(b.name).startswith("$Poisson")]
        ctx.true(len(ns) == 1, label + ": one poisson draw", str(x))
        if len(ns) == 1:
            used.append(ns[0].name)
            ctx.eq(x, sym.of_base(ns[0]), label + ": the draw itself")
            lam = arg(ns[0])
            gs = noise_of(lam, "$Gamma")
            ctx.true(len(gs) == 1, label + ": gamma mixed", str(lam))
            if len(gs) == 1:
                used.append(gs[0].name)
                ctx.eq(arg(gs[0]), P["_total_count"][ix], label + ": gamma shape")
                ctx.eq(lam, g_prod([sym.of_base(gs[0]), g_exp(P["_logits"][ix])]), label + ": gamma rate")
        return
    if name == "Laplace" and not noise_of(x) and S.explorer.pc:
        return                         # the measure-zero branch "noise is exactly zero" of sign()
    if name == "Geometric":
        fl = [b for b, e in x.fac if b.__class__.__name__ == "Atom" and b.kind == "fn" and b.name == "floor"]
        ctx.true(len(fl) == 1 and len(x.fac) == 1 and x.coef == 1, label + ": whole number", str(x))
        if len(fl) != 1:
            return
        y = arg(fl[0])
        u, nm = uniform_noise(ctx, y, label)
        if u is not None:
            used.append(nm)
            # P(floor(y) >= n) = P(y >= n) = (1-p)^n  iff  (1-p)^y is uniform
            near(ctx, g_exp(g_prod([y, g_log(sub(k(1), sigm(P["_logits"][ix])))])), u, label + ": survival")
        return
    u, nm = uniform_noise(ctx, x, label)
    if u is None:
        return
    used.append(nm)
    if name == "Uniform":
        v = g_div(sub(x, P["low"][ix]), sub(P["high"][ix], P["low"][ix]))
        near(ctx, v, u, label + ": cdf")
    elif name == "Exponential":
        ctx.eq(g_exp(neg(g_prod([g_exp(P["log_rate"][ix]), x]))), u, label + ": survival")
    elif name == "Laplace":
        d = g_div(sub(x, P["loc"][ix]), g_exp(P["log_scale"][ix]))
        c = g_div(g_exp(d), k(2)) if g_lt(d, k(0)) else sub(k(1), g_div(g_exp(neg(d)), k(2)))
        near(ctx, c, u, label + ": cdf")
    else:
        raise Unsupported(name)


def arg(a):
    v = a.args[0]
    return v if isinstance(v, (R, Fraction, float)) else sym.of_base(v)


def numeric_law(ctx, name, m, P, xs, ix, label):
    """xs: draws of one cell"""
    import scipy.stats as st
    p = {n: float(v[ix]) for n, v in P.items() if v.ndim == 3}
    e = math.exp
    n = len(xs)
    if name in COUNTS:
        for v in (0, 1, 2, 3):
            q = math.exp(float(leaves.FAM[name].logd(m, P, v, ix)))
            f = float(np.mean(xs == v))
            if abs(f - q) > 6 * math.sqrt(max(q * (1 - q), 1e-12) / n) + 2.0 / n:
                ctx.viol.append((label, f"frequency of {v}: {f} instead of {q}"))
        return
    d = {"Normal": lambda: st.norm(p["loc"], e(p["log_scale"])), "LogNormal": lambda: st.lognorm(e(p["log_scale"]), scale=e(p["loc"])),
         "Laplace": lambda: st.laplace(p["loc"], e(p["log_scale"])), "Exponential": lambda: st.expon(scale=e(-p["log_rate"])),
         "Gamma": lambda: st.gamma(e(p["log_concentration"]), scale=e(-p["log_rate"])), "Uniform": lambda: st.uniform(p["low"], p["high"] - p["low"])}[name]()
    u = d.cdf(xs)
    for pw_, want, var in ((1, .5, 1 / 12), (2, 1 / 3, 4 / 45)):
        got = float(np.mean(u ** pw_))
        if abs(got - want) > 6 * math.sqrt(var / n) + 1e-6:
            ctx.viol.append((label, f"probability transform moment {pw_}: {got} instead of {want}"))


def histogram(ctx, run, m, P, cell, label):
    """law of one histogram cell: bin by its probability, then uniform within the bin"""
    from .leaves import softmax_list
    e = [Fraction(0), Fraction(1), Fraction(3), Fraction(7, 2)]
    p = softmax_list(list(P["_logits"][cell]))
    if ctx.symbolic:
        mass = [[], [], []]
        for prob, pc, out, _ in ctx.law(run).data:
            x = out.reshape(-1)[0]
            ns = noise_of(x, "$U")
            if len(ns) != 1:
                return ctx.true(False, label + ": uniform within the bin", str(x))
            u = sym.of_base(ns[0])
            fits = [j for j in range(3) if sym.sub(x, g_sum([e[j], g_prod([e[j + 1] - e[j], u])])) == 0]
            if len(fits) != 1:
                return ctx.true(False, label + ": uniform within one bin", str(x))
            mass[fits[0]].append(prob)
        for j in range(3):
            ctx.eq(g_sum(mass[j]) if mass[j] else sym.F0, p[j], f"{label}: bin {j}")
    else:
        n = 8000
        torch.manual_seed(ctx.seed + 9)
        xs = run(n).numpy().reshape(-1)
        for j in range(3):
            a, b = float(e[j]), float(e[j + 1])
            for lo, hi, q in ((a, b, float(p[j])), (a, (a + b) / 2, float(p[j]) / 2)):
                f = float(np.mean((xs >= lo) & (xs < hi)))
                if abs(f - q) > 6 * math.sqrt(max(q * (1 - q), 1e-12) / n) + 2.0 / n:
                    ctx.viol.append((label + f": bin {j}", f"frequency {f} instead of {q} in [{lo},{hi})"))
