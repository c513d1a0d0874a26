"""C26: bounded/unbounded and simplex projections are mutual inverses; signed log-space arithmetic equals real arithmetic."""
from symtorch.harness import *
from symtorch import sym
from symtorch.harness import S

BOUNDS = ["projections: every real/bounded value, lower bound, upper bound or both (floats and tensors, scalar and per-element); tensors of 1-4 entries",
          "simplex: every simplex vector of 2-4 entries, every real vector of 2-4 entries, with leading batch dimensions",
          "signed log-sum-exp: every combination of signs (-, 0, +) of 1-4 terms with arbitrary magnitudes, reduced over each dimension of 1-3 dimensional tensors"]


def P():
    import spflow.utils.projections as p
    return p


def neg(a):
    return sym.neg(a) if S.mode_symbolic else -a


def sub(a, b):
    return g_sum([a, neg(b)])


def zero(ctx):
    return ctx.c(0)


def bounded(kind, n, tensor_bounds):
    def run(ctx):
        p = P()
        los = [ctx.real(f"lb{i}") for i in range(n if tensor_bounds == "each" else 1)]
        widths = [ctx.pos(f"w{i}") for i in range(len(los))]
        lo = lambda i: los[i % len(los)]
        hi = lambda i: g_sum([lo(i), widths[i % len(los)]])
        pick = lambda f: (ctx.tensor([f(i) for i in range(n)]) if tensor_bounds == "each" else ctx.tensor(np.array(f(0), dtype=object)))
        lb = pick(lo) if kind in ("both", "lb") else None
        ub = pick(hi) if kind in ("both", "ub") else None
        # any real input lands inside the stated range and comes back
        us = [ctx.pos(f"u{i}") for i in range(n)]
        xs = [g_log(u) for u in us]
        y = p.proj_real_to_bounded(ctx.tensor(xs), lb=lb, ub=ub)
        yv = ctx.vals(y)
        back = ctx.vals(p.proj_bounded_to_real(y, lb=lb, ub=ub))
        for i in range(n):
            if lb is not None:
                ctx.lt_(lo(i), yv[i], f"above the lower bound {i}")
            if ub is not None:
                ctx.lt_(yv[i], hi(i), f"below the upper bound {i}")
            ctx.eqlog(back[i], xs[i], f"real -> bounded -> real {i}")
        # any bounded value comes back
        vs = []
        for i in range(n):
            t = ctx.pos(f"t{i}")
            if kind == "both":
                vs.append(g_sum([lo(i), g_prod([widths[i % len(los)], g_div(t, g_sum([ctx.c(1), t]))])]))
            elif kind == "lb":
                vs.append(g_sum([lo(i), t]))
            else:
                vs.append(sub(hi(i), t))
        r = p.proj_bounded_to_real(ctx.tensor(vs), lb=lb, ub=ub)
        again = ctx.vals(p.proj_real_to_bounded(r, lb=lb, ub=ub))
        for i in range(n):
            ctx.eq(again[i], vs[i], f"bounded -> real -> bounded {i}")
        ctx.true(tuple(y.shape) == (n,) and tuple(r.shape) == (n,), "shape")
        # order preserving (increasing for the lower bounded and fully bounded range, decreasing for the upper bounded one)
        if n > 1 and tensor_bounds != "each":
            d = ctx.pos("d")
            y2 = ctx.vals(p.proj_real_to_bounded(ctx.tensor([xs[0], g_log(g_sum([us[0], d]))]), lb=lb, ub=ub))
            (ctx.lt_(y2[1], y2[0], "monotone") if kind == "ub" else ctx.lt_(y2[0], y2[1], "monotone"))
    return run


def float_bounds(kind, lo, hi):
    def run(ctx):
        p = P()
        kw = {}
        if kind in ("both", "lb"):
            kw["lb"] = lo
        if kind in ("both", "ub"):
            kw["ub"] = hi
        us = [ctx.pos(f"u{i}") for i in range(2)]
        x = ctx.tensor([[g_log(u) for u in us]])
        y = p.proj_real_to_bounded(x, **kw)
        yv = ctx.vals(y)
        back = ctx.vals(p.proj_bounded_to_real(y, **kw))
        for i in range(2):
            if "lb" in kw:
                ctx.lt_(ctx.c(lo), yv[0, i], f"above {i}")
            if "ub" in kw:
                ctx.lt_(yv[0, i], ctx.c(hi), f"below {i}")
            ctx.eqlog(back[0, i], g_log(us[i]), f"round trip {i}")
            want = {"both": lambda: g_sum([ctx.c(lo), g_prod([ctx.c(hi - lo), g_div(us[i], g_sum([ctx.c(1), us[i]]))])]),
                    "lb": lambda: g_sum([ctx.c(lo), us[i]]), "ub": lambda: sub(ctx.c(hi), us[i])}[kind]()
            ctx.eq(yv[0, i], want, f"documented value {i}")
    return run


def simplex(shape):
    def run(ctx):
        p = P()
        k = shape[-1]
        x = ctx.fill(shape, lambda ix: g_log(ctx.pos(f"x{list(ix)}")))
        w = p.proj_real_to_convex(x)
        wv, xv = ctx.vals(w), ctx.vals(x)
        rv = ctx.vals(p.proj_real_to_convex(p.proj_convex_to_real(w)))
        lv = ctx.vals(p.proj_convex_to_real(w))
        for ix in np.ndindex(*shape[:-1]):
            ctx.eq(g_sum(list(wv[ix])), ctx.c(1), f"sums to one {ix}")
            ref = softmax_list(list(xv[ix]))
            for j in range(k):
                ctx.lt_(zero(ctx), wv[ix + (j,)], f"positive {ix}{j}")
                ctx.eq(wv[ix + (j,)], ref[j], f"softmax over the last axis {ix}{j}")
                ctx.eq(rv[ix + (j,)], wv[ix + (j,)], f"simplex -> real -> simplex {ix}{j}")
                # real -> simplex -> real is the identity up to a common shift
                ctx.eq(g_div(g_exp(lv[ix + (j,)]), g_exp(lv[ix + (0,)])), g_div(g_exp(xv[ix + (j,)]), g_exp(xv[ix + (0,)])), f"real up to a shift {ix}{j}")
        s = np.empty(shape, dtype=object)
        for ix in np.ndindex(*shape[:-1]):
            for j, v in enumerate(ctx.simplex(f"s{list(ix)}", k)):
                s[ix + (j,)] = v
        back = ctx.vals(p.proj_real_to_convex(p.proj_convex_to_real(ctx.tensor(s))))
        for ix in np.ndindex(*shape):
            ctx.eq(back[ix], s[ix], f"valid weights come back {ix}")
    return run


def signed(shape, dim, signs, keepdim, ninf=()):
    """signs: pattern over the flattened tensor; '0' terms have sign 0; ninf: positions holding log 0"""
    def run(ctx):
        from spflow.utils.signed_semiring import signed_logsumexp
        n = int(np.prod(shape))
        mags = [ctx.pos(f"m{i}") for i in range(n)]
        la, sg, val = np.empty(shape, dtype=object), np.empty(shape, dtype=object), np.empty(shape, dtype=object)
        for k, ix in enumerate(np.ndindex(*shape)):
            c = signs[k % len(signs)]
            sgn = {"+": 1, "-": -1, "0": 0}[c]
            dead = k in ninf
            la[ix] = -math.inf if dead else g_log(mags[k])
            sg[ix] = ctx.c(sgn)
            val[ix] = zero(ctx) if dead or sgn == 0 else (mags[k] if sgn > 0 else neg(mags[k]))
        with torch.no_grad():
            l, s = signed_logsumexp(ctx.tensor(la), ctx.tensor(sg), dim=dim, keepdim=keepdim)
        l, s = ctx.vals(l), ctx.vals(s)
        want_shape = tuple(d if i != dim % len(shape) else 1 for i, d in enumerate(shape) if keepdim or i != dim % len(shape))
        ctx.true(l.shape == want_shape and s.shape == want_shape, "shape", f"{l.shape} {want_shape}")
        tot = np.empty(want_shape, dtype=object)
        for ix in np.ndindex(*want_shape):
            full = list(ix)
            if not keepdim:
                full.insert(dim % len(shape), 0)
            tot[ix] = g_sum([val[tuple(full[:dim % len(shape)] + [j] + full[dim % len(shape) + 1:])] for j in range(shape[dim])])
            ctx.eq(g_prod([mk(ctx, s[ix]), expl(ctx, l[ix])]), tot[ix], f"value {ix}")
    return run


def mk(ctx, x):
    return x


def expl(ctx, x):
    if isinstance(x, float) and x == -math.inf:
        return zero(ctx)
    return g_exp(x)


def atoms(ctx):
    from spflow.utils.signed_semiring import sign_of, logabs_of
    a, b = ctx.pos("a"), ctx.pos("b")
    x = ctx.tensor([a, neg(b), zero(ctx), sub(a, b)])
    s, l = ctx.vals(sign_of(x)), ctx.vals(logabs_of(x))
    for i, v in enumerate([a, neg(b), zero(ctx), sub(a, b)]):
        ctx.eq(g_prod([s[i], expl(ctx, l[i])]), v, f"sign * exp(log|x|) = x ({i})")


CASES = [Case(f"bounded:{k}:{n}:{t}", bounded(k, n, t)) for k in ("both", "lb", "ub") for n, t in ((1, "scalar"), (2, "scalar"), (2, "each"), (4, "each"))]
CASES += [Case(f"float:{k}:{lo}:{hi}", float_bounds(k, lo, hi)) for k in ("both", "lb", "ub") for lo, hi in ((0.0, 1.0), (-2.0, 3.5), (1.0, 1.25))]
CASES += [Case(f"simplex:{list(s)}", simplex(s)) for s in ((2,), (3,), (4,), (2, 2), (2, 1, 3))]
CASES += [Case("signed:atoms", atoms)]
for _sg in ("+", "-", "+-", "-+", "+0", "0", "++-", "+-0", "--+", "0-+", "+--+"):
    CASES.append(Case(f"signed:{_sg}", signed((len(_sg),), 0, _sg, False), max_paths=3000))
CASES += [Case("signed:dead", signed((3,), 0, "+-+", False, (1,)), max_paths=3000), Case("signed:alldead", signed((2,), 0, "+-", False, (0, 1))),
          Case("signed:2d-0", signed((2, 2), 0, "+--+", False), max_paths=3000), Case("signed:2d-1k", signed((2, 2), 1, "+--+", True), max_paths=3000),
          Case("signed:2d-1dead", signed((2, 2), -1, "+-++", False, (2, 3)), max_paths=3000), Case("signed:3d", signed((2, 2, 1), 1, "+-", False, (0,)), max_paths=3000)]
