"""C15: split, concatenation and factorisation reorder data without loss."""
import itertools
from symtorch.harness import *
from symtorch.harness import S
from .circuits import imports
from .given import Given, fill
from torch.utils._python_dispatch import _disable_current_modes

BOUNDS = ["splits: 2-6 features, 2-4 parts, the three split modes (interleaved also with a remainder; by-index with unequal and reordered groups), 1-2 channels and repetitions, arbitrary child log-likelihoods",
          "merging: arbitrary routed tensors (with 0-2 trailing dimensions) and arbitrary channel indices",
          "sampling routing: every channel index in range (symbolic), masks selecting each feature, both repetitions, full-width, split-width and width-one requests",
          "concatenation of 2-3 modules over features and over channels; factorisation with 2-5 features, depth 1-2, 1-2 repetitions, every permutation the random generator may return (4 features and fewer)"]

SPLITS = [("cons", F, k, None) for F, k in ((2, 2), (4, 2), (6, 2), (3, 3), (6, 3), (4, 4))]
SPLITS += [("inter", F, k, None) for F, k in ((2, 2), (4, 2), (6, 2), (3, 3), (6, 3), (4, 4), (3, 2), (5, 2), (5, 3), (5, 4))]
SPLITS += [("idx", 4, 2, [[3, 0], [1, 2]]), ("idx", 2, 2, [[1], [0]]), ("idx", 5, 2, [[4, 1, 0], [2, 3]]), ("idx", 6, 3, [[5, 0], [3, 2], [1, 4]]), ("idx", 4, 3, [[2], [3, 0], [1]])]


def positions(kind, F, k, idx):
    if kind == "cons":
        return [list(range(i * (F // k), (i + 1) * (F // k))) for i in range(k)]
    if kind == "inter":
        return [[f for f in range(F) if f % k == i] for i in range(k)]
    return idx


def make(kind, F, k, idx, C=1, R=1, scope=None):
    I = imports()
    with _disable_current_modes():
        g = Given(scope or range(F), C, R)
        sm = {"cons": I.SplitMode.consecutive, "inter": I.SplitMode.interleaved}[kind](k) if kind != "idx" else I.SplitMode.by_index(idx)
        s = sm.create(g)
        s.eval()
    return g, s


def same(ctx, got, want, label):
    ctx.true(got.shape == want.shape, f"{label}: shape", f"{got.shape} {want.shape}")
    if got.shape == want.shape:
        for ix in np.ndindex(*want.shape):
            ctx.eqlog(got[ix], want[ix], f"{label} {list(ix)}")


def split_ll(kind, F, k, idx):
    def run(ctx):
        g, s = make(kind, F, k, idx, 2, 2)
        x = fill(ctx, g, 2, "x")
        with torch.no_grad():
            parts = s.log_likelihood(ctx.tensor([[0.0] * F] * 2))
        pos = positions(kind, F, k, idx)
        ctx.true(len(parts) == k == s.num_splits, "parts", str(len(parts)))
        for i in range(min(k, len(parts))):
            same(ctx, ctx.vals(parts[i]), x[:, pos[i]], f"part {i}")
        ctx.true(sorted(sum(pos, [])) == list(range(F)), "every feature once")
        ctx.true(tuple(s.out_shape) == (F, 2, 2), "out_shape", str(tuple(s.out_shape)))
        ctx.true(set(s.scope.query) == set(range(F)), "scope")
    return run


def merge(kind, F, k, idx):
    def run(ctx):
        g, s = make(kind, F, k, idx, 2, 1)
        pos = positions(kind, F, k, idx)
        if len({len(p) for p in pos}) > 1 and kind != "idx":
            return ctx.true(True, "remainder: not mergeable")
        for trail in ((), (2,), (2, 2)):
            t = np.empty((2, F) + trail, dtype=object)
            for ix in np.ndindex(*t.shape):
                t[ix] = ctx.real(f"t{len(trail)}{list(ix)}")
            out = ctx.vals(s.merge_split_tensors(*[ctx.tensor(t[:, p]) for p in pos]))
            ctx.true(out.shape == t.shape, f"tensors {trail}: shape", str(out.shape))
            for ix in np.ndindex(*t.shape):
                ctx.eq(out[ix], t[ix], f"tensors {trail}: {list(ix)}")
        t = np.empty((2, F), dtype=object)
        for ix in np.ndindex(*t.shape):
            t[ix] = integer(ctx, f"i{list(ix)}")
        out = ctx.vals(s.merge_split_indices(*[ctx.tensor(t[:, p], dtype=torch.long) for p in pos]))
        ctx.true(out.shape == t.shape, "indices: shape", str(out.shape))
        for ix in np.ndindex(*t.shape):
            ctx.eq(out[ix], t[ix], f"indices: {list(ix)}")
    return run


def integer(ctx, name, n=None):
    """symbolic integer (in range(n))"""
    v = ctx.integer(name)
    v = v.r if hasattr(v, "r") else v
    if n is not None:
        ctx.assume(g_lt(ctx.c(-1), v))
        ctx.assume(g_lt(v, ctx.c(n)))
    return v


def request(ctx, rows, F, C, R, mask=None, tag="", mpe=False):
    """sampling context with arbitrary channels and fixed mask / repetition pattern"""
    from spflow.utils.sampling_context import SamplingContext
    ch = np.empty((rows, F), dtype=object)
    for ix in np.ndindex(*ch.shape):
        ch[ix] = integer(ctx, f"{tag}ch{list(ix)}", C)
    mk = np.array([[True] * F for _ in range(rows)]) if mask is None else np.array(mask)
    rep = np.array([b % R for b in range(rows)])
    c = SamplingContext(channel_index=ctx.tensor(ch, dtype=torch.long), mask=ctx.tensor(mk.astype(object), dtype=torch.bool),
                        repetition_index=ctx.tensor(rep.astype(object), dtype=torch.long), is_mpe=mpe)
    return c, ch, mk, rep


def routed(ctx, req, ch, mk, rep, label):
    """a child's request asks exactly for channels `ch` where `mk` holds, in repetition `rep`"""
    c, m, r = ctx.vals(req.channel_index), ctx.vals(req.mask), ctx.vals(req.repetition_index)
    ctx.true(m.shape == mk.shape, f"{label}: mask shape", f"{m.shape} {mk.shape}")
    if m.shape != mk.shape:
        return
    for ix in np.ndindex(*mk.shape):
        ctx.true(bool(m[ix]) == bool(mk[ix]), f"{label}: mask {list(ix)}", f"{m[ix]} {mk[ix]}")
        if mk[ix]:
            ctx.eq(c[ix], ch[ix], f"{label}: channel {list(ix)}")
    for b in range(len(rep)):
        if mk[b].any():
            ctx.eq(r[b], ctx.c(int(rep[b])), f"{label}: repetition {b}")


def split_sample(kind, F, k, idx, width):
    def run(ctx):
        from spflow.utils.cache import Cache
        pos = positions(kind, F, k, idx)
        g, s = make(kind, F, k, idx, 3, 2)
        W = {"full": F, "one": 1, "part": len(pos[0])}[width]
        owner = {f: (f if width == "full" else 0 if width == "one" else next(p.index(f) for p in pos if f in p)) for f in range(F)}
        for hot in [None] + list(range(W)):
            mask = None if hot is None else [[w == hot for w in range(W)], [w != hot for w in range(W)]]
            g.requests.clear()
            c, ch, mk, rep = request(ctx, 2, W, 3, 2, mask)
            data = ctx.tensor([[float("nan")] * F] * 2)
            s._sample(data=data, sampling_ctx=c, cache=Cache())
            ctx.true(len(g.requests) == 1, f"{hot}: one request", str(len(g.requests)))
            sel = [owner[f] for f in range(F)]
            routed(ctx, g.requests[0], ch[:, sel], mk[:, sel], rep, f"mask {hot}")
    return run


# ---- concatenation ------------------------------------------------------------------------------
CATS = {"f2": (1, [([0, 1], 2), ([2], 2)]), "f3": (1, [([4], 1), ([0, 2], 1), ([1], 1)]), "c2": (2, [([0, 1], 2), ([0, 1], 1)]), "c3": (2, [([0], 1), ([0], 3), ([0], 2)])}


def cat_make(name, R):
    from spflow.modules.ops import Cat
    dim, kids = CATS[name]
    with _disable_current_modes():
        gs = [Given(sc, C, R) for sc, C in kids]
        m = Cat(inputs=gs, dim=dim)
        m.eval()
    return dim, gs, m


def cat_ll(name, R):
    def run(ctx):
        dim, gs, m = cat_make(name, R)
        xs = [fill(ctx, g, 2, f"x{i}") for i, g in enumerate(gs)]
        with torch.no_grad():
            got = ctx.vals(m.log_likelihood(ctx.tensor([[0.0] * 5] * 2)))
        want = np.concatenate(xs, axis=dim)
        same(ctx, got, want, "value")
        ctx.true(tuple(m.out_shape) == want.shape[1:], "out_shape", str(tuple(m.out_shape)))
        f2s = m.feature_to_scope
        names = sum([g.order for g in gs], []) if dim == 1 else gs[0].order
        for f, v in enumerate(names):
            for r in range(R):
                ctx.true(tuple(f2s[f, r].query) == (v,), f"scope of feature {[f, r]}", str(f2s[f, r]))
        ctx.true(set(m.scope.query) == set(names), "scope")
    return run


def cat_sample(name, R, wide):
    def run(ctx):
        from spflow.utils.cache import Cache
        dim, gs, m = cat_make(name, R)
        F, C = m.out_shape.features, m.out_shape.channels
        W = F if wide else 1
        c, ch, mk, rep = request(ctx, 2, W, C, R, [[True] * W, [w == 0 for w in range(W)]])
        data = ctx.tensor([[float("nan")] * 5] * 2)
        m._sample(data=data, sampling_ctx=c, cache=Cache())
        if not wide:
            ch, mk = np.repeat(ch, F, axis=1), np.repeat(mk, F, axis=1)
        off = 0
        for i, g in enumerate(gs):
            n = g.out_shape.features if dim == 1 else g.out_shape.channels
            if dim == 1:
                wc, wm = ch[:, off:off + n], mk[:, off:off + n]
            else:
                wm = np.zeros(mk.shape, dtype=bool)
                wc = np.empty(ch.shape, dtype=object)
                for ix in np.ndindex(*mk.shape):
                    inside = not g_lt(ch[ix], ctx.c(off)) and bool(g_lt(ch[ix], ctx.c(off + n)))
                    wm[ix] = bool(mk[ix]) and inside
                    wc[ix] = g_sum([ch[ix], ctx.c(-off)])
            off += n
            if not g.requests:
                ctx.true(not wm.any(), f"child {i}: skipped only when nothing is routed there")
                continue
            ctx.true(len(g.requests) == 1, f"child {i}: one request")
            routed(ctx, g.requests[0], wc, wm, rep, f"child {i}")
    return run


# ---- factorisation ------------------------------------------------------------------------------
def permutations_of(ctx, n, tag):
    """an arbitrary permutation (one path per permutation); concrete list"""
    left, out = list(range(n)), []
    for i in range(n - 1):
        u = ctx.unit(f"{tag}{i}")
        k = 0
        while k < len(left) - 1 and not g_lt(u, ctx.c(Fraction(k + 1, len(left)))):
            k += 1
        out.append(left.pop(k))
    return out + left


def factorize_make(ctx, kids, depth, R):
    from unittest import mock
    from spflow.modules.rat import Factorize
    n = [0]

    def randperm(*a, **k):
        m = a[0] if a else k["n"]
        n[0] += 1
        p = permutations_of(ctx, m, f"perm{n[0]}.")
        with _disable_current_modes():
            return torch.tensor(p)

    def shuffle(x):
        if len(set(x)) == 1:
            return
        n[0] += 1
        p = permutations_of(ctx, len(x), f"shuf{n[0]}.")
        x[:] = np.asarray(x)[p]
    with mock.patch("torch.randperm", randperm), mock.patch("numpy.random.shuffle", shuffle), _disable_current_modes():
        gs = [Given(sc, C, r) for sc, C, r in kids]
        m = Factorize(inputs=gs, depth=depth, num_repetitions=R)
        m.eval()
    return gs, m


def factorize(kids, depth, R):
    def run(ctx):
        from spflow.utils.cache import Cache
        gs, m = factorize_make(ctx, kids, depth, R)
        ix = np.array(ctx.vals(m.indices), dtype=object)
        Fi, Fo = ix.shape[:2]
        names = sum([g.order for g in gs], [])
        member = [[[f for f in range(Fi) if float(ix[f, o, r]) != 0] for o in range(Fo)] for r in range(R)]
        ctx.true((Fi, Fo, ix.shape[2]) == (len(names), 2 ** depth, R), "layout", str(ix.shape))
        for r in range(R):
            ctx.true(sorted(sum(member[r], [])) == list(range(Fi)), f"repetition {r}: every feature in exactly one group", str(member[r]))
            sizes = [len(g) for g in member[r]]
            ctx.true(max(sizes) - min(sizes) <= 1 and min(sizes) >= 1, f"repetition {r}: balanced groups", str(sizes))
            for o in range(Fo):
                ctx.true(sorted(m.feature_to_scope[o, r].query) == sorted(names[f] for f in member[r][o]), f"scope of group {[o, r]}")
        xs = [fill(ctx, g, 1, f"x{i}") for i, g in enumerate(gs)]
        x = np.concatenate(xs, axis=1)
        with torch.no_grad():
            got = ctx.vals(m.log_likelihood(ctx.tensor([[0.0] * (max(names) + 1)])))
        C = x.shape[2]
        ctx.true(got.shape == (1, Fo, C, R), "shape", str(got.shape))
        for o, c, r in np.ndindex(Fo, C, R):
            ctx.eqlog(got[0, o, c, r], g_sum([x[0, f, c, r if x.shape[3] > 1 else 0] for f in member[r][o]]), f"group {[o, c, r]}")
        # routing
        req, ch, mk, rep = request(ctx, 2, Fo, C, R, [[True] * Fo, [o == 1 for o in range(Fo)]])
        m._sample(data=ctx.tensor([[float("nan")] * (max(names) + 1)] * 2), sampling_ctx=req, cache=Cache())
        off = 0
        for i, g in enumerate(gs):
            fs = list(range(off, off + g.out_shape.features))
            off += len(fs)
            own = [[next(o for o in range(Fo) if f in member[int(rep[b])][o]) for f in fs] for b in range(2)]
            wc = np.array([[ch[b, own[b][j]] for j in range(len(fs))] for b in range(2)], dtype=object)
            wm = np.array([[mk[b, own[b][j]] for j in range(len(fs))] for b in range(2)])
            ctx.true(len(g.requests) == 1, f"child {i}: one request")
            routed(ctx, g.requests[0], wc, wm, rep, f"child {i}")
    return run


CASES = []
for _k, _F, _n, _ix in SPLITS:
    _nm = f"{_k}{_F}/{_n}"
    CASES += [Case(f"split:{_nm}", split_ll(_k, _F, _n, _ix)), Case(f"merge:{_nm}", merge(_k, _F, _n, _ix))]
    for _w in ("full", "one", "part"):
        if _k == "inter" and _F % _n:
            continue
        if _k == "idx" and _w == "part" and len({len(p) for p in _ix}) > 1:
            continue
        CASES.append(Case(f"sample:{_nm}:{_w}", split_sample(_k, _F, _n, _ix, _w)))
for _c in CATS:
    for _r in (1, 2):
        CASES.append(Case(f"cat:{_c}:r{_r}", cat_ll(_c, _r)))
    CASES += [Case(f"cat_sample:{_c}:{'wide' if w else 'one'}", cat_sample(_c, 2, w)) for w in (True, False)]
for _nm, _kids, _d, _r in (("2", [([0, 1], 2, 1)], 1, 1), ("3", [([0, 1, 2], 1, 1)], 1, 1), ("3gap", [([5, 1, 3], 2, 1)], 1, 1), ("3list", [([0, 1], 1, 1), ([2], 1, 1)], 1, 1),
                           ("2r2", [([0, 1], 2, 2)], 1, 2), ("3r2", [([0, 1, 2], 1, 2)], 1, 2), ("4d2", [([0, 1, 2, 3], 1, 1)], 2, 1)):
    CASES.append(Case(f"factorize:{_nm}", factorize(_kids, _d, _r), timeout=150, max_paths=2000))
