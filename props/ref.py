"""Independent reference semantics of every layer, written from the documentation, over scalar tables.
A table is an object array (B, F, C, R) of log-likelihood scalars."""
from __future__ import annotations
import itertools
import numpy as np
from symtorch.harness import g_exp, g_log, g_sum, g_prod, softmax_list, g_div


def children(mod):
    """direct child modules (after unwrapping ModuleLists); Split parts stay with the Split module"""
    import torch
    inp = mod.inputs
    if isinstance(inp, (torch.nn.ModuleList, list, tuple)):
        return list(inp)
    return [inp]


def split_parts(mod, n):
    t = type(mod).__name__
    k = mod.num_splits
    if t == "SplitByIndex":
        return [list(ix) for ix in mod.indices]
    if t == "SplitInterleaved":
        return [[f for f in range(n) if f % k == i] for i in range(k)]
    if t == "SplitConsecutive":
        c = n // k
        return [list(range(i * c, (i + 1) * c)) for i in range(k)]
    raise KeyError(t)


HOOK = [None]  # HOOK[0](mod, index, site, probability) -> probability: lets a check alter single weights; ("leaf" cells likewise)


def mix(mod, w, idxs, site=None):
    """the normalised weights of one mixture"""
    p = softmax_list([w[i] for i in idxs])
    if HOOK[0] is not None:
        p = [HOOK[0](mod, i, site, q) for i, q in zip(idxs, p)]
    return p


def lse(terms):
    """log sum_i w_i exp(l_i) for terms [(w, l)]"""
    return g_log(g_sum(g_prod([w, g_exp(l)]) for w, l in terms))


def table_of(ctx, mod, data, memo):
    """table (or list of tables for a Split) computed by the reference from the children's *reference* tables;
    leaves are evaluated by the real code"""
    k = id(mod)
    if k not in memo:
        if is_leaf(mod):
            import torch
            with torch.no_grad():
                memo[k] = ctx.vals(mod.log_likelihood(data))
            if HOOK[0] is not None:
                t = memo[k].copy()
                for ix in np.ndindex(*t.shape):
                    t[ix] = HOOK[0](mod, ix[1:], None, t[ix])
                memo[k] = t
        else:
            memo[k] = layer(ctx, mod, lambda m: table_of(ctx, m, data, memo))
    return memo[k]


def is_leaf(mod):
    from spflow.modules.leaves.leaf import LeafModule
    return isinstance(mod, LeafModule)


def inputs_tables(ctx, mod, get):
    """list of operand tables of a product-like module"""
    ch = children(mod)
    if len(ch) == 1 and type(ch[0]).__name__.startswith("Split"):
        return get(ch[0])
    return [get(c) for c in ch]


def layer(ctx, mod, get):
    t = type(mod).__name__
    if t.startswith("Split"):
        x = get(children(mod)[0])
        return [x[:, p] for p in split_parts(mod, x.shape[1])]
    if t == "Cat":
        return np.concatenate([get(c) for c in children(mod)], axis=mod.dim)
    if t == "Sum":
        x = get(children(mod)[0])
        w = ctx.vals(mod.logits)                      # (F, Cin, Cout, R)
        B, F, C, R = x.shape
        out = np.empty((B, F, w.shape[2], w.shape[3]), dtype=object)
        for f, o, r in np.ndindex(F, w.shape[2], w.shape[3]):
            p = mix(mod, w, [(f, c, o, r) for c in range(C)])
            for b in range(B):
                out[b, f, o, r] = lse([(p[c], x[b, f, c, r if R > 1 else 0]) for c in range(C)])
        return out
    if t == "ElementwiseSum":
        xs = [get(c) for c in children(mod)]
        w = ctx.vals(mod.logits)                      # (F, Ci, Co, I, R)
        F, Ci, Co, I, R = w.shape
        B = xs[0].shape[0]
        out = np.empty((B, F, Ci * Co, R), dtype=object)
        for f, c, o, r in np.ndindex(F, Ci, Co, R):
            p = mix(mod, w, [(f, c, o, i, r) for i in range(I)])
            for b in range(B):
                out[b, f, c * Co + o, r] = lse([(p[i], xs[i][b, f, c if xs[i].shape[2] > 1 else 0, r]) for i in range(I)])
        return out
    if t == "RepetitionMixingLayer":
        x = get(children(mod)[0])
        w = ctx.vals(mod.logits)                      # (F, C, R)
        B, F, C, R = x.shape
        out = np.empty((B, F, C, 1), dtype=object)
        for f, c in np.ndindex(F, C):
            p = mix(mod, w, [(f, c, r) for r in range(R)])
            for b in range(B):
                out[b, f, c, 0] = lse([(p[r], x[b, f, c, r]) for r in range(R)])
        return out
    if t == "Product":
        x = get(children(mod)[0])
        return add_axis(x)
    if t == "Factorize":
        x = get(children(mod)[0])
        ix = ctx.vals(mod.indices)
        B, F, C, R = x.shape
        Fo = ix.shape[1]
        out = np.empty((B, Fo, C, ix.shape[2]), dtype=object)
        for o, c, r in np.ndindex(Fo, C, ix.shape[2]):
            fs = [f for f in range(F) if ix[f, o, r] == 1]
            for b in range(B):
                out[b, o, c, r] = plus([x[b, f, c, r if R > 1 else 0] for f in fs])
        return out
    if t == "ElementwiseProduct":
        xs = inputs_tables(ctx, mod, get)
        B = xs[0].shape[0]
        F = max(x.shape[1] for x in xs)
        C = max(x.shape[2] for x in xs)
        R = xs[0].shape[3]
        out = np.empty((B, F, C, R), dtype=object)
        for b, f, c, r in np.ndindex(*out.shape):
            out[b, f, c, r] = plus([x[b, f if x.shape[1] > 1 else 0, c if x.shape[2] > 1 else 0, r] for x in xs])
        return out
    if t == "OuterProduct":
        xs = inputs_tables(ctx, mod, get)
        B = xs[0].shape[0]
        F = max(x.shape[1] for x in xs)
        R = xs[0].shape[3]
        combos = list(itertools.product(*[range(x.shape[2]) for x in xs]))
        out = np.empty((B, F, len(combos), R), dtype=object)
        for b, f, k, r in np.ndindex(*out.shape):
            out[b, f, k, r] = plus([x[b, f if x.shape[1] > 1 else 0, combos[k][i], r] for i, x in enumerate(xs)])
        return out
    if t == "EinsumLayer":
        l, rr = inputs_tables(ctx, mod, get)
        w = ctx.vals(mod.logits)                      # (F, Co, R, I, J)
        F, Co, R, I, J = w.shape
        B = l.shape[0]
        out = np.empty((B, F, Co, R), dtype=object)
        for f, o, r in np.ndindex(F, Co, R):
            p = mix(mod, w, [(f, o, r, i, j) for i in range(I) for j in range(J)])
            for b in range(B):
                out[b, f, o, r] = g_log(g_sum(g_prod([p[i * J + j], g_exp(l[b, f, i, r]), g_exp(rr[b, f, j, r])]) for i in range(I) for j in range(J)))
        return out
    if t == "LinsumLayer":
        l, rr = inputs_tables(ctx, mod, get)
        w = ctx.vals(mod.logits)                      # (F, Co, R, C)
        F, Co, R, C = w.shape
        B = l.shape[0]
        out = np.empty((B, F, Co, R), dtype=object)
        for f, o, r in np.ndindex(F, Co, R):
            p = mix(mod, w, [(f, o, r, c) for c in range(C)])
            for b in range(B):
                out[b, f, o, r] = g_log(g_sum(g_prod([p[c], g_exp(l[b, f, c, r]), g_exp(rr[b, f, c, r])]) for c in range(C)))
        return out
    if t == "ProdConv":
        x = get(children(mod)[0])
        B, F, C, R = x.shape
        H = int(round(F ** 0.5))
        oh = (H + 2 * mod.padding_h) // mod.kernel_size_h
        ow = (H + 2 * mod.padding_w) // mod.kernel_size_w
        out = np.empty((B, oh * ow, C, R), dtype=object)
        for b, i, j, c, r in np.ndindex(B, oh, ow, C, R):
            cells = [(i * mod.kernel_size_h + a - mod.padding_h, j * mod.kernel_size_w + e - mod.padding_w)
                     for a in range(mod.kernel_size_h) for e in range(mod.kernel_size_w)]
            out[b, i * ow + j, c, r] = plus([x[b, h * H + w_, c, r] for h, w_ in cells if 0 <= h < H and 0 <= w_ < H])
        return out
    if t == "SumConv":
        x = get(children(mod)[0])
        w = ctx.vals(mod.logits)                      # (Co, Ci, K, K, R)
        B, F, C, R = x.shape
        K = mod.kernel_size
        H = int(round(F ** 0.5))
        out = np.empty((B, F, w.shape[0], w.shape[4]), dtype=object)
        for f, o, r in np.ndindex(F, w.shape[0], w.shape[4]):
            h, w_ = divmod(f, H)
            a, e = (h % K, w_ % K) if H >= K else (0, 0)
            p = mix(mod, w, [(o, c, a, e, r) for c in range(C)], site=f)
            for b in range(B):
                out[b, f, o, r] = lse([(p[c], x[b, f, c, r]) for c in range(C)])
        return out
    if t in ("RatSPN", "Einet", "ConvPc", "NaiveBayes"):
        return get(mod.root_node if hasattr(mod, "root_node") else children(mod)[0])
    raise KeyError(t)


def plus(ls):
    """sum of log-likelihoods, as log of the product"""
    if not ls:
        return g_log(g_exp(0.0) if False else _one())
    return g_log(g_prod([g_exp(l) for l in ls]))


def _one():
    from symtorch.harness import S
    from fractions import Fraction
    return Fraction(1) if S.mode_symbolic else 1.0


def add_axis(x):
    B, F, C, R = x.shape
    out = np.empty((B, 1, C, R), dtype=object)
    for b, c, r in np.ndindex(B, C, R):
        out[b, 0, c, r] = plus([x[b, f, c, r] for f in range(F)])
    return out
