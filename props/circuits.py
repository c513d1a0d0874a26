"""Small circuit configurations (real SPFlow modules) over finite-domain variables, and an independent
reference evaluator for what each layer is documented to compute."""
from __future__ import annotations
import itertools
import math
import numpy as np
import torch
from symtorch.harness import g_exp, g_log, g_sum, g_prod, g_div, softmax_list, Case
from torch.utils._python_dispatch import _disable_current_modes


def imports():
    import spflow.modules.leaves as L
    from spflow.meta.data import Scope
    from spflow.modules.sums import Sum, ElementwiseSum, RepetitionMixingLayer, SignedSum
    from spflow.modules.products import Product, ElementwiseProduct, OuterProduct
    from spflow.modules.ops import Cat, SplitMode, SplitConsecutive, SplitInterleaved, SplitByIndex
    from spflow.modules.einsum import EinsumLayer, LinsumLayer
    from spflow.modules.conv import ProdConv, SumConv
    from spflow.modules.rat import Factorize
    from spflow.zoo.rat import RatSPN
    from spflow.zoo.einet import Einet
    from spflow.zoo.conv import ConvPc
    from spflow.zoo import NaiveBayes
    from types import SimpleNamespace
    d = dict(locals())
    return SimpleNamespace(**d)


class Cfg:
    def __init__(self, name, build, domains, norm=False, tags=()):
        self.name, self.build, self.domains, self.norm, self.tags = name, build, domains, norm, set(tags)

    @property
    def ncols(self):
        return max(self.domains) + 1

    def params(self):
        with _disable_current_modes():
            torch.manual_seed(0)
            np.random.seed(0)
            m = self.build(imports())
        return [n for n, p in m.named_parameters()]

    def make(self, ctx, prefix="", only=None, norm=None, const="logconst"):
        """only: name of the one parameter tensor that stays symbolic (the others get fixed generic values); "name#k/n": chunk k of n of it"""
        with _disable_current_modes():
            torch.manual_seed(0)
            np.random.seed(0)
            m = self.build(imports())
            m.eval()
        kinds = None
        if only is not None:
            def kinds(mn, mod, pn, p):
                nm, _, part = only.partition("#")
                if f"{mn}.{pn}".lstrip(".") == nm:
                    return ("some",) + tuple(int(v) for v in part.split("/")) if part else None
                return const if pn in ("_logits", "logits") else None
        ctx.symbolize(m, prefix=prefix, norm=self.norm if norm is None else norm, kinds=kinds)
        return m

    def vars(self):
        return sorted(self.domains)

    def assignments(self, with_nan=False):
        vs = self.vars()
        doms = [list(self.domains[v]) + ([None] if with_nan else []) for v in vs]
        for combo in itertools.product(*doms):
            yield dict(zip(vs, combo))

    def rows(self, assigns):
        out = []
        for a in assigns:
            r = [float("nan")] * self.ncols
            for v, x in a.items():
                if x is not None:
                    r[v] = float(x)
            out.append(r)
        return out


B2 = [0, 1]


def bern(I, sc, oc=1, rep=1):
    return I.L.Bernoulli(scope=I.Scope(list(sc)), out_channels=oc, num_repetitions=rep)


def cat(I, sc, K=2, oc=1, rep=1):
    return I.L.Categorical(scope=I.Scope(list(sc)), out_channels=oc, num_repetitions=rep, K=K)


def binom(I, sc, n=2, oc=1, rep=1):
    return I.L.Binomial(scope=I.Scope(list(sc)), out_channels=oc, num_repetitions=rep,
                        total_count=torch.full((len(sc), oc, rep), float(n)))


def dom(vs, d=B2):
    return {v: list(d) for v in vs}


CFGS = {}


def cfg(name, domains, norm=False, tags=()):
    def deco(f):
        CFGS[name] = Cfg(name, f, domains, norm, tags)
        return f
    return deco


# ---- leaves ----------------------------------------------------------------------------------
@cfg("leaf_bernoulli", dom([0, 1]), tags=("leaf", "multi"))
def _(I): return bern(I, [0, 1], 2, 2)


@cfg("leaf_categorical", dom([0], [0, 1, 2]), tags=("leaf",))
def _(I): return cat(I, [0], 3, 2, 1)


@cfg("leaf_binomial", dom([0], [0, 1, 2]), tags=("leaf",))
def _(I): return binom(I, [0], 2, 2, 1)


@cfg("leaf_cltree", dom([0, 1, 2]), norm=True, tags=("leaf",))
def _(I): return I.L.CLTree(scope=I.Scope([0, 1, 2]), out_channels=1, K=2, parents=torch.tensor([1, -1, 1]))


@cfg("leaf_cltree_chain", dom([0, 1, 2]), norm=True, tags=("leaf",))
def _(I): return I.L.CLTree(scope=I.Scope([2, 0, 1]), out_channels=1, K=2, parents=torch.tensor([2, 0, -1]) if False else torch.tensor([-1, 2, 0]))


@cfg("leaf_hypergeom", dom([0], [0, 1, 2]), tags=("leaf",))
def _(I): return I.L.Hypergeometric(scope=I.Scope([0]), K=torch.tensor([[[2.0], [1.0]]]), N=torch.tensor([[[4.0], [3.0]]]), n=torch.tensor([[[2.0], [1.0]]]))


@cfg("leaf_scope_gap", dom([1, 3]), tags=("leaf", "multi"))
def _(I): return bern(I, [3, 1], 1, 1)


# ---- basic sums / products -------------------------------------------------------------------
@cfg("sum_leaf", dom([0]), tags=("core",))
def _(I): return I.Sum(inputs=bern(I, [0], 3), out_channels=2)


@cfg("sum_cat3", dom([0], [0, 1, 2]), tags=("core",))
def _(I): return I.Sum(inputs=cat(I, [0], 3, 2), out_channels=1)


@cfg("prod_leaf", dom([0, 1, 2]), tags=("core",))
def _(I): return I.Product(inputs=bern(I, [0, 1, 2], 2))


@cfg("mix2", dom([0, 1]), tags=("core",))
def _(I): return I.Sum(inputs=I.Product(inputs=bern(I, [0, 1], 2)), out_channels=1)


@cfg("mix2_gap", dom([1, 3]), tags=("core",))
def _(I): return I.Sum(inputs=I.Product(inputs=bern(I, [3, 1], 2)), out_channels=1)


@cfg("mix_catbin", {0: [0, 1, 2], 1: [0, 1]}, tags=("core",))
def _(I): return I.Sum(inputs=[I.Product(inputs=[cat(I, [0], 3), bern(I, [1])]), I.Product(inputs=[binom(I, [0], 2), bern(I, [1])])], out_channels=1)


@cfg("sum_multi_feature", dom([0, 1]), tags=("core", "multi"))
def _(I): return I.Sum(inputs=bern(I, [0, 1], 2), out_channels=2)


@cfg("sum_list", dom([0, 1]), tags=("core",))
def _(I): return I.Sum(inputs=[I.Product(inputs=bern(I, [0, 1], 2)), I.Product(inputs=cat(I, [0, 1], 2, 1))], out_channels=1)


@cfg("sum_reps", dom([0, 1]), tags=("core", "reps"))
def _(I): return I.Sum(inputs=I.Product(inputs=bern(I, [0, 1], 2, 2)), out_channels=1, num_repetitions=2)


@cfg("prod_list", {0: [0, 1], 1: [0, 1, 2]}, tags=("core",))
def _(I): return I.Product(inputs=[bern(I, [0], 2), cat(I, [1], 3, 2)])


@cfg("deep", dom([0, 1, 2]), norm=True, tags=("core",))
def _(I):
    s = I.Sum(inputs=bern(I, [0, 1, 2], 2), out_channels=2)
    return I.Sum(inputs=I.Product(inputs=s), out_channels=1)


@cfg("hier_list", dom([0, 1, 2]), norm=True, tags=("core",))
def _(I):
    a = I.Sum(inputs=I.Product(inputs=bern(I, [0, 1], 2)), out_channels=2)
    return I.Sum(inputs=I.Product(inputs=[a, bern(I, [2], 2)]), out_channels=1)


@cfg("cltree_mix", dom([0, 1, 2]), norm=True, tags=("core",))
def _(I):
    c = I.L.CLTree(scope=I.Scope([0, 1]), out_channels=2, K=2, parents=torch.tensor([-1, 0]))
    return I.Sum(inputs=I.Product(inputs=[c, bern(I, [2], 2)]), out_channels=1)


# ---- elementwise / outer products ------------------------------------------------------------
@cfg("ewprod_2in", dom([0, 1]), tags=("prod",))
def _(I): return I.Sum(inputs=I.ElementwiseProduct(inputs=[bern(I, [0], 2), bern(I, [1], 2)]), out_channels=1)


@cfg("ewprod_2in_f2", dom([0, 1, 2, 3]), tags=("prod", "multi"))
def _(I): return I.ElementwiseProduct(inputs=[bern(I, [0, 1], 2), bern(I, [2, 3], 2)])


@cfg("ewprod_bcast", dom([0, 1]), tags=("prod",))
def _(I): return I.Sum(inputs=I.ElementwiseProduct(inputs=[bern(I, [0], 2), bern(I, [1], 1)]), out_channels=1)


@cfg("outer_2in", dom([0, 1]), tags=("prod",))
def _(I): return I.Sum(inputs=I.OuterProduct(inputs=[bern(I, [0], 2), bern(I, [1], 2)]), out_channels=1)


@cfg("outer_3in", dom([0, 1, 2]), norm=True, tags=("prod",))
def _(I): return I.Sum(inputs=I.OuterProduct(inputs=[bern(I, [0], 2), bern(I, [1], 2), bern(I, [2], 1)]), out_channels=1)


@cfg("outer_2in_f2", dom([0, 1, 2, 3]), tags=("prod", "multi"))
def _(I): return I.OuterProduct(inputs=[bern(I, [0, 1], 2), bern(I, [2, 3], 2)])


def _split(kind, ns=2, idx=None):
    def mk(I):
        if kind == "cons":
            return I.SplitMode.consecutive(ns)
        if kind == "inter":
            return I.SplitMode.interleaved(ns)
        return I.SplitMode.by_index(idx)
    return mk


for _pk in ("ew", "outer"):
    for _sk in ("cons", "inter", "idx"):
        for _nf in (2, 4):
            def _b(I, _pk=_pk, _sk=_sk, _nf=_nf):
                sm = _split(_sk, 2, [[1], [0]] if _nf == 2 else [[3, 0], [1, 2]])(I)
                P = I.ElementwiseProduct if _pk == "ew" else I.OuterProduct
                leaf = bern(I, list(range(_nf)), 2)
                p = P(inputs=sm.create(leaf))
                if _nf == 2:
                    return I.Sum(inputs=p, out_channels=1)
                return I.Sum(inputs=I.Product(inputs=p), out_channels=1)
            CFGS[f"{_pk}_{_sk}_{_nf}"] = Cfg(f"{_pk}_{_sk}_{_nf}", _b, dom(range(_nf)), norm=_nf == 4, tags=("prod", "split"))

for _pk in ("ew", "outer"):
    for _sk in ("cons", "inter"):
        def _b(I, _pk=_pk, _sk=_sk):
            sm = _split(_sk, 3)(I)
            P = I.ElementwiseProduct if _pk == "ew" else I.OuterProduct
            return I.Sum(inputs=P(inputs=sm.create(bern(I, [0, 1, 2], 2)), num_splits=3), out_channels=1)
        CFGS[f"{_pk}_{_sk}_3way"] = Cfg(f"{_pk}_{_sk}_3way", _b, dom(range(3)), norm=True, tags=("prod", "split"))


# ---- einsum / linsum -------------------------------------------------------------------------
@cfg("einsum_2in", dom([0, 1]), tags=("einsum",))
def _(I): return I.EinsumLayer(inputs=[bern(I, [0], 2), bern(I, [1], 2)], out_channels=2)


@cfg("linsum_2in", dom([0, 1]), tags=("einsum",))
def _(I): return I.LinsumLayer(inputs=[bern(I, [0], 2), bern(I, [1], 2)], out_channels=2)


@cfg("einsum_2in_f2", dom([0, 1, 2, 3]), norm=True, tags=("einsum", "multi"))
def _(I): return I.EinsumLayer(inputs=[bern(I, [0, 1], 2), bern(I, [2, 3], 2)], out_channels=2)


@cfg("linsum_2in_f2", dom([0, 1, 2, 3]), norm=True, tags=("einsum", "multi"))
def _(I): return I.LinsumLayer(inputs=[bern(I, [0, 1], 2), bern(I, [2, 3], 2)], out_channels=2)


for _l in ("einsum", "linsum"):
    for _sk in ("cons", "inter", "idx"):
        for _nf in (2, 4):
            def _b(I, _l=_l, _sk=_sk, _nf=_nf):
                C = I.EinsumLayer if _l == "einsum" else I.LinsumLayer
                sm = _split(_sk, 2, [[1], [0]] if _nf == 2 else [[3, 0], [1, 2]])(I)
                e = C(inputs=bern(I, list(range(_nf)), 2), out_channels=1, split_mode=sm)
                return e if _nf == 2 else I.Product(inputs=e)
            CFGS[f"{_l}_{_sk}_{_nf}"] = Cfg(f"{_l}_{_sk}_{_nf}", _b, dom(range(_nf)), norm=_nf == 4, tags=("einsum", "split"))


@cfg("einsum_deep", dom([0, 1, 2, 3]), norm=True, tags=("einsum",))
def _(I):
    e = I.EinsumLayer(inputs=bern(I, [0, 1, 2, 3], 2), out_channels=2, split_mode=I.SplitMode.interleaved(num_splits=2))
    return I.EinsumLayer(inputs=e, out_channels=1, split_mode=I.SplitMode.interleaved(num_splits=2))


@cfg("einsum_reps", dom([0, 1]), tags=("einsum", "reps"))
def _(I): return I.EinsumLayer(inputs=bern(I, [0, 1], 2, 2), out_channels=1, num_repetitions=2)


@cfg("linsum_reps", dom([0, 1]), tags=("einsum", "reps"))
def _(I): return I.LinsumLayer(inputs=bern(I, [0, 1], 2, 2), out_channels=1, num_repetitions=2)


# ---- other sums ------------------------------------------------------------------------------
@cfg("ewsum", dom([0, 1]), tags=("sums",))
def _(I): return I.ElementwiseSum(inputs=[I.Product(inputs=bern(I, [0, 1], 2)), I.Product(inputs=cat(I, [0, 1], 2, 2))], out_channels=1)


@cfg("ewsum_oc2", dom([0]), tags=("sums",))
def _(I): return I.ElementwiseSum(inputs=[bern(I, [0], 2), cat(I, [0], 2, 2)], out_channels=2)


@cfg("repmix", dom([0, 1]), tags=("sums", "reps"))
def _(I): return I.RepetitionMixingLayer(inputs=I.Sum(inputs=I.Product(inputs=bern(I, [0, 1], 2, 2)), out_channels=1, num_repetitions=2), out_channels=1, num_repetitions=2)


@cfg("repmix_oc2", dom([0]), tags=("sums", "reps"))
def _(I): return I.Sum(inputs=I.RepetitionMixingLayer(inputs=bern(I, [0], 2, 2), out_channels=2, num_repetitions=2), out_channels=1)


@cfg("dag_shared", dom([0, 1]), norm=True, tags=("sums",))
def _(I):
    a = bern(I, [0], 2)
    s1 = I.Product(inputs=[a, bern(I, [1], 2)])
    s2 = I.Product(inputs=[a, cat(I, [1], 2, 2)])
    return I.Sum(inputs=[s1, s2], out_channels=1)


# ---- convolutional ---------------------------------------------------------------------------
@cfg("prodconv", dom([0, 1, 2, 3]), tags=("conv",))
def _(I): return I.Sum(inputs=I.ProdConv(inputs=bern(I, [0, 1, 2, 3], 2), kernel_size_h=2, kernel_size_w=2), out_channels=1)


@cfg("prodconv_multi", dom([0, 1, 2, 3]), tags=("conv", "multi"))
def _(I): return I.ProdConv(inputs=bern(I, [0, 1, 2, 3], 1), kernel_size_h=1, kernel_size_w=2)


@cfg("prodconv_pad", dom([0, 1, 2, 3]), norm=True, tags=("conv",))
def _(I): return I.Product(inputs=I.ProdConv(inputs=bern(I, [0, 1, 2, 3], 1), kernel_size_h=2, kernel_size_w=2, padding_h=1, padding_w=1))


@cfg("sumconv", dom([0, 1, 2, 3]), norm=True, tags=("conv",))
def _(I): return I.Product(inputs=I.SumConv(inputs=bern(I, [0, 1, 2, 3], 2), out_channels=1, kernel_size=2))


@cfg("sumconv_multi", dom([0, 1, 2, 3]), tags=("conv", "multi"))
def _(I): return I.SumConv(inputs=bern(I, [0, 1, 2, 3], 2), out_channels=2, kernel_size=2)


# ---- models ----------------------------------------------------------------------------------
@cfg("rat_d1", dom([0, 1, 2]), norm=True, tags=("model", "reps"))
def _(I): return I.RatSPN(leaf_modules=[bern(I, [0, 1, 2], 2, 1)], n_root_nodes=1, n_region_nodes=2, num_repetitions=1, depth=1)


@cfg("rat_d1_rep2", dom([0, 1]), norm=True, tags=("model", "reps"))
def _(I): return I.RatSPN(leaf_modules=[bern(I, [0, 1], 2, 2)], n_root_nodes=1, n_region_nodes=2, num_repetitions=2, depth=1)


@cfg("rat_d1_outer_cls", dom([0, 1]), norm=True, tags=("model", "multiclass"))
def _(I): return I.RatSPN(leaf_modules=[bern(I, [0, 1], 2, 1)], n_root_nodes=2, n_region_nodes=2, num_repetitions=1, depth=1, outer_product=True)


@cfg("rat_d2", dom([0, 1, 2, 3]), norm=True, tags=("model",))
def _(I): return I.RatSPN(leaf_modules=[bern(I, [0, 1, 2, 3], 2, 1)], n_root_nodes=1, n_region_nodes=2, num_repetitions=1, depth=2, outer_product=False, split_mode=I.SplitMode.interleaved(2))


@cfg("einet_lin", dom([0, 1]), norm=True, tags=("model",))
def _(I): return I.Einet(leaf_modules=[bern(I, [0, 1], 2, 2)], num_classes=1, num_sums=2, num_leaves=2, depth=1, num_repetitions=2, layer_type="linsum")


@cfg("einet_ein_cls", dom([0, 1]), norm=True, tags=("model", "multiclass"))
def _(I): return I.Einet(leaf_modules=[bern(I, [0, 1], 2, 1)], num_classes=2, num_sums=2, num_leaves=2, depth=1, num_repetitions=1, layer_type="einsum")


@cfg("einet_bu", dom([0, 1, 2, 3]), norm=True, tags=("model",))
def _(I): return I.Einet(leaf_modules=[bern(I, [0, 1, 2, 3], 2, 1)], num_classes=1, num_sums=2, num_leaves=2, depth=1, num_repetitions=1, layer_type="linsum", structure="bottom-up")


@cfg("convpc", dom([0, 1, 2, 3]), norm=True, tags=("model",))
def _(I): return I.ConvPc(leaf=bern(I, [0, 1, 2, 3], 2), input_height=2, input_width=2, channels=2, depth=1, kernel_size=2)


@cfg("convpc_sumconv", dom([0, 1, 2, 3]), norm=True, tags=("model",))
def _(I): return I.ConvPc(leaf=bern(I, [0, 1, 2, 3], 2), input_height=2, input_width=2, channels=2, depth=1, kernel_size=2, use_sum_conv=True)


@cfg("naive_bayes", dom([0, 1]), tags=("model",))
def _(I): return I.NaiveBayes(bern(I, [0, 1], 1))


def table(ctx, cfg_, module, assigns, cache=None):
    """(#rows, F, C, R) object array of log-likelihoods of the real module"""
    data = ctx.tensor(cfg_.rows(assigns))
    with torch.no_grad():
        return ctx.vals(module.log_likelihood(data))


SLOW_SAMPLING = ("leaf_cltree", "leaf_cltree_chain", "cltree_mix", "leaf_hypergeom")      # python loop per sampled row
NO_SAMPLING = tuple(n for n in CFGS if n.startswith(("ew_idx", "outer_idx")))   # products over SplitByIndex refuse to sample (NotImplementedError)


HEAVY = ("rat_d2", "deep", "einsum_2in_f2", "linsum_2in_f2", "einsum_deep", "convpc", "convpc_sumconv", "einet_bu", "outer_2in_f2", "ew_cons_4", "ew_inter_4",
         "outer_cons_4", "outer_inter_4", "einsum_cons_4", "einsum_inter_4", "einsum_idx_4", "linsum_cons_4", "linsum_inter_4", "linsum_idx_4")


def cases(prop, fn, names, split=(), **kw):
    """split: configurations decided once per parameter tensor (that tensor symbolic, the others at fixed generic values)"""
    from symtorch.harness import Case
    out = []
    for n in names:
        c = CFGS[n]
        if n in split:
            for p in c.params():
                out.append(Case(f"{n}@{p}", (lambda ctx, c=c, p=p: fn(ctx, c, only=p)), **kw))
            continue
        out.append(Case(f"{n}", (lambda ctx, c=c: fn(ctx, c)), **kw))
    return out


def select(*tags, exclude=(), without=()):
    return [n for n, c in CFGS.items() if (not tags or c.tags & set(tags)) and not (c.tags & set(without)) and n not in exclude]
