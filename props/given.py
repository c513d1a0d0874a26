"""A child module with arbitrary (symbolic) log-likelihoods, to decide a layer for every child value."""
import numpy as np
import torch
from spflow.modules.module import Module
from spflow.modules.module_shape import ModuleShape
from spflow.meta.data import Scope
from spflow.utils.cache import cached


class Given(Module):
    """one feature per variable of `scope`; log-likelihoods are whatever `ll` holds; records sampling requests"""

    def __init__(self, scope, channels=1, repetitions=1, values=None):
        super().__init__()
        self.scope = Scope(list(scope))
        self.order = list(scope)
        self.in_shape = self.out_shape = ModuleShape(len(self.order), channels, repetitions)
        self.ll = None
        self.requests = []
        self.values = values

    @property
    def device(self):
        return torch.device("cpu")

    @property
    def feature_to_scope(self):
        return np.array([[Scope([v]) for _ in range(self.out_shape.repetitions)] for v in self.order], dtype=object)

    @cached
    def log_likelihood(self, data, cache=None):
        return self.ll

    def _sample(self, data, sampling_ctx, cache):
        self.requests.append(sampling_ctx)
        if self.values is not None:
            self.values(self, data, sampling_ctx)
        return data

    def marginalize(self, marg_rvs, prune=True, cache=None):
        raise NotImplementedError


def fill(ctx, g, rows, tag, hole=None):
    """log-likelihoods log(v) for positive symbolic v; -inf where hole(b, f, c, r)"""
    from symtorch.harness import g_log
    F, C, R = g.out_shape.features, g.out_shape.channels, g.out_shape.repetitions
    t = np.empty((rows, F, C, R), dtype=object)
    for ix in np.ndindex(*t.shape):
        t[ix] = float("-inf") if hole and hole(*ix) else g_log(ctx.pos(f"{tag}{list(ix)}"))
    g.ll = ctx.tensor(t)
    return t
