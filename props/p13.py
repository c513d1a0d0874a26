"""C13: scopes behave as sets of variables."""
from symtorch.harness import *

BOUNDS = ["constructor: all integer query/evidence lists with up to 3 query and 2 evidence entries (any sign, any coincidences)",
          "binary and n-ary operations: all valid scopes with up to 3 query and 2 evidence variables each (up to 3 scopes)"]
ASSUMPTIONS = ["python integers are symbolic through an int subclass whose comparisons, hash and conversions are decided by the solver"]


def ints(ctx, name, n):
    return [ctx.integer(f"{name}{i}") for i in range(n)]


def distinct_nonneg(ctx, xs):
    for i, x in enumerate(xs):
        if x < 0:
            ctx.assume(False)
        for y in xs[:i]:
            if x == y:
                ctx.assume(False)


def scope(ctx, name, nq, ne):
    from spflow.meta.data import Scope
    q, e = ints(ctx, name + "q", nq), ints(ctx, name + "e", ne)
    distinct_nonneg(ctx, q + e)
    return Scope(q, e), q, e


def has(xs, x):
    return any(x == y for y in xs)


def subset(a, b):
    return all(has(b, x) for x in a)


def sameset(a, b):
    return subset(a, b) and subset(b, a)


def disjoint(a, b):
    return not any(has(b, x) for x in a)


def nodup(a):
    return all(not has(a[:i], x) for i, x in enumerate(a))


def construct(nq, ne, how):
    def run(ctx):
        from spflow.meta.data import Scope
        from spflow.exceptions import InvalidParameterError
        q, e = ints(ctx, "q", nq), ints(ctx, "e", ne)
        wrap = {"list": list, "tuple": tuple, "iter": iter, "array": lambda x: np.array(x, dtype=object)}[how]
        try:
            s = Scope(wrap(q), wrap(e))
        except (InvalidParameterError, ValueError):
            s = None
        bad = any(x < 0 for x in q + e) or not nodup(q) or not nodup(e) or not disjoint(q, e) or (nq == 0 and ne > 0)
        ctx.true((s is None) == bad, "rejected exactly when invalid", f"{q}|{e}")
        if s is None or bad:
            return
        ctx.true(len(s.query) == nq and all(a == b for a, b in zip(s.query, q)), "query kept in order")
        ctx.true(len(s.evidence) == ne and all(a == b for a, b in zip(s.evidence, e)), "evidence kept in order")
        ctx.true(len(s) == nq and s.empty() == (nq == 0) and s.is_conditional() == (ne > 0), "len/empty/is_conditional")
        c = s.copy()
        ctx.true(c == s and tuple(c.query) == tuple(s.query) and tuple(c.evidence) == tuple(s.evidence), "copy")
        ctx.true(Scope.as_scope(s) is s or Scope.as_scope(s) == s, "as_scope of a scope")
        if ne == 0:
            ctx.true(Scope.as_scope(list(q)) == s, "as_scope of a list")
        if nq == 1 and ne == 0:
            ctx.true(Scope(q[0]) == s and Scope.as_scope(q[0]) == s, "single integer")
    return run


def binary(n1, e1, n2, e2):
    def run(ctx):
        from spflow.meta.data import Scope
        a, q1, v1 = scope(ctx, "a", n1, e1)
        b, q2, v2 = scope(ctx, "b", n2, e2)
        eqq, eqe = sameset(q1, q2), sameset(v1, v2)
        ctx.true(a.equal_query(b) == eqq, "equal_query")
        ctx.true(a.equal_evidence(b) == eqe, "equal_evidence")
        ctx.true((a == b) == (eqq and eqe), "==")
        ctx.true((a != b) == (not (eqq and eqe)), "!=")
        if eqq and eqe:
            ctx.true(hash(a) == hash(b), "equal scopes have equal hashes")
        ctx.true(a.isdisjoint(b) == disjoint(q1, q2), "isdisjoint")
        ctx.true(b.isdisjoint(a) == disjoint(q1, q2), "isdisjoint symmetric")
        j = a.join(b)
        jq, je = list(j.query), list(j.evidence)
        ctx.true(nodup(jq) and sameset(jq, q1 + q2), "join query is the union")
        ctx.true(nodup(je) and sameset(je, [x for x in v1 + v2 if not has(q1 + q2, x)]), "join evidence is the union minus the query")
        k = b.join(a)
        ctx.true(j == k, "join commutes")
        ctx.true(Scope.join_all([a, b]) == j, "join_all")
        ctx.true(Scope.all_pairwise_disjoint([a, b]) == disjoint(q1, q2), "all_pairwise_disjoint")
        ctx.true(Scope.all_equal([a, b]) == (eqq and eqe), "all_equal")
    return run


def ternary(n1, n2, n3, ne=0):
    def run(ctx):
        from spflow.meta.data import Scope
        a, q1, v1 = scope(ctx, "a", n1, ne)
        b, q2, v2 = scope(ctx, "b", n2, ne)
        c, q3, v3 = scope(ctx, "c", n3, 0)
        pd = disjoint(q1, q2) and disjoint(q1, q3) and disjoint(q2, q3)
        ctx.true(Scope.all_pairwise_disjoint([a, b, c]) == pd, "all_pairwise_disjoint")
        ctx.true(Scope.all_pairwise_disjoint(iter([a, b, c])) == pd, "all_pairwise_disjoint of an iterator")
        ctx.true(Scope.all_equal([a, b, c]) == (sameset(q1, q2) and sameset(q2, q3) and sameset(v1, v2) and sameset(v2, v3)), "all_equal")
        j = Scope.join_all([a, b, c])
        q = q1 + q2 + q3
        ctx.true(sameset(list(j.query), q) and nodup(list(j.query)), "join_all query")
        ctx.true(sameset(list(j.evidence), [x for x in v1 + v2 if not has(q, x)]), "join_all evidence")
        ctx.true(a.join(b).join(c) == a.join(b.join(c)), "join associates")
    return run


def remove(n, ne):
    def run(ctx):
        from spflow.meta.data import Scope
        a, q, e = scope(ctx, "a", n, ne)
        x = ctx.integer("x")
        try:
            r = a.remove_from_query(x)
        except ValueError:
            r = None
        if not has(q, x):
            ctx.true(r is None, "removing an absent variable is rejected")
            return
        if n == 1 and ne:
            ctx.true(r is None, "an evidence-only scope is rejected")
            return
        ctx.true(r is not None, "removing a present variable")
        if r is not None:
            rest = [y for y in q if not y == x]
            ctx.true(len(r.query) == len(rest) and all(u == w for u, w in zip(r.query, rest)), "remaining query in order")
            ctx.true(sameset(list(r.evidence), e), "evidence kept")
            ctx.true(len(a.query) == n and all(u == w for u, w in zip(a.query, q)), "original unchanged")
    return run


def containers(ctx):
    """every accepted container yields the same scope as the list of its integers"""
    from spflow.meta.data import Scope
    from spflow.exceptions import InvalidParameterError
    a, b = ctx.integer("a"), ctx.integer("b")
    ctx.assume_all = None
    if a < 0 or b < 0 or a == b or a > 4 or b > 4:
        ctx.assume(False)
    x, y = int(a), int(b)
    want = Scope([x, y])
    from torch.utils._python_dispatch import _disable_current_modes
    with _disable_current_modes():
        for n, v in (("tuple", (x, y)), ("ndarray", np.array([x, y])), ("tensor", torch.tensor([x, y])), ("generator", (i for i in (x, y))), ("set", {x, y})):
            s = Scope(v)
            ctx.true(s == want, f"{n} equals the list")
            ctx.true(hash(s) == hash(want), f"{n} hashes like the list")
            ctx.true(s.join(Scope([x])) == want, f"{n} joins like the list")
            ctx.true(not s.isdisjoint(Scope([y])), f"{n} intersects like the list")
        for n, v in (("list", [x, x]), ("ndarray", np.array([x, x])), ("tensor", torch.tensor([x, x]))):
            ctx.raises((InvalidParameterError, ValueError), lambda v=v: Scope(v), f"{n} with duplicates is rejected")
        for n, v in (("ndarray", np.array([x])), ("tensor", torch.tensor([x]))):
            ctx.raises((InvalidParameterError, ValueError), lambda v=v: Scope([x, y], v), f"overlapping {n} evidence is rejected")
        ctx.true(Scope(range(x, x + 2)) == Scope([x, x + 1]), "range")


CASES = [Case(f"construct:{how}:{q}|{e}", construct(q, e, how), max_paths=8000) for how in ("list", "tuple", "iter", "array")
         for q, e in ((0, 0), (0, 1), (1, 0), (2, 0), (3, 0), (1, 1), (2, 1), (1, 2), (2, 2), (3, 2)) if how == "list" or (q, e) in ((2, 1), (3, 0))]
CASES += [Case(f"binary:{a}|{b} {c}|{d}", binary(a, b, c, d), max_paths=8000, timeout=600, tier="thorough" if a + b + c + d == 6 and a != 2 else "quick") for a, b, c, d in
          ((0, 0, 1, 0), (1, 0, 1, 0), (2, 0, 2, 0), (3, 0, 2, 0), (3, 0, 3, 0), (1, 1, 1, 1), (2, 1, 1, 1), (2, 1, 2, 1), (2, 2, 1, 1), (1, 2, 1, 2))]
CASES += [Case(f"ternary:{a},{b},{c}|{e}", ternary(a, b, c, e), max_paths=8000) for a, b, c, e in ((1, 1, 1, 0), (2, 1, 2, 0), (2, 2, 1, 0), (1, 1, 1, 1))]
CASES += [Case(f"remove:{a}|{b}", remove(a, b), max_paths=8000) for a, b in ((1, 0), (1, 1), (2, 0), (3, 0), (2, 1))]
CASES += [Case("containers", containers, max_paths=8000, witnesses=6)]
