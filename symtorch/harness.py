"""Case harness: one harness function is executed (a) symbolically over the real code and (b) numerically
on the real code (reachability witness, translator validation and counterexample replay)."""
from __future__ import annotations
import math
import random
import sys
import time
import traceback
from fractions import Fraction
import numpy as np
import torch
import z3
from . import sym, explore
from .sym import S, R, B, Lazy, Unsupported
from .tensor import SymTensor, SymMode, obj, OPLOG, to_elem_scalar
from .explore import Explorer, STATS, solve, PathLimit, Infeasible

torch.set_num_threads(1)


class SkipEnv(BaseException):
    pass


class Violation(Exception):
    pass


def default_value(rng, kind):
    if kind == "pos":
        return Fraction(rng.randint(2, 40), 10)
    if kind == "real":
        v = Fraction(rng.randint(-20, 20), 10)
        return v if v != 0 else Fraction(3, 10)
    if kind == "unit":
        return Fraction(rng.randint(1, 19), 20)
    if kind == "int":
        return Fraction(rng.randint(-1, 4))
    raise ValueError(kind)


class SymI(int):
    """a python int whose value is symbolic: comparisons fork, hashing identifies equal values, int() enumerates -2..7"""
    def __new__(cls, r):
        o = int.__new__(cls, 0)
        o.r = r
        o.k = str(r)
        return o

    def _r(o):
        return o.r if isinstance(o, SymI) else Fraction(int(o))

    def _cmp(self, o):
        """-1, 0, 1 (equality is decided first, then the order), memoised per path"""
        if o is self:
            return 0
        ex = S.explorer
        if getattr(ex, "_symi_run", None) is not ex.pcids:
            ex._symi_run, ex._symi = ex.pcids, {}
        a, b = self.r, SymI._r(o)
        k = (self.k, o.k if isinstance(o, SymI) else int(o))
        if k not in ex._symi:
            if k[::-1] in ex._symi:
                return None if ex._symi[k[::-1]] is None else -ex._symi[k[::-1]]
            ex._symi[k] = 0 if bool(sym.eq(a, b)) else None
        return ex._symi[k]

    def _ord(self, o):
        r = self._cmp(o)
        if r is None:
            a, b = self.r, SymI._r(o)
            r = -1 if bool(sym.lt(a, b)) else 1
            kb = o.k if isinstance(o, SymI) else int(o)
            S.explorer._symi[(self.k, kb)] = r
            S.explorer._symi.pop((kb, self.k), None)
        return r

    def __eq__(self, o):
        return self._cmp(o) == 0 if isinstance(o, int) else NotImplemented

    def __ne__(self, o):
        return not self == o

    def __lt__(self, o):
        return self._ord(o) < 0

    def __le__(self, o):
        return self._ord(o) <= 0

    def __gt__(self, o):
        return self._ord(o) > 0

    def __ge__(self, o):
        return self._ord(o) >= 0

    def __bool__(self):
        return not self == 0

    def __hash__(self):
        reps = S.explorer.__dict__.setdefault("_hashreps", [])
        if getattr(S.explorer, "_hashrun", None) is not S.explorer.pcids:
            S.explorer._hashrun = S.explorer.pcids
            reps.clear()
        for i, x in enumerate(reps):
            if x is self or x == self:
                return 7919 * (i + 1)
        reps.append(self)
        return 7919 * len(reps)

    def __index__(self):
        for v in range(-2, 8):
            if self == v:
                return v
        raise Infeasible()
    __int__ = __index__

    def __repr__(self):
        return f"<{self.r}>"
    __str__ = __repr__


def _lexp(a):
    if isinstance(a, float):
        return sym.F0 if a == -math.inf else a
    return g_exp(a)


class Ctx:
    """execution context handed to a harness function"""

    def __init__(self, symbolic, env=None, rng=None, seed=0):
        self.symbolic = symbolic
        self.env = env if env is not None else {}
        self.rng = rng or random.Random(0)
        self.seed = seed
        self.obls = []
        self.viol = []
        self.vals_num = {}
        self.assumes = []
        self.decl = {}
        self.tol = 1e-7
        self.covered = set()
        self.notes = []
        self.check_exists = False

    # ---------------------------------------------------------------- variables
    def var(self, name, kind="pos"):
        self.decl[name] = kind
        if self.symbolic:
            return sym.sym(name, pos=kind in ("pos", "unit"))
        if name not in self.env:
            self.env[name] = default_value(self.rng, kind)
        v = float(self.env[name])
        if kind in ("pos", "unit") and v <= 0:
            raise SkipEnv()
        return v

    def pos(self, name):
        return self.var(name, "pos")

    def real(self, name):
        return self.var(name, "real")

    def unit(self, name):
        """0 < v < 1, as e/(1+e)"""
        e = self.var(name, "pos")
        return e / (1 + e)

    def integer(self, name):
        """python integer with a symbolic value (arbitrary sign)"""
        if self.symbolic:
            self.decl[name] = "int"
            r = sym.sym(name, pos=False)
            S.explorer._assume(z3.IsInt(sym.znumden(r)[0]))
            return SymI(r)
        v = self.var(name, "int")
        if v != int(v):
            raise SkipEnv()
        return int(v)

    def simplex(self, name, k):
        es = [self.var(f"{name}[{i}]", "pos") for i in range(k)]
        if self.symbolic:
            t = sym.add_many(es)
            return [sym.div(e, t) for e in es]
        t = sum(es)
        return [e / t for e in es]

    def simplex_norm(self, name, k):
        """simplex with k-1 free variables and last = 1 - rest (no denominators)"""
        if k == 1:
            return [self.c(1)]
        if self.symbolic:
            es = [self.var(f"{name}[{i}]", "pos") for i in range(k - 1)]
            for i in range(k - 1):
                S.norm_vars[f"{name}[{i}]"] = k - 1
            last = sym.sub(sym.F1, sym.add_many(es))
            sym.assume_pos(last)
            return es + [last]
        es = []
        for i in range(k):
            n = f"{name}[{i}]"
            if i < k - 1:
                if n not in self.env:
                    self.env[n] = Fraction(self.rng.randint(1, 9), 10 * (k - 1))
                self.decl[n] = "pos"
                es.append(float(self.env[n]))
        last = 1.0 - sum(es)
        if last <= 1e-9:
            raise SkipEnv()
        return es + [last]

    def c(self, x):
        """concrete constant"""
        return sym.num(x) if self.symbolic else float(x)

    # ---------------------------------------------------------------- tensors
    def tensor(self, nested, dtype=None):
        """scalars (nested lists / object arrays) -> tensor"""
        dtype = dtype or torch.float64
        a = np.array(nested, dtype=object) if not isinstance(nested, np.ndarray) else nested
        if self.symbolic:
            e = np.empty(a.shape, dtype=object)
            for ix in np.ndindex(*a.shape):
                e[ix] = to_elem_scalar(a[ix], dtype) if not isinstance(a[ix], (R, Lazy, B)) else a[ix]
            return SymTensor(e, dtype)
        return torch.tensor(a.astype(np.float64).tolist(), dtype=dtype).reshape(a.shape)

    def fill(self, shape, f, dtype=None):
        e = np.empty(tuple(shape), dtype=object)
        for ix in np.ndindex(*e.shape):
            e[ix] = f(ix)
        return self.tensor(e, dtype)

    def vals(self, t):
        """tensor -> object array of scalars"""
        if isinstance(t, SymTensor):
            e = t.elem
            o = np.empty(e.shape, dtype=object)
            for ix in np.ndindex(*e.shape):
                v = e[ix]
                o[ix] = v if isinstance(v, (R, float, Fraction, Lazy, B, bool)) else (sym.num(v) if not isinstance(v, bool) else v)
            return o
        a = t.detach().cpu()
        if a.dtype == torch.bool:
            n = a.numpy()
            o = np.empty(n.shape, dtype=object)
            for ix in np.ndindex(*n.shape):
                o[ix] = bool(n[ix])
            return o
        n = a.double().numpy()
        o = np.empty(n.shape, dtype=object)
        for ix in np.ndindex(*n.shape):
            o[ix] = float(n[ix])
        return o

    def symbolize(self, module, prefix="", kinds=None, norm=False, buffers=()):
        """replace every parameter of a (concretely constructed) module by symbolic / assigned values.
        kinds: callable(modname, module, pname, param) -> 'logpos' | 'real' | 'keep' | 'logsimplex' | 'pos'"""
        seen = {}
        for mn, mod in module.named_modules():
            for pn, p in list(mod._parameters.items()):
                if p is None:
                    continue
                if id(p) in seen:
                    mod._parameters[pn] = seen[id(p)]
                    continue
                kind = kinds(mn, mod, pn, p) if kinds else None
                if kind is None:
                    kind = default_kind(mod, pn, norm)
                nm = f"{prefix}{mn}.{pn}"
                if kind == "keep":
                    from .tensor import wrap as _wrap
                    e = _wrap(p.detach()) if self.symbolic else p
                else:
                    e = self.fill_kind(tuple(p.shape), kind, nm, p.dtype)
                if self.symbolic:
                    q = torch.nn.Parameter(e, requires_grad=p.requires_grad)
                else:
                    q = torch.nn.Parameter(e.detach().clone(), requires_grad=p.requires_grad)
                seen[id(p)] = q
                mod._parameters[pn] = q
            for bn in list(mod._buffers):
                b = mod._buffers[bn]
                if b is None:
                    continue
                if self.symbolic and not isinstance(b, SymTensor):
                    from .tensor import wrap
                    mod._buffers[bn] = wrap(b)
        return module

    def fill_kind(self, shape, kind, nm, dtype=torch.float64):
        if kind == "logpos":
            return self.fill(shape, lambda ix: g_log(self.pos(nm + str(list(ix)))), dtype)
        if kind == "logconst":      # fixed generic values log(k), k in 1..29
            st, n = sum(map(ord, nm)), [0]

            def nxt(ix):
                n[0] += 1
                return g_log(self.c(Fraction(1 + (7 * n[0] * n[0] + 3 * n[0] + st) % 29)))
            return self.fill(shape, nxt, dtype)
        if kind == "logprime":      # fixed values log(prime), pairwise different within a tensor of up to 48 entries
            pr = [p for p in range(2, 230) if all(p % q for q in range(2, p))][:48]
            st, n = sum(map(ord, nm)), [0]

            def nxt(ix):
                n[0] += 1
                return g_log(self.c(Fraction(pr[(5 * n[0] + st) % 48])))
            return self.fill(shape, nxt, dtype)
        if isinstance(kind, tuple) and kind[0] == "some":     # chunk k of n symbolic, the other entries generic constants
            _, k, n = kind
            cst = np.empty(shape, dtype=object)
            st, sz = sum(map(ord, nm)), int(np.prod(shape))
            for j, ix in enumerate(np.ndindex(*shape)):
                cst[ix] = None if j * n // sz == k else g_log(self.c(Fraction(1 + (7 * j * j + 3 * j + st) % 29)))
            return self.fill(shape, lambda ix: g_log(self.pos(nm + str(list(ix)))) if cst[ix] is None else cst[ix], dtype)
        if kind == "pos":
            return self.fill(shape, lambda ix: self.pos(nm + str(list(ix))), dtype)
        if kind == "real":
            return self.fill(shape, lambda ix: self.real(nm + str(list(ix))), dtype)
        if kind in ("logsimplex", "simplex") or isinstance(kind, tuple):
            ax = -1
            if isinstance(kind, tuple):
                kind, ax = kind
            e = np.empty(shape, dtype=object)
            m = np.moveaxis(e, ax, -1)
            for ix in np.ndindex(*m.shape[:-1]):
                w = self.simplex_norm(f"{nm}{list(ix)}", m.shape[-1])
                for j, x in enumerate(w):
                    m[ix + (j,)] = g_log(x) if kind == "logsimplex" else x
            return self.tensor(e, dtype)
        raise ValueError(kind)

    # ---------------------------------------------------------------- obligations
    def eq(self, a, b, label):
        if self.symbolic:
            self.obls.append(("eq", a, b, label))
            return
        a, b = float(a), float(b)
        self.vals_num[label] = (a, b)
        if not close(a, b, self.tol):
            self.viol.append((label, f"{a!r} != {b!r}"))

    def eqlog(self, a, b, label):
        """a, b log-domain scalars; equality of exp(a), exp(b)"""
        if self.symbolic:
            self.obls.append(("eq", _lexp(a), _lexp(b), label))
            return
        self.vals_num[label] = (math.exp(a) if a < 700 else a, math.exp(b) if b < 700 else b)
        if not close(float(a), float(b), self.tol):
            self.viol.append((label, f"{a!r} != {b!r} (log)"))

    def exists(self, pairs, label):
        """some input makes at least one pair of log-domain values differ"""
        if self.symbolic:
            self.obls.append(("exists", [(_lexp(a), _lexp(b)) for a, b in pairs], None, label))
            return
        if self.check_exists and all(close(float(a), float(b), 1e-9) for a, b in pairs):
            self.viol.append((label, "no difference at a generic input"))

    def le(self, a, b, label):
        if self.symbolic:
            self.obls.append(("true", sym.le(_nn(a), _nn(b)), (a, b), label))
            return
        if not (float(a) <= float(b) + self.tol * (1 + abs(float(b)))):
            self.viol.append((label, f"not {a!r} <= {b!r}"))

    def lt_(self, a, b, label):
        if self.symbolic:
            self.obls.append(("true", sym.lt(_nn(a), _nn(b)), (a, b), label))
            return
        if not (float(a) < float(b)):
            self.viol.append((label, f"not {a!r} < {b!r}"))

    def true(self, cond, label, info=""):
        if self.symbolic:
            self.obls.append(("true", cond, None, label))
            return
        if not cond:
            self.viol.append((label, f"condition false {info}"))

    def assume(self, cond):
        if self.symbolic:
            if cond is True:
                return
            if cond is False:
                raise Infeasible()
            S.explorer._assume(cond.z)
            return
        if not cond:
            raise SkipEnv()

    def raises(self, exc, f, label):
        try:
            f()
        except exc:
            self.true(True, label)
            return
        self.true(False, label, "no exception")

    # ---------------------------------------------------------------- laws of sampling procedures
    def law(self, run, n_mc=20000):
        """run(n) -> sample tensor for n identical rows.  symbolic: list of (prob, pc, elem array) for one row;
        numeric: list of (frequency, [], array) over n_mc rows"""
        if self.symbolic:
            outer = S.explorer
            inner = Explorer(assumptions=outer.assumptions + outer.pc, max_paths=3000, deadline=getattr(outer, "deadline", None))
            paths = inner.run(lambda: run(1))
            res = []
            for p in paths:
                if p.error is not None:
                    raise p.error
                res.append((p.prob, p.pc, resolve_elem(p.result, p.forced), p))
            return Law(self, res, inner)
        torch.manual_seed(self.seed + 17)
        t = run(n_mc)
        return Law(self, t, None)


def _nn(x):
    return x if isinstance(x, (R, float, Fraction)) else sym.num(x)


def resolve_elem(t, forced):
    e = t.elem if isinstance(t, SymTensor) else t
    o = np.empty(e.shape, dtype=object)
    for ix in np.ndindex(*e.shape):
        v = e[ix]
        if isinstance(v, Lazy) and v.uid in forced:
            v = Fraction(forced[v.uid])
        elif isinstance(v, (int, bool)) and not isinstance(v, Lazy):
            v = Fraction(int(v))
        o[ix] = v
    return o


class Law:
    """distribution over discrete outcomes of the first row of a sampled tensor"""

    def __init__(self, ctx, data, inner):
        self.ctx = ctx
        self.data = data
        self.inner = inner

    def prob(self, outcome, cols=None):
        """probability that columns `cols` equal outcome"""
        ctx = self.ctx
        if ctx.symbolic:
            tot = []
            self.last_pcs = []
            for prob, pc, e, p in self.data:
                row = e[0] if e.ndim == 2 else e.reshape(-1)
                pr = prob
                seen = {}
                ok = True
                for j, v in zip(cols if cols is not None else range(len(row)), outcome):
                    x = row[j]
                    if isinstance(x, Lazy):
                        if x.uid in seen:
                            ok = seen[x.uid] == v
                        else:
                            seen[x.uid] = v
                            if v in x.dom:
                                if x.conds is not None:
                                    raise Unsupported("unforced argmax in output")
                                pr = sym.mul(pr, x.weights[x.dom.index(v)])
                            else:
                                ok = False
                    elif isinstance(x, float):
                        ok = False
                    elif isinstance(x, Fraction):
                        ok = x == v
                    else:
                        raise Unsupported("continuous outcome in discrete law")
                    if not ok:
                        break
                if ok:
                    tot.append((pr, pc))
            if any(pc for _, pc in tot):
                return Cases(tot)
            return sym.add_many([p for p, _ in tot]) if tot else sym.F0
        t = self.data
        m = torch.ones(t.shape[0], dtype=torch.bool)
        for j, v in zip(cols if cols is not None else range(t.shape[1]), outcome):
            m &= (t[:, j] == float(v))
        return float(m.double().mean())

    def eq_prob(self, outcome, expected, label, cols=None):
        ctx = self.ctx
        p = self.prob(outcome, cols)
        if ctx.symbolic:
            ctx.obls.append(("eq", p, expected, label))
        else:
            n = self.data.shape[0]
            e = float(expected)
            sd = math.sqrt(max(e * (1 - e), 1e-12) / n)
            if abs(p - e) > 6 * sd + 2.0 / n + 1e-9:
                ctx.viol.append((label, f"empirical {p:.4f} vs expected {e:.4f} over {n} draws"))


class Cases:
    """sum of [pc] * prob terms with non-trivial path conditions"""

    def __init__(self, parts):
        self.parts = parts


def default_kind(mod, pn, norm):
    if pn in ("loc",):
        return "real"
    if pn == "log_cpt":
        return ("logsimplex", -2)
    cn = type(mod).__name__
    if cn in ("SignedSum", "SignedCategorical") or pn in ("_weights", "weight", "bias"):
        return "real"
    return "logpos"


def close(a, b, tol):
    if a != a or b != b:
        return a != a and b != b
    if a in (math.inf, -math.inf) or b in (math.inf, -math.inf):
        return a == b
    return abs(a - b) <= tol * (1 + max(abs(a), abs(b)))


# generic scalar functions working on symbolic and float scalars
def g_log(x):
    if isinstance(x, (R, Fraction)) or (type(x) is float and S.mode_symbolic):
        return sym.log(x)
    x = float(x)
    return math.log(x) if x > 0 else (-math.inf if x == 0 else math.nan)


def g_exp(x):
    if isinstance(x, (R, Fraction)) or (type(x) is float and S.mode_symbolic):
        return sym.exp(x)
    return math.exp(x) if x < 709 else math.inf


def g_sum(xs):
    xs = list(xs)
    if S.mode_symbolic:
        return sym.add_many([_nn(x) for x in xs])
    return math.fsum(xs)


def g_prod(xs):
    r = None
    for x in xs:
        r = x if r is None else (sym.mul(_nn(r), _nn(x)) if S.mode_symbolic else r * x)
    return r if r is not None else (sym.F1 if S.mode_symbolic else 1.0)


def g_div(a, b):
    if S.mode_symbolic:
        return sym.div(_nn(a), _nn(b))
    return a / b if b != 0 else (math.nan if a == 0 else math.copysign(math.inf, a))


def g_pow(a, n):
    if S.mode_symbolic:
        return sym.power(_nn(a), Fraction(n))
    return a ** float(n)


def g_max(xs):
    """max with ordering decided by forking"""
    best = None
    for x in xs:
        if best is None:
            best = x
        elif S.mode_symbolic:
            best = x if sym.truth(sym.lt(_nn(best), _nn(x))) else best
        else:
            best = max(best, x)
    return best


def g_lt(a, b):
    """concrete boolean a < b (forks)"""
    if S.mode_symbolic:
        return sym.truth(sym.lt(_nn(a), _nn(b)))
    return a < b


def softmax_list(ls):
    es = [g_exp(l) for l in ls]
    t = g_sum(es)
    return [g_div(e, t) for e in es]


# ------------------------------------------------------------------------------------------------
class CaseResult:
    def __init__(self, name):
        self.name = name
        self.status = "ok"           # ok | violation | inconclusive
        self.violations = []         # dicts(label, detail, env)
        self.inconclusive = []
        self.obligations = 0
        self.discharged = 0
        self.structural = 0
        self.paths = 0
        self.witness = 0
        self.validated = 0
        self.functions = set()
        self.stats = {}
        self.ops = {}
        self.nvars = 0
        self.wall = 0.0
        self.labels = []


_TRACE = set()


def _prof(frame, event, arg):
    if event == "call":
        co = frame.f_code
        fn = co.co_filename
        i = fn.find("/spflow/")
        if i >= 0 and "/verif/" not in fn:
            _TRACE.add(fn[i + 1:] + ":" + co.co_qualname)


def spflow_exception(e):
    """did the exception originate while executing the code under test (vs. harness/engine code)?"""
    tb = e.__traceback__
    last = ""
    inside = False
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if "/spflow/" in fn and "/verif/" not in fn:
            inside = True
        last = fn
        tb = tb.tb_next
    return inside


def run_numeric(case, env, seed, exists=False):
    rng = random.Random(f"{seed}:{case.name}")
    c = Ctx(False, dict(env), rng, seed)
    c.check_exists = exists
    S.mode_symbolic = False
    S.explorer = None
    torch.manual_seed(seed)
    try:
        case.fn(c)
    except SkipEnv:
        return None
    except Exception as e:  # noqa: BLE001
        if spflow_exception(e):
            c.viol.append(("no-exception", "raised " + "".join(traceback.format_exception_only(type(e), e)).strip()[:400]))
            c.exc = e
        else:
            raise
    return c


def run_case(case, seed=1, deadline=None, validate=True):
    res = CaseResult(case.name)
    t0 = time.time()
    q0 = dict(STATS)
    OPLOG.clear()
    deadline = deadline or (t0 + case.timeout)
    # ---- numeric witnesses on the real code
    wit = []
    for k in range(case.witnesses):
        c = run_numeric(case, {}, seed * 1000 + k)
        if c is None:
            continue
        wit.append(c)
        res.witness += 1
        for label, d in c.viol:
            add_violation(res, label, d, c.env, seed * 1000 + k, "numeric witness")
    # ---- symbolic execution
    sym.reset()
    S.mode_symbolic = True
    S.rootdefs = {}
    ex = Explorer(max_paths=case.max_paths, deadline=deadline)
    _TRACE.clear()
    ctxs = []

    def body():
        c = Ctx(True, {}, random.Random(seed), seed)
        ctxs.append(c)
        S.simplex_assumptions = getattr(S, "simplex_assumptions", {})
        torch.manual_seed(seed)
        with SymMode():
            case.fn(c)
        return c

    sys.setprofile(_prof)
    try:
        paths = ex.run(body)
    except Unsupported as e:
        sys.setprofile(None)
        tbs = traceback.extract_tb(e.__traceback__)
        where = [f"{f.filename.split('/')[-1]}:{f.lineno}" for f in tbs if "/spflow/" in f.filename][-2:]
        res.inconclusive.append(("*", f"engine: {e} at {where}"))
        paths = []
    except PathLimit as e:
        sys.setprofile(None)
        res.inconclusive.append(("*", f"path limit {e}"))
        paths = []
    finally:
        sys.setprofile(None)
    res.functions = set(_TRACE)
    res.paths = len(paths)
    if paths == [] and not res.inconclusive:
        res.inconclusive.append(("*", "no feasible path (vacuous)"))
    # ---- decide
    done = {}
    for p in paths:
        if p.error is not None:
            e = p.error
            res.obligations += 1
            if not spflow_exception(e):
                raise e
            envs = candidate_envs(ctxs, p.pc, seed)
            ok = False
            for env in envs:
                c = run_numeric(case, env, seed)
                if c is not None and c.viol:
                    for label, d in c.viol:
                        add_violation(res, label, d, c.env, seed, "symbolic path raises: replayed")
                    ok = True
                    break
            if not ok:
                res.inconclusive.append(("no-exception", f"symbolic path raised {type(e).__name__}: {str(e)[:200]} (not reproduced)"))
            continue
        c = p.result
        res.nvars = max(res.nvars, len(c.decl))
        for ob in c.obls:
            if time.time() > deadline:
                res.inconclusive.append((ob[3], "time budget"))
                break
            key = (ob[0], _k(ob[1]), _k(ob[2]), tuple(z.get_id() for z in p.pc))
            if key in done:
                res.obligations += 1
                res.discharged += 1
                continue
            res.obligations += 1
            v = decide(case, c, ob, p, seed, res, deadline)
            if v == "ok":
                res.discharged += 1
                done[key] = True
    # ---- translator validation: symbolic obligations evaluated at the witness assignment vs real outputs
    if validate and wit:
        w = wit[0]
        env = {k: float(v) for k, v in w.env.items()}
        for p in paths:
            if p.error is not None or not pc_holds(p.pc, w.env):
                continue
            memo = {}
            for ob in p.result.obls:
                if ob[0] != "eq" or ob[3] not in w.vals_num:
                    continue
                a = ob[1]
                try:
                    if isinstance(a, (Lazy, B, Cases)):
                        continue
                    x = sym.evalf(_nn(a), env, memo)
                except Exception:  # noqa: BLE001
                    continue
                y = w.vals_num[ob[3]][0]
                if close(x, y, 1e-5):
                    res.validated += 1
                elif not any(v["label"] == ob[3] for v in res.violations):
                    res.inconclusive.append((ob[3], f"translator validation mismatch: symbolic {x} real {y}"))
            break
    res.stats = {k: STATS[k] - q0.get(k, 0) for k in STATS}
    res.ops = dict(OPLOG)
    res.wall = time.time() - t0
    if res.violations:
        res.status = "violation"
    elif res.inconclusive:
        res.status = "inconclusive"
    return res


def _k(x):
    if isinstance(x, R):
        return ("R", x.coef, x.fac)
    if isinstance(x, (Fraction, bool, int)):
        return x
    if isinstance(x, B):
        return ("B", x.z.get_id())
    return id(x)


def add_violation(res, label, detail, env, seed, how):
    for v in res.violations:
        if v["label"] == label:
            if v["how"] == "numeric witness" and how != v["how"]:
                v.update(detail=detail, env={k: str(x) for k, x in env.items()}, seed=seed, how=how)
            return
    res.violations.append({"label": label, "detail": detail, "env": {k: str(v) for k, v in env.items()}, "seed": seed, "how": how})


def pc_holds(pc, env):
    if not pc:
        return True
    subs = []
    for b, z in list(S.z3cache.items()):
        if isinstance(b, sym.Atom) and b.kind == "sym" and b.name in env:
            subs.append((z, sym._zq(Fraction(env[b.name]))))
    for c in pc:
        r = z3.simplify(z3.substitute(c, *subs))
        if z3.is_false(r):
            return False
        if not z3.is_true(r):
            return False
    return True


def _model_env(m, ctxs):
    env = {}
    for b, z in list(S.z3cache.items()):
        if isinstance(b, sym.Atom) and b.kind == "sym" and not b.name.startswith("$"):
            v = m.eval(z, model_completion=False)
            if z3.is_rational_value(v):
                env[b.name] = Fraction(v.numerator_as_long(), v.denominator_as_long())
            elif z3.is_algebraic_value(v):
                a = v.approx(12)
                env[b.name] = Fraction(a.numerator_as_long(), a.denominator_as_long())
    return env


def candidate_envs(ctxs, pc, seed, n=4, extra=()):
    """assignments satisfying the path condition: seeded random ones first, then solver models"""
    decl = {}
    for c in ctxs:
        decl.update(c.decl)
    outl = []
    rng = random.Random(seed * 7919)
    tries = 40 if pc else n
    for _ in range(tries):
        env = {}
        for k, kind in decl.items():
            if k.endswith("]") and k in S.norm_vars:
                env[k] = Fraction(rng.randint(1, 9), 10 * S.norm_vars[k])
            else:
                env[k] = default_value(rng, kind)
        if pc_holds(pc, env):
            outl.append(env)
        if len(outl) >= n:
            break
    base = list(pc) + list(extra)
    if base and (len(outl) < n or extra):
        bounds = []
        for b, z in list(S.z3cache.items()):
            if isinstance(b, sym.Atom) and b.kind == "sym" and not b.name.startswith("$"):
                bounds += ([z >= z3.Q(1, 8), z <= 8] if b.pos else [z >= -8, z <= 8])
        for bb in (bounds, []):
            r, m = solve(base + S.simplex_list + bb, 5000, want_model=True)
            if r == "sat":
                e = _model_env(m, ctxs)
                outl.append(e)
                break
    return outl


def decide(case, c, ob, p, seed, res, deadline):
    kind, a, b, label = ob
    pc = p.pc + S.simplex_list
    if kind == "eq":
        if isinstance(a, Cases):
            q = cases_neq(a, b)
        else:
            if isinstance(a, bool) or isinstance(b, bool) or isinstance(a, B) or isinstance(b, B):
                e = sym.eq(a, b)
                q = z3.BoolVal(not e) if isinstance(e, bool) else z3.Not(e.z)
            else:
                a, b = _forced(a, p), _forced(b, p)
                if isinstance(a, float) or isinstance(b, float):
                    same = isinstance(a, float) and isinstance(b, float) and (a == b or (a != a and b != b))
                    q = z3.BoolVal(not same)
                else:
                    if same_struct(a, b):
                        res.structural += 1
                    q = neq_query(a, b)
    elif kind == "exists":
        r = "unsat"
        for x, y in a:
            if isinstance(x, float) or isinstance(y, float):
                if x != y:
                    return "ok"
                continue
            pins = []
            for env in candidate_envs([c], p.pc, seed, n=1)[:1]:
                pins = [z == sym._zq(env[bb.name]) for bb, z in list(S.z3cache.items()) if isinstance(bb, sym.Atom) and bb.kind == "sym" and bb.name in env]
            q = neq_query(x, y)
            r1 = "unsat"
            for extra in (pins, []):
                r1, _ = solve(pc + [q] + extra, case.solver_ms)
                if r1 == "sat":
                    return "ok"
            if r1 == "unknown":
                r = "unknown"
        if r == "unknown":
            res.inconclusive.append((label, "solver unknown"))
            return "unknown"
        for env in candidate_envs([c], p.pc, seed + 1, n=2):
            n = run_numeric(case, env, seed, exists=True)
            if n is not None and any(v[0] == label for v in n.viol):
                hit = [v for v in n.viol if v[0] == label]
                add_violation(res, hit[0][0], hit[0][1], n.env, seed, "solver: never differs; replayed on the real code")
                return "violated"
        res.inconclusive.append((label, "solver counterexample did not reproduce on the real code"))
        return "spurious"
    else:
        if isinstance(a, B):
            q = z3.Not(a.z)
        elif a is True:
            return "ok"               # decided by the path condition (every branch above was a solver verdict)
        else:
            q = z3.BoolVal(not bool(a))
    # quick refutation candidates first: numeric evaluation
    cand = []
    if kind == "eq" and not isinstance(a, (Cases, float, bool, B)) and not isinstance(b, (float, bool, B)):
        for env in candidate_envs([c], p.pc, seed, n=2):
            fe = {k: float(v) for k, v in env.items()}
            try:
                x, y = sym.evalf(a, fe), sym.evalf(b, fe)
            except Exception:  # noqa: BLE001
                continue
            if not close(x, y, 1e-6) and x == x and y == y:
                cand.append(env)
    r = None
    if cand:
        # confirm with the solver at the pinned assignment
        pins = []
        for bb, z in list(S.z3cache.items()):
            if isinstance(bb, sym.Atom) and bb.kind == "sym" and bb.name in cand[0]:
                pins.append(z == sym._zq(cand[0][bb.name]))
        r, m = solve(pc + [q] + pins, 5000, want_model=True)
        if r == "unsat":
            cand = []
            r = None
        else:
            r = "sat"
    if r is None:
        tmo = int(max(1000, min(case.solver_ms, (deadline - time.time()) * 1000)))
        r, m = solve(pc + [q], tmo, want_model=True)
        if r == "unsat":
            return "ok"
        if r == "sat":
            cand.append(_model_env(m, [c]))
    if r == "unknown":
        res.inconclusive.append((label, "solver unknown"))
        return "unknown"
    envs = cand + candidate_envs([c], p.pc, seed + 1, n=2, extra=[q])
    for env in envs:
        n = run_numeric(case, env, seed)
        if n is not None and n.viol:
            hit = [v for v in n.viol if v[0] == label] or n.viol
            add_violation(res, hit[0][0], hit[0][1], n.env, seed, "solver counterexample replayed on the real code")
            return "violated"
    if kind == "eq" and isinstance(a, (R, Fraction)) and isinstance(b, (R, Fraction)):
        try:
            if all(close(sym.evalf(a, fe), sym.evalf(b, fe), 1e-6) for fe in ({k: float(v) for k, v in env.items()} for env in envs)):
                res.inconclusive.append((label, "solver model not realisable: both sides agree under the exact log/exp (uninterpreted in the query)"))
                return "unknown"
        except Exception:  # noqa: BLE001
            pass
    res.inconclusive.append((label, "solver counterexample did not reproduce on the real code"))
    return "spurious"


def _forced(x, p):
    if isinstance(x, Lazy):
        if x.uid in p.forced:
            return Fraction(p.forced[x.uid])
        raise Unsupported("unresolved lazy in obligation")
    return _nn(x)


def same_struct(a, b):
    return type(a) is type(b) and a == b


def neq_query(a, b):
    d = sym.sub(a, b)
    if isinstance(d, R) and sym.is_loglinear(d) and not (isinstance(a, Fraction) and isinstance(b, Fraction)):
        a, b = sym.exp(a), sym.exp(b)
    # remove common structure only through cross multiplication; the solver decides the polynomial identity
    common = {}
    if isinstance(a, R) and isinstance(b, R):
        da, db = dict(a.fac), dict(b.fac)
        for k in set(da) & set(db):
            if k.pos:
                m = min(da[k], db[k])
                common[k] = m
        if common:
            inv = sym.mk(sym.F1, {k: -m for k, m in common.items()})
            a, b = sym.mul(a, inv), sym.mul(b, inv)
    na, dna = sym.znumden(a)
    nb, dnb = sym.znumden(b)
    l = na if dnb is None else na * dnb
    r = nb if dna is None else nb * dna
    t = z3.simplify(l - r, som=True, flat=True)
    return t != 0


def cases_neq(a, b):
    tot = z3.RealVal(0)
    for pr, pc in a.parts:
        n, d = sym.znumden(pr)
        v = n if d is None else n / d
        tot = tot + z3.If(z3.And(*pc) if pc else z3.BoolVal(True), v, z3.RealVal(0))
    n, d = sym.znumden(_nn(b))
    return tot != (n if d is None else n / d)


class Case:
    def __init__(self, name, fn, timeout=100, witnesses=2, max_paths=600, solver_ms=20000, tier="quick", weight=1, mem=6):
        self.name, self.fn, self.timeout, self.witnesses, self.max_paths = name, fn, timeout, witnesses, max_paths
        self.solver_ms, self.tier, self.weight, self.mem = solver_ms, tier, weight, mem
