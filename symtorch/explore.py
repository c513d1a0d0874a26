"""Path explorer: re-executes a deterministic function, forking on symbolic decisions."""
from __future__ import annotations
import time
import z3
from fractions import Fraction
from . import sym
from .sym import S, Lazy, B, Unsupported

STATS = {"queries": 0, "solver_s": 0.0, "unknown": 0, "paths": 0, "infeasible": 0}


class PathLimit(BaseException):
    pass


def solve(assertions, timeout_ms=10000, want_model=False):
    """check conjunction of assertions with their variable constraints -> 'sat'/'unsat'/'unknown', model"""
    cons = sym.zvars_constraints(assertions)
    t0 = time.time()
    s = z3.Tactic("qfnra-nlsat").solver() if False else z3.Solver()
    s.set("timeout", timeout_ms)
    s.add(*assertions)
    s.add(*cons)
    r = s.check()
    STATS["queries"] += 1
    STATS["solver_s"] += time.time() - t0
    if r == z3.unknown:
        STATS["unknown"] += 1
    return str(r), (s.model() if r == z3.sat and want_model else None)


class Path:
    __slots__ = ("pc", "prob", "forced", "result", "error", "lazies", "tags")


class Explorer:
    def __init__(self, assumptions=(), max_paths=4000, feas_timeout_ms=3000, deadline=None):
        self.assumptions = list(assumptions)
        self.max_paths = max_paths
        self.feas_timeout_ms = feas_timeout_ms
        self.deadline = deadline
        self._feas = {}
        self.begin([])

    def begin(self, prefix):
        self.prefix = prefix
        self.trace = []           # (choice, [remaining alternatives])
        self.pc = []
        self.pcids = {}
        self.prob = sym.F1
        self.forced = {}
        self.uid = 0
        self.cont = 0             # continuous noise counter
        self.lazies = {}

    # -- lazies
    def new_lazy(self, dom, weights=None, conds=None, tag=""):
        z = Lazy(self.uid, dom, weights, conds, tag)
        self.uid += 1
        self.lazies[z.uid] = z
        return z

    def noise(self, kind):
        self.cont += 1
        return sym.of_base(sym.atom("sym", f"${kind}{self.cont}", (), pos=(kind == "U")))

    def _feasible(self, z):
        key = (tuple(sorted(a.get_id() for a in self.pc)), z.get_id())
        r = self._feas.get(key)
        if r is None:
            r, _ = solve(self.assumptions + self.pc + [z], self.feas_timeout_ms)
            self._feas[key] = r
            self._keep = getattr(self, "_keep", [])
            self._keep += [z] + self.pc
        if r == "unsat":
            STATS["infeasible"] += 1
        return r != "unsat"

    def _assume(self, z):
        self.pc.append(z)
        self._note(z)

    def _note(self, z):
        nz = z3.simplify(z3.Not(z))
        self._k2 = getattr(self, "_k2", [])
        self._k2 += [z, nz]         # ids are only unique among live expressions
        self.pcids[z.get_id()] = True
        self.pcids[nz.get_id()] = False

    def decide(self, b: B) -> bool:
        k = self.pcids.get(b.z.get_id())
        if k is not None:
            return k
        pos = len(self.trace)
        if pos < len(self.prefix):
            choice, imp = self.prefix[pos]
            self.trace.append((choice, None if imp else []))
        else:
            ft = self._feasible(b.z)
            nz = z3.simplify(z3.Not(b.z))
            ff = self._feasible(nz) if ft else True
            if ft and ff:
                choice, alts = True, [False]
            else:
                choice, alts = ft, None       # implied by the path condition
            self.trace.append((choice, alts))
        z = b.z if choice else z3.simplify(z3.Not(b.z))
        if self.trace[pos][1] is None:
            self._note(z)
        else:
            self._assume(z)
        return choice

    def force(self, lz: Lazy):
        if lz.uid in self.forced:
            return self.forced[lz.uid]
        pos = len(self.trace)
        if pos < len(self.prefix):
            choice = self.prefix[pos][0]
            self.trace.append((choice, []))
        else:
            if lz.conds is not None:
                opts = []
                for v, c in zip(lz.dom, lz.conds):
                    if c is True:
                        opts.append(v)
                    elif c is False:
                        continue
                    elif self._feasible(c.z):
                        opts.append(v)
            else:
                opts = [v for v, w in zip(lz.dom, lz.weights) if not (type(w) is Fraction and w == 0)]
            if not opts:
                raise Infeasible()
            choice = opts[0]
            self.trace.append((choice, opts[1:]))
        i = lz.dom.index(choice)
        if lz.conds is not None:
            if type(lz.conds[i]) is B:
                self._assume(lz.conds[i].z)
        else:
            self.prob = sym.mul(self.prob, lz.weights[i])
        self.forced[lz.uid] = choice
        return choice

    def run(self, fn):
        """yields Path objects for every feasible path"""
        paths = []
        todo = [[]]
        while todo:
            if len(paths) >= self.max_paths or (self.deadline and time.time() > self.deadline):
                raise PathLimit(f"{len(paths)} paths")
            prefix = todo.pop()
            self.begin(prefix)
            old, S.explorer = S.explorer, self
            p = Path()
            p.error = None
            p.result = None
            feasible = True
            try:
                p.result = fn()
            except Infeasible:
                feasible = False
            except Unsupported:
                raise
            except Exception as e:  # noqa: BLE001   real-code exception on this path
                p.error = e
            finally:
                S.explorer = old
            tr = self.trace
            for i in range(len(prefix), len(tr)):
                for alt in tr[i][1] or ():
                    todo.append([(t[0], t[1] is None) for t in tr[:i]] + [(alt, False)])
            if not feasible:
                continue
            STATS["paths"] += 1
            p.pc, p.prob, p.forced, p.lazies = list(self.pc), self.prob, dict(self.forced), dict(self.lazies)
            paths.append(p)
        return paths


class Infeasible(BaseException):
    pass
