"""Symbolic scalars.

A scalar is one of
  * float           only nan / +inf / -inf
  * Fraction        a concrete finite real (int for integer tensors, bool for bool tensors)
  * R               a non-constant symbolic real  coef * prod(base ** exponent)
  * B               a symbolic boolean (z3 term)
  * Lazy            a lazily resolved integer choice (random draw or argmax index)
Bases are hash-consed Atoms or Sums (polynomials over bases).  log/exp are kept exact:
log(prod) is split into log atoms and exp(sum of c*log b) is turned back into prod b**c.
All arithmetic is over the reals (no rounding).
"""
from __future__ import annotations
import itertools
import math
from fractions import Fraction
import z3

NAN = float("nan")
INF = float("inf")
NINF = float("-inf")
EPS_IDEAL = 1e-7  # additive/clamp stabilisers up to this size are idealised to zero
EXPAND_LIMIT = 160

F0, F1 = Fraction(0), Fraction(1)


class Unsupported(BaseException):
    pass


# ----------------------------------------------------------------------------------------------
class _State:
    pass


S = _State()


def reset():
    S.atoms = {}
    S.sums = {}
    S.next_id = 0
    S.z3cache = {}
    S.defs = {}          # z3 definitional constraints per atom
    S.explorer = None
    S.abs = {}
    S.simplex_list = []
    S.signfacts = {}
    S.norm_vars = {}
    S.rootdefs = {}
    S.zleaves, S.zkeep = {}, []
    S.byname, S.byname_n = {}, 0
    S.ideal_floor = None   # constants clamped from below by a positive floor up to this size are idealised to the constant itself
    if not hasattr(S, "mode_symbolic"):
        S.mode_symbolic = True


def assume_pos(r):
    """declare a sum to be positive (documented input assumption)"""
    for b, e in r.fac:
        if type(b) is Sum and not b.pos:
            b.pos = True
            r._pos = None
            S.simplex_list.append(zbase(b) > 0 if r.coef > 0 else zbase(b) < 0)


class Base:
    __slots__ = ("id", "pos", "negd", "key", "_atoms", "_hash")

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o


class Atom(Base):
    __slots__ = ("kind", "name", "args", "meta")

    def __repr__(self):
        if self.kind == "sym":
            return self.name
        return f"{self.kind}:{self.name or ''}({', '.join(map(str, self.args))})"


class Sum(Base):
    __slots__ = ("terms",)

    def __repr__(self):
        return "(" + " + ".join(map(str, self.terms)) + ")"


def _akey(a):
    if isinstance(a, R):
        return ("R", a.coef, a.fac)
    return a


def atom(kind, name=None, args=(), pos=False, meta=None):
    key = (kind, name, tuple(_akey(a) for a in args))
    a = S.atoms.get(key)
    if a is None:
        a = Atom()
        a.kind, a.name, a.args, a.pos, a.key, a.meta = kind, name, tuple(args), pos, key, meta
        a._atoms = None
        a.negd = False
        a.id = S.next_id
        S.next_id += 1
        S.atoms[key] = a
    return a


class R:
    """coef * prod(base**exp); never constant, never zero."""
    __slots__ = ("coef", "fac", "_pos")

    def __init__(self, coef, fac):
        self.coef = coef
        self.fac = fac
        self._pos = None

    @property
    def pos(self):
        """structurally known to be > 0"""
        p = self._pos
        if p:
            return True
        sg = self._sgn()
        self._pos = sg > 0
        return sg > 0

    def _sgn(self):
        sg = 1 if self.coef > 0 else -1
        for b, e in self.fac:
            if b.pos:
                continue
            if b.negd and e.denominator == 1:
                if e.numerator % 2:
                    sg = -sg
                continue
            return 0
        return sg

    @property
    def neg(self):
        return self._sgn() < 0

    def key(self):
        return (self.coef, self.fac)

    def __repr__(self):
        s = []
        if self.coef != 1:
            s.append(str(self.coef))
        for b, e in self.fac:
            s.append(f"{b}" if e == 1 else f"{b}^{e}")
        return "*".join(s)

    # python operators for harness code
    def __add__(self, o): return add(self, num(o))
    __radd__ = __add__
    def __sub__(self, o): return sub(self, num(o))
    def __rsub__(self, o): return sub(num(o), self)
    def __mul__(self, o): return mul(self, num(o))
    __rmul__ = __mul__
    def __truediv__(self, o): return div(self, num(o))
    def __rtruediv__(self, o): return div(num(o), self)
    def __neg__(self): return neg(self)
    def __pow__(self, o): return power(self, num(o))
    def __lt__(self, o): return lt(self, num(o))
    def __le__(self, o): return le(self, num(o))
    def __gt__(self, o): return lt(num(o), self)
    def __ge__(self, o): return le(num(o), self)
    def __eq__(self, o): return isinstance(o, R) and self.coef == o.coef and self.fac == o.fac
    def __hash__(self): return hash((self.coef, self.fac))


def mk(coef, facd):
    """facd: dict base->exp"""
    if coef == 0:
        return F0
    fac = [(b, e) for b, e in facd.items() if e != 0]
    if not fac:
        return coef
    fac.sort(key=lambda t: t[0].id)
    return R(coef, tuple(fac))


def of_base(b, e=F1):
    return R(F1, ((b, Fraction(e)),))


def sym(name, pos=False):
    return of_base(atom("sym", name, (), pos=pos))


# ------------------------------------------------------------------ constants
_SPECIAL = None


def _special_consts():
    global _SPECIAL
    if _SPECIAL is None:
        L = lambda n: ("log", n)
        _SPECIAL = [
            (math.log(math.sqrt(2 * math.pi)), lambda: add(mul(Fraction(1, 2), log(Fraction(2))), mul(Fraction(1, 2), log(pi())))),
            (math.log(2 * math.pi), lambda: add(log(Fraction(2)), log(pi()))),
            (0.5 * math.log(2 * math.pi), lambda: mul(Fraction(1, 2), add(log(Fraction(2)), log(pi())))),
            (math.sqrt(2 * math.pi), lambda: power(mul(Fraction(2), pi()), Fraction(1, 2))),
            (math.pi, lambda: pi()),
            (2 * math.pi, lambda: mul(Fraction(2), pi())),
            (math.log(math.pi), lambda: log(pi())),
            (0.5 * math.log(math.pi), lambda: mul(Fraction(1, 2), log(pi()))),
            (math.sqrt(2), lambda: power(Fraction(2), Fraction(1, 2))),
        ]
    return _SPECIAL


def pi():
    return of_base(atom("sym", "$pi", (), pos=True))


_num_cache = {}


def from_float(x, single=False):
    if x != x or x in (INF, NINF):
        return x
    if x == 0:
        return F0
    k = (x, single)
    r = _num_cache.get(k)
    if r is not None:
        return r() if callable(r) else r
    rel = 2e-7 if single else 4e-16
    f = Fraction(x)
    n = f.limit_denominator(5000)
    if abs(float(n) - x) <= rel * abs(x):
        _num_cache[k] = n
        return n
    s = -1 if x < 0 else 1
    for v, mkr in _special_consts():
        if abs(abs(x) - v) <= max(rel, 1e-15) * v:
            fn = (lambda mkr=mkr: mul(Fraction(s), mkr()))
            _num_cache[k] = fn
            return fn()
    # log of a small rational?
    if abs(x) < 14:
        ex = math.exp(abs(x))
        n = Fraction(ex).limit_denominator(120)
        if n > 0 and abs(math.log(n) - abs(x)) <= max(rel, 1e-15) * max(abs(x), 1e-3) and n != 1 and n.numerator < 10 ** 6:
            fn = (lambda n=n: mul(Fraction(s), log(n)))
            _num_cache[k] = fn
            return fn()
    # square root of a small rational?
    n = Fraction(x * x).limit_denominator(2000)
    if n > 0 and abs(math.sqrt(n) - abs(x)) <= max(rel, 2e-16) * abs(x):
        fn = (lambda n=n: mul(Fraction(s), power(n, Fraction(1, 2))))
        _num_cache[k] = fn
        return fn()
    n = f.limit_denominator(10 ** 7)
    if abs(float(n) - x) <= rel * abs(x):
        _num_cache[k] = n
        return n
    _num_cache[k] = f
    return f


def num(x):
    """python number / scalar -> scalar"""
    t = type(x)
    if t is R or t is Fraction:
        return x
    if t is Lazy:
        return num(x.force())
    if t is float:
        return from_float(x)
    if t is int:
        return Fraction(x)
    if t is bool:
        return Fraction(int(x))
    if t is B:
        return ite(x, F1, F0)
    if t.__module__ == "numpy":
        return num(x.item())
    raise Unsupported(f"num({t})")


def is_special(x):
    return type(x) is float


# ------------------------------------------------------------------ arithmetic
def neg(a):
    if type(a) is R:
        return R(-a.coef, a.fac)
    return -a


def mul(a, b):
    ta, tb = type(a), type(b)
    if ta is Fraction:
        if tb is Fraction:
            return a * b
        if tb is R:
            return F0 if a == 0 else R(a * b.coef, b.fac)
        # b special
        if b != b:
            return NAN
        return NAN if a == 0 else (b if a > 0 else -b)
    if tb is Fraction:
        return mul(b, a)
    if ta is float or tb is float:
        if ta is float and tb is float:
            return a * b
        s, x = (a, b) if ta is float else (b, a)
        if s != s:
            return NAN
        sg = sign_of(x)
        return NAN if sg == 0 else (s if sg > 0 else -s)
    if ta is R and tb is R:
        d = dict(a.fac)
        for bb, e in b.fac:
            d[bb] = d.get(bb, F0) + e
        return mk(a.coef * b.coef, d)
    return mul(num(a), num(b))


def _inv(a):
    return R(1 / a.coef, tuple((b, -e) for b, e in a.fac))


def div(a, b):
    ta, tb = type(a), type(b)
    if tb is R:
        if ta is R or ta is Fraction:
            return mul(a, _inv(b))
        if ta is float:
            if a != a:
                return NAN
            return a if sign_of(b) >= 0 else -a
    if tb is Fraction:
        if b == 0:
            if ta is float:
                return a
            sg = sign_of(a)
            return NAN if sg == 0 else (INF if sg > 0 else NINF)
        return mul(a, 1 / b)
    if tb is float:
        if b != b or (ta is float and a != a):
            return NAN
        if ta is float:
            return NAN
        return F0
    return div(num(a), num(b))


def _terms(r):
    """additive terms of a finite scalar"""
    if type(r) is Fraction:
        return [r] if r != 0 else []
    if len(r.fac) == 1:
        b, e = r.fac[0]
        if e == 1 and type(b) is Sum:
            if r.coef == 1:
                return list(b.terms)
            return [mul(r.coef, t) for t in b.terms]
    return [r]


def add(a, b):
    ta, tb = type(a), type(b)
    if ta is Fraction and tb is Fraction:
        return a + b
    if ta is float or tb is float:
        if ta is float and tb is float:
            return a + b
        return a if ta is float else b
    if ta is Fraction:
        if a == 0:
            return b
    elif tb is Fraction and b == 0:
        return a
    if ta in (R, Fraction) and tb in (R, Fraction):
        return add_many([a, b])
    return add(num(a), num(b))


def sub(a, b):
    return add(a, neg(b) if type(b) in (R, Fraction, float) else neg(num(b)))


def add_many(xs):
    sp = None
    terms = []
    for x in xs:
        t = type(x)
        if t is float:
            sp = x if sp is None else sp + x
        elif t is Fraction or t is R:
            terms.append(x)
        else:
            terms.append(num(x))
    if sp is not None:
        return sp
    # flatten
    acc = {}
    const = F0
    for x in terms:
        for t in _terms(x):
            if type(t) is Fraction:
                const += t
            else:
                acc[t.fac] = acc.get(t.fac, F0) + t.coef
    items = [(fac, c) for fac, c in acc.items() if c != 0]
    if const != 0:
        items.append(((), const))
    if not items:
        return F0
    if len(items) == 1:
        fac, c = items[0]
        return R(c, fac) if fac else c
    r = _mksum(items)
    if type(r) is R and not r.pos:
        if all((x >= 0 if type(x) is Fraction else x.pos) for x in terms):
            _note_pos(r)
        elif all((x <= 0 if type(x) is Fraction else x.neg) for x in terms):
            _note_pos(R(-r.coef, r.fac))
    return r


def _note_pos(r):
    """r is known positive (sum of positive terms): record the sign of its single undetermined base"""
    und = [(b, e) for b, e in r.fac if not b.pos and not b.negd]
    if len(und) != 1 or und[0][1].denominator != 1 or und[0][1].numerator % 2 == 0:
        return
    b = und[0][0]
    sg = 1 if r.coef > 0 else -1
    for bb, e in r.fac:
        if bb.negd and e.numerator % 2:
            sg = -sg
    if sg > 0:
        b.pos = True
    else:
        b.negd = True
    r._pos = None
    if type(b) is Sum and len(b.terms) <= 40:
        S.signfacts[b] = sg


def _expand_term(fac, coef):
    """expand positive integer powers of Sum bases in a monomial; returns dict fac->coef or None"""
    polys = []
    rest = {}
    n = 1
    for b, e in fac:
        if type(b) is Sum and e > 0 and e.denominator == 1:
            polys.append((b, int(e)))
            n *= len(b.terms) ** int(e)
            if n > EXPAND_LIMIT:
                return None
        else:
            rest[b] = rest.get(b, F0) + e
    if not polys:
        return {fac: coef}
    cur = {tuple(sorted(rest.items(), key=lambda t: t[0].id)): coef}
    for b, k in polys:
        for _ in range(k):
            nxt = {}
            for f, c in cur.items():
                for t in b.terms:
                    if type(t) is Fraction:
                        nf, nc = f, c * t
                    else:
                        d = dict(f)
                        for bb, e in t.fac:
                            d[bb] = d.get(bb, F0) + e
                        nf = tuple(sorted(((x, y) for x, y in d.items() if y != 0), key=lambda t: t[0].id))
                        nc = c * t.coef
                    nxt[nf] = nxt.get(nf, F0) + nc
            cur = {f: c for f, c in nxt.items() if c != 0}
    return cur


def _mksum(items, depth=0):
    # common factor: min exponent over terms (absent = 0)
    nt = len(items)
    cnt = {}
    mn = {}
    for fac, _ in items:
        for b, e in fac:
            cnt[b] = cnt.get(b, 0) + 1
            if b not in mn or e < mn[b]:
                mn[b] = e
    common = {}
    for b, m in mn.items():
        if cnt[b] < nt and m > 0:
            m = F0
        if m != 0:
            common[b] = m
    if common:
        new = []
        for fac, c in items:
            d = dict(fac)
            for b, m in common.items():
                d[b] = d.get(b, F0) - m
            new.append((tuple(sorted(((x, y) for x, y in d.items() if y != 0), key=lambda t: t[0].id)), c))
        items = new
    # expansion of nested sums (bounded)
    if any(type(b) is Sum for fac, _ in items for b, _ in fac):
        tot = {}
        ok = True
        for fac, c in items:
            ex = _expand_term(fac, c)
            if ex is None:
                ok = False
                break
            for f, k in ex.items():
                tot[f] = tot.get(f, F0) + k
            if len(tot) > EXPAND_LIMIT:
                ok = False
                break
        if ok:
            items = [(f, k) for f, k in tot.items() if k != 0]
            if not items:
                return F0
            if len(items) == 1:
                fac, c = items[0]
                r = mk(c, dict(fac))
                return mul(r, mk(F1, common)) if common else r
            # new common factors may have appeared
            if depth < 3:
                r = _mksum(items, depth + 1)
                return mul(r, mk(F1, common)) if common else r
        else:
            # merge duplicates only
            tot = {}
            for fac, c in items:
                tot[fac] = tot.get(fac, F0) + c
            items = [(f, k) for f, k in tot.items() if k != 0]
            if not items:
                return F0
            if len(items) == 1:
                fac, c = items[0]
                r = mk(c, dict(fac))
                return mul(r, mk(F1, common)) if common else r
    # canonical order & content
    items.sort(key=lambda t: tuple((b.id, e) for b, e in t[0]))
    lead = items[0][1]
    key = tuple((fac, c / lead) for fac, c in items)
    s = S.sums.get(key)
    if s is None:
        s = Sum()
        s.terms = tuple(R(c, fac) if fac else c for fac, c in key)
        s.pos = all((t > 0) if type(t) is Fraction else t.pos for t in s.terms)
        s.key = None
        s.negd = all((t < 0) if type(t) is Fraction else t.neg for t in s.terms)
        s._atoms = None
        s.id = S.next_id
        S.next_id += 1
        S.sums[key] = s
    if not common:
        return R(lead, ((s, F1),))
    d = dict(common)
    d[s] = d.get(s, F0) + 1
    return mk(lead, d)


# ------------------------------------------------------------------ sign / comparisons
def known_sign(x):
    """+1/-1/0 if structurally known else None"""
    t = type(x)
    if t is Fraction or t is int:
        return (x > 0) - (x < 0)
    if t is float:
        return None if x != x else (1 if x > 0 else -1)
    if t is R:
        if x.pos:
            return 1
        if x.neg:
            return -1
        # even powers times positives: >= 0, sign not fully known
        return None
    return known_sign(num(x))


def sign_of(x):
    """concrete sign; forks if symbolic"""
    s = known_sign(x)
    if s is not None:
        return s
    if truth(lt(F0, x)):
        return 1
    if truth(lt(x, F0)):
        return -1
    return 0


def truth(b):
    if type(b) is bool:
        return b
    if type(b) is B:
        return S.explorer.decide(b)
    if type(b) is Lazy:
        return bool(b.force())
    return bool(b)


def is_loglinear(x):
    """x is a constant-coefficient combination of log atoms (exp(x) is algebraic)"""
    t = type(x)
    if t is Fraction:
        return x == 0
    for m in _terms(x):
        if type(m) is Fraction:
            return False
        if len(m.fac) != 1 or m.fac[0][1] != 1 or m.fac[0][0].key is None or m.fac[0][0].kind != "log":
            return False
    return True


def lt(a, b):
    ta, tb = type(a), type(b)
    if ta is float or tb is float:
        if (ta is float and a != a) or (tb is float and b != b):
            return False
        if ta is float and tb is float:
            return a < b
        if ta is float:
            return a == NINF
        return b == INF
    a, b = num(a), num(b)
    if type(a) is Fraction and type(b) is Fraction:
        return a < b
    d = sub(b, a)
    if type(d) is not Fraction and is_loglinear(d):
        d = sub(exp(d), F1)
    s = known_sign(d)
    if s is not None:
        return s > 0
    return B(z3_cmp(d, ">"))


def le(a, b):
    ta, tb = type(a), type(b)
    if ta is float or tb is float:
        if (ta is float and a != a) or (tb is float and b != b):
            return False
        if ta is float and tb is float:
            return a <= b
        if ta is float:
            return a == NINF
        return b == INF
    a, b = num(a), num(b)
    if type(a) is Fraction and type(b) is Fraction:
        return a <= b
    d = sub(b, a)
    if type(d) is not Fraction and is_loglinear(d):
        d = sub(exp(d), F1)
    s = known_sign(d)
    if s is not None:
        return s >= 0
    return B(z3_cmp(d, ">="))


def eq(a, b):
    if type(a) is bool and type(b) is bool:
        return a == b
    ta, tb = type(a), type(b)
    if ta is B or tb is B:
        za = a.z if ta is B else z3.BoolVal(bool(a))
        zb = b.z if tb is B else z3.BoolVal(bool(b))
        return mkB(za == zb)
    if ta is float or tb is float:
        if ta is float and tb is float:
            return a == b
        return False
    a, b = num(a), num(b)
    if type(a) is Fraction and type(b) is Fraction:
        return a == b
    d = sub(b, a)
    if type(d) is not Fraction and is_loglinear(d):
        d = sub(exp(d), F1)
    s = known_sign(d)
    if s is not None:
        return s == 0
    return B(z3_cmp(d, "=="))


def not_(b):
    if type(b) is B:
        return mkB(z3.Not(b.z))
    return not truthy(b)


def truthy(x):
    if type(x) is B:
        return truth(x)
    if type(x) is Lazy:
        return bool(x.force())
    if type(x) is R:
        return truth(not_(eq(x, F0)))
    return bool(x)


def and_(a, b):
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a
    return mkB(z3.And(_zb(a), _zb(b)))


def or_(a, b):
    if a is True or b is True:
        return True
    if a is False:
        return b
    if b is False:
        return a
    return mkB(z3.Or(_zb(a), _zb(b)))


def _zb(a):
    return a.z if type(a) is B else z3.BoolVal(bool(a))


class B:
    __slots__ = ("z",)

    def __init__(self, z):
        self.z = z

    def __bool__(self):
        return truth(self)

    def __repr__(self):
        return f"B({self.z})"

    def __and__(self, o): return and_(self, o)
    def __or__(self, o): return or_(self, o)
    def __invert__(self): return not_(self)


def mkB(z):
    z = z3.simplify(z)
    if z3.is_true(z):
        return True
    if z3.is_false(z):
        return False
    return B(z)


def ite(c, a, b):
    """symbolic conditional: resolved by path forking"""
    if type(c) is B:
        if type(a) is type(b) and not isinstance(a, float) and a == b:
            return a
        return a if truth(c) else b
    return a if truthy(c) else b


# ------------------------------------------------------------------ lazily resolved choices
class Lazy:
    """integer valued choice; `dom` list of ints; `weights` list of scalar probabilities (random draw) or
    `conds` list of booleans (deterministic selection, e.g. argmax)."""
    __slots__ = ("uid", "dom", "weights", "conds", "tag", "conv")

    def __init__(self, uid, dom, weights=None, conds=None, tag=""):
        self.uid, self.dom, self.weights, self.conds, self.tag = uid, list(dom), weights, conds, tag

    def force(self):
        return S.explorer.force(self)

    def __repr__(self):
        return f"Lazy{self.uid}[{self.tag}]"

    def __index__(self):
        return int(self.force())

    __int__ = __index__

    def __hash__(self):
        return self.uid


# ------------------------------------------------------------------ transcendental
_PRIMES = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47]


def _factor_int(n):
    out = {}
    for p in _PRIMES:
        while n % p == 0:
            out[p] = out.get(p, 0) + 1
            n //= p
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


def _log_const(c):
    d = {}
    for p, k in _factor_int(c.numerator).items():
        d[p] = d.get(p, 0) + k
    for p, k in _factor_int(c.denominator).items():
        d[p] = d.get(p, 0) - k
    return [R(Fraction(k), ((atom("log", None, (Fraction(p),)), F1),)) for p, k in d.items() if k]


def log(a):
    t = type(a)
    if t is float:
        return NAN if (a != a or a < 0) else INF
    if t is Fraction:
        if a < 0:
            return NAN
        if a == 0:
            return NINF
        if a == 1:
            return F0
        return add_many(_log_const(a))
    if t is not R:
        return log(num(a))
    if not a.pos:
        s = sign_of(a)
        if s < 0:
            return NAN
        if s == 0:
            return NINF
        # positive on this path, but individual bases may be negative: pair up signs by absolute values
        terms = _log_const(abs(a.coef)) if abs(a.coef) != 1 else []
        for b, e in a.fac:
            if not b.pos:
                terms.append(mul(e, _log_base_abs(b)))
            else:
                terms.append(mul(e, _log_base(b)))
        return add_many(terms)
    terms = _log_const(abs(a.coef)) if abs(a.coef) != 1 else []
    for b, e in a.fac:
        terms.append(mul(e, _log_base(b if b.pos else _known_pos(b, -1))))
    return add_many(terms)


def _log_base(b):
    if type(b) is Atom and b.kind == "E":
        return b.args[0]
    return of_base(atom("log", None, (b,)))


def _log_base_abs(b):
    s = sign_of(of_base(b))
    if s > 0:
        return _log_base(_known_pos(b, 1))
    return _log_base(_known_pos(b, -1))


def _known_pos(b, s):
    # |b| as positive base on this path: keep b itself when positive; for a negative sum flip the sign
    if s > 0:
        return b
    return atom("abs", None, (b,), pos=True)


def exp(a):
    t = type(a)
    if t is float:
        return NAN if a != a else (INF if a > 0 else F0)
    if t is Fraction:
        if a == 0:
            return F1
        return of_base(atom("E", None, (F1,), pos=True), a)
    if t is not R:
        return exp(num(a))
    out = {}
    coef = F1
    res = None
    ms = []
    for m in _terms(a):
        if type(m) is R and any(type(b) is Sum and e > 0 for b, e in m.fac):
            ex = _expand_term(m.fac, m.coef)
            if ex is not None:
                ms += [R(c, f) if f else c for f, c in ex.items()]
                continue
        ms.append(m)
    for m in ms:
        if type(m) is Fraction:
            b = atom("E", None, (F1,), pos=True)
            out[b] = out.get(b, F0) + m
            continue
        if len(m.fac) == 1 and m.fac[0][1] == 1 and type(m.fac[0][0]) is Atom and m.fac[0][0].kind == "log":
            arg = m.fac[0][0].args[0]
            if type(arg) is Fraction:
                if m.coef.denominator == 1:
                    coef *= arg ** int(m.coef)
                else:
                    k = m.coef
                    ip = math.floor(k)
                    coef *= arg ** ip
                    b = atom("const", str(arg), (arg,), pos=True)
                    out[b] = out.get(b, F0) + (k - ip)
            else:
                if not arg.pos and not (m.coef.denominator == 1):
                    pass
                if type(arg) is Atom and arg.kind == "abs" and m.coef.denominator == 1:
                    # |b| with b known negative on this path
                    inner = arg.args[0]
                    k = int(m.coef)
                    coef *= (-1) ** (k % 2)
                    out[inner] = out.get(inner, F0) + k
                else:
                    out[arg] = out.get(arg, F0) + m.coef
            continue
        # E atom of normalised monomial
        if len(m.fac) == 1 and False:
            pass
        b = atom("E", None, (R(F1, m.fac),), pos=True)
        out[b] = out.get(b, F0) + m.coef
    # fractional powers of prime constants: normalise to [0,1)
    for b in list(out):
        if type(b) is Atom and b.kind == "const":
            k = out[b]
            ip = math.floor(k)
            if ip:
                coef *= b.args[0] ** ip
                out[b] = k - ip
    return mk(coef, out)


def power(a, n):
    ta = type(a)
    if type(n) is not Fraction:
        n = num(n)
    if type(n) is float:
        if n != n or (ta is float and a != a):
            return NAN
        raise Unsupported("pow inf")
    if type(n) is R:
        if ta is R or (ta is Fraction and a > 0):
            return exp(mul(n, log(a)))
        raise Unsupported("pow with symbolic exponent")
    if ta is float:
        if a != a:
            return NAN if n != 0 else F1
        if n == 0:
            return F1
        if a == INF:
            return INF if n > 0 else F0
        return (INF if (n.denominator == 1 and n.numerator % 2 == 0) else NINF) if n > 0 else F0
    if n.denominator == 1:
        k = int(n)
        if k == 0:
            return F1
        if ta is Fraction:
            if a == 0 and k < 0:
                return INF
            return a ** k
        if ta is R:
            return R(a.coef ** k, tuple((b, e * k) for b, e in a.fac))
        return power(num(a), n)
    # fractional power
    if ta is Fraction:
        if a < 0:
            return NAN
        if a == 0:
            return F0 if n > 0 else INF
        # exact root?
        p, q = n.numerator, n.denominator
        rn, rd = round(a.numerator ** (1 / q)), round(a.denominator ** (1 / q))
        if rn ** q == a.numerator and rd ** q == a.denominator:
            return Fraction(rn, rd) ** p
        return exp(mul(n, log(a)))
    if ta is not R:
        return power(num(a), n)
    if a.pos:
        c = power(a.coef, n) if a.coef != 1 else F1
        return mul(c, R(F1, tuple((b, e * n) for b, e in a.fac)))
    s = sign_of(a)
    if s < 0:
        return NAN
    if s == 0:
        return F0 if n > 0 else INF
    d = {}
    coef = abs(a.coef)
    for b, e in a.fac:
        ne = e * n
        if b.pos:
            d[b] = d.get(b, F0) + ne
        else:
            sb = sign_of(of_base(b))
            if ne.denominator == 1:
                coef *= F1 if (sb > 0 or int(ne) % 2 == 0) else F1
                if sb < 0 and int(ne) % 2:
                    coef_sign = -1
                    d[b] = d.get(b, F0) + ne
                    # |b|^ne = (-b)^ne
                    coef = coef
                    d.setdefault("_sgn", 1)
                    d["_sgn"] = -d["_sgn"]
                else:
                    d[b] = d.get(b, F0) + ne
            else:
                bb = _known_pos(b, sb)
                d[bb] = d.get(bb, F0) + ne
    sg = d.pop("_sgn", 1)
    c = power(coef, n) if coef != 1 else F1
    return mul(mul(c, Fraction(sg)), mk(F1, d))


def sqrt(a):
    return power(a, Fraction(1, 2))


def abs_(a):
    if type(a) is float:
        return abs(a)
    s = known_sign(a)
    if s is None:
        s = sign_of(a)
    return a if s >= 0 else neg(a)


def sign(a):
    if type(a) is float:
        return NAN if a != a else (F1 if a > 0 else -F1)
    return Fraction(sign_of(num(a)))


def fn(name, *args, pos=False):
    args = [num(a) for a in args]
    if any(type(a) is float for a in args):
        if name == "igamma" and type(args[1]) is float:
            return NAN if args[1] != args[1] else F1
        v = NUMFN[name](*[float(a) if type(a) in (float, Fraction) else math.nan for a in args])
        return from_float(v)
    if name == "erf":
        if args[0] == 0:
            return F0
        if (args[0] < 0 if type(args[0]) is Fraction else args[0].coef < 0):
            return neg(of_base(atom("fn", name, (neg(args[0]),), pos=known_sign(neg(args[0])) == 1)))
    if name == "igamma" and args[1] == 0:
        return F0
    return of_base(atom("fn", name, tuple(args), pos=pos))


def lgamma(a):
    a = num(a)
    if type(a) is Fraction and a.denominator == 1:
        if a <= 0:
            return INF
        if a <= 60:
            return log(Fraction(math.factorial(int(a) - 1)))
    return fn("lgamma", a)


def _igamma(a, x):
    import scipy.special as sp
    return float(sp.gammainc(a, x))


def _digamma(x):
    import scipy.special as sp
    return float(sp.digamma(x))


def _erfinv(x):
    import scipy.special as sp
    return float(sp.erfinv(x))


def _i0(x):
    import scipy.special as sp
    return float(sp.i0(x))


NUMFN = {
    "i0": _i0,
    "lgamma": lambda x: math.lgamma(x) if not (x == 0 or (x < 0 and x == int(x))) else INF,
    "erf": math.erf, "erfc": math.erfc, "sin": math.sin, "cos": math.cos, "tanh": math.tanh,
    "igamma": _igamma, "digamma": _digamma, "erfinv": _erfinv, "atan": math.atan, "floor": math.floor, "ceil": math.ceil,
    "G": lambda x: -math.log(-math.log(x)),
}


def max_(xs):
    """maximum of scalars as a positive/real 'max' atom (no forking)"""
    fin = []
    best = None
    for x in xs:
        if type(x) is float:
            if x != x:
                return NAN
            if x == INF:
                return INF
            continue
        x = num(x)
        if type(x) is Fraction:
            best = x if best is None or x > best else best
        elif x not in fin:
            fin.append(x)
    if not fin:
        return best if best is not None else NINF
    if best is not None:
        # drop constants dominated structurally
        if best <= 0 and any(f.pos for f in fin):
            best = None
    args = fin + ([best] if best is not None else [])
    if len(args) == 1:
        return args[0]
    if all(type(x) is R and is_loglinear(x) or x == 0 for x in args):
        ex = [exp(x) for x in args]
        return log(_max_atom(ex, True))
    # structural dominance
    if len(args) == 2:
        s = known_sign(sub(args[0], args[1]))
        if s is not None:
            return args[0] if s >= 0 else args[1]
    return _max_atom(args, any(known_sign(x) == 1 for x in args))


def _max_atom(args, pos):
    args = sorted(args, key=lambda r: (repr(type(r)), tuple((b.id, e) for b, e in r.fac) + ((0, r.coef),)) if type(r) is R else ("0", ((r, 0),)))
    return of_base(atom("max", None, tuple(args), pos=pos))


def min_(xs):
    m = max_([neg(x) if type(x) in (float, R, Fraction) else neg(num(x)) for x in xs])
    return neg(m)


# ------------------------------------------------------------------ z3 translation
def _zq(c):
    return z3.Q(c.numerator, c.denominator) if c.denominator != 1 else z3.RealVal(c.numerator)


def zbase(b):
    z = S.z3cache.get(b)
    if z is not None:
        return z
    if type(b) is Sum:
        parts = []
        for t in b.terms:
            if type(t) is R:
                assert all(e > 0 for _, e in t.fac), "negative exponent inside Sum"
                n, _ = znumden(R(F1, t.fac))
                parts.append(n if t.coef == 1 else _zq(t.coef) * n)
            else:
                parts.append(_zq(t))
        z = z3.Sum(parts)
    else:
        z = z3.Real(f"v{b.id}_{b.name if b.kind == 'sym' else b.kind}")
        if b.kind == "max":
            cs = []
            for a in b.args:
                d = sub(of_base(b), a)
                cs.append(z3_cmp_raw(d, ">=", b, z))
            ors = [z3_cmp_raw(sub(of_base(b), a), "==", b, z) for a in b.args]
            S.defs[b] = cs + [z3.Or(ors)]
        elif b.kind == "const":
            S.defs[b] = []
        elif b.kind == "abs":
            S.z3cache[b] = z
            S.defs[b] = [z == -zbase(b.args[0])]
    S.z3cache[b] = z
    return z


def z3_cmp_raw(d, op, b, z):
    S.z3cache[b] = z
    return z3_cmp(d, op)


def _zpow(b, e):
    """e > 0"""
    z = zbase(b)
    if e.denominator != 1:
        key = (b, e.denominator)
        r = S.z3cache.get(key)
        if r is None:
            r = z3.Real(f"rt{b.id}_{e.denominator}")
            S.z3cache[key] = r
            p = r
            for _ in range(e.denominator - 1):
                p = p * r
            S.defs[("rt", r.get_id())] = [p == z, r > 0]
            S.rootdefs = getattr(S, "rootdefs", {})
            S.rootdefs[key] = [p == z, r > 0]
        z = r
    k = e.numerator
    if k == 1:
        return z
    if k <= 6:
        out = z
        for _ in range(k - 1):
            out = out * z
        return out
    return z ** k


def znumden(r):
    """(num, den) z3 terms; den None if 1"""
    if type(r) is Fraction:
        return _zq(r), None
    n, d = [], []
    for b, e in r.fac:
        if e > 0:
            n.append(_zpow(b, e))
        else:
            d.append(_zpow(b, -e))
    if r.coef.numerator != 1 or not n:
        n.insert(0, z3.RealVal(r.coef.numerator))
    if r.coef.denominator != 1:
        d.insert(0, z3.RealVal(r.coef.denominator))
    zn = n[0] if len(n) == 1 else z3.Product(n)
    zd = None if not d else (d[0] if len(d) == 1 else z3.Product(d))
    return zn, zd


def z3_cmp(d, op):
    """d op 0 as z3 boolean"""
    if type(d) is Fraction:
        return z3.BoolVal({">": d > 0, ">=": d >= 0, "==": d == 0}[op])
    # drop positive factors
    fac = []
    coef = d.coef
    for b, e in d.fac:
        if b.pos:
            continue
        if b.negd and e.denominator == 1:
            if e.numerator % 2:
                coef = -coef
            continue
        if e < 0:
            # sign(1/b)=sign(b)
            fac.append((b, F1 if e.numerator % 2 else Fraction(2)) if e.denominator == 1 else (b, F1))
        else:
            fac.append((b, e))
    if not fac:
        return z3.BoolVal({">": coef > 0, ">=": coef >= 0, "==": False}[op])
    prod = [_zpow(b, e) for b, e in fac]
    z = prod[0] if len(prod) == 1 else z3.Product(prod)
    if coef < 0:
        z = -z
    zero = z3.RealVal(0)
    return {">": z > zero, ">=": z >= zero, "==": z == zero}[op]


def atoms_of(x, acc=None):
    if acc is None:
        acc = set()
    if type(x) is R:
        for b, _ in x.fac:
            _atoms_base(b, acc)
    return acc


def _atoms_base(b, acc):
    if b._atoms is None:
        s = set()
        if type(b) is Sum:
            for t in b.terms:
                if type(t) is R:
                    for bb, _ in t.fac:
                        _atoms_base(bb, s)
        else:
            s.add(b)
            for a in b.args:
                if isinstance(a, Base):
                    _atoms_base(a, s)
                elif type(a) is R:
                    atoms_of(a, s)
        b._atoms = frozenset(s)
    acc |= b._atoms


# strictly increasing functions (in their last argument) and their range
MONO = {
    "erf": lambda b, e: [e > -1, e < 1, (e > 0) == z3_cmp(b.args[0], ">")],
    "igamma": lambda b, e: [e < 1, (e > 0) == z3_cmp(b.args[1], ">"), e >= 0],
}


def zvars_constraints(zexprs):
    """positivity and definitional constraints for all cached z3 variables occurring in zexprs (closure)."""
    byname = S.byname

    def refresh():
        if len(S.z3cache) != S.byname_n:
            for b, z in itertools.islice(S.z3cache.items(), S.byname_n, None):
                if type(b) is Atom or type(b) is tuple:
                    byname[z.get_id()] = b
            S.byname_n = len(S.z3cache)

    refresh()
    out, seen, todo = [], set(), []
    for e in zexprs:
        todo.extend(_zleaves(e))
    rootdefs = getattr(S, "rootdefs", {})
    mono, logs, exps = [], [], []
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        b = byname.get(e.get_id())
        if b is not None:
            if type(b) is tuple:
                cs = rootdefs.get(b, [])
            else:
                cs = list(S.defs.get(b, []))
                if b.pos:
                    cs.append(e > 0)
                if b.kind == "sym" and b.name == "$pi":
                    cs += [e > z3.Q(31415926, 10000000), e < z3.Q(31415927, 10000000)]
                if b.kind == "sym" and str(b.name).startswith("$U"):
                    cs.append(e < 1)
                if b.kind == "fn" and b.name == "floor":
                    cs += [z3_cmp(sub(b.args[0], of_base(b)), ">="), z3_cmp(sub(of_base(b), sub(b.args[0], F1)), ">")]
                    ge = [z3_cmp(sub(b.args[0], Fraction(k)), ">=") for k in range(0, 6)]       # whole numbers
                    cs += [(e >= k) == ge[k] for k in range(6)] + [z3.Implies(z3.And(ge[k], z3.Not(ge[k + 1])), e == k) for k in range(5)]
                if b.kind == "const":
                    cs.append(e == _zq(b.args[0]))
                if b.kind == "fn" and b.name in MONO:
                    cs += MONO[b.name](b, e)
                    for b2, e2 in mono:
                        if b2.name == b.name and b2.args[:-1] == b.args[:-1]:
                            d = sub(b.args[-1], b2.args[-1])
                            cs.append((e > e2) == z3_cmp(d, ">"))
                            cs.append((e < e2) == z3_cmp(neg(d), ">"))
                    mono.append((b, e))
                if b.kind == "E" and type(b.args[0]) is R and len(exps) < 8:
                    x = b.args[0]
                    cs.append((e > 1) == z3_cmp(x, ">"))
                    cs.append((e < 1) == z3_cmp(neg(x), ">"))
                    for x2, e2 in exps:
                        d = sub(x, x2)
                        cs.append((e > e2) == z3_cmp(d, ">"))
                        cs.append((e < e2) == z3_cmp(neg(d), ">"))
                    exps.append((x, e))
                if b.kind == "log":
                    x = b.args[0] if type(b.args[0]) is Fraction else of_base(b.args[0])
                    if len(logs) < 6 and type(x) is R and x.pos:
                        cs.append((e < 0) == z3_cmp(sub(F1, x), ">"))
                        for x2, e2 in logs:
                            d = sub(x, x2)
                            cs.append((e > e2) == z3_cmp(d, ">"))
                            cs.append((e < e2) == z3_cmp(neg(d), ">"))
                        logs.append((x, e))
                if b.kind == "E" and b.args[0] == F1 and type(b.args[0]) is Fraction:
                    cs += [e > z3.Q(2718281, 1000000), e < z3.Q(2718282, 1000000)]
                if b.kind == "log" and type(b.args[0]) is Fraction:
                    v = Fraction(math.log(b.args[0])).limit_denominator(10 ** 7)
                    cs += [e > _zq(v - Fraction(1, 10 ** 6)), e < _zq(v + Fraction(1, 10 ** 6))]
            for c in cs:
                out.append(c)
                todo.extend(_zleaves(c))
            if cs:
                refresh()          # constraints may mention variables created just now
    return out


def _zleaves(e):
    """uninterpreted constants of a z3 expression (memoised; expressions are kept alive by the memo)"""
    r = S.zleaves.get(e.get_id())
    if r is None:
        seen, todo, r = set(), [e], []
        while todo:
            x = todo.pop()
            k = x.get_id()
            if k in seen:
                continue
            seen.add(k)
            if x.num_args() == 0:
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    r.append(x)
            else:
                todo.extend(x.children())
        S.zleaves[e.get_id()] = r
        S.zkeep.append(e)
    return r


# ------------------------------------------------------------------ numeric evaluation
def evalf(x, env, memo=None):
    """env: dict sym name -> float"""
    if memo is None:
        memo = {}
    t = type(x)
    if t is float:
        return x
    if t is Fraction or t is int or t is bool:
        return float(x)
    if t is R:
        v = float(x.coef)
        for b, e in x.fac:
            bv = _evalb(b, env, memo)
            try:
                v *= bv ** (int(e) if e.denominator == 1 else float(e))
            except ZeroDivisionError:
                return NAN
            except OverflowError:
                return INF
        return v
    raise Unsupported(f"evalf {t}")


def _evalb(b, env, memo):
    v = memo.get(b)
    if v is not None:
        return v
    if type(b) is Sum:
        v = math.fsum(evalf(t, env, memo) for t in b.terms)
    else:
        k = b.kind
        if k == "sym":
            v = math.pi if b.name == "$pi" else env[b.name]
        elif k == "draw":
            v = 1.25
        elif k == "log":
            a = b.args[0]
            av = float(a) if type(a) is Fraction else _evalb(a, env, memo)
            v = math.log(abs(av)) if av != 0 else NINF
        elif k == "E":
            v = math.exp(evalf(b.args[0], env, memo))
        elif k == "const":
            v = float(b.args[0])
        elif k == "max":
            v = max(evalf(a, env, memo) for a in b.args)
        elif k == "abs":
            v = abs(_evalb(b.args[0], env, memo))
        elif k == "fn":
            v = NUMFN[b.name](*[evalf(a, env, memo) for a in b.args])
        else:
            raise Unsupported(k)
    memo[b] = v
    return v


reset()
