"""SymTensor: a torch.Tensor subclass holding a numpy object array of symbolic scalars, and the
interpreter for the aten operations that the real (unmodified) SPFlow code dispatches to."""
from __future__ import annotations
import itertools
import math
from fractions import Fraction
import numpy as np
import torch
from torch.utils._python_dispatch import TorchDispatchMode
from torch.utils._pytree import tree_map
from . import sym
from .sym import S, R, B, Lazy, Unsupported, F0, F1, NAN, INF, NINF

aten = torch.ops.aten
FLOATS = (torch.float64, torch.float32, torch.float16, torch.bfloat16)
OPLOG = {}


# ------------------------------------------------------------------ elements
def obj(x):
    a = np.empty((), dtype=object)
    a[()] = x
    return a


def to_elem_scalar(x, dtype):
    """python/numpy number -> scalar of the representation used for dtype"""
    t = type(x)
    if t in (R, Lazy, B):
        return cast_scalar(x, dtype)
    if t is Fraction:
        return cast_scalar(x, dtype)
    if dtype in FLOATS:
        if t is bool or t is int:
            return Fraction(int(x))
        return sym.from_float(float(x), dtype == torch.float32)
    if dtype == torch.bool:
        return bool(x)
    return int(x)


def cast_scalar(x, dtype):
    t = type(x)
    if t in (B, Lazy):
        if dtype == torch.bool and t is Lazy:
            return bool(x.force())
        return x
    if dtype in FLOATS:
        if t is Fraction or t is R or t is float:
            return x
        return Fraction(int(x))
    if dtype == torch.bool:
        if t is R:
            return sym.not_(sym.eq(x, F0))
        if t is float:
            return True
        return bool(x != 0)
    if t is Fraction:
        return math.trunc(x)
    if t is R:
        i = const_int(x)
        if i is None:
            raise Unsupported("symbolic real -> int")
        return i
    if t is float:
        return -(2 ** 63)
    return int(x)


def const_int(x):
    """symbolic real used as an integer: try to resolve it through the explorer's integer hypotheses"""
    h = getattr(S, "int_syms", {})
    if len(x.fac) == 1 and x.coef == 1 and x.fac[0][0] in h:
        return h[x.fac[0][0]].force()
    return None


def from_torch(t: torch.Tensor):
    """plain tensor -> object array"""
    if t.layout != torch.strided:
        raise Unsupported("layout")
    with torch.no_grad(), torch.utils._python_dispatch._disable_current_modes():
        a = t.detach().cpu()
        if a.dtype == torch.bfloat16:
            a = a.float()
        if a.is_complex():
            raise Unsupported("complex")
        n = a.numpy()
    out = np.empty(n.shape, dtype=object)
    flat = n.reshape(-1)
    of = [to_elem_scalar(v, t.dtype) for v in flat.tolist()]
    if n.shape == ():
        out[()] = of[0]
    else:
        o2 = np.empty(len(of), dtype=object)
        for i, v in enumerate(of):
            o2[i] = v
        out = o2.reshape(n.shape)
    return out


def strides_of(e):
    st = tuple(s // 8 for s in e.strides)
    return st


PICKLED = []        # contents of pickled tensors (a pickle stays within the process)


def unpickled(i):
    elem, dtype, grad, param = PICKLED[i]
    t = SymTensor(elem.copy(), dtype)
    if param:
        return torch.nn.Parameter(t, requires_grad=grad)
    return t.requires_grad_(True) if grad else t


class SymTensor(torch.Tensor):
    @staticmethod
    def __new__(cls, elem, dtype, requires_grad=False):
        st = strides_of(elem)
        if any(s < 0 for s in st):
            elem = elem.copy()
            st = strides_of(elem)
        if elem.size == 0:
            st = None
        if st is None:
            t = torch.Tensor._make_wrapper_subclass(cls, elem.shape, dtype=dtype, device="cpu", requires_grad=requires_grad)
        else:
            t = torch.Tensor._make_wrapper_subclass(cls, elem.shape, strides=st, dtype=dtype, device="cpu", requires_grad=requires_grad)
        t.elem = elem
        return t

    def __init__(self, *a, **k):
        pass

    def __repr__(self, *, tensor_contents=None):
        return f"SymTensor({self.elem.tolist()}, dtype={self.dtype})"

    def __deepcopy__(self, memo):
        if id(self) in memo:
            return memo[id(self)]
        n = SymTensor(self.elem.copy(), self.dtype)
        if isinstance(self, torch.nn.Parameter):
            n = torch.nn.Parameter(n, requires_grad=self.requires_grad)
        elif self.requires_grad and self.is_leaf:
            n.requires_grad_(True)
        memo[id(self)] = n
        return n

    def __reduce_ex__(self, proto):
        PICKLED.append((self.elem.copy(), self.dtype, self.requires_grad, isinstance(self, torch.nn.Parameter)))
        return unpickled, (len(PICKLED) - 1,)

    def numpy(self, *a, **k):
        """concrete contents as an array (symbolic contents leave the encoding)"""
        if NUMPY_OBJECTS[0]:
            return self.elem.copy().view(ObjArray)
        conv = bool if self.dtype == torch.bool else float if self.dtype.is_floating_point else int
        out = np.empty(self.elem.shape, dtype={bool: np.bool_, float: np.float64, int: np.int64}[conv])
        for ix in np.ndindex(*self.elem.shape):
            v = self.elem[ix]
            if isinstance(v, (R, B)):
                raise Unsupported("numpy() of a symbolic tensor")
            out[ix] = conv(v)
        return out

    def __array__(self, dtype=None, copy=None):
        a = self.numpy()
        return a if dtype is None else a.astype(dtype)

    @classmethod
    def __torch_function__(cls, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        h = _TF.get(func)
        if h is not None:
            return h(*args, **kwargs)
        name = getattr(func, "__name__", "")
        if name == "__set__" and func == _DATA_SET:
            return _set_data(*args)
        with torch._C.DisableTorchFunctionSubclass():
            return func(*args, **kwargs)

    @classmethod
    def __torch_dispatch__(cls, func, types, args=(), kwargs=None):
        return dispatch(func, args, kwargs or {})


_DATA_SET = torch.Tensor.data.__set__


def _set_data(t, v):
    v = wrap(v)
    if not isinstance(t, SymTensor):
        raise Unsupported(".data assignment to plain tensor")
    with torch._C.DisableTorchFunctionSubclass():
        _DATA_SET(t, v)
    t.elem = v.elem


def pyval(x):
    t = type(x)
    if t is Lazy:
        return x.force()
    if t is B:
        return sym.truth(x)
    if t is Fraction:
        return float(x)
    return x


def _tolist(t):
    isf = t.dtype in FLOATS

    def go(a):
        if isinstance(a, list):
            return [go(v) for v in a]
        v = pyval(a)
        return float(v) if isf and type(v) is int else v
    return go(t.elem.tolist())


def _item(t):
    if t.elem.size != 1:
        raise RuntimeError("a Tensor with %d elements cannot be converted to Scalar" % t.elem.size)
    v = pyval(t.elem.reshape(-1)[0])
    if t.dtype in FLOATS and type(v) is int:
        v = float(v)
    return v


class ObjArray(np.ndarray):
    """array of symbolic scalars; a conversion to a floating type leaves it as it is"""

    def astype(self, dtype=None, *a, **k):
        if dtype is not None and np.issubdtype(np.dtype(dtype), np.floating):
            return self
        return np.asarray(self).astype(dtype, *a, **k)


NUMPY_OBJECTS = [False]      # numpy() of a symbolic tensor yields an object array of symbolic scalars


def _numpy(t, *a, **k):
    if NUMPY_OBJECTS[0]:
        return t.elem.copy().view(ObjArray)
    if any(type(x) in (R,) for x in t.elem.reshape(-1)):
        raise Unsupported("numpy() of symbolic tensor")
    return to_plain(t).numpy()


def to_plain(t):
    """concretise (forces lazies); symbolic reals are unsupported"""
    if not isinstance(t, SymTensor):
        return t
    vals = _tolist(t)

    def chk(v):
        if isinstance(v, list):
            for x in v:
                chk(x)
        elif isinstance(v, R):
            raise Unsupported("symbolic value concretised")
    chk(vals)
    with torch.utils._python_dispatch._disable_current_modes():
        return torch.tensor(vals, dtype=t.dtype).reshape(tuple(t.shape))


def _isfinite(t):
    if t.dtype not in FLOATS:
        return torch.ones(tuple(t.shape), dtype=torch.bool)
    return out(mapn(lambda x: not (type(x) is float and (x != x or x in (math.inf, -math.inf))), t.elem), torch.bool)


_TF = {
    torch.isfinite: _isfinite,
    torch.Tensor.isfinite: _isfinite,
    torch.Tensor.tolist: _tolist,
    torch.Tensor.item: _item,
    torch.Tensor.numpy: _numpy,
    torch.Tensor.__array__: lambda t, *a, **k: _numpy(t),
    torch.Tensor.__repr__: lambda t, **k: SymTensor.__repr__(t),
    torch.Tensor.__format__: lambda t, spec: SymTensor.__repr__(t),
    torch.Tensor.__float__: lambda t: _pyfloat(t),
    torch.Tensor.__bool__: lambda t: bool(_item(t)) if type(t.elem.reshape(-1)[0] if t.elem.size == 1 else 0) is not R else sym.truthy(t.elem.reshape(-1)[0]),
    torch.Tensor.__int__: lambda t: int(_item(t)),
}
if hasattr(torch.Tensor, "untyped_storage"):
    pass


def _pyfloat(t):
    v = _item(t)
    if isinstance(v, R):
        raise Unsupported("float() of symbolic value")
    return float(v)


def wrap(t):
    if isinstance(t, SymTensor):
        return t
    if isinstance(t, torch.Tensor):
        return SymTensor(from_torch(t), t.dtype)
    raise Unsupported(f"wrap {type(t)}")


class SymMode(TorchDispatchMode):
    """all tensor operations executed under this mode are interpreted symbolically"""

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        return dispatch(func, args, kwargs or {})


# ------------------------------------------------------------------ dispatch
H = {}        # packet name -> handler(func, *args, **kwargs)


def reg(*names):
    def deco(f):
        for n in names:
            H[n] = f
        return f
    return deco


def out(elem, dtype):
    if not isinstance(elem, np.ndarray):
        elem = obj(elem)
    return SymTensor(elem, dtype)


def _wr(x):
    return wrap(x) if isinstance(x, torch.Tensor) else x


def _wr_arg(x):
    if type(x) is SymTensor:
        return x
    if isinstance(x, torch.Tensor):
        return wrap(x)
    if isinstance(x, (list, tuple)):
        return type(x)(_wr_arg(v) for v in x) if type(x) in (list, tuple) else tree_map(_wr, x)
    return x


def _retag(r):
    return r


_NAMES = {}
DECOMP = torch._decomp.decomposition_table
_mode_depth = 0


def dispatch(func, args, kwargs):
    nb = _NAMES.get(func)
    if nb is None:
        name = func._schema.name.split("::")
        nb = _NAMES[func] = (name[0], name[1])
    ns, base = nb
    if ns == "profiler":            # bookkeeping of optimizers and data loaders
        with torch.utils._python_dispatch._disable_current_modes():
            return func(*args, **(kwargs or {}))
    if ns not in ("aten", "prim", "prims"):
        raise Unsupported(f"op {func}")
    OPLOG[base] = OPLOG.get(base, 0) + 1
    args = tuple(_wr_arg(a) for a in args)
    if kwargs:
        kwargs = {k: _wr_arg(v) for k, v in kwargs.items()}
    h = H.get(base)
    if h is not None:
        outt = kwargs.pop("out", None) if "out" in kwargs else None
        r = h(func, *args, **kwargs)
        if outt is not None:
            _copy_into(outt, r)
            return outt
        return r
    # in-place variant of a known functional op
    if base.endswith("_") and base[:-1] in H and not base.endswith("__"):
        r = H[base[:-1]](func, *args, **kwargs)
        _copy_into(args[0], r)
        return args[0]
    overload = func._overloadname
    if overload == "out" or overload.endswith("_out"):
        raise Unsupported(f"op {func}")
    d = DECOMP.get(func)
    if d is not None and base not in NO_DECOMP:
        with SymMode():
            return d(*args, **kwargs)
    if func._can_decompose():
        with SymMode():
            r = func.decompose(*args, **kwargs)
        if r is not NotImplemented:
            return r
    # concrete fallback: no symbolic content at all
    flat = []
    tree_map(lambda x: flat.append(x) if isinstance(x, SymTensor) else None, (args, kwargs))
    if all(not any(type(v) in (R, B, Lazy) for v in t.elem.reshape(-1)) for t in flat) and not base.endswith("_") \
            and base not in RANDOM:
        pa, pk = tree_map(lambda x: to_plain(x) if isinstance(x, SymTensor) else x, (args, kwargs))
        with torch.utils._python_dispatch._disable_current_modes():
            r = func(*pa, **pk)
        return tree_map(_wr, r)
    raise Unsupported(f"op {func}")


NO_DECOMP = {"bernoulli", "uniform", "exponential", "geometric", "normal", "multinomial"}
RANDOM = {"rand", "randn", "bernoulli", "multinomial", "normal", "randint", "randperm", "poisson", "rand_like", "randn_like",
          "randint_like", "_standard_gamma", "binomial", "uniform", "exponential", "geometric", "_sample_dirichlet"}


def _copy_into(dst, src):
    if isinstance(src, SymTensor):
        dst.elem[...] = cast(src.elem, src.dtype, dst.dtype)
    else:
        dst.elem[...] = src


def cast(e, fr, to):
    if fr == to:
        return e
    if fr in FLOATS and to in FLOATS:
        return e
    return mapn(lambda x: cast_scalar(x, to), e)


def mapn(f, *arrs):
    """elementwise map with broadcasting; always returns an object ndarray"""
    if len(arrs) == 1:
        a = arrs[0]
        o = np.empty(a.shape, dtype=object)
        if a.shape == ():
            o[()] = f(a[()])
            return o
        of, af = o.reshape(-1), a.reshape(-1)
        for i in range(af.size):
            of[i] = f(af[i])
        return o
    bs = np.broadcast_arrays(*arrs)
    o = np.empty(bs[0].shape, dtype=object)
    if o.shape == ():
        o[()] = f(*[b[()] for b in bs])
        return o
    of = o.reshape(-1)
    fl = [b.reshape(-1) for b in bs]
    for i in range(of.size):
        of[i] = f(*[b[i] for b in fl])
    return o


def rt(*xs):
    """result dtype of tensors / python scalars"""
    cur = None
    ts = [x for x in xs if isinstance(x, torch.Tensor)]
    with torch.utils._python_dispatch._disable_current_modes():
        metas = [torch.empty((1,) * (1 if x.dim() > 0 else 0), dtype=x.dtype) if isinstance(x, torch.Tensor)
                 else (float(x) if isinstance(x, (R, Fraction)) and not isinstance(x, int) and not isinstance(x, R) else (1.5 if isinstance(x, R) else x)) for x in xs]
        if len(metas) == 1:
            return metas[0].dtype
        cur = torch.result_type(metas[0], metas[1])
        for i in range(2, len(metas)):
            cur = torch.result_type(torch.empty((1,), dtype=cur), metas[i])
    return cur


def flt(dt):
    return dt if dt in FLOATS else torch.get_default_dtype()


def A(x, dt):
    """operand as array in representation of dtype dt"""
    if isinstance(x, SymTensor):
        return cast(x.elem, x.dtype, dt)
    return obj(to_elem_scalar(x, dt))


def isz(x):
    return type(x) in (int, bool, float, Fraction) and not (isinstance(x, float) and x != x) and abs(x) <= sym.EPS_IDEAL


# ---- arithmetic ------------------------------------------------------------------------------
def s_add(a, b):
    if type(a) is int and type(b) is int:
        return a + b
    # idealise tiny stabilisers
    if type(a) is R and type(b) is Fraction and abs(b) <= sym.EPS_IDEAL:
        return a
    if type(b) is R and type(a) is Fraction and abs(a) <= sym.EPS_IDEAL:
        return b
    return sym.add(a, b)


def s_mul(a, b):
    if type(a) is int and type(b) is int:
        return a * b
    if type(a) is bool and type(b) is bool:
        return a and b
    if type(a) is B and type(b) is Fraction and b == 0 or type(b) is B and type(a) is Fraction and a == 0:
        return F0
    return sym.mul(_n(a), _n(b))


def _n(a):
    return a if type(a) in (Fraction, R, float) else sym.num(a)


def s_sub(a, b):
    if type(a) is int and type(b) is int:
        return a - b
    if type(a) is R and type(b) is Fraction and 0 < abs(b) <= sym.EPS_IDEAL:
        return a
    return sym.add(_n(a), sym.neg(_n(b)))


def keep_int(dt, f):
    """post-process for integer dtypes: results back to int"""
    if dt in FLOATS:
        return f

    def g(*a):
        r = f(*[x.force() if type(x) is Lazy else x for x in a])
        if dt == torch.bool:
            return r if type(r) in (bool, B) else bool(r != 0)
        return int(r) if type(r) in (Fraction, bool) else r
    return g


def binop(f):
    def h(func, a, b, **kw):
        dt = rt(a, b)
        alpha = kw.get("alpha", 1)
        if alpha != 1:
            b2 = A(b, dt)
            al = to_elem_scalar(alpha, dt)
            b2 = mapn(keep_int(dt, lambda x: s_mul(x, al)), b2)
            return out(mapn(keep_int(dt, f), A(a, dt), b2), dt)
        return out(mapn(keep_int(dt, f), A(a, dt), A(b, dt)), dt)
    return h


def b_or_add(a, b):
    if type(a) in (bool, B) and type(b) in (bool, B):
        return sym.or_(a, b)
    return s_add(a, b)


def b_and_mul(a, b):
    if type(a) in (bool, B) and type(b) in (bool, B):
        return sym.and_(a, b)
    return s_mul(a, b)


H["add"] = binop(b_or_add)
H["sub"] = binop(s_sub)
H["mul"] = binop(b_and_mul)
H["add_"] = lambda func, a, b, **k: (_copy_into(a, H["add"](func, a, b, **k)), a)[1]


@reg("rsub")
def _(func, a, b, alpha=1):
    return H["sub"](func, b, a, alpha=alpha) if isinstance(b, SymTensor) else H["sub"](func, out(obj(to_elem_scalar(b, rt(a, b))), rt(a, b)), a, alpha=alpha)


def s_div(x, y):
    if type(y) is Lazy and y.tag == "count" and type(x) is Fraction and x == 0:
        return NAN if y.conds[0] is not False and sym.truthy(y.conds[0]) else F0   # 0 / a count of conditions
    return sym.div(_n(x), _n(y))


@reg("div", "true_divide")
def _(func, a, b, rounding_mode=None):
    dt = rt(a, b)
    if rounding_mode is None:
        dt = flt(dt)
        return out(mapn(s_div, A(a, dt), A(b, dt)), dt)

    def f(x, y):
        x, y = pyv(x), pyv(y)
        if isinstance(x, R) or isinstance(y, R):
            raise Unsupported("floor div symbolic")
        if y == 0 or isinstance(x, float) or isinstance(y, float):
            if dt in FLOATS:
                return sym.from_float(float(x) // float(y)) if y != 0 else NAN
            raise RuntimeError("ZeroDivisionError")
        q = Fraction(x) / Fraction(y)
        q = math.floor(q) if rounding_mode == "floor" else math.trunc(q)
        return Fraction(q) if dt in FLOATS else int(q)
    return out(mapn(f, A(a, dt), A(b, dt)), dt)


@reg("floor_divide")
def _(func, a, b):
    return H["div"](func, a, b, rounding_mode="floor")


def pyv(x):
    if type(x) is Lazy:
        return x.force()
    if type(x) is B:
        return sym.truth(x)
    return x


@reg("remainder", "fmod")
def _(func, a, b):
    dt = rt(a, b)
    tr = func._schema.name.endswith("fmod")

    def f(x, y):
        x, y = pyv(x), pyv(y)
        if isinstance(x, R) or isinstance(y, R):
            raise Unsupported("remainder symbolic")
        if isinstance(x, float) or isinstance(y, float) or y == 0:
            return NAN
        return (math.fmod(x, y) if tr else x % y)
    return out(mapn(f, A(a, dt), A(b, dt)), dt)


@reg("pow")
def _(func, a, b):
    dt = rt(a, b)

    def f(x, y):
        if type(x) is int and type(y) is int:
            return x ** y if y >= 0 else 0
        return sym.power(_n(x), _n(y))
    return out(mapn(keep_int(dt, f), A(a, dt), A(b, dt)), dt)


def unop(f, float_out=True, keep=True):
    def h(func, a, *args, **kw):
        dt = flt(a.dtype) if float_out else a.dtype
        return out(mapn(f, cast(a.elem, a.dtype, dt)), dt)
    return h


H["neg"] = lambda func, a: out(mapn(keep_int(a.dtype, lambda x: sym.neg(_n(x)) if type(x) is not int else -x), a.elem), a.dtype)
H["exp"] = unop(lambda x: sym.exp(_n(x)))
H["expm1"] = unop(lambda x: sym.sub(sym.exp(_n(x)), F1))
H["log"] = unop(lambda x: sym.log(_n(x)))
H["log2"] = unop(lambda x: sym.div(sym.log(_n(x)), sym.log(Fraction(2))))
H["log10"] = unop(lambda x: sym.div(sym.log(_n(x)), sym.log(Fraction(10))))
H["log1p"] = unop(lambda x: sym.log(s_add(F1, _n(x))))
H["sqrt"] = unop(lambda x: sym.sqrt(_n(x)))
H["rsqrt"] = unop(lambda x: sym.power(_n(x), Fraction(-1, 2)))
H["reciprocal"] = unop(lambda x: sym.div(F1, _n(x)))
H["sigmoid"] = unop(lambda x: s_sigmoid(_n(x)))
H["square"] = unop(lambda x: s_mul(x, x), False)
H["lgamma"] = unop(lambda x: sym.lgamma(_n(x)))
H["erf"] = unop(lambda x: sym.fn("erf", _n(x)))
H["erfc"] = unop(lambda x: sym.sub(F1, sym.fn("erf", _n(x))))
H["special_ndtr"] = unop(lambda x: sym.mul(Fraction(1, 2), sym.add(F1, sym.fn("erf", s_mul(_n(x), sym.power(Fraction(2), Fraction(-1, 2)))))))
H["igamma"] = lambda func, a, b: out(mapn(lambda x, y: sym.fn("igamma", _n(x), _n(y)), A(a, rt(a, b)), A(b, rt(a, b))), rt(a, b))
H["special_gammainc"] = H["igamma"]
H["erfinv"] = unop(lambda x: sym.fn("erfinv", _n(x)))
H["i0"] = H["special_i0"] = unop(lambda x: sym.fn("i0", _n(x)))
H["digamma"] = unop(lambda x: sym.fn("digamma", _n(x)))
H["sin"] = unop(lambda x: sym.fn("sin", _n(x)))
H["cos"] = unop(lambda x: sym.fn("cos", _n(x)))
H["atan"] = unop(lambda x: sym.fn("atan", _n(x)))
H["relu"] = unop(lambda x: s_max2(x, F0), False)


def s_tanh(x):
    e = sym.exp(sym.mul(Fraction(2), x))
    if type(e) is float:
        return F1 if e == INF else NAN
    return sym.div(sym.sub(e, F1), sym.add(e, F1))


H["tanh"] = unop(lambda x: s_tanh(_n(x)))


def s_sigmoid(x):
    if type(x) is float:
        return NAN if x != x else (F1 if x > 0 else F0)
    e = sym.exp(x)
    return sym.div(e, sym.add(F1, e))


def s_softplus(x):
    if type(x) is float:
        return NAN if x != x else (INF if x > 0 else F0)
    return sym.log(sym.add(F1, sym.exp(x)))


@reg("softplus")
def _(func, a, beta=1, threshold=20):
    b = to_elem_scalar(beta, a.dtype)
    return out(mapn(lambda x: sym.div(s_softplus(s_mul(b, _n(x))), b), a.elem), a.dtype)


@reg("softplus_backward")
def _(func, g, a, beta, threshold):
    b = to_elem_scalar(beta, a.dtype)
    return out(mapn(lambda gg, x: s_mul(gg, s_sigmoid(s_mul(b, _n(x)))), g.elem, a.elem), a.dtype)


@reg("log_sigmoid_forward")
def _(func, a):
    r = out(mapn(lambda x: sym.neg(s_softplus(sym.neg(_n(x)))), a.elem), a.dtype)
    return r, out(np.empty((0,), dtype=object), a.dtype)


@reg("log_sigmoid_backward")
def _(func, g, a, buf):
    return out(mapn(lambda gg, x: s_mul(gg, s_sigmoid(sym.neg(_n(x)))), g.elem, a.elem), a.dtype)


@reg("sigmoid_backward")
def _(func, g, o):
    return out(mapn(lambda gg, s: s_mul(s_mul(gg, s), sym.sub(F1, _n(s))), g.elem, o.elem), g.dtype)


@reg("binary_cross_entropy_with_logits")
def _(func, inp, target, weight=None, pos_weight=None, reduction=1):
    if weight is not None or pos_weight is not None:
        raise Unsupported("bce weights")

    def f(x, t):
        x, t = _n(x), _n(t)
        if type(t) is Fraction and t == 1:
            return s_softplus(sym.neg(x))
        if type(t) is Fraction and t == 0:
            return s_softplus(x)
        return sym.add(sym.mul(t, s_softplus(sym.neg(x))), sym.mul(sym.sub(F1, t), s_softplus(x)))
    e = mapn(f, inp.elem, target.elem)
    if reduction == 0:
        return out(e, inp.dtype)
    s = sym.add_many(list(e.reshape(-1)))
    return out(s if reduction == 2 else sym.div(s, Fraction(e.size)), inp.dtype)


@reg("xlogy")
def _(func, a, b):
    dt = flt(rt(a, b))

    def f(x, y):
        x, y = _n(x), _n(y)
        if type(x) is Fraction and x == 0:
            return NAN if type(y) is float and y != y else F0
        return sym.mul(x, sym.log(y))
    return out(mapn(f, A(a, dt), A(b, dt)), dt)


@reg("mvlgamma")
def _(func, a, p):
    if p != 1:
        raise Unsupported("mvlgamma")
    return out(mapn(lambda x: sym.lgamma(_n(x)), a.elem), a.dtype)


def s_round(fn):
    def f(x):
        x = pyv(x)
        if type(x) is R:
            i = const_int(x)
            if i is not None:
                return Fraction(i)
            return sym.fn({"floor": "floor", "ceil": "ceil"}[fn.__name__], x)
        if type(x) is float:
            return x
        return Fraction(fn(x)) if type(x) is Fraction else x
    return f


H["floor"] = unop(s_round(math.floor), False)
H["ceil"] = unop(s_round(math.ceil), False)
H["trunc"] = unop(s_round(math.trunc), False)
H["round"] = unop(s_round(round), False)
H["frac"] = unop(lambda x: x - math.trunc(x), False)


@reg("abs")
def _(func, a):
    return out(mapn(keep_int(a.dtype, lambda x: abs(x) if type(x) is int else sym.abs_(_n(x))), a.elem), a.dtype)


@reg("sign", "sgn")
def _(func, a):
    return out(mapn(keep_int(a.dtype, lambda x: sym.sign(_n(x))), a.elem), a.dtype)


# ---- comparison / logic ----------------------------------------------------------------------
def cmpop(f):
    def h(func, a, b):
        dt = rt(a, b)
        return out(mapn(f, A(a, dt), A(b, dt)), torch.bool)
    return h


def _lzc(x):
    return x.force() if type(x) is Lazy else x


H["lt"] = H["less"] = cmpop(lambda a, b: sym.lt(_lzc(a), _lzc(b)))
H["le"] = H["less_equal"] = cmpop(lambda a, b: sym.le(_lzc(a), _lzc(b)))
H["gt"] = H["greater"] = cmpop(lambda a, b: sym.lt(_lzc(b), _lzc(a)))
H["ge"] = H["greater_equal"] = cmpop(lambda a, b: sym.le(_lzc(b), _lzc(a)))
H["eq"] = cmpop(lambda a, b: sym.eq(_lzc(a), _lzc(b)))
H["ne"] = H["not_equal"] = cmpop(lambda a, b: (True if (type(a) is float and a != a) else sym.not_(sym.eq(_lzc(a), _lzc(b)))))


@reg("isnan")
def _(func, a):
    return out(mapn(lambda x: type(x) is float and x != x, a.elem), torch.bool)


@reg("isinf")
def _(func, a):
    return out(mapn(lambda x: type(x) is float and x == x, a.elem), torch.bool)


@reg("isposinf")
def _(func, a):
    return out(mapn(lambda x: type(x) is float and x == INF, a.elem), torch.bool)


@reg("isneginf")
def _(func, a):
    return out(mapn(lambda x: type(x) is float and x == NINF, a.elem), torch.bool)


@reg("isfinite")
def _(func, a):
    return out(mapn(lambda x: type(x) is not float, a.elem), torch.bool)


def tb(x):
    """element -> boolean (bool or B)"""
    if type(x) in (bool, B):
        return x
    return cast_scalar(x, torch.bool)


H["logical_not"] = lambda func, a: out(mapn(lambda x: sym.not_(tb(x)), a.elem), torch.bool)
H["logical_and"] = lambda func, a, b: out(mapn(lambda x, y: sym.and_(tb(x), tb(y)), a.elem, b.elem), torch.bool)
H["logical_or"] = lambda func, a, b: out(mapn(lambda x, y: sym.or_(tb(x), tb(y)), a.elem, b.elem), torch.bool)
H["logical_xor"] = lambda func, a, b: out(mapn(lambda x, y: sym.not_(sym.eq(tb(x), tb(y))), a.elem, b.elem), torch.bool)


def bitop(fb, fi):
    def h(func, a, b):
        dt = rt(a, b)
        if dt == torch.bool:
            return out(mapn(lambda x, y: fb(tb(x), tb(y)), A(a, dt), A(b, dt)), dt)
        return out(mapn(lambda x, y: fi(int(_lzc(x)), int(_lzc(y))), A(a, dt), A(b, dt)), dt)
    return h


H["bitwise_and"] = H["__and__"] = bitop(sym.and_, lambda x, y: x & y)
H["bitwise_or"] = H["__or__"] = bitop(sym.or_, lambda x, y: x | y)
H["bitwise_xor"] = H["__xor__"] = bitop(lambda x, y: sym.not_(sym.eq(x, y)), lambda x, y: x ^ y)
H["bitwise_left_shift"] = H["__lshift__"] = bitop(None, lambda x, y: x << y)
H["bitwise_right_shift"] = H["__rshift__"] = bitop(None, lambda x, y: x >> y)


def _inplace(name):
    def h(func, a, *r, **k):
        _copy_into(a, H[name](func, a, *r, **k))
        return a
    return h


for _nm in ("and", "or", "xor"):
    H[f"__i{_nm}__"] = _inplace(f"bitwise_{_nm}")


@reg("bitwise_not")
def _(func, a):
    if a.dtype == torch.bool:
        return out(mapn(lambda x: sym.not_(tb(x)), a.elem), torch.bool)
    return out(mapn(lambda x: ~int(_lzc(x)), a.elem), a.dtype)


def s_where(c, x, y):
    if type(c) is bool:
        return x if c else y
    if type(c) is Lazy:
        return x if c.force() else y
    if x is y or (type(x) is type(y) and type(x) in (R, Fraction, int, bool) and x == y):
        return x
    return x if sym.truth(c) else y


@reg("where")
def _(func, c, *ab):
    if not ab:
        return tuple(H["nonzero_numpy"](func, c))
    a, b = ab
    dt = rt(a, b)
    return out(mapn(s_where, c.elem, A(a, dt), A(b, dt)), dt)


def s_max2(a, b):
    if type(a) in (int, Lazy) and type(b) in (int, Lazy):
        return max(_lzc(a), _lzc(b))
    a, b = _n(a), _n(b)
    if (type(a) is float and a != a) or (type(b) is float and b != b):
        return NAN
    if type(a) is R and type(b) is Fraction and 0 < b <= sym.EPS_IDEAL:
        b = F0
    if type(b) is R and type(a) is Fraction and 0 < a <= sym.EPS_IDEAL:
        a = F0
    if type(a) in (Fraction, float) and type(b) in (Fraction, float):
        if sym.S.ideal_floor is not None:
            a, b = (a if not 0 < a <= sym.S.ideal_floor else F0), (b if not 0 < b <= sym.S.ideal_floor else F0)
        return a if a >= b else b
    if type(a) is float:
        return a if a == INF else b
    if type(b) is float:
        return b if b == INF else a
    # huge constants act as infinities
    for x, y in ((a, b), (b, a)):
        if type(x) is Fraction and type(y) is R:
            if x <= -10 ** 6:
                return y
            if x >= 10 ** 6:
                return x
            if x <= 0 and y.pos:
                return y
    s = sym.known_sign(sym.sub(a, b))
    if s is not None:
        return a if s >= 0 else b
    return a if sym.truth(sym.le(b, a)) else b


def s_min2(a, b):
    if type(a) in (int, Lazy) and type(b) in (int, Lazy):
        return min(_lzc(a), _lzc(b))
    a, b = _n(a), _n(b)
    if (type(a) is float and a != a) or (type(b) is float and b != b):
        return NAN
    # 1 - tiny acts as 1
    for x in (a, b):
        pass
    if type(a) is R and type(b) is Fraction and b < 1 and 1 - b <= sym.EPS_IDEAL:
        b = F1
    if type(b) is R and type(a) is Fraction and a < 1 and 1 - a <= sym.EPS_IDEAL:
        a = F1
    for x, y in ((a, b), (b, a)):
        if type(x) is Fraction and type(y) is R:
            if x >= 10 ** 6:
                return y
            if x <= -10 ** 6:
                return x
    if type(a) is float:
        return b if a == INF else a
    if type(b) is float:
        return a if b == INF else b
    if type(a) is Fraction and type(b) is Fraction:
        return min(a, b)
    s = sym.known_sign(sym.sub(a, b))
    if s is not None:
        return b if s >= 0 else a
    return a if sym.truth(sym.le(a, b)) else b


H["maximum"] = binop(s_max2)
H["minimum"] = binop(s_min2)
H["fmax"] = binop(lambda a, b: b if (type(a) is float and a != a) else (a if (type(b) is float and b != b) else s_max2(a, b)))
H["fmin"] = binop(lambda a, b: b if (type(a) is float and a != a) else (a if (type(b) is float and b != b) else s_min2(a, b)))


def clamp_scalar(x, lo, hi):
    if type(x) is float and x != x:
        return x
    if lo is not None:
        x = s_max2(x, lo)
    if hi is not None:
        x = s_min2(x, hi)
    return x


@reg("clamp", "clip")
def _(func, a, min=None, max=None):
    dt = a.dtype
    for m in (min, max):
        if m is not None:
            dt = rt(out(a.elem, dt), m)
    e = A(a, dt)
    lo = A(min, dt) if min is not None else obj(None)
    hi = A(max, dt) if max is not None else obj(None)
    return out(mapn(clamp_scalar, e, lo, hi), dt)


H["clamp_min"] = lambda func, a, m: H["clamp"](func, a, m, None)
H["clamp_max"] = lambda func, a, m: H["clamp"](func, a, None, m)


@reg("nan_to_num")
def _(func, a, nan=None, posinf=None, neginf=None):
    big = torch.finfo(a.dtype).max
    n = to_elem_scalar(0.0 if nan is None else nan, a.dtype)
    p = to_elem_scalar(big if posinf is None else posinf, a.dtype)
    q = to_elem_scalar(-big if neginf is None else neginf, a.dtype)
    return out(mapn(lambda x: (n if x != x else (p if x > 0 else q)) if type(x) is float else x, a.elem), a.dtype)


@reg("masked_fill")
def _(func, a, mask, value):
    v = A(value, a.dtype)
    return out(mapn(s_where, mask.elem, v, a.elem), a.dtype)


@reg("masked_scatter")
def _(func, a, mask, src):
    raise Unsupported("masked_scatter")


@reg("masked_select")
def _(func, a, mask):
    m, e = np.broadcast_arrays(concrete_bool(mask.elem), a.elem)
    return out(e[m.astype(bool)], a.dtype)


# ---- factories / copies ----------------------------------------------------------------------
def full_arr(shape, v):
    e = np.empty(tuple(shape), dtype=object)
    e[...] = v
    return e


def _dt(dtype):
    return dtype if dtype is not None else torch.get_default_dtype()


@reg("full")
def _(func, size, v, dtype=None, **k):
    if dtype is None:
        dtype = torch.bool if isinstance(v, bool) else (torch.int64 if isinstance(v, int) else torch.get_default_dtype())
    return out(full_arr(size, to_elem_scalar(v, dtype)), dtype)


@reg("zeros", "empty", "new_zeros_")
def _(func, size, dtype=None, **k):
    return out(full_arr(size, to_elem_scalar(0, _dt(dtype))), _dt(dtype))


@reg("ones")
def _(func, size, dtype=None, **k):
    return out(full_arr(size, to_elem_scalar(1, _dt(dtype))), _dt(dtype))


def like(v):
    def h(func, a, *args, dtype=None, **k):
        dt = dtype or a.dtype
        vv = args[0] if v is None else v
        return out(full_arr(a.shape, to_elem_scalar(vv, dt)), dt)
    return h


H["zeros_like"] = H["empty_like"] = like(0)
H["ones_like"] = like(1)
H["full_like"] = like(None)


def newf(v):
    def h(func, a, size, *args, dtype=None, **k):
        dt = dtype or a.dtype
        vv = args[0] if v is None else v
        return out(full_arr(size, to_elem_scalar(vv, dt)), dt)
    return h


H["new_zeros"] = H["new_empty"] = newf(0)
H["new_ones"] = newf(1)
H["new_full"] = newf(None)
H["new_empty_strided"] = lambda func, a, size, stride, dtype=None, **k: out(full_arr(size, to_elem_scalar(0, dtype or a.dtype)), dtype or a.dtype)
H["empty_strided"] = lambda func, size, stride, dtype=None, **k: out(full_arr(size, to_elem_scalar(0, _dt(dtype))), _dt(dtype))


@reg("scalar_tensor")
def _(func, v, dtype=None, **k):
    return out(to_elem_scalar(v, _dt(dtype)), _dt(dtype))


@reg("arange")
def _(func, *args, dtype=None, **k):
    with torch.utils._python_dispatch._disable_current_modes():
        return wrap(torch.arange(*args, dtype=dtype))


@reg("triu_indices", "tril_indices")
def _(func, *args, dtype=None, **k):
    f = torch.triu_indices if "triu" in str(func) else torch.tril_indices
    k = {n: v for n, v in k.items() if n == "offset"}
    with torch.utils._python_dispatch._disable_current_modes():
        return wrap(f(*args, **k))


@reg("linspace")
def _(func, a, b, steps, dtype=None, **k):
    a, b = [sym.num(x.elem[()]) if isinstance(x, SymTensor) else sym.num(x) for x in (a, b)]
    d = sym.sub(b, a)
    e = np.empty((steps,), dtype=object)
    for i in range(steps):
        e[i] = sym.add(a, sym.mul(d, Fraction(i, max(steps - 1, 1))))
    return out(e, _dt(dtype))


@reg("eye")
def _(func, n, m=None, dtype=None, **k):
    m = n if m is None else m
    dt = _dt(dtype)
    e = full_arr((n, m), to_elem_scalar(0, dt))
    for i in range(min(n, m)):
        e[i, i] = to_elem_scalar(1, dt)
    return out(e, dt)


@reg("fill")
def _(func, a, v):
    return out(full_arr(a.shape, cast_scalar(v.elem[()], a.dtype) if isinstance(v, SymTensor) else to_elem_scalar(v, a.dtype)), a.dtype)


@reg("zero")
def _(func, a):
    return out(full_arr(a.shape, to_elem_scalar(0, a.dtype)), a.dtype)


@reg("copy")
def _(func, a, b, non_blocking=False):
    e = cast(b.elem, b.dtype, a.dtype)
    return out(np.broadcast_to(e, a.elem.shape).copy(), a.dtype)


@reg("copy_")
def _(func, a, b, non_blocking=False):
    e = cast(b.elem, b.dtype, a.dtype)
    if np.shares_memory(e, a.elem):
        e = e.copy()
    a.elem[...] = e
    return a


@reg("clone", "contiguous")
def _(func, a, memory_format=None):
    if memory_format in (None, torch.preserve_format) and a.elem.ndim > 1 and 0 not in a.elem.strides:
        return out(a.elem.copy(order="K"), a.dtype)
    return out(np.ascontiguousarray(a.elem).copy().reshape(a.elem.shape), a.dtype)


@reg("_to_copy", "to")
def _(func, a, *args, dtype=None, **k):
    dt = dtype or a.dtype
    return out(cast(a.elem, a.dtype, dt).copy(), dt)


@reg("lift_fresh", "lift", "lift_fresh_copy")
def _(func, a):
    return wrap(a)


@reg("resolve_conj", "resolve_neg", "positive")
def _(func, a):
    return a


@reg("_local_scalar_dense", "item")
def _(func, a):
    v = _item(a)
    if isinstance(v, R):
        if a.dtype == torch.bool:
            return sym.truthy(v)
        raise Unsupported("scalar of symbolic real")
    return v


@reg("is_nonzero")
def _(func, a):
    return sym.truthy(a.elem.reshape(-1)[0])


@reg("equal")
def _(func, a, b):
    if a.shape != b.shape:
        return False
    dt = rt(a, b)
    for x, y in zip(A(a, dt).reshape(-1), A(b, dt).reshape(-1)):
        if not sym.truth(sym.eq(_lzc(x), _lzc(y))):
            return False
    return True


@reg("isclose")
def _(func, a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    def f(x, y):
        x, y = _n(x), _n(y)
        if type(x) is float or type(y) is float:
            return (x != x and y != y and equal_nan) if (x != x or y != y) else x == y
        if type(x) is Fraction and type(y) is Fraction:
            return abs(x - y) <= Fraction(atol) + Fraction(rtol) * abs(y)
        return sym.eq(x, y)
    return out(mapn(f, a.elem, b.elem), torch.bool)


@reg("allclose")
def _(func, a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r = H["isclose"](func, a, b, rtol, atol, equal_nan)
    c = True
    for x in r.elem.reshape(-1):
        c = sym.and_(c, x)
    return sym.truth(c)


# ---- views -----------------------------------------------------------------------------------
def nd(d, n):
    return d + n if d < 0 else d


def view_like(a, size):
    size = list(size)
    n = a.elem.size
    if -1 in size:
        i = size.index(-1)
        p = 1
        for j, s in enumerate(size):
            if j != i:
                p *= s
        size[i] = n // p if p else 0
    r = a.elem.reshape(size)
    return r


@reg("view", "_unsafe_view", "reshape", "_reshape_alias", "_reshape_copy", "view_copy")
def _(func, a, size, *r):
    if isinstance(size, torch.dtype):
        raise Unsupported("view dtype")
    e = view_like(a, size)
    return out(e, a.dtype)


@reg("flatten")
def _(func, a, s=0, e=-1):
    n = a.dim()
    if n == 0:
        return out(a.elem.reshape(1), a.dtype)
    s, e = nd(s, n), nd(e, n)
    sh = list(a.shape)
    return out(a.elem.reshape(sh[:s] + [int(np.prod(sh[s:e + 1]))] + sh[e + 1:]), a.dtype)


@reg("alias", "detach", "view_as", "alias_copy", "detach_copy")
def _(func, a, *r):
    return out(a.elem.view() if a.elem.ndim else a.elem, a.dtype)


@reg("t")
def _(func, a):
    return out(a.elem.T if a.dim() == 2 else a.elem, a.dtype)


@reg("transpose", "swapaxes")
def _(func, a, d0, d1):
    return out(np.swapaxes(a.elem, d0, d1) if a.dim() else a.elem, a.dtype)


@reg("permute")
def _(func, a, dims):
    return out(np.transpose(a.elem, [nd(d, a.dim()) for d in dims]), a.dtype)


@reg("expand", "expand_copy")
def _(func, a, size, implicit=False):
    size = list(size)
    off = len(size) - a.dim()
    for i, s in enumerate(size):
        if s == -1:
            size[i] = a.shape[i - off]
    return out(np.broadcast_to(a.elem, size), a.dtype)


@reg("squeeze")
def _(func, a, dim=None):
    if dim is None:
        return out(np.squeeze(a.elem) if a.dim() else a.elem, a.dtype)
    ds = [dim] if isinstance(dim, int) else list(dim)
    n = max(a.dim(), 1)
    ds = sorted({nd(d, n) for d in ds}, reverse=True)
    e = a.elem
    for d in ds:
        if a.dim() and e.shape[d] == 1:
            e = np.squeeze(e, axis=d)
    return out(e, a.dtype)


@reg("unsqueeze")
def _(func, a, dim):
    return out(np.expand_dims(a.elem, nd(dim, a.dim() + 1)), a.dtype)


def nparr(e):
    return e if isinstance(e, np.ndarray) else obj(e)


@reg("select")
def _(func, a, dim, index):
    dim = nd(dim, a.dim())
    index = int(index)
    n = a.shape[dim]
    if not -n <= index < n:
        raise IndexError(f"select(): index {index} out of range for tensor of size {list(a.shape)} at dimension {dim}")
    if index < 0:
        index += n
    idx = [slice(None)] * a.dim()
    idx[dim] = slice(index, index + 1)
    e = a.elem[tuple(idx)]
    return out(np.squeeze(e, axis=dim), a.dtype)


@reg("slice", "slice_copy")
def _(func, a, dim=0, start=None, end=None, step=1):
    dim = nd(dim, a.dim())
    n = a.shape[dim]
    start = 0 if start is None else start
    end = n if end is None else end
    start = max(0, start + n) if start < 0 else min(start, n)
    end = max(0, end + n) if end < 0 else min(end, n)
    idx = [slice(None)] * a.dim()
    idx[dim] = slice(start, max(start, end), step)
    return out(a.elem[tuple(idx)], a.dtype)


@reg("as_strided")
def _(func, a, size, stride, offset=0):
    b = a.elem
    while isinstance(b.base, np.ndarray):
        b = b.base
    flat = b.reshape(-1)
    # locate a's first element in base
    off0 = (a.elem.__array_interface__["data"][0] - flat.__array_interface__["data"][0]) // 8
    if offset:
        off0 = offset if True else off0
    e = np.lib.stride_tricks.as_strided(flat[off0:], tuple(size), tuple(s * 8 for s in stride))
    return out(e, a.dtype)


@reg("unbind")
def _(func, a, dim=0):
    return tuple(H["select"](func, a, dim, i) for i in range(a.shape[dim]))


@reg("split")
def _(func, a, size, dim=0):
    if not isinstance(size, int):
        return H["split_with_sizes"](func, a, size, dim)
    n = a.shape[dim]
    return tuple(H["slice"](func, a, dim, i, min(i + size, n)) for i in range(0, max(n, 1), size))


@reg("split_with_sizes")
def _(func, a, sizes, dim=0):
    if sum(sizes) != a.shape[dim]:
        raise RuntimeError("split_with_sizes expects split_sizes to sum exactly")
    r, o = [], 0
    for s in sizes:
        r.append(H["slice"](func, a, dim, o, o + s))
        o += s
    return tuple(r)


@reg("chunk")
def _(func, a, chunks, dim=0):
    n = a.shape[dim]
    return H["split"](func, a, max(1, -(-n // chunks)), dim)


@reg("unfold")
def _(func, a, dim, size, step):
    dim = nd(dim, a.dim())
    w = np.lib.stride_tricks.sliding_window_view(a.elem, size, axis=dim, writeable=True)
    idx = [slice(None)] * w.ndim
    idx[dim] = slice(None, None, step)
    return out(w[tuple(idx)], a.dtype)


@reg("diagonal")
def _(func, a, offset=0, dim1=0, dim2=1):
    e = np.diagonal(a.elem, offset, dim1, dim2)
    try:
        e.setflags(write=True)
    except ValueError:
        pass
    return out(e, a.dtype)


@reg("cat", "concat")
def _(func, ts, dim=0):
    ts = [t for t in ts if not (t.dim() == 1 and t.shape[0] == 0)] or list(ts[:1])
    dt = ts[0].dtype
    for t in ts[1:]:
        dt = rt(out(np.empty((1,), object), dt), t)
    dim = nd(dim, ts[0].dim())
    for t in ts[1:]:
        for i, (x, y) in enumerate(zip(t.shape, ts[0].shape)):
            if i != dim and x != y:
                raise RuntimeError("Sizes of tensors must match except in dimension %d" % dim)
        if t.dim() != ts[0].dim():
            raise RuntimeError("Tensors must have same number of dimensions")
    return out(np.concatenate([A(t, dt) for t in ts], axis=dim), dt)


@reg("stack")
def _(func, ts, dim=0):
    for t in ts[1:]:
        if t.shape != ts[0].shape:
            raise RuntimeError("stack expects each tensor to be equal size")
    dt = ts[0].dtype
    for t in ts[1:]:
        dt = rt(out(np.empty((1,), object), dt), t)
    return out(np.stack([A(t, dt) for t in ts], axis=nd(dim, ts[0].dim() + 1)), dt)


@reg("repeat")
def _(func, a, reps):
    return out(np.tile(a.elem.reshape((1,) * (len(reps) - a.dim()) + a.elem.shape), reps), a.dtype)


@reg("repeat_interleave")
def _(func, a, *args, **k):
    if func._overloadname == "self_int":
        rep, dim = args[0], (args[1] if len(args) > 1 else k.get("dim"))
        return out(np.repeat(a.elem if dim is not None else a.elem.reshape(-1), rep, axis=dim if dim is not None else 0), a.dtype)
    if func._overloadname == "self_Tensor":
        rep = [int(_lzc(x)) for x in args[0].elem.reshape(-1)]
        dim = args[1] if len(args) > 1 else k.get("dim")
        e = a.elem if dim is not None else a.elem.reshape(-1)
        return out(np.repeat(e, rep if len(rep) > 1 else rep[0], axis=dim if dim is not None else 0), a.dtype)
    if func._overloadname == "Tensor":
        r = []
        for i, x in enumerate(a.elem.reshape(-1)):
            r += [i] * int(_lzc(x))
        e = np.empty(len(r), object)
        e[:] = r
        return out(e, torch.int64)
    raise Unsupported("repeat_interleave")


@reg("flip")
def _(func, a, dims):
    return out(np.flip(a.elem, [nd(d, a.dim()) for d in dims]).copy(), a.dtype)


@reg("roll")
def _(func, a, shifts, dims=()):
    return out(np.roll(a.elem, tuple(shifts), tuple(dims) if dims else None), a.dtype)


@reg("constant_pad_nd")
def _(func, a, pad, value=0):
    v = to_elem_scalar(value, a.dtype)
    n = a.dim()
    e = a.elem
    pw = [(0, 0)] * n
    idx = [slice(None)] * n
    for i in range(len(pad) // 2):
        d = n - 1 - i
        lo, hi = pad[2 * i], pad[2 * i + 1]
        idx[d] = slice(max(-lo, 0), e.shape[d] - max(-hi, 0))
        pw[d] = (max(lo, 0), max(hi, 0))
    e = e[tuple(idx)]
    return out(np.pad(e, pw, constant_values=v) if e.size or True else e, a.dtype)


def tri(up):
    def h(func, a, diagonal=0):
        n, m = a.shape[-2:]
        z = to_elem_scalar(0, a.dtype)
        e = a.elem.copy()
        for i in range(n):
            for j in range(m):
                if (j - i < diagonal) if up else (j - i > diagonal):
                    e[..., i, j] = z
        return out(e, a.dtype)
    return h


H["triu"], H["tril"] = tri(True), tri(False)


# ---- reductions ------------------------------------------------------------------------------
def reduce_(a_elem, dims, keepdim, f):
    n = a_elem.ndim
    if dims is None or (isinstance(dims, (list, tuple)) and len(dims) == 0):
        dims = list(range(n))
    if isinstance(dims, int):
        dims = [dims]
    for d in dims:
        if n and not -n <= d < n:
            raise IndexError("Dimension out of range (expected to be in range of [-%d, %d], but got %d)" % (n, n - 1, d))
    dims = sorted({nd(d, n) for d in dims}) if n else []
    keep = [i for i in range(n) if i not in dims]
    e = np.transpose(a_elem, keep + dims)
    ks = [a_elem.shape[i] for i in keep]
    k = 1
    for i in dims:
        k *= a_elem.shape[i]
    e = e.reshape(int(np.prod(ks)) if ks else 1, k)
    o = np.empty((e.shape[0],), dtype=object)
    for i in range(e.shape[0]):
        o[i] = f(list(e[i]))
    shape = [1 if i in dims else a_elem.shape[i] for i in range(n)] if keepdim else ks
    return o.reshape(shape)


def count_lazy(bs):
    """number of true conditions, resolved only when needed"""
    by = {k: False for k in range(len(bs) + 1)}
    for pat in itertools.product((True, False), repeat=len(bs)):
        c = True
        for t, b in zip(pat, bs):
            c = sym.and_(c, b if t else sym.not_(b))
        by[sum(pat)] = sym.or_(by[sum(pat)], c)
    dom = list(by)
    return S.explorer.new_lazy(dom, conds=[by[k] for k in dom], tag="count")


def s_sum(xs):
    if all(type(x) in (int, bool) for x in xs):
        return sum(int(x) for x in xs)
    if 2 <= len(xs) <= 3 and all(type(x) in (bool, B) for x in xs):
        return count_lazy(xs)
    if all(type(x) in (int, bool, Lazy, B) for x in xs):
        return sum(int(pyv(x)) for x in xs)
    return sym.add_many(xs)


@reg("sum")
def _(func, a, dim=None, keepdim=False, dtype=None):
    dt = dtype or (a.dtype if a.dtype in FLOATS else torch.int64)
    e = cast(a.elem, a.dtype, dt)
    z = to_elem_scalar(0, dt)
    return out(reduce_(e, dim, keepdim, lambda xs: s_sum(xs) if xs else z), dt)


@reg("nansum")
def _(func, a, dim=None, keepdim=False, dtype=None):
    e = mapn(lambda x: F0 if type(x) is float and x != x else x, a.elem)
    return H["sum"](func, out(e, a.dtype), dim, keepdim)


@reg("mean")
def _(func, a, dim=None, keepdim=False, dtype=None):
    return out(reduce_(a.elem, dim, keepdim, lambda xs: sym.div(sym.add_many(xs), Fraction(len(xs))) if xs else NAN), a.dtype)


@reg("var")
def _(func, a, dim=None, unbiased=True, correction=None, keepdim=False):
    if isinstance(dim, bool):
        unbiased, dim = dim, None
    c = correction if correction is not None else (1 if unbiased else 0)

    def f(xs):
        m = sym.div(sym.add_many(xs), Fraction(len(xs)))
        s = sym.add_many([sym.power(sym.sub(x, m), Fraction(2)) for x in xs])
        d = max(len(xs) - c, 0)
        return NAN if d == 0 else sym.div(s, Fraction(d))
    return out(reduce_(a.elem, dim, keepdim, f), a.dtype)


@reg("std")
def _(func, *a, **k):
    r = H["var"](func, *a, **k)
    return out(mapn(sym.sqrt, r.elem), r.dtype)


def s_prod(xs):
    r = xs[0]
    for x in xs[1:]:
        r = s_mul(r, x)
    return r


@reg("prod")
def _(func, a, dim=None, keepdim=False, dtype=None):
    dt = dtype or (a.dtype if a.dtype in FLOATS else torch.int64)
    e = cast(a.elem, a.dtype, dt)
    one = to_elem_scalar(1, dt)
    return out(reduce_(e, dim, keepdim, lambda xs: s_prod([_n(x) if dt in FLOATS else int(pyv(x)) for x in xs]) if xs else one), dt)


def s_all(xs):
    c = True
    for x in xs:
        c = sym.and_(c, tb(x))
        if c is False:
            return False
    return c


def s_any(xs):
    c = False
    for x in xs:
        c = sym.or_(c, tb(x))
        if c is True:
            return True
    return c


H["all"] = lambda func, a, dim=None, keepdim=False: out(reduce_(a.elem, dim, keepdim, s_all), torch.bool)
H["_is_all_true"] = H["all"]
H["any"] = lambda func, a, dim=None, keepdim=False: out(reduce_(a.elem, dim, keepdim, s_any), torch.bool)
H["_is_any_true"] = H["any"]


def s_lse(xs):
    if any(type(x) is float and (x != x or x == INF) for x in xs):
        return NAN if any(type(x) is float and x != x for x in xs) else INF
    return sym.log(sym.add_many([sym.exp(_n(x)) for x in xs]))


@reg("logsumexp", "special_logsumexp")
def _(func, a, dim, keepdim=False):
    return out(reduce_(cast(a.elem, a.dtype, flt(a.dtype)), dim, keepdim, s_lse), flt(a.dtype))


@reg("logaddexp")
def _(func, a, b):
    dt = rt(a, b)
    return out(mapn(lambda x, y: s_lse([x, y]), A(a, dt), A(b, dt)), dt)


@reg("_log_softmax", "log_softmax", "special_log_softmax")
def _(func, a, dim, half=False, dtype=None, **k):
    l = reduce_(a.elem, dim, True, s_lse) if a.dim() else mapn(lambda x: x, a.elem)
    return out(mapn(lambda x, y: sym.add(_n(x), sym.neg(_n(y))), a.elem, l), a.dtype)


@reg("_softmax", "softmax", "special_softmax")
def _(func, a, dim, half=False, dtype=None, **k):
    l = reduce_(a.elem, dim, True, s_lse) if a.dim() else mapn(lambda x: x, a.elem)
    return out(mapn(lambda x, y: sym.exp(sym.add(_n(x), sym.neg(_n(y)))), a.elem, l), a.dtype)


@reg("_log_softmax_backward_data")
def _(func, g, o, dim, input_dtype):
    s = reduce_(g.elem, dim, True, s_sum)
    return out(mapn(lambda gg, oo, ss: sym.add(_n(gg), sym.neg(sym.mul(sym.exp(_n(oo)), _n(ss)))), g.elem, o.elem, s), g.dtype)


@reg("_softmax_backward_data")
def _(func, g, o, dim, input_dtype):
    go = mapn(lambda x, y: s_mul(x, y), g.elem, o.elem)
    s = reduce_(go, dim, True, s_sum)
    return out(mapn(lambda x, oo, ss: sym.add(_n(x), sym.neg(sym.mul(_n(oo), _n(ss)))), go, o.elem, s), g.dtype)


@reg("amax")
def _(func, a, dim=(), keepdim=False):
    return out(reduce_(a.elem, dim, keepdim, s_amax), a.dtype)


@reg("amin")
def _(func, a, dim=(), keepdim=False):
    return out(reduce_(a.elem, dim, keepdim, s_amin), a.dtype)


def s_amax(xs):
    if not xs:
        raise RuntimeError("max(): expected reduction dim to be specified for input.numel() == 0")
    if all(type(x) in (int, Lazy, bool) for x in xs):
        return max(int(_lzc(x)) for x in xs)
    if any(type(x) is B for x in xs):
        return s_any(xs)
    return sym.max_([_n(x) for x in xs])


def s_amin(xs):
    if not xs:
        raise RuntimeError("min(): expected reduction dim to be specified for input.numel() == 0")
    if all(type(x) in (int, Lazy, bool) for x in xs):
        return min(int(_lzc(x)) for x in xs)
    if any(type(x) is B for x in xs):
        return s_all(xs)
    return sym.min_([_n(x) for x in xs])


def arg_lazy(xs, sgn, tag="argmax"):
    """lazily resolved argmax (first maximal index on ties)"""
    n = len(xs)
    for i, x in enumerate(xs):
        if type(x) is float and x != x:
            return i
    xs = [_n(x) for x in xs]
    if sgn < 0:
        xs = [sym.neg(x) for x in xs]
    if all(type(x) in (Fraction, float) for x in xs):
        return max(range(n), key=lambda i: (xs[i], -i))
    conds = []
    for i in range(n):
        c = True
        for j in range(n):
            if j == i or c is False:
                continue
            c = sym.and_(c, sym.lt(xs[j], xs[i]) if j < i else sym.le(xs[j], xs[i]))
        conds.append(c)
    for i, c in enumerate(conds):
        if c is True:
            return i
    if S.explorer is None:
        raise Unsupported("argmax without explorer")
    return S.explorer.new_lazy(list(range(n)), conds=conds, tag=tag)


def s_argext(xs, sgn):
    if not xs:
        raise IndexError("argmax(): Expected reduction dim to have non-zero size.")
    return arg_lazy([_lzc(x) if type(x) in (Lazy,) else (pyv(x) if type(x) is B else x) for x in xs], sgn)


@reg("argmax")
def _(func, a, dim=None, keepdim=False):
    return out(reduce_(a.elem, dim, keepdim, lambda xs: s_argext(xs, 1)), torch.int64)


@reg("argmin")
def _(func, a, dim=None, keepdim=False):
    return out(reduce_(a.elem, dim, keepdim, lambda xs: s_argext(xs, -1)), torch.int64)


def maxmin(sgn):
    def h(func, a, *args, **k):
        if func._overloadname == "other" or (args and isinstance(args[0], SymTensor)):
            return H["maximum" if sgn > 0 else "minimum"](func, a, *args)
        f = s_amax if sgn > 0 else s_amin
        if func._overloadname == "default":
            return out(reduce_(a.elem, None, False, f), a.dtype)
        dim = args[0] if args else k["dim"]
        keep = args[1] if len(args) > 1 else k.get("keepdim", False)
        v = out(reduce_(a.elem, dim, keep, f), a.dtype)
        i = out(reduce_(a.elem, dim, keep, lambda xs: s_argext(xs, sgn)), torch.int64)
        return v, i
    return h


H["max"], H["min"] = maxmin(1), maxmin(-1)
H["_weight_int"] = None
del H["_weight_int"]


@reg("aminmax")
def _(func, a, dim=None, keepdim=False):
    return (out(reduce_(a.elem, dim, keepdim, s_amin), a.dtype), out(reduce_(a.elem, dim, keepdim, s_amax), a.dtype))


def cum(f):
    def h(func, a, dim, dtype=None):
        dt = dtype or (a.dtype if a.dtype in FLOATS else torch.int64)
        e = cast(a.elem, a.dtype, dt).copy()
        if e.ndim == 0:
            return out(e, dt)
        e = np.moveaxis(e, dim, 0)
        for i in range(1, e.shape[0]):
            e[i] = mapn(f, e[i - 1], e[i]) if e.ndim > 1 else f(e[i - 1], e[i])
        return out(np.moveaxis(e, 0, dim), dt)
    return h


def _iadd(a, b):
    if type(a) in (int, bool, Lazy, B) and type(b) in (int, bool, Lazy, B):
        return int(pyv(a)) + int(pyv(b))
    return sym.add(_n(a), _n(b))


H["cumsum"] = cum(_iadd)
H["cumprod"] = cum(lambda a, b: a * b if type(a) is int and type(b) is int else s_mul(a, b))
H["logcumsumexp"] = cum(lambda a, b: s_lse([a, b]))


@reg("count_nonzero")
def _(func, a, dim=None):
    e = mapn(lambda x: int(sym.truthy(tb(x))), a.elem)
    return out(reduce_(e, dim, False, sum), torch.int64)


@reg("linalg_vector_norm")
def _(func, a, ord=2, dim=None, keepdim=False, dtype=None):
    if ord == 2:
        return out(reduce_(a.elem, dim, keepdim, lambda xs: sym.sqrt(sym.add_many([s_mul(x, x) for x in xs]))), a.dtype)
    if ord == 1:
        return out(reduce_(a.elem, dim, keepdim, lambda xs: sym.add_many([sym.abs_(_n(x)) for x in xs])), a.dtype)
    raise Unsupported("norm")


def _is_uniform(x):
    if not isinstance(x, R) or x.coef != 1 or len(x.fac) != 1 or x.fac[0][1] != 1:
        return False
    b = x.fac[0][0]
    return getattr(b, "kind", getattr(b, "op", None)) == "sym" and str(getattr(b, "name", getattr(b, "val", ""))).startswith("$U")


def _cmp_key(xs, desc):
    """sort indices; concrete values sort directly, symbolic ones fork"""
    import functools
    n = len(xs)
    u = [i for i, x in enumerate(xs) if _is_uniform(x)]
    if len(u) > 1 and all(type(x) in (Fraction, int) and (x >= 1 or x <= 0) for i, x in enumerate(xs) if i not in set(u)):
        # ranks of iid uniform draws: every permutation equally likely (prefix choice by choice, ties have measure 0)
        lo = sorted((i for i in range(n) if i not in set(u) and xs[i] <= 0), key=lambda i: xs[i])
        hi = sorted((i for i in range(n) if i not in set(u) and xs[i] >= 1), key=lambda i: xs[i])
        order, rest = [], list(u)
        while rest:
            k = int(new_draw(list(range(len(rest))), [Fraction(1, len(rest))] * len(rest), "rank"))
            order.append(rest.pop(k))
        o = lo + order + hi
        return o[::-1] if desc else o
    xs = [_n(x) if type(x) not in (int, bool) else Fraction(int(x)) for x in xs]

    def c(i, j):
        a, b = xs[i], xs[j]
        an, bn = type(a) is float and a != a, type(b) is float and b != b
        if an or bn:
            r = int(an) - int(bn)
        elif sym.truth(sym.lt(a, b)):
            r = -1
        elif sym.truth(sym.lt(b, a)):
            r = 1
        else:
            r = 0
        return -r if desc else r
    return sorted(range(n), key=functools.cmp_to_key(c))


@reg("sort", "argsort", "msort")
def _(func, a, *args, stable=None, dim=-1, descending=False, **k):
    if args:
        if func._overloadname == "stable":
            args = [x for x in args[1:]] if isinstance(args[0], (bool, type(None))) else list(args)
        if len(args) > 0:
            dim = args[0]
        if len(args) > 1:
            descending = args[1]
    if a.dim() == 0:
        return out(a.elem.copy(), a.dtype), out(0, torch.int64)
    e = np.moveaxis(a.elem, dim, -1)
    vals = np.empty(e.shape, object)
    idx = np.empty(e.shape, object)
    for ix in np.ndindex(*e.shape[:-1]):
        o = _cmp_key(list(e[ix]), descending)
        for p, q in enumerate(o):
            vals[ix + (p,)] = e[ix + (q,)]
            idx[ix + (p,)] = q
    v, i = out(np.moveaxis(vals, -1, dim), a.dtype), out(np.moveaxis(idx, -1, dim), torch.int64)
    return i if func._schema.name.endswith("argsort") else (v, i)


@reg("topk")
def _(func, a, k, dim=-1, largest=True, sorted=True):
    if k == 1:
        nm = "max" if largest else "min"
        e = reduce_(a.elem, dim, True, s_amax if largest else s_amin)
        i = reduce_(a.elem, dim, True, lambda xs: s_argext(xs, 1 if largest else -1))
        return out(e, a.dtype), out(i, torch.int64)
    v, i = H["sort"](aten.sort.default, a, dim=dim, descending=largest)
    d = nd(dim, a.dim())
    return H["slice"](func, v, d, 0, k), H["slice"](func, i, d, 0, k)


@reg("searchsorted")
def _(func, seq, v, out_int32=False, right=False, side=None, sorter=None):
    if side == "right":
        right = True

    def loc(s, x):
        x = _n(x)
        n = 0
        for b in s:
            c = sym.le(_n(b), x) if right else sym.lt(_n(b), x)
            if sym.truth(c):
                n += 1
            else:
                break
        return n
    if not isinstance(v, SymTensor):
        return out(loc(list(seq.elem.reshape(-1)), v), torch.int64)
    if seq.dim() == 1:
        s = list(seq.elem)
        return out(mapn(lambda x: loc(s, x), v.elem), torch.int64)
    o = np.empty(v.elem.shape, object)
    for ix in np.ndindex(*v.elem.shape[:-1]):
        for j in range(v.elem.shape[-1]):
            o[ix + (j,)] = loc(list(seq.elem[ix]), v.elem[ix + (j,)])
    return out(o, torch.int64)


@reg("bucketize")
def _(func, v, bounds, out_int32=False, right=False):
    return H["searchsorted"](func, bounds, v, right=right)


@reg("unique_dim", "_unique2", "_unique", "unique_consecutive")
def _(func, a, *args, **k):
    p = to_plain(a)
    pa = [to_plain(x) if isinstance(x, SymTensor) else x for x in args]
    with torch.utils._python_dispatch._disable_current_modes():
        r = func(p, *pa, **k)
    return tree_map(_wr, r)


@reg("bincount")
def _(func, a, weights=None, minlength=0):
    ids = [int(_lzc(x)) for x in a.elem.reshape(-1)]
    n = max([minlength] + [i + 1 for i in ids])
    if weights is None:
        e = full_arr((n,), 0)
        for i in ids:
            e[i] += 1
        return out(e, torch.int64)
    e = full_arr((n,), F0)
    for i, w in zip(ids, weights.elem.reshape(-1)):
        e[i] = sym.add(e[i], _n(w))
    return out(e, weights.dtype if weights.dtype in FLOATS else torch.float64)


# ---- matrix products -------------------------------------------------------------------------
def dot(xs, ys):
    return sym.add_many([s_mul(x, y) for x, y in zip(xs, ys)])


def matmul2(a, b, dt):
    o = np.empty((a.shape[0], b.shape[1]), dtype=object)
    z = to_elem_scalar(0, dt)
    for i in range(a.shape[0]):
        for j in range(b.shape[1]):
            o[i, j] = (s_sum([s_mul(x, y) for x, y in zip(a[i], b[:, j])]) if a.shape[1] else z)
    return o


@reg("mm", "matmul")
def _(func, a, b):
    if a.dim() == 2 and b.dim() == 2:
        if a.shape[1] != b.shape[0]:
            raise RuntimeError("mat1 and mat2 shapes cannot be multiplied")
        return out(matmul2(a.elem, b.elem, a.dtype), a.dtype)
    raise Unsupported("matmul dims")


@reg("bmm")
def _(func, a, b):
    if a.shape[0] != b.shape[0] or a.shape[2] != b.shape[1]:
        raise RuntimeError("batch1 and batch2 shapes mismatch")
    o = np.empty((a.shape[0], a.shape[1], b.shape[2]), dtype=object)
    for i in range(a.shape[0]):
        o[i] = matmul2(a.elem[i], b.elem[i], a.dtype)
    return out(o, a.dtype)


@reg("mv")
def _(func, a, b):
    return out(matmul2(a.elem, b.elem.reshape(-1, 1), a.dtype).reshape(-1), a.dtype)


@reg("dot", "vdot")
def _(func, a, b):
    return out(s_sum([s_mul(x, y) for x, y in zip(a.elem, b.elem)]), a.dtype)


@reg("addmm")
def _(func, c, a, b, beta=1, alpha=1):
    r = matmul2(a.elem, b.elem, a.dtype)
    return out(mapn(lambda x, y: sym.add(s_mul(to_elem_scalar(beta, a.dtype), x), s_mul(to_elem_scalar(alpha, a.dtype), y)), c.elem, r), a.dtype)


@reg("convolution")
def _(func, a, w, bias, stride, padding, dilation, transposed, output_padding, groups):
    if transposed:
        raise Unsupported("transposed convolution")
    nsp = a.dim() - 2
    stride, padding, dilation = [list(x) * (nsp if len(x) == 1 else 1) for x in (stride, padding, dilation)]
    e = np.pad(a.elem, [(0, 0), (0, 0)] + [(p, p) for p in padding], constant_values=F0)
    N, Cin = e.shape[:2]
    Cout, Cg = w.shape[:2]
    ks = w.shape[2:]
    osz = [(e.shape[2 + i] - dilation[i] * (ks[i] - 1) - 1) // stride[i] + 1 for i in range(nsp)]
    o = np.empty((N, Cout) + tuple(osz), dtype=object)
    for n in range(N):
        for co in range(Cout):
            g = co // (Cout // groups)
            for pos in np.ndindex(*osz):
                acc = []
                for ci in range(Cg):
                    for k in np.ndindex(*ks):
                        wv = w.elem[(co, ci) + k]
                        if type(wv) is Fraction and wv == 0:
                            continue
                        ix = tuple(pos[i] * stride[i] + k[i] * dilation[i] for i in range(nsp))
                        acc.append(s_mul(e[(n, g * Cg + ci) + ix], wv))
                if bias is not None:
                    acc.append(_n(bias.elem[co]))
                o[(n, co) + pos] = sym.add_many(acc) if acc else F0
    return out(o, a.dtype)


@reg("convolution_backward")
def _(func, g, a, w, bias_sizes, stride, padding, dilation, transposed, output_padding, groups, output_mask):
    if transposed or output_mask[1] or output_mask[2]:
        raise Unsupported("convolution_backward for weights")
    nsp = a.dim() - 2
    stride, padding, dilation = [list(x) * (nsp if len(x) == 1 else 1) for x in (stride, padding, dilation)]
    N, Cin = a.elem.shape[:2]
    Cout, Cg = w.shape[:2]
    acc = {}
    for n in range(N):
        for co in range(Cout):
            gr = co // (Cout // groups)
            for pos in np.ndindex(*g.elem.shape[2:]):
                for ci in range(Cg):
                    for k in np.ndindex(*w.shape[2:]):
                        ix = tuple(pos[i] * stride[i] + k[i] * dilation[i] - padding[i] for i in range(nsp))
                        if all(0 <= v < m for v, m in zip(ix, a.elem.shape[2:])):
                            acc.setdefault((n, gr * Cg + ci) + ix, []).append(s_mul(g.elem[(n, co) + pos], w.elem[(co, ci) + k]))
    o = np.empty(a.elem.shape, dtype=object)
    for ix in np.ndindex(*o.shape):
        o[ix] = sym.add_many(acc[ix]) if ix in acc else F0
    return out(o, a.dtype), None, None


# ---- indexing --------------------------------------------------------------------------------
def concrete_idx(e):
    """index array -> numpy int array (forces lazily resolved choices)"""
    o = np.empty(e.shape, dtype=np.int64)
    for ix in np.ndindex(*e.shape):
        v = e[ix]
        if type(v) is R:
            raise Unsupported("symbolic index")
        o[ix] = int(_lzc(v))
    return o


def concrete_bool(e):
    o = np.empty(e.shape, dtype=bool)
    for ix in np.ndindex(*e.shape):
        o[ix] = sym.truthy(tb(e[ix]))
    return o


def np_index(a, indices):
    """translate aten.index tensors into a numpy index tuple that follows torch semantics"""
    idx = []
    for t in indices:
        if t is None:
            idx.append(None)
        elif t.dtype in (torch.bool, torch.uint8):
            b = concrete_bool(t.elem)
            d0 = len(idx)
            for k, s in enumerate(b.shape):
                if s != a.shape[d0 + k]:
                    raise IndexError(f"The shape of the mask {list(b.shape)} at index {k} does not match the shape of the indexed tensor {list(a.shape)} at index {d0 + k}")
            nz = np.nonzero(b)
            idx.extend(nz if b.ndim else [])
        else:
            idx.append(concrete_idx(t.elem))
    for d, i in enumerate(idx):
        if i is not None and i.size and (i.max() >= a.shape[d] or i.min() < -a.shape[d]):
            raise IndexError(f"index {i.max()} is out of bounds for dimension {d} with size {a.shape[d]}")
    return idx


def np_index_tuple(idx, ndim):
    """torch: non-adjacent advanced indices -> result dims first (same as numpy)"""
    full = [slice(None) if i is None else i for i in idx]
    full += [slice(None)] * (ndim - len(full))
    return tuple(full)


@reg("index", "_unsafe_index")
def _(func, a, indices):
    idx = np_index(a, indices)
    r = a.elem[np_index_tuple(idx, a.dim())]
    return out(nparr(r).copy(), a.dtype)


@reg("index_put", "_unsafe_index_put")
def _(func, a, indices, values, accumulate=False):
    e = a.elem.copy()
    _iput(a, e, indices, values, accumulate)
    return out(e, a.dtype)


@reg("index_put_", "_index_put_impl_")
def _(func, a, indices, values, accumulate=False, unsafe=False):
    # boolean-mask fill with a scalar keeps laziness (no forking)
    _iput(a, a.elem, indices, values, accumulate)
    return a


def _iput(a, e, indices, values, accumulate):
    v = A(values, a.dtype)
    if (len(indices) == 1 and indices[0] is not None and indices[0].dtype == torch.bool
            and any(type(x) is B for x in indices[0].elem.reshape(-1)) and v.size == 1 and not accumulate):
        m = indices[0].elem
        vv = v.reshape(-1)[0]
        m = m.reshape(m.shape + (1,) * (e.ndim - m.ndim))
        e[...] = mapn(s_where, m, obj(vv), e)
        return
    idx = np_index(a, indices)
    t = np_index_tuple(idx, a.dim())
    if not accumulate:
        e[t] = v if v.shape else v[()]
        return
    tgt = np.empty(e.shape, dtype=np.int64)
    tgt.reshape(-1)[:] = np.arange(e.size)
    pos = tgt[t]
    vb = np.broadcast_to(v, pos.shape)
    flat = e.reshape(-1)
    inplace = np.shares_memory(flat, e)
    for p, x in zip(pos.reshape(-1), vb.reshape(-1)):
        ix = np.unravel_index(int(p), e.shape)
        e[ix] = _iadd(e[ix], x)


@reg("index_select")
def _(func, a, dim, index):
    i = concrete_idx(index.elem).reshape(-1)
    if i.size and (i.max() >= a.shape[dim] or i.min() < 0):
        raise IndexError("index out of range in self")
    return out(np.take(a.elem, i, axis=dim), a.dtype)


@reg("gather")
def _(func, a, dim, index, sparse_grad=False):
    if a.dim() == 0:
        return out(a.elem.copy(), a.dtype)
    dim = nd(dim, a.dim())
    if index.dim() != a.dim():
        raise RuntimeError("Index tensor must have the same number of dimensions as input tensor")
    o = np.empty(index.elem.shape, dtype=object)
    for d in range(a.dim()):
        if d != dim and index.shape[d] > a.shape[d]:
            raise RuntimeError("Size does not match at dimension %d expected index to be smaller than self apart from dimension %d" % (d, dim))
    n = a.shape[dim]
    for ix in np.ndindex(*index.elem.shape):
        v = index.elem[ix]
        if type(v) is Lazy and v.uid not in (S.explorer.forced if S.explorer else {}):
            # all candidate entries identical -> no need to resolve the choice
            cands = [a.elem[ix[:dim] + (int(d),) + ix[dim + 1:]] for d in v.dom if 0 <= int(d) < n]
            c0 = cands[0] if cands else None
            if cands and len(cands) == len(v.dom) and all(c is c0 or (type(c) is type(c0) and type(c) in (Fraction, int, bool, R) and c == c0) for c in cands):
                o[ix] = c0
                continue
        j = int(_lzc(v)) if type(v) is not R else _bad()
        if not 0 <= j < n:
            raise RuntimeError(f"index {j} is out of bounds for dimension {dim} with size {n}")
        o[ix] = a.elem[ix[:dim] + (j,) + ix[dim + 1:]]
    return out(o, a.dtype)


def _bad():
    raise Unsupported("symbolic index")


def scatter_impl(e, a, dim, index, src, f):
    dim = nd(dim, a.dim())
    n = a.shape[dim]
    for ix in np.ndindex(*index.elem.shape):
        j = int(_lzc(index.elem[ix]))
        if not 0 <= j < n:
            raise RuntimeError(f"index {j} is out of bounds for dimension {dim} with size {n}")
        p = ix[:dim] + (j,) + ix[dim + 1:]
        s = src[ix] if src.shape else src[()]
        e[p] = f(e[p], s)


_RED = {"sum": _iadd, "add": _iadd, "prod": lambda a, b: s_mul(a, b), "multiply": lambda a, b: s_mul(a, b), "amax": s_max2, "amin": s_min2}


@reg("scatter")
def _(func, a, dim, index, src, reduce=None):
    e = a.elem.copy()
    scatter_impl(e, a, dim, index, A(src, a.dtype), _RED[reduce] if reduce else (lambda o, s: s))
    return out(e, a.dtype)


@reg("scatter_add")
def _(func, a, dim, index, src):
    e = a.elem.copy()
    scatter_impl(e, a, dim, index, A(src, a.dtype), _iadd)
    return out(e, a.dtype)


@reg("scatter_reduce")
def _(func, a, dim, index, src, reduce, include_self=True):
    if not include_self:
        raise Unsupported("scatter_reduce include_self=False")
    e = a.elem.copy()
    scatter_impl(e, a, dim, index, A(src, a.dtype), _RED[reduce])
    return out(e, a.dtype)


@reg("index_add")
def _(func, a, dim, index, src, alpha=1):
    e = np.moveaxis(a.elem.copy(), dim, 0)
    s = np.moveaxis(A(src, a.dtype), dim, 0)
    for k, j in enumerate(concrete_idx(index.elem).reshape(-1)):
        e[j] = mapn(_iadd, nparr(e[j]), nparr(s[k])) if e.ndim > 1 else _iadd(e[j], s[k])
    return out(np.moveaxis(e, 0, dim), a.dtype)


@reg("index_fill")
def _(func, a, dim, index, value):
    e = np.moveaxis(a.elem.copy(), dim, 0)
    v = A(value, a.dtype)[()]
    for j in concrete_idx(index.elem).reshape(-1):
        e[j] = v
    return out(np.moveaxis(e, 0, dim), a.dtype)


@reg("index_copy")
def _(func, a, dim, index, src):
    e = np.moveaxis(a.elem.copy(), dim, 0)
    s = np.moveaxis(A(src, a.dtype), dim, 0)
    for k, j in enumerate(concrete_idx(index.elem).reshape(-1)):
        e[j] = s[k]
    return out(np.moveaxis(e, 0, dim), a.dtype)


@reg("nonzero")
def _(func, a):
    b = concrete_bool(a.elem)
    nz = np.stack(np.nonzero(b), axis=1) if b.ndim else np.zeros((int(b), 0), dtype=np.int64)
    e = np.empty(nz.shape, dtype=object)
    for ix in np.ndindex(*nz.shape):
        e[ix] = int(nz[ix])
    return out(e, torch.int64)


@reg("nonzero_numpy")
def _(func, a):
    r = H["nonzero"](func, a)
    return [out(r.elem[:, i].copy(), torch.int64) for i in range(r.elem.shape[1])]


@reg("embedding")
def _(func, w, index, *r, **k):
    return out(w.elem[concrete_idx(index.elem)], w.dtype)


@reg("one_hot")
def _(func, a, num_classes=-1):
    i = concrete_idx(a.elem)
    n = num_classes if num_classes > 0 else int(i.max()) + 1
    e = full_arr(i.shape + (n,), 0)
    for ix in np.ndindex(*i.shape):
        e[ix + (int(i[ix]),)] = 1
    return out(e, torch.int64)


# backward helpers that appear below autograd
@reg("select_backward")
def _(func, g, sizes, dim, index):
    e = full_arr(sizes, F0)
    idx = [slice(None)] * len(sizes)
    idx[nd(dim, len(sizes))] = index
    e[tuple(idx)] = g.elem
    return out(e, g.dtype)


@reg("slice_backward")
def _(func, g, sizes, dim, start, end, step):
    e = full_arr(sizes, F0)
    n = sizes[dim]
    start = max(0, start + n) if start < 0 else min(start, n)
    end = max(0, end + n) if end < 0 else min(end, n)
    idx = [slice(None)] * len(sizes)
    idx[nd(dim, len(sizes))] = slice(start, end, step)
    e[tuple(idx)] = g.elem
    return out(e, g.dtype)


@reg("unfold_backward")
def _(func, g, sizes, dim, size, step):
    e = full_arr(sizes, F0)
    w = np.lib.stride_tricks.sliding_window_view(np.arange(e.size).reshape(e.shape), size, axis=dim)
    idx = [slice(None)] * w.ndim
    idx[dim] = slice(None, None, step)
    pos = w[tuple(idx)]
    f = e.reshape(-1)
    for p, v in zip(pos.reshape(-1), g.elem.reshape(-1)):
        f[p] = sym.add(f[p], _n(v))
    return out(f.reshape(e.shape), g.dtype)


@reg("value_selecting_reduction_backward")
def _(func, g, dim, index, sizes, keepdim):
    e = full_arr(sizes, F0)
    d = nd(dim, len(sizes))
    gi, ii = g.elem, index.elem
    if not keepdim and len(sizes):
        gi, ii = np.expand_dims(gi, d), np.expand_dims(ii, d)
    for ix in np.ndindex(*gi.shape):
        j = int(_lzc(ii[ix]))
        e[ix[:d] + (j,) + ix[d + 1:]] = gi[ix]
    return out(e, g.dtype)


# ---- random ----------------------------------------------------------------------------------
def _ex():
    if S.explorer is None:
        raise Unsupported("random op without explorer")
    return S.explorer


def new_draw(dom, weights, tag):
    ws = [_n(w) for w in weights]
    live = [(d, w) for d, w in zip(dom, ws) if not (type(w) is Fraction and w == 0)]
    if len(live) == 1:
        return live[0][0]
    return _ex().new_lazy([d for d, _ in live], weights=[w for _, w in live], tag=tag)


def draw_bernoulli(p):
    p = _n(p)
    if type(p) is float:
        raise RuntimeError("Expected p_in >= 0 && p_in <= 1 to be true, but got false.")
    if type(p) is Fraction and not 0 <= p <= 1:
        raise RuntimeError("Expected p_in >= 0 && p_in <= 1 to be true, but got false.")
    return new_draw([0, 1], [sym.sub(F1, p), p], "bernoulli")


@reg("bernoulli")
def _(func, a, p=None, generator=None):
    if isinstance(p, SymTensor):
        return out(mapn(draw_bernoulli, np.broadcast_to(p.elem, a.elem.shape)), a.dtype)
    if p is not None:
        return out(mapn(lambda x: draw_bernoulli(to_elem_scalar(p, torch.float64)), a.elem), a.dtype)
    return out(mapn(draw_bernoulli, a.elem), a.dtype)


@reg("bernoulli_")
def _(func, a, p=0.5, generator=None):
    if isinstance(p, SymTensor):
        a.elem[...] = mapn(draw_bernoulli, np.broadcast_to(p.elem, a.elem.shape))
    else:
        pp = to_elem_scalar(p, torch.float64)
        a.elem[...] = mapn(lambda x: draw_bernoulli(pp), a.elem)
    return a


@reg("multinomial")
def _(func, p, n, replacement=False, generator=None):
    if n > 1 and not replacement:
        raise Unsupported("multinomial without replacement")
    e = p.elem if p.dim() == 2 else p.elem.reshape(1, -1)
    o = np.empty((e.shape[0], n), dtype=object)
    for i in range(e.shape[0]):
        ws = [_n(x) for x in e[i]]
        for w in ws:
            if type(w) is float or (type(w) is Fraction and w < 0):
                raise RuntimeError("probability tensor contains either `inf`, `nan` or element < 0")
        tot = sym.add_many(ws)
        if type(tot) is Fraction and tot == 0:
            raise RuntimeError("invalid multinomial distribution (sum of probabilities <= 0)")
        ws = [sym.div(w, tot) for w in ws]
        for j in range(n):
            o[i, j] = new_draw(list(range(len(ws))), ws, "multinomial")
    return out(o if p.dim() == 2 else o.reshape(-1), torch.int64)


def noise_like(shape, kind):
    e = np.empty(tuple(shape), dtype=object)
    for ix in np.ndindex(*e.shape):
        e[ix] = _ex().noise(kind)
    return e


@reg("normal", "normal_functional")
def _(func, mean, std=None, size=None, generator=None, **k):
    if func._overloadname in ("Tensor_Tensor", "Tensor_float", "float_Tensor"):
        m = A(mean, torch.float64) if isinstance(mean, SymTensor) else obj(to_elem_scalar(mean, torch.float64))
        sd = 1.0 if std is None else std
        s = A(sd, torch.float64) if isinstance(sd, SymTensor) else obj(to_elem_scalar(sd, torch.float64))
        m, s = np.broadcast_arrays(m, s)
        n = noise_like(m.shape, "N")
        return out(mapn(lambda a, b, z: sym.add(_n(a), sym.mul(_n(b), z)), m, s, n), mean.dtype if isinstance(mean, SymTensor) else std.dtype)
    raise Unsupported(f"normal {func}")


@reg("normal_")
def _(func, a, mean=0.0, std=1.0, generator=None):
    n = noise_like(a.shape, "N")
    m, s = to_elem_scalar(mean, torch.float64), to_elem_scalar(std, torch.float64)
    a.elem[...] = mapn(lambda z: sym.add(m, sym.mul(s, z)), n)
    return a


@reg("randn")
def _(func, size, dtype=None, **k):
    return out(noise_like(size, "N"), _dt(dtype))


@reg("rand")
def _(func, size, dtype=None, **k):
    return out(noise_like(size, "U"), _dt(dtype))


@reg("randn_like")
def _(func, a, dtype=None, **k):
    return out(noise_like(a.shape, "N"), dtype or a.dtype)


@reg("rand_like")
def _(func, a, dtype=None, **k):
    return out(noise_like(a.shape, "U"), dtype or a.dtype)


@reg("uniform_")
def _(func, a, lo=0.0, hi=1.0, generator=None):
    lo, hi = to_elem_scalar(lo, torch.float64), to_elem_scalar(hi, torch.float64)
    a.elem[...] = mapn(lambda z: s_add(lo, sym.mul(sym.sub(hi, lo), z)), noise_like(a.shape, "U"))
    return a


@reg("exponential_")
def _(func, a, lambd=1.0, generator=None):
    l = to_elem_scalar(lambd, torch.float64)
    a.elem[...] = mapn(lambda z: sym.div(sym.neg(sym.log(z)), l), noise_like(a.shape, "U"))
    return a


@reg("randint")
def _(func, *args, **k):
    ints = [x for x in args if isinstance(x, int)]
    size = [x for x in args if not isinstance(x, int)][0]
    lo, hi = (0, ints[0]) if len(ints) == 1 else ints[:2]
    e = np.empty(tuple(size), dtype=object)
    for ix in np.ndindex(*e.shape):
        e[ix] = new_draw(list(range(lo, hi)), [Fraction(1, hi - lo)] * (hi - lo), "randint")
    return out(e, k.get("dtype") or torch.int64)


@reg("binomial")
def _(func, count, prob, generator=None):
    def f(n, p):
        n, p = _n(n), _n(p)
        if type(n) is not Fraction:
            raise Unsupported("binomial count")
        n = int(n)
        q = sym.sub(F1, p)
        ws = [sym.mul(Fraction(math.comb(n, k)), sym.mul(sym.power(p, Fraction(k)), sym.power(q, Fraction(n - k)))) for k in range(n + 1)]
        return new_draw(list(range(n + 1)), ws, "binomial")
    return out(mapn(f, count.elem, prob.elem), count.dtype)


@reg("poisson")
def _(func, rate, generator=None):
    # truncated to a symbolic marker: only the identity of the draw matters (see harness)
    e = np.empty(rate.elem.shape, dtype=object)
    for ix in np.ndindex(*e.shape):
        e[ix] = of_noise("Poisson", rate.elem[ix])
    return out(e, rate.dtype)


def of_noise(kind, *params):
    ex = _ex()
    ex.cont += 1
    return sym.of_base(sym.atom("draw", f"${kind}{ex.cont}", tuple(_n(p) for p in params), pos=(kind == "Gamma")))


@reg("_standard_gamma")
def _(func, a, generator=None):
    e = np.empty(a.elem.shape, dtype=object)
    for ix in np.ndindex(*e.shape):
        e[ix] = of_noise("Gamma", a.elem[ix])
    return out(e, a.dtype)
