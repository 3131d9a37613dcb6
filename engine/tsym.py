"""Symbolic execution of PyTorch code (engine for the Python part).

The real code runs under the real PyTorch (dispatcher, views, autograd, in-place updates). Every tensor storage that
holds symbolic values has a shadow: one term per element (z3 Real/Bool, Fraction, or bool). A TorchDispatchMode computes
the shadow of every ATen operator; an operator it does not know, or a symbolic value leaving PyTorch, ends the run as
unsupported. Python branches on symbolic values split the path (both sides are explored by re-running)."""
import math
import random
import sys
import time
from fractions import Fraction

import numpy as np
import torch
import z3
from torch.overrides import TorchFunctionMode
from torch.utils._python_dispatch import TorchDispatchMode, _disable_current_modes

import rat
import solve

F0, F1 = Fraction(0), Fraction(1)
EPS = Fraction(1, 10 ** 6)


class Unsupported(Exception):
    pass


class PathEnd(BaseException):
    pass


class Inconclusive(Exception):
    pass


# ---------------------------------------------------------------- terms
def is_z(x):
    return isinstance(x, z3.ExprRef)


def special(x):
    return isinstance(x, float)          # only inf and nan are kept as floats


def num(x):
    """any scalar -> Fraction | inf/nan float | Real term"""
    if isinstance(x, Fraction):
        return x
    if isinstance(x, SymF):
        return x.term
    if isinstance(x, (bool, np.bool_)):
        return F1 if x else F0
    if isinstance(x, (int, np.integer)):
        return Fraction(int(x))
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if math.isinf(x) or math.isnan(x):
            return x
        return Fraction(x)
    if is_z(x):
        if z3.is_bool(x):
            return z3.If(x, z3.RealVal(1), z3.RealVal(0))
        if z3.is_int(x):
            return z3.ToReal(x)
        return x
    raise Unsupported(f"value {x!r}")


def z(x):
    if is_z(x):
        return x
    if special(x):
        raise Unsupported("inf/nan in a term")
    return z3.RealVal(str(x))


def boolean(x):
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if is_z(x):
        if z3.is_bool(x):
            return x
        return b_not(t_eq(x, F0))
    if isinstance(x, Fraction):
        return x != 0
    if isinstance(x, SymF):
        return b_not(t_eq(x.term, F0))
    return bool(x)


def simp(e):
    """term or concrete"""
    if not is_z(e):
        return e
    s = z3.simplify(e)
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    if z3.is_rational_value(s):
        return Fraction(s.numerator_as_long(), s.denominator_as_long())
    return e


def norm_num(e):
    if z3.is_rational_value(e):
        return Fraction(e.numerator_as_long(), e.denominator_as_long())
    return e


def t_add(a, b):
    if not is_z(a) and not is_z(b):
        return a + b if not (special(a) or special(b)) else float(a) + float(b)
    if special(a):
        return a
    if special(b):
        return b
    if not is_z(a) and a == 0:
        return b
    if not is_z(b) and b == 0:
        return a
    return z(a) + z(b)


def t_neg(a):
    return -a


def t_sub(a, b):
    if is_z(a) and is_z(b) and a.eq(b):
        return F0
    return t_add(a, t_neg(b))


def t_mul(a, b):
    if not is_z(a) and not is_z(b):
        return a * b if not (special(a) or special(b)) else float(a) * float(b)
    if not is_z(b):
        a, b = b, a
    if not is_z(a):
        if special(a):
            if math.isnan(a):
                return a
            raise Unsupported("inf * symbolic")
        if a == 0:
            return F0
        if a == 1:
            return b
        if a == -1:
            return -b
        return z(a) * b
    return a * b


def t_div(a, b):
    if not is_z(b):
        if special(b):
            if math.isnan(b):
                return b
            if is_z(a):
                return F0
            return num(float(a) / b)
        if b == 0:
            if is_z(a):
                raise Unsupported("symbolic / 0")
            if special(a):
                return float("nan") if math.isnan(a) else a
            return float("nan") if a == 0 else math.copysign(math.inf, a)
        if not is_z(a):
            return a / b if not special(a) else float(a) / float(b)
        return t_mul(F1 / b, a)
    if special(a):
        raise Unsupported("inf / symbolic")
    if not is_z(a) and a == 0:
        return F0
    if z3.is_app_of(b, z3.Z3_OP_ITE):
        p, q = norm_num(b.arg(1)), norm_num(b.arg(2))
        if not (not is_z(p) and p == 0) and not (not is_z(q) and q == 0):
            return t_ite(b.arg(0), t_div(a, p), t_div(a, q))
    if is_z(a) and a.eq(b):
        return F1
    return z(a) / b


def t_eq(a, b):
    if not is_z(a) and not is_z(b):
        return bool(a == b)
    if special(a) or special(b):
        return False
    return simp(z(a) == z(b))


def t_lt(a, b):
    if not is_z(a) and not is_z(b):
        return bool(a < b)
    if special(a):
        return bool(a < 0)
    if special(b):
        return bool(b > 0)
    return simp(z(a) < z(b))


def t_le(a, b):
    if not is_z(a) and not is_z(b):
        return bool(a <= b)
    if special(a):
        return bool(a < 0)
    if special(b):
        return bool(b > 0)
    return simp(z(a) <= z(b))


def b_not(a):
    return (not a) if not is_z(a) else z3.Not(a)


def b_and(a, b):
    if not is_z(a):
        return b if a else False
    if not is_z(b):
        return a if b else False
    return z3.And(a, b)


def b_or(a, b):
    if not is_z(a):
        return True if a else b
    if not is_z(b):
        return True if b else a
    return z3.Or(a, b)


def t_ite(c, a, b):
    if not is_z(c):
        return a if c else b
    ba, bb = isinstance(a, bool) or (is_z(a) and z3.is_bool(a)), isinstance(b, bool) or (is_z(b) and z3.is_bool(b))
    if ba and bb:
        return b_or(b_and(c, a), b_and(b_not(c), b))
    a, b = num(a), num(b)
    if is_z(a) and is_z(b) and a.eq(b):
        return a
    if not is_z(a) and not is_z(b) and not special(a) and not special(b) and a == b:
        return a
    if special(a) or special(b):
        # decided by the path
        return a if CUR.fork(c) else b
    return z3.If(c, z(a), z(b))


def t_abs(a):
    if not is_z(a):
        return abs(a)
    return z3.If(a >= 0, a, -a)


def t_sign(a):
    if not is_z(a):
        if special(a) and math.isnan(a):
            return a
        return Fraction((a > 0) - (a < 0))
    return z3.If(a > 0, z3.RealVal(1), z3.If(a < 0, z3.RealVal(-1), z3.RealVal(0)))


def t_max(a, b):
    if not is_z(a) and not is_z(b):
        return b if (special(b) and math.isnan(b)) or b > a else a
    if special(a):
        return b if a < 0 else a
    if special(b):
        return a if b < 0 else b
    c = t_le(b, a)
    return t_ite(c, a, b)


def t_min(a, b):
    if not is_z(a) and not is_z(b):
        return b if (special(b) and math.isnan(b)) or b < a else a
    if special(a):
        return b if a > 0 else a
    if special(b):
        return a if b > 0 else b
    return t_ite(t_le(a, b), a, b)


def t_floor(a):
    if not is_z(a):
        return a if special(a) else Fraction(math.floor(a))
    return z3.ToReal(z3.ToInt(rat.canon(a)))


def t_ceil(a):
    return t_neg(t_floor(t_neg(a)))


def t_trunc(a):
    if not is_z(a):
        return a if special(a) else Fraction(math.trunc(a))
    a = rat.canon(a)
    return z3.If(a >= 0, z3.ToReal(z3.ToInt(a)), -z3.ToReal(z3.ToInt(-a)))


def t_round(a):
    """half to even"""
    if not is_z(a):
        return a if special(a) else Fraction(round(a))
    a = rat.canon(a)
    f = z3.ToInt(a + z3.RealVal("1/2"))
    tie = z3.And(z3.ToReal(f) == a + z3.RealVal("1/2"), f % 2 != 0)
    return z3.ToReal(z3.If(tie, f - 1, f))


_UF = {}


def uf(name, n=1):
    if name not in _UF:
        _UF[name] = z3.Function(name, *([z3.RealSort()] * (n + 1)))
    return _UF[name]


PYF = {"exp": math.exp, "log": math.log, "sqrt": math.sqrt, "tanh": math.tanh, "pow": lambda a, b: float(a) ** float(b),
       "sin": math.sin, "cos": math.cos, "erf": math.erf}


def t_fun(name, *a):
    """uninterpreted function with facts"""
    if all(not is_z(x) for x in a):
        if any(special(x) for x in a):
            try:
                return num(float(PYF[name](*[float(x) for x in a])))
            except (ValueError, OverflowError):
                return float("nan")
        v = exact_fun(name, *a)
        if v is not None:
            return v
        if name in ("log", "sqrt") and a[0] < 0:
            return float("nan")
        if name == "log" and a[0] == 0:
            return -math.inf
    elif any(special(x) for x in a):
        raise Unsupported(f"{name} of inf/nan")
    if name == "log" and is_z(a[0]) and a[0].decl().name() == "exp" and a[0].num_args() == 1:
        return a[0].arg(0)
    if name == "exp" and is_z(a[0]) and a[0].num_args() == 1 and a[0].decl().name() == "log":
        return a[0].arg(0)
    t = uf(name, len(a))(*[rat.canon(z(x)) for x in a])
    CUR.uf_facts(name, t, a)
    return t


def exact_fun(name, *a):
    x = a[0]
    if name == "exp" and x == 0:
        return F1
    if name == "log" and x == 1:
        return F0
    if name in ("tanh", "sin", "erf") and x == 0:
        return F0
    if name == "sqrt" and x >= 0:
        n, d = math.isqrt(x.numerator), math.isqrt(x.denominator)
        if n * n == x.numerator and d * d == x.denominator:
            return Fraction(n, d)
    if name == "pow":
        y = a[1]
        if x == 1 or y == 0:
            return F1
        if y.denominator == 1 and abs(y) <= 64 and x != 0:
            return x ** int(y)
        if x == 0 and y > 0:
            return F0
    return None


def t_pow(a, b):
    if not is_z(b) and not special(b):
        if b == 0:
            return F1
        if b == 1:
            return a
        if b == Fraction(1, 2):
            return t_fun("sqrt", a)
        if b.denominator == 1 and 0 < abs(b) <= 8:
            if not is_z(a) and special(a):
                return num(float(a) ** float(b))
            r = a
            for _ in range(abs(int(b)) - 1):
                r = t_mul(r, a)
            return r if b > 0 else t_div(F1, r)
    return t_fun("pow", a, b)


def t_sigmoid(a):
    return t_div(F1, t_add(F1, t_fun("exp", t_neg(a))))


# ---------------------------------------------------------------- symbolic python float
class SymF(float):
    """A python float whose value is a term (the float itself is nan, so leaks are visible)."""

    def __new__(cls, term):
        o = float.__new__(cls, float("nan"))
        o.term = term
        return o

    def _b(self, o, f, r=False):
        if isinstance(o, torch.Tensor):
            return NotImplemented
        if not isinstance(o, (int, float)):
            return NotImplemented
        a, b = self.term, num(o)
        return mkf(f(b, a) if r else f(a, b))

    def __add__(self, o): return self._b(o, t_add)
    def __radd__(self, o): return self._b(o, t_add, True)
    def __sub__(self, o): return self._b(o, t_sub)
    def __rsub__(self, o): return self._b(o, t_sub, True)
    def __mul__(self, o): return self._b(o, t_mul)
    def __rmul__(self, o): return self._b(o, t_mul, True)
    def __truediv__(self, o): return self._b(o, t_div)
    def __rtruediv__(self, o): return self._b(o, t_div, True)
    def __pow__(self, o): return self._b(o, t_pow)
    def __rpow__(self, o): return self._b(o, t_pow, True)
    def __neg__(self): return mkf(t_neg(self.term))
    def __pos__(self): return self
    def __abs__(self): return mkf(t_abs(self.term))
    def _c(self, o, f): return CUR.fork(f(self.term, num(o))) if isinstance(o, (int, float)) else NotImplemented
    def __lt__(self, o): return self._c(o, t_lt)
    def __le__(self, o): return self._c(o, t_le)
    def __gt__(self, o): return self._c(o, lambda a, b: t_lt(b, a))
    def __ge__(self, o): return self._c(o, lambda a, b: t_le(b, a))
    def __eq__(self, o): return self._c(o, t_eq) if isinstance(o, (int, float)) else False
    def __ne__(self, o): return not self.__eq__(o)
    def __hash__(self): return hash(self.term)
    def __bool__(self): return CUR.fork(b_not(t_eq(self.term, F0)))
    def __float__(self): raise Unsupported("float() of a symbolic value")
    def __int__(self): raise Unsupported("int() of a symbolic value")
    def __round__(self, n=None): raise Unsupported("round() of a symbolic value")
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self
    def __repr__(self): return f"SymF({self.term})"
    def __format__(self, spec): return f"SymF({self.term})"
    def __str__(self): return f"SymF({self.term})"
    def item(self): return self


def mkf(t):
    t = simp(t)
    if is_z(t):
        return SymF(t)
    return float(t)


CUR = None          # the Explorer of this process


# ---------------------------------------------------------------- operators
def vec(f, *arrs):
    arrs = np.broadcast_arrays(*arrs)
    out = np.empty(arrs[0].shape, dtype=object)
    it = [a.ravel() for a in arrs]
    o = out.ravel() if out.ndim else out.reshape(1)
    for i in range(o.shape[0]):
        o[i] = f(*[a[i] for a in it])
    return o.reshape(arrs[0].shape)


def oarr(x, shape=None):
    a = np.empty(np.shape(x) if shape is None else shape, dtype=object)
    a[...] = x
    return a


UN = {
    "neg": t_neg, "abs": t_abs, "sign": t_sign, "sgn": t_sign, "round": t_round, "floor": t_floor, "ceil": t_ceil,
    "trunc": t_trunc, "frac": lambda a: t_sub(a, t_trunc(a)), "reciprocal": lambda a: t_div(F1, a),
    "sqrt": lambda a: t_fun("sqrt", a), "rsqrt": lambda a: t_div(F1, t_fun("sqrt", a)),
    "exp": lambda a: t_fun("exp", a), "log": lambda a: t_fun("log", a), "tanh": lambda a: t_fun("tanh", a),
    "log10": lambda a: t_div(t_fun("log", a), t_fun("log", Fraction(10))),
    "log2": lambda a: t_div(t_fun("log", a), t_fun("log", Fraction(2))),
    "log1p": lambda a: t_fun("log", t_add(a, F1)), "expm1": lambda a: t_sub(t_fun("exp", a), F1),
    "exp2": lambda a: t_fun("pow", Fraction(2), a),
    "sigmoid": t_sigmoid, "relu": lambda a: t_max(a, F0), "sin": lambda a: t_fun("sin", a), "cos": lambda a: t_fun("cos", a),
    "erf": lambda a: t_fun("erf", a), "square": lambda a: t_mul(a, a),
    "silu": lambda a: t_mul(a, t_sigmoid(a)), "positive": lambda a: a, "alias": lambda a: a,
}
UNB = {
    "logical_not": lambda a: b_not(boolean(a)),
    "isnan": lambda a: (not is_z(a)) and special(a) and math.isnan(a),
    "isinf": lambda a: (not is_z(a)) and special(a) and math.isinf(a),
    "isfinite": lambda a: is_z(a) or not special(a),
}
CMP = {
    "lt": t_lt, "le": t_le, "gt": lambda a, b: t_lt(b, a), "ge": lambda a, b: t_le(b, a), "eq": t_eq,
    "ne": lambda a, b: b_not(t_eq(a, b)),
    "logical_and": lambda a, b: b_and(boolean(a), boolean(b)), "logical_or": lambda a, b: b_or(boolean(a), boolean(b)),
    "logical_xor": lambda a, b: b_or(b_and(boolean(a), b_not(boolean(b))), b_and(b_not(boolean(a)), boolean(b))),
}
BIN = {
    "mul": t_mul, "maximum": t_max, "minimum": t_min, "fmax": t_max, "fmin": t_min, "pow": t_pow,
    "remainder": lambda a, b: t_sub(a, t_mul(b, t_floor(t_div(a, b)))),
    "fmod": lambda a, b: t_sub(a, t_mul(b, t_trunc(t_div(a, b)))),
    "floor_divide": lambda a, b: t_floor(t_div(a, b)),
    "threshold_backward_": None,
}
MOVE = {"cat", "stack", "repeat", "constant_pad_nd", "roll", "flip", "index_select", "gather", "tril", "triu", "im2col",
        "clone", "contiguous", "unfold_copy", "select_backward", "slice_backward", "slice_scatter", "select_scatter",
        "diagonal_scatter", "diag_embed", "_reshape_copy", "_unsafe_view", "expand_copy", "view_copy", "take",
        "hstack", "vstack", "lift_fresh_copy", "permute_copy", "unbind_copy", "repeat_interleave", "reflection_pad2d",
        "reflection_pad1d", "replication_pad1d", "replication_pad2d", "narrow_copy", "block_diag", "channel_shuffle",
        "diagonal_copy", "as_strided_copy", "rot90", "tile", "as_strided_scatter", "diag", "unfold_backward_none"}
RANDOM = {"randn": "gauss", "randn_like": "gauss", "rand": "uniform", "rand_like": "uniform", "normal_": "gauss",
          "uniform_": "uniform", "normal": "gauss", "bernoulli": "bern", "bernoulli_": "bern", "native_dropout": "drop",
          "normal_functional": "gauss", "rand_generator": "uniform"}
FACTORY = {"empty", "zeros", "ones", "full", "empty_like", "zeros_like", "ones_like", "full_like", "new_empty", "new_zeros",
           "new_ones", "new_full", "empty_strided", "new_empty_strided", "arange", "eye", "linspace", "scalar_tensor",
           "_efficientzerotensor"}


def base_name(func):
    n = func._schema.name.split("::")[1]
    return n


class Ops:
    """Shadow semantics of the ATen operators."""

    def __init__(self, ex):
        self.ex = ex

    # -- helpers
    def arr(self, x, like=None):
        if isinstance(x, torch.Tensor):
            return self.ex.read(x)
        return oarr(num(x), ())

    def narr(self, x):
        a = self.arr(x)
        return vec(num, a) if a.size else a

    def barr(self, x):
        a = self.arr(x)
        return vec(boolean, a) if a.size else a

    def run(self, func, args, kw):
        """returns (list of result arrays) or NotImplemented; results in the order of the operator's returns"""
        n = base_name(func)
        inpl = n.endswith("_") and not n.endswith("__")
        b = n[:-1] if inpl else n
        a = args
        if b in UN:
            return vec(UN[b], self.narr(a[0]))
        if b in UNB:
            return vec(UNB[b], self.arr(a[0]))
        if b == "bitwise_not":
            return vec(lambda x: b_not(boolean(x)), self.arr(a[0])) if a[0].dtype == torch.bool else NotImplemented
        if b in ("bitwise_and", "bitwise_or", "bitwise_xor", "__and__", "__or__"):
            dts = [x.dtype for x in a if isinstance(x, torch.Tensor)]
            if all(d == torch.bool for d in dts):
                f = CMP["logical_" + b.strip("_").split("_")[-1]]
                return vec(f, self.arr(a[0]), self.arr(a[1]))
            return NotImplemented
        if b in CMP:
            return vec(CMP[b], self.prep(a[0]), self.prep(a[1]))
        if b == "add" or b == "sub" or b == "rsub":
            al = num(kw.get("alpha", a[2] if len(a) > 2 else 1))
            x, y = self.narr(a[0]), self.narr(a[1])
            if b == "rsub":
                x, y = y, x
            f = t_add if b == "add" else t_sub
            if b == "add" and self.isbool(a[0]) and self.isbool(a[1]):
                return vec(lambda p, q: b_or(boolean(p), boolean(q)), x, y)
            return vec(lambda p, q: f(p, t_mul(al, q)), x, y)
        if b == "mul" and self.isbool(a[0]) and self.isbool(a[1]):
            return vec(lambda p, q: b_and(boolean(p), boolean(q)), self.arr(a[0]), self.arr(a[1]))
        if b in BIN and BIN[b]:
            return vec(BIN[b], self.narr(a[0]), self.narr(a[1]))
        if b in ("div", "true_divide"):
            m = kw.get("rounding_mode")
            f = {None: t_div, "floor": lambda p, q: t_floor(t_div(p, q)), "trunc": lambda p, q: t_trunc(t_div(p, q))}[m]
            return vec(f, self.narr(a[0]), self.narr(a[1]))
        if b in ("clamp", "clamp_min", "clamp_max", "hardtanh", "clip"):
            lo = hi = None
            if b == "clamp_min":
                lo = a[1]
            elif b == "clamp_max":
                hi = a[1]
            else:
                lo = kw.get("min", a[1] if len(a) > 1 else None)
                hi = kw.get("max", a[2] if len(a) > 2 else None)
                if b == "hardtanh":
                    lo = -1.0 if lo is None else lo
                    hi = 1.0 if hi is None else hi
            r = self.narr(a[0])
            if lo is not None:
                r = vec(t_max, r, self.narr(lo))
            if hi is not None:
                r = vec(t_min, r, self.narr(hi))
            return r
        if b == "where" and len(a) == 3:
            return vec(t_ite, self.barr(a[0]), self.arr(a[1]), self.arr(a[2]))
        if b == "masked_fill":
            return vec(lambda x, m, v: t_ite(m, v, x), self.arr(a[0]), self.barr(a[1]), self.narr(a[2]))
        if b == "addcmul":
            v = num(kw.get("value", 1))
            return vec(lambda x, p, q: t_add(x, t_mul(v, t_mul(p, q))), *map(self.narr, a[:3]))
        if b == "addcdiv":
            v = num(kw.get("value", 1))
            return vec(lambda x, p, q: t_add(x, t_mul(v, t_div(p, q))), *map(self.narr, a[:3]))
        if b == "lerp":
            return vec(lambda x, y, w: t_add(x, t_mul(w, t_sub(y, x))), *map(self.narr, a[:3]))
        if b == "nan_to_num":
            return vec(lambda x: x, self.narr(a[0]))
        if b in ("fill", "zero"):
            v = num(self.arr(a[1]).ravel()[0]) if b == "fill" else F0
            return oarr(boolean(v) if a[0].dtype == torch.bool else v, tuple(a[0].shape))
        if b == "copy":
            return np.broadcast_to(self.cast(self.arr(a[1]), a[1].dtype, a[0].dtype), tuple(a[0].shape)).copy()
        if b in ("_to_copy", "to"):
            return self.cast(self.arr(a[0]), a[0].dtype, kw.get("dtype") or a[0].dtype)
        if b in ("type_as",):
            return self.cast(self.arr(a[0]), a[0].dtype, a[1].dtype)
        # reductions
        if b in ("sum", "mean", "nansum"):
            return self.reduce(a, kw, lambda v: self.fold(t_add, v, F0),
                               (lambda r, k: t_mul(Fraction(1, k), r) if k else float("nan")) if b == "mean" else None)
        if b == "prod":
            return self.reduce(a, kw, lambda v: self.fold(t_mul, v, F1))
        if b in ("amax", "amin"):
            return self.reduce(a, kw, lambda v: self.ex.cut_max(v, b == "amax"))
        if b in ("max", "min"):
            f = t_max if b == "max" else t_min
            if len(a) == 1:
                return oarr(self.ex.cut_max(list(self.narr(a[0]).ravel()), b == "max"), ())
            if isinstance(a[1], torch.Tensor):
                return vec(f, self.narr(a[0]), self.narr(a[1]))
            return self.maxdim(a, kw, b == "max")
        if b in ("argmax", "argmin"):
            if len(a) < 2 or a[1] is None:
                r = self.maxdim((self.narr(a[0]).ravel(), 0), {}, b == "argmax")[1]
                return r
            return self.maxdim((self.narr(a[0]), a[1], a[2] if len(a) > 2 else kw.get("keepdim", False)), {},
                               b == "argmax")[1]
        if b in ("any", "all"):
            f, i = (b_or, False) if b == "any" else (b_and, True)
            x = self.barr(a[0])
            return self.reduce((x,) + tuple(a[1:]), kw, lambda v: self.fold(f, v, i), raw=True)
        if b in ("var", "std", "var_mean", "std_mean"):
            return self.var(b, a, kw)
        if b == "linalg_vector_norm":
            o = float(a[1]) if len(a) > 1 else 2.0
            dim = a[2] if len(a) > 2 else kw.get("dim")
            kd = a[3] if len(a) > 3 else kw.get("keepdim", False)
            if o == math.inf:
                return self.reduce((vec(t_abs, self.narr(a[0])), dim, kd), {}, lambda v: self.fold(t_max, v))
            if o == 1.0:
                return self.reduce((vec(t_abs, self.narr(a[0])), dim, kd), {}, lambda v: self.fold(t_add, v, F0))
            if o == 2.0:
                x = vec(lambda q: t_mul(q, q), self.narr(a[0]))
                return vec(lambda q: t_fun("sqrt", q), self.reduce((x, dim, kd), {}, lambda v: self.fold(t_add, v, F0)))
            return NotImplemented
        if b == "cumsum":
            x = self.narr(a[0]).copy()
            d = a[1]
            y = np.moveaxis(x, d, 0)
            for i in range(1, y.shape[0]):
                y[i] = vec(t_add, y[i - 1], y[i])
            return x
        # linear algebra
        if b == "mm":
            return self.mm(self.narr(a[0]), self.narr(a[1]))
        if b == "bmm":
            x, y = self.narr(a[0]), self.narr(a[1])
            return np.stack([self.mm(p, q) for p, q in zip(x, y)]) if x.shape[0] else oarr(F0, (0, x.shape[1], y.shape[2]))
        if b == "mv":
            return self.mm(self.narr(a[0]), self.narr(a[1])[:, None])[:, 0]
        if b == "dot" or b == "vdot":
            return self.mm(self.narr(a[0])[None, :], self.narr(a[1])[:, None])[0, 0:1].reshape(())
        if b in ("addmm", "addmv", "addr", "baddbmm", "addbmm"):
            be, al = num(kw.get("beta", 1)), num(kw.get("alpha", 1))
            if b == "addmm":
                m = self.mm(self.narr(a[1]), self.narr(a[2]))
            elif b == "addmv":
                m = self.mm(self.narr(a[1]), self.narr(a[2])[:, None])[:, 0]
            elif b == "addr":
                m = self.mm(self.narr(a[1])[:, None], self.narr(a[2])[None, :])
            elif b == "baddbmm":
                m = np.stack([self.mm(p, q) for p, q in zip(self.narr(a[1]), self.narr(a[2]))])
            else:
                return NotImplemented
            return vec(lambda s, q: t_add(t_mul(be, s), t_mul(al, q)), self.narr(a[0]), m)
        if b == "convolution":
            return self.conv(a)
        if b == "convolution_backward":
            return self.conv_bw(a)
        if b == "col2im":
            return self.col2im(func, a, kw)
        # gradients of elementwise functions
        if b == "threshold_backward":
            th = num(a[2])
            return vec(lambda g, x: t_ite(t_le(x, th), F0, g), self.narr(a[0]), self.narr(a[1]))
        if b == "hardtanh_backward":
            lo, hi = num(a[2]), num(a[3])
            return vec(lambda g, x: t_ite(b_or(t_le(x, lo), t_le(hi, x)), F0, g), self.narr(a[0]), self.narr(a[1]))
        if b == "tanh_backward":
            return vec(lambda g, y: t_mul(g, t_sub(F1, t_mul(y, y))), self.narr(a[0]), self.narr(a[1]))
        if b == "sigmoid_backward":
            return vec(lambda g, y: t_mul(g, t_mul(y, t_sub(F1, y))), self.narr(a[0]), self.narr(a[1]))
        if b == "linalg_lstsq":
            x, y = vec(simp, self.narr(a[0])), self.narr(a[1])
            if x.ndim != 2 or any(is_z(q) for q in x.ravel()):
                raise Unsupported("least squares with a symbolic matrix")
            n = x.shape[1]                       # normal equations, solved exactly
            m = [[sum((x[k, i] * x[k, j] for k in range(x.shape[0])), F0) for j in range(n)] + [i] for i in range(n)]
            r = [[self.fold(t_add, [t_mul(x[k, i], y[k, c]) for k in range(x.shape[0])]) for c in range(y.shape[1])]
                 for i in range(n)]
            for i in range(n):
                p = next((k for k in range(i, n) if m[k][i] != 0), None)
                if p is None:
                    raise Unsupported("least squares of deficient rank")
                m[i], m[p], r[i], r[p] = m[p], m[i], r[p], r[i]
                f = 1 / Fraction(m[i][i])
                m[i][:n] = [q * f for q in m[i][:n]]
                r[i] = [t_mul(f, q) for q in r[i]]
                for k in range(n):
                    if k != i and m[k][i] != 0:
                        g = m[k][i]
                        m[k][:n] = [q - g * s for q, s in zip(m[k][:n], m[i][:n])]
                        r[k] = [t_sub(q, t_mul(g, s)) for q, s in zip(r[k], r[i])]
            return [oarr(r, (n, y.shape[1])), None, None, None]
        if b == "mse_loss":
            d = vec(lambda p, q: t_mul(t_sub(p, q), t_sub(p, q)), self.narr(a[0]), self.narr(a[1]))
            r = a[2] if len(a) > 2 else 1
            if r == 0:
                return d
            s = self.fold(t_add, list(d.ravel()), F0)
            return oarr(t_mul(Fraction(1, d.size), s) if r == 1 else s, ())
        if b == "mse_loss_backward":
            g, x, y = (self.narr(q) for q in a[:3])
            k = Fraction(2, x.size) if a[3] == 1 else Fraction(2)
            return vec(lambda g_, p, q: t_mul(g_, t_mul(k, t_sub(p, q))), g, x, y)
        # indexing
        if b in ("index", "_unsafe_index"):
            return self.index(func, a)
        if b in ("index_put", "_index_put_impl", "_unsafe_index_put"):
            return self.index_put(a, kw)
        if b == "masked_select":
            m = self.ex.decide(a[1])
            x, mm = np.broadcast_arrays(self.arr(a[0]), m)
            return x[mm]
        if b == "masked_scatter":
            m = self.ex.decide(a[1])
            x = self.arr(a[0]).copy()
            m = np.broadcast_to(m, x.shape)
            x[m] = self.arr(a[2]).ravel()[:int(m.sum())]
            return x
        if b in ("index_add", "index_copy", "index_fill"):
            i = self.ex.decide(a[2]).astype(int)
            x = self.arr(a[0]).copy()
            y = np.moveaxis(x, a[1], 0)
            s = self.arr(a[3])
            s = np.moveaxis(s, a[1], 0) if s.ndim == x.ndim else s
            for k, j in enumerate(i):
                if b == "index_add":
                    al = num(kw.get("alpha", 1))
                    y[j] = t_add(num(y[j]), t_mul(al, num(s[k]))) if y.ndim == 1 else \
                        vec(lambda u, v: t_add(num(u), t_mul(al, num(v))), y[j], s[k])
                else:
                    y[j] = s[k] if b == "index_copy" else s
            return x
        if b in ("scatter", "scatter_add"):
            d = a[1]
            i = self.ex.decide(a[2]).astype(int)
            x = self.arr(a[0]).copy()
            s = np.broadcast_to(self.arr(a[3]), i.shape) if not isinstance(a[3], torch.Tensor) else self.arr(a[3])
            for p in np.ndindex(*i.shape):
                q = list(p)
                q[d] = i[p]
                q = tuple(q)
                x[q] = t_add(num(x[q]), num(s[p])) if b == "scatter_add" else s[p]
            return x
        if b in ("sort", "topk", "kthvalue", "median"):
            return self.sort(b, a, kw)
        if b == "_softmax":
            return self.softmax(self.narr(a[0]), a[1])
        if b == "_log_softmax":
            return vec(lambda q: t_fun("log", q), self.softmax(self.narr(a[0]), a[1]))
        return NotImplemented

    def isbool(self, x):
        return (isinstance(x, torch.Tensor) and x.dtype == torch.bool) or isinstance(x, bool)

    def prep(self, x):
        a = self.arr(x)
        if self.isbool(x):
            return vec(boolean, a) if False else vec(num, a)
        return vec(num, a) if a.size else a

    def cast(self, x, src, dst):
        if dst == torch.bool:
            return vec(boolean, x) if x.size else x
        if not dst.is_floating_point and src.is_floating_point:
            return vec(lambda q: t_trunc(num(q)), x)
        return vec(num, x) if x.size else x

    def fold(self, f, v, init=None):
        v = list(v)
        if not v:
            return init
        r = v[0]
        for q in v[1:]:
            r = f(r, q)
        return r

    def reduce(self, a, kw, f, post=None, raw=False):
        x = a[0] if isinstance(a[0], np.ndarray) else self.narr(a[0])
        dim = a[1] if len(a) > 1 else kw.get("dim")
        kd = a[2] if len(a) > 2 else kw.get("keepdim", False)
        if isinstance(dim, torch.dtype):
            dim = None
        if isinstance(dim, int):
            dim = [dim]
        if dim is None or (hasattr(dim, "__len__") and len(dim) == 0):
            dim = list(range(x.ndim))
        dim = [d % x.ndim if x.ndim else 0 for d in dim]
        if x.ndim == 0:
            r = f([x.item() if not is_z(x[()]) else x[()]])
            return oarr(post(r, 1) if post else r, ())
        rest = [d for d in range(x.ndim) if d not in dim]
        y = np.transpose(x, rest + dim).reshape([x.shape[d] for d in rest] + [-1])
        out = np.empty([x.shape[d] for d in rest], dtype=object)
        k = y.shape[-1]
        for p in np.ndindex(*out.shape):
            r = f(list(y[p]))
            out[p] = post(r, k) if post else r
        if kd:
            out = out.reshape([1 if d in dim else x.shape[d] for d in range(x.ndim)])
        return out

    def maxdim(self, a, kw, ismax):
        x = a[0] if isinstance(a[0], np.ndarray) else self.narr(a[0])
        dim = a[1] if len(a) > 1 else kw.get("dim")
        kd = a[2] if len(a) > 2 else kw.get("keepdim", False)
        y = np.moveaxis(x, dim, -1) if x.ndim else x.reshape(1)
        vo, io = np.empty(y.shape[:-1], dtype=object), np.empty(y.shape[:-1], dtype=object)
        for p in np.ndindex(*vo.shape):
            v = self.ex.cut_max(list(y[p]), ismax)
            i = Fraction(y.shape[-1] - 1)
            for k in range(y.shape[-1] - 2, -1, -1):
                i = t_ite(t_eq(y[p][k], v), Fraction(k), i)
            vo[p], io[p] = v, i
        if kd and x.ndim:
            vo, io = np.expand_dims(vo, dim), np.expand_dims(io, dim)
        return [vo, io]

    def var(self, b, a, kw):
        x = self.narr(a[0])
        dim = a[1] if len(a) > 1 and not isinstance(a[1], bool) else kw.get("dim")
        corr = kw.get("correction", 1)
        if len(a) > 2 or (len(a) > 1 and isinstance(a[1], bool)):
            return NotImplemented
        kd = kw.get("keepdim", False)
        corr = 1 if corr is None else int(corr)

        def f(v):
            k = len(v)
            m = t_mul(Fraction(1, k), self.fold(t_add, v))
            s = self.fold(t_add, [t_mul(t_sub(q, m), t_sub(q, m)) for q in v])
            if k - corr <= 0:
                return float("nan")
            r = t_mul(Fraction(1, k - corr), s)
            return t_fun("sqrt", simp(r)) if b.startswith("std") else r
        r = self.reduce((x, dim, kd), {}, f)
        if b.endswith("_mean"):
            return [r, self.reduce((x, dim, kd), {}, lambda v: t_mul(Fraction(1, len(v)), self.fold(t_add, v)))]
        return r

    def mm(self, x, y):
        out = np.empty((x.shape[0], y.shape[1]), dtype=object)
        for i in range(x.shape[0]):
            for j in range(y.shape[1]):
                r = F0
                for k in range(x.shape[1]):
                    r = t_add(r, t_mul(x[i, k], y[k, j]))
                out[i, j] = r
        return out

    def conv_idx(self, xs, ws, stride, pad, dil, groups):
        """(n, co, out pos, ci in group, kernel pos, in pos)"""
        nd = len(xs) - 2
        osz = [(xs[2 + d] + 2 * pad[d] - dil[d] * (ws[2 + d] - 1) - 1) // stride[d] + 1 for d in range(nd)]
        og = ws[0] // groups
        for n in range(xs[0]):
            for co in range(ws[0]):
                g = co // og
                for op in np.ndindex(*osz):
                    for ci in range(ws[1]):
                        for kp in np.ndindex(*ws[2:]):
                            ip = tuple(op[d] * stride[d] - pad[d] + kp[d] * dil[d] for d in range(nd))
                            if all(0 <= ip[d] < xs[2 + d] for d in range(nd)):
                                yield (n, co) + op, (co, ci) + kp, (n, g * ws[1] + ci) + ip

    def conv(self, a):
        if a[6]:
            raise Unsupported("transposed convolution")
        x, w = self.narr(a[0]), self.narr(a[1])
        nd = x.ndim - 2
        st, pad, dil = (list(q) * (nd if len(q) == 1 else 1) for q in (a[3], a[4], a[5]))
        osz = [(x.shape[2 + d] + 2 * pad[d] - dil[d] * (w.shape[2 + d] - 1) - 1) // st[d] + 1 for d in range(nd)]
        out = oarr(F0, (x.shape[0], w.shape[0], *osz))
        for o, k, i in self.conv_idx(x.shape, w.shape, st, pad, dil, a[8]):
            out[o] = t_add(out[o], t_mul(x[i], w[k]))
        if a[2] is not None:
            out = vec(t_add, out, self.narr(a[2]).reshape((1, -1) + (1,) * nd))
        return out

    def conv_bw(self, a):
        g, x, w = (self.narr(q) for q in a[:3])
        nd = x.ndim - 2
        st, pad, dil = (list(q) * (nd if len(q) == 1 else 1) for q in (a[4], a[5], a[6]))
        gx, gw = oarr(F0, x.shape), oarr(F0, w.shape)
        m = a[10]
        for o, k, i in self.conv_idx(x.shape, w.shape, st, pad, dil, a[9]):
            if m[0]:
                gx[i] = t_add(gx[i], t_mul(g[o], w[k]))
            if m[1]:
                gw[k] = t_add(gw[k], t_mul(g[o], x[i]))
        gb = self.reduce((g, [0] + list(range(2, g.ndim))), {}, lambda v: self.fold(t_add, v, F0)) if m[2] else None
        return [gx if m[0] else None, gw if m[1] else None, gb]

    def col2im(self, func, a, kw):
        # adjoint of im2col, which is pure data movement
        x = self.narr(a[0])
        size = list(a[1])
        with _disable_current_modes():
            c = x.shape[-2] // int(np.prod(a[2]))
            n = c * size[0] * size[1]
            ids = torch.arange(1, n + 1, dtype=torch.float64).reshape(1, c, *size)
            idx = torch.ops.aten.im2col(ids, *a[2:]).numpy()[0].astype(int)
        b3 = x if x.ndim == 3 else x[None]
        out = oarr(F0, (b3.shape[0], n))
        for bb in range(b3.shape[0]):
            for p in np.ndindex(*idx.shape):
                if idx[p]:
                    out[bb, idx[p] - 1] = t_add(out[bb, idx[p] - 1], b3[bb][p])
        out = out.reshape(b3.shape[0], c, *size)
        return out if x.ndim == 3 else out[0]

    def softmax(self, x, dim):
        e = vec(lambda q: t_fun("exp", q), x)
        s = np.expand_dims(self.reduce((e, dim), {}, lambda v: self.fold(t_add, v)), dim)
        return vec(t_div, e, s)

    def index(self, func, a):
        x = self.arr(a[0])
        idx = []
        for i in a[1]:
            if i is None:
                idx.append(None)
            else:
                idx.append(self.ex.decide(i))
        return self.npindex(x, idx)

    def npindex(self, x, idx):
        with _disable_current_modes():
            ids = torch.arange(x.size).reshape(x.shape)
            t = [slice(None) if i is None else torch.from_numpy(np.ascontiguousarray(i)) for i in idx]
            r = ids[tuple(t)].numpy()
        return x.ravel()[r] if x.size else oarr(F0, r.shape)

    def index_put(self, a, kw):
        x = self.arr(a[0]).copy()
        acc = kw.get("accumulate", a[3] if len(a) > 3 else False)
        v = self.arr(a[2])
        ind = a[1]
        if len(ind) == 1 and ind[0].dtype == torch.bool and v.ndim == 0 and not acc:
            m = self.barr(ind[0])
            m = np.broadcast_to(m.reshape(m.shape + (1,) * (x.ndim - m.ndim)), x.shape)
            return vec(lambda c, p: t_ite(c, v[()], p), m, x)
        idx = [None if i is None else self.ex.decide(i) for i in ind]
        with _disable_current_modes():
            ids = torch.arange(x.size).reshape(x.shape)
            t = [slice(None) if i is None else torch.from_numpy(np.ascontiguousarray(i)) for i in idx]
            r = ids[tuple(t)].numpy()
        vv = np.broadcast_to(v, r.shape).ravel()
        fl = x.ravel()
        for k, p in enumerate(r.ravel()):
            fl[p] = t_add(num(fl[p]), num(vv[k])) if acc else vv[k]
        return fl.reshape(x.shape)

    def sort(self, b, a, kw):
        x = self.narr(a[0])
        if b == "sort":
            dim = a[1] if len(a) > 1 else kw.get("dim", -1)
            desc = a[2] if len(a) > 2 else kw.get("descending", False)
            k = None
        elif b == "topk":
            k = a[1]
            dim = a[2] if len(a) > 2 else -1
            desc = a[3] if len(a) > 3 else True
        elif b == "kthvalue":
            k = a[1]
            dim = a[2] if len(a) > 2 else -1
            desc = False
        else:
            return NotImplemented
        y = np.moveaxis(x, dim, -1).copy() if x.ndim else x.reshape(1)
        n = y.shape[-1]
        idx = np.empty(y.shape, dtype=object)
        for p in np.ndindex(*y.shape[:-1]):
            v = [(q, Fraction(i)) for i, q in enumerate(y[p])]
            for i in range(n):                     # exchange network on terms
                for j in range(n - 1 - i):
                    (p1, i1), (p2, i2) = v[j], v[j + 1]
                    c = t_lt(p1, p2) if desc else t_lt(p2, p1)
                    v[j], v[j + 1] = (t_ite(c, p2, p1), t_ite(c, i2, i1)), (t_ite(c, p1, p2), t_ite(c, i1, i2))
            for i in range(n):
                y[p + (i,)], idx[p + (i,)] = v[i]
        if b == "topk":
            y, idx = y[..., :k], idx[..., :k]
        if b == "kthvalue":
            return [y[..., k - 1], idx[..., k - 1]]
        return [np.moveaxis(y, -1, dim), np.moveaxis(idx, -1, dim)]


class DMode(TorchDispatchMode):
    def __init__(self, ex):
        super().__init__()
        self.ex = ex

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        return self.ex.dispatch(func, args, kwargs or {})


LEAKS = {"numpy", "tolist", "__array__", "__int__", "__float__", "__index__"}


class FMode(TorchFunctionMode):
    def __init__(self, ex):
        super().__init__()
        self.ex = ex

    def __torch_function__(self, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        ex = self.ex
        n = getattr(func, "__name__", "")
        if n == "backward" and ex.sym and func in (torch.Tensor.backward, torch.autograd.backward):
            # the code run by the backward pass needs this mode too
            def bw(t, gradient=None, retain_graph=None, create_graph=False, grad_variables=None, inputs=None,
                   grad_tensors=None):
                ts = (t,) if isinstance(t, torch.Tensor) else tuple(t)
                g = gradient if gradient is not None else grad_tensors
                gs = (g,) * len(ts) if g is None or isinstance(g, torch.Tensor) else tuple(g)
                gs = tuple(torch.ones_like(t) if g is None and t.requires_grad else g for t, g in zip(ts, gs))
                ins = () if inputs is None else (inputs,) if isinstance(inputs, torch.Tensor) else tuple(inputs)
                with self:
                    torch.autograd.Variable._execution_engine.run_backward(
                        ts, gs, create_graph if retain_graph is None else retain_graph, create_graph, ins,
                        allow_unreachable=True, accumulate_grad=True)
            return bw(*args, **kwargs)
        if n in ("item",) and ex.sym and ex.tracked_t(args[0]):
            v = ex.read(args[0]).ravel()[0]
            if args[0].dtype == torch.bool:
                return ex.fork(v)
            if not args[0].dtype.is_floating_point:
                return int(ex.concretize(v))
            return mkf(v)
        if n in LEAKS and ex.sym and args and isinstance(args[0], torch.Tensor) and ex.tracked_t(args[0]):
            v = vec(simp, ex.read(args[0]))
            if any(is_z(q) for q in v.ravel()):
                if args[0].numel() == 1 and n in ("__int__", "__index__"):
                    return int(ex.concretize(v.ravel()[0]))
                if args[0].dtype == torch.bool or not args[0].dtype.is_floating_point:
                    ex.decide(args[0])
                elif n == "numpy" and ex.numpy_ok:
                    return args[0].clone()     # the harness stands in for the numpy code that follows
                elif n == "tolist":
                    with _disable_current_modes():
                        return vec(mkf, v).tolist()
                else:
                    raise Unsupported(f"symbolic tensor leaves torch through {n}")
        if ex.sym and (_has_symf(args) or _has_symf(kwargs.values())):
            if n in ("clamp", "clip", "clamp_", "clip_"):
                args = list(args)
                for i in (1, 2):
                    if i < len(args) and args[i] is not None and not isinstance(args[i], torch.Tensor):
                        args[i] = ex.scalar(args[i], args[0].dtype)
                kwargs = {k: (v if v is None or isinstance(v, torch.Tensor) else ex.scalar(v, args[0].dtype))
                          for k, v in kwargs.items()}
            elif n in ("full", "full_like", "new_full"):
                args = list(args)
                if n == "full" and "fill_value" in kwargs:
                    args.append(kwargs.pop("fill_value"))
                k = 1 if n != "new_full" else 2
                v = args[k]
                args[k] = 0.0
                if n == "full" and "dtype" not in kwargs:
                    kwargs = dict(kwargs, dtype=torch.get_default_dtype())
                t = func(*args, **kwargs)
                return t + ex.scalar(v, t.dtype)
            elif n in ("tensor", "as_tensor"):
                return ex.from_nested(args[0], kwargs.get("dtype"), kwargs.get("requires_grad", False))
            else:
                args = _mapf(args, ex)
                kwargs = {k: _mapf1(v, ex) for k, v in kwargs.items()}
        return func(*args, **kwargs)


def _has_symf(xs):
    for x in xs:
        if isinstance(x, SymF):
            return True
        if isinstance(x, (list, tuple)) and _has_symf(x):
            return True
    return False


def _mapf1(x, ex):
    if isinstance(x, SymF):
        return ex.scalar(x, torch.get_default_dtype())
    if isinstance(x, (list, tuple)) and _has_symf(x):
        return type(x)(_mapf1(q, ex) for q in x)
    return x


def _mapf(xs, ex):
    return [_mapf1(x, ex) for x in xs]


class Explorer:
    """Runs a harness over all feasible paths (sym) or once on concrete inputs."""

    def __init__(self, seed=1, timeout_ms=20000):
        self.seed = seed
        self.timeout_ms = timeout_ms
        self.numpy_ok = False
        self.sym = False
        self.stats = dict(paths=0, queries=0, solver_s=0.0, asserts=0, proved=0, trivially_true=0)
        self.violations = []
        self.unknowns = []
        self.witnesses = []
        self.samples = []
        self.reached = {}
        self.ops_seen = set()
        self.functions = set()
        self.ops = Ops(self)

    # ---- per path state
    def reset(self):
        self.shadow = {}
        self.pc = []
        self.facts_seen = {}
        self.cuts = {}
        self.vars = {}
        self.names = {}
        self.trace = []
        self.pos = 0
        self.draws = []
        self.obs = []
        self.solver = z3.Solver()
        self.solver.set("timeout", 4000)
        self.failed = []
        self.rounding = 0

    # ---- storage shadows
    def key(self, t):
        return t.untyped_storage()._cdata

    def tracked_t(self, t):
        return isinstance(t, torch.Tensor) and t.layout == torch.strided and self.key(t) in self.shadow

    def strided_idx(self, t):
        o = np.full((), t.storage_offset(), dtype=int)
        for d, (n, s) in enumerate(zip(t.shape, t.stride())):
            o = o[..., None] + np.arange(n) * s
        return o

    def read(self, t):
        with _disable_current_modes():
            k = self.key(t)
            e = self.shadow.get(k)
            if e is None:
                v = t.detach().cpu()
                a = v.numpy() if v.dtype != torch.bfloat16 else v.float().numpy()
                out = np.empty(a.shape, dtype=object)
                isb = t.dtype == torch.bool
                for p in np.ndindex(*a.shape):
                    out[p] = bool(a[p]) if isb else num(a[p].item())
                if out.ndim == 0:
                    out[()] = bool(a) if isb else num(a.item())
                return out
            i = self.strided_idx(t)
            out = np.empty(i.shape, dtype=object)
            lst = e[1]
            fo, fi = out.ravel() if out.ndim else out.reshape(1), i.ravel()
            for q in range(fi.shape[0]):
                fo[q] = lst[fi[q]]
            return fo.reshape(i.shape)

    def write(self, t, arr):
        with _disable_current_modes():
            k = self.key(t)
            e = self.shadow.get(k)
            arr = np.broadcast_to(arr, tuple(t.shape)) if arr.shape != tuple(t.shape) else arr
            if e is None:
                st = t.untyped_storage()
                n = st.nbytes() // t.element_size()
                full = torch.empty(0, dtype=t.dtype).set_(st, 0, (n,), (1,)) if n else torch.empty(0, dtype=t.dtype)
                isb = t.dtype == torch.bool
                lst = [bool(v) if isb else num(v) for v in full.tolist()]
                e = self.shadow[k] = (st, lst)
            lst = e[1]
            i = self.strided_idx(t)
            isb = t.dtype == torch.bool
            for p, v in zip(i.ravel(), arr.ravel()):
                lst[p] = boolean(v) if isb else num(v)
            # concrete results are also stored for real (indices, masks, data-dependent code)
            if all(not is_z(v) for v in arr.ravel()):
                self.poke(t, arr)

    def poke(self, t, arr):
        with _disable_current_modes(), torch.no_grad():
            if t.numel():
                v = np.array([bool(x) if t.dtype == torch.bool else float(x) for x in arr.ravel()]).reshape(arr.shape)
                torch.ops.aten.copy_(t.detach(), torch.from_numpy(v).to(t.dtype))

    def decide(self, t):
        """forces an index or mask tensor to concrete values on this path"""
        if not isinstance(t, torch.Tensor):
            return np.array(t)
        if not self.tracked_t(t):
            with _disable_current_modes():
                return t.detach().numpy()
        a = self.read(t)
        out = np.empty(a.shape, dtype=object)
        for p in np.ndindex(*a.shape):
            out[p] = self.fork(a[p]) if t.dtype == torch.bool else self.concretize(a[p])
        self.write(t, out)
        self.poke(t, out)
        return np.array([bool(x) if t.dtype == torch.bool else int(x) for x in out.ravel()],
                        dtype=bool if t.dtype == torch.bool else int).reshape(a.shape)

    def scalar(self, v, dtype):
        with _disable_current_modes():
            t = torch.zeros((), dtype=dtype)
        self.write(t, oarr(num(v), ()))
        return t

    def from_nested(self, x, dtype, requires_grad):
        a = np.array(x, dtype=object)
        with _disable_current_modes():
            t = torch.zeros(a.shape, dtype=dtype or torch.get_default_dtype())
        self.write(t, vec(num, a))
        return t.requires_grad_() if requires_grad else t

    # ---- dispatch
    def dispatch(self, func, args, kw):
        flat = []

        def coll(x):
            if isinstance(x, torch.Tensor):
                flat.append(x)
            elif isinstance(x, (list, tuple)):
                for y in x:
                    coll(y)
        coll(args)
        coll(list(kw.values()))
        n = base_name(func)
        self.ops_seen.add(n)
        if n in RANDOM or (n in ("randn", "rand", "randint", "randperm", "multinomial", "random_", "exponential_",
                                 "log_normal_", "poisson", "cauchy_", "geometric_", "randint_like")):
            return self.random(n, func, args, kw)
        if not self.sym or not any(self.tracked_t(t) for t in flat):
            return func(*args, **kw)
        if n in FACTORY:
            r = func(*args, **kw)
            return r
        if n in ("_local_scalar_dense", "item"):
            v = self.read(args[0]).ravel()[0]
            if args[0].dtype == torch.bool:
                return self.fork(v)
            v = simp(v)
            if not is_z(v):
                return (float if args[0].dtype.is_floating_point else int)(v)
            if not args[0].dtype.is_floating_point:
                return int(self.concretize(v))
            raise Unsupported("value of a symbolic tensor needed (_local_scalar_dense)")
        if n in ("is_nonzero",):
            return self.fork(boolean(self.read(args[0]).ravel()[0]))
        if n in ("equal",):
            a, b = self.read(args[0]), self.read(args[1])
            if a.shape != b.shape:
                return False
            return self.fork(self.ops.fold(b_and, [t_eq(num(p), num(q)) for p, q in zip(a.ravel(), b.ravel())], True))
        if n in ("nonzero", "nonzero_numpy"):
            a = args[0]
            m = np.array([self.fork(boolean(x)) for x in self.read(a).ravel()]).reshape(tuple(a.shape))
            with _disable_current_modes():
                return torch.ops.aten.nonzero(torch.from_numpy(m))
        if n in ("masked_select",) or (n == "index" and any(i is not None and i.dtype == torch.bool for i in args[1])):
            for i in ([args[1]] if n == "masked_select" else args[1]):
                if i is not None and self.tracked_t(i):
                    self.decide(i)
        if n == "index" or n == "index_put_" or n == "index_select" or n == "gather":
            for i in (args[1] if isinstance(args[1], (list, tuple)) else args[2:3]):
                if i is not None and self.tracked_t(i) and i.dtype != torch.bool:
                    self.decide(i)
        alias = func._schema.is_mutable
        if not alias:
            rets = func._schema.returns
            if rets and all(r.alias_info is not None and not r.alias_info.is_write for r in rets):
                return func(*args, **kw)          # a view
        if n in ("set_", "resize_", "as_strided_", "t_", "squeeze_", "unsqueeze_", "transpose_", "detach_", "swapaxes_",
                 "requires_grad_", "sym_size", "sym_stride", "sym_numel", "sym_storage_offset", "is_same_size"):
            return func(*args, **kw)
        b = n[:-1] if n.endswith("_") else n
        if b in MOVE:
            res = self.move(func, args, kw)
            real = func(*args, **kw)
            return self.put(func, real, res, args)
        res = self.ops.run(func, args, kw)
        if res is NotImplemented:
            d = torch._decomp.decomposition_table.get(func)
            if d is not None:
                with DMode(self):
                    return d(*args, **kw)
            raise Unsupported(f"operator {func}")
        real = func(*args, **kw)
        return self.put(func, real, res, args)

    def put(self, func, real, res, args):
        if isinstance(real, torch.Tensor):
            if isinstance(res, list):
                res = res[0]
            if tuple(real.shape) != tuple(np.shape(res)) and real.numel() != np.size(res):
                raise Unsupported(f"shape of {func}: {tuple(real.shape)} / {np.shape(res)}")
            self.write(real, res.reshape(tuple(real.shape)))
        elif isinstance(real, (list, tuple)):
            for r, s in zip(real, res):
                if r is not None and s is not None:
                    self.write(r, s)
        elif real is not None:
            raise Unsupported(f"result of {func}")
        return real

    def move(self, func, args, kw):
        """pure data movement: the operator itself, applied to element numbers, gives the permutation"""
        pool = [F0]

        def m(x):
            if isinstance(x, torch.Tensor) and (x.dtype.is_floating_point or self.tracked_t(x)) or \
                    (isinstance(x, torch.Tensor) and x.dtype == torch.bool):
                a = self.read(x)
                base = len(pool)
                pool.extend(a.ravel())
                return torch.arange(base, base + a.size, dtype=torch.float64).reshape(a.shape)
            if isinstance(x, (list, tuple)):
                return type(x)(m(y) for y in x)
            return x
        n = base_name(func)
        with _disable_current_modes():
            pad = None
            if n == "constant_pad_nd":
                v = args[2] if len(args) > 2 else kw.get("value", 0)
                if v:
                    pad = len(pool)
                    pool.append(num(v))
                    args = list(args)
                    args[2] = float(pad)
            kw = {k: v for k, v in kw.items() if k not in ("memory_format",)}
            r = func(*[m(x) for x in args], **kw)

            def out(t):
                i = t.numpy().astype(int)
                o = np.empty(i.shape, dtype=object)
                for p in np.ndindex(*i.shape):
                    o[p] = pool[i[p]]
                return o
            return out(r) if isinstance(r, torch.Tensor) else [out(t) for t in r]

    # ---- randomness
    def random(self, n, func, args, kw):
        kind = RANDOM.get(n)
        if kind is None:
            if n == "randperm":
                return func(*args, **kw)
            raise Unsupported(f"random operator {n}")
        g = {k: v for k, v in kw.items() if k != "generator"}
        with _disable_current_modes():
            if kind == "drop":
                out = torch.empty_like(args[0])
            elif n in ("normal_", "uniform_", "bernoulli_"):
                out = args[0]
            elif n in ("normal", "normal_functional"):
                ts = [x for x in args if isinstance(x, torch.Tensor)]
                if not ts:
                    raise Unsupported("normal(float, float)")
                out = torch.empty(torch.broadcast_shapes(*[t.shape for t in ts]), dtype=ts[0].dtype)
            elif n == "bernoulli":
                out = torch.empty_like(args[0])
            else:
                out = func(*args, **kw)
        del g
        shape = tuple(out.shape)
        if kind in ("bern", "drop"):
            d = self.draw("uniform", shape)
            if kind == "drop":
                p = args[1]
                if not args[2]:
                    p = 0.0
                m = self.apply(lambda u: t_le(num(p), u), d)
                r = self.apply2(lambda c, x: t_ite(c, t_div(x, num(1 - p)), F0), m, args[0])
                with _disable_current_modes():
                    mt = torch.empty(shape, dtype=torch.bool)
                self.setv(out, r)
                self.setv(mt, m)
                return out, mt
            p = (args[1] if len(args) > 1 else 0.5) if n == "bernoulli_" else args[0]
            if n == "bernoulli" and len(args) > 1 and isinstance(args[1], float):
                p = args[1]
            pa = self.read(p) if isinstance(p, torch.Tensor) else oarr(num(p), shape)
            r = vec(lambda u, q: t_ite(t_lt(u, num(q)), F1, F0), d, np.broadcast_to(pa, shape))
            self.setv(out, r)
            return out
        d = self.draw(kind, shape)
        if n == "normal_" or n in ("normal", "normal_functional"):
            a = args[1:] if n == "normal_" else args[(1 if n == "normal_functional" else 0):]
            mu = a[0] if len(a) > 0 else kw.get("mean", 0.0)
            sd = a[1] if len(a) > 1 else kw.get("std", 1.0)
            mu = self.read(mu) if isinstance(mu, torch.Tensor) else oarr(num(mu), ())
            sd = self.read(sd) if isinstance(sd, torch.Tensor) else oarr(num(sd), ())
            d = vec(lambda g_, m_, s_: t_add(m_, t_mul(s_, g_)), d, mu, sd) if shape != () or True else d
        elif n == "uniform_":
            lo = num(args[1] if len(args) > 1 else kw.get("from", 0.0))
            hi = num(args[2] if len(args) > 2 else kw.get("to", 1.0))
            d = vec(lambda u: t_add(lo, t_mul(t_sub(hi, lo), u)), d)
        self.setv(out, d)
        return out

    def apply(self, f, a):
        return vec(f, a)

    def apply2(self, f, a, t):
        return vec(f, a, vec(num, self.read(t)))

    def setv(self, t, arr):
        if self.sym:
            self.write(t, arr)
        else:
            self.poke(t, arr)

    def draw(self, kind, shape):
        k = len(self.draws)
        a = np.empty(shape, dtype=object)
        fl = a.reshape(-1)
        for i in range(fl.shape[0]):
            fl[i] = self.var(f"{kind}#{k}.{i}", None if kind == "gauss" else 0, None if kind == "gauss" else 1,
                             strict_hi=kind == "uniform")
        a = fl.reshape(shape)
        self.draws.append((kind, a))
        return a

    # ---- variables, path condition
    def var(self, name, lo=None, hi=None, strict_hi=False):
        if not self.sym:
            if name in self.inputs:
                v = float(self.inputs[name])
            else:
                l, h = (-2.0 if lo is None else float(lo)), (2.0 if hi is None else float(hi))
                v = self.rng.gauss(0, 1) if name.startswith("gauss#") else round(self.rng.uniform(l, h), 3)
                if name.startswith("uniform#"):
                    v = min(v, 0.999)
            self.used[name] = v
            return num(v)
        v = z3.Real(name)
        self.vars[name] = v
        if lo is not None:
            self.add(v >= z(num(lo)))
        if hi is not None:
            self.add(v < z(num(hi)) if strict_hi else v <= z(num(hi)))
        return v

    def add(self, c):
        if not is_z(c):
            if not c:
                raise PathEnd()
            return
        self.pc.append(c)
        self.solver.add(c)

    def chk(self, *a):
        t = time.time()
        self.stats["queries"] += 1
        r = self.solver.check(*a)
        self.stats["solver_s"] += time.time() - t
        return r

    def cut_max(self, v, ismax):
        """the maximum (minimum) of several terms, named"""
        v = [num(x) for x in v]
        if any(special(x) for x in v) or sum(is_z(x) for x in v) < 2 or len(v) < 3:
            return self.ops.fold(t_max if ismax else t_min, v)
        key = (ismax, tuple(z(x).get_id() for x in v))
        if key in self.cuts:
            return self.cuts[key][0]
        m = z3.Real(f"cut!{len(self.cuts)}")
        self.cuts[key] = (m, [z(x) for x in v])
        for x in v:
            self.add(m >= z(x) if ismax else m <= z(x))
        self.add(z3.Or([m == z(x) for x in v]))
        return m

    def uf_facts(self, name, t, a):
        k = t.get_id()
        if k in self.facts_seen:
            return
        old = [e for e in self.facts_seen.values() if e[0] == name]
        self.facts_seen[k] = (name, t, a)
        f = []
        x = z(a[0])
        if name == "exp":
            f = [t > 0, t >= 1 + x, z3.Implies(x > 0, t > 1), z3.Implies(x < 0, t < 1)]
        elif name == "log":
            f = [z3.Implies(x > 0, t <= x - 1), z3.Implies(x > 1, t > 0), z3.Implies(z3.And(x > 0, x < 1), t < 0)]
        elif name == "sqrt":
            f = [z3.Implies(x >= 0, z3.And(t >= 0, t * t == x)), z3.Implies(x > 0, t > 0)]
        elif name == "tanh":
            f = [t < 1, t > -1, z3.Implies(x > 0, z3.And(t > 0, t < x)), z3.Implies(x < 0, z3.And(t < 0, t > x)),
                 z3.Implies(x == 0, t == 0)]
        elif name == "pow":
            y = z(a[1])
            f = [z3.Implies(x > 0, t > 0), z3.Implies(y == 0, t == 1), z3.Implies(x == 1, t == 1),
                 z3.Implies(y == 1, t == x),
                 z3.Implies(z3.And(x > 1, y > 0), t > 1), z3.Implies(z3.And(x > 1, y < 0), t < 1),
                 z3.Implies(z3.And(x > 0, x < 1, y > 0), t < 1), z3.Implies(z3.And(x > 0, x < 1, y < 0), t > 1)]
        if name in ("exp", "log", "tanh", "sqrt") and len(old) < 12:
            for _, t2, a2 in old:
                x2 = z(a2[0])
                g = z3.And(z3.Implies(x < x2, t < t2), z3.Implies(x2 < x, t2 < t))
                if name in ("log", "sqrt"):
                    g = z3.Implies(z3.And(x > 0, x2 > 0), g)
                f.append(g)
        for c in f:
            self.add(c)

    def feasible(self, c):
        keep, _ = solve.slice_pc(self.pc, c)
        s = z3.Solver()
        s.set("timeout", 1000)
        s.add(*keep, c)
        t = time.time()
        self.stats["queries"] += 1
        r = s.check()
        self.stats["solver_s"] += time.time() - t
        return r

    def fork(self, c, free=False):
        c = boolean(c)
        if not is_z(c):
            return c
        c = simp(c)
        if not is_z(c):
            return c
        if not self.sym:
            raise Inconclusive("fork in a concrete run")
        if self.pos < len(self.plan):
            d = self.plan[self.pos]
            self.pos += 1
            self.trace.append(d)
            self.add(c if d[0] else z3.Not(c))
            return d[0]
        if free:
            t = f = z3.sat
        else:
            t = self.feasible(c)
            f = z3.sat if t == z3.unsat else self.feasible(z3.Not(c))
        if t == z3.unsat or f == z3.unsat:
            v = t != z3.unsat
            d = (v, False)
        else:
            v, d = True, (True, True)
        self.pos += 1
        self.trace.append(d)
        self.add(c if v else z3.Not(c))
        return v

    def concretize(self, v):
        v = simp(v)
        if not is_z(v):
            return v
        for _ in range(64):
            r = self.chk()
            if r != z3.sat:
                if r == z3.unsat:
                    raise PathEnd()
                raise Inconclusive("cannot concretize")
            k = self.solver.model().eval(v, model_completion=True)
            k = Fraction(k.numerator_as_long(), k.denominator_as_long())
            # deterministic across re-runs: planned values are kept in the trace
            if self.pos < len(self.plan):
                d = self.plan[self.pos]
                self.pos += 1
                self.trace.append(d)
                k = d[2]
                self.add(v == z(k) if d[0] else v != z(k))
                if d[0]:
                    return k
                continue
            other = self.chk(v != z(k))
            d = (True, other != z3.unsat, k)
            self.pos += 1
            self.trace.append(d)
            self.add(v == z(k))
            return k
        raise Inconclusive("too many values")

    # ---- assertions
    def check_all(self, c, ident, slack=None):
        """c: bool or term; slack: what has to hold when only the rounding of constants breaks c"""
        self.stats["asserts"] += 1
        self.reached[ident] = self.reached.get(ident, 0) + 1
        c = simp(boolean(c))
        if c is True:
            self.stats["trivially_true"] += 1
            self.stats["proved"] += 1
            return
        if c is False:
            c = z3.BoolVal(False)
        t = time.time()
        r, m = solve.prove(self.pc, c, self.timeout_ms, "real", self.stats)
        self.stats["solver_s"] += time.time() - t
        if len(self.samples) < 6 and r == "proved":
            self.samples.append(dict(assertion=ident, term=str(c)[:300]))
        if r == "proved":
            self.stats["proved"] += 1
            return
        if r == "unknown":
            self.unknowns.append(ident)
            return
        if slack is not None:
            w = simp(slack())
            if w is not False and (w is True or solve.prove(self.pc, w, self.timeout_ms, "real", self.stats)[0] == "proved"):
                self.stats["proved"] += 1
                self.stats["within_1e-6"] = self.stats.get("within_1e-6", 0) + 1
                return
        self.violations.append((ident, self.inputs_of(m)))
        raise PathEnd()

    def check_eq(self, p, q, ident):
        d = t_sub(p, q)
        if is_z(d):
            d = simp(z3.simplify(d, som=True, som_blowup=200))
        if is_z(d):
            t = time.time()
            r = rat.prove_zero(self.pc, d, self.stats)
            self.stats["solver_s"] += time.time() - t
            if r:
                self.stats["asserts"] += 1
                self.stats["proved"] += 1
                self.stats["by_cases"] = self.stats.get("by_cases", 0) + 1
                self.reached[ident] = self.reached.get(ident, 0) + 1
                if len(self.samples) < 6:
                    self.samples.append(dict(assertion=ident, term=str(d)[:300]))
                return
        self.check_all(t_eq(d, F0), ident, lambda: b_and(t_le(d, EPS), t_le(t_neg(d), EPS)))

    def inputs_of(self, m):
        out = {}
        for n, v in self.vars.items():
            x = m.eval(v, model_completion=True)
            if z3.is_algebraic_value(x):
                x = x.approx(20)
            out[n] = x.numerator_as_long() / x.denominator_as_long()
        for n, v in self.names.items():
            out[n] = v
        return out

    # ---- running
    def run_concrete(self, fn, inputs, seed=1):
        global CUR
        CUR = self
        self.sym = False
        self.reset()
        self.inputs, self.used = dict(inputs), {}
        self.rng = random.Random(seed)
        torch.manual_seed(seed)
        h = H(self)
        try:
            with FMode(self), DMode(self):
                fn(h)
        except PathEnd:
            pass
        except (Unsupported, Inconclusive):
            raise
        except Exception as e:  # noqa: BLE001
            self.failed.append(f"exception {type(e).__name__}: {str(e)[:200]}")
        return self.failed, self.obs

    def explore(self, fn, max_paths=400, budget_s=300):
        global CUR
        CUR = self
        t0 = time.time()
        stack = [[]]
        n = 0
        while stack:
            if n >= max_paths or time.time() - t0 > budget_s:
                raise Inconclusive(f"more than {n} paths or {budget_s} s")
            self.plan = stack.pop()
            self.sym = True
            self.reset()
            n += 1
            torch.manual_seed(self.seed)
            ended = False
            if n == 4:
                sys.setprofile(None)
            with torch.enable_grad():
                try:
                    with FMode(self), DMode(self):
                        fn(H(self))
                    ended = True
                except PathEnd:
                    pass
                except (Unsupported, Inconclusive):
                    raise
                except z3.Z3Exception as e:
                    raise Unsupported(f"z3: {e}") from e
                except Exception as e:  # noqa: BLE001
                    import traceback
                    tb = traceback.extract_tb(e.__traceback__)
                    if self.in_repo(tb):
                        self.stats["asserts"] += 1
                        if self.chk() == z3.sat:
                            self.violations.append((f"exception {type(e).__name__}", self.inputs_of(self.solver.model())))
                    else:
                        raise
            self.stats["paths"] += 1
            for i in range(len(self.trace) - 1, len(self.plan) - 1, -1):
                d = self.trace[i]
                if d[1]:
                    stack.append(self.trace[:i] + [(False, False) + tuple(d[2:])])
            if ended and len(self.witnesses) < 6:
                self.witness()
            self.sym = False
            if len(self.violations) > 3:
                break
        self.shadow = {}

    def in_repo(self, tb):
        last = [f for f in tb if "/aihwkit/" in f.filename]
        mine = [f for f in tb if f.filename.endswith("tsym.py") and f.name not in ("__torch_function__", "__torch_dispatch__",
                                                                                  "dispatch", "explore")]
        return bool(last) and not mine

    def witness(self):
        """a concrete point of this path, with the values predicted for the observed tensors"""
        if self.chk() != z3.sat:
            return
        m = self.solver.model()
        # prefer a point away from the default zeros
        rng = random.Random(self.seed + self.stats["paths"])
        self.solver.push()
        try:
            for n, v in list(self.vars.items())[:14]:
                self.solver.push()
                self.solver.add(v == z(Fraction(rng.randint(-40, 40), 16)))
                if self.chk() != z3.sat:
                    self.solver.pop()
                    k = z(Fraction(rng.randint(1, 15), 16))
                    self.solver.push()
                    self.solver.add(v == k)
                    if self.chk() != z3.sat:
                        self.solver.pop()
                        continue
                m = self.solver.model()
        except z3.Z3Exception:
            pass
        inp = self.inputs_of(m)
        env = {k: v for k, v in inp.items()}
        obs = []
        for t in self.obs:
            obs.append(evalt(t, env, m))
        while self.solver.num_scopes():
            self.solver.pop()
        self.witnesses.append(dict(inputs=inp, observed=obs))


def evalt(t, env, m):
    """value of a term at concrete inputs, elementary functions interpreted"""
    if not is_z(t):
        return float(t)
    memo = {}

    def ev(e):
        k = e.get_id()
        if k in memo:
            return memo[k]
        kd = e.decl().kind()
        ch = e.children()
        if z3.is_rational_value(e) or z3.is_int_value(e):
            r = float(e.as_fraction()) if z3.is_rational_value(e) else e.as_long()
        elif kd == z3.Z3_OP_ITE:
            r = ev(ch[1]) if ev(ch[0]) else ev(ch[2])
        elif kd == z3.Z3_OP_UNINTERPRETED:
            if not ch:
                if e.decl().name() in env:
                    r = env[e.decl().name()]
                else:
                    x = m.eval(e, model_completion=True)
                    r = z3.is_true(x) if z3.is_bool(e) else float(x.as_fraction())
            else:
                r = PYF[e.decl().name()](*[ev(c) for c in ch])
        else:
            v = [ev(c) for c in ch]
            if kd == z3.Z3_OP_ADD:
                r = sum(v)
            elif kd == z3.Z3_OP_MUL:
                r = math.prod(v)
            elif kd == z3.Z3_OP_SUB:
                r = v[0] - sum(v[1:])
            elif kd == z3.Z3_OP_UMINUS:
                r = -v[0]
            elif kd == z3.Z3_OP_DIV:
                r = v[0] / v[1]
            elif kd == z3.Z3_OP_LE:
                r = v[0] <= v[1]
            elif kd == z3.Z3_OP_LT:
                r = v[0] < v[1]
            elif kd == z3.Z3_OP_GE:
                r = v[0] >= v[1]
            elif kd == z3.Z3_OP_GT:
                r = v[0] > v[1]
            elif kd == z3.Z3_OP_EQ:
                r = v[0] == v[1]
            elif kd == z3.Z3_OP_DISTINCT:
                r = v[0] != v[1]
            elif kd == z3.Z3_OP_AND:
                r = all(v)
            elif kd == z3.Z3_OP_OR:
                r = any(v)
            elif kd == z3.Z3_OP_NOT:
                r = not v[0]
            elif kd == z3.Z3_OP_IMPLIES:
                r = (not v[0]) or v[1]
            elif kd == z3.Z3_OP_TO_INT:
                r = math.floor(v[0])
            elif kd == z3.Z3_OP_TO_REAL:
                r = v[0]
            elif kd == z3.Z3_OP_MOD:
                r = v[0] % v[1]
            elif kd == z3.Z3_OP_TRUE:
                r = True
            elif kd == z3.Z3_OP_FALSE:
                r = False
            elif kd == z3.Z3_OP_POWER:
                r = v[0] ** v[1]
            else:
                raise Unsupported(f"eval {e.decl()}")
        memo[k] = r
        return r
    try:
        return float(ev(t))
    except (ZeroDivisionError, ValueError, OverflowError, Unsupported, AttributeError):
        return None


# ---------------------------------------------------------------- what harnesses use
FIX = {}           # choice name -> index (or indices) this run is restricted to


class H:
    def __init__(self, ex):
        self.ex = ex
        self.sym = ex.sym

    def tensor(self, name, shape, lo=-2.0, hi=2.0, grad=False, dtype=torch.float32):
        """a tensor of arbitrary reals in [lo, hi]"""
        with _disable_current_modes():
            t = torch.zeros(shape, dtype=dtype)
        a = np.empty(shape, dtype=object)
        fl = a.reshape(-1)
        for i in range(fl.shape[0]):
            fl[i] = self.ex.var(f"{name}.{i}", lo, hi)
        self.ex.setv(t, fl.reshape(shape))
        return t.requires_grad_() if grad else t

    def real(self, name, lo=-2.0, hi=2.0):
        """an arbitrary python float"""
        v = self.ex.var(name, lo, hi)
        return mkf(v) if self.sym else float(v)

    def flag(self, name):
        """an arbitrary python bool"""
        return self.choice(name, [False, True])

    def choice(self, name, options):
        """one of the options; all are explored (a run may be restricted to some of them, see FIX)"""
        ex = self.ex
        if name in FIX:
            k = FIX[name]
            if isinstance(k, int):
                return options[k]
            options = [options[i] for i in k]
        if not self.sym:
            i = int(ex.inputs.get(name, ex.rng.randrange(len(options))))
            ex.used[name] = i
            return options[i]
        v = z3.Int(name)
        ex.add(z3.And(v >= 0, v < len(options)))
        for i in range(len(options) - 1):
            if ex.fork(v == i, free=True):
                ex.names[name] = i
                return options[i]
        ex.names[name] = len(options) - 1
        return options[-1]

    def assume(self, c):
        """c: bool tensor, python bool, or term"""
        for q in self._bools(c):
            if self.sym:
                q = simp(q)
                self.ex.add(q)
            elif not q:
                raise PathEnd()
        if self.sym and self.ex.chk() == z3.unsat:
            raise PathEnd()

    def _bools(self, c):
        if isinstance(c, torch.Tensor):
            return [boolean(q) for q in self.ex.read(c).ravel()]
        return [boolean(c)]

    def true(self, c, ident):
        for q in self._bools(c):
            if self.sym:
                self.ex.check_all(q, ident)
            elif not q:
                self.ex.failed.append(ident)

    def vals(self, t):
        if isinstance(t, torch.Tensor):
            return vec(num, self.ex.read(t)) if t.numel() else self.ex.read(t)
        if isinstance(t, np.ndarray):
            return vec(num, t)
        return oarr(num(t), ())

    def eq(self, a, b, ident, tol=2e-3):
        """elementwise equality (the tolerance is for the float replay only)"""
        x, y = self.vals(a), self.vals(b)
        if x.shape != y.shape:
            if x.size == y.size == 1:
                x, y = x.reshape(()), y.reshape(())
            elif y.ndim == 0:
                y = np.broadcast_to(y, x.shape)
            else:
                if self.sym:
                    self.ex.check_all(False, ident + " (shape)")
                else:
                    self.ex.failed.append(ident + " (shape)")
                return
        for p, q in zip(x.ravel(), y.ravel()):
            if self.sym:
                if (special(p) or special(q)):
                    ok = special(p) and special(q) and (p == q or (p != p and q != q))
                    self.ex.check_all(ok, ident)
                    continue
                self.ex.check_eq(p, q, ident)
            else:
                p, q = float(p), float(q)
                if p == q or (p != p and q != q):
                    continue
                if not abs(p - q) <= tol * max(1.0, abs(p), abs(q)):
                    self.ex.failed.append(f"{ident} ({p!r} {q!r})")

    def le(self, a, b, ident, tol=2e-3):
        x, y = np.broadcast_arrays(self.vals(a), self.vals(b))
        for p, q in zip(x.ravel(), y.ravel()):
            if self.sym:
                self.ex.check_all(t_le(p, q), ident, lambda: t_le(t_sub(p, q), EPS))
            elif not float(p) <= float(q) + tol * max(1.0, abs(float(q))):
                self.ex.failed.append(f"{ident} ({float(p)!r} > {float(q)!r})")

    def observe(self, t):
        """values compared between the symbolic prediction and a concrete run"""
        self.ex.obs.extend(self.vals(t).ravel())

    def draws(self):
        """random draws so far: list of (kind, tensor)"""
        out = []
        for kind, a in self.ex.draws:
            with _disable_current_modes():
                t = torch.zeros(a.shape)
            self.ex.setv(t, a)
            out.append((kind, t))
        return out

    def t(self, arr):
        """tensor with given terms"""
        arr = np.asarray(arr, dtype=object)
        with _disable_current_modes():
            t = torch.zeros(arr.shape)
        self.ex.setv(t, vec(num, arr))
        return t

    def numpy_models(self):
        """the numpy (sklearn) functions called by the code under test are replaced by models on tensors"""
        self.ex.numpy_ok = True

    def raises(self, f, ident, exc=Exception):
        ok = False
        try:
            f()
        except (PathEnd, Unsupported, Inconclusive):
            raise
        except exc:
            ok = True
        if self.sym:
            self.ex.check_all(ok, ident)
        elif not ok:
            self.ex.failed.append(ident)


# storages are copied behind the dispatcher's back by copy.deepcopy
_orig_clone = torch.UntypedStorage.clone


def _clone(self):
    with _disable_current_modes():
        n = _orig_clone(self)
    if CUR is not None and CUR.sym:
        e = CUR.shadow.get(self._cdata)
        if e is not None:
            CUR.shadow[n._cdata] = (n, list(e[1]))
    return n


def install():
    torch.UntypedStorage.clone = _clone
