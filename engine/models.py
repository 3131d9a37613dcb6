"""Environment models: allocation, libc/libm, BLAS, the small part of libstdc++ that is not in the
bitcode, C++ exceptions and RTTI, and the harness API (sym_*)."""

import math
import struct
import zlib
from fractions import Fraction

import z3

from rt import (CxxThrow, Fault, INF, Inconclusive, PathEnd, SPtr, Unsupported, _FS, _s, f32, is_sym, real_of, to_fp,
                to_real)


def install(R):
    R.streams = {}
    R.clock = 1000
    R.gauss_bound = 16.0
    R.intr = {}


def _signed(x, w=32):
    return _s(x, w) if type(x) is int else x


# ------------------------------------------------------------------------- transcendental functions
def _uf(R, name, n=1):
    k = ("uf", name)
    f = R.ufs.get(k)
    if f is None:
        f = z3.Function("uf_" + name, *([z3.RealSort()] * (n + 1)))
        R.ufs[k] = f
    return f


def _fp_uf(R, name, args, w):
    k = ("fpuf", name, w)
    f = R.ufs.get(k)
    if f is None:
        f = z3.Function(f"uffp_{name}_{w}", *([_FS[w]] * (len(args) + 1)))
        R.ufs[k] = f
    return f(*[to_fp(a, w) for a in args])


def _conc(fn, *a):
    try:
        return fn(*a)
    except OverflowError:
        return INF
    except (ValueError, ZeroDivisionError):
        return float("nan")


def _facts(R, *cs):
    for c in cs:
        R.add_pc(c)


def _history(R, name):
    h = R.path_hist.setdefault(name, [])
    return h


def m_exp(R, x, w):
    if type(x) is float:
        v = _conc(math.exp, x)
        return f32(v) if w == 32 else v
    if R.mode != "real":
        return _fp_uf(R, "exp", [x], w)
    xr = to_real(x)
    y = _uf(R, "exp")(xr)
    _facts(R, y > 0, z3.Implies(xr <= 0, y <= 1), z3.Implies(xr >= 0, y >= 1 + xr), z3.Implies(xr <= 0, y >= 1 + xr))
    for (a, b) in _history(R, "exp"):
        _facts(R, z3.Implies(a <= xr, b <= y), z3.Implies(xr <= a, y <= b))
    _history(R, "exp").append((xr, y))
    return y


def m_log(R, x, w):
    if type(x) is float:
        v = -INF if x == 0 else _conc(math.log, x)
        return f32(v) if w == 32 else v
    if R.mode != "real":
        return _fp_uf(R, "log", [x], w)
    xr = to_real(x)
    if R.br(xr <= 0):
        return -INF if R.br(xr == 0) else float("nan")
    y = _uf(R, "log")(xr)
    _facts(R, z3.Implies(xr <= 1, y <= 0), z3.Implies(xr >= 1, y >= 0), y <= xr - 1)
    for (a, b) in _history(R, "log"):
        _facts(R, z3.Implies(a <= xr, b <= y), z3.Implies(xr <= a, y <= b))
    _history(R, "log").append((xr, y))
    return y


def m_pow(R, x, p, w):
    if type(x) is float and type(p) is float:
        try:
            v = math.pow(x, p)
        except OverflowError:
            v = INF
        except (ValueError, ZeroDivisionError):
            v = INF if x == 0 else float("nan")
        return f32(v) if w == 32 else v
    if type(p) is float and p == 0.0:
        return 1.0
    if type(x) is float and x == 1.0:
        return 1.0
    if type(p) is float and p == 1.0:
        return x
    if R.mode != "real":
        return _fp_uf(R, "pow", [x, p], w)
    if type(p) is float and p == int(p) and 1 < p <= 4:
        xr = to_real(x)
        r = xr
        for _ in range(int(p) - 1):
            r = r * xr
        return r
    xr, pr = to_real(x), to_real(p)
    if R.br(xr < 0):
        raise Unsupported("pow of a symbolic negative base with a non-integer exponent")
    if R.br(xr == 0):
        if R.br(pr > 0):
            return 0.0
        return 1.0 if R.br(pr == 0) else INF
    y = _uf(R, "pow", 2)(xr, pr)
    _facts(R, y > 0, z3.Implies(pr == 0, y == 1), z3.Implies(xr == 1, y == 1), z3.Implies(pr == 1, y == xr),
           z3.Implies(z3.And(xr <= 1, pr >= 0), y <= 1), z3.Implies(z3.And(xr >= 1, pr >= 0), y >= 1),
           z3.Implies(z3.And(xr <= 1, pr <= 0), y >= 1), z3.Implies(z3.And(xr >= 1, pr <= 0), y <= 1),
           z3.Implies(z3.And(xr >= 1, pr >= 1), y >= xr), z3.Implies(z3.And(xr <= 1, pr >= 1), y <= xr))
    for (a, q, b) in _history(R, "pow"):
        _facts(R, z3.Implies(z3.And(a <= xr, q == pr, pr >= 0), b <= y),
               z3.Implies(z3.And(xr <= a, q == pr, pr >= 0), y <= b))
    _history(R, "pow").append((xr, pr, y))
    return y


def m_tanh(R, x, w):
    if type(x) is float:
        v = math.tanh(x)
        return f32(v) if w == 32 else v
    if R.mode != "real":
        return _fp_uf(R, "tanh", [x], w)
    xr = to_real(x)
    y = _uf(R, "tanh")(xr)
    _facts(R, y < 1, y > -1, z3.Implies(xr >= 0, y >= 0), z3.Implies(xr <= 0, y <= 0))
    return y


def m_sqrt(R, x, w):
    if type(x) is float:
        v = math.sqrt(x) if x >= 0 else float("nan")
        return f32(v) if w == 32 else v
    if R.mode != "real":
        if R.abstract:
            return _fp_uf(R, "sqrt", [x], w)
        return z3.fpSqrt(z3.RNE(), x)
    xr = to_real(x)
    if R.br(xr < 0):
        return float("nan")
    y = _uf(R, "sqrt")(xr)
    _facts(R, y >= 0, y * y == xr)
    return y


def _ri(x):
    """floor as Real"""
    return z3.ToReal(z3.ToInt(x))


def _is_integral(x):
    return z3.is_app_of(x, z3.Z3_OP_TO_REAL)


def fl(R, x, w, kind):
    if type(x) is float:
        if x != x or x in (INF, -INF):
            return x
        if kind == "floor":
            return float(math.floor(x))
        if kind == "ceil":
            return float(math.ceil(x))
        if kind == "trunc":
            return float(math.trunc(x))
        if kind == "rint":
            return float(round(x))
        return math.copysign(float(math.floor(abs(x) + 0.5)) if abs(x) < 2 ** 52 else abs(x), x)
    if R.mode != "real":
        if R.abstract and kind in ("rint", "round"):
            pass
        rm = {"floor": z3.RTN(), "ceil": z3.RTP(), "trunc": z3.RTZ(), "rint": z3.RNE(), "round": z3.RNA()}[kind]
        return z3.fpRoundToIntegral(rm, x)
    x = to_real(x)
    if _is_integral(x):
        return x
    if kind == "floor":
        return _ri(x)
    if kind == "ceil":
        return -_ri(-x)
    if kind == "trunc":
        return z3.If(x >= 0, _ri(x), -_ri(-x))
    half = z3.RatVal(1, 2)
    if kind == "round":   # half away from zero
        return z3.If(x >= 0, _ri(x + half), -_ri(-x + half))
    k = z3.ToInt(x + half)   # half to even
    tie = (x + half == z3.ToReal(k))
    return z3.ToReal(z3.If(z3.And(tie, k % 2 == 1), k - 1, k))


def fabs(R, x, w):
    if type(x) is float:
        return abs(x)
    if R.mode != "real":
        return z3.fpAbs(x)
    x = to_real(x)
    return z3.If(x >= 0, x, -x)


def fmin_(R, x, y, w):
    if type(x) is float and type(y) is float:
        return y if x != x else x if y != y else min(x, y)
    if R.mode != "real":
        return z3.fpMin(to_fp(x, w), to_fp(y, w))
    return R.ops["select"](R.ops["fcmp"](x, y, "olt"), x, y, w)


def fmax_(R, x, y, w):
    if type(x) is float and type(y) is float:
        return y if x != x else x if y != y else max(x, y)
    if R.mode != "real":
        return z3.fpMax(to_fp(x, w), to_fp(y, w))
    return R.ops["select"](R.ops["fcmp"](x, y, "ogt"), x, y, w)


def copysign(R, x, y, w):
    if type(x) is float and type(y) is float:
        return math.copysign(x, y)
    if R.mode != "real":
        return z3.If(z3.fpIsNegative(to_fp(y, w)), z3.fpNeg(z3.fpAbs(to_fp(x, w))), z3.fpAbs(to_fp(x, w)))
    a = fabs(R, x, w)
    if type(y) is float:
        return -to_real(a) if math.copysign(1.0, y) < 0 else a
    return z3.If(to_real(y) >= 0, to_real(a), -to_real(a))


# ------------------------------------------------------------------------- intrinsics
def intrinsic(R, name):
    """Python-name (in R.ops) of the implementation of llvm.* intrinsic `name`."""
    base = name[5:]
    parts = base.split(".")
    key = "x_" + base.replace(".", "_")
    if key in R.ops:
        return key
    o = R.ops
    p0 = parts[0]

    def put(f):
        o[key] = f
        return key
    if p0 in ("memcpy", "memmove"):
        return put(lambda d, s, n, v, w=0: R.memcpy(d, s, n))
    if p0 == "memset":
        return put(lambda d, c, n, v, w=0: R.memset(d, c, n))
    if p0 in ("smax", "smin", "umax", "umin"):
        cmp = o["icmp_" + {"smax": "sgt", "smin": "slt", "umax": "ugt", "umin": "ult"}[p0]]
        return put(lambda a, b, w: o["select"](cmp(a, b, w), a, b, w))
    if p0 == "abs":
        return put(lambda a, z, w: o["select"](o["icmp_slt"](a, 0, w), o["i_sub"](0, a, w), a, w))
    if p0 in ("floor", "ceil", "trunc", "rint", "round", "nearbyint", "roundeven"):
        k = {"nearbyint": "rint", "roundeven": "rint"}.get(p0, p0)
        return put(lambda a, w: fl(R, a, w, k))
    if p0 == "fabs":
        return put(lambda a, w: fabs(R, a, w))
    if p0 in ("minnum", "minimum"):
        return put(lambda a, b, w: fmin_(R, a, b, w))
    if p0 in ("maxnum", "maximum"):
        return put(lambda a, b, w: fmax_(R, a, b, w))
    if p0 == "copysign":
        return put(lambda a, b, w: copysign(R, a, b, w))
    if p0 == "fmuladd":
        return put(lambda a, b, c, w: o["fadd"](o["fmul"](a, b, w), c, w))
    if p0 == "sqrt":
        return put(lambda a, w: m_sqrt(R, a, w))
    if p0 in ("exp",):
        return put(lambda a, w: m_exp(R, a, w))
    if p0 in ("log",):
        return put(lambda a, w: m_log(R, a, w))
    if p0 == "pow":
        return put(lambda a, b, w: m_pow(R, a, b, w))
    if p0 in ("uadd", "sadd", "umul", "smul", "usub", "ssub") and parts[1] == "with":
        op = {"add": "i_add", "mul": "i_mul", "sub": "i_sub"}[p0[1:]]

        def ovf(a, b, w):
            if type(a) is int and type(b) is int:
                if p0[0] == "s":
                    x, y = _s(a, w), _s(b, w)
                else:
                    x, y = a, b
                r = {"add": x + y, "mul": x * y, "sub": x - y}[p0[1:]]
                lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if p0[0] == "s" else (0, (1 << w) - 1)
                return [r & ((1 << w) - 1), int(not lo <= r <= hi)]
            raise Unsupported("symbolic with.overflow")
        return put(ovf)
    if p0 == "uadd" and parts[1] == "sat" or p0 == "usub" and parts[1] == "sat":
        def sat(a, b, w):
            if p0 == "usub":
                return o["select"](o["icmp_ult"](a, b, w), 0, o["i_sub"](a, b, w), w)
            raise Unsupported("uadd.sat")
        return put(sat)
    if p0 == "ctpop":
        def ctpop(a, w):
            if type(a) is int:
                return bin(a).count("1")
            if z3.is_bv(a):
                r = z3.BitVecVal(0, w)
                for k in range(w):
                    r = r + z3.ZeroExt(w - 1, z3.Extract(k, k, a))
                return r
            raise Unsupported("ctpop of Int")
        return put(ctpop)
    if p0 in ("ctlz", "cttz"):
        def clz(a, z, w):
            if type(a) is int:
                if p0 == "ctlz":
                    return w - a.bit_length()
                return w if a == 0 else (a & -a).bit_length() - 1
            raise Unsupported("ctlz")
        return put(clz)
    if p0 == "is" and parts[1] == "fpclass":
        def cls(a, mask, w):
            if type(a) is float:
                k = 0
                if a != a:
                    k = 3
                elif a == INF:
                    k = 512
                elif a == -INF:
                    k = 4
                elif a == 0:
                    k = 32 if math.copysign(1, a) < 0 else 64
                else:
                    sub = abs(a) < (1.17549435e-38 if f32(a) == a else 2.2250738585072014e-308)
                    k = (16 if sub else 8) if a < 0 else (128 if sub else 256)
                return int(bool(mask & k))
            if R.mode == "real":
                # a finite real: normal/subnormal/zero are not distinguished except zero
                fin_nz, zero = mask & (8 | 16 | 128 | 256), mask & (32 | 64)
                if not fin_nz and not zero:
                    return 0
                if fin_nz == (8 | 16 | 128 | 256) and zero == (32 | 64):
                    return 1
                ng, ps = mask & (8 | 16), mask & (128 | 256)
                if ng not in (0, 24) or ps not in (0, 384) or zero not in (0, 96):
                    raise Unsupported("is.fpclass")
                r = to_real(a)
                return z3.Or(*[c for k, c in ((ng, r < 0), (ps, r > 0), (zero, r == 0)) if k])
            cs = []
            for bit, f in ((3, z3.fpIsNaN), (516, z3.fpIsInf)):
                if mask & bit == bit:
                    cs.append(f(a))
                elif mask & bit:
                    raise Unsupported("is.fpclass")
            rest = mask & ~(3 | 516)
            for bit, f in ((264, z3.fpIsNormal), (144, z3.fpIsSubnormal), (96, z3.fpIsZero)):
                if rest & bit == bit:
                    cs.append(f(a))
                elif rest & bit:
                    raise Unsupported("is.fpclass")
            return z3.Or(*cs) if cs else 0
        return put(cls)
    if p0 == "trap":
        def trap(w=0):
            raise Fault("trap")
        return put(trap)
    if p0 == "eh" and parts[1] == "typeid":
        return put(lambda a, w: (a & 0xFFFFFFFF) if a else 1)
    if p0 == "stacksave":
        return put(lambda w: 0)
    if p0 == "expect":
        return put(lambda a, b, w: a)
    if p0 == "objectsize":
        return put(lambda *a, w: (1 << w) - 1)
    if p0 == "load" and parts[1] == "relative":
        raise Unsupported("load.relative")
    if p0 in ("fshl", "fshr"):
        def fsh(a, b, c, w):
            if all(type(q) is int for q in (a, b, c)):
                s = c % w
                t = (a << w) | b
                if p0 == "fshl":
                    return (t >> (w - s)) & ((1 << w) - 1)
                return (t >> s) & ((1 << w) - 1)
            raise Unsupported("fshl")
        return put(fsh)

    def bad(*a, **k):
        raise Unsupported("intrinsic " + name)
    return put(bad)


# ------------------------------------------------------------------------- std::string
def mk_string(R, addr, text):
    b = text.encode("latin1")
    if len(b) < 16:
        p = addr + 16
    else:
        p = R.new_obj(len(b) + 1)
        R.store(addr + 16, 8, len(b))
    R.store(addr, 8, p)
    R.store(addr + 8, 8, len(b))
    for k, c in enumerate(b + b"\0"):
        R.store(p + k, 1, c)


def get_string(R, addr):
    p, n = R.load(addr, 8, "p", 64), R.load(addr + 8, 8, "i", 64)
    return R.bytes_at(p, n).decode("latin1")


def stream_of(R, os):
    for a in (os, os - 16):
        if a in R.streams:
            return R.streams[a]
    return None


def stream_put(R, os, text):
    s = stream_of(R, os)
    if s is not None:
        s.append(text)
    return os


def bases_of(R, ti):
    """[(base typeinfo, offset)] of a class typeinfo object."""
    vp = R.load(ti, 8, "p", 64)
    si = R.m.globals.get("_ZTVN10__cxxabiv120__si_class_type_infoE")
    vmi = R.m.globals.get("_ZTVN10__cxxabiv121__vmi_class_type_infoE")
    if si is not None and vp == R.addr_of_global("_ZTVN10__cxxabiv120__si_class_type_infoE") + 16:
        return [(R.load(ti + 16, 8, "p", 64), 0)]
    if vmi is not None and vp == R.addr_of_global("_ZTVN10__cxxabiv121__vmi_class_type_infoE") + 16:
        n = R.load(ti + 20, 4, "i", 32)
        out = []
        for k in range(n):
            b = R.load(ti + 24 + 16 * k, 8, "p", 64)
            of = _s(R.load(ti + 32 + 16 * k, 8, "i", 64), 64)
            out.append((b, of >> 8))
        return out
    return []


def find_base(R, ti, dst, off=0):
    if ti == dst:
        return off
    for b, o in bases_of(R, ti):
        r = find_base(R, b, dst, off + o)
        if r is not None:
            return r
    return None


def is_derived(R, ti, dst):
    try:
        return find_base(R, ti, dst) is not None
    except Fault:
        return False


def lookup(R, name):
    f = TABLE.get(name)
    if f is not None:
        return lambda *a: f(R, *a)
    if name.startswith(("_ZNSols", "_ZStls", "_ZNSo", "_ZNSt8ios_base", "_ZSt4endl", "_ZSt5flush", "_ZNSi", "_ZNKSo")):
        return lambda *a: a[0] if a else None
    return None


def reg(*names):
    def deco(f):
        for n in names:
            TABLE[n] = f
        return f
    return deco


TABLE = {}


@reg("_Znwm", "_Znam", "malloc", "_ZnwmSt11align_val_t")
def m_new(R, n, *_):
    if type(n) is not int:
        n = R.concretize(n, 64)
    if n > 1 << 28:
        raise Unsupported(f"allocation of {n} bytes")
    return R.new_obj(n)


@reg("calloc")
def m_calloc(R, n, s):
    p = m_new(R, n * s)
    R.memset(p, 0, n * s)
    return p


@reg("_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm", "free", "_ZdlPvSt11align_val_t")
def m_del(R, p, *_):
    R.free(p)


@reg("memcpy", "memmove")
def m_memcpy(R, d, s, n):
    R.memcpy(d, s, n)
    return d


@reg("memset")
def m_memset(R, d, c, n):
    R.memset(d, c & 255, n)
    return d


@reg("strlen")
def m_strlen(R, p):
    return len(R.cstr(p))


@reg("memcmp", "bcmp")
def m_memcmp(R, a, b, n):
    x, y = R.bytes_at(a, n), R.bytes_at(b, n)
    return 0 if x == y else (1 if x > y else 0xFFFFFFFF)


@reg("strcmp")
def m_strcmp(R, a, b):
    x, y = R.cstr(a), R.cstr(b)
    return 0 if x == y else (1 if x > y else 0xFFFFFFFF)


@reg("memchr")
def m_memchr(R, a, c, n):
    for k in range(n):
        if R.load(a + k, 1, "i", 8) == c & 255:
            return a + k
    return 0


for _n, _w in (("f", 32), ("", 64), ("l", 80)):
    TABLE["exp" + _n] = (lambda w: lambda R, x: m_exp(R, x, w))(_w)
    TABLE["log" + _n] = (lambda w: lambda R, x: m_log(R, x, w))(_w)
    TABLE["pow" + _n] = (lambda w: lambda R, x, p: m_pow(R, x, p, w))(_w)
    TABLE["exp2" + _n] = (lambda w: lambda R, x: m_pow(R, 2.0, x, w))(_w)
    TABLE["tanh" + _n] = (lambda w: lambda R, x: m_tanh(R, x, w))(_w)
    TABLE["sqrt" + _n] = (lambda w: lambda R, x: m_sqrt(R, x, w))(_w)
    for _k in ("floor", "ceil", "trunc", "rint", "round"):
        TABLE[_k + _n] = (lambda w, k: lambda R, x: fl(R, x, w, k))(_w, _k)
    TABLE["fabs" + _n] = (lambda w: lambda R, x: fabs(R, x, w))(_w)
    TABLE["fmin" + _n] = (lambda w: lambda R, x, y: fmin_(R, x, y, w))(_w)
    TABLE["fmax" + _n] = (lambda w: lambda R, x, y: fmax_(R, x, y, w))(_w)
    TABLE["copysign" + _n] = (lambda w: lambda R, x, y: copysign(R, x, y, w))(_w)
    TABLE["fmod" + _n] = (lambda w: lambda R, x, y: R.ops["frem"](x, y, w))(_w)


@reg("nextafterf")
def m_nextafter(R, x, y):
    if type(x) is float and type(y) is float:
        import numpy as np
        return float(np.nextafter(np.float32(x), np.float32(y)))
    if R.mode == "real":
        return x       # the next float is not a notion of the reals
    raise Unsupported("nextafter")


@reg("fesetround")
def m_fesetround(R, m):
    return 0


@reg("rand")
def m_rand(R):
    return R.sym_int("rand", 0, 0x7FFFFFFF)


@reg("_ZNSt6chrono3_V212system_clock3nowEv", "_ZNSt6chrono3_V212steady_clock3nowEv")
def m_now(R):
    R.clock += 1000
    return R.clock


@reg("time")
def m_time(R, p):
    return 1


# ---- C++ runtime
@reg("__cxa_allocate_exception")
def m_cxa_alloc(R, n):
    return R.new_obj(max(n, 64))


@reg("__cxa_throw")
def m_cxa_throw(R, o, ti, d):
    raise CxxThrow(o, ti)


@reg("__cxa_begin_catch")
def m_begin_catch(R, o):
    R.caught.append(o)
    return o


@reg("__cxa_end_catch")
def m_end_catch(R):
    if R.caught:
        R.caught.pop()


@reg("__cxa_rethrow")
def m_rethrow(R):
    raise CxxThrow(R.caught[-1] if R.caught else 0, R.exc_ti)


@reg("__cxa_free_exception", "__cxa_guard_abort", "_ZSt21ios_base_library_initv", "_ZNSt8ios_base4InitC1Ev",
     "_ZNSt8ios_base4InitD1Ev", "_ZNSt13runtime_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE",
     "_ZNSt13runtime_errorC1EPKc", "_ZNSt13runtime_errorD1Ev", "_ZNSt12out_of_rangeC1EPKc", "_ZNSt12out_of_rangeD1Ev",
     "_ZNSaIcEC2ERKS_", "_ZNSaIcEC2Ev", "_ZNSaIcED2Ev", "_ZNSt6localeC1Ev", "_ZNSt6localeD1Ev", "_ZNSaIcEC1Ev",
     "_ZNSaIcED1Ev", "_ZNSaIcEC1ERKS_", "_ZNSt9exceptionD2Ev", "_ZNSt9exceptionD1Ev")
def m_nop(R, *a):
    return None


@reg("__cxa_guard_acquire")
def m_guard(R, p):
    return 0 if R.load(p, 1, "i", 8) else 1


@reg("__cxa_guard_release")
def m_guard_rel(R, p):
    R.store(p, 1, 1)


@reg("__cxa_atexit")
def m_atexit(R, *a):
    return 0


@reg("__cxa_pure_virtual", "_ZSt9terminatev", "abort", "__clang_call_terminate")
def m_abort(R, *a):
    raise Fault("terminate/abort/pure virtual call")


@reg("__gxx_personality_v0")
def m_pers(R, *a):
    return 0


@reg("_ZSt17__throw_bad_allocv", "_ZSt20__throw_length_errorPKc", "_ZSt20__throw_out_of_rangePKc",
     "_ZSt24__throw_out_of_range_fmtPKcz", "_ZSt28__throw_bad_array_new_lengthv", "_ZSt19__throw_logic_errorPKc",
     "_ZSt25__throw_bad_function_callv", "_ZSt16__throw_bad_castv")
def m_throw(R, *a):
    raise CxxThrow(R.new_obj(64), -1)


@reg("__dynamic_cast")
def m_dyncast(R, src, st, dt, hint):
    if src == 0:
        return 0
    vp = R.load(src, 8, "p", 64)
    off = _s(R.load(vp - 16, 8, "i", 64), 64)
    ti = R.load(vp - 8, 8, "p", 64)
    r = find_base(R, ti, dt)
    return 0 if r is None else src + off + r


@reg("_ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm")
def m_rehash(R, *a):
    return [0, 0]


@reg("_ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm")
def m_next_bkt(R, this, n):
    return max(n, 1)


@reg("_ZSt11_Hash_bytesPKvmm")
def m_hash(R, p, n, seed):
    return zlib.crc32(R.bytes_at(p, n), seed & 0xFFFFFFFF)


# red-black tree helpers (std::map) as an unbalanced tree with the same header contract
@reg("_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_")
def m_rb_insert(R, left, x, p, header):
    # node: color(0) parent(8) left(16) right(24); header: parent=root left=leftmost right=rightmost
    if type(left) is not int:
        left = 1 if R.br(left) else 0
    R.store(x, 4, 1)
    R.store(x + 8, 8, p)
    R.store(x + 16, 8, 0)
    R.store(x + 24, 8, 0)
    if left:
        R.store(p + 16, 8, x)
        if p == header:
            R.store(header + 8, 8, x)
            R.store(header + 24, 8, x)
        elif p == R.load(header + 16, 8, "p", 64):
            R.store(header + 16, 8, x)
    else:
        R.store(p + 24, 8, x)
        if p == R.load(header + 24, 8, "p", 64):
            R.store(header + 24, 8, x)


@reg("_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base", "_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base")
def m_rb_inc(R, x):
    ld = lambda a: R.load(a, 8, "p", 64)
    if ld(x + 24):
        x = ld(x + 24)
        while ld(x + 16):
            x = ld(x + 16)
        return x
    y = ld(x + 8)
    while x == ld(y + 24):
        x = y
        y = ld(y + 8)
    return y if ld(x + 24) != y else x


@reg("_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base", "_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base")
def m_rb_dec(R, x):
    ld = lambda a: R.load(a, 8, "p", 64)
    if R.load(x, 4, "i", 32) == 0 and ld(ld(x + 8) + 8) == x:
        return ld(x + 24)
    if ld(x + 16):
        y = ld(x + 16)
        while ld(y + 24):
            y = ld(y + 24)
        return y
    y = ld(x + 8)
    while x == ld(y + 16):
        x = y
        y = ld(y + 8)
    return y


# ---- streams
@reg("_ZNSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEEC1Ev",
     "_ZNSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEEC1Ev")
def m_oss(R, this):
    R.streams[this] = []


@reg("_ZNSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEED1Ev",
     "_ZNSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEED1Ev")
def m_oss_d(R, this):
    R.streams.pop(this, None)


@reg("_ZNKSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEE3strEv",
     "_ZNKSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEE3strEv")
def m_oss_str(R, sret, this):
    mk_string(R, sret, "".join(R.streams.get(this, [])))


@reg("_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc")
def m_os_cstr(R, os, s):
    return stream_put(R, os, R.cstr(s)) if stream_of(R, os) is not None else os


@reg("_ZStlsIcSt11char_traitsIcESaIcEERSt13basic_ostreamIT_T0_ES7_RKNSt7__cxx1112basic_stringIS4_S5_T1_EE")
def m_os_str(R, os, s):
    return stream_put(R, os, get_string(R, s)) if stream_of(R, os) is not None else os


@reg("_ZNSolsEi", "_ZNSolsEl")
def m_os_i(R, os, v):
    return stream_put(R, os, str(_signed(v)) if type(v) is int else "<sym>")


@reg("_ZNSolsEj", "_ZNSolsEm", "_ZNSolsEb")
def m_os_u(R, os, v):
    return stream_put(R, os, str(v) if type(v) is int else "<sym>")


@reg("_ZNSolsEf", "_ZNSolsEd")
def m_os_f(R, os, v):
    return stream_put(R, os, "%g" % v if type(v) is float else "<sym>")


# ---- BLAS
def _ld(R, p):
    return R.load(p, 4, "f", 32)


def _st(R, p, v):
    R.store(p, 4, v)


def _i(R, x):
    if type(x) is not int:
        x = R.concretize(x, 32)
    return _s(x, 32)


def _axpby(R, alpha, acc, beta, old):
    o = R.ops
    r = o["fmul"](alpha, acc, 32)
    if type(beta) is float and beta == 0.0:
        return r
    if type(beta) is not float and R.br(o["fcmp"](beta, 0.0, "oeq")):
        return r
    return o["fadd"](r, o["fmul"](beta, old, 32), 32)


@reg("cblas_sgemv")
def m_sgemv(R, order, trans, M, N, alpha, A, lda, X, incx, beta, Y, incy):
    o = R.ops
    order, trans, M, N, lda, incx, incy = (_i(R, v) for v in (order, trans, M, N, lda, incx, incy))
    # element (r, c) of A
    at = (lambda r, c: A + 4 * (r * lda + c)) if order == 101 else (lambda r, c: A + 4 * (c * lda + r))
    if trans == 111:
        rows, cols, el = M, N, at
    else:
        rows, cols, el = N, M, (lambda r, c: at(c, r))
    xs = [_ld(R, X + 4 * c * incx) for c in range(cols)]
    for r in range(rows):
        acc = 0.0
        for c in range(cols):
            acc = o["fadd"](acc, o["fmul"](_ld(R, el(r, c)), xs[c], 32), 32)
        y = Y + 4 * r * incy
        zero = type(beta) is float and beta == 0.0
        _st(R, y, _axpby(R, alpha, acc, beta, 0.0 if zero else _ld(R, y)))


@reg("cblas_sgemm")
def m_sgemm(R, order, ta, tb, M, N, K, alpha, A, lda, B, ldb, beta, Cc, ldc):
    o = R.ops
    order, ta, tb, M, N, K, lda, ldb, ldc = (_i(R, v) for v in (order, ta, tb, M, N, K, lda, ldb, ldc))
    rm = order == 101

    def el(P, ld, t, r, c):
        if t != 111:
            r, c = c, r
        return P + 4 * (r * ld + c if rm else c * ld + r)
    out = []
    for r in range(M):
        for c in range(N):
            acc = 0.0
            for k in range(K):
                acc = o["fadd"](acc, o["fmul"](_ld(R, el(A, lda, ta, r, k)), _ld(R, el(B, ldb, tb, k, c)), 32), 32)
            p = Cc + 4 * (r * ldc + c if rm else c * ldc + r)
            zero = type(beta) is float and beta == 0.0
            out.append((p, _axpby(R, alpha, acc, beta, 0.0 if zero else _ld(R, p))))
    for p, v in out:
        _st(R, p, v)


@reg("cblas_sger")
def m_sger(R, order, M, N, alpha, X, incx, Y, incy, A, lda):
    o = R.ops
    order, M, N, incx, incy, lda = (_i(R, v) for v in (order, M, N, incx, incy, lda))
    for r in range(M):
        for c in range(N):
            p = A + 4 * (r * lda + c if order == 101 else c * lda + r)
            t = o["fmul"](alpha, o["fmul"](_ld(R, X + 4 * r * incx), _ld(R, Y + 4 * c * incy), 32), 32)
            _st(R, p, o["fadd"](_ld(R, p), t, 32))


@reg("cblas_scopy")
def m_scopy(R, n, X, incx, Y, incy):
    n, incx, incy = _i(R, n), _i(R, incx), _i(R, incy)
    for k in range(n):
        _st(R, Y + 4 * k * incy, _ld(R, X + 4 * k * incx))


@reg("cblas_sscal")
def m_sscal(R, n, a, X, incx):
    n, incx = _i(R, n), _i(R, incx)
    for k in range(n):
        p = X + 4 * k * incx
        _st(R, p, R.ops["fmul"](a, _ld(R, p), 32))


@reg("cblas_saxpy")
def m_saxpy(R, n, a, X, incx, Y, incy):
    n, incx, incy = _i(R, n), _i(R, incx), _i(R, incy)
    for k in range(n):
        p = Y + 4 * k * incy
        _st(R, p, R.ops["fadd"](_ld(R, p), R.ops["fmul"](a, _ld(R, X + 4 * k * incx), 32), 32))


@reg("cblas_snrm2")
def m_snrm2(R, n, X, incx):
    o = R.ops
    acc = 0.0
    for k in range(_i(R, n)):
        v = _ld(R, X + 4 * k * _i(R, incx))
        acc = o["fadd"](acc, o["fmul"](v, v, 32), 32)
    return m_sqrt(R, acc, 32)


@reg("cblas_sasum")
def m_sasum(R, n, X, incx):
    o = R.ops
    acc = 0.0
    for k in range(_i(R, n)):
        acc = o["fadd"](acc, fabs(R, _ld(R, X + 4 * k * _i(R, incx)), 32), 32)
    return acc


@reg("cblas_sdot")
def m_sdot(R, n, X, incx, Y, incy):
    o = R.ops
    acc = 0.0
    for k in range(_i(R, n)):
        acc = o["fadd"](acc, o["fmul"](_ld(R, X + 4 * k * _i(R, incx)), _ld(R, Y + 4 * k * _i(R, incy)), 32), 32)
    return acc


@reg("cblas_isamax")
def m_isamax(R, n, X, incx):
    o = R.ops
    n, incx = _i(R, n), _i(R, incx)
    best, bi = None, 0
    for k in range(n):
        v = fabs(R, _ld(R, X + 4 * k * incx), 32)
        if best is None:
            best = v
        else:
            c = o["fcmp"](v, best, "ogt")
            if type(c) is int:
                if c:
                    best, bi = v, k
            else:
                best = o["select"](c, v, best, 32)
                bi = o["select"](c, k, bi, 32)
    return bi


# ---- harness API
@reg("sym_f")
def s_f(R, name):
    return R.sym_float(R.cstr(name), -1.0e6, 1.0e6) if R.mode == "real" else R.sym_float(R.cstr(name))


@reg("sym_fr")
def s_fr(R, name, lo, hi):
    return R.sym_float(R.cstr(name), lo, hi)


@reg("sym_i")
def s_i(R, name, lo, hi):
    return R.sym_int(R.cstr(name), _s(lo, 32), _s(hi, 32))


@reg("sym_bv")
def s_bv(R, name, lo, hi):
    """Bit-vector input even when floats are reals."""
    nm = R.fresh_name(R.cstr(name))
    ci = R.concrete_input(nm, _s(lo, 32))
    if ci is not None:
        return int(ci) & 0xFFFFFFFF
    v = z3.BitVec(nm, 32)
    R.add_pc(v >= _s(lo, 32))
    R.add_pc(v <= _s(hi, 32))
    R.inputs.append((nm, v))
    return v


@reg("sym_choice")
def s_choice(R, name, n):
    """Forked choice in 0..n-1 (concrete on every path)."""
    nm = R.cstr(name)
    v = R.sym_int(nm, 0, _s(n, 32) - 1)
    if type(v) is int:
        return v
    opts = list(R.pick.get(nm, range(_s(n, 32))))     # a run may be restricted to some of them
    for k in opts[:-1]:
        if R.br(v == k):
            return k
    if nm in R.pick:
        R.assume(v == opts[-1])        # (an infeasible remainder was explored on the other paths)
    return opts[-1]


@reg("sym_b")
def s_b(R, name):
    return R.sym_bool(R.cstr(name))


@reg("sym_fork_b")
def s_fb(R, name):
    nm = R.cstr(name)
    v = R.sym_bool(nm)
    if type(v) is int:
        return v
    p = R.pick.get(nm)
    if p and len(p) == 1:
        R.assume(v == p[0] if z3.is_bv(v) else v if p[0] else z3.Not(v))
        return p[0]
    return int(R.br(v))


@reg("sym_assume")
def s_assume(R, c):
    R.assume(c)


@reg("sym_assert")
def s_assert(R, c, name):
    R.do_assert(c, R.cstr(name))


@reg("sym_close")
def s_close(R, a, b, name, tol):
    R.assert_close(a, b, R.cstr(name), tol)


@reg("sym_observe")
def s_obs(R, name, v):
    R.observed.append((R.cstr(name), v))


@reg("sym_reach")
def s_reach(R, name):
    n = R.cstr(name)
    R.reached[n] = R.reached.get(n, 0) + 1


@reg("sym_gauss")
def s_gauss(R):
    return R.sym_float("gauss", -R.gauss_bound, R.gauss_bound)


@reg("sym_uniform")
def s_uniform(R):
    return R.sym_float("uniform", 0.0, 1.0)


@reg("sym_uniform_rw")
def s_uniform_rw(R):
    v = R.sym_float("uniform", 0.0, 1.0)
    if type(v) is not float:
        R.add_pc(v < 1 if R.mode == "real" else z3.fpLT(v, z3.FPVal(1.0, _FS[32])))
        R.unit[v.get_id()] = v
    return v


@reg("sym_rand")
def s_rand(R):
    return R.sym_int("rand", 0, 0x7FFFFFFF)


@reg("sym_note_draw")
def s_draw(R, kind):
    return None


@reg("sym_ite")
def s_ite(R, c, a, b):
    return R.ops["select"](c, a, b, 32)


@reg("sym_and")
def s_and(R, a, b):
    return R.ops["i_and"](a, b, 1)


@reg("sym_or")
def s_or(R, a, b):
    return R.ops["i_or"](a, b, 1)
