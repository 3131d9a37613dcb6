"""Runtime of the symbolic executor for translated LLVM IR.

Values: Python int (unsigned, masked) / float when concrete; z3 terms when symbolic.
  ints    BitVec (mode 'fp'), mathematical Int (mode 'real', with overflow obligations), Bool for i1
  floats  z3 FP (mode 'fp', exact IEEE or with uninterpreted arithmetic), Real (mode 'real')
Memory: byte addressed, cells {addr: (nbytes, value)}; bounds-checked objects; path exploration by
re-execution from a snapshot with a decision prefix."""

import bisect
import ctypes
import struct
import sys
import time
from fractions import Fraction

import z3

sys.setrecursionlimit(20000)

INF = float("inf")


class PathEnd(Exception):
    """Path ends: infeasible assumption, exit..."""


class CxxThrow(Exception):
    def __init__(self, obj, ti):
        self.obj, self.ti = obj, ti


class Fault(Exception):
    """Memory fault on a feasible path."""


class Unsupported(Exception):
    pass


class Restart(Exception):
    """A merge turned out impossible: run the path again without it."""


class Inconclusive(Exception):
    pass


def f32(x):
    return ctypes.c_float(x).value


def is_sym(x):
    return isinstance(x, z3.ExprRef)


class SPtr:
    __slots__ = ("base", "off")

    def __init__(self, base, off):
        self.base, self.off = base, off


class Slot:
    __slots__ = ("name", "pyname", "f")


def _s(x, w):
    return x - (1 << w) if x >> (w - 1) else x


_FS = {32: z3.FPSort(8, 24), 64: z3.FPSort(11, 53), 80: z3.FPSort(11, 53)}
_RNE = z3.RNE()


DEBUG = int(__import__("os").environ.get("VERIF_SOLVE_DEBUG", "0"))


class Runtime:
    def __init__(self, module, mode="real", abstract=False, timeout_ms=20000, feas_timeout_ms=3000):
        from llvm import Translator
        self.m = module
        self.mode = mode
        self.abstract = abstract
        self.timeout_ms = timeout_ms
        self.feas_timeout_ms = feas_timeout_ms
        self.slots = {}
        self.gaddr = {}
        self.faddr = {}
        self.addrf = {}
        self.ginit = {}
        self.bases = []
        self.sizes = {}
        self.freed = set()
        self.next_addr = 0x10000000
        self.next_faddr = 0x100000
        self.mem = {}
        self.stack_base = 0x70000000
        self.stack_size = 0x4000000
        self.sp = self.stack_base
        self.ops = make_ops(self)
        self.tr = Translator(module, self)
        self.models = {}
        import models
        models.install(self)
        self.translated = {}
        self.stats = dict(paths=0, queries=0, solver_s=0.0, asserts=0, proved=0, trivially_true=0, infeasible=0)
        self.violations = []
        self.unknowns = []
        self.reached = {}
        self.reset_path()
        self.merge = True
        self.unit = {}          # draws from [0,1)
        self.pick = {}          # choice name -> the values this run is restricted to
        self.nomerge = set()
        self.merge_site = None
        self.prefix = []
        self.pending = []
        self.in_path = False
        self.ofl = []
        self.observed = []
        self.concrete_inputs = None
        self.ufs = {}
        self.deadline = None
        self.samples = []
        self.witnesses = []

    # ---------------------------------------------------------------- functions / globals
    def slot(self, name):
        s = self.slots.get(name)
        if s is None:
            s = Slot()
            s.name = name
            s.pyname = f"F{len(self.slots)}"
            s.f = self._lazy(s)
            self.slots[name] = s
        return s

    def _lazy(self, s):
        def resolve(*a):
            s.f = self.resolve(s.name)
            return s.f(*a)
        return resolve

    def resolve(self, name):
        import models
        f = models.lookup(self, name)
        if f is not None:
            return f
        v = self.m.fns.get(name)
        if v is None and name in self.m.aliases:
            from llvm import vname
            return self.resolve(vname(self.m.aliases[name]))
        from llvm import is_decl
        if v is None or is_decl(v):
            raise Unsupported(f"external function {name}")
        fn = self.tr.translate(v, name)
        self.translated[name] = fn._nblocks
        return fn

    def intrinsic(self, name):
        import models
        return models.intrinsic(self, name)

    def addr_of_global(self, name):
        a = self.gaddr.get(name)
        if a is not None:
            return a
        from llvm import get_init, gl_valty, is_decl, vname
        if name in self.m.aliases:
            a = self.addr_of_global(vname(self.m.aliases[name]))
            self.gaddr[name] = a
            return a
        if name in self.m.fns:
            a = self.next_faddr
            self.next_faddr += 16
            self.gaddr[name] = a
            self.addrf[a] = name
            return a
        g = self.m.globals[name]
        t = gl_valty(g)
        size = max(1, self.m.size(t))
        if is_decl(g):
            size = max(size, 1024)
        a = self.new_obj(size)
        self.gaddr[name] = a
        if not is_decl(g):
            self.write_const(a, t, get_init(g))
        else:
            for k in range(0, size, 8):
                self.ginit[a + k] = (8, 0)
        for k, v in list(self.ginit.items()):
            if a <= k < a + size:
                self.mem[k] = v
        return a

    def write_const(self, a, t, v):
        from llvm import (VK_CAGGZERO, agg_elem, is_str, val_kind, VK_UNDEF)
        ti = self.m.tinfo(t)
        if ti[0] == "i":
            self.ginit[a] = (max(1, (ti[1] + 7) // 8), self.tr.const(v))
        elif ti[0] == "p":
            self.ginit[a] = (8, self.tr.const(v))
        elif ti[0] == "f":
            self.ginit[a] = (ti[1] // 8, self.tr.const(v))
        elif val_kind(v) in (VK_CAGGZERO, VK_UNDEF, 25):
            n = self.m.size(t)
            st = 4 if n % 4 == 0 else 1
            for k in range(0, n, st):
                self.ginit[a + k] = (st, 0)
        elif ti[0] == "s":
            for k, (o, e) in enumerate(ti[1]):
                self.write_const(a + o, e, agg_elem(v, k))
        else:
            s = self.m.size(ti[2])
            for k in range(ti[1]):
                self.write_const(a + k * s, ti[2], agg_elem(v, k))

    def call_ptr(self, p, args):
        if type(p) is not int:
            raise Unsupported("symbolic function pointer")
        n = self.addrf.get(p)
        if n is None:
            raise Fault(f"call of invalid function pointer {p:#x}")
        return self.slot(n).f(*args)

    # ---------------------------------------------------------------- memory
    def new_obj(self, size):
        a = (self.next_addr + 31) & ~15
        self.next_addr = a + max(size, 1) + 16
        self.bases.append(a)
        self.sizes[a] = size
        return a

    def alloca(self, size, align):
        a = (self.sp + 15) & ~15
        self.sp = a + size + 16
        if self.sp > self.stack_base + self.stack_size:
            raise Unsupported("stack overflow")
        return a

    def check_access(self, addr, n, what):
        if self.stack_base <= addr < self.stack_base + self.stack_size:
            return
        k = bisect.bisect_right(self.bases, addr) - 1
        if k >= 0:
            b = self.bases[k]
            if addr + n <= b + self.sizes[b]:
                if b in self.freed:
                    raise Fault(f"{what} after free")
                return
        raise Fault(f"out-of-bounds {what} of {n} bytes at {addr:#x}")

    def obj_of(self, addr):
        k = bisect.bisect_right(self.bases, addr) - 1
        if k >= 0:
            b = self.bases[k]
            if addr <= b + self.sizes[b]:
                return b, self.sizes[b]
        return None

    def free(self, p):
        if p == 0:
            return
        if type(p) is not int or p not in self.sizes:
            raise Fault("free of a pointer that is not an allocation")
        if p in self.freed:
            raise Fault("double free")
        self.freed.add(p)
        n = self.sizes[p]
        mem = self.mem
        if n < 4096:
            for k in range(p, p + n):
                if k in mem:
                    del mem[k]
        else:
            for k in [k for k in mem if p <= k < p + n]:
                del mem[k]

    def load(self, addr, n, kind, w):
        if type(addr) is not int:
            return self.load_sym(addr, n, kind, w)
        c = self.mem.get(addr)
        if c is not None and c[0] == n:
            v = c[1]
            t = type(v)
            if t is int:
                if kind != "f":
                    return v
                return bits_to_float(v, w)
            if t is float:
                if kind == "f":
                    return v
                return float_to_bits(v, w)
            if isinstance(v, SPtr):
                return v
            if kind == "f" and z3.is_bv(v):
                return z3.fpBVToFP(v, _FS[w])
            return v
        return self.load_slow(addr, n, kind, w)

    def cell_bytes(self, addr):
        """(byte value at addr) from whatever cell covers it, or None."""
        mem = self.mem
        for k in range(0, 16):
            c = mem.get(addr - k)
            if c is not None:
                if c[0] > k:
                    v = c[1]
                    if type(v) is float:
                        v = float_to_bits(v, c[0] * 8)
                    if type(v) is int:
                        return (v >> (8 * k)) & 0xFF
                    if isinstance(v, z3.ExprRef):
                        if z3.is_bool(v):
                            return z3.If(v, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)) if k == 0 else 0
                        if z3.is_bv(v):
                            if v.size() < c[0] * 8:
                                v = z3.ZeroExt(c[0] * 8 - v.size(), v)
                            return z3.Extract(8 * k + 7, 8 * k, v)
                        if z3.is_fp(v):
                            return z3.Extract(8 * k + 7, 8 * k, z3.fpToIEEEBV(v))
                    raise Unsupported("byte access into a symbolic value")
                return None
        return None

    def load_slow(self, addr, n, kind, w):
        self.check_access(addr, n, "read")
        # n-byte read composed of smaller / bigger cells
        bs = []
        missing = 0
        for k in range(n):
            b = self.cell_bytes(addr + k)
            if b is None:
                missing += 1
                b = 0
            bs.append(b)
        if missing == n:
            return self.uninit(addr, n, kind, w)
        if all(type(b) is int for b in bs):
            v = 0
            for k, b in enumerate(bs):
                v |= b << (8 * k)
            if kind == "f":
                return bits_to_float(v, w)
            return v & ((1 << w) - 1) if w < n * 8 else v
        v = z3.simplify(z3.Concat(*[b if is_sym(b) else z3.BitVecVal(b, 8) for b in reversed(bs)])) if n > 1 else bs[0]
        if kind == "f":
            return z3.fpBVToFP(v, _FS[w])
        if w < v.size():
            v = z3.Extract(w - 1, 0, v)
        return v

    def uninit(self, addr, n, kind, w):
        self.stats["uninit_reads"] = self.stats.get("uninit_reads", 0) + 1
        return 0.0 if kind == "f" else 0

    def store(self, addr, n, v):
        if type(addr) is not int:
            return self.store_sym(addr, n, v)
        mem = self.mem
        c = mem.get(addr)
        if c is None or c[0] != n:
            self.store_slow(addr, n, c)
        mem[addr] = (n, v)

    def store_slow(self, addr, n, c):
        self.check_access(addr, n, "write")
        mem = self.mem
        # cells overlapping from below
        for k in range(1, 16):
            q = mem.get(addr - k)
            if q is not None:
                if q[0] > k:
                    self.split(addr - k, q)
                break
        end = addr + n
        for k in range(addr, end):
            q = mem.get(k)
            if q is not None:
                if k + q[0] > end:
                    self.split(k, q)
                    mem.pop(k, None)
                else:
                    del mem[k]

    def split(self, a, c):
        """Splits a cell into bytes."""
        bs = [self.cell_bytes(a + k) for k in range(c[0])]
        del self.mem[a]
        for k, b in enumerate(bs):
            self.mem[a + k] = (1, b)

    def sym_targets(self, p):
        vals = self.values_of(p.off)
        return [(z3_eq_int(p.off, v), p.base + v) for v in vals]

    def load_sym(self, p, n, kind, w):
        if not isinstance(p, SPtr):
            raise Unsupported("load through symbolic integer")
        tg = self.sym_targets(p)
        res = None
        for c, a in reversed(tg):
            v = self.load(a, n, kind, w)
            res = v if res is None else self.ops["select"](c, v, res, w)
        return res

    def store_sym(self, p, n, v):
        if not isinstance(p, SPtr):
            raise Unsupported("store through symbolic integer")
        w = n * 8
        for c, a in self.sym_targets(p):
            isf = isinstance(v, float) or z3.is_real(v) or z3.is_fp(v)
            old = self.load(a, n, "f" if isf else "i", w)
            self.store(a, n, self.ops["select"](c, v, old, w))

    def memcpy(self, d, s, n):
        if type(n) is not int:
            n = self.concretize(n, 64)
        if n == 0:
            return
        if type(d) is not int or type(s) is not int:
            raise Unsupported("memcpy with symbolic pointer")
        self.check_access(s, n, "read")
        self.check_access(d, n, "write")
        mem = self.mem
        # split cells crossing the edges of the source
        for edge in (s, s + n):
            for k in range(1, 16):
                q = mem.get(edge - k)
                if q is not None:
                    if q[0] > k:
                        self.split(edge - k, q)
                    break
        cells = [(k - s, mem[k]) for k in range(s, s + n) if k in mem] if n < 100000 else \
            [(k - s, c) for k, c in mem.items() if s <= k < s + n]
        for edge in (d, d + n):
            for k in range(1, 16):
                q = mem.get(edge - k)
                if q is not None:
                    if q[0] > k:
                        self.split(edge - k, q)
                    break
        for k in range(d, d + n):
            if k in mem:
                del mem[k]
        for o, c in cells:
            mem[d + o] = c

    def memset(self, d, v, n):
        if type(n) is not int:
            n = self.concretize(n, 64)
        if n == 0:
            return
        self.check_access(d, n, "write")
        mem = self.mem
        for edge in (d, d + n):
            for k in range(1, 16):
                q = mem.get(edge - k)
                if q is not None:
                    if q[0] > k:
                        self.split(edge - k, q)
                    break
        for k in range(d, d + n):
            if k in mem:
                del mem[k]
        st = 4 if n % 4 == 0 and d % 4 == 0 else 1
        if type(v) is not int:
            raise Unsupported("symbolic memset")
        val = v if st == 1 else v * 0x01010101
        for k in range(d, d + n, st):
            mem[k] = (st, val)

    def cstr(self, p):
        out = bytearray()
        while True:
            b = self.load(p + len(out), 1, "i", 8)
            if type(b) is not int:
                raise Unsupported("symbolic string")
            if b == 0:
                return out.decode("latin1")
            out.append(b)

    def bytes_at(self, p, n):
        return bytes(self.load(p + k, 1, "i", 8) for k in range(n))

    # ---------------------------------------------------------------- solver / paths
    def reset_path(self):
        self.pc = []
        self.dec = []
        self.names = {}
        self.inputs = []
        self._solver = None
        self.observed = []
        self.path_hist = {}
        self.caught = []
        self.exc_ti = 0

    def solver(self):
        if self._solver is None:
            self._solver = z3.Solver()
            self._solver.set("timeout", self.feas_timeout_ms)
            for c in self.pc:
                self._solver.add(c)
        return self._solver

    def _check(self, s, *a):
        t = time.time()
        r = s.check(*a)
        self.stats["queries"] += 1
        if DEBUG and time.time() - t > 1:
            print(f"SLOWPATH {r} {time.time() - t:.1f} {a and str(z3.simplify(a[0]))[:200]}", file=sys.stderr)
        self.stats["solver_s"] += time.time() - t
        return r

    def add_pc(self, c):
        self.pc.append(c)
        if self._solver is not None:
            self._solver.add(c)

    def feasible(self, c):
        return self._check(self.solver(), c) != z3.unsat

    def br(self, c):
        if type(c) is int or type(c) is bool:
            return bool(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if z3.is_bv(c):
            c = c == 1
        elif z3.is_int(c):
            c = c != 0
        i = len(self.dec)
        if self.deadline and time.time() > self.deadline:
            raise Inconclusive("time budget exhausted during path exploration")
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            sc = z3.simplify(c)
            if z3.is_true(sc):
                return True
            if z3.is_false(sc):
                return False
            self.no_undef(sc)
            ft = self.feasible(c)
            ff = self.feasible(z3.Not(c))
            if not ft and not ff:
                raise PathEnd("infeasible")
            if ft and ff:
                self.pending.append(self.dec + [False])
                d = True
            else:
                d = ft
        self.dec.append(d)
        self.add_pc(c if d else z3.Not(c))
        return d

    # ---------------------------------------------------------------- merging of branch regions
    def want_merge(self, c, fn, blk):
        if not self.merge or (fn, blk) in self.nomerge:
            return False
        if z3.is_true(c) or z3.is_false(c):
            return False
        sc = z3.simplify(self.tobool(c))
        if z3.is_true(sc) or z3.is_false(sc):
            return False
        self.merge_site = (fn, blk)
        self.stats["merges"] = self.stats.get("merges", 0) + 1
        return True

    def merge_end(self):
        self.merge_site = None

    def merge_fail(self):
        self.nomerge.add(self.merge_site)
        self.merge_site = None
        raise Restart()

    def tobool(self, c):
        if type(c) is int:
            return z3.BoolVal(bool(c))
        if z3.is_bv(c):
            return c == 1
        if z3.is_int(c):
            return c != 0
        return c

    def notb(self, c):
        return z3.Not(c)

    def andb(self, a, b):
        if z3.is_true(b):
            return a
        if z3.is_false(b):
            return b
        return z3.And(a, b)

    def orb(self, *gs):
        if len(gs) == 1:
            return gs[0]
        if len(gs) == 2:
            a, b = gs
            if z3.is_not(b) and b.arg(0).eq(a):
                return z3.BoolVal(True)
        return z3.simplify(z3.Or(*gs))

    def gload(self, g, addr, n, kind, w):
        try:
            return self.load(addr, n, kind, w)
        except (Fault, Unsupported):
            return 0.0 if kind == "f" else 0

    def gstore(self, g, addr, n, v, kind, w):
        if z3.is_true(g):
            return self.store(addr, n, v)
        if z3.is_false(g):
            return
        try:
            if type(addr) is not int:
                if not isinstance(addr, SPtr):
                    self.merge_fail()
                for c, a in self.sym_targets(addr):
                    old = self.load(a, n, kind, w)
                    self.store(a, n, self.ops["select"](z3.And(g, c), v, old, w))
                return
            old = self.load(addr, n, kind, w)
        except (Fault, Unsupported):
            self.merge_fail()
        if type(v) is int and kind == "f":
            v = bits_to_float(v, w)
        ptrish = isinstance(v, SPtr) or isinstance(old, SPtr)
        if ptrish:
            self.merge_fail()
        self.store(addr, n, self.ops["select"](g, v, old, w))

    def assume(self, c):
        if type(c) in (int, bool):
            if not c:
                raise PathEnd("assume")
            return
        if z3.is_bv(c):
            c = c != 0
        elif z3.is_int(c):
            c = c != 0
        self.add_pc(c)
        if not self.feasible(z3.BoolVal(True)):
            self.stats["infeasible"] += 1
            raise PathEnd("assume")

    def values_of(self, e, limit=256):
        """All values of int expression e feasible on this path."""
        s = z3.Solver()
        s.set("timeout", self.timeout_ms)
        for c in self.pc:
            s.add(c)
        vals = []
        while True:
            r = self._check(s)
            if r == z3.unsat:
                break
            if r == z3.unknown:
                raise Inconclusive("solver unknown while enumerating an index")
            v = s.model().eval(e, model_completion=True)
            iv = v.as_signed_long() if z3.is_bv(v) else v.as_long()
            vals.append(iv)
            s.add(z3.Not(z3_eq_int(e, iv)))
            if len(vals) > limit:
                raise Inconclusive("too many values for a symbolic index")
        if not vals:  # the path condition itself is unsatisfiable
            self.stats["infeasible"] += 1
            raise PathEnd("infeasible")
        return sorted(vals)

    def concretize(self, e, w):
        """Fork on the value of e."""
        if type(e) is int:
            return e
        if isinstance(e, SPtr):
            off = self.concretize(e.off, 64)
            return e.base + _s(off & ((1 << 64) - 1), 64)
        if z3.is_bool(e):
            return 1 if self.br(e) else 0
        vals = self.values_of(e)
        for v in vals[:-1]:
            if self.br(z3_eq_int(e, v)):
                return v & ((1 << w) - 1)
        v = vals[-1]
        if self.br(z3_eq_int(e, v)):
            return v & ((1 << w) - 1)
        raise PathEnd("concretize")

    def fresh_name(self, base):
        k = self.names.get(base, 0)
        self.names[base] = k + 1
        return f"{base}#{k}"

    def concrete_input(self, name, default=0):
        if self.concrete_inputs is None:
            return None
        return self.concrete_inputs.get(name, default)

    def sym_float(self, base, lo=None, hi=None, w=32):
        name = self.fresh_name(base)
        ci = self.concrete_input(name, 0.0)
        if ci is not None:
            return f32(float(ci))
        if self.mode == "real":
            v = z3.Real(name)
            if lo is not None:
                self.add_pc(v >= real_of(lo))
            if hi is not None:
                self.add_pc(v <= real_of(hi))
        else:
            v = z3.FP(name, _FS[w])
            if lo is not None:
                self.add_pc(z3.fpGEQ(v, z3.FPVal(lo, _FS[w])))
            if hi is not None:
                self.add_pc(z3.fpLEQ(v, z3.FPVal(hi, _FS[w])))
        self.inputs.append((name, v))
        return v

    def sym_int(self, base, lo, hi, w=32):
        name = self.fresh_name(base)
        ci = self.concrete_input(name, lo)
        if ci is not None:
            return int(ci) & ((1 << w) - 1)
        if lo == hi:
            return lo & ((1 << w) - 1)
        if self.mode == "real":
            v = z3.Int(name)
            self.add_pc(v >= lo)
            self.add_pc(v <= hi)
        else:
            v = z3.BitVec(name, w)
            self.add_pc(v >= lo)
            self.add_pc(v <= hi)
        self.inputs.append((name, v))
        return v

    def sym_bool(self, base):
        name = self.fresh_name(base)
        ci = self.concrete_input(name, 0)
        if ci is not None:
            return int(bool(ci))
        v = z3.Bool(name)
        self.inputs.append((name, v))
        return v

    # ---------------------------------------------------------------- asserting
    undef, undef_keep = set(), []

    def no_undef(self, c):
        if self.undef:
            import solve
            if solve._free(z3.simplify(c), solve._cache) & self.undef:
                raise Unsupported("division of a symbolic real by zero")

    def prove(self, c):
        """pc => c ?  returns ('proved', None) / ('cex', model) / ('unknown', None)"""
        import solve
        self.no_undef(c)
        t = time.time()
        r = solve.prove(self.pc, c, self.timeout_ms, self.mode, self.stats)
        self.stats["solver_s"] += time.time() - t
        return r

    def do_assert(self, c, ident, alts=()):
        self.stats["asserts"] += 1
        self.reached[ident] = self.reached.get(ident, 0) + 1
        if type(c) in (int, bool):
            if c:
                self.stats["proved"] += 1
                self.stats["trivially_true"] += 1
                return
            c = z3.BoolVal(False)
        elif z3.is_bv(c):
            c = c != 0
        elif z3.is_int(c):
            c = c != 0
        r, mdl = self.prove(c)
        if r == "proved":
            self.stats["proved"] += 1
            if len(self.samples) < 3:
                self.samples.append(dict(assertion=ident, path=list(self.dec)[:40], inputs=len(self.inputs),
                                         goal=str(z3.simplify(c))[:300]))
            return
        if r == "unknown":
            self.unknowns.append(ident)
            return
        self.violations.append((ident, self.model_inputs(mdl)))
        # do not report the same thing again on this path; continue with it assumed
        if z3.is_false(c):
            raise PathEnd("assertion failed")
        self.add_pc(c)
        if not self.feasible(z3.BoolVal(True)):
            raise PathEnd("assertion failed everywhere")

    def model_inputs(self, mdl):
        out = {}
        for name, v in self.inputs:
            x = mdl.eval(v, model_completion=True)
            out[name] = z3_to_py(x)
        return out

    def assert_close(self, a, b, ident, tol):
        if type(a) is float and type(b) is float:
            ok = a == b or abs(a - b) <= tol * max(1.0, abs(a), abs(b))
            return self.do_assert(ok, ident)
        if self.mode == "fp":
            return self.do_assert(z3.Or(z3.fpEQ(to_fp(a, 32), to_fp(b, 32)),
                                        z3.And(z3.fpIsNaN(to_fp(a, 32)), z3.fpIsNaN(to_fp(b, 32)))), ident)
        ra, rb = to_real(a), to_real(b)
        c = ra == rb
        self.stats["asserts"] += 1
        self.reached[ident] = self.reached.get(ident, 0) + 1
        sc = z3.simplify(c, som=False)
        if z3.is_true(sc):
            self.stats["proved"] += 1
            return
        r, mdl = self.prove(c)
        if r == "proved":
            self.stats["proved"] += 1
            if len(self.samples) < 3:
                self.samples.append(dict(assertion=ident, path=list(self.dec)[:40], inputs=len(self.inputs),
                                         goal=str(sc)[:300]))
            return
        # differs over the reals (or unknown): look for a difference above the tolerance, which float
        # rounding cannot explain
        d = ra - rb
        tl = real_of(tol)
        mx = z3.And(d <= tl, d >= -tl)
        r2, mdl2 = self.prove(mx)
        if r2 == "proved":
            self.stats["proved"] += 1
            self.stats["within_tol"] = self.stats.get("within_tol", 0) + 1
            return
        if r2 == "unknown":
            self.unknowns.append(ident)
            return
        # widen the gap when possible, for a robust replay
        for f in (100, 10):
            w = real_of(tol * f)
            r3, m3 = self.prove(z3.And(d <= w, d >= -w))
            if r3 == "cex":
                mdl2 = m3
                break
        self.violations.append((ident, self.model_inputs(mdl2)))
        self.add_pc(mx)
        if not self.feasible(z3.BoolVal(True)):
            raise PathEnd("assertion failed everywhere")

    def check_overflow(self):
        """Obligations that mathematical Ints standing for machine ints stayed in range."""
        if not self.ofl:
            return
        obl = []
        seen = set()
        for e, w in self.ofl:
            k = (e.get_id(), w)
            if k in seen:
                continue
            seen.add(k)
            obl.append(z3.And(e >= -(1 << (w - 1)), e < (1 << (w if w >= 32 else w))))
        r, _ = self.prove(z3.And(*obl))
        if r != "proved":
            self.unknowns.append("int-range")
        self.stats["range_obligations"] = self.stats.get("range_obligations", 0) + len(obl)

    # ---------------------------------------------------------------- driver
    def explore(self, setup, run, max_paths=2000, budget_s=None):
        """Concrete set-up once, then every path of run."""
        self.reset_path()
        if setup:
            self.slot(setup).f()
        snap = dict(self.mem)
        snap_next, snap_bases, snap_sizes, snap_freed, snap_sp = (
            self.next_addr, list(self.bases), dict(self.sizes), set(self.freed), self.sp)
        snap_pc, snap_inputs, snap_names = list(self.pc), list(self.inputs), dict(self.names)
        base_dec = list(self.dec)
        if base_dec:
            raise Unsupported("set-up branches on symbolic values")
        self.pending = [[]]
        t0 = time.time()
        if budget_s:
            self.deadline = t0 + budget_s
        n = 0
        while self.pending:
            self.prefix = self.pending.pop()
            self.reset_path()
            self.pc, self.inputs, self.names = list(snap_pc), list(snap_inputs), dict(snap_names)
            gnew = {a: self.sizes[a] for a in self.gaddr.values() if a in self.sizes}
            self.mem = dict(self.ginit)
            self.mem.update(snap)
            self.sizes = dict(snap_sizes)
            self.sizes.update(gnew)
            self.bases = sorted(self.sizes)
            self.freed = set(snap_freed)
            self.sp = snap_sp
            self.ofl = []
            self.streams = {}
            n += 1
            self.stats["paths"] += 1
            try:
                nv = len(self.violations)
                self.slot(run).f()
                self.check_overflow()
                if len(self.violations) == nv and (len(self.witnesses) < 3 or (n & (n - 1)) == 0 and len(self.witnesses) < 8):
                    self.witness()
            except PathEnd:
                pass
            except Restart:
                # decision sequences recorded so far assumed the merge: start over without it
                self.pending = [[]]
                self.violations, self.unknowns, self.samples, self.witnesses = [], [], [], []
                self.stats.update(paths=0, asserts=0, proved=0, trivially_true=0)
                self.reached = {}
                n = 0
                continue
            except CxxThrow as e:
                self.stats["throws"] = self.stats.get("throws", 0) + 1
                self.fault("uncaught C++ exception")
            except Fault as e:
                self.fault(f"memory fault: {e}")
            if n >= max_paths and self.pending:
                raise Inconclusive(f"more than {max_paths} paths")
            if len(self.violations) >= 6:
                return
        return

    def any_model(self):
        s = z3.Solver()
        s.set("timeout", self.timeout_ms)
        for c in self.pc:
            s.add(c)
        r = self._check(s)
        if r == z3.sat:
            return self.model_inputs(s.model())
        return None if r == z3.unsat else {}

    def witness(self):
        """A concrete input following this path, with the values the encoding predicts for the observations."""
        s = z3.Solver()
        s.set("timeout", 2000)
        for c in self.pc:
            s.add(c)
        if self._check(s) != z3.sat:
            return
        mdl = s.model()
        import solve
        obs = []
        ids = {v.get_id() for _, v in self.inputs}
        approx = not all(solve.only_inputs(c, ids) for c in self.pc)
        for _, v in self.observed:
            if approx:
                obs.append(None)
                continue
            if is_sym(v):
                if not solve.only_inputs(v, ids):
                    obs.append(None)
                    continue
                v = z3_to_py(z3.simplify(mdl.eval(v, model_completion=True)))
            obs.append(float(v))
        self.witnesses.append(dict(inputs=self.model_inputs(mdl), observed=obs))

    def fault(self, what):
        m = self.any_model()
        if m is not None:
            self.violations.append((what, m))

    def unreachable(self):
        raise Fault("unreachable executed")

    def landingpad(self, e, clauses, cleanup):
        import models
        self.exc_ti = e.ti
        for ti in clauses:
            if ti == 0:
                return [e.obj, 1]
            if e.ti == ti or (e.ti == -1 and ti == self.gaddr.get("_ZTISt12out_of_range")) or \
                    (type(e.ti) is int and e.ti > 0 and models.is_derived(self, e.ti, ti)):
                return [e.obj, ti & 0xFFFFFFFF]
        if not cleanup:
            raise e
        return [e.obj, 0]

    def resume(self, agg):
        raise CxxThrow(agg[0], self.exc_ti)

    def sp_restore(self, e):
        pass


# -------------------------------------------------------------------------------- scalars

def bits_to_float(v, w):
    if isinstance(v, int):
        if w == 32:
            return struct.unpack("<f", struct.pack("<I", v & 0xFFFFFFFF))[0]
        if w == 64:
            return struct.unpack("<d", struct.pack("<Q", v))[0]
        return 0.0 if v == 0 else struct.unpack("<d", struct.pack("<Q", v & ((1 << 64) - 1)))[0]
    raise Unsupported("bits_to_float")


def float_to_bits(v, w):
    if w == 32:
        return struct.unpack("<I", struct.pack("<f", v))[0]
    return struct.unpack("<Q", struct.pack("<d", v))[0]


def real_of(x):
    if x != x or x in (INF, -INF):
        raise Unsupported("inf/nan in real mode")
    f = Fraction(x)
    return z3.RatVal(f.numerator, f.denominator)


def to_real(x):
    if type(x) is float:
        return real_of(x)
    if type(x) is int:
        return real_of(float(x))
    if z3.is_int(x):
        return z3.ToReal(x)
    return x


def to_fp(x, w):
    if type(x) is float:
        return z3.FPVal(x, _FS[w])
    if type(x) is int:
        return z3.FPVal(bits_to_float(x, w), _FS[w])
    if z3.is_bv(x):
        return z3.fpBVToFP(x, _FS[w])
    return x


def z3_eq_int(e, v):
    if z3.is_bv(e):
        return e == z3.BitVecVal(v, e.size())
    return e == v


def z3_to_py(x):
    if z3.is_true(x):
        return 1
    if z3.is_false(x):
        return 0
    if z3.is_int_value(x):
        return x.as_long()
    if z3.is_rational_value(x):
        return float(x.as_fraction())
    if z3.is_algebraic_value(x):
        return float(x.approx(20).as_fraction())
    if z3.is_bv_value(x):
        return x.as_signed_long()
    if z3.is_fp_value(x) or z3.is_fp(x):
        if x.isNaN():
            return float("nan")
        if x.isInf():
            return -INF if x.isNegative() else INF
        b = z3.simplify(z3.fpToIEEEBV(x)).as_long()
        return bits_to_float(b, x.ebits() + x.sbits())
    raise Unsupported(f"model value {x}")


def make_ops(R):
    """The scalar operations used by translated code."""
    ops = {}

    def to_bv(x, w):
        if type(x) is int:
            return z3.BitVecVal(x, w)
        if z3.is_bool(x):
            return z3.If(x, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
        if z3.is_fp(x):
            return z3.fpToIEEEBV(x)
        if z3.is_bv(x):
            return x
        raise Unsupported(f"to_bv of {type(x)}")

    def to_int(x, w):
        if type(x) is int:
            return z3.IntVal(_s(x, w))
        if z3.is_bool(x):
            return z3.If(x, z3.IntVal(1), z3.IntVal(0))
        if z3.is_bv(x):
            return z3.BV2Int(x, True)
        if z3.is_int(x):
            return x
        raise Unsupported(f"to_int of {x.sort() if is_sym(x) else type(x)}")

    def to_bool(x):
        if type(x) is int:
            return z3.BoolVal(bool(x))
        if z3.is_bv(x):
            return x == 1
        if z3.is_int(x):
            return x != 0
        return x

    def pair(x, y, w):
        if type(x) is SPtr or type(y) is SPtr:
            x, y = ptr_int(x), ptr_int(y)
        if (is_sym(x) and (z3.is_int(x) or z3.is_real(x))) or (is_sym(y) and (z3.is_int(y) or z3.is_real(y))) or \
                (R.mode == "real" and not ((is_sym(x) and z3.is_bv(x)) or (is_sym(y) and z3.is_bv(y)))):
            return "int", to_int(x, w), to_int(y, w)
        return "bv", to_bv(x, w), to_bv(y, w)

    def ptr_int(p):
        if type(p) is SPtr:
            if z3.is_bv(p.off):
                return z3.BitVecVal(p.base, 64) + p.off
            return z3.IntVal(p.base) + p.off
        return p

    def range_obl(e, w):
        R.ofl.append((e, w))
        return e

    def simp(e):
        return e

    def leaves(e, m):
        """The constants a nest of conditionals chooses from (None if there is anything else, or more than m)."""
        if type(e) is int:
            return 1
        if z3.is_int_value(e):
            return 1
        if m > 0 and z3.is_app_of(e, z3.Z3_OP_ITE):
            p, q = leaves(e.arg(1), m - 1), leaves(e.arg(2), m - 1)
            return p + q if p and q else None
        return None

    def dist(op, x, y, w, name):
        """A bitwise operation on conditionals of constants, taken into the branches."""
        p, q = leaves(x, 6), leaves(y, 6)
        if not p or not q or p * q > 64:
            raise Unsupported(name + " on Int")

        def go(a, b):
            if type(a) is not int and z3.is_app_of(a, z3.Z3_OP_ITE):
                c, u, v = a.arg(0), go(a.arg(1), b), go(a.arg(2), b)
            elif type(b) is not int and z3.is_app_of(b, z3.Z3_OP_ITE):
                c, u, v = b.arg(0), go(a, b.arg(1)), go(a, b.arg(2))
            else:
                a, b = (e if type(e) is int else e.as_long() & ((1 << w) - 1) for e in (a, b))
                return op(a, b, w)
            return u if type(u) is int and type(v) is int and u == v else z3.If(c, to_int(u, w), to_int(v, w))
        return go(x, y)

    def i_add(x, y, w):
        if type(x) is int and type(y) is int:
            return (x + y) & ((1 << w) - 1)
        if type(x) is SPtr and type(y) is int:
            return SPtr(x.base + _s(y, w), x.off)
        if type(y) is int and y == 0:
            return x
        if type(x) is int and x == 0:
            return y
        if w == 1:
            return z3.Xor(to_bool(x), to_bool(y))
        k, a, b = pair(x, y, w)
        return range_obl(a + b, w) if k == "int" else a + b

    def i_sub(x, y, w):
        if type(x) is int and type(y) is int:
            return (x - y) & ((1 << w) - 1)
        if type(y) is int and y == 0:
            return x
        if type(x) is SPtr and type(y) is SPtr and x.base == y.base:
            k, a, b = pair(x.off, y.off, w)
            return z3.simplify(a - b)
        if type(x) is SPtr and type(y) is int:
            d = x.base - y
            k, a, b = pair(x.off, d & ((1 << 64) - 1), w)
            return a + b
        if w == 1:
            return z3.Xor(to_bool(x), to_bool(y))
        k, a, b = pair(x, y, w)
        return range_obl(a - b, w) if k == "int" else a - b

    def i_mul(x, y, w):
        if type(x) is int and type(y) is int:
            return (x * y) & ((1 << w) - 1)
        for p, q in ((x, y), (y, x)):
            if type(p) is int:
                if p == 0:
                    return 0
                if p == 1:
                    return q
        if w == 1:
            return z3.And(to_bool(x), to_bool(y))
        k, a, b = pair(x, y, w)
        return range_obl(a * b, w) if k == "int" else a * b

    def nonzero(y, w):
        z = icmp_eq(y, 0, w)
        if R.br(z):
            raise Fault("integer division by zero")

    def i_udiv(x, y, w):
        nonzero(y, w)
        if type(x) is int and type(y) is int:
            return x // y
        if w == 1:
            return x
        k, a, b = pair(x, y, w)
        if k == "int":
            return uns(a, w) / uns(b, w)
        return z3.UDiv(a, b)

    def i_urem(x, y, w):
        nonzero(y, w)
        if type(x) is int and type(y) is int:
            return x % y
        k, a, b = pair(x, y, w)
        if k == "int":
            return uns(a, w) % uns(b, w)
        return z3.URem(a, b)

    def tdiv(a, b):
        q = z3.If(a >= 0, a, -a) / z3.If(b >= 0, b, -b)
        return z3.If((a >= 0) == (b >= 0), q, -q)

    def i_sdiv(x, y, w):
        nonzero(y, w)
        if type(x) is int and type(y) is int:
            a, b = _s(x, w), _s(y, w)
            q = abs(a) // abs(b)
            return (q if (a >= 0) == (b >= 0) else -q) & ((1 << w) - 1)
        k, a, b = pair(x, y, w)
        if k == "int":
            return tdiv(a, b)
        return a / b

    def i_srem(x, y, w):
        nonzero(y, w)
        if type(x) is int and type(y) is int:
            a, b = _s(x, w), _s(y, w)
            r = abs(a) % abs(b)
            return (r if a >= 0 else -r) & ((1 << w) - 1)
        k, a, b = pair(x, y, w)
        if k == "int":
            return a - tdiv(a, b) * b
        return z3.SRem(a, b)

    def uns(e, w):
        """Unsigned reading of a signed mathematical Int."""
        if z3.is_int_value(e):
            return z3.IntVal(e.as_long() % (1 << w))
        return z3.If(e < 0, e + (1 << w), e)

    def i_shl(x, y, w):
        if type(x) is int and type(y) is int:
            return (x << y) & ((1 << w) - 1) if y < w else 0
        if type(y) is int and y == 0:
            return x
        k, a, b = pair(x, y, w)
        if k == "int":
            if type(y) is int:
                return range_obl(a * (1 << y), w)
            raise Unsupported("symbolic shift on Int")
        return a << b

    def i_lshr(x, y, w):
        if type(x) is int and type(y) is int:
            return x >> y if y < w else 0
        if type(y) is int and y == 0:
            return x
        k, a, b = pair(x, y, w)
        if k == "int":
            if type(y) is int:
                return uns(a, w) / (1 << y)
            raise Unsupported("symbolic shift on Int")
        return z3.LShR(a, b)

    def i_ashr(x, y, w):
        if type(x) is int and type(y) is int:
            return (_s(x, w) >> min(y, w - 1)) & ((1 << w) - 1)
        if type(y) is int and y == 0:
            return x
        k, a, b = pair(x, y, w)
        if k == "int":
            if type(y) is int:
                return a / (1 << y)
            raise Unsupported("symbolic shift on Int")
        return a >> b

    def i_and(x, y, w):
        if type(x) is int and type(y) is int:
            return x & y
        for p, q in ((x, y), (y, x)):
            if type(p) is int:
                if p == 0:
                    return 0
                if p == (1 << w) - 1:
                    return q
        if w == 1:
            return z3.And(to_bool(x), to_bool(y))
        k, a, b = pair(x, y, w)
        if k == "int":
            for p, q in ((x, b), (y, a)):
                if type(p) is int and (p & (p + 1)) == 0:
                    return q % (p + 1)
                if type(p) is int:
                    # mask clearing low bits: x & -2^k
                    n = (~p) & ((1 << w) - 1)
                    if (n & (n + 1)) == 0:
                        return q - q % (n + 1)
            return dist(i_and, x, y, w, "and")
        return a & b

    def i_or(x, y, w):
        if type(x) is int and type(y) is int:
            return x | y
        for p, q in ((x, y), (y, x)):
            if type(p) is int:
                if p == 0:
                    return q
                if p == (1 << w) - 1:
                    return p
        if w == 1:
            return z3.Or(to_bool(x), to_bool(y))
        k, a, b = pair(x, y, w)
        if k == "int":
            return dist(i_or, x, y, w, "or")
        return a | b

    def i_xor(x, y, w):
        if type(x) is int and type(y) is int:
            return x ^ y
        for p, q in ((x, y), (y, x)):
            if type(p) is int and p == 0:
                return q
        if w == 1:
            for p, q in ((x, y), (y, x)):
                if type(p) is int and p == 1:
                    return z3.Not(to_bool(q))
            return z3.Xor(to_bool(x), to_bool(y))
        k, a, b = pair(x, y, w)
        if k == "int":
            for p, q in ((x, b), (y, a)):
                if type(p) is int and p == (1 << w) - 1:
                    return -q - 1
            return dist(i_xor, x, y, w, "xor")
        return a ^ b

    for f in (i_add, i_sub, i_mul, i_udiv, i_urem, i_sdiv, i_srem, i_shl, i_lshr, i_ashr, i_and, i_or, i_xor):
        ops[f.__name__] = f

    def fbits(x, w):
        """Int-typed register holding a float term (from an untyped copy)."""
        if isinstance(x, float):
            return float_to_bits(x, w)
        if is_sym(x) and z3.is_fp(x):
            return z3.fpToIEEEBV(x)
        return x

    def mk_icmp(name, pyop, signed, zop_s, zop_u):
        def cmp(x, y, w):
            if type(x) is int and type(y) is int:
                if signed:
                    x, y = _s(x, w), _s(y, w)
                return 1 if pyop(x, y) else 0
            if type(x) is float or (is_sym(x) and z3.is_fp(x)):
                x = fbits(x, w)
            if type(y) is float or (is_sym(y) and z3.is_fp(y)):
                y = fbits(y, w)
            if type(x) is SPtr and type(y) is int and y == 0:
                return 1 if name in ("ne", "ugt", "uge") else 0
            if w == 1:
                a, b = to_bool(x), to_bool(y)
                if name == "eq":
                    return a == b
                if name == "ne":
                    return z3.Xor(a, b)
                a, b = to_bv(a, 1), to_bv(b, 1)
                return zop_s(a, b) if signed else zop_u(a, b)
            k, a, b = pair(x, y, w)
            if k == "int":
                if name in ("eq", "ne") or signed:
                    return pyop(a, b)
                return pyop(uns(a, w), uns(b, w))
            return zop_s(a, b) if signed else zop_u(a, b)
        ops["icmp_" + name] = cmp
        return cmp

    import operator as o
    icmp_eq = mk_icmp("eq", o.eq, False, o.eq, o.eq)
    mk_icmp("ne", o.ne, False, o.ne, o.ne)
    mk_icmp("ugt", o.gt, False, None, z3.UGT)
    mk_icmp("uge", o.ge, False, None, z3.UGE)
    mk_icmp("ult", o.lt, False, None, z3.ULT)
    mk_icmp("ule", o.le, False, None, z3.ULE)
    mk_icmp("sgt", o.gt, True, o.gt, None)
    mk_icmp("sge", o.ge, True, o.ge, None)
    mk_icmp("slt", o.lt, True, o.lt, None)
    mk_icmp("sle", o.le, True, o.le, None)

    def i_trunc(x, sw, tw):
        if type(x) is int:
            return x & ((1 << tw) - 1)
        if type(x) is SPtr:
            raise Unsupported("trunc of pointer")
        if is_sym(x) and z3.is_fp(x):
            x = z3.fpToIEEEBV(x)
        if z3.is_bool(x):
            return x
        if z3.is_bv(x):
            if tw == 1:
                return z3.Extract(0, 0, x) == 1
            return z3.Extract(tw - 1, 0, x)
        if z3.is_int(x):
            if tw == 1:
                return x % 2 == 1
            R.ofl.append((x, tw))
            return x
        raise Unsupported("trunc")

    def i_zext(x, sw, tw):
        if type(x) is int:
            return x
        if z3.is_bool(x):
            if R.mode == "real":
                return x   # a Bool stands for 0/1 in any width
            return z3.If(x, z3.BitVecVal(1, tw), z3.BitVecVal(0, tw))
        if z3.is_bv(x):
            return z3.ZeroExt(tw - sw, x)
        if z3.is_int(x):
            return uns(x, sw)
        raise Unsupported("zext")

    def i_sext(x, sw, tw):
        if type(x) is int:
            return _s(x, sw) & ((1 << tw) - 1)
        if z3.is_bool(x):
            if R.mode == "real":
                return z3.If(x, z3.IntVal(-1), z3.IntVal(0))
            return z3.If(x, z3.BitVecVal((1 << tw) - 1, tw), z3.BitVecVal(0, tw))
        if z3.is_bv(x):
            return z3.SignExt(tw - sw, x)
        if z3.is_int(x):
            return x
        raise Unsupported("sext")
    ops.update(i_trunc=i_trunc, i_zext=i_zext, i_sext=i_sext)

    # ---- floats
    def rnd(x, w):
        return f32(x) if w == 32 else x

    def uf(name, n, w):
        k = (name, n, w, R.mode)
        f = R.ufs.get(k)
        if f is None:
            s = z3.RealSort() if R.mode == "real" else _FS[w]
            f = z3.Function(name + str(w), *([s] * (n + 1)))
            R.ufs[k] = f
        return f

    def fnorm(x, w):
        if type(x) is int:
            return bits_to_float(x, w)
        return x

    def fadd(x, y, w):
        if type(x) is float and type(y) is float:
            return rnd(x + y, w)
        x, y = fnorm(x, w), fnorm(y, w)
        if R.mode == "real":
            if type(x) is float and x == 0:
                return y
            if type(y) is float and y == 0:
                return x
            return to_real(x) + to_real(y)
        if R.abstract:
            return uf("fadd", 2, w)(to_fp(x, w), to_fp(y, w))
        return z3.fpAdd(_RNE, to_fp(x, w), to_fp(y, w))

    def fsub(x, y, w):
        if type(x) is float and type(y) is float:
            if x in (INF, -INF) and x == y:
                return float("nan")
            return rnd(x - y, w)
        x, y = fnorm(x, w), fnorm(y, w)
        if R.mode == "real":
            if type(y) is float and y == 0:
                return x
            if type(x) is float and x == 0:
                return -to_real(y)
            return to_real(x) - to_real(y)
        if R.abstract:
            return uf("fsub", 2, w)(to_fp(x, w), to_fp(y, w))
        return z3.fpSub(_RNE, to_fp(x, w), to_fp(y, w))

    def fmul(x, y, w):
        if type(x) is float and type(y) is float:
            return rnd(x * y, w)
        x, y = fnorm(x, w), fnorm(y, w)
        for p, q in ((x, y), (y, x)):
            if type(p) is float:
                if p == 1.0:
                    return q
                if R.mode == "real":
                    if p == 0.0:
                        return 0.0
                    if p == -1.0:
                        return -to_real(q)
        if R.mode == "real":
            return to_real(x) * to_real(y)
        if R.abstract:
            return uf("fmul", 2, w)(to_fp(x, w), to_fp(y, w))
        return z3.fpMul(_RNE, to_fp(x, w), to_fp(y, w))

    def fdiv(x, y, w):
        if type(x) is float and type(y) is float:
            if y == 0:
                if x == 0 or x != x:
                    return float("nan")
                import math
                return math.copysign(INF, x) * math.copysign(1.0, y)
            return rnd(x / y, w)
        x, y = fnorm(x, w), fnorm(y, w)
        if type(y) is float and y == 1.0:
            return x
        if R.mode == "real":
            if type(y) is float:
                if y in (INF, -INF):
                    return 0.0
                if y == 0.0:
                    # usually speculated by the compiler and discarded by a select: an unknown, which no
                    # decision may depend on (see no_undef)
                    u = z3.Real(f"undef!{len(R.undef)}!{len(R.dec)}")
                    R.undef.add(u.get_id())
                    R.undef_keep.append(u)
                    return u
                return to_real(x) * real_of_frac(1 / Fraction(y))
            R.stats["divisions"] = R.stats.get("divisions", 0) + 1
            yr = to_real(y)
            # over the reals a zero divisor has no meaning: decide it as a branch of its own
            if R.br(yr == 0):
                return R.div_by_zero(x, w)
            return to_real(x) / yr
        if R.abstract:
            return uf("fdiv", 2, w)(to_fp(x, w), to_fp(y, w))
        return z3.fpDiv(_RNE, to_fp(x, w), to_fp(y, w))

    def div_by_zero(x, w):
        xr = to_real(x)
        if R.br(xr == 0):
            return float("nan")
        if R.br(xr > 0):
            return INF
        return -INF
    R.div_by_zero = div_by_zero

    def frem(x, y, w):
        import math
        if type(x) is float and type(y) is float:
            return rnd(math.fmod(x, y), w)
        if R.mode == "real":
            a, b = to_real(x), to_real(y)
            q = a / b
            t = z3.If(q >= 0, z3.ToReal(z3.ToInt(q)), -z3.ToReal(z3.ToInt(-q)))
            return a - t * b
        raise Unsupported("frem")

    def fneg(x):
        if type(x) is float:
            return -x
        if type(x) is int:
            raise Unsupported("fneg of bits")
        if R.mode == "real":
            return -to_real(x)
        return z3.fpNeg(x)

    OPS = {"oeq": (o.eq, z3.fpEQ, False), "ogt": (o.gt, z3.fpGT, False), "oge": (o.ge, z3.fpGEQ, False),
           "olt": (o.lt, z3.fpLT, False), "ole": (o.le, z3.fpLEQ, False), "one": (o.ne, None, False),
           "ueq": (o.eq, None, True), "ugt": (o.gt, None, True), "uge": (o.ge, None, True),
           "ult": (o.lt, None, True), "ule": (o.le, None, True), "une": (o.ne, None, True)}

    def fcmp(x, y, p):
        if p == "true":
            return 1
        if p == "false":
            return 0
        w = 32
        if is_sym(x) and z3.is_fp(x):
            w = 32 if x.sbits() == 24 else 64
        elif is_sym(y) and z3.is_fp(y):
            w = 32 if y.sbits() == 24 else 64
        if type(x) is int:
            x = bits_to_float(x, w)
        if type(y) is int:
            y = bits_to_float(y, w)
        if type(x) is float and type(y) is float:
            nan = x != x or y != y
            if p == "ord":
                return int(not nan)
            if p == "uno":
                return int(nan)
            f, _, u = OPS[p]
            if nan:
                return int(u)
            return int(f(x, y))
        if R.mode == "real":
            for q in (x, y):
                if type(q) is float and q != q:
                    return int(p == "uno" or (p in OPS and OPS[p][2]))
            if p == "ord":
                return 1
            if p == "uno":
                return 0
            if type(x) is float and x in (INF, -INF):
                return int(OPS[p][0](x, 0.0))
            if type(y) is float and y in (INF, -INF):
                return int(OPS[p][0](0.0, y))
            if R.unit and p[0] in "ou":        # a draw from [0,1) compared with a bound of its range
                if type(y) is float and not 0 < y < 1 and is_sym(x) and x.get_id() in R.unit and (y or p[1:] in ("lt", "ge")):
                    return int(OPS[p][0](0.5, y))
                if type(x) is float and not 0 < x < 1 and is_sym(y) and y.get_id() in R.unit and (x or p[1:] in ("gt", "le")):
                    return int(OPS[p][0](x, 0.5))
            return OPS[p][0](to_real(x), to_real(y))
        a, b = to_fp(x, w), to_fp(y, w)
        nan = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
        if p == "ord":
            return z3.Not(nan)
        if p == "uno":
            return nan
        f, z, u = OPS[p]
        if p == "one":
            return z3.And(z3.Not(nan), z3.Not(z3.fpEQ(a, b)))
        if p == "une":
            return z3.Not(z3.fpEQ(a, b))
        if p == "ueq":
            return z3.Or(nan, z3.fpEQ(a, b))
        if p == "ugt":
            return z3.Not(z3.fpLEQ(a, b))
        if p == "uge":
            return z3.Not(z3.fpLT(a, b))
        if p == "ult":
            return z3.Not(z3.fpGEQ(a, b))
        if p == "ule":
            return z3.Not(z3.fpGT(a, b))
        return z(a, b)

    def select(c, x, y, w=0):
        if type(c) is int:
            return x if c else y
        if z3.is_bv(c):
            c = c == 1
        elif z3.is_int(c):
            c = c != 0
        if x is y:
            return x
        tx, ty = type(x), type(y)
        if tx is ty and tx in (int, float) and (x == y or (x != x and y != y)):
            return x
        if tx is list:
            return [select(c, p, q) for p, q in zip(x, y)]
        if z3.is_true(c):
            return x
        if z3.is_false(c):
            return y
        if tx is SPtr or ty is SPtr or (tx is int and ty is int and w == 64 and (x > 0xFFFF and y > 0xFFFF or
                                                                                 R.looks_ptr(x) or R.looks_ptr(y))):
            return x if R.br(c) else y
        fx = tx is float or (is_sym(x) and (z3.is_real(x) or z3.is_fp(x)))
        fy = ty is float or (is_sym(y) and (z3.is_real(y) or z3.is_fp(y)))
        if fx or fy:
            if R.mode == "real":
                for q in (x, y):
                    if tx is float and ty is float:
                        pass
                    if type(q) is float and (q != q or q in (INF, -INF)):
                        return x if R.br(c) else y
                return z3.If(c, to_real(fnorm(x, w or 32)), to_real(fnorm(y, w or 32)))
            ww = w or 32
            for q in (x, y):
                if is_sym(q) and z3.is_fp(q):
                    ww = 32 if q.sbits() == 24 else 64
            return z3.If(c, to_fp(x, ww), to_fp(y, ww))
        if w == 1 or (is_sym(x) and z3.is_bool(x) and (is_sym(y) and z3.is_bool(y))):
            a, b = to_bool(x), to_bool(y)
            if z3.is_true(a) and z3.is_false(b):
                return c
            if z3.is_false(a) and z3.is_true(b):
                return z3.Not(c)
            return z3.If(c, a, b)
        k, a, b = pair(x, y, w or 32)
        return z3.If(c, a, b)

    R.looks_ptr = lambda v: v >= 0x100000 and (v in R.sizes or v in R.addrf)

    def sitofp(x, sw, w):
        if type(x) is int:
            return rnd(float(_s(x, sw)), w)
        if z3.is_bool(x):
            if R.mode == "real":
                return z3.If(x, z3.RealVal(-1 if sw == 1 else 1), z3.RealVal(0))
            return z3.If(x, z3.FPVal(1.0, _FS[w]), z3.FPVal(0.0, _FS[w]))
        if R.mode == "real":
            return z3.ToReal(to_int(x, sw))
        return z3.fpSignedToFP(_RNE, to_bv(x, sw), _FS[w])

    def uitofp(x, sw, w):
        if type(x) is int:
            return rnd(float(x), w)
        if z3.is_bool(x):
            if R.mode == "real":
                return z3.If(x, z3.RealVal(1), z3.RealVal(0))
            return z3.If(x, z3.FPVal(1.0, _FS[w]), z3.FPVal(0.0, _FS[w]))
        if R.mode == "real":
            return z3.ToReal(uns(to_int(x, sw), sw))
        return z3.fpUnsignedToFP(_RNE, to_bv(x, sw), _FS[w])

    def fptosi(x, sw, tw):
        if type(x) is float:
            if x != x or x in (INF, -INF) or abs(x) >= 2.0 ** (tw - 1):
                return 1 << (tw - 1)   # what x86 cvttss2si gives
            return int(x) & ((1 << tw) - 1)
        if R.mode == "real":
            x = to_real(x)
            # integral already?
            if z3.is_app_of(x, z3.Z3_OP_TO_REAL):
                return range_obl(x.arg(0), tw)
            return range_obl(z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x)), tw)
        return z3.fpToSBV(z3.RTZ(), x, z3.BitVecSort(tw))

    def fptoui(x, sw, tw):
        if type(x) is float:
            if x != x or x in (INF, -INF):
                return 0
            return int(x) & ((1 << tw) - 1)
        if R.mode == "real":
            x = to_real(x)
            return range_obl(z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x)), tw)
        return z3.fpToUBV(z3.RTZ(), x, z3.BitVecSort(tw))

    def fptrunc(x, sw, tw):
        if type(x) is float:
            return rnd(x, tw)
        if R.mode == "real":
            return x
        return z3.fpFPToFP(_RNE, x, _FS[tw])

    def fpext(x, sw, tw):
        if type(x) is float:
            return x
        if R.mode == "real":
            return x
        return z3.fpFPToFP(_RNE, x, _FS[tw])

    def bitcast(x, s, t, w):
        if s == "i" and t == "f":
            if type(x) is int:
                return bits_to_float(x, w)
            if z3.is_bv(x):
                return z3.fpBVToFP(x, _FS[w])
            return x
        if s == "f" and t == "i":
            if type(x) is float:
                return float_to_bits(x, w)
            if z3.is_fp(x):
                return z3.fpToIEEEBV(x)
            return x   # keeps the term, unusable in integer ops
        return x

    ops.update(fadd=fadd, fsub=fsub, fmul=fmul, fdiv=fdiv, frem=frem, fneg=fneg, fcmp=fcmp, select=select,
               sitofp=sitofp, uitofp=uitofp, fptosi=fptosi, fptoui=fptoui, fptrunc=fptrunc, fpext=fpext,
               bitcast=bitcast, CxxThrow=CxxThrow)

    def padd(p, k):
        if type(p) is int:
            return (p + k) & 0xFFFFFFFFFFFFFFFF
        if type(p) is SPtr:
            return SPtr(p.base + k, p.off)
        raise Unsupported("pointer arithmetic on a symbolic integer")

    def pidx(p, i, w, s):
        if type(i) is int:
            if type(p) is int:
                return (p + _s(i, w) * s) & 0xFFFFFFFFFFFFFFFF
            return SPtr(p.base + _s(i, w) * s, p.off)
        if z3.is_bool(i):
            i = z3.If(i, z3.IntVal(1), z3.IntVal(0)) if R.mode == "real" else to_bv(i, 64)
        off = i * s if z3.is_int(i) else (z3.SignExt(64 - i.size(), i) if i.size() < 64 else i) * s
        if type(p) is SPtr:
            po = p.off
            if z3.is_bv(off) and not z3.is_bv(po):
                off = z3.BV2Int(off, True)
            return SPtr(p.base, po + off)
        return SPtr(p, off)

    def insval(agg, v, ix):
        agg = list(agg)
        if len(ix) == 1:
            agg[ix[0]] = v
        else:
            agg[ix[0]] = insval(agg[ix[0]], v, ix[1:])
        return agg

    ops.update(padd=padd, pidx=pidx, insval=insval)
    return ops


def real_of_frac(f):
    return z3.RatVal(f.numerator, f.denominator)
