"""LLVM bitcode -> Python translator.

Loads the bitcode that clang made from /repo's C++ sources through the LLVM-C API (ctypes on
libLLVM-18.so) and translates each function, on first call, to a Python function whose values may be
concrete or z3 terms (see rt.py for the operations)."""

import ctypes as C
import os

_CANDS = ["/usr/lib/llvm-18/lib/libLLVM-18.so", "/usr/lib/llvm-18/lib/libLLVM.so.1", "libLLVM-18.so.1",
          "/usr/lib/llvm-18/lib/libLLVM-18.1.3.so"]


def _load():
    for c in _CANDS:
        try:
            return C.CDLL(c)
        except OSError:
            continue
    raise RuntimeError("libLLVM-18 not found")


L = _load()
P = C.c_void_p


def _fn(name, res, *args):
    f = getattr(L, name)
    f.restype = res
    f.argtypes = list(args)
    return f


ctx_create = _fn("LLVMContextCreate", P)
membuf = _fn("LLVMCreateMemoryBufferWithContentsOfFile", C.c_int, C.c_char_p, C.POINTER(P), C.POINTER(C.c_char_p))
parse_bc = _fn("LLVMParseBitcodeInContext2", C.c_int, P, P, C.POINTER(P))
first_fn = _fn("LLVMGetFirstFunction", P, P)
next_fn = _fn("LLVMGetNextFunction", P, P)
first_gl = _fn("LLVMGetFirstGlobal", P, P)
next_gl = _fn("LLVMGetNextGlobal", P, P)
first_alias = _fn("LLVMGetFirstGlobalAlias", P, P)
next_alias = _fn("LLVMGetNextGlobalAlias", P, P)
alias_target = _fn("LLVMAliasGetAliasee", P, P)
get_init = _fn("LLVMGetInitializer", P, P)
is_decl = _fn("LLVMIsDeclaration", C.c_int, P)
gl_valty = _fn("LLVMGlobalGetValueType", P, P)
_vname = _fn("LLVMGetValueName2", P, P, C.POINTER(C.c_size_t))
first_bb = _fn("LLVMGetFirstBasicBlock", P, P)
next_bb = _fn("LLVMGetNextBasicBlock", P, P)
bb_val = _fn("LLVMBasicBlockAsValue", P, P)
val_bb = _fn("LLVMValueAsBasicBlock", P, P)
first_in = _fn("LLVMGetFirstInstruction", P, P)
next_in = _fn("LLVMGetNextInstruction", P, P)
in_op = _fn("LLVMGetInstructionOpcode", C.c_int, P)
n_ops = _fn("LLVMGetNumOperands", C.c_int, P)
get_op = _fn("LLVMGetOperand", P, P, C.c_uint)
type_of = _fn("LLVMTypeOf", P, P)
type_kind = _fn("LLVMGetTypeKind", C.c_int, P)
int_width = _fn("LLVMGetIntTypeWidth", C.c_uint, P)
val_kind = _fn("LLVMGetValueKind", C.c_int, P)
ci_z = _fn("LLVMConstIntGetZExtValue", C.c_ulonglong, P)
cf_d = _fn("LLVMConstRealGetDouble", C.c_double, P, C.POINTER(C.c_int))
icmp_p = _fn("LLVMGetICmpPredicate", C.c_int, P)
fcmp_p = _fn("LLVMGetFCmpPredicate", C.c_int, P)
alloc_ty = _fn("LLVMGetAllocatedType", P, P)
gep_ty = _fn("LLVMGetGEPSourceElementType", P, P)
off_elem = _fn("LLVMOffsetOfElement", C.c_ulonglong, P, P, C.c_uint)
abi_size = _fn("LLVMABISizeOfType", C.c_ulonglong, P, P)
abi_align = _fn("LLVMABIAlignmentOfType", C.c_uint, P, P)
store_size = _fn("LLVMStoreSizeOfType", C.c_ulonglong, P, P)
dl_str = _fn("LLVMGetDataLayoutStr", C.c_char_p, P)
mk_td = _fn("LLVMCreateTargetData", P, C.c_char_p)
n_inc = _fn("LLVMCountIncoming", C.c_uint, P)
inc_v = _fn("LLVMGetIncomingValue", P, P, C.c_uint)
inc_b = _fn("LLVMGetIncomingBlock", P, P, C.c_uint)
n_succ = _fn("LLVMGetNumSuccessors", C.c_uint, P)
get_succ = _fn("LLVMGetSuccessor", P, P, C.c_uint)
is_cond = _fn("LLVMIsConditional", C.c_int, P)
get_cond = _fn("LLVMGetCondition", P, P)
called = _fn("LLVMGetCalledValue", P, P)
called_ty = _fn("LLVMGetCalledFunctionType", P, P)
n_args = _fn("LLVMGetNumArgOperands", C.c_uint, P)
norm_dest = _fn("LLVMGetNormalDest", P, P)
unw_dest = _fn("LLVMGetUnwindDest", P, P)
n_idx = _fn("LLVMGetNumIndices", C.c_uint, P)
idxs = _fn("LLVMGetIndices", C.POINTER(C.c_uint), P)
sw_def = _fn("LLVMGetSwitchDefaultDest", P, P)
ret_ty = _fn("LLVMGetReturnType", P, P)
fn_params = _fn("LLVMCountParams", C.c_uint, P)
get_param = _fn("LLVMGetParam", P, P, C.c_uint)
st_n = _fn("LLVMCountStructElementTypes", C.c_uint, P)
st_elem = _fn("LLVMStructGetTypeAtIndex", P, P, C.c_uint)
arr_len = _fn("LLVMGetArrayLength2", C.c_ulonglong, P)
elem_ty = _fn("LLVMGetElementType", P, P)
vec_len = _fn("LLVMGetVectorSize", C.c_uint, P)
agg_elem = _fn("LLVMGetAggregateElement", P, P, C.c_uint)
c_op = _fn("LLVMGetConstOpcode", C.c_int, P)
lp_n = _fn("LLVMGetNumClauses", C.c_uint, P)
lp_cl = _fn("LLVMGetClause", P, P, C.c_uint)
lp_cleanup = _fn("LLVMIsCleanup", C.c_int, P)
sh_n = _fn("LLVMGetNumMaskElements", C.c_uint, P)
sh_e = _fn("LLVMGetMaskValue", C.c_int, P, C.c_uint)
is_str = _fn("LLVMIsConstantString", C.c_int, P)
print_val = _fn("LLVMPrintValueToString", C.c_void_p, P)
fn_ty = _fn("LLVMGlobalGetValueType", P, P)
is_vararg = _fn("LLVMIsFunctionVarArg", C.c_int, P)
n_ptypes = _fn("LLVMCountParamTypes", C.c_uint, P)
is_volatile = _fn("LLVMGetVolatile", C.c_int, P)
rmw_op = _fn("LLVMGetAtomicRMWBinOp", C.c_int, P)

# type kinds
TK = dict(void=0, half=1, float=2, double=3, x86fp80=4, fp128=5, ppc=6, label=7, integer=8, function=9,
          struct=10, array=11, pointer=12, vector=13, metadata=14)
# value kinds
VK_ARG, VK_BB = 0, 1
VK_FUNCTION, VK_ALIAS, VK_IFUNC, VK_GLOBALVAR, VK_BLOCKADDR = 5, 6, 7, 8, 9
VK_CEXPR, VK_CARRAY, VK_CSTRUCT, VK_CVECTOR = 10, 11, 12, 13
VK_UNDEF, VK_CAGGZERO, VK_CDATAARRAY, VK_CDATAVEC, VK_CINT, VK_CFP, VK_CNULL = 14, 15, 16, 17, 18, 19, 20
VK_INSTR = 24

OP = {1: "ret", 2: "br", 3: "switch", 4: "indirectbr", 5: "invoke", 7: "unreachable", 8: "add", 9: "fadd",
      10: "sub", 11: "fsub", 12: "mul", 13: "fmul", 14: "udiv", 15: "sdiv", 16: "fdiv", 17: "urem",
      18: "srem", 19: "frem", 20: "shl", 21: "lshr", 22: "ashr", 23: "and", 24: "or", 25: "xor",
      26: "alloca", 27: "load", 28: "store", 29: "gep", 30: "trunc", 31: "zext", 32: "sext", 33: "fptoui",
      34: "fptosi", 35: "uitofp", 36: "sitofp", 37: "fptrunc", 38: "fpext", 39: "ptrtoint", 40: "inttoptr",
      41: "bitcast", 42: "icmp", 43: "fcmp", 44: "phi", 45: "call", 46: "select", 49: "vaarg",
      50: "extractelement", 51: "insertelement", 52: "shufflevector", 53: "extractvalue", 54: "insertvalue",
      55: "fence", 56: "atomiccmpxchg", 57: "atomicrmw", 58: "resume", 59: "landingpad", 60: "addrspacecast",
      66: "fneg", 68: "freeze", 67: "callbr"}
ICMP = {32: "eq", 33: "ne", 34: "ugt", 35: "uge", 36: "ult", 37: "ule", 38: "sgt", 39: "sge", 40: "slt", 41: "sle"}
FCMP = {0: "false", 1: "oeq", 2: "ogt", 3: "oge", 4: "olt", 5: "ole", 6: "one", 7: "ord", 8: "uno", 9: "ueq",
        10: "ugt", 11: "uge", 12: "ult", 13: "ule", 14: "une", 15: "true"}


def vname(v):
    n = C.c_size_t()
    p = _vname(v, C.byref(n))
    return C.string_at(p, n.value).decode("utf-8", "replace")


def vtext(v):
    p = print_val(v)
    return C.string_at(p).decode("utf-8", "replace")


class Module:
    """The linked bitcode module: function table, globals, type layout."""

    def __init__(self, path):
        ctx = ctx_create()
        buf, msg = P(), C.c_char_p()
        if membuf(path.encode(), C.byref(buf), C.byref(msg)):
            raise RuntimeError(f"cannot read {path}")
        mod = P()
        if parse_bc(ctx, buf, C.byref(mod)):
            raise RuntimeError(f"cannot parse {path}")
        self.ctx, self.mod = ctx, mod
        self.td = mk_td(dl_str(mod))
        self.fns = {}
        f = first_fn(mod)
        while f:
            self.fns[vname(f)] = f
            f = next_fn(f)
        self.globals = {}
        g = first_gl(mod)
        while g:
            self.globals[vname(g)] = g
            g = next_gl(g)
        self.aliases = {}
        a = first_alias(mod)
        while a:
            self.aliases[vname(a)] = alias_target(a)
            a = next_alias(a)
        self._tcache = {}

    def tinfo(self, t):
        r = self._tcache.get(t)
        if r is None:
            k = type_kind(t)
            if k == TK["integer"]:
                r = ("i", int_width(t))
            elif k == TK["pointer"]:
                r = ("p", 64)
            elif k == TK["float"]:
                r = ("f", 32)
            elif k == TK["double"]:
                r = ("f", 64)
            elif k == TK["x86fp80"]:
                r = ("f", 80)
            elif k == TK["struct"]:
                n = st_n(t)
                r = ("s", [(off_elem(self.td, t, i), st_elem(t, i)) for i in range(n)])
            elif k == TK["array"]:
                r = ("a", arr_len(t), elem_ty(t))
            elif k == TK["vector"]:
                r = ("v", vec_len(t), elem_ty(t))
            elif k == TK["void"]:
                r = ("void",)
            else:
                r = ("?", k)
            self._tcache[t] = r
        return r

    def size(self, t):
        return abi_size(self.td, t)


class Unsupported(Exception):
    pass


class Translator:
    """Translates one LLVM function to Python source working on runtime `R` (rt.Runtime)."""

    def __init__(self, mod, rt):
        self.m = mod
        self.rt = rt

    # ---- constants ----------------------------------------------------------------
    def const(self, v):
        """The Python value of a constant."""
        m = self.m
        k = val_kind(v)
        ti = m.tinfo(type_of(v))
        if k == VK_CINT:
            w = ti[1]
            if w > 64:
                txt = vtext(v)
                return int(txt.split()[-1]) & ((1 << w) - 1)
            return ci_z(v)
        if k == VK_CFP:
            lossy = C.c_int()
            return cf_d(v, C.byref(lossy))
        if k == VK_CNULL:
            return 0
        if k in (VK_FUNCTION, VK_GLOBALVAR, VK_ALIAS):
            return self.rt.addr_of_global(vname(v))
        if k in (VK_UNDEF, 25, 26) or k == 23 or k == 22 or k == 21:
            # undef / poison
            return self.zero(type_of(v))
        if k == VK_CAGGZERO:
            return self.zero(type_of(v))
        if k in (VK_CARRAY, VK_CSTRUCT, VK_CVECTOR, VK_CDATAARRAY, VK_CDATAVEC):
            if ti[0] == "s":
                n = len(ti[1])
            else:
                n = ti[1]
            return [self.const(agg_elem(v, i)) for i in range(n)]
        if k == VK_CEXPR:
            op = OP[c_op(v)]
            if op == "gep":
                base = self.const(get_op(v, 0))
                return base + self.gep_const_off(v)
            if op in ("ptrtoint", "inttoptr", "bitcast", "addrspacecast"):
                return self.const(get_op(v, 0))
            if op in ("add", "sub"):
                a, b = self.const(get_op(v, 0)), self.const(get_op(v, 1))
                return (a + b if op == "add" else a - b) & ((1 << ti[1]) - 1)
            if op == "trunc":
                return self.const(get_op(v, 0)) & ((1 << ti[1]) - 1)
            raise Unsupported("const expr " + op)
        raise Unsupported(f"const kind {k}: {vtext(v)[:200]}")

    def zero(self, t):
        ti = self.m.tinfo(t)
        if ti[0] in "ip":
            return 0
        if ti[0] == "f":
            return 0.0
        if ti[0] == "s":
            return [self.zero(e) for _, e in ti[1]]
        if ti[0] in "av":
            return [self.zero(ti[2]) for _ in range(ti[1])]
        raise Unsupported(f"zero of {ti}")

    def gep_const_off(self, v):
        m = self.m
        t = gep_ty(v)
        off = 0
        n = n_ops(v)
        for i in range(1, n):
            o = get_op(v, i)
            c = self.const(o)
            w = m.tinfo(type_of(o))[1]
            if c >= 1 << (w - 1):
                c -= 1 << w
            if i == 1:
                off += c * m.size(t)
            else:
                ti = m.tinfo(t)
                if ti[0] == "s":
                    off += ti[1][c][0]
                    t = ti[1][c][1]
                else:
                    t = ti[2]
                    off += c * m.size(t)
        return off

    # ---- merging of small branch regions ---------------------------------------------
    PURE = ("llvm.fabs", "llvm.smax", "llvm.smin", "llvm.umax", "llvm.umin", "llvm.abs", "llvm.floor", "llvm.ceil",
            "llvm.rint", "llvm.round", "llvm.trunc", "llvm.minnum", "llvm.maxnum", "llvm.copysign", "llvm.lifetime",
            "llvm.assume", "llvm.fmuladd")
    MERGE_OPS = {"add", "sub", "mul", "shl", "lshr", "ashr", "and", "or", "xor", "fadd", "fsub", "fmul", "fdiv",
                 "fneg", "icmp", "fcmp", "select", "trunc", "zext", "sext", "fptosi", "sitofp", "uitofp", "fptrunc",
                 "fpext", "gep", "load", "store", "phi", "br", "freeze", "bitcast", "fptoui"}

    def cfg(self, blocks):
        """successors and immediate post-dominators of the function being translated."""
        succ = {}
        for b in blocks:
            t = None
            i = first_in(b)
            while i:
                t = i
                i = next_in(i)
            op = OP.get(in_op(t))
            if op == "br":
                succ[b] = [get_succ(t, k) for k in range(n_succ(t))]
            elif op == "switch":
                succ[b] = [get_succ(t, k) for k in range(n_succ(t))]
            elif op == "invoke":
                succ[b] = [norm_dest(t)]
            elif op in ("unreachable", "resume"):
                succ[b] = []          # leaves the function: does not block post-domination
            else:
                succ[b] = ["exit"]
        ALL = set(blocks) | {"exit"}
        pd = {b: set(ALL) for b in blocks}
        pd["exit"] = {"exit"}
        changed = True
        order = list(reversed(blocks))
        while changed:
            changed = False
            for b in order:
                ss = [pd[s] for s in succ[b]]
                n = set.intersection(*ss) if ss else set(ALL)
                n = n | {b}
                if n != pd[b]:
                    pd[b] = n
                    changed = True
        return succ, pd

    def simple_block(self, b):
        i = first_in(b)
        n = 0
        while i:
            op = OP.get(in_op(i), "?")
            if op == "call":
                cv = called(i)
                if val_kind(cv) != VK_FUNCTION or not vname(cv).startswith(self.PURE):
                    return None
            elif op not in self.MERGE_OPS:
                return None
            if op == "load" or op == "store":
                ty = type_of(i) if op == "load" else type_of(get_op(i, 0))
                if self.m.tinfo(ty)[0] not in "ipf":
                    return None
            n += 1
            i = next_in(i)
        return n

    def merge_region(self, b, br, bidx):
        succ, pd = self.succ, self.pd
        s0, s1 = get_succ(br, 0), get_succ(br, 1)
        if s0 == s1:
            return None
        cand = pd[b] - {b, "exit"}
        if not cand or len(pd[b]) > len(pd) - 1:
            return None
        # the immediate post-dominator is the one post-dominated by all the others
        p = max(cand, key=lambda q: len(pd[q]))
        region, st = [], [s for s in (s0, s1) if s != p]
        seen = set()
        while st:
            x = st.pop()
            if x in seen:
                continue
            if x == b or x == "exit":
                return None
            seen.add(x)
            if len(seen) > 16 or self.simple_block(x) is None:
                return None
            if not succ[x]:
                return None
            st.extend(y for y in succ[x] if y != p)
        # topological order
        order, mark = [], {}

        def visit(x):
            if mark.get(x) == 1:
                return False
            if mark.get(x) == 2:
                return True
            mark[x] = 1
            for y in succ[x]:
                if y != p and not visit(y):
                    return False
            mark[x] = 2
            order.append(x)
            return True
        for s in (s0, s1):
            if s != p and not visit(s):
                return None
        order.reverse()
        V = self.val
        out = []
        c = V(get_cond(br))
        out.append(f"gt = R.tobool({c}); gf = R.notb(gt)")
        edges = {}
        edges.setdefault(s0, []).append((b, "gt"))
        edges.setdefault(s1, []).append((b, "gf"))

        def phis(x):
            lhs, rhs = [], []
            i = first_in(x)
            while i and OP[in_op(i)] == "phi":
                ti = self.m.tinfo(type_of(i))
                if ti[0] not in "ipf":
                    return False
                inc = {inc_b(i, k): inc_v(i, k) for k in range(n_inc(i))}
                es = edges.get(x, [])
                e = V(inc[es[-1][0]])
                for pb, g in reversed(es[:-1]):
                    v = V(inc[pb])
                    if v != e:
                        e = f"select({g}, {v}, {e}, {ti[1]})"
                if e != self.names[i]:
                    lhs.append(self.names[i])
                    rhs.append(e)
                i = next_in(i)
            if lhs:
                out.append(f"{', '.join(lhs)} = {', '.join(rhs)}")
            return True
        for k, x in enumerate(order):
            es = edges.get(x, [])
            if not es:
                return None
            g = f"g{k}"
            out.append(f"{g} = R.orb({', '.join(q for _, q in es)})")
            if not phis(x):
                return None
            i = first_in(x)
            while i:
                op = OP[in_op(i)]
                if op == "phi":
                    pass
                elif op == "br":
                    if is_cond(i):
                        cc = V(get_cond(i))
                        t0, t1 = get_succ(i, 0), get_succ(i, 1)
                        out.append(f"{g}t = R.andb({g}, R.tobool({cc})); {g}f = R.andb({g}, R.notb(R.tobool({cc})))")
                        edges.setdefault(t0, []).append((x, g + "t"))
                        if t1 == t0:
                            return None
                        edges.setdefault(t1, []).append((x, g + "f"))
                    else:
                        edges.setdefault(get_succ(i, 0), []).append((x, g))
                elif op == "load":
                    ti = self.m.tinfo(type_of(i))
                    sz = max(1, (ti[1] + 7) // 8)
                    kind = "f" if ti[0] == "f" else "i"
                    out.append(f"{self.names[i]} = R.gload({g}, {V(get_op(i, 0))}, {sz}, '{kind}', {ti[1]})")
                elif op == "store":
                    v = get_op(i, 0)
                    ti = self.m.tinfo(type_of(v))
                    sz = max(1, (ti[1] + 7) // 8)
                    kind = "f" if ti[0] == "f" else "i"
                    out.append(f"R.gstore({g}, {V(get_op(i, 1))}, {sz}, {V(v)}, '{kind}', {ti[1]})")
                else:
                    self.instr(i, op, x, bidx, out)
                i = next_in(i)
        if not phis(p):
            return None
        out.append(f"R.merge_end(); bb = {bidx[p]}; continue")
        return out

    # ---- functions ------------------------------------------------------------------
    def translate(self, f, name):
        m = self.m
        self.fid = name
        self.consts = {}
        self.names = {}
        env = {"R": self.rt}
        rt = self.rt
        env.update(rt.ops)
        np = fn_params(f)
        for i in range(np):
            self.names[get_param(f, i)] = f"a{i}"
        blocks = []
        b = first_bb(f)
        while b:
            blocks.append(b)
            b = next_bb(b)
        bidx = {b: i for i, b in enumerate(blocks)}
        self.succ, self.pd = self.cfg(blocks)
        cnt = 0
        for b in blocks:
            i = first_in(b)
            while i:
                self.names[i] = f"v{cnt}"
                cnt += 1
                i = next_in(i)
        self.env = env
        self.kn = 0
        bodies = []
        for b in blocks:
            bodies.append(self.block(b, bidx))
        out = [f"def fn({', '.join(f'a{i}' for i in range(np))}{', ' if np else ''}*va):"]
        has_alloca = self.has_alloca
        out.append("  sp = R.sp")
        ind = "  "
        out.append("  bb = 0")
        if len(blocks) == 1 and not any("continue" in ln for ln in bodies[0]):
            for ln in bodies[0]:
                out.append(ind + ln)
        else:
            out.append("  while True:")
            self.emit_tree(out, bodies, 0, len(blocks), "    ")
        src = "\n".join(out)
        try:
            code = compile(src, f"<ir {name}>", "exec")
        except (SyntaxError, RecursionError, MemoryError):
            raise
        exec(code, env)
        fn = env["fn"]
        fn._src = src
        fn._nblocks = len(blocks)
        return fn

    has_alloca = False

    def emit_tree(self, out, bodies, lo, hi, ind):
        if hi - lo == 1:
            for ln in bodies[lo]:
                out.append(ind + ln)
            return
        mid = (lo + hi) // 2
        out.append(f"{ind}if bb < {mid}:")
        self.emit_tree(out, bodies, lo, mid, ind + " ")
        out.append(f"{ind}else:")
        self.emit_tree(out, bodies, mid, hi, ind + " ")

    def val(self, v):
        """Python expression for an operand."""
        n = self.names.get(v)
        if n is not None:
            return n
        n = self.consts.get(v)
        if n is not None:
            return n
        c = self.const(v)
        if isinstance(c, int):
            s = repr(c)
        elif isinstance(c, float) and c == c and c not in (float("inf"), float("-inf")):
            s = repr(c)
        else:
            s = f"k{self.kn}"
            self.kn += 1
            self.env[s] = c
        self.consts[v] = s
        return s

    def goto(self, src, dst, bidx):
        """Lines for the edge src->dst: parallel phi assignment and jump."""
        lhs, rhs = [], []
        i = first_in(dst)
        while i and OP[in_op(i)] == "phi":
            for k in range(n_inc(i)):
                if inc_b(i, k) == src:
                    r = self.val(inc_v(i, k))
                    if r != self.names[i]:
                        lhs.append(self.names[i])
                        rhs.append(r)
                    break
            i = next_in(i)
        lines = []
        if lhs:
            lines.append(f"{', '.join(lhs)} = {', '.join(rhs)}")
        lines.append(f"bb = {bidx[dst]}; continue")
        return lines

    def block(self, b, bidx):
        out = []
        i = first_in(b)
        while i:
            op = OP.get(in_op(i), "?")
            if op != "phi":
                self.instr(i, op, b, bidx, out)
            i = next_in(i)
        return out or ["pass"]

    def instr(self, i, op, b, bidx, out):
        m = self.m
        V = self.val
        d = self.names[i]
        if op in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor"):
            ti = m.tinfo(type_of(i))
            x, y = V(get_op(i, 0)), V(get_op(i, 1))
            if ti[0] == "v":
                w = m.tinfo(ti[2])[1]
                out.append(f"{d} = [i_{op}(p, q, {w}) for p, q in zip({x}, {y})]")
            else:
                out.append(f"{d} = i_{op}({x}, {y}, {ti[1]})")
        elif op in ("fadd", "fsub", "fmul", "fdiv", "frem"):
            ti = m.tinfo(type_of(i))
            x, y = V(get_op(i, 0)), V(get_op(i, 1))
            if ti[0] == "v":
                w = m.tinfo(ti[2])[1]
                out.append(f"{d} = [{op}(p, q, {w}) for p, q in zip({x}, {y})]")
            else:
                out.append(f"{d} = {op}({x}, {y}, {ti[1]})")
        elif op == "fneg":
            ti = m.tinfo(type_of(i))
            if ti[0] == "v":
                out.append(f"{d} = [fneg(p) for p in {V(get_op(i, 0))}]")
            else:
                out.append(f"{d} = fneg({V(get_op(i, 0))})")
        elif op == "icmp":
            o0 = get_op(i, 0)
            ti = m.tinfo(type_of(o0))
            p = ICMP[icmp_p(i)]
            if ti[0] == "v":
                w = m.tinfo(ti[2])[1]
                out.append(f"{d} = [icmp_{p}(p, q, {w}) for p, q in zip({V(o0)}, {V(get_op(i, 1))})]")
            else:
                out.append(f"{d} = icmp_{p}({V(o0)}, {V(get_op(i, 1))}, {ti[1]})")
        elif op == "fcmp":
            o0 = get_op(i, 0)
            ti = m.tinfo(type_of(o0))
            p = FCMP[fcmp_p(i)]
            if ti[0] == "v":
                out.append(f"{d} = [fcmp(p, q, '{p}') for p, q in zip({V(o0)}, {V(get_op(i, 1))})]")
            else:
                out.append(f"{d} = fcmp({V(o0)}, {V(get_op(i, 1))}, '{p}')")
        elif op == "select":
            c, x, y = (V(get_op(i, k)) for k in range(3))
            ti = m.tinfo(type_of(i))
            cti = m.tinfo(type_of(get_op(i, 0)))
            if cti[0] == "v":
                out.append(f"{d} = [select(c, p, q) for c, p, q in zip({c}, {x}, {y})]")
            elif ti[0] == "v":
                out.append(f"{d} = [select({c}, p, q) for p, q in zip({x}, {y})]")
            else:
                w = ti[1] if ti[0] in "ipf" else 0
                out.append(f"{d} = select({c}, {x}, {y}, {w})")
        elif op in ("trunc", "zext", "sext"):
            s = m.tinfo(type_of(get_op(i, 0)))
            t = m.tinfo(type_of(i))
            if s[0] == "v":
                sw, tw = m.tinfo(s[2])[1], m.tinfo(t[2])[1]
                out.append(f"{d} = [i_{op}(p, {sw}, {tw}) for p in {V(get_op(i, 0))}]")
            else:
                out.append(f"{d} = i_{op}({V(get_op(i, 0))}, {s[1]}, {t[1]})")
        elif op in ("fptosi", "fptoui", "sitofp", "uitofp", "fptrunc", "fpext"):
            s = m.tinfo(type_of(get_op(i, 0)))
            t = m.tinfo(type_of(i))
            if s[0] == "v":
                sw, tw = m.tinfo(s[2])[1], m.tinfo(t[2])[1]
                out.append(f"{d} = [{op}(p, {sw}, {tw}) for p in {V(get_op(i, 0))}]")
            else:
                out.append(f"{d} = {op}({V(get_op(i, 0))}, {s[1]}, {t[1]})")
        elif op in ("ptrtoint", "inttoptr", "freeze", "addrspacecast"):
            out.append(f"{d} = {V(get_op(i, 0))}")
        elif op == "bitcast":
            s = m.tinfo(type_of(get_op(i, 0)))
            t = m.tinfo(type_of(i))
            if s[0] == t[0] and s[0] in "ipf":
                out.append(f"{d} = {V(get_op(i, 0))}")
            elif s[0] in "ipf" and t[0] in "ipf":
                out.append(f"{d} = bitcast({V(get_op(i, 0))}, '{s[0]}', '{t[0]}', {t[1]})")
            else:
                raise Unsupported("bitcast " + vtext(i))
        elif op == "alloca":
            t = alloc_ty(i)
            n = V(get_op(i, 0))
            self.has_alloca = True
            al = abi_align(m.td, t)
            out.append(f"{d} = R.alloca({m.size(t)} * {n}, {al})")
        elif op == "load":
            t = m.tinfo(type_of(i))
            a = V(get_op(i, 0))
            out.append(f"{d} = {self.load_expr(type_of(i), a)}")
        elif op == "store":
            v, a = get_op(i, 0), get_op(i, 1)
            self.store_lines(type_of(v), V(a), V(v), out)
        elif op == "gep":
            self.gep(i, d, out)
        elif op == "extractvalue":
            n = n_idx(i)
            ix = idxs(i)
            e = V(get_op(i, 0))
            for k in range(n):
                e += f"[{ix[k]}]"
            out.append(f"{d} = {e}")
        elif op == "insertvalue":
            n = n_idx(i)
            ix = [idxs(i)[k] for k in range(n)]
            out.append(f"{d} = insval({V(get_op(i, 0))}, {V(get_op(i, 1))}, {ix})")
        elif op == "extractelement":
            out.append(f"{d} = {V(get_op(i, 0))}[{V(get_op(i, 1))}]")
        elif op == "insertelement":
            out.append(f"{d} = insval({V(get_op(i, 0))}, {V(get_op(i, 1))}, [{V(get_op(i, 2))}])")
        elif op == "shufflevector":
            n = sh_n(i)
            mask = [sh_e(i, k) for k in range(n)]
            mask = [x if x >= 0 else 0 for x in mask]
            out.append(f"_t = list({V(get_op(i, 0))}) + list({V(get_op(i, 1))}); {d} = [_t[q] for q in {mask}]")
        elif op == "br":
            if is_cond(i):
                c = V(get_cond(i))
                mr = self.merge_region(b, i, bidx)
                if mr:
                    out.append(f"if type({c}) is not int and R.want_merge({c}, {self.fid!r}, {bidx[b]}):")
                    out.extend(" " + x for x in mr)
                out.append(f"if R.br({c}):")
                out.extend(" " + x for x in self.goto(b, get_succ(i, 0), bidx))
                out.append("else:")
                out.extend(" " + x for x in self.goto(b, get_succ(i, 1), bidx))
            else:
                out.extend(self.goto(b, get_succ(i, 0), bidx))
        elif op == "switch":
            n = n_ops(i)
            c = V(get_op(i, 0))
            w = m.tinfo(type_of(get_op(i, 0)))[1]
            for k in range(2, n, 2):
                out.append(f"if R.br(icmp_eq({c}, {V(get_op(i, k))}, {w})):")
                out.extend(" " + x for x in self.goto(b, val_bb(get_op(i, k + 1)), bidx))
            out.extend(self.goto(b, sw_def(i), bidx))
        elif op == "ret":
            out.append("R.sp = sp")
            if n_ops(i):
                out.append(f"return {V(get_op(i, 0))}")
            else:
                out.append("return None")
        elif op == "unreachable":
            out.append("R.unreachable()")
        elif op == "call":
            self.call(i, d, out)
        elif op == "invoke":
            nd, ud = norm_dest(i), unw_dest(i)
            out.append("try:")
            sub = []
            self.call(i, d, sub)
            out.extend(" " + x for x in sub)
            out.append("except CxxThrow as _e:")
            out.append(" _exc = _e; R.sp_restore(_e)")
            out.extend(" " + x for x in self.goto(b, ud, bidx))
            out.extend(self.goto(b, nd, bidx))
        elif op == "landingpad":
            n = lp_n(i)
            cl = [self.const(lp_cl(i, k)) if val_kind(lp_cl(i, k)) != VK_CARRAY else 0 for k in range(n)]
            out.append(f"{d} = R.landingpad(_exc, {cl}, {bool(lp_cleanup(i))})")
        elif op == "resume":
            out.append(f"R.resume({V(get_op(i, 0))})")
        elif op == "fence":
            pass
        elif op == "atomicrmw":
            t = m.tinfo(type_of(i))
            a, x = V(get_op(i, 0)), V(get_op(i, 1))
            o = rmw_op(i)
            out.append(f"{d} = {self.load_expr(type_of(i), a)}")
            e = {0: x, 1: f"i_add({d}, {x}, {t[1]})", 2: f"i_sub({d}, {x}, {t[1]})"}[o]
            self.store_lines(type_of(i), a, e, out)
        else:
            raise Unsupported(f"{op}: {vtext(i)[:200]}")

    def load_expr(self, t, a, off=0):
        ti = self.m.tinfo(t)
        aa = f"padd({a}, {off})" if off else a
        if ti[0] in "ip":
            sz = max(1, (ti[1] + 7) // 8)
            return f"R.load({aa}, {sz}, 'i', {ti[1]})"
        if ti[0] == "f":
            return f"R.load({aa}, {ti[1] // 8 if ti[1] != 80 else 16}, 'f', {ti[1]})"
        if ti[0] == "s":
            return "[" + ", ".join(self.load_expr(e, a, off + o) for o, e in ti[1]) + "]"
        if ti[0] in "av":
            s = self.m.size(ti[2])
            return "[" + ", ".join(self.load_expr(ti[2], a, off + k * s) for k in range(ti[1])) + "]"
        raise Unsupported("load")

    def store_lines(self, t, a, v, out, off=0):
        ti = self.m.tinfo(t)
        aa = f"padd({a}, {off})" if off else a
        if ti[0] in "ip":
            sz = max(1, (ti[1] + 7) // 8)
            out.append(f"R.store({aa}, {sz}, {v})")
        elif ti[0] == "f":
            out.append(f"R.store({aa}, {ti[1] // 8 if ti[1] != 80 else 16}, {v})")
        elif ti[0] == "s":
            for k, (o, e) in enumerate(ti[1]):
                self.store_lines(e, a, f"{v}[{k}]", out, off + o)
        elif ti[0] in "av":
            s = self.m.size(ti[2])
            for k in range(ti[1]):
                self.store_lines(ti[2], a, f"{v}[{k}]", out, off + k * s)
        else:
            raise Unsupported("store")

    def gep(self, i, d, out):
        m = self.m
        t = gep_ty(i)
        n = n_ops(i)
        const_off = 0
        terms = []
        for k in range(1, n):
            o = get_op(i, k)
            w = m.tinfo(type_of(o))[1]
            kind = val_kind(o)
            if k > 1:
                ti = m.tinfo(t)
                if ti[0] == "s":
                    c = ci_z(o)
                    const_off += ti[1][c][0]
                    t = ti[1][c][1]
                    continue
                t = ti[2]
            s = m.size(t)
            if kind == VK_CINT:
                c = ci_z(o)
                if c >= 1 << (w - 1):
                    c -= 1 << w
                const_off += c * s
            else:
                terms.append((self.val(o), w, s))
        base = self.val(get_op(i, 0))
        e = base
        for (o, w, s) in terms:
            e = f"pidx({e}, {o}, {w}, {s})"
        if const_off:
            e = f"padd({e}, {const_off})"
        out.append(f"{d} = {e}")

    def call(self, i, d, out):
        m = self.m
        cv = called(i)
        na = n_args(i)
        k = val_kind(cv)
        if k == VK_FUNCTION:
            name = vname(cv)
            if name.startswith("llvm."):
                if name.startswith(("llvm.lifetime", "llvm.dbg", "llvm.assume", "llvm.experimental.noalias",
                                    "llvm.invariant", "llvm.prefetch", "llvm.donothing", "llvm.stackrestore",
                                    "llvm.eh.endcatch")):
                    return
                args = []
                for q in range(na):
                    o = get_op(i, q)
                    if type_kind(type_of(o)) == TK["metadata"]:
                        args.append("None")
                    else:
                        args.append(self.val(o))
                ti = m.tinfo(type_of(i))
                w = ti[1] if ti[0] in "ipf" else 0
                if ti[0] == "s":
                    w = m.tinfo(ti[1][0][1])[1]
                base = ".".join(name.split(".")[1:])
                fnname = self.rt.intrinsic(name)
                self.env[fnname] = self.rt.ops[fnname]
                if ti[0] == "v":
                    ew = m.tinfo(ti[2])[1]
                    out.append(f"{d} = [{fnname}(*_q, w={ew}) for _q in zip({', '.join(args)})]")
                    return
                out.append(f"{d} = {fnname}({', '.join(args)}, w={w})")
                return
            args = [self.val(get_op(i, q)) for q in range(na)]
            key = f"F{len(self.env)}"
            # direct call through a mutable slot so that lazily translated functions get patched in
            slot = self.rt.slot(name)
            key = slot.pyname
            self.env[key] = slot
            out.append(f"{d} = {key}.f({', '.join(args)})")
        else:
            args = [self.val(get_op(i, q)) for q in range(na)]
            out.append(f"{d} = R.call_ptr({self.val(cv)}, ({', '.join(args)}{',' if args else ''}))")
