"""Deciding one query: pc => c."""

import os
import subprocess
import sys
import time

import z3


def _free(e, cache):
    """ids of uninterpreted constants in e."""
    k = e.get_id()
    r = cache.get(k)
    if r is not None:
        return r[0]
    out = set()
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_const(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(i)
        else:
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(("f", x.decl().name()))
            st.extend(x.children())
    cache[k] = (out, e)
    return out


_cache = {}
DEBUG = int(os.environ.get("VERIF_SOLVE_DEBUG", "0"))


def slice_pc(pc, c):
    if len(_cache) > 200000:
        _cache.clear()
    vs = set(_free(c, _cache))
    rest = [(p, _free(p, _cache)) for p in pc]
    keep = []
    changed = True
    while changed:
        changed = False
        nr = []
        for p, f in rest:
            if f & vs:
                keep.append(p)
                vs |= f
                changed = True
            elif not f:
                keep.append(p)
            else:
                nr.append((p, f))
        rest = nr
    return keep, [p for p, _ in rest]


def _kinds(cs):
    """(has UF, has Int, has FP/BV, nonlinear)"""
    seen, st = set(), list(cs)
    uf = it = bv = False
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x):
            if x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                uf = True
            if z3.is_int(x):
                it = True
            if z3.is_bv(x) or z3.is_fp(x):
                bv = True
            st.extend(x.children())
    return uf, it, bv


def _q(stats):
    stats["queries"] = stats.get("queries", 0) + 1


CVC5 = "/usr/bin/cvc5"


def cvc5_check(cs, timeout_ms):
    s = z3.Solver()
    for c in cs:
        s.add(c)
    txt = "(set-logic ALL)\n" + s.to_smt2().replace("(set-info :status unknown)", "")
    try:
        r = subprocess.run(["cvc5", "--lang=smt2", f"--tlimit={timeout_ms}", "-"], input=txt, capture_output=True,
                           text=True, timeout=timeout_ms / 1000 + 5)
    except (subprocess.TimeoutExpired, FileNotFoundError):
        return "unknown"
    out = r.stdout.strip().splitlines()
    if out and out[0] in ("sat", "unsat") and "(error" not in r.stdout:
        return out[0]
    return "unknown"


def _run(s, stats, ms, tag=""):
    s.set("timeout", int(ms))
    _q(stats)
    t = time.time()
    r = s.check()
    if DEBUG and time.time() - t > 1:
        print(f"SLOW {tag} {r} {time.time() - t:.1f}", file=sys.stderr)
        if DEBUG > 1:
            print(s.sexpr()[:int(DEBUG)], file=sys.stderr)
    return r


# --- linear abstraction: every monomial (and quotient) becomes one unknown; unsat of it implies unsat ---

class TooBig(Exception):
    pass


def _numeral(e):
    return z3.is_rational_value(e) or z3.is_int_value(e)


def abstract(cs, limit=6000):
    """Formulas over linear arithmetic implied by cs, or None when too big."""
    inv, mono, memo1, memo2 = {}, {}, {}, {}
    extra = []
    keepalive = []

    def rebuild(e, ch):
        return e.decl()(*ch) if ch else e

    def nodiv(e):  # a/b -> a*inv(b), products distributed over ite
        k = e.get_id()
        if k in memo1:
            return memo1[k]
        if len(memo1) > limit:
            raise TooBig()
        if not z3.is_app(e) or e.num_args() == 0:
            r = e
        else:
            ch = [nodiv(c) for c in e.children()]
            kd = e.decl().kind()
            if kd == z3.Z3_OP_DIV and not _numeral(ch[1]):
                b = z3.simplify(ch[1], som=True)
                v = inv.get(b.get_id())
                if v is None:
                    v = z3.FreshReal("inv")
                    inv[b.get_id()] = v
                    keepalive.append(b)
                    extra.append((b, v))
                r = ch[0] * v
            elif kd == z3.Z3_OP_MUL:
                r = mul(ch, 0)
            else:
                r = rebuild(e, ch)
        memo1[k] = r
        keepalive.append(e)
        return r

    def mul(ch, depth):
        for i, c in enumerate(ch):
            if z3.is_app(c) and c.decl().kind() == z3.Z3_OP_ITE and any(not _numeral(x) for j, x in enumerate(ch) if j != i):
                if depth > 3:
                    break
                a = mul(ch[:i] + [c.arg(1)] + ch[i + 1:], depth + 1)
                b = mul(ch[:i] + [c.arg(2)] + ch[i + 1:], depth + 1)
                return z3.If(c.arg(0), a, b)
        r = ch[0]
        for c in ch[1:]:
            r = r * c
        return r

    def lin(e):
        k = e.get_id()
        if k in memo2:
            return memo2[k]
        if len(memo2) > 4 * limit:
            raise TooBig()
        if not z3.is_app(e) or e.num_args() == 0:
            r = e
        else:
            kd = e.decl().kind()
            if kd in (z3.Z3_OP_MUL, z3.Z3_OP_POWER):
                fs, co = [], []
                st = [e]
                while st:
                    x = st.pop()
                    kx = x.decl().kind() if z3.is_app(x) else None
                    if kx == z3.Z3_OP_MUL:
                        st.extend(x.children())
                    elif kx == z3.Z3_OP_POWER and z3.is_int_value(z3.simplify(z3.ToInt(x.arg(1)))) and \
                            0 < z3.simplify(z3.ToInt(x.arg(1))).as_long() <= 6:
                        st.extend([x.arg(0)] * z3.simplify(z3.ToInt(x.arg(1))).as_long())
                    elif _numeral(x):
                        co.append(x)
                    else:
                        fs.append(lin(x))
                r = None
                if len(fs) == 1:
                    r = fs[0]
                elif fs:
                    key = tuple(sorted(f.get_id() for f in fs))
                    r = mono.get(key)
                    if r is None:
                        r = (z3.FreshInt if z3.is_int(e) else z3.FreshReal)("mono")
                        mono[key] = r
                        keepalive.extend(fs)
                        if len(key) == 2 and key[0] == key[1]:
                            facts.append(r >= 0)
                for c in co:
                    r = c if r is None else c * r
            else:
                r = rebuild(e, [lin(c) for c in e.children()])
        memo2[k] = r
        keepalive.append(e)
        return r
    facts = []
    try:
        a = [z3.simplify(nodiv(c), som=True, som_blowup=1000) for c in cs]
        a += [z3.simplify(b * v == 1, som=True) for b, v in extra]
        keepalive.extend(a)
        return [lin(c) for c in a] + facts
    except (TooBig, z3.Z3Exception):
        return None


def _nonlinear(cs):
    seen, st = set(), list(cs)
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.num_args():
            k = x.decl().kind()
            if k == z3.Z3_OP_MUL and sum(not _numeral(c) for c in x.children()) > 1:
                return True
            if k == z3.Z3_OP_DIV and not _numeral(x.arg(1)):
                return True
            st.extend(x.children())
    return False


def prove(pc, c, timeout_ms, mode, stats):
    neg = z3.simplify(z3.Not(c))
    if z3.is_false(neg):
        return "proved", None
    keep, rest = slice_pc(pc, neg)
    cs = keep + [neg]
    uf, it, bv = _kinds(cs)
    status = z3.unknown
    if not bv and _nonlinear(cs):
        lin = abstract(cs)
        if lin is not None:
            s = z3.Solver()
            s.add(*lin)
            if _run(s, stats, min(timeout_ms, 3000), "lin") == z3.unsat:
                stats["by_linear_abstraction"] = stats.get("by_linear_abstraction", 0) + 1
                return "proved", None
    s = z3.Solver()
    s.add(*cs)
    status = _run(s, stats, min(timeout_ms, 4000) if not bv else timeout_ms)
    if status == z3.unknown and not bv and not uf and not it:
        t = z3.Then("simplify", "propagate-values", "solve-eqs", "purify-arith", "qfnra-nlsat")
        s = t.solver()
        s.add(*cs)
        status = _run(s, stats, timeout_ms / 2)
    if status == z3.unknown and not bv:
        s = z3.Then("simplify", "solve-eqs", "smt").solver()
        s.add(*cs)
        status = _run(s, stats, timeout_ms / 2)
    if status == z3.unknown:
        _q(stats)
        r = cvc5_check(cs, int(timeout_ms))
        stats["cvc5"] = stats.get("cvc5", 0) + 1
        if r == "unsat":
            return "proved", None
    if status == z3.unsat:
        return "proved", None
    if status != z3.sat:
        return "unknown", None
    if not rest:
        return "cex", s.model()
    # complete the model with the independent rest of the path condition
    m1 = s.model()
    s2 = z3.Solver()
    s2.add(*rest)
    st2 = _run(s2, stats, timeout_ms)
    if st2 == z3.unsat:
        return "proved", None        # infeasible path
    if st2 != z3.sat:
        return "unknown", None
    return "cex", Merged(m1, s2.model(), cs)


class Merged:
    def __init__(self, a, b, cs):
        self.a, self.b = a, b
        self.vars = set()
        for c in cs:
            self.vars |= {i for i in _free(c, _cache)}

    def eval(self, v, model_completion=True):
        if v.get_id() in self.vars:
            return self.a.eval(v, model_completion=True)
        return self.b.eval(v, model_completion=True)



def only_inputs(e, ids):
    """e depends on nothing but the inputs (no uninterpreted function, no auxiliary variable)."""
    return all(i in ids for i in _free(e, _cache))
