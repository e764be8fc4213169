"""Symbolic floating point for Python code: proxies for float, numpy.float64 and numpy.float32 over the IEEE theory, branches fork."""
import math
import sys
import time

from . import smt
from .symint import Explorer, SBool, Undecided, _CUR

z3 = smt.z3
F32, F64 = z3.Float32(), z3.Float64()
RNE = z3.RNE()
_DIV = {}


def val(x, sort=F64):
    return z3.FPVal(float(x), sort) if not math.isnan(x) else z3.fpNaN(sort)


def conv(e, sort):
    if e.sort() == sort:
        return e
    return z3.simplify(z3.fpFPToFP(RNE, e, sort))


def division(a, b):
    """The quotient: exact, or (abstract mode) a fresh value of which only the special cases are known."""
    if not DivMode.abstract:
        return z3.fpDiv(RNE, a, b)
    k = (a.get_id(), b.get_id())
    if k not in _DIV:
        q = z3.FP(f"div!{len(_DIV)}", a.sort())
        _DIV[k] = (q, a, b)
    return _DIV[k][0]


def division_facts(used):
    for q, a, b in used:
        yield z3.fpIsNaN(q) == z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b), z3.And(z3.fpIsInf(a), z3.fpIsInf(b)), z3.And(z3.fpIsZero(a), z3.fpIsZero(b)))
        yield z3.Implies(z3.Not(z3.fpIsNaN(q)), z3.fpIsNegative(q) == (z3.Xor(z3.fpIsNegative(a), z3.fpIsNegative(b))))
        yield z3.Implies(z3.And(z3.fpIsInf(a), z3.Not(z3.fpIsNaN(q))), z3.fpIsInf(q))


class DivMode:
    abstract = True


def lit(o):
    """(expression, kind) of an operand, or None."""
    if isinstance(o, SFloat):
        return o.e, o.kind
    import numpy as np
    if isinstance(o, np.float32):
        return val(float(o), F32), "f32"
    if isinstance(o, np.float64):
        return val(float(o)), "f64"
    if isinstance(o, (bool, int)):
        return val(float(o)), "int"
    if isinstance(o, float):
        return val(o), "py"
    return None


def ordered(a, b):
    """Addition and multiplication commute (every NaN is the same one)."""
    return (a, b) if str(a) <= str(b) else (b, a)


def magnitude(e):
    """|e|, the same for x - y and y - x."""
    while z3.is_fp(e) and e.num_args() == 1 and e.decl().kind() in (z3.Z3_OP_FPA_NEG, z3.Z3_OP_FPA_ABS):
        e = e.arg(0)
    if e.num_args() == 3 and e.decl().kind() == z3.Z3_OP_FPA_SUB:
        x, y = ordered(e.arg(1), e.arg(2))
        e = z3.fpSub(RNE, x, y)
    return z3.fpAbs(e)


class SFloat:
    """A symbolic float. kind: py (float), f64, f32 (numpy scalars of numpy 1.26)."""
    __slots__ = ("e", "kind")
    __array_priority__ = 1000
    __array_ufunc__ = None

    def __init__(self, e, kind="py"):
        self.e, self.kind = e, kind

    def _arith(self, o, f, swap=False, div=False):
        p = lit(o)
        if p is None:
            return NotImplemented
        b, kb = p
        kinds = {self.kind, kb}
        kind = "f32" if kinds == {"f32"} else "py" if kinds <= {"py", "int"} else "f64"
        sort = F32 if kind == "f32" else F64
        x, y = conv(self.e, sort), conv(b, sort)
        if swap:
            x, y = y, x
        if div and kind == "py" and SBool(z3.fpIsZero(y)):
            raise ZeroDivisionError("float division by zero")
        return SFloat(f(x, y), kind)

    def __add__(self, o): return self._arith(o, lambda a, b: z3.fpAdd(RNE, *ordered(a, b)))
    def __radd__(self, o): return self._arith(o, lambda a, b: z3.fpAdd(RNE, *ordered(a, b)), True)
    def __sub__(self, o): return self._arith(o, lambda a, b: z3.fpSub(RNE, a, b))
    def __rsub__(self, o): return self._arith(o, lambda a, b: z3.fpSub(RNE, a, b), True)
    def __mul__(self, o): return self._arith(o, lambda a, b: z3.fpMul(RNE, *ordered(a, b)))
    def __rmul__(self, o): return self._arith(o, lambda a, b: z3.fpMul(RNE, *ordered(a, b)), True)
    def __truediv__(self, o): return self._arith(o, division, div=True)
    def __rtruediv__(self, o): return self._arith(o, division, True, div=True)
    def __neg__(self): return SFloat(z3.fpNeg(self.e), self.kind)
    def __pos__(self): return self
    def __abs__(self): return SFloat(magnitude(self.e), self.kind)

    def _cmp(self, o, f, none=NotImplemented):
        p = lit(o)
        if p is None:
            return none
        sort = F32 if self.kind == "f32" and p[1] == "f32" else F64
        return SBool(f(conv(self.e, sort), conv(p[0], sort)))

    def __eq__(self, o): return self._cmp(o, z3.fpEQ, False)
    def __ne__(self, o): return self._cmp(o, lambda a, b: z3.Not(z3.fpEQ(a, b)), True)
    def __lt__(self, o): return self._cmp(o, z3.fpLT)
    def __le__(self, o): return self._cmp(o, z3.fpLEQ)
    def __gt__(self, o): return self._cmp(o, z3.fpGT)
    def __ge__(self, o): return self._cmp(o, z3.fpGEQ)
    __hash__ = None

    def __bool__(self):
        return _CUR[-1].branch(z3.Not(z3.fpIsZero(self.e)))

    def __float__(self):
        raise Undecided("a symbolic float is used as a number by native code")

    __int__ = __index__ = __float__

    def item(self):
        return SFloat(conv(self.e, F64), "py")

    def is_integer(self):
        raise Undecided("is_integer of a symbolic float")

    def __format__(self, spec):
        return "<float>"

    __repr__ = __str__ = lambda self: "<float>"


def isnan(x):
    return SBool(z3.fpIsNaN(x.e)) if isinstance(x, SFloat) else math.isnan(x)


def isinf(x):
    return SBool(z3.fpIsInf(x.e)) if isinstance(x, SFloat) else math.isinf(x)


def isfinite(x):
    return SBool(z3.Not(z3.Or(z3.fpIsNaN(x.e), z3.fpIsInf(x.e)))) if isinstance(x, SFloat) else math.isfinite(x)


class Tokens:
    """Texts standing for symbolic numbers."""

    def __init__(self):
        self.of = {}

    def new(self, name, e):
        self.of[name] = e
        return name

    def find(self, text):
        return self.of.get(text.strip())


def shim_float(tokens):
    class Meta(type):
        def __instancecheck__(cls, x):
            return isinstance(x, float) or isinstance(x, SFloat) and x.kind in ("py", "f64")

        def __getattr__(cls, n):
            return getattr(float, n)

        def __call__(cls, x=0.0):
            if isinstance(x, SFloat):
                return SFloat(conv(x.e, F64), "py")
            if isinstance(x, str) and tokens.find(x) is not None:
                raise ValueError(f"could not convert string to float: {x!r}")        # the texts are hexadecimal
            return float(x)

        @staticmethod
        def fromhex(s):
            e = tokens.find(s)
            return SFloat(e, "py") if e is not None else float.fromhex(s)

    class Float(metaclass=Meta):
        pass
    return Float


class Shim:
    """A module with some functions replaced."""

    def __init__(self, mod, **over):
        self.__dict__["_m"] = mod
        self.__dict__.update(over)

    def __getattr__(self, n):
        return getattr(self._m, n)


def shim_math():
    return Shim(math, isnan=isnan, isinf=isinf, isfinite=isfinite, fabs=lambda x: abs(x) if isinstance(x, SFloat) else math.fabs(x))


def shim_np(tokens):
    import numpy as np

    def kind(real, k, sort):
        class Meta(type):
            def __instancecheck__(cls, x):
                return isinstance(x, real) or isinstance(x, SFloat) and x.kind == k

            def __getattr__(cls, n):
                return getattr(real, n)

            def __call__(cls, x=0.0):
                return SFloat(conv(x.e, sort), k) if isinstance(x, SFloat) else real(x)

        class Scalar(metaclass=Meta):
            pass
        return Scalar

    def un(sym, real):
        return lambda x, *a, **k: sym(x) if isinstance(x, SFloat) else real(x, *a, **k)
    return Shim(np, float32=kind(np.float32, "f32", F32), float64=kind(np.float64, "f64", F64), isnan=un(isnan, np.isnan), isinf=un(isinf, np.isinf),
                isfinite=un(isfinite, np.isfinite), abs=un(abs, np.abs), absolute=un(abs, np.absolute), fabs=un(abs, np.fabs))


class FPExplorer(Explorer):
    """Every query in a fresh bit-blasting solver; cached."""

    def __init__(self, pre, group=lambda name: name, **kw):
        """group: the group of independent inputs a symbol belongs to."""
        super().__init__(pre, **kw)
        self.group = group
        self.cache = {}
        self.last = None
        self.pool = []
        self.memo, self.keep, self.cuts = {}, [], {}

    def branch(self, e):
        """Feasibility is decided exactly within one group of inputs; conditions that link groups are decided on
        their order only (their operands cut to fresh values), so a path may be infeasible: callers check again."""
        e = z3.simplify(e)
        if z3.is_true(e) or z3.is_false(e):
            return z3.is_true(e)
        n = z3.simplify(z3.Not(e))
        for c in self.cond:                      # already decided on this path
            if c.eq(e):
                return True
            if c.eq(n) or c.num_args() and c.decl().kind() == z3.Z3_OP_NOT and c.arg(0).eq(e):
                return False
        k = self.k
        self.k += 1
        if k < len(self.plan):
            d = self.plan[k][0]
        else:
            g = self.groups(e)
            if len(g) <= 1:
                near = [c for c in self.cond if self.groups(c) <= g]
            else:
                near = [self.cut(c) for c in self.cond]
            f = (lambda x: x) if len(g) <= 1 else self.cut
            bare = len(g) > 1
            can = self.sat(*near, f(e), bare=bare)
            cannot = self.sat(*near, f(n), bare=bare)
            if not can and not cannot:
                from .symint import PathAbort
                raise PathAbort
            d = can
            self.plan.append([d, can and cannot])
        self.cond.append(e if d else n)
        return d

    def groups(self, e):
        i = e.get_id()
        r = self.memo.get(i)
        if r is None:
            if e.num_args() == 0:
                if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    q = next((q for q in _DIV.values() if q[0].eq(e)), None)
                    r = frozenset([self.group(str(e))]) if q is None else self.groups(q[1]) | self.groups(q[2])
                else:
                    r = frozenset()
            else:
                r = frozenset().union(*[self.groups(c) for c in e.children()])
            self.memo[i] = r
            self.keep.append(e)
        return r

    def possible(self, cond, e, before=None):
        """Is e possible on this path: by order alone, then exactly."""
        e = z3.simplify(e)
        if z3.is_false(e):
            return False
        link = [self.cut(c) for c in [*cond, e]]
        for t in self.operands(e):               # values that are never NaN here
            g = self.groups(t)
            if len(g) == 1 and not self.sat(*[c for c in cond if self.groups(c) <= g], z3.fpIsNaN(t)):
                link.append(z3.Not(z3.fpIsNaN(self.cut(t))))
        if not self.sat(*link, bare=True):
            return False
        if before:
            before()
        return self.sat(*cond, e)

    def easy(self, cond, inputs, ms=4000):
        """A model of the conditions among inputs of few significant bits, if one is found quickly; none proves nothing."""
        es = [*cond, *division_facts(self.quotients(cond))] if DivMode.abstract else cond
        for lo, hi in ((0, 49), (10, 51)):
            s = z3.Tactic("qffp").solver()
            s.set("timeout", ms)
            s.add(*self.pre, *es, *[z3.Extract(hi - 1, lo, z3.fpToIEEEBV(e)) == 0 for e in inputs])
            self.queries += 1
            smt.STATS["queries"] += 1
            t0 = time.time()
            r = str(s.check())
            smt.STATS["solver_s"] += time.time() - t0
            smt.STATS[r] = smt.STATS.get(r, 0) + 1
            if r == "sat":
                yield s.model()

    def operands(self, e):
        if z3.is_fp(e):
            return [] if z3.is_fp_value(e) else [e]
        return [t for c in e.children() for t in self.operands(c)] if not z3.is_fprm(e) else []

    def quotients(self, es):
        seen, out, todo = set(), [], list(es)
        while todo:
            e = todo.pop()
            if e.get_id() in seen:
                continue
            seen.add(e.get_id())
            todo += e.children()
            if e.num_args() == 0 and z3.is_fp(e) and not z3.is_fp_value(e) and str(e).startswith("div!"):
                q = next(q for q in _DIV.values() if q[0].eq(e))
                out.append(q)
                todo += q[1:]
        return out

    def cut(self, e):
        """The condition with every computed value replaced by a free one."""
        if z3.is_fp(e):
            if e.num_args() == 0 or z3.is_fp_value(e):
                return e
            i = e.get_id()
            if i not in self.cuts:
                self.cuts[i] = z3.FP(f"cut!{len(self.cuts)}", e.sort())
                self.keep.append(e)
            return self.cuts[i]
        if e.num_args() == 0 or z3.is_fprm(e):
            return e
        return e.decl()(*[self.cut(c) for c in e.children()])

    def sat(self, *es, bare=False):
        if DivMode.abstract and not bare:
            es = (*es, *division_facts(self.quotients(es)))
        key = tuple(sorted(e.get_id() for e in es))
        if key in self.cache:
            self.last = self.cache[key][1]
            return self.cache[key][0]
        for m in self.pool[-12:]:                # a known model may satisfy the query
            if all(z3.is_true(m.eval(e, model_completion=True)) for e in es):
                self.last = m
                return True
        s = z3.Tactic("qffp").solver()
        s.set("timeout", self.timeout)
        s.add(*self.pre)
        s.add(*es)
        self.queries += 1
        smt.STATS["queries"] += 1
        t0 = time.time()
        r = str(s.check())
        smt.STATS["solver_s"] += time.time() - t0
        smt.STATS[r] = smt.STATS.get(r, 0) + 1
        if r == "unknown":
            raise Undecided("solver timeout")
        self.last = s.model() if r == "sat" else None
        self.cache[key] = (r == "sat", self.last, es)
        if self.last is not None:
            self.pool.append(self.last)
        return r == "sat"


def as_float(m, e):
    v = m.eval(e, model_completion=True)
    v = z3.simplify(z3.fpToIEEEBV(v)) if not z3.is_true(z3.simplify(z3.fpIsNaN(v))) else None
    if v is None:
        return math.nan
    import struct
    return struct.unpack("<d", struct.pack("<Q", v.as_long()))[0] if v.size() == 64 else struct.unpack("<f", struct.pack("<I", v.as_long()))[0]


assert sys.float_info.mant_dig == 53
