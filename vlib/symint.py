"""Symbolic execution of Python code over integers: the real functions run on proxies; every branch on a symbolic condition forks."""
import time

from . import smt

z3 = smt.z3
_CUR = []


class PathAbort(Exception):
    """The path is infeasible or beyond the bound."""


class Undecided(Exception):
    pass


class SBool:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return _CUR[-1].branch(self.e)

    def __and__(self, o):
        return SBool(z3.And(self.e, tob(o)))

    __rand__ = __and__

    def __or__(self, o):
        return SBool(z3.Or(self.e, tob(o)))

    __ror__ = __or__

    def __invert__(self):
        return SBool(z3.Not(self.e))


def tob(x):
    if isinstance(x, SBool):
        return x.e
    if isinstance(x, SInt):
        return x.e != 0
    return z3.BoolVal(bool(x))


def bv(x):
    if isinstance(x, SInt):
        return x.e
    if isinstance(x, bool) or isinstance(x, int) or hasattr(x, "__index__"):
        return z3.IntVal(int(x))
    return None


def known(e):
    e = z3.simplify(e)
    return e.as_long() if z3.is_int_value(e) else None


class SInt:
    """A symbolic integer."""
    __slots__ = ("e",)
    __array_priority__ = 1000

    def __init__(self, e):
        self.e = e

    def _2(self, o, f):
        b = bv(o)
        return NotImplemented if b is None else SInt(f(self.e, b))

    def _r(self, o, f):
        b = bv(o)
        return NotImplemented if b is None else SInt(f(b, self.e))

    def __add__(self, o): return self._2(o, lambda a, b: a + b)
    def __radd__(self, o): return self._r(o, lambda a, b: a + b)
    def __sub__(self, o): return self._2(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._r(o, lambda a, b: a - b)
    def __mul__(self, o): return self._2(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._r(o, lambda a, b: a * b)
    def __neg__(self): return SInt(-self.e)
    def __pos__(self): return self

    def __abs__(self):
        return SInt(z3.If(self.e < 0, -self.e, self.e))

    @staticmethod
    def _nz(b):
        if SBool(b == 0):
            raise ZeroDivisionError("division by zero")

    def __floordiv__(self, o):
        b = bv(o)
        if b is None:
            return NotImplemented
        SInt._nz(b)
        return SInt(floordiv(self.e, b))

    def __rfloordiv__(self, o):
        b = bv(o)
        SInt._nz(self.e)
        return SInt(floordiv(b, self.e))

    def __mod__(self, o):
        b = bv(o)
        if b is None:
            return NotImplemented
        SInt._nz(b)
        return SInt(self.e - floordiv(self.e, b) * b)

    def __rmod__(self, o):
        b = bv(o)
        SInt._nz(self.e)
        return SInt(b - floordiv(b, self.e) * self.e)

    def __divmod__(self, o):
        return self // o, self % o

    def __truediv__(self, o):
        b = bv(o)
        if b is None:
            return NotImplemented
        SInt._nz(b)
        return SFrac(self.e, b)

    def __rtruediv__(self, o):
        SInt._nz(self.e)
        return SFrac(bv(o), self.e)

    def _c(self, o, f, none):
        b = bv(o)
        return none if b is None else SBool(f(self.e, b))

    def __eq__(self, o):
        if isinstance(o, float) and o == int(o):
            o = int(o)
        return self._c(o, lambda a, b: a == b, False)

    def __ne__(self, o): return self._c(o, lambda a, b: a != b, True)
    def __lt__(self, o): return self._c(o, lambda a, b: a < b, NotImplemented)
    def __le__(self, o): return self._c(o, lambda a, b: a <= b, NotImplemented)
    def __gt__(self, o): return self._c(o, lambda a, b: a > b, NotImplemented)
    def __ge__(self, o): return self._c(o, lambda a, b: a >= b, NotImplemented)

    def __bool__(self):
        return _CUR[-1].branch(self.e != 0)

    def __hash__(self):
        k = known(self.e)
        if k is None:
            raise Undecided("hash of a symbolic integer")
        return hash(k)

    def __index__(self):
        return _CUR[-1].concretise(self.e)

    __int__ = __index__

    def __format__(self, spec):
        k = known(self.e)
        return f"<{self.e}>" if k is None else format(k, spec)

    def __repr__(self):
        return f"SInt({self.e})"

    def __floor__(self): return self
    def __ceil__(self): return self
    def __round__(self, n=None): return self
    def __trunc__(self): return self


class SFrac:
    """Exact quotient of two symbolic integers (their float quotient rounds to the same integer parts within the bounds)."""

    def __init__(self, n, d):
        self.n, self.d = n, d

    def __floor__(self):
        return SInt(floordiv(self.n, self.d))

    def __ceil__(self):
        return SInt(-floordiv(-self.n, self.d))

    def __trunc__(self):
        n, d = z3.If(self.n < 0, -self.n, self.n), z3.If(self.d < 0, -self.d, self.d)
        return SInt(z3.If((self.n < 0) == (self.d < 0), floordiv(n, d), -floordiv(n, d)))

    __int__ = None

    def __add__(self, o): return SFrac(self.n + bv(o) * self.d, self.d)
    __radd__ = __add__
    def __sub__(self, o): return SFrac(self.n - bv(o) * self.d, self.d)
    def __rsub__(self, o): return SFrac(bv(o) * self.d - self.n, self.d)

    def __mul__(self, o):
        return SFrac(self.n * bv(o), self.d)
    __rmul__ = __mul__

    def _c(self, o, f):
        if isinstance(o, SFrac):
            return SBool(f(self.n * o.d, o.n * self.d))        # positive denominators within the bounds
        b = bv(o)
        return SBool(f(self.n, b * self.d))

    def __eq__(self, o): return self._c(o, lambda a, b: a == b)
    def __ne__(self, o): return self._c(o, lambda a, b: a != b)
    def __lt__(self, o): return self._c(o, lambda a, b: a < b)
    def __le__(self, o): return self._c(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._c(o, lambda a, b: a > b)
    def __ge__(self, o): return self._c(o, lambda a, b: a >= b)

    def __format__(self, spec):
        return "<quotient>"


def floordiv(a, b):
    k = known(b)                 # the quotient of z3 leaves a remainder that is never negative
    if k is not None:
        return a / b if k > 0 else -a / z3.IntVal(-k)
    return z3.If(b > 0, a / b, -a / -b)


class Explorer:
    """Depth-first enumeration of the feasible paths of f()."""

    def __init__(self, pre, max_paths=4000, timeout=30000):
        self.pre = list(pre)
        self.max_paths, self.timeout = max_paths, timeout
        self.solver = z3.Solver()
        self.solver.set("timeout", timeout)
        self.solver.add(*self.pre)
        self.paths = 0
        self.queries = 0

    def sat(self, *es):
        self.queries += 1
        smt.STATS["queries"] += 1
        t0 = time.time()
        r = str(self.solver.check(*es))
        smt.STATS["solver_s"] += time.time() - t0
        smt.STATS[r] = smt.STATS.get(r, 0) + 1
        if r == "unknown":
            raise Undecided("solver timeout")
        return r == "sat"

    def branch(self, e):
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        k = self.k
        self.k += 1
        if k < len(self.plan):
            d = self.plan[k][0]
        else:
            can = self.sat(*self.cond, e)
            cannot = self.sat(*self.cond, z3.Not(e))
            if not can and not cannot:
                raise PathAbort
            d = can
            self.plan.append([d, can and cannot])
        self.cond.append(e if d else z3.Not(e))
        return d

    def concretise(self, e):
        v = known(e)
        while v is None:
            if not self.sat(*self.cond):
                raise PathAbort
            c = self.solver.model().eval(e, model_completion=True)
            if self.branch(e == c):
                v = c.as_long()
        return v

    def run(self, f, after):
        """Run f() on every path; after(path condition, result or None, exception or None)."""
        self.plan = []
        while True:
            self.k = 0
            self.cond = []
            _CUR.append(self)
            res = exc = None
            dead = False
            try:
                try:
                    res = f()
                except (Undecided, smt.Inconclusive):
                    raise
                except PathAbort:
                    dead = True
                except Exception as e:      # noqa: BLE001
                    exc = e
                if not dead:
                    self.paths += 1
                    after(self, list(self.cond), res, exc)
            finally:
                _CUR.pop()
            if self.paths > self.max_paths:
                raise Undecided("too many paths")
            del self.plan[self.k:]
            while self.plan and not self.plan[-1][1]:
                self.plan.pop()
            if not self.plan:
                return
            self.plan[-1] = [not self.plan[-1][0], False]

    def model(self, names):
        m = self.solver.model()
        return {n: m.eval(z3.Int(n), model_completion=True).as_long() for n in names}


def var(name):
    return SInt(z3.Int(name))


def within(x, lo, hi):
    return [x.e >= lo, x.e <= hi]


def symtype(x):
    return int if isinstance(x, SInt) else type(x)
