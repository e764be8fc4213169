"""Hash-consed symbolic terms over the reals (and booleans), with Python/numpy operator overloading.

A value is either a concrete Python float/int (evaluated with IEEE semantics by the caller) or a Term.
"""
from fractions import Fraction
import math
import numbers

_table = {}
_fresh = [0]


class Unsupported(Exception):
    """The engine cannot encode this construct."""


class Term:
    __slots__ = ("op", "args", "id", "isbool", "__weakref__")
    __array_priority__ = 1000.0

    def __init__(self, op, args, i, isbool):
        self.op = op
        self.args = args
        self.id = i
        self.isbool = isbool

    # ---- pickling / hashing: identity based
    def __hash__(self):
        return self.id

    def __repr__(self):
        return to_str(self)

    # ---- arithmetic
    def __add__(self, o): return _arith(add, self, o)
    def __radd__(self, o): return _arith(add, o, self)
    def __sub__(self, o): return _arith(sub, self, o)
    def __rsub__(self, o): return _arith(sub, o, self)
    def __mul__(self, o): return _arith(mul, self, o)
    def __rmul__(self, o): return _arith(mul, o, self)
    def __truediv__(self, o): return _arith(div, self, o)
    def __rtruediv__(self, o): return _arith(div, o, self)
    def __neg__(self): return mul(const(-1), self)
    def __pos__(self): return self

    def __pow__(self, o):
        if isinstance(o, Term):
            if o.op == "c":
                o = o.args[0]
            else:
                return uf("pow", self, o)
        if o == 2:
            return mul(self, self)
        if o == 1:
            return self
        if o == 0:
            return const(1)
        if o == 0.5:
            return uf("sqrt", self)
        if isinstance(o, numbers.Integral) or (isinstance(o, (float, Fraction)) and o == int(o)):
            n = int(o)
            r = const(1)
            for _ in range(abs(n)):
                r = mul(r, self)
            return r if n >= 0 else div(const(1), r)
        return uf("pow", self, lift(o))

    def __rpow__(self, o):
        return uf("pow", lift(o), self)

    def __abs__(self): return ite(ge(self, const(0)), self, mul(const(-1), self))

    # ---- comparisons (symbolic)
    def __lt__(self, o): return cmp_("<", self, o)
    def __le__(self, o): return cmp_("<=", self, o)
    def __gt__(self, o): return cmp_(">", self, o)
    def __ge__(self, o): return cmp_(">=", self, o)
    def __eq__(self, o):
        if o is self:
            return TRUE if not DECIDER[0] else True
        return cmp_("==", self, o)
    def __ne__(self, o): return not_(self.__eq__(o))

    def __and__(self, o): return and_(self, o)
    def __rand__(self, o): return and_(self, o)
    def __or__(self, o): return or_(self, o)
    def __ror__(self, o): return or_(self, o)
    def __invert__(self): return not_(self)
    logical_not = __invert__

    def __bool__(self):
        if self.op == "true":
            return True
        if self.op == "false":
            return False
        d = DECIDER[0]
        if d is None:
            raise Unsupported("truth value of a symbolic term")
        t = self if self.isbool else not_(cmp_("==", self, 0))
        if t is TRUE:
            return True
        if t is FALSE:
            return False
        return d(t)

    def __float__(self):
        if self.op == "c":
            return float(self.args[0])
        raise Unsupported("float() of a symbolic term")

    def __int__(self):
        if self.op == "c":
            return int(self.args[0])
        raise Unsupported("int() of a symbolic term")

    def item(self): return self
    def astype(self, *_a, **_k): return self
    def flatten(self):
        import numpy as np
        return np.array([self], dtype=object)
    def copy(self): return self
    def __deepcopy__(self, memo): return self
    def __copy__(self): return self
    @property
    def shape(self): return ()
    @property
    def ndim(self): return 0

    # numpy calls these on object arrays
    def exp(self): return uf("exp", self)
    def expm1(self): return sub(uf("exp", self), const(1))
    def log(self): return uf("log", self)
    def log1p(self): return uf("log", add(self, const(1)))
    def sqrt(self): return uf("sqrt", self)
    def tanh(self): return uf("tanh", self)
    def sin(self): return uf("sin", self)
    def cos(self): return uf("cos", self)
    def arctan(self): return uf("atan", self)
    def square(self): return mul(self, self)
    def conjugate(self): return self
    def rint(self): return uf("rint", self)
    def floor(self): return uf("floor", self)
    def ceil(self): return uf("ceil", self)
    def fabs(self): return abs(self)
    def isnan(self): return False
    def isinf(self): return False
    def isfinite(self): return True
    def reciprocal(self): return div(const(1), self)
    def sign(self): return ite(gt(self, const(0)), const(1), ite(lt(self, const(0)), const(-1), const(0)))


DECIDER = [None]


def mk(op, args=(), isbool=False):
    key = (op,) + tuple(a.id if isinstance(a, Term) else a for a in args) if op not in ("c",) else ("c", args[0])
    t = _table.get(key)
    if t is None:
        t = Term(op, tuple(args), len(_table), isbool)
        _table[key] = t
    return t


TRUE = mk("true", (), True)
FALSE = mk("false", (), True)


def const(v):
    return mk("c", (v if isinstance(v, Fraction) else Fraction(v),))


ZERO = const(0)
ONE = const(1)
MONE = const(-1)


def var(name):
    return mk("v", (name,))


def fresh(prefix):
    _fresh[0] += 1
    return var(f"{prefix}!{_fresh[0]}")


def lift(v):
    if isinstance(v, Term):
        return v
    if isinstance(v, Fraction):
        return const(v)
    if isinstance(v, bool):
        return TRUE if v else FALSE
    if isinstance(v, numbers.Integral):
        return const(int(v))
    f = float(v)
    if math.isinf(f) or math.isnan(f):
        raise Unsupported(f"non-finite constant {f} in symbolic arithmetic")
    return const(Fraction(f))


def is_term(v):
    return isinstance(v, Term)


def _arith(f, a, b):
    for x in (a, b):
        if hasattr(x, "__array__") and not isinstance(x, Term) and getattr(x, "ndim", 0) > 0:
            return NotImplemented
    try:
        return f(lift(a), lift(b))
    except TypeError:
        return NotImplemented


def add(a, b):
    if a.op == "c":
        if b.op == "c":
            return const(a.args[0] + b.args[0])
        if a.args[0] == 0:
            return b
    elif b.op == "c" and b.args[0] == 0:
        return a
    return mk("+", (a, b))


def sub(a, b):
    if b.op == "c":
        return add(a, const(-b.args[0]))
    if a is b:
        return ZERO
    return add(a, mul(MONE, b))


def mul(a, b):
    if b.op == "c" and a.op != "c":
        a, b = b, a
    if a.op == "c":
        if b.op == "c":
            return const(a.args[0] * b.args[0])
        if a.args[0] == 0:
            return ZERO
        if a.args[0] == 1:
            return b
        if b.op == "*" and b.args[0].op == "c":
            return mul(const(a.args[0] * b.args[0].args[0]), b.args[1])
    return mk("*", (a, b))


def div(a, b):
    if b.op == "c":
        if b.args[0] == 0:
            raise Unsupported("division of a symbolic value by zero")
        return mul(const(1 / b.args[0]), a)
    return mk("/", (a, b))


def _summands(t, limit):
    out = []
    stack = [t]
    while stack:
        x = stack.pop()
        if x.op == "+":
            stack.extend(reversed(x.args))
        else:
            out.append(x)
        if len(out) > limit:
            return None
    return out


def _exp(a):
    """exp with its functional equation applied: exp(k*t) = exp(t)^k for small integers k, exp(s+t) = exp(s)*exp(t)."""
    if a.op == "c":
        if a.args[0] == 0:
            return ONE
        if a.args[0] < 0:
            return div(ONE, mk("u:exp", (const(-a.args[0]),)))
        return mk("u:exp", (a,))
    if a.op == "*" and a.args[0].op == "c":
        k = a.args[0].args[0]
        if k.denominator == 1 and abs(k) <= 4:
            e = _exp(a.args[1])
            r = e
            for _ in range(abs(int(k)) - 1):
                r = mul(r, e)
            return r if k > 0 else div(ONE, r)
        if k < 0:
            return div(ONE, mk("u:exp", (mul(const(-k), a.args[1]),)))
    if a.op == "+":
        ss = _summands(a, 2)
        if ss is not None and not any(x.op == "c" for x in ss):
            r = ONE
            for x in ss:
                r = mul(r, _exp(x))
            return r
    return mk("u:exp", (a,))


def uf(name, *args):
    args = tuple(lift(a) for a in args)
    if name == "exp":
        return _exp(args[0])
    if name == "tanh":
        e = _exp(args[0])
        e2 = mul(e, e)
        return div(sub(e2, ONE), add(e2, ONE))
    if all(a.op == "c" for a in args):
        vals = [a.args[0] for a in args]
        if name == "exp" and vals[0] == 0:
            return ONE
        if name == "tanh" and vals[0] == 0:
            return ZERO
        if name in ("sqrt",) and vals[0] in (0, 1):
            return args[0]
    return mk("u:" + name, args)


def cmp_(op, a, b):
    """Comparison of terms / concrete numbers; returns bool Term or Python bool."""
    if not isinstance(a, Term) and not isinstance(b, Term):
        return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b}[op]
    for x in (a, b):
        if not isinstance(x, Term):
            if x is None or isinstance(x, str):
                if op == "==":
                    return FALSE
            try:
                f = float(x)
            except (TypeError, ValueError):
                return NotImplemented
            if math.isinf(f):
                # symbolic values are finite
                if op == "==":
                    return FALSE
                big = f > 0
                left_is_inf = x is a
                less = (not big) if left_is_inf else big
                return (TRUE if less else FALSE) if op in ("<", "<=") else (FALSE if less else TRUE)
            if math.isnan(f):
                return FALSE
    a, b = lift(a), lift(b)
    if op == ">":
        a, b, op = b, a, "<"
    elif op == ">=":
        a, b, op = b, a, "<="
    if a is b:
        return FALSE if op == "<" else TRUE
    if a.op == "c" and b.op == "c":
        x, y = a.args[0], b.args[0]
        r = {"<": x < y, "<=": x <= y, "==": x == y}[op]
        return TRUE if r else FALSE
    if op == "==" and a.id > b.id:
        a, b = b, a
    return mk(op, (a, b), True)


def lt(a, b): return cmp_("<", a, b)
def le(a, b): return cmp_("<=", a, b)
def gt(a, b): return cmp_(">", a, b)
def ge(a, b): return cmp_(">=", a, b)


def tobool(x):
    if isinstance(x, Term):
        return x if x.isbool else not_(cmp_("==", x, 0))
    return TRUE if x else FALSE


def not_(a):
    a = tobool(a)
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    return mk("not", (a,), True)


def and_(a, b):
    a, b = tobool(a), tobool(b)
    if a is FALSE or b is FALSE:
        return FALSE
    if a is TRUE:
        return b
    if b is TRUE or a is b:
        return a
    return mk("and", (a, b), True)


def or_(a, b):
    a, b = tobool(a), tobool(b)
    if a is TRUE or b is TRUE:
        return TRUE
    if a is FALSE:
        return b
    if b is FALSE or a is b:
        return a
    return mk("or", (a, b), True)


def ite(c, a, b):
    if isinstance(c, Term):
        if c is TRUE:
            return a
        if c is FALSE:
            return b
    elif isinstance(c, bool) or not isinstance(c, Term):
        return a if c else b
    if a is b:
        return a
    if isinstance(a, Term) and a.isbool or isinstance(b, Term) and b.isbool or isinstance(a, bool):
        a, b = tobool(a), tobool(b)
        if a is b:
            return a
        return or_(and_(c, a), and_(not_(c), b))
    a, b = lift(a), lift(b)
    if a is b:
        return a
    if c.op == "not":
        c, a, b = c.args[0], b, a
    return mk("ite", (c, a, b))


def tmax(a, b):
    """max with numpy/C fmax semantics over the reals."""
    if not isinstance(a, Term) and not isinstance(b, Term):
        return a if a >= b else b
    return ite(cmp_(">=", a, b), a, b)


def tmin(a, b):
    if not isinstance(a, Term) and not isinstance(b, Term):
        return a if a <= b else b
    return ite(cmp_("<=", a, b), a, b)


def subterms(roots):
    seen = set()
    out = []
    stack = [(r, False) for r in roots if isinstance(r, Term)]
    while stack:
        t, done = stack.pop()
        if done:
            out.append(t)
            continue
        if t.id in seen:
            continue
        seen.add(t.id)
        stack.append((t, True))
        if t.op not in ("c", "v", "true", "false"):
            for a in t.args:
                if isinstance(a, Term) and a.id not in seen:
                    stack.append((a, False))
    return out


def snap32(roots):
    """The same terms with every constant rounded to single precision."""
    import struct
    new = {}

    def r32(f):
        try:
            return const(Fraction(struct.unpack("f", struct.pack("f", float(f)))[0]))
        except OverflowError:
            return const(f)
    for t in subterms(roots):
        if t.op == "c":
            new[t.id] = r32(t.args[0])
        elif t.op in ("v", "true", "false"):
            new[t.id] = t
        else:
            new[t.id] = mk(t.op, tuple(new[a.id] if isinstance(a, Term) else a for a in t.args), t.isbool)
    return [new[r.id] for r in roots]


def free_vars(roots):
    return {t.args[0] for t in subterms(roots) if t.op == "v"}


_UF = {"exp": math.exp, "log": math.log, "sqrt": math.sqrt, "tanh": math.tanh, "sin": math.sin, "cos": math.cos,
       "atan": math.atan, "floor": math.floor, "ceil": math.ceil, "rint": round, "erf": math.erf,
       "pow": lambda a, b: math.pow(a, b)}


def evaluate(roots, env):
    """Numeric (double) evaluation of terms. env: name -> float (missing: 0)."""
    val = {}
    for t in subterms(roots):
        op = t.op
        if op == "c":
            v = float(t.args[0])
        elif op == "v":
            v = float(env.get(t.args[0], 0.0))
        elif op == "true":
            v = True
        elif op == "false":
            v = False
        else:
            a = [val[x.id] for x in t.args]
            if op == "+":
                v = a[0] + a[1]
            elif op == "*":
                v = a[0] * a[1]
            elif op == "/":
                v = a[0] / a[1] if a[1] != 0 else math.nan
            elif op == "ite":
                v = a[1] if a[0] else a[2]
            elif op == "<":
                v = a[0] < a[1]
            elif op == "<=":
                v = a[0] <= a[1]
            elif op == "==":
                v = a[0] == a[1]
            elif op == "not":
                v = not a[0]
            elif op == "and":
                v = a[0] and a[1]
            elif op == "or":
                v = a[0] or a[1]
            elif op.startswith("u:"):
                try:
                    v = _UF[op[2:]](*a)
                except (ValueError, OverflowError):
                    v = math.nan
            else:
                raise Unsupported(op)
        val[t.id] = v
    return [val[r.id] if isinstance(r, Term) else float(r) for r in roots]


def to_str(t, depth=6):
    if not isinstance(t, Term):
        return repr(t)
    if t.op == "c":
        f = t.args[0]
        return str(f) if f.denominator < 10000 else f"{float(f):.9g}"
    if t.op == "v":
        return t.args[0]
    if t.op in ("true", "false"):
        return t.op
    if depth == 0:
        return "..."
    return "(" + t.op + " " + " ".join(to_str(a, depth - 1) for a in t.args) + ")"
