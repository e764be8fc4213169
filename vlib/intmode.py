"""Machine integers as exact polynomials.

A symbolic n-bit integer is a polynomial with integer coefficients over atoms, understood modulo 2^n. Ring operations act
on the polynomial; an operation that is not one (comparison, right shift, widening) first reduces it to the signed range,
which is the identity when the value is known to fit, and a `wrap` atom otherwise. The remaining questions go to Z3."""
import contextlib
import operator

import numpy as np

from . import llvmexec as L
from . import terms as T
from .smt import z3
from .terms import Term, Unsupported

ATOMS = {}          # key -> id
INFO = []           # id -> (key, lo, hi)
KNOWN = {}          # polynomial key -> bits it is assumed to fit in


def reset():
    ATOMS.clear()
    del INFO[:]
    KNOWN.clear()


def atom(key, lo, hi):
    i = ATOMS.get(key)
    if i is None:
        i = ATOMS[key] = len(INFO)
        INFO.append((key, lo, hi))
    return i


class Poly:
    """{monomial: coefficient}; a monomial is a sorted tuple of atom numbers."""
    __slots__ = ("d", "k")

    def __init__(self, d):
        self.d = {m: c for m, c in d.items() if c}
        self.k = tuple(sorted(self.d.items()))

    def __add__(self, o):
        d = dict(self.d)
        for m, c in o.d.items():
            d[m] = d.get(m, 0) + c
        return Poly(d)

    def __neg__(self):
        return Poly({m: -c for m, c in self.d.items()})

    def __sub__(self, o):
        return self + -o

    def __mul__(self, o):
        d = {}
        for m, c in self.d.items():
            for n, e in o.d.items():
                k = tuple(sorted(m + n))
                d[k] = d.get(k, 0) + c * e
        return Poly(d)

    def const(self):
        if not self.d:
            return 0
        if len(self.d) == 1 and () in self.d:
            return self.d[()]
        return None

    def interval(self):
        """Bounds of the value (of the part of it that is assumed in range)."""
        lo = hi = 0
        for m, c in self.d.items():
            a = b = 1
            for v in m:
                _, l, h = INFO[v]
                q = (a * l, a * h, b * l, b * h)
                a, b = min(q), max(q)
            lo, hi = lo + min(c * a, c * b), hi + max(c * a, c * b)
        b = KNOWN.get(self.k)
        return (lo, hi) if b is None else (max(lo, -(1 << b - 1)), min(hi, (1 << b - 1) - 1))


def num(v):
    return Poly({(): int(v)})


def var(name, bits=16):
    return Poly({(atom(("var", name), -(1 << bits - 1), (1 << bits - 1) - 1),): 1})


def wrap_int(v, n):
    v &= (1 << n) - 1
    return v - (1 << n) if v >> (n - 1) else v


def unwrapped(p, n):
    """p without inner wraps to at least n bits: congruent modulo 2^n."""
    out = num(0)
    for m, c in p.d.items():
        t = num(c)
        for v in m:
            key = INFO[v][0]
            t = t * (unwrapped(Poly(dict(key[2])), n) if key[0] == "wrap" and key[1] >= n else Poly({(v,): 1}))
        out = out + t
    return out


def reduce(p, n):
    """The signed n-bit value of p."""
    c = p.const()
    if c is not None:
        return num(wrap_int(c, n))
    if KNOWN.get(p.k, 1000) <= n:
        return p
    lo, hi = p.interval()
    if -(1 << n - 1) <= lo and hi < 1 << n - 1:
        return p
    q = unwrapped(p, n)
    if q.k != p.k:
        return reduce(q, n)
    return Poly({(atom(("wrap", n, p.k), -(1 << n - 1), (1 << n - 1) - 1),): 1})


def floordiv(p, m):
    """floor(p / m) of an exact value and a positive constant."""
    c = p.const()
    if c is not None:
        return num(c // m)
    if m == 1:
        return p
    lo, hi = p.interval()
    return Poly({(atom(("div", m, p.k), lo // m, hi // m),): 1})


def shift(p, s):
    return floordiv(p, 1 << s)


def quotient(p, c):
    """p / c rounded towards zero, of exact values."""
    if c < 0:
        return -quotient(p, -c)
    lo, hi = p.interval()
    if lo >= 0:
        return floordiv(p, c)
    if hi <= 0:
        return -floordiv(-p, c)
    return ite(compare("<", p, num(0)), -floordiv(-p, c), floordiv(p, c))


def unsigned(p, n):
    p = reduce(p, n)
    return p if p.interval()[0] >= 0 else ite(compare("<", p, num(0)), p + num(1 << n), p)


BOOLS = {}


def compare(op, p, q):
    """op in < <= == of exact values: a term (or a boolean)."""
    d = p - q
    c = d.const()
    if c is not None:
        return {"<": operator.lt, "<=": operator.le, "==": operator.eq}[op](c, 0)
    lo, hi = d.interval()
    if op == "<" and hi < 0 or op == "<=" and hi <= 0:
        return True
    if op == "<" and lo >= 0 or op == "<=" and lo > 0 or op == "==" and (lo > 0 or hi < 0):
        return False
    t = T.mk("ib:" + op + repr(d.k), (), True)
    BOOLS[t.id] = (op, d)
    return t


def ite(c, p, q):
    if not isinstance(c, Term):
        return p if c else q
    if c is T.TRUE or p.k == q.k:
        return p
    if c is T.FALSE:
        return q
    if c.op == "not":
        return ite(c.args[0], q, p)
    keep(c)
    if c.id in BOOLS:
        # d < 0 ? p : q with p - q = +-d is a minimum or a maximum, whichever way it is written
        op, d = BOOLS[c.id]
        if op in ("<", "<="):
            e = p - q
            for s, f in ((d, "min"), (-d, "max")):
                if e.k == s.k:
                    return extremum(f, p, q)
    pl, ph = p.interval()
    ql, qh = q.interval()
    return Poly({(atom(("ite", c.id, p.k, q.k), min(pl, ql), max(ph, qh)),): 1})


def extremum(f, p, q):
    if p.k == q.k:
        return p
    cp, cq = p.const(), q.const()
    if cp is not None and cq is not None:
        return num({"min": min, "max": max}[f](cp, cq))
    if p.k > q.k:
        p, q = q, p
    (pl, ph), (ql, qh) = p.interval(), q.interval()
    g = {"min": min, "max": max}[f]
    if f == "max" and pl >= qh or f == "min" and ph <= ql:
        return p
    if f == "max" and ql >= ph or f == "min" and qh <= pl:
        return q
    return Poly({(atom((f, p.k, q.k), g(pl, ql), g(ph, qh)),): 1})


# --------------------------------------------------------------- the C side
class CMode:
    """Integer operations of the LLVM executor."""

    @staticmethod
    def lift(x):
        if isinstance(x, Poly):
            return x
        if isinstance(x, Term) and x.isbool:
            return ite(x, num(1), num(0))
        if isinstance(x, bool) or type(x) is int:
            return num(x)
        raise Unsupported(f"integer operand {x!r}")

    def binop(self, op, x, y, n):
        if n == 1 and op in ("and", "or", "xor"):
            x, y = T.tobool(x), T.tobool(y)
            return {"and": T.and_, "or": T.or_, "xor": lambda a, b: T.ite(a, T.not_(b), b)}[op](x, y)
        p, q = self.lift(x), self.lift(y)
        if op == "add":
            return p + q
        if op == "sub":
            return p - q
        if op == "mul":
            return p * q
        c = q.const()
        if c is not None and 0 <= c < n:
            if op == "shl":
                return p * num(1 << c)
            if op == "ashr":
                return shift(reduce(p, n), c)
            if op == "lshr":
                return shift(unsigned(p, n), c)
        if c:
            if op in ("sdiv", "srem"):
                p = reduce(p, n)
                d = quotient(p, wrap_int(c, n))
                return d if op == "sdiv" else p - d * num(wrap_int(c, n))
            if op in ("udiv", "urem"):
                p, c = unsigned(p, n), c & ((1 << n) - 1)
                return floordiv(p, c) if op == "udiv" else p - floordiv(p, c) * num(c)
        for u, v in ((p, c), (q, p.const())):
            if v is not None and op in ("and", "or", "xor"):
                v &= (1 << n) - 1
                if op == "and" and v & (v + 1) == 0:                # the low bits
                    return reduce(u, n) - shift(reduce(u, n), v.bit_length()) * num(v + 1)
                if op == "xor" and v == (1 << n) - 1:
                    return num(-1) - u
                if op == "or" and v == 0:
                    return u
        raise Unsupported(f"{op} on symbolic integers")

    def icmp(self, pred, x, y, n):
        if n == 1:
            x, y = T.tobool(x), T.tobool(y)
            eq = T.ite(x, y, T.not_(y))
            return eq if pred == "eq" else T.not_(eq)
        p, q = reduce(self.lift(x), n), reduce(self.lift(y), n)
        if pred in ("eq", "ne"):
            r = compare("==", p, q)
            return (T.not_(r) if isinstance(r, Term) else int(not r)) if pred == "ne" else (r if isinstance(r, Term) else int(r))
        if pred[0] != "s":
            raise Unsupported("unsigned comparison of symbolic integers")
        r = {"slt": lambda: compare("<", p, q), "sle": lambda: compare("<=", p, q),
             "sgt": lambda: compare("<", q, p), "sge": lambda: compare("<=", q, p)}[pred]()
        return r if isinstance(r, Term) else int(r)

    def cast(self, name, x, n1, n2):
        if isinstance(x, Term) and n1 == 1:
            return x if n2 == 1 else ite(x, num(1 if name == "zext" else -1), num(0))
        if name == "trunc":
            if n2 == 1:
                raise Unsupported("truncation of a symbolic integer to a bit")
            return x
        if name == "sext":
            return reduce(self.lift(x), n1)
        return unsigned(self.lift(x), n1)

    def sitofp(self, x, n):
        raise Unsupported("float of a symbolic integer")

    def merge(self, c, a, b):
        if isinstance(a, (Poly, int)) and isinstance(b, (Poly, int)):
            return ite(c, self.lift(a), self.lift(b))
        raise Unsupported(f"merge of {a!r} and {b!r}")


@contextlib.contextmanager
def c_mode():
    old, L.INTMODE[0] = L.INTMODE[0], CMode()
    try:
        yield
    finally:
        L.INTMODE[0] = old


# --------------------------------------------------------------- the Python side
class IV:
    """Element of a symbolic numpy integer array: polynomial and width."""
    __slots__ = ("p", "n")

    def __init__(self, p, n):
        self.p, self.n = p, n

    def value(self):
        return reduce(self.p, self.n)

    def to(self, n):
        return IV(self.p if n <= self.n else self.value(), n)

    def item(self):
        return self

    def __str__(self):
        raise Unsupported("printing a symbolic integer")

    def __float__(self):
        raise Unsupported("float of a symbolic integer")

    __int__ = __index__ = __bool__ = __float__
    __hash__ = None


def width(dt):
    dt = np.dtype(dt)
    if dt.kind == "i":
        return dt.itemsize * 8
    if dt == object:
        return None
    raise Unsupported(f"conversion of symbolic integers to {dt}")


def pair(a, b):
    """Both operands at numpy's common type."""
    def n(v):
        if isinstance(v, IV):
            return v.n
        if isinstance(v, np.integer):
            return v.dtype.itemsize * 8
        if isinstance(v, (int, bool)):
            return None
        if isinstance(v, (float, np.floating)) and float(v).is_integer() and abs(v) < 1 << 31:
            return 54 if isinstance(v, (float, np.float64)) else 25       # exact integers of the floating-point type
        raise Unsupported(f"operand {v!r} of an integer operation")
    na, nb = n(a), n(b)
    k = max(x for x in (na, nb, 8) if x is not None)

    def up(v):
        if isinstance(v, IV):
            return v.to(k)
        if not -(1 << k - 1) <= int(v) < 1 << k - 1:
            raise Unsupported("integer constant out of range")
        return IV(num(int(v)), k)
    return up(a), up(b), k


def _ring(op):
    def f(a, b):
        x, y, k = pair(a, b)
        return IV(op(x.p, y.p), k)
    return f


def _ext(name):
    def f(a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, (float, np.floating)) and np.isinf(x) and (x < 0) == (name == "max"):
                return y.to(54) if isinstance(y, IV) else y
        x, y, k = pair(a, b)
        return IV(extremum(name, x.value(), y.value()), k)
    return f


def _rel(op, neg=False, swap=False):
    def f(a, b):
        x, y, _ = pair(a, b)
        p, q = x.value(), y.value()
        r = compare(op, *((q, p) if swap else (p, q)))
        return (T.not_(r) if isinstance(r, Term) else not r) if neg else r
    return f


def _shr(a, b):
    if isinstance(b, IV):
        raise Unsupported("shift by a symbolic count")
    b = int(b)
    return IV(shift(a.value(), b), a.n) if isinstance(a, IV) else a >> b


def _shl(a, b):
    if isinstance(b, IV):
        raise Unsupported("shift by a symbolic count")
    return IV(a.p * num(1 << int(b)), a.n) if isinstance(a, IV) else a << int(b)


def _div(a, b):
    if isinstance(b, IV) or int(b) <= 0:
        raise Unsupported("division by a symbolic or negative integer")
    return IV(floordiv(a.value(), int(b)), a.n) if isinstance(a, IV) else a // b


def _abs(a):
    v = a.value()
    return IV(extremum("max", v, -v), a.n)


def _and(a, b):
    return T.and_(T.tobool(a), T.tobool(b))


FUNCS = {"add": _ring(operator.add), "subtract": _ring(operator.sub), "multiply": _ring(operator.mul),
         "maximum": _ext("max"), "minimum": _ext("min"), "right_shift": _shr, "left_shift": _shl,
         "less": _rel("<"), "less_equal": _rel("<="), "greater": _rel("<", swap=True), "greater_equal": _rel("<=", swap=True),
         "equal": _rel("=="), "not_equal": _rel("==", neg=True),
         "negative": lambda a: IV(-a.p, a.n), "floor_divide": _div, "absolute": _abs, "positive": lambda a: a, "logical_and": _and}


def plain(x):
    if isinstance(x, np.ndarray):
        return np.ndarray.view(x, np.ndarray)
    if isinstance(x, (list, tuple)):
        return type(x)(plain(i) for i in x)
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    return x


def box(x):
    if isinstance(x, np.ndarray) and x.dtype == object:
        return x.view(IArr)
    if isinstance(x, (list, tuple)) and any(isinstance(i, np.ndarray) for i in x):
        return type(x)(box(i) for i in x)
    return x


def cast(a, dt):
    n = width(dt)
    if n is None:
        return box(plain(a).copy())

    def one(v):
        if isinstance(v, IV):
            return v.to(n)
        if isinstance(v, (int, np.integer)):
            return np.dtype(dt).type(wrap_int(int(v), n))
        raise Unsupported(f"cast of {v!r}")
    return box(np.frompyfunc(one, 1, 1)(plain(a)) if plain(a).ndim else plain(a))


class IArr(np.ndarray):
    """Array of symbolic integers."""
    __array_priority__ = 3000.0

    def __array_finalize__(self, obj):
        pass

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        dt = kw.pop("dtype", None)
        kw.pop("casting", None)
        if kw.pop("where", True) is not True:
            raise Unsupported("ufunc where=")
        ins = [plain(i) for i in inputs]
        if dt is not None and width(dt) is not None and ufunc.__name__ not in ("equal", "not_equal"):
            ins = [plain(cast(np.asarray(i), dt)) for i in ins]
        name = ufunc.__name__
        if method == "__call__":
            if name == "matmul":
                r = matmul(*ins)
            elif name in FUNCS:
                r = np.frompyfunc(FUNCS[name], ufunc.nin, 1)(*ins)
            else:
                raise Unsupported("integer ufunc " + name)
            if out is not None:
                o = out[0]
                if plain(o).dtype != object:
                    raise Unsupported("symbolic integers written to a numeric array")
                w = plain(o).reshape(-1)
                r = np.broadcast_to(r, o.shape)
                k = [v.n for v in w if isinstance(v, IV)]
                plain(o)[...] = np.frompyfunc(lambda v: v.to(k[0]) if k and isinstance(v, IV) else v, 1, 1)(r)
                return o
            return box(r)
        if method == "reduce" and name in FUNCS:
            return fold(FUNCS[name], ins[0], kw.get("axis", 0), kw.get("keepdims", False))
        raise Unsupported(f"integer ufunc {name}.{method}")

    def __array_function__(self, func, types_, args, kwargs):
        if func.__name__ in REDUCERS:
            a = args[0]
            axis = kwargs.get("axis", args[1] if len(args) > 1 else None)
            return fold(REDUCERS[func.__name__], plain(a), axis, kwargs.get("keepdims", False))
        if func.__name__ in ("maximum", "minimum", "where", "mean", "round", "around", "clip", "exp"):
            raise Unsupported("integer function " + func.__name__)
        return box(func(*plain(args), **plain(kwargs)))

    def astype(self, dtype=None, order="K", casting="unsafe", subok=True, copy=True):
        return cast(self, dtype)

    def all(self, axis=None, **kw):
        r = T.TRUE
        for v in plain(self).reshape(-1):
            r = _and(r, v)
        return r

    def max(self, axis=None, out=None, keepdims=False, **kw): return fold(FUNCS["maximum"], plain(self), axis, keepdims)
    def min(self, axis=None, out=None, keepdims=False, **kw): return fold(FUNCS["minimum"], plain(self), axis, keepdims)

    def dot(self, b, out=None):
        raise Unsupported("dot of symbolic integers")


REDUCERS = {"max": FUNCS["maximum"], "amax": FUNCS["maximum"], "min": FUNCS["minimum"], "amin": FUNCS["minimum"]}


def fold(f, a, axis, keepdims):
    a = np.asarray(a, dtype=object)
    axes = tuple(range(a.ndim)) if axis is None else tuple(x % a.ndim for x in (axis if isinstance(axis, tuple) else (axis,)))
    rest = [i for i in range(a.ndim) if i not in axes]
    b = a.transpose(rest + list(axes)).reshape([a.shape[i] for i in rest] + [-1])
    out = np.empty(b.shape[:-1], dtype=object)
    for i in np.ndindex(*b.shape[:-1]):
        r = b[i][0]
        for v in b[i][1:]:
            r = f(r, v)
        out[i] = r
    if keepdims:
        out = out.reshape([1 if i in axes else a.shape[i] for i in range(a.ndim)])
    return box(out) if out.ndim else out.item()


def matmul(a, b):
    a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
    lead = np.broadcast_shapes(a.shape[:-2], b.shape[:-2])
    if a.shape[-1] != b.shape[-2]:
        raise ValueError("matmul: mismatch in the core dimension")
    a = np.broadcast_to(a, lead + a.shape[-2:])
    b = np.broadcast_to(b, lead + b.shape[-2:])
    out = np.empty(lead + (a.shape[-2], b.shape[-1]), dtype=object)
    for i in np.ndindex(*out.shape):
        r = None
        for k in range(a.shape[-1]):
            v = FUNCS["multiply"](a[i[:-1] + (k,)], b[i[:-2] + (k, i[-1])])
            r = v if r is None else FUNCS["add"](r, v)
        out[i] = r
    return out


def array(values, shape, bits=16):
    a = np.empty(len(values), dtype=object)
    for i, v in enumerate(values):
        a[i] = IV(v, bits)
    return a.reshape(shape).view(IArr)


@contextlib.contextmanager
def symbolic_alloc():
    """Float buffers that the Python code allocates hold symbolic integers."""
    real = {n: getattr(np, n) for n in ("zeros", "ones", "empty", "full")}

    def mk(n):
        def f(shape, *a, **k):
            r = real[n](shape, *a, **k)
            return r.astype(object).view(IArr) if r.dtype.kind == "f" else r
        return f
    for n in real:
        setattr(np, n, mk(n))
    try:
        yield
    finally:
        for n, f in real.items():
            setattr(np, n, f)


# --------------------------------------------------------------- questions for the solver
class Z:
    """Translation to Z3 integers; `linear` replaces every product of unknowns by a bounded unknown."""

    def __init__(self, given=None, linear=False):
        self.given = given or {}
        self.linear = linear
        self.cache = {}
        self.side = []

    def bounded(self, e, lo, hi):
        self.side += [e >= lo, e <= hi]
        return e

    def atom(self, i):
        r = self.cache.get(i)
        if r is None:
            key, lo, hi = INFO[i]
            k = key[0]
            if k == "var":
                r = z3.IntVal(self.given[key[1]]) if key[1] in self.given else self.bounded(z3.Int(key[1]), lo, hi)
            elif k == "div":
                q = z3.Int(f"div!{i}")
                p = self.poly(Poly(dict(key[2])))
                self.side += [q * key[1] <= p, p < (q + 1) * key[1]]
                r = q
            elif k == "wrap":
                q = z3.Int(f"wrap!{i}")
                p = self.poly(Poly(dict(key[2])))
                r = p - q * (1 << key[1])
                self.side += [r >= -(1 << key[1] - 1), r < 1 << key[1] - 1]
            elif k == "ite":
                r = z3.If(self.boolean(BYID(key[1])), self.poly(Poly(dict(key[2]))), self.poly(Poly(dict(key[3]))))
            elif k in ("min", "max"):
                p, q = self.poly(Poly(dict(key[1]))), self.poly(Poly(dict(key[2])))
                r = z3.If(p <= q, p, q) if k == "min" else z3.If(p >= q, p, q)
            else:
                raise Unsupported(k)
            self.cache[i] = r
        return r

    def poly(self, p):
        out = []
        for m, c in p.d.items():
            syms = [v for v in m if not (INFO[v][0][0] == "var" and INFO[v][0][1] in self.given)]
            for v in m:
                if v not in syms:
                    c = c * self.given[INFO[v][0][1]]
            if self.linear and len(syms) > 1:
                k = ("mono", tuple(syms))
                e = self.cache.get(k)
                if e is None:
                    lo, hi = Poly({tuple(syms): 1}).interval()
                    e = self.cache[k] = self.bounded(z3.Int(f"mono!{'.'.join(map(str, syms))}"), lo, hi)
            else:
                e = None
                for v in syms:
                    e = self.atom(v) if e is None else e * self.atom(v)
            out.append(z3.IntVal(c) if e is None else c * e)
        return z3.Sum(out) if out else z3.IntVal(0)

    def boolean(self, t):
        if t is T.TRUE or t is T.FALSE:
            return z3.BoolVal(t is T.TRUE)
        if t.op == "not":
            return z3.Not(self.boolean(t.args[0]))
        if t.op in ("and", "or"):
            return (z3.And if t.op == "and" else z3.Or)([self.boolean(a) for a in t.args])
        if t.id in BOOLS:
            op, d = BOOLS[t.id]
            e = self.poly(d)
            return {"<": e < 0, "<=": e <= 0, "==": e == 0}[op]
        raise Unsupported("condition " + t.op)


def BYID(i):
    op, d = BOOLS.get(i, (None, None))
    if op is not None:
        return T.mk("ib:" + op + repr(d.k), (), True)
    return TERMS[i]


TERMS = {}


def keep(t):
    """Remember a composite condition by its number."""
    if isinstance(t, Term):
        TERMS[t.id] = t
        for a in t.args:
            keep(a)
    return t


def evaluate(p, env):
    """The integer value of a polynomial."""
    tot = 0
    for m, c in p.d.items():
        for v in m:
            key = INFO[v][0]
            k = key[0]
            if k == "var":
                x = env[key[1]]
            elif k == "div":
                x = evaluate(Poly(dict(key[2])), env) // key[1]
            elif k == "wrap":
                x = wrap_int(evaluate(Poly(dict(key[2])), env), key[1])
            elif k in ("min", "max"):
                x = {"min": min, "max": max}[k](evaluate(Poly(dict(key[1])), env), evaluate(Poly(dict(key[2])), env))
            else:
                x = evaluate(Poly(dict(key[2 if truth(BYID(key[1]), env) else 3])), env)
            c *= x
        tot += c
    return tot


def truth(t, env):
    if t.op in ("true", "false"):
        return t.op == "true"
    if t.op == "not":
        return not truth(t.args[0], env)
    if t.op in ("and", "or"):
        r = [truth(a, env) for a in t.args]
        return all(r) if t.op == "and" else any(r)
    op, d = BOOLS[t.id]
    v = evaluate(d, env)
    return {"<": v < 0, "<=": v <= 0, "==": v == 0}[op]
