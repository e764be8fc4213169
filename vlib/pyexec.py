"""Symbolic execution of the real Python reference inference.

The package's own Python code runs on arrays of terms (a numpy subclass); branches on symbolic values either become
if-then-else terms (simple `if`/conditional expressions, rewritten on the fly from the current source) or fork the
execution, every feasible path being explored."""
import ast
import contextlib
import inspect
import sys
import tempfile
import textwrap
import types

import numpy as np

from . import smt
from . import terms as T
from .terms import Term, Unsupported

ACTIVE = [False]
_real = {n: getattr(np, n) for n in ("zeros", "ones", "empty", "full", "array", "asarray", "zeros_like", "ones_like", "full_like")}


def has_terms(a):
    a = np.ndarray.view(a, np.ndarray) if isinstance(a, np.ndarray) else a
    return a.dtype == object and any(isinstance(v, Term) for v in a.reshape(-1))


class SArr(np.ndarray):
    """Array of terms."""
    __array_priority__ = 2000.0

    def __array_finalize__(self, obj):
        pass

    # -- elementwise operations
    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        with inactive():
            return self._ufunc(ufunc, method, inputs, out, kw)

    def _ufunc(self, ufunc, method, inputs, out, kw):
        kw.pop("dtype", None)
        kw.pop("casting", None)
        where = kw.pop("where", True)
        if where is not True:
            raise Unsupported("ufunc where=")
        name = ufunc.__name__
        ins = [plain(i) for i in inputs]
        if method == "__call__":
            if name in ("matmul",):
                r = _matmul(ins[0], ins[1])
            elif name in FUNCS:
                r = np.frompyfunc(FUNCS[name], ufunc.nin, 1)(*ins)
            elif name in ("divmod", "modf", "frexp"):
                raise Unsupported(name)
            else:
                r = ufunc(*ins, **kw)
            if out is not None:
                o = out[0]
                po = plain(o)
                if po.dtype != object:
                    raise Unsupported("terms written to a numeric array")
                if np.shape(r) != po.shape and np.broadcast_shapes(np.shape(r), po.shape) != po.shape:
                    raise ValueError(f"non-broadcastable output operand with shape {po.shape} doesn't match the broadcast shape {np.shape(r)}")
                po[...] = r
                return o
            return wrap(r)
        if method == "reduce":
            return _reduce_axes(FUNCS.get(name) or _raise(name), ins[0], kw.get("axis", 0), kw.get("keepdims", False), IDENT.get(name))
        if method == "outer":
            a, b = np.asarray(ins[0]), np.asarray(ins[1])
            return wrap(np.frompyfunc(FUNCS[name], 2, 1)(a.reshape(a.shape + (1,) * b.ndim), b))
        raise Unsupported(f"ufunc {name}.{method}")

    def __array_function__(self, func, types_, args, kwargs):
        with inactive():
            h = HANDLERS.get(func.__name__)
            if h is not None:
                return h(*args, **kwargs)
            r = func(*plain(args), **plain(kwargs))
            return wrap(r)

    # -- methods numpy implements in C
    def astype(self, dtype=None, order="K", casting="unsafe", subok=True, copy=True):
        if dtype is not None and np.issubdtype(dtype, np.integer):
            raise Unsupported("conversion of terms to integers")
        return self.copy() if copy else self

    def max(self, axis=None, out=None, keepdims=False, **kw): return _reduce_axes(T_MAX, plain(self), axis, keepdims, None)
    def min(self, axis=None, out=None, keepdims=False, **kw): return _reduce_axes(T_MIN, plain(self), axis, keepdims, None)
    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **kw): return _reduce_axes(T_ADD, plain(self), axis, keepdims, 0)
    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **kw): return _reduce_axes(T_MUL, plain(self), axis, keepdims, 1)
    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **kw): return _mean(self, axis, keepdims=keepdims)
    def clip(self, min=None, max=None, out=None, **kw): return _clip(self, min, max)
    def dot(self, b, out=None): return wrap(_dot(plain(self), plain(b)))


def _raise(name):
    raise Unsupported("ufunc " + name)


def lift(v):
    if isinstance(v, np.generic):
        v = v.item()
    return v


def conc(v):
    return not isinstance(v, Term)


def _bin(f, py):
    def g(a, b):
        a, b = lift(a), lift(b)
        return py(a, b) if conc(a) and conc(b) else f(T.lift(a), T.lift(b))
    return g


def _un(name, py):
    def g(a):
        a = lift(a)
        return float(py(a)) if conc(a) else T.uf(name, a)
    return g


T_MAX = _bin(T.tmax, lambda a, b: a if a >= b else b)
T_MIN = _bin(T.tmin, lambda a, b: a if a <= b else b)
T_ADD = lambda a, b: lift(a) + lift(b)
T_MUL = lambda a, b: lift(a) * lift(b)


def _t_div(a, b):
    a, b = lift(a), lift(b)
    if conc(a) and conc(b):
        return float(np.float64(a) / np.float64(b))
    return a / b


def _pow(a, b):
    a, b = lift(a), lift(b)
    return a ** b


def _cmp(op, py):
    return lambda a, b: py(lift(a), lift(b)) if conc(a) and conc(b) else T.cmp_(op, T.lift(lift(a)), T.lift(lift(b)))


def _sigm(a):
    return 1 / (1 + T.uf("exp", -a))


FUNCS = {
    "maximum": T_MAX, "minimum": T_MIN, "fmax": T_MAX, "fmin": T_MIN, "add": T_ADD, "multiply": T_MUL,
    "subtract": lambda a, b: lift(a) - lift(b), "divide": _t_div, "true_divide": _t_div, "power": _pow, "float_power": _pow,
    "negative": lambda a: -lift(a), "positive": lambda a: lift(a), "square": lambda a: lift(a) * lift(a),
    "reciprocal": lambda a: _t_div(1.0, a),
    "exp": _un("exp", np.exp), "log": _un("log", np.log), "sqrt": _un("sqrt", np.sqrt), "tanh": _un("tanh", np.tanh),
    "exp2": lambda a: T.uf("exp", lift(a) * float(np.log(2))), "expm1": lambda a: FUNCS["exp"](a) - 1,
    "absolute": lambda a: abs(lift(a)), "fabs": lambda a: abs(lift(a)),
    "less": _cmp("<", lambda a, b: a < b), "less_equal": _cmp("<=", lambda a, b: a <= b), "greater": _cmp(">", lambda a, b: a > b),
    "greater_equal": _cmp(">=", lambda a, b: a >= b), "equal": _cmp("==", lambda a, b: a == b),
    "not_equal": lambda a, b: (lift(a) != lift(b)) if conc(lift(a)) and conc(lift(b)) else T.not_(T.cmp_("==", T.lift(lift(a)), T.lift(lift(b)))),
    "logical_not": lambda a: (not a) if conc(a) else T.not_(a),
    "logical_and": lambda a, b: (a and b) if conc(a) and conc(b) else T.and_(T.tobool(a), T.tobool(b)),
    "logical_or": lambda a, b: (a or b) if conc(a) and conc(b) else T.or_(T.tobool(a), T.tobool(b)),
    "isnan": lambda a: False if not conc(a) else bool(np.isnan(a)),
    "isfinite": lambda a: True if not conc(a) else bool(np.isfinite(a)),
}
IDENT = {"add": 0, "multiply": 1, "logical_and": True, "logical_or": False}


def plain(v):
    if isinstance(v, SArr):
        return v.view(np.ndarray)
    if isinstance(v, tuple):
        return tuple(plain(i) for i in v)
    if isinstance(v, list):
        return [plain(i) for i in v]
    if isinstance(v, dict):
        return {k: plain(i) for k, i in v.items()}
    return v


def wrap(v):
    if isinstance(v, np.ndarray) and v.dtype == object:
        return v.view(SArr)
    if isinstance(v, tuple):
        return tuple(wrap(i) for i in v)
    if isinstance(v, list):
        return [wrap(i) for i in v]
    return v


def _reduce_axes(f, a, axis, keepdims, ident):
    a = np.ndarray.view(np.asarray(a, dtype=object), np.ndarray) if not isinstance(a, np.ndarray) else a
    if a.dtype != object:
        a = a.astype(object)
    axes = tuple(range(a.ndim)) if axis is None else ((axis,) if np.isscalar(axis) or isinstance(axis, np.integer) else tuple(axis))
    for x in axes:
        if not -a.ndim <= x < a.ndim:
            raise np.exceptions.AxisError(x, a.ndim)
    axes = sorted({x % a.ndim for x in axes}) if a.ndim else ()
    r = a
    for x in sorted(axes, reverse=True):
        n = r.shape[x]
        if n == 0:
            if ident is None:
                raise ValueError("zero-size array to reduction operation which has no identity")
            r = np.full(r.shape[:x] + r.shape[x + 1:], ident, dtype=object)
            continue
        acc = np.take(r, 0, axis=x)
        g = np.frompyfunc(f, 2, 1)
        for k in range(1, n):
            acc = g(acc, np.take(r, k, axis=x))
        r = acc
        if not isinstance(r, np.ndarray):
            r = _obj0(r)
    if keepdims:
        shape = tuple(1 if k in axes else s for k, s in enumerate(a.shape))
        return wrap(r.reshape(shape) if r.size == 1 or True else r)
    return wrap(r) if r.ndim else r[()]


def _obj0(v):
    r = np.empty((), dtype=object)
    r[()] = v
    return r


def _mean(a, axis=None, dtype=None, out=None, keepdims=False, **kw):
    a = plain(a)
    keepdims = False if keepdims is np._NoValue else keepdims
    n = a.size if axis is None else int(np.prod([a.shape[x] for x in np.atleast_1d(axis)], dtype=int))
    return _reduce_axes(T_ADD, a, axis, keepdims, 0) / n


def _red(f, ident):
    def g(a, axis=None, dtype=None, out=None, keepdims=False, **kw):
        keepdims = False if keepdims is np._NoValue else keepdims
        return _reduce_axes(f, plain(a), axis, keepdims, ident)
    return g


def _clip(a, a_min=None, a_max=None, out=None, **kw):
    a_min = kw.get("min", a_min)
    a_max = kw.get("max", a_max)
    r = plain(a)
    if a_min is not None:
        r = np.frompyfunc(lambda x, y: y if conc(y) and np.isposinf(y) else (x if conc(y) and np.isneginf(y) else T_MAX(x, y)), 2, 1)(r, plain(a_min))
    if a_max is not None:
        r = np.frompyfunc(lambda x, y: x if conc(y) and np.isposinf(y) else T_MIN(x, y), 2, 1)(r, plain(a_max))
    if out is not None:
        plain(out)[...] = r
        return out
    return wrap(r)


def _where(c, a=None, b=None):
    if a is None:
        raise Unsupported("where without values")
    return wrap(np.frompyfunc(sym_ite, 3, 1)(plain(c), plain(a), plain(b)))


def sym_ite(c, a, b):
    c, a, b = lift(c), lift(a), lift(b)
    if conc(c):
        return a if c else b
    return T.ite(T.tobool(c), T.lift(a), T.lift(b))


def _dot(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return np.dot(a.astype(object), b.astype(object))


def _matmul(a, b):
    return np.matmul(np.asarray(a).astype(object), np.asarray(b).astype(object))


def _average(a, axis=None, weights=None, **kw):
    if weights is not None:
        raise Unsupported("weighted average")
    return _mean(a, axis)


HANDLERS = {
    "max": _red(T_MAX, None), "amax": _red(T_MAX, None), "min": _red(T_MIN, None), "amin": _red(T_MIN, None), "sum": _red(T_ADD, 0),
    "prod": _red(T_MUL, 1), "mean": _mean, "average": _average, "clip": _clip, "where": _where,
    "dot": lambda a, b, out=None: wrap(_dot(plain(a), plain(b))),
    "einsum": lambda *a, **k: wrap(np.einsum(*plain(a), **{**plain(k), "optimize": False})),
}


@contextlib.contextmanager
def inactive():
    old, ACTIVE[0] = ACTIVE[0], False
    try:
        yield
    finally:
        ACTIVE[0] = old


def _mk_alloc(name):
    real = _real[name]

    def f(*a, **k):
        if not ACTIVE[0]:
            return real(*a, **k)
        r = real(*a, **k)
        if isinstance(r, SArr):
            return r
        if r.dtype == object:
            return r.view(SArr)
        if r.dtype.kind == "f":
            pos = 2 if name == "full" else 1
            return r.astype(object).view(SArr) if (len(a) > pos or "dtype" in k or True) else r
        return r
    return f


def _mk_array(name):
    real = _real[name]

    def f(obj, *a, **k):
        if not ACTIVE[0]:
            return real(obj, *a, **k)
        if isinstance(obj, SArr) or _contains(obj):
            k.pop("dtype", None)
            with inactive():
                r = real(obj, dtype=object)
                if isinstance(obj, SArr) and name == "asarray":
                    return obj
            return r.view(SArr)
        return real(obj, *a, **k)
    return f


def _contains(o, depth=4):
    if isinstance(o, (Term, SArr)):
        return True
    if depth and isinstance(o, (list, tuple)):
        return any(_contains(i, depth - 1) for i in o)
    return False


# --------------------------------------------------------------- if-conversion
class _Ifs(ast.NodeTransformer):
    """`if` statements made of assignments and conditional expressions, with merged symbolic branches."""

    def __init__(self):
        self.n = 0

    def visit_IfExp(self, node):
        self.generic_visit(node)
        lam = lambda e: ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=e)
        return ast.Call(func=ast.Name("__v_ifexp", ast.Load()), args=[node.test, lam(node.body), lam(node.orelse)], keywords=[])

    def visit_If(self, node):
        self.generic_visit(node)
        if not all(self.simple(s) for s in node.body + node.orelse):
            return node
        self.n += 1
        t = f"__v_c{self.n}"
        import copy
        merged = []
        for stmts, neg in ((node.body, False), (node.orelse, True)):
            for s in copy.deepcopy(stmts):
                tgt = s.targets[0] if isinstance(s, ast.Assign) else s.target
                old = copy.deepcopy(tgt)
                for x in ast.walk(old):
                    if hasattr(x, "ctx"):
                        x.ctx = ast.Load()
                val = s.value if isinstance(s, ast.Assign) else ast.BinOp(copy.deepcopy(old), s.op, s.value)
                c = ast.Name(t, ast.Load())
                if neg:
                    c = ast.Call(ast.Name("__v_not", ast.Load()), [c], [])
                merged.append(ast.Assign([tgt], ast.Call(ast.Name("__v_ite", ast.Load()), [c, val, old], [])))
        return [ast.Assign([ast.Name(t, ast.Store())], node.test),
                ast.If(ast.Call(ast.Name("__v_sym", ast.Load()), [ast.Name(t, ast.Load())], []), merged or [ast.Pass()],
                       [ast.If(ast.Name(t, ast.Load()), node.body, node.orelse)])]

    @staticmethod
    def simple(s):
        if isinstance(s, ast.Assign):
            return len(s.targets) == 1 and isinstance(s.targets[0], ast.Subscript)
        return isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Subscript)


def _issym(c):
    return isinstance(c, Term) and c.op not in ("true", "false")


def _ifexp(c, a, b):
    if _issym(c):
        va, vb = a(), b()
        if all(isinstance(lift(v), (Term, int, float, bool)) for v in (va, vb)):
            return sym_ite(c, va, vb)
        return va if c else vb
    return a() if c else b()


HELPERS = {"__v_ifexp": _ifexp, "__v_sym": _issym, "__v_ite": lambda c, a, b: sym_ite(c, a, b), "__v_not": lambda c: T.not_(T.tobool(c))}
NAMES = ("compute", "forward_path_layer", "pooling_function", "pre_processing", "post_processing")


_originals = []


def restore_functions():
    while _originals:
        cls, n, f = _originals.pop()
        setattr(cls, n, f)


def convert_functions():
    """Rewrite the branches of the functions of acetone_nnet that handle data (from their current source)."""
    done = []
    for mod in [m for n, m in list(sys.modules.items()) if n.startswith("acetone_nnet.generator") or n.startswith("acetone_nnet.importers")]:
        for cls in [c for c in vars(mod).values() if inspect.isclass(c) and c.__module__ == mod.__name__]:
            for n, f in list(vars(cls).items()):
                if not isinstance(f, types.FunctionType) or not (n in NAMES or "interpolation" in n) or getattr(f, "__v_done", False):
                    continue
                try:
                    src = textwrap.dedent(inspect.getsource(f))
                except (OSError, TypeError):
                    continue
                if "super(" in src or " if " not in src or f.__code__.co_freevars:
                    continue
                tree = ast.parse(src)
                tr = _Ifs()
                tree = ast.fix_missing_locations(tr.visit(tree))
                tree.body[0].decorator_list = []
                for a in ast.walk(tree):
                    if isinstance(a, ast.arg):
                        a.annotation = None
                tree.body[0].returns = None
                glob = f.__globals__
                glob.update(HELPERS)
                loc = {}
                exec(compile(tree, f"<{cls.__name__}.{n}>", "exec"), glob, loc)
                g = loc[f.__name__]
                g.__v_done = True
                _originals.append((cls, n, f))
                setattr(cls, n, g)
                done.append(f"{cls.__name__}.{n}")
    return done


# --------------------------------------------------------------- path exploration
class TooManyPaths(Unsupported):
    pass


class Explorer:
    def __init__(self, cap=64, base=()):
        self.cap = cap
        self.base = list(base)

    def run(self, fn):
        """Yields (path condition, result or exception) for every feasible path."""
        todo = [[]]
        n = 0
        res = []
        while todo:
            prefix = todo.pop()
            n += 1
            if n > self.cap:
                raise TooManyPaths(f"more than {self.cap} paths")
            trace, pc = [], []
            seen = {}

            def decide(t):
                if t in seen:
                    return seen[t]
                k = len(trace)
                if k < len(prefix):
                    d = prefix[k]
                else:
                    st_t = smt.sat_bool(_conj(self.base + pc + [t]))[0] != "unsat"
                    st_f = smt.sat_bool(_conj(self.base + pc + [T.not_(t)]))[0] != "unsat"
                    if st_t and st_f:
                        todo.append(trace + [False])
                        d = True
                    else:
                        d = st_t
                trace.append(d)
                pc.append(t if d else T.not_(t))
                seen[t] = d
                return d
            old, T.DECIDER[0] = T.DECIDER[0], decide
            try:
                try:
                    r = fn()
                except Unsupported:
                    raise
                except Exception as e:      # noqa: BLE001
                    r = e
            finally:
                T.DECIDER[0] = old
            res.append((list(pc), r))
        return res


def _conj(ts):
    r = T.TRUE
    for t in ts:
        r = T.and_(r, t)
    return r


@contextlib.contextmanager
def symbolic_numpy():
    for n in ("zeros", "ones", "empty", "full", "zeros_like", "ones_like", "full_like"):
        setattr(np, n, _mk_alloc(n))
    for n in ("array", "asarray"):
        setattr(np, n, _mk_array(n))
    old, ACTIVE[0] = ACTIVE[0], True
    try:
        yield
    finally:
        ACTIVE[0] = old
        for n, f in _real.items():
            setattr(np, n, f)


# --------------------------------------------------------------- the reference inference
def sym_array(terms, shape):
    a = _real["empty"](len(terms), dtype=object)
    for i, t in enumerate(terms):
        a[i] = t
    return a.reshape(shape).view(SArr)


def lift_layers(gen, P):
    """Replace tagged parameters of the layers by variables; returns the tags found."""
    found = set()
    objs = list(gen.layers)
    for layer in objs:
        for k, v in list(vars(layer).items()):
            if isinstance(v, np.ndarray) and v.dtype.kind == "f" and v.size:
                flat = v.reshape(-1)
                keys = [P.tags.get(float(x)) for x in flat]
                if True:
                    found.update(x for x in keys if x)
                    setattr(layer, k, sym_array([T.var(f"{x[0]}[{x[1]}]") if x else float(y) for x, y in zip(keys, flat)], v.shape))
    return found


def attributes(gen):
    """Snapshot of every array and scalar of the layers."""
    out = {}
    for layer in gen.layers:
        for k, v in vars(layer).items():
            if isinstance(v, np.ndarray):
                out[layer.idx, k] = (v.shape, tuple(plain(v).reshape(-1)))
            elif isinstance(v, (int, float, str, bool, tuple)):
                out[layer.idx, k] = v
    return out


def same_attr(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same_attr(x, y) for x, y in zip(a, b))
    if isinstance(a, Term) or isinstance(b, Term):
        return a is b
    return a == b or (a != a and b != b)


def inference(gen, dataset):
    """Run the real compute_inference; returns (returned value, what was formatted for the output file)."""
    rec = []
    gen.test_dataset = dataset
    gen.data2c = lambda v: (rec.append(lift(v)), "0")[1]
    try:
        with tempfile.TemporaryDirectory(prefix="verif_p") as d:
            r = gen.compute_inference(d)
    finally:
        del gen.data2c
    return r, rec
