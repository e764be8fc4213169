"""Integer quantisation: the C program, the Python reference and the declared Q formats are compared on all inputs and weights."""
import contextlib
import json
import os
import random
import re
import time

import numpy as np
import onnx
from onnx import TensorProto, helper, numpy_helper

from vlib import harness as H
from vlib import intmode as I
from vlib import llvmexec as L
from vlib import program as G
from vlib import pyexec as PX
from vlib import smt
from vlib import terms as T
from vlib.harness import thorough

z3 = smt.z3
LEVEL = "bounded"
TARGET = "AVX512VNNI"
BITS = 16
BOUNDS = ("networks of up to 6 MatMul, Add, Relu and data-movement layers on 16-bit integers with 32-bit accumulators, over a matrix of Q formats, shapes and operand orders: every 16-bit input and "
          "weight for which the exact accumulators fit in 32 bits and the exact results in 16 bits; quantize_layers on every real constant; parse_q_format on every ASCII string of up to 11 (thorough: 23) characters")
ASSUMPTIONS = ["signed integers wrap and right shifts of negative integers are arithmetic (gcc, clang)",
               "the formats declared for a layer's operands are those of the tensors it reads",
               "a float32 constant times a power of two is exact"]


def frac(q):
    return int(q.split(".")[1])


class Net:
    """Writes an ONNX model and its target configuration; computes the declared fixed-point semantics alongside."""

    def __init__(self, given=None):
        self.given = given           # None: symbolic
        self.nodes, self.inits, self.ins = [], [], []
        self.cfg = {}
        self.tags = {}
        self.values = {}             # tensor -> object array of exact polynomials
        self.fmt = {}
        self.pre = []                # (polynomial, bits)
        self.k = 0
        self.n = 0
        self.x = []
        self.out_name = None
        self.names = {}
        self.fused = False

    def known(self, p, bits):
        self.pre.append((p, bits))
        if self.given is None:
            I.KNOWN[p.k] = min(bits, I.KNOWN.get(p.k, 1000))
        return p

    def sym(self, name):
        return I.var(name, BITS) if self.given is None else I.num(self.given.get(name, 0))

    def inp(self, *shape, q="Q0.15", name="X"):
        self.ins.append(helper.make_tensor_value_info(name, TensorProto.FLOAT, list(shape)))
        n = int(np.prod(shape))
        self.x = [f"x[{i}]" for i in range(n)]
        a = np.empty(n, dtype=object)
        for i, v in enumerate(self.x):
            a[i] = self.sym(v)
        self.values[name], self.fmt[name] = a.reshape(shape), q
        self.cfg[name] = {"out": q}
        return name

    def par(self, name, *shape, q="Q0.15"):
        n = int(np.prod(shape))
        a = np.empty(n, dtype=object)
        ints = []
        for i in range(n):
            key = f"{name}[{i}]"
            if self.given is None:
                self.n += 1
                t = 1001 + 2 * self.n
                self.tags[t] = key
                ints.append(t)
            else:
                ints.append(self.given.get(key, 0))
            a[i] = self.sym(key)
        w = np.array([t / 2.0 ** frac(q) for t in ints], dtype=np.float32).reshape(shape)
        self.inits.append(numpy_helper.from_array(w, name))
        self.values[name], self.fmt[name] = a.reshape(shape), q
        self.cfg[name] = {"out": q}
        return name

    def const(self, arr):
        self.k += 1
        name = f"k{self.k}"
        self.inits.append(numpy_helper.from_array(np.asarray(arr, dtype=np.int64), name))
        return name

    def node(self, op, ins, vals, q, cfg=None, **attrs):
        self.k += 1
        out, name = f"t{self.k}", f"{op}_n{self.k}"
        self.nodes.append(helper.make_node(op, ins, [out], name=name, **attrs))
        if cfg is not None:
            self.cfg[name] = cfg
        for i in ins:
            # the name that an optimised network gives to an activation's producer
            p = self.names.get(i)
            if op == "Relu" and p in self.cfg and self.fused:
                self.cfg[f"{p} fused with {name}"] = self.cfg[p]
        self.names[out] = name
        self.values[out], self.fmt[out] = vals, q
        self.out_name = out
        return out

    def mm(self, a, b, q, act=False):
        va, vb = self.values[a], self.values[b]
        shift = frac(self.fmt[a]) + frac(self.fmt[b]) - frac(q)
        acc = self.matmul(va, vb)

        def one(p):
            self.known(p, 32)
            if shift < 0:
                return self.known(p * I.num(1 << -shift), BITS)
            return self.known(I.shift(p, shift), BITS)
        cfg = {"in": self.fmt[a], "params": self.fmt[b], "out": q}
        if b in self.x or b == "X":
            cfg = {"in": self.fmt[b], "params": self.fmt[a], "out": q}
        return self.node("MatMul", [a, b], np.frompyfunc(one, 1, 1)(acc), q, cfg)

    @staticmethod
    def matmul(a, b):
        lead = np.broadcast_shapes(a.shape[:-2], b.shape[:-2])
        a = np.broadcast_to(a, lead + a.shape[-2:])
        b = np.broadcast_to(b, lead + b.shape[-2:])
        out = np.empty(lead + (a.shape[-2], b.shape[-1]), dtype=object)
        for i in np.ndindex(*out.shape):
            r = I.num(0)
            for k in range(a.shape[-1]):
                r = r + a[i[:-1] + (k,)] * b[i[:-2] + (k, i[-1])]
            out[i] = r
        return out

    def add(self, a, b, q=None, op="Add"):
        """Operands with the same number of fraction bits (declared by the caller otherwise)."""
        q = q or self.fmt[a]
        ma, mb, mo = frac(self.fmt[a]), frac(self.fmt[b]), frac(q)
        m = max(ma, mb)

        def one(x, y):
            p, r = x * I.num(1 << (m - ma)), y * I.num(1 << (m - mb))
            s = {"Add": lambda: p + r, "Sub": lambda: p - r, "Max": lambda: I.extremum("max", p, r), "Min": lambda: I.extremum("min", p, r)}[op]()
            self.known(s, 32)
            return self.known(I.shift(s, m - mo) if m >= mo else s * I.num(1 << (mo - m)), BITS)
        return self.node(op, [a, b], np.frompyfunc(one, 2, 1)(self.values[a], self.values[b]), q, {"in": self.fmt[a], "params": self.fmt[b], "out": q})

    def mul(self, a, b, q):
        sh = frac(self.fmt[a]) + frac(self.fmt[b]) - frac(q)

        def one(x, y):
            return self.known(I.shift(self.known(x * y, 32), sh), BITS)
        return self.node("Mul", [a, b], np.frompyfunc(one, 2, 1)(self.values[a], self.values[b]), q, {"in": self.fmt[a], "params": self.fmt[b], "out": q})

    def relu(self, a):
        one = lambda p: I.extremum("max", p, I.num(0))      # noqa: E731
        return self.node("Relu", [a], np.frompyfunc(one, 1, 1)(self.values[a]), self.fmt[a])

    def move(self, op, ins, f, *extra, **attrs):
        """Data movement: f on the operands' values."""
        q = self.fmt[ins[0]]
        return self.node(op, [*ins, *extra], f(*[self.values[i] for i in ins]), q, **attrs)

    def reduce(self, op, a, axis, keep=1, **attrs):
        r = {"ReduceMax": "max", "ReduceMin": "min"}[op]
        v = self.values[a]
        out = np.apply_along_axis(lambda s: _fold(r, s), axis, v)
        if keep:
            out = np.expand_dims(out, axis)
        return self.node(op, [a], out, self.fmt[a], axes=[axis], keepdims=keep)

    def maxpool(self, a, k, s):
        v = self.values[a]
        n, c, h, w = v.shape
        oh, ow = (h - k) // s + 1, (w - k) // s + 1
        out = np.empty((n, c, oh, ow), dtype=object)
        for i in np.ndindex(*out.shape):
            out[i] = _fold("max", v[i[0], i[1], i[2] * s:i[2] * s + k, i[3] * s:i[3] * s + k].reshape(-1))
        return self.node("MaxPool", [a], out, self.fmt[a], kernel_shape=[k, k], strides=[s, s])

    def model(self):
        g = helper.make_graph(self.nodes, "g", self.ins, [helper.make_tensor_value_info(self.out_name, TensorProto.FLOAT, list(self.values[self.out_name].shape))], self.inits)
        m = helper.make_model(g, opset_imports=[helper.make_opsetid("", 13)], ir_version=8)
        m = onnx.shape_inference.infer_shapes(m)
        onnx.checker.check_model(m)
        return m

    def config(self):
        return {"name": "AVX", "cflags": "-O1", "quantization": {"dtype": "short", "temp_dtype": "int", "pydtype": "int16", "temp_pydtype": "int32", "layers": self.cfg}}


def _fold(f, vs):
    r = vs[0]
    for v in vs[1:]:
        r = I.extremum(f, r, v)
    return r


@contextlib.contextmanager
def inside(d):
    old = os.getcwd()
    os.chdir(d)
    try:
        yield
    finally:
        os.chdir(old)


def generate(net, d, **kw):
    with open(os.path.join(d, TARGET + ".json"), "w") as f:
        json.dump(net.config(), f)
    with inside(d):
        return G.generate(net.model(), d, target=TARGET, **kw)


class Explorer:
    """Every outcome of the comparisons the Python code branches on (feasible or not)."""

    def run(self, fn, cap=64):
        todo, res = [[]], []
        while todo:
            prefix = todo.pop()
            if len(res) >= cap:
                raise T.Unsupported("too many paths")
            trace, pc, seen = [], [], {}

            def decide(t):
                if t in seen:
                    return seen[t]
                k = len(trace)
                d = prefix[k] if k < len(prefix) else True
                if k >= len(prefix):
                    todo.append(trace + [False])
                trace.append(d)
                pc.append(I.keep(t if d else T.not_(t)))
                seen[t] = d
                return d
            old, T.DECIDER[0] = T.DECIDER[0], decide
            try:
                res.append((pc, fn()))
            finally:
                T.DECIDER[0] = old
        return res


class Quant(H.Case):
    def __init__(self, name, build, expect="ok", **gen):
        super().__init__(name, None, expect=expect, gen=gen)
        self.net = build

    def run(self):
        out = H.Out(self.name)
        t0 = time.time()
        try:
            self.check(out)
        except T.Unsupported as e:
            out.errors.append(f"cannot encode: {e}")
        out.info["wall"] = round(time.time() - t0, 2)
        return out

    def check(self, out):
        I.reset()
        net = Net()
        self.net(net)
        spec = list(net.values[net.out_name].reshape(-1))
        with G.scratch("q") as d:
            try:
                gen = generate(net, d, **self.gen)
            except G.GenError as e:
                if self.expect == "ok":
                    out.add("generator-error", str(e), replay={"error": str(e)})
                else:
                    out.info["refused"] = str(e)
                return
            sides = [("c-result", [], self.c_side(out, net, d, gen, len(spec)))]
            for pc, r in self.py_side(net, gen):
                sides.append(("python-result", pc, r))
        for kind, pc, got in sides:
            if got is None:
                continue
            if len(got) != len(spec):
                self.confirm(out, kind, {}, f"{len(got)} values instead of {len(spec)}")
                return
            for i, (g, s) in enumerate(zip(got, spec)):
                if not self.decide(out, net, kind, i, pc, g, s):
                    break
        out.info.update(mode="tag", outputs=len(spec), functions=["inference"] + sorted({type(x).__name__ + ".forward_path_layer" for x in gen.layers}))

    # --- the C program
    def c_side(self, out, net, d, gen, nout):
        try:
            m = G.load_module(d)
        except L.CompileError as e:
            out.add("compile-error", str(e)[:300], replay={"error": str(e)[:2000]})
            return None
        hits = set()

        def lift(gname, idx, v):
            if type(v) is int and v in net.tags:
                hits.add(v)
                return I.var(net.tags[v], BITS)
            return None
        with I.c_mode():
            ex = L.Exec(m, lift_const=lift)
            ty = m.types.get("%struct.inference_t")
            size = ty._size if ty is not None and ty.kind != "opaque" else 16
            ctx = L.Obj("ctx", size, "arg", missing=lambda off, t: L.UNDEF)
            pred, inp = L.Obj("prediction", 2 * nout, "arg", missing=lambda off, t: L.UNDEF), L.Obj("nn_input", 2 * len(net.x), "arg")
            for i, v in enumerate(net.x):
                inp.cells[2 * i] = (I.var(v, BITS), 2, "i")
            try:
                ex.call("inference", [L.Ptr(ctx, 0), L.Ptr(pred, 0), L.Ptr(inp, 0)])
            except L.Fault as e:
                self.confirm(out, "c-result", {}, f"fault: {e}")
                return None
        for f in ex.findings.values():
            self.confirm(out, "c-result", {}, f"{f.kind} {f.detail}", sanitize=True)
            return None
        out.info["steps"] = ex.steps
        res = []
        for i in range(nout):
            c = pred.cells.get(2 * i)
            if c is None or c[0] is L.UNDEF:
                self.confirm(out, "c-result", {}, f"prediction {i} is not written")
                return None
            v = c[0]
            res.append(I.reduce(v if isinstance(v, I.Poly) else I.num(I.wrap_int(v, BITS)), BITS))
        if len(hits) < len(net.tags):
            raise T.Unsupported("weights that the C program does not hold")
        return res

    # --- the Python reference
    def py_side(self, net, gen):
        for layer in gen.layers:
            for k, v in list(vars(layer).items()):
                if isinstance(v, np.ndarray) and v.dtype.kind == "i" and v.size and any(int(t) in net.tags for t in v.reshape(-1)):
                    b = v.dtype.itemsize * 8
                    vals = [I.var(net.tags[int(t)], BITS) if int(t) in net.tags else I.num(int(t)) for t in v.reshape(-1)]
                    setattr(layer, k, I.array(vals, v.shape, b))
        x = I.array([I.var(v, BITS) for v in net.x], (1, len(net.x)))

        def go():
            with G.quiet(), I.symbolic_alloc():
                _, rec = PX.inference(gen, x)
            return [I.reduce(v.p, v.n) if isinstance(v, I.IV) else self.number(v) for v in rec]
        return Explorer().run(go)

    @staticmethod
    def number(v):
        if float(v) != int(v):
            raise T.Unsupported(f"output {v} of the Python reference")
        return I.num(int(v))

    # --- decisions
    def decide(self, out, net, kind, i, pc, g, s):
        """False: stop (violation or undecided)."""
        out.info["queries"] = out.info.get("queries", 0) + 1
        if g.k == s.k:
            g_is_s = True
        else:
            g_is_s = False
        r, env = self.ask(net, pc, g, s, linear=True)
        if r == "unsat":
            return True
        if g_is_s:
            raise T.Unsupported("solver does not decide an identity")
        rng = random.Random(7)
        names = sorted(net.tags.values())
        for k in range(8):
            # with the weights fixed the question is linear
            pick = {n: rng.choice([rng.randrange(-32768, 32768), rng.randrange(-200, 200), 32767, -32768, 1, -1, 0]) if k < 4 else rng.randrange(-2000, 2000) for n in names}
            r, env = self.ask(net, pc, g, s, given=pick)
            if r == "sat" and self.confirm(out, kind, {**pick, **env}, f"output {i}"):
                return False
        r, env = self.ask(net, pc, g, s)
        if r == "sat" and self.confirm(out, kind, env, f"output {i}"):
            return False
        if r != "unsat":
            out.errors.append(f"{kind} output {i}: {'counterexample not confirmed' if r == 'sat' else 'undecided'}")
            return False
        return True

    def ask(self, net, pc, g, s, given=None, linear=False):
        z = I.Z(given, linear)
        S = z3.Solver()
        S.set("timeout", 20000 if thorough() else 8000)
        cons = [z.poly(g) != z.poly(s)] + [z.boolean(c) for c in pc]
        for p, b in net.pre:
            e = z.poly(p)
            cons += [e >= -(1 << b - 1), e < 1 << b - 1]
        S.add(cons + z.side)
        t = time.time()
        r = str(S.check())
        smt.STATS["queries"] += 1
        smt.STATS["solver_s"] += time.time() - t
        smt.STATS[r if r in ("sat", "unsat") else "unknown"] += 1
        env = {}
        if r == "sat":
            m = S.model()
            for v in m.decls():
                if "[" in v.name():
                    env[v.name()] = m[v].as_long()
        return r, env

    def confirm(self, out, kind, env, what, sanitize=False):
        """Replay concrete weights and inputs against the real program."""
        saved = (dict(I.ATOMS), list(I.INFO), dict(I.KNOWN))
        try:
            net = Net(given=env)
            self.net(net)
            want = [p.const() for p in net.values[net.out_name].reshape(-1)]
            if not all(-(1 << b - 1) <= p.const() < 1 << b - 1 for p, b in net.pre):
                return False
            x = [env.get(v, 0) for v in net.x]
            with G.scratch("qr") as d:
                gen = generate(net, d, **self.gen)
                if kind == "python-result":
                    gen.test_dataset = np.array([x], dtype=np.int16)
                    with G.quiet():
                        rec = []
                        real = gen.data2c
                        gen.data2c = lambda v: (rec.append(float(v) if int(v) != v else int(v)), real(v))[1]
                        gen.compute_inference(d)
                    got = rec
                else:
                    exe = G.build_native(d, len(x), len(want), ctype="short", sanitize="ub" if sanitize else None)
                    preds, _, err, rc = G.run_native(exe, [x], ctype="short")
                    got = preds[0] if preds and rc == 0 else f"exit {rc}: {err[-200:]}"
        finally:
            I.ATOMS.clear()
            I.ATOMS.update(saved[0])
            I.INFO[:] = saved[1]
            I.KNOWN.update(saved[2])
        if got == want:
            return False
        out.add(kind, f"{what}: {got if isinstance(got, str) else got[:6]} instead of {want[:6]}", replay={"env": env, "got": got, "want": want})
        return True


# --------------------------------------------------------------- quantised constants
class RV:
    """A real constant on its way to an integer: z3 expression."""

    def __init__(self, e):
        self.e = e

    def __mul__(self, o):
        return RV(self.e * (o.e if isinstance(o, RV) else z3.RealVal(str(o))))
    __rmul__ = __mul__

    def __truediv__(self, o):
        return RV(self.e / z3.RealVal(str(o)))

    def __add__(self, o):
        return RV(self.e + (o.e if isinstance(o, RV) else z3.RealVal(str(o))))
    __radd__ = __add__

    def __sub__(self, o):
        return RV(self.e - (o.e if isinstance(o, RV) else z3.RealVal(str(o))))

    def __neg__(self):
        return RV(-self.e)


SIDE = []


def rint(e):
    q = z3.Int(f"rint!{len(SIDE)}")
    f = z3.ToReal(q)
    SIDE.append(z3.And(f - e <= z3.Q(1, 2), e - f <= z3.Q(1, 2), z3.Implies(z3.Or(f - e == z3.Q(1, 2), e - f == z3.Q(1, 2)), q % 2 == 0)))
    return RV(f)


def trunc(e, n):
    """Conversion of a real to an n-bit integer: toward zero, then modulo 2^n (what numpy does for values within int64)."""
    i = z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e))
    return RV(z3.ToReal((i + (1 << n - 1)) % (1 << n) - (1 << n - 1)))


class RArr(np.ndarray):
    __array_priority__ = 4000.0

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        if method != "__call__" or out is not None:
            raise T.Unsupported("ufunc method on constants")
        ins = [I.plain(i) for i in inputs]
        ex = lambda v: v.e if isinstance(v, RV) else z3.RealVal(str(v))       # noqa: E731
        f = {"rint": lambda a: rint(a.e), "multiply": lambda a, b: a * b, "add": lambda a, b: a + b, "divide": lambda a, b: a / b, "subtract": lambda a, b: a - b,
             "floor": lambda a: RV(z3.ToReal(z3.ToInt(a.e))), "ceil": lambda a: RV(-z3.ToReal(z3.ToInt(-a.e))), "trunc": lambda a: RV(z3.If(a.e >= 0, z3.ToReal(z3.ToInt(a.e)), -z3.ToReal(z3.ToInt(-a.e)))),
             "not_equal": lambda a, b: ex(a) != ex(b), "equal": lambda a, b: ex(a) == ex(b), "less": lambda a, b: ex(a) < ex(b), "greater": lambda a, b: ex(a) > ex(b),
             "less_equal": lambda a, b: ex(a) <= ex(b), "greater_equal": lambda a, b: ex(a) >= ex(b), "logical_or": z3.Or, "bitwise_or": z3.Or, "logical_and": z3.And, "bitwise_and": z3.And,
             "maximum": lambda a, b: RV(z3.If(ex(a) >= ex(b), ex(a), ex(b))), "minimum": lambda a, b: RV(z3.If(ex(a) <= ex(b), ex(a), ex(b))),
             "absolute": lambda a: RV(z3.If(a.e >= 0, a.e, -a.e))}.get(ufunc.__name__)
        if f is None:
            raise T.Unsupported("ufunc " + ufunc.__name__ + " on constants")
        return np.frompyfunc(f, ufunc.nin, 1)(*ins).view(RArr)

    def __array_function__(self, func, types_, args, kwargs):
        if func.__name__ in ("round", "around") and len(args) == 1 and not kwargs:
            return np.rint(args[0])
        if func.__name__ == "clip":
            return np.minimum(np.maximum(args[0], args[1]), args[2])
        if func.__name__ in ("all", "any"):
            return getattr(args[0], func.__name__)()
        if func.__name__ == "array_equal":
            return (args[0] == args[1]).all()
        raise T.Unsupported("function " + func.__name__ + " on constants")

    def astype(self, dtype=None, *a, **k):
        dt = np.dtype(dtype)
        if dt.kind != "i":
            return self.copy()
        return np.frompyfunc(lambda v: trunc(v.e, dt.itemsize * 8), 1, 1)(I.plain(self)).view(RArr)

    def all(self, *a, **k):
        return ZB(z3.And(*I.plain(self).reshape(-1)))

    def any(self, *a, **k):
        return ZB(z3.Or(*I.plain(self).reshape(-1)))

    def clip(self, lo, hi, *a, **k):
        return np.minimum(np.maximum(self, lo), hi)


DEC = [None]


class ZB:
    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return DEC[0](self.e)

    def __or__(self, o):
        return ZB(z3.Or(self.e, o.e))

    def __invert__(self):
        return ZB(z3.Not(self.e))


class Constants(H.Case):
    """quantize_layers on symbolic real constants, in a format with m fraction bits."""

    def __init__(self, q):
        super().__init__(f"constants:{q}", None)
        self.q = q

    def run(self):
        from acetone_nnet.generator import neural_network as N
        out = H.Out(self.name)
        m = frac(self.q)
        I.reset()
        net = Net()
        x = net.inp(1, 1, 1, 2)
        net.add(x, net.par("B0", 1, 1, 1, 2, q="Q0.15"))
        try:
            with G.scratch("qc") as d:
                gen = generate(net, d)
                layers = [k for k in gen.layers if type(k).__name__.startswith("Constant")]
                w = [z3.Real("w0"), z3.Real("w1")]
                gen.target_cfg["quantization"]["layers"]["B0"] = {"out": self.q}
                for k in gen.target_cfg["quantization"]["layers"].values():
                    k.update({a: self.q for a in ("in", "params", "out") if a in k})
                self.paths(out, N, gen, layers, w, m)
        except T.Unsupported as e:
            out.errors.append(f"cannot encode: {e}")
        return out

    def paths(self, out, N, gen, layers, w, m):
        if not layers:
            raise T.Unsupported("no constant layer")
        todo, n = [[]], 0
        rec = layers[0]
        shape = rec.constant.shape
        while todo:
            prefix = todo.pop()
            n += 1
            if n > 64:
                raise T.Unsupported("too many paths")
            del SIDE[:]
            trace, pc, warned = [], [], []

            def decide(e):
                k = len(trace)
                d = prefix[k] if k < len(prefix) else True
                if k >= len(prefix):
                    todo.append(trace + [False])
                trace.append(d)
                pc.append(e if d else z3.Not(e))
                return d
            a = np.empty(2, dtype=object)
            a[0], a[1] = RV(w[0]), RV(w[1])
            rec.constant = a.reshape(shape).view(RArr)
            DEC[0] = decide
            lay, gen.layers = gen.layers, [rec]
            real = N.logging
            N.logging = type("Log", (), {"warning": staticmethod(lambda *a: warned.append(a)), "error": staticmethod(lambda *a: warned.append(a)), "info": staticmethod(lambda *a: None),
                                         "debug": staticmethod(lambda *a: None)})
            refused = False
            try:
                gen.quantize_layers()
            except (ValueError, OverflowError, NotImplementedError, TypeError):
                refused = True
            finally:
                N.logging = real
                gen.layers = lay
            self.judge(out, rec, w, m, pc, bool(warned) or refused, refused)
            if out.items:
                return

    def judge(self, out, rec, w, m, pc, told, refused):
        side = list(SIDE)
        got = [] if refused else [v.e if isinstance(v, RV) else z3.RealVal(str(v)) for v in I.plain(rec.constant).reshape(-1)]
        del SIDE[:]
        want = [rint(x * (1 << m)).e for x in w]
        fits = z3.And([z3.And(e >= -32768, e <= 32767) for e in want])
        base = [z3.And(x * (1 << m) > -(1 << 40), x * (1 << m) < 1 << 40) for x in w] + pc + side + list(SIDE)
        if refused:
            qs = [("constants-refused", z3.And(fits))]
        else:
            qs = [("constants", z3.And(fits, z3.Or([g != e for g, e in zip(got, want)])))]
            if not told:
                qs.append(("constants-truncated", z3.Not(fits)))
        for kind, q in qs:
            out.info["queries"] = out.info.get("queries", 0) + 1
            S = z3.Solver()
            S.set("timeout", 20000)
            S.add(base + [q])
            t = time.time()
            r = str(S.check())
            smt.STATS["queries"] += 1
            smt.STATS["solver_s"] += time.time() - t
            smt.STATS[r if r in ("sat", "unsat") else "unknown"] += 1
            if r == "unknown":
                out.errors.append(kind + ": undecided")
            if r == "sat":
                md = S.model()
                vals = []
                for x in w:
                    v = md.eval(x, model_completion=True)
                    vals.append(float(v.as_fraction()))
                self.confirm(out, kind, vals, m)

    def confirm(self, out, kind, vals, m):
        import logging
        net = Net()
        net.inp(1, 1, 1, 2, q=self.q)
        net.k += 1
        net.inits.append(numpy_helper.from_array(np.array(vals, dtype=np.float32).reshape(1, 1, 1, 2), "B0"))
        net.cfg["B0"] = {"out": self.q}
        net.values["B0"], net.fmt["B0"] = net.values["X"], self.q
        net.add("X", "B0")
        seen = []

        class Hd(logging.Handler):
            def emit(self, record):
                if record.levelno >= logging.WARNING:
                    seen.append(record.getMessage())
        vals = [float(v) for v in np.array(vals, dtype=np.float32)]
        want = [int(np.rint(v * 2.0 ** m)) for v in vals]
        fits = all(-32768 <= v <= 32767 for v in want)
        with G.scratch("qd") as d:
            with open(os.path.join(d, TARGET + ".json"), "w") as f:
                json.dump(net.config(), f)
            h = Hd()
            logging.getLogger().addHandler(h)
            try:
                from acetone_nnet import CodeGenerator
                with inside(d):
                    gen = CodeGenerator(net.model(), target=TARGET)
                got = [int(v) for k in gen.layers if type(k).__name__.startswith("Constant") for v in k.constant.reshape(-1)]
            except Exception as e:      # noqa: BLE001
                got = f"{type(e).__name__}: {e}"
            finally:
                logging.getLogger().removeHandler(h)
        bad = {"constants-refused": fits and isinstance(got, str), "constants": fits and got != want,
               "constants-truncated": not fits and not isinstance(got, str) and not any("trunc" in s.lower() or "range" in s.lower() or "clip" in s.lower() for s in seen)}[kind]
        if bad:
            out.add(kind, f"{vals} in {self.q}: {got}, exactly {want}" + ("" if fits else ", without a warning"), replay={"values": vals, "got": got, "want": want})
        else:
            out.errors.append(f"{kind}: counterexample {vals} not confirmed ({got})")


# --------------------------------------------------------------- Q-format strings
class Rx:
    """A Python regular expression as Z3 constraints on a string."""

    def __init__(self):
        self.k = 0

    def cls(self, items):
        rs = []
        neg = False
        for op, av in items:
            op = str(op)
            if op == "NEGATE":
                neg = True
            elif op == "LITERAL":
                rs.append(z3.Re(chr(av)))
            elif op == "RANGE":
                rs.append(z3.Range(chr(av[0]), chr(av[1])))
            elif op == "CATEGORY" and str(av) == "CATEGORY_DIGIT":
                rs.append(z3.Range("0", "9"))
            else:
                raise T.Unsupported(f"character class {op} {av}")
        r = rs[0] if len(rs) == 1 else z3.Union(*rs)
        return z3.Intersect(z3.AllChar(z3.ReSort(z3.StringSort())), z3.Complement(r)) if neg else r

    def item(self, op, av):
        op = str(op)
        if op == "LITERAL":
            return z3.Re(chr(av))
        if op == "IN":
            return self.cls(av)
        if op == "ANY":
            return self.cls([("NEGATE", None), ("LITERAL", 10)])
        if op in ("MAX_REPEAT", "MIN_REPEAT", "POSSESSIVE_REPEAT"):
            lo, hi, sub = av
            r = self.seq(sub)
            hi = None if str(hi) == "MAXREPEAT" else int(hi)
            if hi is None:
                return z3.Star(r) if lo == 0 else z3.Concat(*([r] * lo + [z3.Star(r)])) if lo > 1 else z3.Plus(r)
            return z3.Loop(r, lo, hi)
        if op == "SUBPATTERN":
            return self.seq(av[3])
        if op == "BRANCH":
            return z3.Union(*[self.seq(b) for b in av[1]])
        raise T.Unsupported("regular expression " + op)

    def seq(self, sub):
        rs = [self.item(op, av) for op, av in sub]
        if not rs:
            return z3.Re("")
        return rs[0] if len(rs) == 1 else z3.Concat(*rs)

    def match(self, pattern, s, full):
        """(constraints, {group: string})"""
        import re._parser as P
        parts, cons, groups = [], [], {}
        tail = not full
        for op, av in P.parse(pattern):
            o = str(op)
            if o == "AT":
                if str(av) == "AT_BEGINNING" or str(av) == "AT_BEGINNING_STRING":
                    if parts:
                        raise T.Unsupported("anchor")
                elif str(av) == "AT_END":
                    if not full:
                        e = self.fresh()
                        cons.append(z3.Or(e == "", e == "\n"))
                        parts.append(e)
                    tail = False
                elif str(av) == "AT_END_STRING":
                    tail = False
                else:
                    raise T.Unsupported("anchor")
                continue
            e = self.fresh()
            cons.append(z3.InRe(e, self.item(op, av)))
            if o == "SUBPATTERN" and av[0]:
                groups[av[0]] = e
            parts.append(e)
        if tail:
            parts.append(self.fresh())
        return cons + [s == (parts[0] if len(parts) == 1 else z3.Concat(*parts))], groups

    def fresh(self):
        self.k += 1
        return z3.String(f"part!{self.k}")


class SText:
    def __init__(self, e):
        self.e = e


class Match:
    def __init__(self, groups):
        self.g = groups

    def groups(self):
        return tuple(SText(self.g[k]) for k in sorted(self.g))

    def group(self, *ks):
        r = tuple(SText(self.g[k]) for k in ks)
        return r[0] if len(r) == 1 else r

    __getitem__ = group


def to_int(e):
    neg = z3.PrefixOf("-", e)
    return z3.If(neg, -z3.StrToInt(z3.SubString(e, 1, z3.Length(e) - 1)), z3.StrToInt(e))


class Parse(H.Case):
    """parse_q_format on a symbolic string: accepted exactly when it is Q<int>.<digits>, with these two numbers."""

    SPEC = r"Q(-?[0-9]+)\.([0-9]+)"

    def __init__(self, n):
        super().__init__(f"parse:{n}", None, timeout=240)
        self.n = n

    def run(self):
        from acetone_nnet.quantize import qform
        out = H.Out(self.name)
        s = z3.String("s")
        alpha = z3.Star(z3.Range(chr(0), chr(126)))
        base = [z3.Length(s) == self.n, z3.InRe(s, alpha)]
        calls = []

        class Re:
            flag = True

            @staticmethod
            def _m(pattern, q, full):
                if not isinstance(q, SText):
                    return getattr(re, "fullmatch" if full else "match")(pattern, q)
                cons, groups = Rx().match(pattern, q.e, full)
                calls.append((pattern, full, cons))
                return Match(groups) if Re.flag else None

            match = staticmethod(lambda p, q, flags=0: Re._m(p, q, False))
            fullmatch = staticmethod(lambda p, q, flags=0: Re._m(p, q, True))

            @staticmethod
            def compile(p, flags=0):
                return type("Pat", (), {"match": staticmethod(lambda q: Re._m(p, q, False)), "fullmatch": staticmethod(lambda q: Re._m(p, q, True))})

        def shim(x, *a):
            return SInt(to_int(x.e), x.e) if isinstance(x, SText) else int(x, *a)

        class SInt:
            def __init__(self, e, text):
                self.e, self.text = e, text
        old = {k: qform.__dict__.get(k) for k in ("re", "int")}
        qform.re, qform.int = Re, shim
        try:
            Re.flag = True
            r = qform.parse_q_format(SText(s))
            Re.flag = False
            r0 = qform.parse_q_format(SText(s))
        except (T.Unsupported, AttributeError, TypeError) as e:
            out.errors.append(f"cannot encode: {e}")
            return out
        finally:
            for k, v in old.items():
                if v is None:
                    delattr(qform, k)
                else:
                    setattr(qform, k, v)
        if r0 is not None or not isinstance(r, tuple) or len(r) != 2 or len(calls) != 2:
            out.errors.append("cannot encode: not one match")
            return out
        cons = calls[0][2]
        accept = z3.InRe(s, self.language(calls[0]))
        spec = z3.InRe(s, Rx().seq(__import__("re._parser", fromlist=["x"]).parse(self.SPEC)))
        dot = z3.IndexOf(s, ".", 0)
        halves = (z3.SubString(s, 1, dot - 1), z3.SubString(s, dot + 1, z3.Length(s) - dot - 1))
        got = [v.e if isinstance(v, SInt) else z3.IntVal(v) for v in r]
        want = [to_int(h) for h in halves]
        for kind, q in (("accepts", [accept, z3.Not(spec)]), ("refuses", [spec, z3.Not(accept)]), ("value", [*cons, spec, z3.Or([g != w for g, w in zip(got, want)])])):
            out.info["queries"] = out.info.get("queries", 0) + 1
            S = z3.Solver()
            S.set("timeout", 60000)
            S.add(base + q)
            if kind == "value" and all(isinstance(v, SInt) for v in r):
                # the same digits are the same number
                S2 = z3.Solver()
                S2.set("timeout", 30000)
                S2.add(base + [*cons, spec, z3.Or([v.text != h for v, h in zip(r, halves)])])
                if S2.check() == z3.unsat:
                    smt.STATS["unsat"] += 1
                    smt.STATS["queries"] += 1
                    continue
            t = time.time()
            res = str(S.check())
            smt.STATS["queries"] += 1
            smt.STATS["solver_s"] += time.time() - t
            smt.STATS[res if res in ("sat", "unsat") else "unknown"] += 1
            if res == "unknown":
                out.errors.append(kind + ": undecided")
            if res == "sat":
                txt = self.text(S.model().eval(s, model_completion=True))
                real = qform.parse_q_format(txt)
                m = re.fullmatch(self.SPEC, txt)
                ref = (int(m.group(1)), int(m.group(2))) if m else None
                if real != ref:
                    out.add("parse", f"parse_q_format({txt!r}) is {real}, not {ref}", replay={"text": txt})
                else:
                    out.errors.append(f"{kind}: counterexample {txt!r} not confirmed")
        out.info["functions"] = ["parse_q_format"]
        return out

    @staticmethod
    def language(call):
        """The regular language of the strings that match."""
        import re._parser as P
        pattern, full, _ = call
        rx, rs, tail = Rx(), [], not full
        for op, av in P.parse(pattern):
            if str(op) == "AT":
                if str(av) == "AT_END" and not full:
                    rs.append(z3.Option(z3.Re("\n")))
                if str(av) in ("AT_END", "AT_END_STRING"):
                    tail = False
                continue
            rs.append(rx.item(op, av))
        if tail:
            rs.append(z3.Full(z3.ReSort(z3.StringSort())))
        return rs[0] if len(rs) == 1 else z3.Concat(*rs)

    @staticmethod
    def text(v):
        return re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda m: chr(int(m.group(1), 16)), v.as_string())


# --------------------------------------------------------------- the matrix
def single(rows, k, cols, qi, qw, qo, lead=(1, 1), relu=False, swap=False):
    def f(n):
        if swap:
            x = n.inp(*lead, k, cols, q=qi)
            y = n.mm(n.par("W0", 1, 1, rows, k, q=qw), x, qo)
        else:
            x = n.inp(*lead, rows, k, q=qi)
            y = n.mm(x, n.par("W0", 1, 1, k, cols, q=qw), qo)
        if relu:
            n.relu(y)
    return f


def fused(f):
    def g(n):
        n.fused = True
        f(n)
    return g


def chain(dims, fmts, relus, adds=True):
    """dims: widths; fmts: [input, (weight, output), ...]"""
    def f(n):
        t = n.inp(1, 1, 1, dims[0], q=fmts[0])
        for k in range(1, len(dims)):
            qw, qo = fmts[k]
            t = n.mm(t, n.par(f"W{k}", 1, 1, dims[k - 1], dims[k], q=qw), qo)
            if adds:
                t = n.add(t, n.par(f"B{k}", 1, 1, 1, dims[k], q=qo))
            if relus[k - 1]:
                t = n.relu(t)
    return f


FMTS = ["Q0.15", "Q2.13", "Q-1.16", "Q7.8", "Q15.0", "Q-2.17", "Q5.10"]


def cases():
    out = []
    for qi in FMTS:
        for qw in FMTS:
            for qo in FMTS:
                s = frac(qi) + frac(qw) - frac(qo)
                if s > 31:
                    continue
                keep = thorough() or (FMTS.index(qi) + 2 * FMTS.index(qw) + 3 * FMTS.index(qo)) % 3 == 0
                if keep or s < 0:
                    out.append(Quant(f"formats:{qi}:{qw}:{qo}", single(1, 2, 2, qi, qw, qo), expect="ok" if s >= 0 else "refuse"))
    shapes = [(1, 1, 1), (1, 5, 3), (3, 1, 2), (2, 3, 4), (4, 4, 1), (1, 8, 5)]
    for r, k, c in shapes:
        for swap in (False, True):
            for relu in (False, True):
                for opt in (False, True):
                    out.append(Quant(f"shape:{r}x{k}x{c}:{'wx' if swap else 'xw'}{':relu' if relu else ''}{':opt' if opt else ''}",
                                     single(r, k, c, "Q0.15", "Q2.13", "Q3.12", relu=relu, swap=swap), optimization=opt, expect="refuse" if opt and relu else "ok"))
                    if relu and opt:
                        out.append(Quant(f"shape:{r}x{k}x{c}:{'wx' if swap else 'xw'}:fused", fused(single(r, k, c, "Q0.15", "Q2.13", "Q3.12", relu=True, swap=swap)), optimization=True))
    out.append(Quant("shape:channels", single(2, 3, 2, "Q0.15", "Q0.15", "Q2.13", lead=(1, 3))))
    rng = random.Random(19)
    for k in range(40 if thorough() else 14):
        depth = rng.choice([2, 2, 3])
        dims = [rng.choice([1, 2, 3, 4]) for _ in range(depth + 1)]
        fm = [rng.choice(FMTS[:4])]
        prev = fm[0]
        for _ in range(depth):
            qw = rng.choice(FMTS)
            qo = rng.choice([q for q in FMTS if 0 <= frac(prev) + frac(qw) - frac(q) <= 31])
            fm.append((qw, qo))
            prev = qo
        rl = [rng.random() < 0.5 for _ in range(depth)]
        out.append(Quant(f"chain:{k}", fused(chain(dims, fm, rl, adds=rng.random() < 0.8)), optimization=rng.random() < 0.5))

    def residual(n):
        x = n.inp(1, 1, 2, 2, q="Q2.13")
        y = n.mm(x, n.par("W0", 1, 1, 2, 2, q="Q0.15"), "Q2.13")
        z = n.relu(n.add(y, x))
        n.mm(z, n.par("W1", 1, 1, 2, 3, q="Q1.14"), "Q4.11")

    def twice(n):
        x = n.inp(1, 1, 2, 2, q="Q2.13")
        a = n.mm(x, n.par("W0", 1, 1, 2, 2, q="Q0.15"), "Q3.12")
        b = n.mm(n.par("W1", 1, 1, 2, 2, q="Q1.14"), x, "Q3.12")
        n.add(a, b)

    def products(n):
        x = n.inp(1, 1, 2, 2, q="Q2.13")
        a = n.mm(x, n.par("W0", 1, 1, 2, 2, q="Q0.15"), "Q3.12")
        n.mm(x, a, "Q6.9")
    for nm, f in (("residual", residual), ("twice", twice), ("products", products)):
        for opt in (False, True):
            out.append(Quant(f"net:{nm}{':opt' if opt else ''}", f, optimization=opt))

    def bcast(n):
        x = n.inp(1, 2, 2, 3, q="Q2.13")
        n.relu(n.add(x, n.par("B", 1, 1, 1, 3, q="Q2.13")))

    def add3(n):
        x = n.inp(1, 1, 2, 3, q="Q2.13")
        n.add(n.add(x, n.par("B", 1, 1, 2, 3, q="Q2.13")), x)
    for nm, f in (("broadcast", bcast), ("three", add3)):
        out.append(Quant(f"add:{nm}", f))
    # operands that are not aligned, operations that have no fixed-point implementation: refused, or as declared
    for qa, qb, qo in (("Q2.13", "Q0.15", "Q2.13"), ("Q2.13", "Q2.13", "Q3.12"), ("Q0.15", "Q2.13", "Q0.15"), ("Q3.12", "Q3.12", "Q2.13")):
        out.append(Quant(f"align:{qa}:{qb}:{qo}", (lambda a, b, o: lambda n: n.add(n.inp(1, 1, 1, 3, q=a), n.par("B", 1, 1, 1, 3, q=b), o))(qa, qb, qo), expect="refuse"))
    out.append(Quant("op:mul", lambda n: n.mul(n.inp(1, 1, 1, 3, q="Q2.13"), n.par("B", 1, 1, 1, 3, q="Q2.13"), "Q2.13"), expect="refuse"))
    for op in ("Sub",):
        out.append(Quant(f"op:{op}", (lambda o: lambda n: n.add(n.inp(1, 1, 1, 3, q="Q2.13"), n.par("B", 1, 1, 1, 3, q="Q2.13"), "Q2.13", op=o))(op), expect="refuse"))
    X4 = dict(q="Q2.13")
    moves = {
        "transpose": lambda n: n.move("Transpose", [n.inp(1, 2, 2, 3, **X4)], lambda v: v.transpose(0, 2, 3, 1), perm=[0, 2, 3, 1]),
        "flatten": lambda n: n.move("Flatten", [n.inp(1, 2, 2, 3, **X4)], lambda v: v.reshape(1, -1)),
        "relu": lambda n: n.relu(n.inp(1, 2, 2, 3, **X4)),
        "maxpool": lambda n: n.maxpool(n.inp(1, 2, 3, 3, **X4), 2, 1),
        "reducemax": lambda n: n.reduce("ReduceMax", n.inp(1, 2, 2, 3, **X4), 2),
        "reducemin": lambda n: n.reduce("ReduceMin", n.inp(1, 2, 2, 3, **X4), 1),
        "gather": lambda n: n.move("Gather", [n.inp(1, 3, 2, 2, **X4)], lambda v: v[:, [2, 0]], n.const([2, 0]), axis=1),
        "tile": lambda n: n.move("Tile", [n.inp(1, 2, 2, 2, **X4)], lambda v: np.tile(v, (1, 2, 1, 3)), n.const([1, 2, 1, 3])),
    }

    def concat(n):
        x = n.inp(1, 2, 2, 2, **X4)
        r = n.relu(x)
        n.move("Concat", [x, r], lambda a, b: np.concatenate([a, b], 1), axis=1)
    moves["concat"] = concat
    for k, f in moves.items():
        out.append(Quant(f"move:{k}", f, expect="refuse"))
    out += [Constants(q) for q in FMTS]
    out += [Parse(k) for k in range(0, 24 if thorough() else 12)]
    return out
