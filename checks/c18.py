"""Parameters and test data reach the generated program bit-exactly."""
import contextlib
import importlib
import os
import re
import struct
import subprocess

import numpy as np

from checks import c17, fe, matrix, ops
from vlib import harness as H
from vlib import llvmexec as L
from vlib import mainprog as MP
from vlib import models
from vlib import program as G
from vlib import symfp as S
from vlib import symstr as X
from vlib import terms as T
from vlib.harness import thorough
from vlib.symint import Undecided

z3 = S.z3
LEVEL = "bounded"
BOUNDS = ("the literal printed for every single and double precision value, hexadecimal and decimal (symbolic bits); the array initialiser printed for symbolic arrays of 1 to 3 dimensions in "
          "every memory order; small networks with parameters of every kind, whose values need every bit of their type, as hexadecimal or decimal literals and as binary file, in single and "
          "double precision, every input symbolic; main() on hard samples given in every memory order and type")
ASSUMPTIONS = ["Python's str and repr of a float denote it exactly; C compilers read hexadecimal and decimal constants exactly and round to the nearest value of the declared type"]


def gn():
    return importlib.import_module("acetone_nnet.generator.neural_network")


@contextlib.contextmanager
def patched(m):
    over = {"float": X.shim_float(), "np": S.shim_np(S.Tokens()), "math": S.shim_math()}
    old = {k: m.__dict__.get(k, contextlib) for k in over}
    m.__dict__.update(over)
    try:
        yield
    finally:
        for k, v in old.items():
            if v is contextlib:
                del m.__dict__[k]
            else:
                m.__dict__[k] = v


def dense(dtype):
    return fe.js(lambda j, x: j.dense(x, 2), (3,), dtype="float64" if dtype == "double" else "float32")


def generator(dtype, **kw):
    P = G.Params("rand")
    with G.scratch() as d:
        return G.generate(dense(dtype)(P), d, **kw)


def bits_of(x):
    return struct.unpack("<Q", struct.pack("<d", x))[0]


def from_bits(b):
    return struct.unpack("<d", struct.pack("<Q", b))[0]


class Literal(H.Case):
    """data2c on a symbolic value."""

    def __init__(self, name, dtype, to_hex, elem):
        super().__init__(name, None, timeout=200)
        self.dtype, self.to_hex, self.elem = dtype, to_hex, elem

    def run(self):
        out = H.Out(self.name)
        gen = generator(self.dtype, to_hex=self.to_hex)
        sort = S.F32 if self.elem == "f32" else S.F64
        raw = z3.BitVec("v", 32 if sort == S.F32 else 64)
        v = S.SFloat(z3.fpBVToFP(raw, sort), self.elem)
        want = S.conv(v.e, S.F64)
        X.REG.clear()
        X.MODE["opaque"] = False
        ex = S.FPExplorer([], timeout=60000)
        bad = []

        def target(e):
            return S.conv(S.conv(e, S.F32), S.F64) if self.dtype == "float" else e

        def after(x, cond, res, exc):
            if exc is not None:
                if x.sat(*cond):
                    bad.append((f"raises {type(exc).__name__}", x.last))
                return
            ok, b = X.value(X.decode(res))
            got = target(z3.fpBVToFP(b, S.F64))
            w = target(want)
            same = z3.And(ok, z3.Or(got == w, z3.And(z3.fpIsNaN(got), z3.fpIsNaN(w))))
            if x.sat(*cond, z3.Not(same)):
                bad.append(("denotes another value", x.last))
        try:
            with patched(gn()):
                ex.run(lambda: gen.data2c(v), after)
        except Undecided as e:
            out.errors.append(str(e))
        out.info.update(queries=ex.queries, outputs=1, branches=ex.paths, mode="tag", functions=["py CodeGenerator.data2c"])
        if not ex.paths:
            out.errors.append("vacuous")
        for what, m in bad:
            r = m.eval(raw, model_completion=True).as_long()
            if self.confirm(out, gen, what, r):
                break
        else:
            if bad:
                out.errors.append(f"does not reproduce: {bad[0][0]}")
        return out

    def confirm(self, out, gen, what, raw):
        t = np.float32 if self.elem == "f32" else np.float64
        v = np.frombuffer(struct.pack("<I" if t is np.float32 else "<Q", raw), dtype=t)[0]
        v = float(v) if self.elem == "py" else v
        try:
            text = gen.data2c(v)
        except Exception as e:      # noqa: BLE001
            out.add("literal", f"data2c({v!r}) raises {e!r}", replay={"value": float(v).hex()})
            return True
        ct = self.dtype
        want = float(np.float32(v)) if ct == "float" else float(v)
        got = compiled(ct, text)
        if isinstance(got, float) and (bits_of(got) == bits_of(want) or got != got and want != want):
            return False
        out.add("literal", f"the literal of {float(v).hex()} ({float(v)!r}) is {text}, which the C compiler reads as {got if isinstance(got, str) else got.hex()}",
                replay={"value": float(v).hex(), "text": text, "read": str(got)})
        return True


def compiled(ct, text):
    """What the C compiler makes of the literal."""
    with G.scratch("lit") as d:
        with open(os.path.join(d, "a.c"), "w") as f:
            f.write(f'#include "h.h"\n#include <stdio.h>\nconst {ct} v[1] = {{{text}}};\nint main(void) {{ printf("%a\\n", (double)v[0]); return 0; }}\n')
        open(os.path.join(d, "h.h"), "w").close()
        r = subprocess.run(["gcc", "-w", "a.c", "-o", "a", "-lm"], cwd=d, capture_output=True, text=True)
        if r.returncode:
            return "a compile error: " + r.stderr.strip().split("\n")[0][:150]
        return float.fromhex(subprocess.run([os.path.join(d, "a")], capture_output=True, text=True).stdout.strip())


class Initialiser(H.Case):
    """flatten_array_order_c on arrays of symbolic values in several memory orders: the k-th literal is the k-th element in C order."""

    def __init__(self, name, dtype, to_hex, shape, how):
        super().__init__(name, None)
        self.dtype, self.to_hex, self.shape, self.how = dtype, to_hex, shape, how

    def arrange(self, flat):
        a = np.empty(len(flat), dtype=object) if isinstance(flat, list) else flat
        if isinstance(flat, list):
            a[:] = flat
        a = a.reshape(self.shape)
        if self.how == "F":
            return np.asfortranarray(a)
        if self.how == "T":
            return a.T
        if self.how == "slice":
            b = np.empty((*self.shape[:-1], self.shape[-1] * 2), dtype=a.dtype)
            b[..., ::2] = a
            b[..., 1::2] = a
            return b[..., ::2]
        if self.how == "swap":
            return np.swapaxes(a, 0, 1)
        return a

    def run(self):
        out = H.Out(self.name)
        gen = generator(self.dtype, to_hex=self.to_hex)
        n = int(np.prod(self.shape))
        sort, kind = (S.F64, "f64") if self.dtype == "double" else (S.F32, "f32")
        vs = [z3.FP(f"a{i}", sort) for i in range(n)]
        arr = self.arrange([S.SFloat(v, kind) for v in vs])
        want = [x.e for x in arr.reshape(-1)]
        X.REG.clear()
        ex = S.FPExplorer([z3.Not(z3.Or(z3.fpIsNaN(v), z3.fpIsInf(v))) for v in vs], timeout=60000)       # the literals of the others: see Literal
        bad = []

        def after(x, cond, res, exc):
            if exc is not None:
                bad.append(f"raises {exc!r}")
                return
            ps = X.pieces(X.decode(res))
            if len(ps) != n:
                bad.append(f"prints {len(ps)} values of {n}")
                return
            for p, w in zip(ps, want):
                ok, b = X.value(p)
                w = S.conv(w, S.F64)
                fin = z3.Not(z3.Or(z3.fpIsNaN(w), z3.fpIsInf(w)))
                if x.sat(*cond, fin, z3.Not(z3.And(ok, z3.fpBVToFP(b, S.F64) == w))):
                    bad.append("prints another value or order")
                    return
        X.MODE["opaque"] = True
        try:
            with patched(gn()):
                ex.run(lambda: gen.flatten_array_order_c(arr), after)
        except Undecided as e:
            out.errors.append(str(e))
        finally:
            X.MODE["opaque"] = False
        out.info.update(queries=ex.queries, outputs=n, branches=ex.paths, mode="tag", functions=["py CodeGenerator.flatten_array_order_c"])
        if bad:
            flat = (np.arange(n) + 0.5).astype(np.float64 if self.dtype == "double" else np.float32)
            a = self.arrange(flat)
            try:
                text = gen.flatten_array_order_c(a)
                got = [float.fromhex(t) if self.to_hex else float(t) for t in re.sub(r"[{}\s]", "", text).split(",")]
            except Exception as e:      # noqa: BLE001
                got = repr(e)
            if got != [float(v) for v in a.reshape(-1)]:
                out.add("initialiser", f"array of shape {a.shape} in order {self.how}: {bad[0]}: {str(got)[:150]}", replay={"array": a.tolist(), "printed": got})
            else:
                out.errors.append(f"does not reproduce: {bad[0]}")
        return out


# ------------------------------------------------------------------ whole programs
class Hard(G.Params):
    """Unique values that need every bit of their type, over many magnitudes and both signs."""
    dtype = np.float32

    def __call__(self, name, *shape, pos=False, dtype=None, lo=-2.0, hi=2.0):
        dt = self.dtype
        shape = tuple(shape)
        size = int(np.prod(shape, dtype=int))
        self.shapes[name] = shape
        vals = np.empty(size, dtype=dt)
        for i in range(size):
            k = self.n
            self.n += 1
            rng = np.random.default_rng(1000 + k)
            if dt == np.float32:
                m = int(rng.integers(0, 1 << 22)) * 2 + 1
                e = [127, 126, 130, 100, 140, 1, 0, 200, 60][k % 9]
                v = np.frombuffer(struct.pack("<I", (e << 23) | m), dtype=np.float32)[0]
            else:
                m = int(rng.integers(0, 1 << 50)) * 4 + 1
                e = [1023, 1022, 1030, 1000, 1040, 1, 0, 1200, 900][k % 9]
                v = np.frombuffer(struct.pack("<Q", (e << 52) | m), dtype=np.float64)[0]
            if not pos and k % 2:
                v = -v
            vals[i] = v
            self.tags[float(v)] = (name, i)
        if pos:
            self.pos |= {f"{name}[{i}]" for i in range(size)}
        return vals.reshape(shape)


class Program(H.Case):
    """A whole program whose parameters are hard values: every one is read with its exact value at its place."""

    def __init__(self, name, build, dtype, gen, **kw):
        super().__init__(name, build, gen=dict(gen, nb_tests=1), **kw)
        self.dtype = dtype

    def run(self):
        out = H.Out(self.name)
        try:
            self.attempt(out)
        except T.Unsupported as e:
            out.errors.append(f"cannot encode: {e}")
        return out

    def attempt(self, out):
        P = Hard("tag")
        P.dtype = np.float64 if self.dtype == "double" else np.float32
        with G.scratch() as d:
            model = self.build(P)
            try:
                gen = G.generate(model, d, **self.gen)
            except G.GenError as e:
                out.add("generator-error", str(e), replay={"error": str(e)})
                return
            ct = H.ctype_of(gen)
            if ct != self.dtype:
                out.add("data-type", f"the model is {self.dtype}, the program {ct}", replay={})
                return
            nin = H.n_inputs(model) if self.spec is None else int(gen.layers[0].size)
            if gen.bin_dataset and not self.link(out, d):
                return
            xs = [T.var(f"x[{i}]") for i in range(nin)]
            spec = H._spec(self, model, P, xs, True)
            files = ("inference.c", "global_vars.c", "parameters.c", "parameters_bin.c")
            self.opts["files"] = files
            try:
                module = G.load_module(d, files=files)
            except L.CompileError as e:
                out.add("compile-error", next((x for x in str(e).split("\n") if "error" in x), "")[:300], replay={"error": str(e)[:2000]})
                return
            lift, found = G.tag_lifter(P)
            try:
                r = G.run_inference(module, nin, len(spec), lift=lift, ctype=ct)
            except L.Fault as e:
                H.confirm_fault(self, out, d, nin, len(spec), ct, files, str(e))
                return
            i = out.info
            i.update(steps=r.ex.steps, functions=[f"C {f}" for f in r.ex.funcs_run], branches=r.ex.branches, outputs=len(spec), mode="tag", values=P.n)
            if len(found) < P.n:
                self.lost(out, P, found, d, ct)
                return
            H._judge(self, out, "tag", P, d, model, gen, r, spec, nin, len(spec), ct, P.pos, True, files)

    def link(self, out, d):
        """The binary files link as the Makefile says."""
        r = subprocess.run(["make", "inference"], cwd=d, capture_output=True, text=True)
        if r.returncode:
            msg = next((x for x in (r.stdout + r.stderr).split("\n") if "error" in x or "undefined" in x), r.stderr[-200:])
            out.add("link-error", msg[:300], replay={"error": (r.stdout + r.stderr)[-2000:]})
            return False
        return True

    def lost(self, out, P, found, d, ct):
        """Some parameter value does not appear in the program: look in the compiled data."""
        names = re.findall(r"extern const \w+ (\w+)\[(\d+)\];", open(os.path.join(d, "inference.h")).read())
        code = '#include <stdio.h>\n#include "inference.h"\nint main(void) {' + "".join(f'for (int i = 0; i < {n}; i++) printf("%a\\n", (double){v}[i]);' for v, n in names) + "return 0; }\n"
        with open(os.path.join(d, "dump.c"), "w") as f:
            f.write(code)
        src = [f for f in ("parameters.c", "parameters.o", "global_vars.c") if os.path.exists(os.path.join(d, f)) and not (f == "parameters.o" and os.path.exists(os.path.join(d, "parameters.c")))]
        r = subprocess.run(["gcc", "-w", "dump.c", *src, "-o", "dump", "-lm"], cwd=d, capture_output=True, text=True)
        if r.returncode:
            out.errors.append("dump: " + r.stderr[:200])
            return
        txt = subprocess.run([os.path.join(d, "dump")], capture_output=True, text=True).stdout
        have = {float.fromhex(t) for t in txt.split()}
        gone = [(k, v) for v, k in P.tags.items() if v not in have]
        if gone:
            (n, i), v = gone[0]
            out.add("inexact", f"{len(gone)} of {P.n} parameter values do not appear in the program, first {n}[{i}] = {v.hex()}", replay={"parameter": n, "index": i, "value": v.hex()})
        else:
            out.errors.append(f"{P.n - len(found)} values never read")


def conv_add(m):
    x = m.op("Conv", [m.inp(1, 2, 3, 3), m.par("W", 3, 2, 2, 2), m.par("B", 3)], kernel_shape=[2, 2])
    x = m.op("BatchNormalization", [x, m.par("s", 3), m.par("b", 3), m.par("mu", 3), m.par("v", 3, pos=True)])
    return m.op("Add", [x, m.par("D", 1, 3, 1, 1)])


def gemm_t(tb):
    def f(m):
        return m.op("Gemm", [m.inp(1, 3), m.par("W", *((2, 3) if tb else (3, 2))), m.par("B", 2)], transB=tb)
    return f


def matmul(m):
    return m.op("Add", [m.op("MatMul", [m.inp(1, 3), m.par("W", 3, 4)]), m.par("B", 1, 4)])


def elementwise(op, left):
    def f(m):
        x, c = m.inp(1, 2, 2, 3), m.par("C", 1, 2, 2, 3)
        return m.op(op, [c, x] if left else [x, c])
    return f


def const_out(m):
    x = m.inp(1, 2, 3)
    return m.op("Sub", [m.op("Mul", [x, m.par("C", 1, 2, 3)]), m.par("D", 1, 1, 3)])


def nets(dtype):
    f = {}
    for n, b in {"conv+bn+add": conv_add, "gemm": gemm_t(0), "gemm^T": gemm_t(1), "matmul+add": matmul, "mul": elementwise("Mul", False), "sub": elementwise("Sub", True),
                 "div": elementwise("Div", False), "sub+mul": const_out}.items():
        f[n] = ops.single(typed(b, dtype))
    return f


def typed(b, dtype):
    """The model in the given precision."""
    from onnx import TensorProto

    def f(m):
        if dtype == "double":
            inp = m.inp
            m.inp = lambda *s, name=None, dtype=TensorProto.DOUBLE: inp(*s, name=name, dtype=dtype)
            m.out_type = TensorProto.DOUBLE
        return b(m)
    return f


def cases():
    out = []
    for dt in ("float", "double"):
        for hx in (True, False):
            for el in (("f32", "f64", "py") if dt == "float" else ("f64", "py")):
                out.append(Literal(f"literal:{dt}:{'hex' if hx else 'dec'}:{el}", dt, hx, el))
            for shape, hows in (((3,), ("C", "slice")), ((2, 3), ("C", "F", "T", "slice", "swap")), ((2, 1, 3), ("C", "F", "T", "slice", "swap")), ((2, 2, 1, 3), ("F", "T"))):
                for how in hows:
                    out.append(Initialiser(f"array:{dt}:{'hex' if hx else 'dec'}:{'x'.join(map(str, shape))}:{how}", dt, hx, shape, how))
    forms = {"hex": {}, "dec": dict(to_hex=False), "bin": dict(bin_dataset=True), "bin64": dict(bin_dataset=True, target_page_size=64)}
    for dt in ("float", "double"):
        for f, g in forms.items():
            for n, b in nets(dt).items():
                out.append(Program(f"net:{dt}:{f}:{n}", b, dt, g))
            for v in ("6loops", "std_gemm_nn", "std_gemm_tt"):
                if f != "bin64":
                    out.append(Program(f"net:{dt}:{f}:conv:{v}", ops.single(typed(conv_add, dt)), dt, dict(g, versions={"Conv2D": v})))
    nets2 = dict(c17.NETS, image=ops.single(lambda m: m.op("Relu", [m.inp(1, 2, 2, 3)])))
    for dt, k in (("float", "gemm23"), ("float", "conv"), ("double", "double"), ("double", "doubleconv"), ("float", "image")):
        for f, g in (("hex", {}), ("dec", dict(to_hex=False)), ("bin", dict(bin_dataset=True))):
            for el in ("float32", "float64"):
                for order in ("C", "F", "T", "slice", "3d") + (("shape",) if k == "image" else ()):
                    if el[5:] != ("32" if dt == "float" else "64") and order not in "CF":
                        continue
                    out.append(MP.MainCase(f"samples:{k}:{f}:{el}:{order}", nets2[k], 3, gen=g, hard=getattr(np, el), order=order))
            if f != "bin":
                out.append(MP.MainCase(f"samples:{k}:{f}:file", nets2[k], 3, gen=g, ext="file", hard=getattr(np, "float64" if dt == "double" else "float32")))
    for n, b in {"js": fe.js(lambda j, x: j.dense(j.flatten(j.bn(j.conv(x, 2, 2))), 2), (1, 3, 3), dtype="float64"), "nnet": fe.nnet([3, 4, 2])}.items():
        for f, g in forms.items():
            out.append(Program(f"net:{n}:{f}", b, "double" if n == "js" else "float", g, spec=fe.spec))
    return out
