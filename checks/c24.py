import contextlib
import itertools
import math
import sys

import numpy as np

from vlib import harness as H
from vlib import symint as Y
from vlib.harness import thorough

z3 = Y.z3
LEVEL = "bounded"
BOUNDS = ("compute_padding and the constructors of the convolution and pooling layers executed on symbolic integers: spatial sizes and kernels from 1 to 1024, dilations from "
          "1 to 64, explicit pads from 0 to 256, output sizes from 0 to 2047, strides from 1 to 12 (thorough: 32) in turn; every path")
ASSUMPTIONS = ["the float quotient of two integers below 2^24 has the floor and ceiling of the exact quotient"]
HI, SD, EP, OUT = 1024, 64, 256, 2047
STRIDES = range(1, 33) if thorough() else range(1, 13)


def eff(k, d):
    return (k - 1) * d + 1


def same_total(n, k, s, d):
    """ONNX: output ceil(n / s); the total padding that yields it."""
    out = -Y.floordiv(-n, s)
    t = (out - 1) * s + eff(k, d) - n
    return z3.If(t < 0, z3.IntVal(0), t)


def rule(name, n, k, s, d):
    """(before, after) along one axis."""
    zero = z3.IntVal(0)
    if name in ("VALID", "valid"):
        return zero, zero
    t = same_total(n, k, s, d)
    h = Y.floordiv(t, z3.IntVal(2))
    return (h, t - h) if name in ("SAME_UPPER", "same") else (t - h, h)


def rule_py(name, n, k, s, d):
    if name in ("VALID", "valid"):
        return 0, 0
    t = max((-(-n // s) - 1) * s + (k - 1) * d + 1 - n, 0)
    return (t // 2, t - t // 2) if name in ("SAME_UPPER", "same") else (t - t // 2, t // 2)


class PadRule(H.Case):
    """compute_padding(rule, ...) on symbolic sizes."""

    def __init__(self, name, rl, dil):
        super().__init__(name, None)
        self.rl, self.dil = rl, dil

    def run(self):
        out = H.Out(self.name)
        for s in STRIDES:
            self.stride(out, s)
            if out.items or out.errors:
                break
        return out

    def stride(self, out, s):
        from acetone_nnet.ir import Layer
        names = ["h", "w", "kh", "kw", "s", "d"]
        v = {n: Y.var(n) for n in names}
        pre = [v["s"].e == s]
        v["s"] = Y.SInt(z3.IntVal(s))
        for n in names:
            pre += Y.within(v[n], 1, SD if n in "sd" else HI)
        args = [v["h"], v["w"], v["kh"], v["kw"], v["s"]] + ([v["d"]] if self.dil else [])
        d = v["d"].e if self.dil else z3.IntVal(1)
        if self.rl == "explicit":
            pads = [Y.var(n) for n in ("p0", "p1", "p2", "p3")]
            for p in pads:
                pre += Y.within(p, 0, EP)
            names += ["p0", "p1", "p2", "p3"]
            want = [p.e for p in pads]
            rl = pads
        else:
            (t, b), (lf, r) = rule(self.rl, v["h"].e, v["kh"].e, v["s"].e, d), rule(self.rl, v["w"].e, v["kw"].e, v["s"].e, d)
            want = [t, lf, b, r]
            rl = self.rl
        ex = Y.Explorer(pre)
        bad = []

        def after(x, cond, res, exc):
            if exc is not None:
                if x.sat(*cond):
                    bad.append((f"raises {type(exc).__name__}: {exc}", x.model(names)))
                return
            r, lf2, b2, t2 = res
            got = [Y.bv(q) for q in (t2, lf2, b2, r)]
            if x.sat(*cond, z3.Or([g != q for g, q in zip(got, want)])):
                bad.append(("differs from the rule", x.model(names)))
        try:
            ex.run(lambda: Layer.compute_padding(rl, *args), after)
        except Y.Undecided as e:
            out.errors.append(str(e))
        # the oracle can be refuted
        if not bad:
            seen = [False]

            def after2(x, cond, res, exc):
                if exc is None and not seen[0]:
                    seen[0] = x.sat(*cond, Y.bv(res[0]) != want[3] + 1)
            with contextlib.suppress(Y.Undecided):
                ex.run(lambda: Layer.compute_padding(rl, *args), after2)
            if not seen[0]:
                out.errors.append("vacuous")
            else:
                out.info["witness"] = "refuted"
        i = out.info
        i.update(queries=i.get("queries", 0) + ex.queries, outputs=4, branches=i.get("branches", 0) + ex.paths, mode="tag", functions=["py ir/layer.py:compute_padding"])
        for what, env in bad[:1]:
            real = [env[n] for n in ("h", "w", "kh", "kw", "s")] + ([env["d"]] if self.dil else [])
            dd = env["d"] if self.dil else 1
            if self.rl == "explicit":
                p = [env[f"p{k}"] for k in range(4)]
                wanted = p
            else:
                p = self.rl
                (t, b), (lf, r) = rule_py(p, env["h"], env["kh"], env["s"], dd), rule_py(p, env["w"], env["kw"], env["s"], dd)
                wanted = [t, lf, b, r]
            try:
                r2, l2, b2, t2 = Layer.compute_padding(p, *real)
                g = [t2, l2, b2, r2]
            except Exception as e:      # noqa: BLE001
                g = repr(e)
            if g != wanted:
                out.add("padding", f"compute_padding({p}, {real}) gives top,left,bottom,right = {g}, the rule {wanted}", replay={"args": [p, *real], "got": g, "rule": wanted})
            else:
                out.errors.append(f"does not reproduce: {what} {env}")


class FakeArray:
    """Weights of symbolic shape."""

    def __init__(self, *shape):
        self.shape = shape
        self.size = 1
        for s in shape:
            self.size = self.size * s
        self.ndim = len(shape)


def fake_type(x):
    return np.ndarray if isinstance(x, FakeArray) else Y.symtype(x)


@contextlib.contextmanager
def typed(mods):
    """The constructors test `type(x) is int`; the size is declared as an integer trait, which would concretise it."""
    from traits.api import Any
    import acetone_nnet.generator as g
    old = {}
    loose = Any().as_ctrait()
    tr = []
    for c in (g.Conv2D6loops, g.Conv2DStdGemm, g.Conv2DIndirectGemm, g.MaxPooling2D, g.AveragePooling2D):
        t = c.__class_traits__
        tr.append((t, t["size"]))
        t["size"] = loose
    for m in mods:
        old[m] = m.__dict__.get("type", None)
        m.type = fake_type
    try:
        yield
    finally:
        for t, o in tr:
            t["size"] = o
        for m in mods:
            if old[m] is None:
                del m.type
            else:
                m.type = old[m]


class Geometry(H.Case):
    """A layer constructor accepts an output size exactly when the padding rule gives it, and stores the rule's padding."""

    def __init__(self, name, kind, rl):
        super().__init__(name, None, timeout=200)
        self.kind, self.rl = kind, rl

    def make(self, v, pads, arr):
        from acetone_nnet.generator.activation_functions import Linear
        c, f = 2, 3
        rl = pads if self.rl == "explicit" else self.rl
        import acetone_nnet.generator as g
        common = dict(original_name="", idx=1, padding=rl, strides=v["s"], input_shape=[1, c, v["h"], v["w"]], activation_function=Linear())
        if self.kind.startswith("Conv2D"):
            cls, alg = {"Conv2D_6loops": (g.Conv2D6loops, "6loops"), "Conv2D_std_gemm": (g.Conv2DStdGemm, "std_gemm_nn"),
                        "Conv2D_indirect": (g.Conv2DIndirectGemm, "indirect_gemm_nn")}[self.kind]
            return cls(conv_algorithm=alg, size=f * v["oh"] * v["ow"], kernel_h=v["kh"], kernel_w=v["kw"], dilation_rate=v["d"], nb_filters=f,
                       output_shape=[1, f, v["oh"], v["ow"]], weights=arr(f, c, v["kh"], v["kw"]), biases=arr(f), **common)
        cls = {"MaxPooling2D": g.MaxPooling2D, "AveragePooling2D": g.AveragePooling2D}[self.kind]
        return cls(size=c * v["oh"] * v["ow"], pool_size=v["kh"], output_shape=[1, c, v["oh"], v["ow"]], **common)

    def run(self):
        out = H.Out(self.name)
        for s in STRIDES:
            self.stride(out, s)
            if out.items or out.errors:
                break
        return out

    def stride(self, out, s):
        conv = self.kind.startswith("Conv2D")
        names = ["h", "w", "kh", "s", "oh", "ow"] + (["kw", "d"] if conv else [])
        v = {n: Y.var(n) for n in names}
        pre = [v["s"].e == s]
        v["s"] = Y.SInt(z3.IntVal(s))
        for n in names:
            pre += Y.within(v[n], 0 if n in ("oh", "ow") else 1, OUT if n in ("oh", "ow") else SD if n in "sd" else HI)
        kw, d = (v["kw"], v["d"].e) if conv else (v["kh"], z3.IntVal(1))
        pads = None
        if self.rl == "explicit":
            pads = [Y.var(n) for n in ("p0", "p1", "p2", "p3")]
            for p in pads:
                pre += Y.within(p, 0, EP)
            names += ["p0", "p1", "p2", "p3"]
            t, lf, b, r = [p.e for p in pads]
        else:
            (t, b), (lf, r) = rule(self.rl, v["h"].e, v["kh"].e, v["s"].e, d), rule(self.rl, v["w"].e, kw.e, v["s"].e, d)
        # the window fits: otherwise there is no output
        roomh, roomw = v["h"].e + t + b - eff(v["kh"].e, d), v["w"].e + lf + r - eff(kw.e, d)
        pre += [roomh >= 0, roomw >= 0]
        wh, ww = Y.floordiv(roomh, v["s"].e) + 1, Y.floordiv(roomw, v["s"].e) + 1
        right = z3.And(v["oh"].e == wh, v["ow"].e == ww)
        if self.rl.upper().startswith("SAME"):
            pre += []
        ex = Y.Explorer(pre)
        bad = []
        stats = {"accepted": 0, "refused": 0}

        def after(x, cond, res, exc):
            if exc is not None:
                if not isinstance(exc, ValueError):
                    if x.sat(*cond):
                        bad.append((f"raises {type(exc).__name__}: {exc}", x.model(names)))
                    return
                stats["refused"] += 1
                if x.sat(*cond, right):
                    bad.append(("refuses the right output size", x.model(names)))
                return
            stats["accepted"] += 1
            got = [Y.bv(q) for q in (res.pad_top, res.pad_left, res.pad_bottom, res.pad_right)]
            if x.sat(*cond, z3.Or(z3.Not(right), *[g != q for g, q in zip(got, (t, lf, b, r))])):
                bad.append(("accepts a wrong output size or stores another padding", x.model(names)))
        mods = [m for n, m in list(sys.modules.items()) if n.startswith(("acetone_nnet.generator", "acetone_nnet.ir")) and m is not None]
        try:
            with typed(mods):
                ex.run(lambda: self.make(v, pads, FakeArray), after)
        except Y.Undecided as e:
            out.errors.append(str(e))
        if not bad and not out.errors and not (stats["accepted"] and stats["refused"]):
            out.errors.append(f"vacuous: {stats}")
        i = out.info
        i.update(queries=i.get("queries", 0) + ex.queries, outputs=2, branches=i.get("branches", 0) + ex.paths, mode="tag", functions=[f"py {self.kind}.__init__", "py ir/layer.py:compute_padding"], **stats)
        for what, env in bad[:1]:
            self.confirm(out, what, env, conv)
        return out

    def confirm(self, out, what, env, conv):
        dd = env["d"] if conv else 1
        kw = env["kw"] if conv else env["kh"]
        if self.rl == "explicit":
            p = [env[f"p{k}"] for k in range(4)]
            t, lf, b, r = p
        else:
            p = None
            (t, b), (lf, r) = rule_py(self.rl, env["h"], env["kh"], env["s"], dd), rule_py(self.rl, env["w"], kw, env["s"], dd)
        wh = (env["h"] + t + b - (env["kh"] - 1) * dd - 1) // env["s"] + 1
        ww = (env["w"] + lf + r - (kw - 1) * dd - 1) // env["s"] + 1
        right = (env["oh"], env["ow"]) == (wh, ww)
        try:
            o = self.make({k: env.get(k) for k in ("h", "w", "kh", "kw", "s", "d", "oh", "ow")}, p, lambda *s: np.zeros(s))
            got = [o.pad_top, o.pad_left, o.pad_bottom, o.pad_right]
            ok = right and got == [t, lf, b, r]
            desc = f"accepted with top,left,bottom,right = {got}"
        except ValueError as e:
            ok, desc = not right, "refused"
            del e
        except Exception as e:      # noqa: BLE001
            ok, desc = False, repr(e)[:200]
        if ok:
            out.errors.append(f"does not reproduce: {what} {env}")
        else:
            out.add("geometry", f"{self.kind} {self.rl} {env}: {desc}; the rule gives {[t, lf, b, r]} and an output of {wh}x{ww}", replay={"values": env, "real": desc})


RULES = ("VALID", "valid", "SAME_UPPER", "same", "SAME_LOWER", "explicit")


def cases():
    out = [PadRule(f"compute_padding:{r}:{'dilated' if d else 'plain'}", r, d) for r in RULES for d in (False, True)]
    out += [Geometry(f"{k}:{r}", k, r) for k in ("Conv2D_6loops", "Conv2D_std_gemm", "Conv2D_indirect", "MaxPooling2D", "AveragePooling2D") for r in RULES]
    return out
