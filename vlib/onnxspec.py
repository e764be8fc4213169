"""Independent evaluator of ONNX models over symbolic values (numpy object arrays of Terms / Fractions).

Written from the ONNX operator specification; it does not use any code of acetone_nnet.  tools/validate_spec.py
compares it with onnxruntime on concrete data.
"""
import itertools
import math
from fractions import Fraction

import numpy as np
import onnx
from onnx import numpy_helper

from . import terms as T
from .terms import Term, lift


class SpecUnsupported(Exception):
    pass


def _floor(x):
    return math.floor(x)


def obj(a):
    """Concrete numpy array -> object array of Terms (exact values) for floats, ints stay Python ints."""
    a = np.asarray(a)
    out = np.empty(a.shape, dtype=object)
    flat = out.reshape(-1)
    if a.dtype == object:
        return a
    if np.issubdtype(a.dtype, np.floating):
        for i, v in enumerate(a.reshape(-1)):
            flat[i] = float(v) if math.isinf(v) else lift(float(v))
    elif a.dtype == np.bool_:
        for i, v in enumerate(a.reshape(-1)):
            flat[i] = bool(v)
    else:
        for i, v in enumerate(a.reshape(-1)):
            flat[i] = int(v)
    return out


def emap(f, *arrs):
    """Elementwise with broadcasting."""
    shape = np.broadcast_shapes(*[a.shape for a in arrs])
    bs = [np.broadcast_to(a, shape) for a in arrs]
    out = np.empty(shape, dtype=object)
    for ix in np.ndindex(*shape):
        out[ix] = f(*[b[ix] for b in bs])
    return out


def tsum(xs):
    xs = list(xs)
    r = T.ZERO
    for x in xs:
        r = T.add(r, lift(x))
    return r


def sigmoid(x):
    e = T.uf("exp", x)
    return T.div(e, T.add(T.ONE, e))


def tanh(x):
    e = T.uf("exp", x)
    e2 = T.mul(e, e)
    return T.div(T.sub(e2, T.ONE), T.add(e2, T.ONE))


def attrs(node):
    d = {}
    for a in node.attribute:
        v = onnx.helper.get_attribute_value(a)
        if isinstance(v, bytes):
            v = v.decode()
        if isinstance(v, list) and v and isinstance(v[0], bytes):
            v = [x.decode() for x in v]
        d[a.name] = v
    return d


class Spec:
    def __init__(self, model, params=None):
        """params: name -> object array overriding initializers (symbolic weights)."""
        self.model = model
        self.opset = 13
        for o in model.opset_import:
            if o.domain in ("", "ai.onnx"):
                self.opset = o.version
        self.params = params or {}
        self.vals = {}

    def inputs(self):
        init = {i.name for i in self.model.graph.initializer}
        # an unknown batch dimension is the batch of one element that the generated code processes
        return [(i.name, [d.dim_value or int(k == 0) for k, d in enumerate(i.type.tensor_type.shape.dim)]) for i in self.model.graph.input if i.name not in init]

    def run(self, feeds):
        v = self.vals = {}
        for i in self.model.graph.initializer:
            if i.name in self.params:
                v[i.name] = self.params[i.name]
            else:
                v[i.name] = obj(numpy_helper.to_array(i))
        v.update(feeds)
        for n in self.model.graph.node:
            f = getattr(self, "op_" + n.op_type, None)
            if f is None:
                raise SpecUnsupported(n.op_type)
            ins = [v[x] if x else None for x in n.input]
            out = f(n, attrs(n), ins)
            if not isinstance(out, tuple):
                out = (out,)
            for name, o in zip(n.output, out):
                if name:
                    v[name] = o
        return [v[o.name] for o in self.model.graph.output]

    # ------------------------------------------------------------ helpers
    @staticmethod
    def ints(a):
        return [int(x) if not isinstance(x, Term) else int(x.args[0]) for x in np.asarray(a).reshape(-1)]

    @staticmethod
    def floats(a):
        return [x.args[0] if isinstance(x, Term) else Fraction(x) for x in np.asarray(a).reshape(-1)]

    # ------------------------------------------------------------ elementwise
    def _bin(f):
        def op(self, n, a, ins):
            return emap(f, ins[0], ins[1])
        return op

    op_Add = _bin(lambda x, y: lift(x) + lift(y))
    op_Sub = _bin(lambda x, y: lift(x) - lift(y))
    op_Mul = _bin(lambda x, y: lift(x) * lift(y))
    op_Div = _bin(lambda x, y: lift(x) / lift(y))
    op_Pow = _bin(lambda x, y: lift(x) ** y)

    def op_Max(self, n, a, ins):
        r = ins[0]
        for x in ins[1:]:
            r = emap(T.tmax, r, x)
        return r

    def op_Min(self, n, a, ins):
        r = ins[0]
        for x in ins[1:]:
            r = emap(T.tmin, r, x)
        return r

    def op_Mean(self, n, a, ins):
        r = emap(lambda *xs: T.div(tsum(xs), T.const(len(xs))), *ins)
        return r

    def op_Sum(self, n, a, ins):
        return emap(lambda *xs: tsum(xs), *ins)

    def _un(f):
        def op(self, n, a, ins):
            return emap(lambda x: f(lift(x), a), ins[0])
        return op

    op_Relu = _un(lambda x, a: T.tmax(x, T.ZERO))
    op_LeakyRelu = _un(lambda x, a: T.ite(T.lt(x, T.ZERO), T.mul(lift(a.get("alpha", 0.01)), x), x))
    op_Elu = _un(lambda x, a: T.ite(T.lt(x, T.ZERO), T.mul(lift(a.get("alpha", 1.0)), T.sub(T.uf("exp", x), T.ONE)), x))
    op_Sigmoid = _un(lambda x, a: sigmoid(x))
    op_Tanh = _un(lambda x, a: tanh(x))
    op_Exp = _un(lambda x, a: T.uf("exp", x))
    op_Log = _un(lambda x, a: T.uf("log", x))
    op_Sqrt = _un(lambda x, a: T.uf("sqrt", x))
    op_Neg = _un(lambda x, a: -x)
    op_Abs = _un(lambda x, a: abs(x))
    op_Identity = lambda self, n, a, ins: ins[0]

    def op_Dropout(self, n, a, ins):
        return ins[0]

    def op_Clip(self, n, a, ins):
        lo = hi = None
        if self.opset < 11:
            lo = lift(a["min"]) if "min" in a else None
            hi = lift(a["max"]) if "max" in a else None
        else:
            if len(ins) > 1 and ins[1] is not None:
                lo = ins[1].reshape(-1)[0]
            if len(ins) > 2 and ins[2] is not None:
                hi = ins[2].reshape(-1)[0]
        lo, hi = (None if isinstance(v, (float, np.floating)) and math.isinf(v) and (v > 0) == up else v for v, up in ((lo, False), (hi, True)))

        def f(x):
            if lo is not None:
                x = T.tmax(lift(x), lo)
            if hi is not None:
                x = T.tmin(lift(x), hi)
            return x
        return emap(f, ins[0])

    # ------------------------------------------------------------ linear algebra
    @staticmethod
    def matmul2(A, B):
        m, k = A.shape
        k2, p = B.shape
        assert k == k2
        out = np.empty((m, p), dtype=object)
        for i in range(m):
            for j in range(p):
                out[i, j] = tsum(lift(A[i, q]) * lift(B[q, j]) for q in range(k))
        return out

    def op_MatMul(self, n, a, ins):
        A, B = ins
        a1, b1 = A.ndim == 1, B.ndim == 1
        if a1:
            A = A[None, :]
        if b1:
            B = B[:, None]
        bs = np.broadcast_shapes(A.shape[:-2], B.shape[:-2])
        A = np.broadcast_to(A, bs + A.shape[-2:])
        B = np.broadcast_to(B, bs + B.shape[-2:])
        out = np.empty(bs + (A.shape[-2], B.shape[-1]), dtype=object)
        for ix in np.ndindex(*bs):
            out[ix] = self.matmul2(A[ix], B[ix])
        if a1:
            out = out[..., 0, :]
        if b1:
            out = out[..., 0]
        return out

    def op_Gemm(self, n, a, ins):
        A, B = ins[0], ins[1]
        if a.get("transA", 0):
            A = A.T
        if a.get("transB", 0):
            B = B.T
        al, be = lift(a.get("alpha", 1.0)), lift(a.get("beta", 1.0))
        Y = self.matmul2(A, B)
        Y = emap(lambda x: al * x, Y)
        if len(ins) > 2 and ins[2] is not None:
            Y = emap(lambda x, c: x + be * lift(c), Y, np.broadcast_to(ins[2], Y.shape))
        return Y

    # ------------------------------------------------------------ convolution / pooling
    @staticmethod
    def auto_pads(a, spatial, kernel, strides, dil):
        nd = len(spatial)
        mode = a.get("auto_pad", "NOTSET")
        if mode in ("NOTSET", ""):
            return list(a.get("pads", [0] * (2 * nd)))
        if mode == "VALID":
            return [0] * (2 * nd)
        beg, end = [], []
        for i in range(nd):
            o = -(-spatial[i] // strides[i])
            eff = (kernel[i] - 1) * dil[i] + 1
            tot = max((o - 1) * strides[i] + eff - spatial[i], 0)
            lo = tot // 2 if mode == "SAME_UPPER" else tot - tot // 2
            beg.append(lo)
            end.append(tot - lo)
        return beg + end

    def op_Conv(self, n, a, ins):
        X, W = ins[0], ins[1]
        B = ins[2] if len(ins) > 2 else None
        if X.ndim != 4:
            raise SpecUnsupported("Conv rank")
        g = a.get("group", 1)
        st = a.get("strides", [1, 1])
        dl = a.get("dilations", [1, 1])
        M, Cg, kh, kw = W.shape
        pt, pl, pb, pr = self.auto_pads(a, X.shape[2:], (kh, kw), st, dl)
        N, C, H, Wd = X.shape
        oh = (H + pt + pb - ((kh - 1) * dl[0] + 1)) // st[0] + 1
        ow = (Wd + pl + pr - ((kw - 1) * dl[1] + 1)) // st[1] + 1
        out = np.empty((N, M, oh, ow), dtype=object)
        mg = M // g
        for b, m, y, x in np.ndindex(N, M, oh, ow):
            acc = []
            for c in range(Cg):
                ci = (m // mg) * Cg + c
                for i in range(kh):
                    for j in range(kw):
                        yy = y * st[0] + i * dl[0] - pt
                        xx = x * st[1] + j * dl[1] - pl
                        if 0 <= yy < H and 0 <= xx < Wd:
                            acc.append(lift(X[b, ci, yy, xx]) * lift(W[m, c, i, j]))
            r = tsum(acc)
            if B is not None:
                r = r + lift(B[m])
            out[b, m, y, x] = r
        return out

    def _pool(self, n, a, X, mode):
        k = a["kernel_shape"]
        if X.ndim != 4:
            raise SpecUnsupported("pool rank")
        st = a.get("strides", [1, 1])
        dl = a.get("dilations", [1, 1])
        pt, pl, pb, pr = self.auto_pads(a, X.shape[2:], k, st, dl)
        ceil = a.get("ceil_mode", 0)
        N, C, H, W = X.shape

        def osz(size, p0, p1, kk, d, s):
            num = size + p0 + p1 - ((kk - 1) * d + 1)
            if not ceil:
                return num // s + 1
            o = -(-num // s) + 1
            if (o - 1) * s >= size + p0:
                o -= 1
            return o
        if a.get("auto_pad", "NOTSET") in ("SAME_UPPER", "SAME_LOWER"):
            oh, ow = -(-H // st[0]), -(-W // st[1])
        else:
            oh, ow = osz(H, pt, pb, k[0], dl[0], st[0]), osz(W, pl, pr, k[1], dl[1], st[1])
        inc = a.get("count_include_pad", 0)
        out = np.empty((N, C, oh, ow), dtype=object)
        for b, c, y, x in np.ndindex(N, C, oh, ow):
            els = []
            cnt = 0
            for i in range(k[0]):
                for j in range(k[1]):
                    yy = y * st[0] + i * dl[0] - pt
                    xx = x * st[1] + j * dl[1] - pl
                    if -pt <= yy < H + pb and -pl <= xx < W + pr:
                        cnt += 1
                    if 0 <= yy < H and 0 <= xx < W:
                        els.append(lift(X[b, c, yy, xx]))
            if not els:
                raise SpecUnsupported("window entirely in the padding")
            if mode == "max":
                r = els[0]
                for e in els[1:]:
                    r = T.tmax(r, e)
            else:
                r = T.div(tsum(els), T.const(cnt if inc else len(els)))
            out[b, c, y, x] = r
        return out

    def op_MaxPool(self, n, a, ins):
        return self._pool(n, a, ins[0], "max")

    def op_AveragePool(self, n, a, ins):
        return self._pool(n, a, ins[0], "avg")

    def op_GlobalAveragePool(self, n, a, ins):
        return self._reduce(ins[0], list(range(2, ins[0].ndim)), 1, "mean")

    def op_GlobalMaxPool(self, n, a, ins):
        return self._reduce(ins[0], list(range(2, ins[0].ndim)), 1, "max")

    # ------------------------------------------------------------ reductions
    @staticmethod
    def _reduce(X, axes, keep, kind):
        nd = X.ndim
        axes = sorted({x % nd for x in axes})
        shape = [s for i, s in enumerate(X.shape) if i not in axes]
        kshape = [1 if i in axes else s for i, s in enumerate(X.shape)]
        groups = {}
        for ix in np.ndindex(*X.shape):
            key = tuple(v for i, v in enumerate(ix) if i not in axes)
            groups.setdefault(key, []).append(lift(X[ix]))
        out = np.empty(shape, dtype=object)
        for k, els in groups.items():
            if kind == "sum":
                r = tsum(els)
            elif kind == "mean":
                r = T.div(tsum(els), T.const(len(els)))
            elif kind == "prod":
                r = els[0]
                for e in els[1:]:
                    r = T.mul(r, e)
            elif kind == "max":
                r = els[0]
                for e in els[1:]:
                    r = T.tmax(r, e)
            elif kind == "min":
                r = els[0]
                for e in els[1:]:
                    r = T.tmin(r, e)
            out[k] = r
        return out.reshape(kshape) if keep else out

    def _red(kind):
        def op(self, n, a, ins):
            X = ins[0]
            ax = a.get("axes")
            if len(ins) > 1 and ins[1] is not None:
                ax = self.ints(ins[1])
            if not ax:
                if a.get("noop_with_empty_axes", 0):
                    return X
                ax = list(range(X.ndim))
            return self._reduce(X, ax, a.get("keepdims", 1), kind)
        return op

    op_ReduceSum = _red("sum")
    op_ReduceMean = _red("mean")
    op_ReduceMax = _red("max")
    op_ReduceMin = _red("min")
    op_ReduceProd = _red("prod")

    # ------------------------------------------------------------ data movement
    def op_Concat(self, n, a, ins):
        return np.concatenate(ins, axis=a["axis"])

    def op_Transpose(self, n, a, ins):
        return np.transpose(ins[0], a.get("perm"))

    def op_Tile(self, n, a, ins):
        X = ins[0]
        rep = self.ints(ins[1])
        shape = [s * r for s, r in zip(X.shape, rep)]
        out = np.empty(shape, dtype=object)
        for ix in np.ndindex(*shape):
            out[ix] = X[tuple(i % s for i, s in zip(ix, X.shape))]
        return out

    def op_Gather(self, n, a, ins):
        X, I = ins
        ax = a.get("axis", 0) % X.ndim
        idx = np.array([i % X.shape[ax] if i < 0 else i for i in self.ints(I)]).reshape(np.asarray(I).shape)
        return np.take(X, idx, axis=ax)

    def op_GatherElements(self, n, a, ins):
        X, I = ins
        ax = a.get("axis", 0) % X.ndim
        out = np.empty(I.shape, dtype=object)
        for ix in np.ndindex(*I.shape):
            j = list(ix)
            j[ax] = int(I[ix]) % X.shape[ax]
            out[ix] = X[tuple(j)]
        return out

    def op_Flatten(self, n, a, ins):
        ax = a.get("axis", 1)
        X = ins[0]
        ax = ax % X.ndim if ax < 0 else ax
        return X.reshape(int(np.prod(X.shape[:ax], dtype=int)), -1)

    def op_Reshape(self, n, a, ins):
        X = ins[0]
        shp = self.ints(ins[1])
        shp = [X.shape[i] if s == 0 and not a.get("allowzero", 0) else s for i, s in enumerate(shp)]
        return X.reshape(shp)

    def op_Squeeze(self, n, a, ins):
        ax = a.get("axes") or (self.ints(ins[1]) if len(ins) > 1 and ins[1] is not None else None)
        return np.squeeze(ins[0], tuple(ax) if ax else None)

    def op_Unsqueeze(self, n, a, ins):
        ax = a.get("axes") or self.ints(ins[1])
        X = ins[0]
        nd = X.ndim + len(ax)
        ax = sorted(x % nd for x in ax)
        shape = list(X.shape)
        for x in ax:
            shape.insert(x, 1)
        return X.reshape(shape)

    def op_Constant(self, n, a, ins):
        return obj(numpy_helper.to_array(a["value"]))

    def op_Shape(self, n, a, ins):
        return obj(np.array(ins[0].shape))

    def op_Split(self, n, a, ins):
        X = ins[0]
        ax = a.get("axis", 0)
        sp = a.get("split") or (self.ints(ins[1]) if len(ins) > 1 else None)
        if sp is None:
            k = len(n.output)
            sp = [X.shape[ax] // k] * k
        return tuple(np.split(X, np.cumsum(sp)[:-1], axis=ax))

    # ------------------------------------------------------------ pad
    def op_Pad(self, n, a, ins):
        X = ins[0]
        mode = a.get("mode", "constant")
        if self.opset < 11:
            pads = a["pads"]
            val = lift(a.get("value", 0.0))
            axes = None
        else:
            pads = self.ints(ins[1])
            val = ins[2].reshape(-1)[0] if len(ins) > 2 and ins[2] is not None else T.ZERO
            axes = self.ints(ins[3]) if len(ins) > 3 and ins[3] is not None else None
        nd = X.ndim
        full = [0] * (2 * nd)
        ax = [x % nd for x in axes] if axes is not None else list(range(nd))
        for i, x in enumerate(ax):
            full[x] = pads[i]
            full[x + nd] = pads[i + len(ax)]
        shape = [X.shape[i] + full[i] + full[i + nd] for i in range(nd)]
        out = np.empty(shape, dtype=object)
        for ix in np.ndindex(*shape):
            src = []
            inside = True
            for i, v in enumerate(ix):
                p = v - full[i]
                L = X.shape[i]
                if not 0 <= p < L:
                    if mode == "constant":
                        inside = False
                    elif mode == "edge":
                        p = 0 if p < 0 else L - 1
                    elif mode == "reflect":
                        per = 2 * (L - 1)
                        if per == 0:
                            p = 0
                        else:
                            p = p % per
                            p = p if p < L else per - p
                    elif mode == "wrap":
                        p = p % L
                    else:
                        raise SpecUnsupported("pad mode " + mode)
                src.append(p)
            out[ix] = X[tuple(src)] if inside else val
        return out

    # ------------------------------------------------------------ softmax / bn
    def op_Softmax(self, n, a, ins):
        X = ins[0]
        if self.opset < 13:
            ax = a.get("axis", 1) % X.ndim
            Y = X.reshape(int(np.prod(X.shape[:ax], dtype=int)), -1)
            return self._softmax(Y, 1).reshape(X.shape)
        return self._softmax(X, a.get("axis", -1) % X.ndim)

    @staticmethod
    def _softmax(X, ax):
        E = emap(lambda x: T.uf("exp", lift(x)), X)
        out = np.empty(X.shape, dtype=object)
        sums = {}
        for ix in np.ndindex(*X.shape):
            k = ix[:ax] + ix[ax + 1:]
            if k not in sums:
                sums[k] = tsum(E[k[:ax] + (i,) + k[ax:]] for i in range(X.shape[ax]))
            out[ix] = T.div(E[ix], sums[k])
        return out

    def op_BatchNormalization(self, n, a, ins):
        X, s, b, m, v = ins[:5]
        eps = lift(Fraction(a.get("epsilon", float(np.float32(1e-5)))))
        out = np.empty(X.shape, dtype=object)
        for ix in np.ndindex(*X.shape):
            c = ix[1] if X.ndim > 1 else 0
            inv = T.div(T.ONE, T.uf("sqrt", lift(v[c]) + eps))
            out[ix] = (lift(X[ix]) - lift(m[c])) * inv * lift(s[c]) + lift(b[c])
        return out

    def op_LRN(self, n, a, ins):
        X, size = ins[0], a["size"]
        alpha, beta, bias = (lift(Fraction(a.get(k, float(np.float32(d))))) for k, d in (("alpha", 1e-4), ("beta", 0.75), ("bias", 1.0)))
        out = np.empty(X.shape, dtype=object)
        for ix in np.ndindex(*X.shape):
            lo, hi = max(0, ix[1] - (size - 1) // 2), min(X.shape[1] - 1, ix[1] + size // 2)
            sq = tsum(lift(X[(ix[0], c, *ix[2:])]) * lift(X[(ix[0], c, *ix[2:])]) for c in range(lo, hi + 1))
            base = bias + alpha * sq / lift(size)
            out[ix] = T.div(lift(X[ix]), T.uf("exp", beta * T.uf("log", base)))
        return out

    # ------------------------------------------------------------ resize
    def op_Resize(self, n, a, ins):
        X = ins[0]
        roi = scales = sizes = None
        if self.opset < 11:
            scales = self.floats(ins[1])
        else:
            roi = self.floats(ins[1]) if len(ins) > 1 and ins[1] is not None and ins[1].size else None
            scales = self.floats(ins[2]) if len(ins) > 2 and ins[2] is not None and ins[2].size else None
            sizes = self.ints(ins[3]) if len(ins) > 3 and ins[3] is not None and ins[3].size else None
        nd = X.ndim
        axes = a.get("axes")
        axes = [x % nd for x in axes] if axes else list(range(nd))
        mode = a.get("mode", "nearest")
        ct = a.get("coordinate_transformation_mode", "half_pixel" if self.opset >= 11 else "asymmetric")
        nm = a.get("nearest_mode", "round_prefer_floor" if self.opset >= 11 else "floor")
        ca = Fraction(a.get("cubic_coeff_a", -0.75))
        exo = a.get("exclude_outside", 0)
        extra = Fraction(a.get("extrapolation_value", 0.0))
        anti = a.get("antialias", 0)
        if anti and mode != "linear":
            raise SpecUnsupported("antialias")
        out_shape = list(X.shape)
        sc = [Fraction(1)] * nd
        if scales is not None:
            for x, s in zip(axes, scales):
                sc[x] = s
                out_shape[x] = _floor(X.shape[x] * s)
        else:
            pol = a.get("keep_aspect_ratio_policy", "stretch")
            if pol != "stretch":
                rs = [Fraction(s, X.shape[x]) for x, s in zip(axes, sizes)]
                q = min(rs) if pol == "not_larger" else max(rs)
                for x in axes:
                    sc[x] = q
                    out_shape[x] = _floor(q * X.shape[x] + Fraction(1, 2))
            else:
                for x, s in zip(axes, sizes):
                    sc[x] = Fraction(s, X.shape[x])
                    out_shape[x] = s
        roi_full = [(Fraction(0), Fraction(1))] * nd
        if roi is not None:
            k = len(axes)
            for i, x in enumerate(axes):
                roi_full[x] = (roi[i], roi[i + k])

        def coord(i, d):
            L, O, s = X.shape[d], out_shape[d], sc[d]
            if s == 1 and L == O and ct != "tf_crop_and_resize":
                return Fraction(i)
            if ct == "half_pixel":
                return (i + Fraction(1, 2)) / s - Fraction(1, 2)
            if ct == "half_pixel_symmetric":
                adj = Fraction(O) / (s * L)
                center = Fraction(L, 2)
                off = center * (1 - adj)
                return off + (i + Fraction(1, 2)) / s - Fraction(1, 2)
            if ct == "pytorch_half_pixel":
                return (i + Fraction(1, 2)) / s - Fraction(1, 2) if O > 1 else Fraction(0)
            if ct == "align_corners":
                return Fraction(0) if O == 1 else Fraction(i * (L - 1), O - 1)
            if ct == "asymmetric":
                return Fraction(i) / s
            if ct == "tf_crop_and_resize":
                st, en = roi_full[d]
                if O > 1:
                    return st * (L - 1) + i * (en - st) * (L - 1) / (O - 1)
                return Fraction(1, 2) * (st + en) * (L - 1)
            raise SpecUnsupported(ct)

        def taps(i, d):
            """list of (source index, weight) along dimension d for output coordinate i, or None if extrapolated"""
            L = X.shape[d]
            x = coord(i, d)
            if ct == "tf_crop_and_resize" and not (0 <= x <= L - 1):
                return None
            if mode == "nearest":
                if nm == "round_prefer_floor":
                    q = math.ceil(x - Fraction(1, 2))
                elif nm == "round_prefer_ceil":
                    q = math.floor(x + Fraction(1, 2))
                elif nm == "floor":
                    q = math.floor(x)
                elif nm == "ceil":
                    q = math.ceil(x)
                else:
                    raise SpecUnsupported(nm)
                return [(min(max(q, 0), L - 1), Fraction(1))]
            x0 = math.floor(x)
            r = x - x0
            if sc[d] == 1 and L == out_shape[d] and ct != "tf_crop_and_resize":
                return [(i, Fraction(1))]
            if mode == "linear":
                t = [(x0, 1 - r), (x0 + 1, r)]
                if anti and sc[d] < 1:
                    st = math.floor(-1 / sc[d]) + 1
                    t = [(x0 + st + k, max(Fraction(0), 1 - abs((st + k - r) * sc[d]))) for k in range(2 - 2 * st)]
                    tot = sum(w for _, w in t)
                    t = [(p, w / tot) for p, w in t]
            elif mode == "cubic":
                A = ca
                t = [(x0 - 1, ((A * (r + 1) - 5 * A) * (r + 1) + 8 * A) * (r + 1) - 4 * A),
                     (x0, ((A + 2) * r - (A + 3)) * r * r + 1),
                     (x0 + 1, ((A + 2) * (1 - r) - (A + 3)) * (1 - r) * (1 - r) + 1),
                     (x0 + 2, ((A * ((1 - r) + 1) - 5 * A) * ((1 - r) + 1) + 8 * A) * ((1 - r) + 1) - 4 * A)]
            else:
                raise SpecUnsupported(mode)
            if exo:
                t = [(p, w) if 0 <= p < L else (p, Fraction(0)) for p, w in t]
                s = sum(w for _, w in t)
                t = [(p, w / s) for p, w in t]
            return [(min(max(p, 0), L - 1), w) for p, w in t]

        tp = [[taps(i, d) for i in range(out_shape[d])] for d in range(nd)]
        out = np.empty(out_shape, dtype=object)
        for ix in np.ndindex(*out_shape):
            ts = [tp[d][i] for d, i in enumerate(ix)]
            if any(t is None for t in ts):
                out[ix] = lift(extra)
                continue
            acc = {}
            for combo in itertools.product(*ts):
                w = Fraction(1)
                for _, q in combo:
                    w *= q
                if w:
                    k = tuple(p for p, _ in combo)
                    acc[k] = acc.get(k, 0) + w
            out[ix] = tsum(T.mul(T.const(w), lift(X[k])) for k, w in acc.items())
        return out


def sym_array(name, shape):
    out = np.empty(shape, dtype=object)
    flat = out.reshape(-1)
    for i in range(flat.size):
        flat[i] = T.var(f"{name}[{i}]")
    return out
