"""Matrices of single-operator models, one family per property."""
import itertools

import numpy as np
from onnx import TensorProto

from checks import matrix as X
from vlib.harness import Case, thorough
from vlib.models import M, typed_variants

REFUSE = "refuse-or-ok"


def single(f, opset=13):
    """f(m) -> output name(s)"""
    def build(P):
        m = M(P, opset)
        y = f(m)
        return m.model(*(y if isinstance(y, (list, tuple)) else [y]))
    return build


def i64(*v):
    return np.array(v, dtype=np.int64)


def act(m, y, a):
    return X.activation(m, y, a) if a else y


# ------------------------------------------------------------------- C03 pooling
def pooling():
    out = []

    def pool(kind, shape, a=None, **attrs):
        return single(lambda m: act(m, m.op(kind, [m.inp(*shape)], **attrs), a))
    geo = [
        ("k2", (1, 2, 4, 4), dict(kernel_shape=[2, 2], strides=[2, 2])),
        ("k2s1", (1, 2, 3, 4), dict(kernel_shape=[2, 2], strides=[1, 1])),
        ("k2defstride", (1, 1, 3, 4), dict(kernel_shape=[2, 2])),
        ("k3s2", (1, 2, 5, 7), dict(kernel_shape=[3, 3], strides=[2, 2])),
        ("k3s1pad1", (1, 2, 4, 3), dict(kernel_shape=[3, 3], strides=[1, 1], pads=[1, 1, 1, 1])),
        ("k3s2pad1", (1, 1, 5, 6), dict(kernel_shape=[3, 3], strides=[2, 2], pads=[1, 1, 1, 1])),
        ("padt", (1, 1, 4, 4), dict(kernel_shape=[3, 3], strides=[1, 1], pads=[1, 0, 0, 0])),
        ("padl", (1, 1, 4, 4), dict(kernel_shape=[3, 3], strides=[1, 1], pads=[0, 1, 0, 0])),
        ("padb", (1, 1, 4, 4), dict(kernel_shape=[3, 3], strides=[1, 1], pads=[0, 0, 1, 0])),
        ("padr", (1, 1, 4, 4), dict(kernel_shape=[3, 3], strides=[1, 1], pads=[0, 0, 0, 1])),
        ("padmix", (1, 2, 4, 5), dict(kernel_shape=[3, 3], strides=[1, 1], pads=[1, 2, 2, 0])),
        ("padtl", (1, 1, 5, 4), dict(kernel_shape=[3, 3], strides=[2, 2], pads=[1, 2, 0, 1])),
        ("s3", (1, 1, 7, 5), dict(kernel_shape=[2, 2], strides=[3, 3])),
        ("k1", (1, 2, 2, 3), dict(kernel_shape=[1, 1], strides=[1, 1])),
        ("same_upper", (1, 1, 4, 5), dict(kernel_shape=[2, 2], strides=[1, 1], auto_pad="SAME_UPPER")),
        ("same_lower", (1, 1, 4, 5), dict(kernel_shape=[2, 2], strides=[1, 1], auto_pad="SAME_LOWER")),
        ("same_upper3s2", (1, 1, 4, 5), dict(kernel_shape=[3, 3], strides=[2, 2], auto_pad="SAME_UPPER")),
        ("same_lower3s2", (1, 1, 4, 5), dict(kernel_shape=[3, 3], strides=[2, 2], auto_pad="SAME_LOWER")),
        ("valid", (1, 2, 4, 5), dict(kernel_shape=[3, 3], strides=[1, 1], auto_pad="VALID")),
        ("notset", (1, 1, 4, 5), dict(kernel_shape=[2, 2], strides=[2, 2], auto_pad="NOTSET", pads=[0, 1, 0, 0])),
    ]
    if thorough():
        for k, s, p in itertools.product([2, 3, 4], [1, 2, 3], [(0, 0, 0, 0), (1, 0, 1, 0), (0, 1, 0, 1), (1, 1, 0, 0), (0, 1, 1, 1)]):
            geo.append((f"x{k}s{s}p{''.join(map(str, p))}", (1, 2, 5, 6), dict(kernel_shape=[k, k], strides=[s, s], pads=list(p))))
    for n, shape, at in geo:
        for kind in ("MaxPool", "AveragePool"):
            out.append(Case(f"{kind}:{n}", pool(kind, shape, **at)))
    for a in ("Relu", "LeakyRelu", "Sigmoid", "Clip"):
        for kind in ("MaxPool", "AveragePool"):
            out.append(Case(f"{kind}:{a}", pool(kind, (1, 1, 3, 4), a, kernel_shape=[2, 2], strides=[1, 1])))
    for n, shape in [("sq", (1, 3, 3, 3)), ("c1", (1, 1, 2, 2)), ("one", (1, 2, 1, 1))]:
        out.append(Case(f"GlobalAveragePool:{n}", single(lambda m, s=shape: m.op("GlobalAveragePool", [m.inp(*s)]))))
    return out


# ------------------------------------------------------------------- C04 products
def products():
    out = []

    def gemm(n, i, o, tb=0, ta=0, c="vec", alpha=None, beta=None, a=None, rows=1, expect="ok"):
        def f(m):
            x = m.inp(*((i, rows) if ta else (rows, i)))
            ins = [x, m.par("W", *((o, i) if tb else (i, o)))]
            if c == "vec":
                ins.append(m.par("B", o))
            elif c == "row":
                ins.append(m.par("B", 1, o))
            elif c == "full":
                ins.append(m.par("B", rows, o))
            elif c == "col":
                ins.append(m.par("B", rows, 1))
            elif c == "scalar":
                ins.append(m.par("B", 1))
            at = {}
            if ta:
                at["transA"] = 1
            if tb:
                at["transB"] = 1
            if alpha is not None:
                at["alpha"] = alpha
            if beta is not None:
                at["beta"] = beta
            return act(m, m.op("Gemm", ins, **at), a)
        out.append(Case(f"Gemm:{n}", single(f), expect=expect))
    gemm("nn", 4, 3)
    gemm("nt", 4, 3, tb=1)
    gemm("tn", 4, 3, ta=1)
    gemm("tt", 4, 3, ta=1, tb=1)
    for ta, tb in itertools.product((0, 1), (0, 1)):
        s = "nt"[ta] + "nt"[tb]
        gemm(s + "_ab", 5, 2, ta=ta, tb=tb, alpha=0.5, beta=-1.5)
        gemm(s + "_abi", 2, 2, ta=ta, tb=tb, alpha=0.0123456, beta=123.456)
        gemm(s + "_b0", 3, 3, ta=ta, tb=tb, beta=0.0)
        gemm(s + "_alpha", 2, 5, ta=ta, tb=tb, alpha=-2.0)
        gemm(s + "_noc", 3, 4, ta=ta, tb=tb, c=None)
        gemm(s + "_relu", 3, 4, ta=ta, tb=tb, a="Relu")
        gemm(s + "_leaky", 3, 2, ta=ta, tb=tb, a="LeakyRelu", alpha=2.0)
        gemm(s + "_row", 3, 4, ta=ta, tb=tb, c="row")
        gemm(s + "_rows", 3, 4, ta=ta, tb=tb, rows=2)
        gemm(s + "_rows_full", 3, 4, ta=ta, tb=tb, rows=2, c="full", expect=REFUSE)
        gemm(s + "_rows_col", 3, 4, ta=ta, tb=tb, rows=3, c="col", expect=REFUSE)
        gemm(s + "_scalar", 3, 4, ta=ta, tb=tb, c="scalar", expect=REFUSE)
        gemm(s + "_rows_noc", 2, 3, ta=ta, tb=tb, rows=3, c=None, beta=0.5)
    gemm("one", 1, 1)
    gemm("in1", 1, 3, tb=1)
    gemm("out1", 5, 1, tb=1)
    if thorough():
        for i, o, r, ta, tb in itertools.product((1, 2, 7), (1, 3, 6), (1, 4), (0, 1), (0, 1)):
            gemm(f"x{i}_{o}_{r}_{ta}{tb}", i, o, ta=ta, tb=tb, rows=r, alpha=0.75, beta=2.0)

    def mm(n, f, expect="ok"):
        out.append(Case(f"MatMul:{n}", single(f), expect=expect))
    mm("vec_const", lambda m: m.op("MatMul", [m.inp(1, 4), m.par("W", 4, 3)]))
    mm("mat_const", lambda m: m.op("MatMul", [m.inp(3, 4), m.par("W", 4, 2)]))
    mm("const_mat", lambda m: m.op("MatMul", [m.par("W", 2, 4), m.inp(4, 3)]))
    mm("const_vec", lambda m: m.op("MatMul", [m.par("W", 2, 4), m.inp(4, 1)]))
    mm("mat_mat4", lambda m: m.op("MatMul", [m.inp(1, 1, 2, 3), m.par("W", 1, 1, 3, 4)]))
    mm("batch_const", lambda m: m.op("MatMul", [m.inp(1, 2, 3, 4), m.par("W", 4, 2)]))
    mm("batch_batch", lambda m: m.op("MatMul", [m.inp(1, 2, 3, 4), m.par("W", 1, 2, 4, 2)]))

    def two(m):
        x = m.inp(1, 2, 3, 4)
        return m.op("MatMul", [m.op("Relu", [x]), m.op("Transpose", [x], perm=[0, 1, 3, 2])])
    mm("two_computed", two)
    mm("two_computed_rank2", lambda m: (lambda x: m.op("MatMul", [m.op("Relu", [x]), m.op("Transpose", [x], perm=[1, 0])]))(m.inp(3, 4)),
       expect=REFUSE)
    mm("batch_right_only", lambda m: m.op("MatMul", [m.par("W", 2, 3), m.inp(1, 2, 3, 4)]), expect=REFUSE)
    mm("batch_n", lambda m: m.op("MatMul", [m.inp(2, 2, 3, 4), m.par("W", 4, 2)]), expect=REFUSE)

    def twoc(m):
        x = m.inp(1, 1, 3, 3)
        a = m.op("MatMul", [x, m.par("W", 3, 4)])
        b = m.op("MatMul", [m.par("V", 2, 3), x])
        return m.op("MatMul", [b, a])
    mm("chain", twoc)
    for a in ("Relu", "Sigmoid"):
        mm("act_" + a, lambda m, a=a: act(m, m.op("MatMul", [m.inp(1, 3), m.par("W", 3, 4)]), a))
    mm("c1k", lambda m: m.op("MatMul", [m.inp(2, 1), m.par("W", 1, 3)]))
    mm("row1", lambda m: m.op("MatMul", [m.inp(1, 5), m.par("W", 5, 1)]))
    mm("vec1d", lambda m: m.op("MatMul", [m.inp(2, 3), m.par("W", 3)]), expect=REFUSE)
    mm("bcast_batch", lambda m: m.op("MatMul", [m.inp(1, 2, 3, 4), m.par("W", 1, 1, 4, 2)]), expect=REFUSE)
    return out


# ------------------------------------------------------------------- C05 broadcast
ELEM = ("Add", "Sub", "Mul", "Div", "Max", "Min", "Mean")


def elementwise():
    out = []
    shapes = [("same", (1, 2, 3, 2)), ("chan", (1, 2, 1, 1)), ("row", (1, 1, 1, 2)), ("col", (1, 1, 3, 1)), ("scal", (1, 1, 1, 1)),
              ("hw", (1, 1, 3, 2)), ("ch", (1, 2, 3, 1)), ("cw", (1, 2, 1, 2))]
    full = (1, 2, 3, 2)

    def branch(m, x, shape, i):
        """a computed tensor of the given shape, from the input"""
        ax = [k for k in range(1, 4) if shape[k] == 1 and full[k] != 1]
        y = m.op("LeakyRelu", [x], alpha=0.5 + 0.25 * i)
        for k in ax:
            y = m.op("Gather", [y, m.const(i64(i % full[k]))], axis=k)
        return y

    for op in ELEM:
        for sn, s in shapes:
            for order in (0, 1):
                def f(m, op=op, s=s, order=order):
                    x = m.inp(*full)
                    a = branch(m, x, full, 0)
                    b = branch(m, x, s, 1)
                    return m.op(op, [a, b] if order == 0 else [b, a])
                out.append(Case(f"{op}:2:{sn}:{order}", single(f)))
        # two one-sided broadcasts
        for (s1, s2) in [((1, 2, 1, 2), (1, 1, 3, 1)), ((1, 1, 1, 2), (1, 2, 3, 1)), ((1, 2, 1, 1), (1, 1, 3, 2))]:
            def f(m, op=op, s1=s1, s2=s2):
                x = m.inp(*full)
                return m.op(op, [branch(m, x, s1, 0), branch(m, x, s2, 1)])
            out.append(Case(f"{op}:outer:{s1}{s2}".replace(" ", ""), single(f)))
        # constants
        for sn, s in shapes + [("v1", (2,)), ("v2", (3, 1)), ("v3", (2, 1, 1)), ("one", (1,))]:
            for order in (0, 1):
                def f(m, op=op, s=s, order=order):
                    x = m.inp(*full)
                    c = m.par("C", *s)
                    return m.op(op, [x, c] if order == 0 else [c, x])
                out.append(Case(f"{op}:c:{sn}:{order}", single(f), expect=REFUSE if op in ("Max", "Min", "Mean") else "ok"))
        # scalar constant without dimension
        for order in (0, 1):
            def f(m, op=op, order=order):
                x = m.inp(*full)
                c = m.const(np.float32(0.375))
                return m.op(op, [x, c] if order == 0 else [c, x])
            out.append(Case(f"{op}:c:0d:{order}", single(f), expect=REFUSE))
        # constants holding a neutral element in one place
        for order in (0, 1):
            def f(m, op=op, order=order):
                x = m.inp(1, 2, 1, 2)
                c = m.const(np.array([[[[0.0, 2.5]], [[1.0, -3.0]]]], dtype=np.float32) if op in ("Add", "Sub", "Max", "Min", "Mean", "Mul")
                            else np.array([[[[1.0, 2.5]], [[4.0, -3.0]]]], dtype=np.float32))
                return m.op(op, [x, c] if order == 0 else [c, x])
            out.append(Case(f"{op}:c:neutral:{order}", single(f), expect=REFUSE if op in ("Max", "Min", "Mean") else "ok"))
        # fused/following activation, rank 2
        for a in ("Relu", "Sigmoid", "LeakyRelu"):
            def f(m, op=op, a=a):
                x = m.inp(1, 1, 2, 2)
                return act(m, m.op(op, [m.op("LeakyRelu", [x], alpha=0.5), x]), a)
            out.append(Case(f"{op}:{a}", single(f)))

        def f(m, op=op):
            x = m.inp(2, 3)
            return m.op(op, [m.op("LeakyRelu", [x], alpha=0.5), x])
        out.append(Case(f"{op}:rank2", single(f)))

        def f(m, op=op):
            x = m.inp(1, 4)
            return m.op(op, [x, m.par("C", 4)])
        out.append(Case(f"{op}:rank2c", single(f), expect=REFUSE if op in ("Max", "Min", "Mean") else "ok"))

        def f(m, op=op):
            x = m.inp(1, 2, 2, 1)
            return m.op(op, [x, x])
        out.append(Case(f"{op}:xx", single(f), expect=REFUSE))
        if op in ("Max", "Min", "Mean"):
            for sh in [(full, (1, 2, 1, 1), (1, 1, 3, 2)), ((1, 1, 1, 2), (1, 2, 1, 1), (1, 1, 3, 1)), (full, full, full)]:
                def f(m, op=op, sh=sh):
                    x = m.inp(*full)
                    return m.op(op, [branch(m, x, s, i) for i, s in enumerate(sh)])
                out.append(Case(f"{op}:3:{sh}".replace(" ", ""), single(f)))

    def f(m):
        x = m.inp(1, 2, 2, 2)
        return m.op("Add", [m.op("Mul", [x, m.par("A", 1, 2, 1, 1)]), m.par("B", 1, 2, 1, 1)])
    out.append(Case("scale_shift", single(f)))

    def f(m):
        x = m.inp(1, 2, 2, 2)
        return m.op("Div", [m.op("Sub", [x, m.par("A", 1, 2, 1, 1)]), m.par("B", 1, 2, 1, 1, pos=True)])
    out.append(Case("standardise", single(f)))
    return out


# ------------------------------------------------------------------- C06 reductions
REDUCE = ("ReduceSum", "ReduceMean", "ReduceMax", "ReduceMin", "ReduceProd")


def _has_ints(case):
    from vlib import program
    return any(t.data_type == TensorProto.INT64 for t in case.build(program.Params("rand")).graph.initializer)


def reductions():
    out = []

    def red(op, shape, axes, keep=1, opset=18, a=None, name="in0", axname=None):
        def f(m):
            x = m.inp(*shape, name=name)
            ins = [x]
            at = {}
            if axes is not None:
                if opset >= 18 or (op == "ReduceSum" and opset >= 13):
                    ins.append(m.const(i64(*axes)))
                else:
                    at["axes"] = list(axes)
            if keep is not None:
                at["keepdims"] = keep
            return act(m, m.op(op, ins, **at), a)
        return single(f, opset)
    shape = (1, 2, 3, 2)
    for op in REDUCE:
        for r in (1, 2, 3):
            for axes in itertools.combinations((1, 2, 3), r):
                for keep in (1, 0):
                    sh = shape if not (op == "ReduceProd" and r == 3) else (1, 2, 2, 2)
                    out.append(Case(f"{op}:{''.join(map(str, axes))}k{keep}", red(op, sh, axes, keep)))
        for axes in [(-1,), (-2,), (-3,), (-1, -2), (3, 1), (-1, 1), (0, 1), (0, 2, 3), (0, 1, 2, 3), (0,), None]:
            sh = shape if op != "ReduceProd" else (1, 2, 2, 2)
            out.append(Case(f"{op}:{axes}".replace(" ", ""), red(op, sh, axes, 1)))
        for a in ("Relu", "LeakyRelu", "Sigmoid"):
            for axes in [(1,), (2, 3), (1, 2, 3)]:
                sh = (1, 2, 2, 2)
                out.append(Case(f"{op}:{a}:{''.join(map(str, axes))}", red(op, sh, axes, 1, a=a)))
        out.append(Case(f"{op}:nokeepattr", red(op, shape, (2,), None)))
        out.append(Case(f"{op}:rank2", red(op, (2, 3), (1,), 1)))
        out.append(Case(f"{op}:rank2a0", red(op, (2, 3), (0,), 0)))
        out.append(Case(f"{op}:rank3", red(op, (2, 3, 2), (1,), 1)))
        out.append(Case(f"{op}:rank3n", red(op, (2, 3, 2), (-1, 0), 0)))
        out.append(Case(f"{op}:onech", red(op, shape, (1, 3), 1, name="x")))
        if op != "ReduceSum":
            for axes in [(1,), (2, 3), (-1,), None]:
                out.append(Case(f"{op}:op13:{axes}".replace(" ", ""), red(op, (1, 2, 2, 2), axes, 1, opset=13)))
        else:
            for axes in [(1,), (2, 3), (-1,), None]:
                out.append(Case(f"{op}:op11:{axes}".replace(" ", ""), red(op, (1, 2, 2, 2), axes, 1, opset=11)))
        if thorough():
            for s in [(1, 3, 2, 4), (1, 1, 3, 3), (1, 4, 1, 2), (1, 2, 2, 1)]:
                for r in (1, 2, 3):
                    for axes in itertools.combinations((1, 2, 3), r):
                        if op == "ReduceProd" and np.prod([s[k] for k in axes]) > 8:
                            continue
                        out.append(Case(f"{op}:t{s}{axes}".replace(" ", ""), red(op, s, axes, 1)))
    return typed_variants(out, _has_ints)


# ------------------------------------------------------------------- C07 data movement
def movement():
    out = []
    # Concat
    full = [2, 3, 2]

    def cat(axis, sizes, const=None, neg=False, a=None):
        def f(m):
            base = [1, 2, 3, 2]
            x = m.inp(*base)
            xs = []
            for i, s in enumerate(sizes):
                y = m.op("LeakyRelu", [x], alpha=0.5 + i)
                if s != base[axis]:
                    y = m.op("Gather", [y, m.const(i64(*[k % base[axis] for k in range(s)]))], axis=axis)
                xs.append(y)
            if const is not None:
                sh = list(base)
                sh[axis] = 2
                xs.insert(const, m.par("C", *sh))
            return act(m, m.op("Concat", xs, axis=axis - 4 if neg else axis), a)
        return single(f)
    for axis in (1, 2, 3):
        for sizes in [(2, 2), (1, 3), (3, 1, 2), (1, 1, 1, 2)]:
            out.append(Case(f"Concat:{axis}:{''.join(map(str, sizes))}", cat(axis, sizes)))
        out.append(Case(f"Concat:{axis}:neg", cat(axis, (2, 1), neg=True)))
        for c in (0, 1, 2):
            out.append(Case(f"Concat:{axis}:const{c}", cat(axis, (2, 1), const=c), expect=REFUSE))
        for a in ("Relu", "Sigmoid"):
            out.append(Case(f"Concat:{axis}:{a}", cat(axis, (1, 2), a=a)))
    out.append(Case("Concat:rank2", single(lambda m: (lambda x: m.op("Concat", [m.op("Relu", [x]), m.op("LeakyRelu", [x], alpha=0.5)], axis=1))(m.inp(1, 3)))))
    out.append(Case("Concat:rank2a0", single(lambda m: (lambda x: m.op("Concat", [m.op("Relu", [x]), m.op("LeakyRelu", [x], alpha=0.5)], axis=0))(m.inp(2, 3)))))

    def f(m):
        x = m.inp(1, 2, 2, 2)
        return m.op("Concat", [x, x], axis=1)
    out.append(Case("Concat:xx", single(f), expect=REFUSE))

    # Transpose
    for perm in itertools.permutations((1, 2, 3)):
        out.append(Case(f"Transpose:{''.join(map(str, perm))}", single(lambda m, p=perm: m.op("Transpose", [m.inp(1, 2, 3, 4)], perm=[0, *p]))))
        out.append(Case(f"Transpose:{''.join(map(str, perm))}relu", single(lambda m, p=perm: act(m, m.op("Transpose", [m.inp(1, 2, 3, 2)], perm=[0, *p]), "LeakyRelu"))))
    for perm in [(1, 0, 2, 3), (3, 1, 2, 0)]:
        out.append(Case(f"Transpose:b{perm}".replace(" ", ""), single(lambda m, p=perm: m.op("Transpose", [m.inp(1, 2, 3, 4)], perm=list(p))), expect=REFUSE))
    out.append(Case("Transpose:rank2", single(lambda m: m.op("Transpose", [m.inp(2, 3)], perm=[1, 0])), expect=REFUSE))
    out.append(Case("Transpose:rank3", single(lambda m: m.op("Transpose", [m.inp(2, 3, 4)], perm=[1, 2, 0])), expect=REFUSE))
    out.append(Case("Transpose:default", single(lambda m: m.op("Transpose", [m.inp(1, 2, 3, 1)])), expect=REFUSE))
    # Tile
    for rep in [(1, 2, 1, 1), (1, 1, 2, 1), (1, 1, 1, 2), (1, 2, 3, 2), (1, 1, 1, 1), (1, 3, 1, 2)]:
        out.append(Case(f"Tile:{''.join(map(str, rep))}", single(lambda m, r=rep: m.op("Tile", [m.inp(1, 2, 2, 3), m.const(i64(*r))]))))
        out.append(Case(f"Tile:{''.join(map(str, rep))}:1ch", single(lambda m, r=rep: m.op("Tile", [m.inp(1, 2, 3, 2, name="x"), m.const(i64(*r))]))))
    out.append(Case("Tile:relu", single(lambda m: act(m, m.op("Tile", [m.inp(1, 2, 2, 1), m.const(i64(1, 1, 2, 2))]), "LeakyRelu"))))
    out.append(Case("Tile:rank2", single(lambda m: m.op("Tile", [m.inp(2, 3), m.const(i64(2, 1))]))))
    out.append(Case("Tile:batch", single(lambda m: m.op("Tile", [m.inp(1, 1, 2, 3), m.const(i64(2, 1, 1, 2))])), expect=REFUSE))
    # Gather
    for axis in (1, 2, 3):
        for n, idx in [("one", i64(1)), ("list", i64(1, 0, 1)), ("neg", i64(-1, 0)), ("mat", np.array([[0, 1], [1, 1]], dtype=np.int64)), ("scal", np.array(1, dtype=np.int64))]:
            out.append(Case(f"Gather:{axis}:{n}", single(lambda m, i=idx, axis=axis: m.op("Gather", [m.inp(1, 2, 3, 2), m.const(i)], axis=axis)),
                            expect=REFUSE if n in ("mat", "scal") else "ok"))
        out.append(Case(f"Gather:{axis}:negaxis", single(lambda m, axis=axis: m.op("Gather", [m.inp(1, 3, 2, 2), m.const(i64(1, 0))], axis=axis - 4))))
        out.append(Case(f"Gather:{axis}:relu", single(lambda m, axis=axis: act(m, m.op("Gather", [m.inp(1, 3, 2, 2), m.const(i64(1, 0))], axis=axis), "LeakyRelu"))))
    out.append(Case("Gather:0", single(lambda m: m.op("Gather", [m.inp(1, 3, 2, 2), m.const(i64(0))], axis=0)), expect=REFUSE))
    out.append(Case("Gather:def", single(lambda m: m.op("Gather", [m.inp(1, 3, 2, 2), m.const(i64(0))])), expect=REFUSE))
    out.append(Case("Gather:rank2", single(lambda m: m.op("Gather", [m.inp(2, 3), m.const(i64(2, 0))], axis=1))))
    out.append(Case("Gather:rank2a0", single(lambda m: m.op("Gather", [m.inp(3, 2), m.const(i64(2, 0))], axis=0))))
    # GatherElements
    rs = np.random.RandomState(3)
    for axis in (1, 2, 3):
        sh = [1, 3, 2, 3]
        for n, osh in [("same", (1, 3, 2, 3)), ("less", (1, 2, 2, 2))]:
            osh = list(osh)
            osh[axis] = 4
            idx = rs.randint(0, sh[axis], size=osh).astype(np.int64)
            out.append(Case(f"GatherElements:{axis}:{n}", single(lambda m, i=idx, axis=axis: m.op("GatherElements", [m.inp(1, 3, 2, 3), m.const(i)], axis=axis)),
                            expect="ok" if n == "same" else REFUSE))
        osh = list(sh)
        idx = rs.randint(-sh[axis], sh[axis], size=osh).astype(np.int64)
        out.append(Case(f"GatherElements:{axis}:neg", single(lambda m, i=idx, axis=axis: m.op("GatherElements", [m.inp(1, 3, 2, 3), m.const(i)], axis=axis - 4))))
        out.append(Case(f"GatherElements:{axis}:relu", single(lambda m, i=idx, axis=axis: act(m, m.op("GatherElements", [m.inp(1, 3, 2, 3), m.const(i)], axis=axis), "LeakyRelu"))))
    # identities
    out.append(Case("Flatten", single(lambda m: m.op("Flatten", [m.op("Relu", [m.inp(1, 2, 2, 3)])]))))
    out.append(Case("FlattenGemm", single(lambda m: m.op("Gemm", [m.op("Flatten", [m.op("LeakyRelu", [m.inp(1, 2, 2, 3)], alpha=0.5)]), m.par("W", 12, 2), m.par("B", 2)]))))
    out.append(Case("Reshape", single(lambda m: m.op("Reshape", [m.op("Relu", [m.inp(1, 2, 2, 3)]), m.const(i64(1, 12))]))))
    out.append(Case("Reshape4", single(lambda m: m.op("MaxPool", [m.op("Reshape", [m.op("LeakyRelu", [m.inp(1, 2, 2, 6)], alpha=0.5), m.const(i64(1, 2, 4, 3))])], kernel_shape=[2, 2]))))
    out.append(Case("ReshapeAdd", single(lambda m: (lambda x: m.op("Add", [m.op("Reshape", [m.op("Relu", [x]), m.const(i64(1, 4))]), m.par("C", 4)]))(m.inp(1, 2, 2, 1)))))
    out.append(Case("Dropout", single(lambda m: m.op("Dropout", [m.op("Relu", [m.inp(1, 2, 2, 3)])]))))
    out.append(Case("Unsqueeze", single(lambda m: m.op("Unsqueeze", [m.op("Relu", [m.inp(1, 4)]), m.const(i64(0))]))))
    return typed_variants(out, _has_ints)


# ------------------------------------------------------------------- C08 padding
def padding():
    out = []

    def pad(mode, shape, pads, const=None, a=None, opset=13, axes=None):
        def f(m):
            x = m.inp(*shape)
            ins = [x, m.const(i64(*pads))]
            if mode == "constant" or const is not None:
                ins.append(m.const(np.array([const if const is not None else 0.0], dtype=np.float32).reshape(() if False else (1,))[0].reshape(())))
            else:
                ins.append(m.const(np.float32(0.0)))
            if axes is not None:
                ins.append(m.const(i64(*axes)))
            return act(m, m.op("Pad", ins, mode=mode), a)
        return single(f, opset)
    shape = (1, 2, 3, 4)
    geo = [
        ("t", [0, 0, 1, 0, 0, 0, 0, 0]), ("l", [0, 0, 0, 2, 0, 0, 0, 0]), ("b", [0, 0, 0, 0, 0, 0, 2, 0]), ("r", [0, 0, 0, 0, 0, 0, 0, 1]),
        ("tlbr", [0, 0, 1, 2, 0, 0, 2, 1]), ("c0", [0, 1, 0, 0, 0, 0, 0, 0]), ("c1", [0, 0, 0, 0, 0, 1, 0, 0]),
        ("all", [0, 1, 2, 1, 0, 1, 1, 3]), ("none", [0, 0, 0, 0, 0, 0, 0, 0]),
    ]
    for n, p in geo:
        for mode in ("constant", "edge", "reflect", "wrap"):
            if mode == "wrap":
                b = pad(mode, shape, p, opset=19)
            else:
                b = pad(mode, shape, p, 1.25 if mode == "constant" else None)
            out.append(Case(f"{mode}:{n}", b))
    out.append(Case("edge:big", pad("edge", (1, 1, 2, 2), [0, 0, 3, 3, 0, 0, 3, 4])))
    out.append(Case("reflect:max", pad("reflect", (1, 1, 4, 3), [0, 0, 3, 2, 0, 0, 3, 2])))
    out.append(Case("wrap:max", pad("wrap", (1, 1, 3, 2), [0, 0, 3, 2, 0, 0, 3, 2], opset=19)))
    for mode in ("constant", "edge", "reflect", "wrap"):
        out.append(Case(f"{mode}:relu", pad(mode, (1, 1, 3, 2), [0, 0, 1, 1, 0, 0, 1, 0], -1.5 if mode == "constant" else None, a="LeakyRelu", opset=19)))
        out.append(Case(f"{mode}:axes23", pad(mode, (1, 2, 3, 3), [1, 2, 2, 1], 0.5, axes=(2, 3), opset=19), expect=REFUSE))
        out.append(Case(f"{mode}:axes3", pad(mode, (1, 2, 3, 3), [1, 2], 0.5, axes=(3,), opset=19), expect=REFUSE))
        out.append(Case(f"{mode}:axesneg", pad(mode, (1, 2, 3, 3), [1, 2, 2, 1], 0.5, axes=(-1, -2), opset=19), expect=REFUSE))
        if mode != "wrap":      # numpy-style crop order is ambiguous in wrap mode
            out.append(Case(f"{mode}:negpads", pad(mode, (1, 1, 4, 4), [0, 0, -1, 0, 0, 0, 1, -2], 0.5, opset=19), expect=REFUSE))
        out.append(Case(f"{mode}:axesperm", pad(mode, (1, 2, 3, 3), [0, 1, 1, 0, 0, 0, 2, 1], 0.5, axes=(0, 1, 3, 2), opset=19), expect=REFUSE))
        out.append(Case(f"{mode}:rank2", pad(mode, (3, 4), [1, 0, 1, 2], 0.5, opset=19), expect=REFUSE))
    out.append(Case("constant:nomode", single(lambda m: m.op("Pad", [m.inp(1, 2, 2, 3), m.const(i64(0, 1, 0, 1, 0, 0, 1, 0)), m.const(np.float32(1.5))]))))
    out.append(Case("constant:noconst", single(lambda m: m.op("Pad", [m.inp(1, 2, 2, 3), m.const(i64(0, 1, 0, 1, 0, 0, 1, 0))], mode="constant"))))
    out.append(Case("edge:noconst", single(lambda m: m.op("Pad", [m.inp(1, 2, 2, 3), m.const(i64(0, 1, 0, 1, 0, 0, 1, 0))], mode="edge"))))
    out.append(Case("edge:emptyconst", single(lambda m: m.op("Pad", [m.inp(1, 2, 2, 3), m.const(i64(1, 0, 2, 1)), "", m.const(i64(2, 1))], mode="edge"), 18),
                    expect=REFUSE))
    out.append(Case("constant:batch", pad("constant", (1, 1, 2, 3), [1, 0, 0, 0, 0, 0, 0, 1], 0.5), expect=REFUSE))
    out.append(Case("constant:neg", pad("constant", (1, 1, 2, 3), [0, 0, 1, 1, 0, 0, 1, 1], -7.125)))
    out.append(Case("constant:zero", pad("constant", (1, 1, 2, 3), [0, 0, 1, 1, 0, 0, 1, 1], 0.0)))

    def f(m):
        x = m.inp(1, 1, 2, 3)
        y = m.op("Pad", [x, m.const(i64(0, 0, 1, 1, 0, 0, 1, 1)), m.const(np.float32(2.0))], mode="constant")
        return m.op("Conv", [y, m.par("W", 2, 1, 3, 3), m.par("B", 2)], kernel_shape=[3, 3])
    out.append(Case("constant:conv", single(f)))
    return typed_variants(out, _has_ints)


# ------------------------------------------------------------------- C09 resize
def resizing():
    out = []

    def rs(mode, shape, scales=None, sizes=None, ct=None, nm=None, a=None, opset=13, roi=None, **at):
        def f(m):
            x = m.inp(*shape)
            ins = [x, "" if roi is None else m.const(np.array(roi, dtype=np.float32)), m.const(np.array(scales, dtype=np.float32)) if scales is not None else "", m.const(i64(*sizes)) if sizes is not None else ""]
            kw = dict(mode=mode)
            if ct:
                kw["coordinate_transformation_mode"] = ct
            if nm:
                kw["nearest_mode"] = nm
            kw.update(at)
            return act(m, m.op("Resize", ins, **kw), a)
        return single(f, opset)
    modes = ["half_pixel", "asymmetric", "align_corners", "pytorch_half_pixel"]
    geos = [
        ("up2", (1, 1, 3, 2), dict(scales=[1, 1, 2, 2])),
        ("upmix", (1, 2, 2, 3), dict(scales=[1, 1, 3, 1.5])),
        ("down", (1, 1, 4, 6), dict(scales=[1, 1, 0.5, 0.5])),
        ("sizes", (1, 1, 3, 4), dict(sizes=[1, 1, 5, 7])),
        ("sizedown", (1, 1, 5, 4), dict(sizes=[1, 1, 3, 2])),
        ("same", (1, 1, 3, 3), dict(scales=[1, 1, 1, 1])),
        ("w1d", (1, 2, 1, 4), dict(scales=[1, 1, 1, 2])),
        ("w1dsz", (1, 1, 1, 3), dict(sizes=[1, 1, 1, 5])),
        ("h1d", (1, 1, 4, 1), dict(scales=[1, 1, 2, 1])),
    ]
    for ct in modes:
        for n, shape, kw in geos:
            for mode in ("nearest", "linear", "cubic"):
                out.append(Case(f"{mode}:{ct}:{n}", rs(mode, shape, ct=ct, **kw), expect="ok" if "1d" not in n else REFUSE))
    for nm in ("round_prefer_floor", "round_prefer_ceil", "floor", "ceil"):
        for ct in modes:
            for n, shape, kw in geos[:5]:
                out.append(Case(f"nearest:{nm}:{ct}:{n}", rs("nearest", shape, ct=ct, nm=nm, **kw)))
    for mode in ("nearest", "linear", "cubic"):
        out.append(Case(f"{mode}:default:up2", rs(mode, (1, 1, 3, 2), scales=[1, 1, 2, 2])))
        out.append(Case(f"{mode}:relu", rs(mode, (1, 1, 2, 2), scales=[1, 1, 2, 2], ct="asymmetric", a="LeakyRelu")))
        out.append(Case(f"{mode}:hps", rs(mode, (1, 1, 3, 4), scales=[1, 1, 1.5, 0.7], ct="half_pixel_symmetric", opset=19), expect=REFUSE))
        out.append(Case(f"{mode}:axes", rs(mode, (1, 1, 3, 2), scales=[2, 2], axes=[2, 3], ct="asymmetric", opset=19), expect=REFUSE))
        out.append(Case(f"{mode}:one", rs(mode, (1, 2, 1, 1), scales=[1, 1, 2, 3], ct="asymmetric"), expect=REFUSE))
    for nm, (i, kw) in {
            "exclude": (("cubic", (1, 1, 3, 3)), dict(scales=[1, 1, 2, 2], exclude_outside=1)),
            "antialias": (("linear", (1, 1, 4, 6)), dict(scales=[1, 1, 0.5, 0.5], antialias=1, opset=18)),
            "not_larger": (("linear", (1, 1, 2, 4)), dict(sizes=[1, 1, 4, 4], keep_aspect_ratio_policy="not_larger", opset=18)),
            "not_smaller": (("linear", (1, 1, 2, 2)), dict(sizes=[1, 1, 4, 3], keep_aspect_ratio_policy="not_smaller", opset=18)),
            "channel": (("nearest", (1, 2, 2, 2)), dict(scales=[1, 2, 1, 1])),
            "channeldown": (("nearest", (1, 4, 2, 2)), dict(scales=[1, 0.5, 1, 1])),
            "batch": (("nearest", (1, 1, 2, 2)), dict(scales=[2, 1, 1, 1])),
            "axesperm": (("nearest", (1, 2, 3, 3)), dict(sizes=[1, 2, 6, 5], axes=[0, 1, 3, 2], opset=18)),
            "tfcrop": (("linear", (1, 1, 3, 3)), dict(sizes=[1, 1, 3, 3], ct="tf_crop_and_resize", roi=[0, 0, 0.25, 0.1, 1, 1, 0.8, 1])),
            "tfcropout": (("nearest", (1, 1, 3, 3)), dict(sizes=[1, 1, 3, 3], ct="tf_crop_and_resize", roi=[0, 0, -0.5, 0.1, 1, 1, 0.8, 1.5],
                                                         extrapolation_value=2.0)),
            "linchannel": (("linear", (1, 2, 3, 2)), dict(scales=[1, 2, 2, 1])),
            "rank3": (("linear", (1, 2, 3)), dict(scales=[1, 1, 2])),
            "up1": (("nearest", (1, 1, 3, 2)), dict(sizes=[1, 1, 1, 1], ct="align_corners")),
            "up1l": (("linear", (1, 1, 3, 2)), dict(sizes=[1, 1, 1, 4], ct="align_corners")),
            "ph1": (("cubic", (1, 1, 3, 2)), dict(sizes=[1, 1, 1, 4], ct="pytorch_half_pixel")),
            }.items():
        out.append(Case(f"opt:{nm}", rs(*i, **kw), expect=REFUSE))
    out.append(Case("cubic:a05", rs("cubic", (1, 1, 3, 3), scales=[1, 1, 2, 2], ct="half_pixel", cubic_coeff_a=-0.5)))
    return typed_variants(out, _has_ints)


# ------------------------------------------------------------------- C10 activations
ACTS = ("Relu", "LeakyRelu", "Sigmoid", "Tanh", "Exp", "Log", "Clip")


def activations():
    out = []

    def producers(m, a, p):
        x = m.inp(1, 2, 2, 2)
        if p == "conv":
            return m.op("Conv", [x, m.par("W", 2, 2, 1, 1), m.par("B", 2)], kernel_shape=[1, 1])
        if p == "input":
            return x
        if p == "add":
            return m.op("Add", [x, m.op("LeakyRelu", [x], alpha=0.5)])
        if p == "bn":
            return m.op("BatchNormalization", [x, m.par("s", 2), m.par("b", 2), m.par("mu", 2), m.par("var", 2, pos=True)])
        if p == "maxpool":
            return m.op("MaxPool", [x], kernel_shape=[2, 1], strides=[1, 1]) if False else m.op("MaxPool", [x], kernel_shape=[2, 2], strides=[1, 1])
        if p == "concat":
            return m.op("Concat", [m.op("LeakyRelu", [x], alpha=0.5), m.op("LeakyRelu", [x], alpha=2.0)], axis=1)
        raise KeyError(p)
    for a in ACTS:
        for p in ("input", "conv", "add", "bn"):
            for optim in (False, True):
                out.append(Case(f"{a}:{p}:{'opt' if optim else 'raw'}", single(lambda m, a=a, p=p: X.activation(m, producers(m, a, p), a)),
                                gen=dict(optimization=True) if optim else None))
    for a in ACTS:
        for b in ACTS:
            if b in ("Log",) or (a == "Log"):
                continue
            out.append(Case(f"chain:{a}:{b}", single(lambda m, a=a, b=b: X.activation(m, X.activation(m, m.inp(1, 3), a), b))))
    out.append(Case("LeakyRelu:def", single(lambda m: m.op("LeakyRelu", [m.inp(1, 3)]))))
    for al in (-0.5, 1.5, 0.0, 1e-3, 0.0123456, 1.5e-7, 123456.789):
        out.append(Case(f"LeakyRelu:{al}", single(lambda m, al=al: m.op("LeakyRelu", [m.inp(1, 3)], alpha=al)), expect=REFUSE if al < 0 else "ok"))

    def clip(lo, hi):
        def f(m):
            ins = [m.inp(1, 3)]
            ins.append(m.const(np.array([lo], dtype=np.float32)) if lo is not None else "")
            ins.append(m.const(np.array([hi], dtype=np.float32)) if hi is not None else "")
            return m.op("Clip", ins)
        return single(f, 11)
    for lo, hi in [(-1, 1), (0.5, 6), (-3, -1), (0, 0), (-0.0123456, 1234.5678), (1.5e-7, 2.5e-7)]:
        out.append(Case(f"Clip:{lo}:{hi}", clip(lo, hi)))
    for lo, hi in [(None, 1.0), (-1.0, None)]:
        out.append(Case(f"Clip:{lo}:{hi}", clip(lo, hi), expect=REFUSE))

    def clip0(m):
        return m.op("Clip", [m.inp(1, 3), m.const(np.float32(-0.5)), m.const(np.float32(1.5))])
    out.append(Case("Clip:0d", single(clip0), expect=REFUSE))
    # softmax
    for shape, axes in [((1, 4), (1, -1)), ((1, 2, 3, 2), (1, 2, 3, -1, -2, -3)), ((2, 3), (1, 0)), ((1, 3, 1, 1), (1,)), ((1, 1, 1, 4), (3,)), ((1, 2, 3), (1, 2)), ((2, 2, 3), (0, 1, 2))]:
        for ax in axes:
            out.append(Case(f"Softmax:{shape}:{ax}".replace(" ", ""), single(lambda m, s=shape, ax=ax: m.op("Softmax", [m.inp(*s)], axis=ax))))
        out.append(Case(f"Softmax:{shape}:def".replace(" ", ""), single(lambda m, s=shape: m.op("Softmax", [m.inp(*s)])), expect=REFUSE if shape == (1, 3, 1, 1) else "ok"))
    out.append(Case("Softmax:op11", single(lambda m: m.op("Softmax", [m.inp(1, 4)], axis=1), 11)))
    out.append(Case("Softmax:op11d", single(lambda m: m.op("Softmax", [m.inp(1, 4)]), 11)))
    out.append(Case("Softmax:op11:4d", single(lambda m: m.op("Softmax", [m.inp(1, 2, 2, 2)]), 11), expect=REFUSE))
    for s, ax in (((1, 3, 1, 1), 1), ((1, 1, 3, 1), 1), ((2, 3), 1), ((2, 3), 0), ((2, 3), None), ((1, 2, 3), 2), ((1, 2, 3), -1), ((1, 2, 3), 1), ((1, 1, 1, 3), None)):
        out.append(Case(f"Softmax:op11:{s}:{ax}".replace(" ", ""), single(lambda m, s=s, ax=ax: m.op("Softmax", [m.inp(*s)], **({} if ax is None else dict(axis=ax))), 11), expect=REFUSE))
    out.append(Case("Softmax:relu", single(lambda m: m.op("Relu", [m.op("Softmax", [m.inp(1, 3)], axis=1)]))))
    # batch normalisation
    for n, shape, eps in [("c2", (1, 2, 2, 2), None), ("c3", (1, 3, 1, 2), 0.01), ("c1", (1, 1, 2, 3), 1e-3), ("c4", (1, 2, 1, 1), 0.0123456)]:
        def f(m, shape=shape, eps=eps):
            c = shape[1]
            at = {} if eps is None else dict(epsilon=eps)
            return m.op("BatchNormalization", [m.inp(*shape), m.par("s", c), m.par("b", c), m.par("mu", c), m.par("var", c, pos=True)], **at)
        out.append(Case(f"BatchNorm:{n}", single(f)))

        def f(m, shape=shape, eps=eps):
            c = shape[1]
            return m.op("LeakyRelu", [m.op("BatchNormalization", [m.inp(*shape), m.par("s", c), m.par("b", c), m.par("mu", c), m.par("var", c, pos=True)])], alpha=0.5)
        out.append(Case(f"BatchNorm:{n}:leaky", single(f)))
        out.append(Case(f"BatchNorm:{n}:leaky:opt", single(f), gen=dict(optimization=True)))
    return out
