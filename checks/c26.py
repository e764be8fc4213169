"""A model feature the tool does not support is refused, never miscompiled: every operator of the ONNX importer under attribute
values, operand arrangements, ranks and opset versions of the standard; a generated program must compute what the standard says."""
import numpy as np
import onnx
from onnx import TensorProto, helper, numpy_helper

from vlib import program as G
from vlib.harness import Case, Out, thorough
from vlib.models import M

LEVEL = "translation_validation"
BOUNDS = ("every operator the ONNX importer knows (and the ones it does not) under the attribute values, optional and initialised operands, tensor ranks 1 to 5, opset versions 1 to 19 and graph "
          "arrangements (several inputs or outputs, constants in every storage form, dangling nodes, custom domains, symbolic dimensions) listed in checks/c26.py; inputs and parameters symbolic")
ASSUMPTIONS = ["a refusal is an exception of the import or of the generation, or generated code that does not compile is a violation; a generated program is compared with the ONNX standard"]
KINDS = None
FUSED = ("Conv", "BN", "graph", "Dropout", "Flatten", "Relu", "LeakyRelu", "Clip", "Tanh", "Sigmoid", "Exp", "Log", "Constant", "LRN")
REFUSE = "refuse-or-ok"


class Attr(Case):
    """A model with some attribute; combinations that are not valid ONNX models are left out."""

    def run(self):
        try:
            self.build(G.Params("rand", seed=1))
        except (onnx.checker.ValidationError, onnx.shape_inference.InferenceError, TypeError) as e:
            out = Out(self.name)
            out.info["refused"] = f"not a valid model: {e}"
            return out
        return super().run()


def i64(*a):
    return np.array(a, np.int64)


def cases():
    out, seen = [], set()

    def one(name, f, opset=13, **gen):
        """f(m) -> name of the output (or list of them)."""
        def build(P):
            m = M(P, opset)
            o = f(m)
            return m.model(*(o if isinstance(o, (list, tuple)) else [o]))
        fused = thorough() or name.split(":")[0] in FUSED
        for opt in (False, True) if fused else (False,):
            n = name + (":opt" if opt else "")
            assert n not in seen, n
            seen.add(n)
            out.append(Attr(n, build, gen=dict(optimization=True, **gen) if opt else gen, expect=REFUSE, memory=not opt))

    def raw(name, f, spec=None, **gen):
        """f(P) -> model."""
        assert name not in seen, name
        seen.add(name)
        out.append(Case(name, f, gen=gen, spec=spec, expect=REFUSE))

    # --- Conv
    def conv(name, ishape, wshape, opset=13, bias=True, **kw):
        def f(m):
            ins = [m.inp(*ishape), m.par("W", *wshape)]
            if bias is True:
                ins.append(m.par("B", wshape[0]))
            elif bias == "":
                ins.append("")
            return m.op("Conv", ins, **kw)
        one(f"Conv:{name}", f, opset)
    I, W = (1, 2, 5, 6), (3, 2, 3, 2)
    for s in ((1, 2), (2, 1), (2, 2), (3, 1), (2, 3)):
        conv(f"strides{s[0]}{s[1]}", I, W, kernel_shape=[3, 2], strides=list(s))
        conv(f"strides{s[0]}{s[1]}:pads", I, W, kernel_shape=[3, 2], strides=list(s), pads=[1, 0, 1, 1])
        for ap in ("SAME_UPPER", "SAME_LOWER", "VALID"):
            conv(f"strides{s[0]}{s[1]}:{ap}", I, W, kernel_shape=[3, 2], strides=list(s), auto_pad=ap)
    for d in ((1, 2), (2, 1), (2, 2), (2, 3)):
        conv(f"dil{d[0]}{d[1]}", I, W, kernel_shape=[3, 2], dilations=list(d))
        conv(f"dil{d[0]}{d[1]}:pads", I, W, kernel_shape=[3, 2], dilations=list(d), pads=[1, 0, 2, 1])
        for ap in ("SAME_UPPER", "SAME_LOWER", "VALID"):
            conv(f"dil{d[0]}{d[1]}:{ap}", I, W, kernel_shape=[3, 2], dilations=list(d), auto_pad=ap)
    for g, ci, co in ((2, 2, 2), (2, 2, 4), (2, 4, 2), (3, 3, 3), (3, 3, 6)):
        conv(f"group{g}:{ci}:{co}", (1, ci, 3, 4), (co, ci // g, 2, 2), kernel_shape=[2, 2], group=g)
        conv(f"group{g}:{ci}:{co}:k1", (1, ci, 3, 4), (co, ci // g, 1, 1), kernel_shape=[1, 1], group=g, bias=False)
        conv(f"group{g}:{ci}:{co}:pad", (1, ci, 3, 4), (co, ci // g, 3, 3), kernel_shape=[3, 3], group=g, pads=[1, 1, 1, 1])
    conv("nokernel", I, W)
    conv("nobias", I, W, kernel_shape=[3, 2], bias=False)
    conv("emptybias", I, W, kernel_shape=[3, 2], bias="")
    conv("rank3", (1, 2, 5), (3, 2, 3), kernel_shape=[3])
    conv("rank3:s2", (1, 2, 5), (3, 2, 3), kernel_shape=[3], strides=[2], pads=[1, 0])
    conv("rank5", (1, 2, 3, 3, 3), (2, 2, 2, 2, 2), kernel_shape=[2, 2, 2])
    conv("batch2", (2, 2, 3, 3), (3, 2, 2, 2), kernel_shape=[2, 2])
    conv("opset1", I, W, opset=1, kernel_shape=[3, 2])
    conv("padsasym", I, W, kernel_shape=[3, 2], pads=[0, 1, 2, 0])
    conv("notset", I, W, kernel_shape=[3, 2], auto_pad="NOTSET")
    conv("notset:pads", I, W, kernel_shape=[3, 2], auto_pad="NOTSET", pads=[1, 0, 0, 1])
    conv("valid:pads0", I, W, kernel_shape=[3, 2], auto_pad="VALID", pads=[0, 0, 0, 0])
    one("Conv:dynweights", lambda m: m.op("Conv", [m.inp(1, 1, 4, 4), m.op("Mul", [m.par("W", 1, 1, 2, 2), m.par("V", 1, 1, 2, 2)])], kernel_shape=[2, 2]))
    one("Conv:inputweights", lambda m: m.op("Conv", [m.inp(1, 1, 3, 3), m.inp(1, 1, 2, 2)], kernel_shape=[2, 2]))
    one("Conv:dynbias", lambda m: m.op("Conv", [m.inp(1, 1, 3, 3), m.par("W", 2, 1, 2, 2), m.op("Add", [m.par("B", 2), m.par("C", 2)])], kernel_shape=[2, 2]))
    one("Conv:constinput", lambda m: m.op("Add", [m.inp(1, 2, 2, 2), m.op("Conv", [m.par("X", 1, 1, 3, 3), m.par("W", 2, 1, 2, 2)], kernel_shape=[2, 2])]))
    one("ConvTranspose", lambda m: m.op("ConvTranspose", [m.inp(1, 1, 3, 3), m.par("W", 1, 1, 2, 2)], kernel_shape=[2, 2]))
    one("Conv:twice", lambda m: (lambda x: m.op("Conv", [m.op("Conv", [x, "W"], kernel_shape=[2, 2]), m.par("W", 1, 1, 2, 2)], kernel_shape=[2, 2]))(m.inp(1, 1, 4, 4)))

    # --- pooling
    for op in ("MaxPool", "AveragePool"):
        def pool(name, ishape, opset=13, op=op, nout=1, **kw):
            one(f"{op}:{name}", lambda m: m.op(op, [m.inp(*ishape)], **kw), opset)
        J = (1, 2, 5, 4)
        for k in ((2, 2), (2, 1), (1, 2), (3, 2), (2, 3)):
            for s in ((1, 1), (1, 2), (2, 1), (2, 2), (3, 2)):
                pool(f"k{k[0]}{k[1]}:s{s[0]}{s[1]}", J, kernel_shape=list(k), strides=list(s))
                pool(f"k{k[0]}{k[1]}:s{s[0]}{s[1]}:ceil", J, kernel_shape=list(k), strides=list(s), ceil_mode=1)
            pool(f"k{k[0]}{k[1]}:same", J, kernel_shape=list(k), auto_pad="SAME_UPPER")
        pool("ceil:pads", J, kernel_shape=[2, 2], strides=[2, 2], ceil_mode=1, pads=[0, 1, 0, 0])
        pool("ceil:33", (1, 1, 6, 6), kernel_shape=[3, 3], strides=[2, 2], ceil_mode=1)
        pool("pads:1", J, kernel_shape=[2, 2], pads=[1, 1, 1, 1])
        pool("pads:asym", J, kernel_shape=[3, 3], strides=[2, 2], pads=[1, 0, 2, 1])
        for d in ((2, 2), (1, 2), (2, 1)):
            pool(f"dil{d[0]}{d[1]}", J, opset=19, kernel_shape=[2, 2], dilations=list(d))
        for ap in ("SAME_UPPER", "SAME_LOWER"):
            pool(f"dil22:{ap}", J, opset=19, kernel_shape=[2, 2], dilations=[2, 2], auto_pad=ap)
        pool("dil1", J, opset=19, kernel_shape=[2, 2], dilations=[1, 1])
        pool("rank3", (1, 2, 5), kernel_shape=[2])
        pool("rank5", (1, 1, 3, 3, 3), kernel_shape=[2, 2, 2])
        pool("batch2", (2, 1, 3, 3), kernel_shape=[2, 2])
        for ap in ("SAME_UPPER", "SAME_LOWER", "VALID", "NOTSET"):
            pool(f"{ap}:s2", (1, 1, 5, 4), kernel_shape=[3, 3], strides=[2, 2], auto_pad=ap)
    for pads in ([1, 1, 1, 1], [0, 0, 0, 0], [1, 0, 0, 1]):
        for s in (1, 2):
            one(f"AveragePool:cip:{pads}:{s}".replace(" ", ""), lambda m, p=pads, s=s: m.op("AveragePool", [m.inp(1, 2, 4, 4)], kernel_shape=[2, 2], strides=[s, s], pads=p, count_include_pad=1))
            one(f"AveragePool:cep:{pads}:{s}".replace(" ", ""), lambda m, p=pads, s=s: m.op("AveragePool", [m.inp(1, 2, 4, 4)], kernel_shape=[2, 2], strides=[s, s], pads=p, count_include_pad=0))
    one("AveragePool:cip:same", lambda m: m.op("AveragePool", [m.inp(1, 2, 4, 4)], kernel_shape=[3, 3], auto_pad="SAME_UPPER", count_include_pad=1))
    one("AveragePool:cip:ceil", lambda m: m.op("AveragePool", [m.inp(1, 1, 4, 4)], kernel_shape=[3, 3], strides=[2, 2], ceil_mode=1, count_include_pad=1))
    one("MaxPool:storage", lambda m: m.op("MaxPool", [m.inp(1, 1, 3, 3)], kernel_shape=[2, 2], storage_order=1))
    one("MaxPool:indices", lambda m: m.op("MaxPool", [m.inp(1, 1, 3, 3)], nout=2, kernel_shape=[2, 2])[0])
    for op in ("GlobalAveragePool", "GlobalMaxPool"):
        for sh in ((1, 2, 3, 3), (1, 2, 2, 3), (1, 2, 3, 2), (1, 2, 1, 4), (1, 3, 1, 1), (1, 2, 3), (1, 1, 2, 2, 2), (2, 1, 2, 2)):
            one(f"{op}:{sh}".replace(" ", ""), lambda m, sh=sh, op=op: m.op(op, [m.inp(*sh)]))
    one("LpPool", lambda m: m.op("LpPool", [m.inp(1, 1, 3, 3)], kernel_shape=[2, 2]))

    # --- elementwise
    SH = {"same": ((1, 2, 2, 3), (1, 2, 2, 3)), "rank2": ((2, 3), (2, 3)), "rank3": ((2, 2, 3), (2, 2, 3)), "rank5": ((1, 2, 1, 2, 2), (1, 2, 1, 2, 2)), "mixed": ((1, 2, 2, 3), (2, 3)),
          "row": ((1, 2, 2, 3), (3,)), "grow": ((1, 1, 1, 3), (1, 2, 2, 1)), "batch": ((1, 2, 2, 3), (2, 1, 1, 1)), "batch2": ((2, 1, 2, 2), (2, 1, 2, 2)), "chan": ((1, 2, 2, 3), (1, 2, 1, 1))}
    for op in ("Add", "Sub", "Mul", "Div", "Max", "Min", "Mean", "Sum", "Pow", "PRelu"):
        for n, (a, b) in SH.items():
            one(f"{op}:cst:{n}", lambda m, op=op, a=a, b=b: m.op(op, [m.inp(*a), m.par("C", *b)]))
            if op != "PRelu":
                one(f"{op}:first:{n}", lambda m, op=op, a=a, b=b: m.op(op, [m.par("C", *b), m.inp(*a)]))
            one(f"{op}:dyn:{n}", lambda m, op=op, a=a, b=b: (lambda x: m.op(op, [m.op("LeakyRelu", [x], alpha=0.5), m.op("Mul", [m.op("Tanh", [x]), m.par("C", *b)]) if a == b else m.inp(*b)]))(m.inp(*a)))
        if op in ("Max", "Min", "Mean", "Sum"):
            one(f"{op}:1", lambda m, op=op: m.op(op, [m.inp(1, 2, 2)]))
            one(f"{op}:3", lambda m, op=op: (lambda x: m.op(op, [x, m.par("A", 2, 2), m.op("LeakyRelu", [x], alpha=0.5)]))(m.inp(1, 2, 2, 2)))
            one(f"{op}:cst3", lambda m, op=op: m.op(op, [m.inp(1, 1, 2, 2), m.par("A", 2, 2), m.par("B", 2, 1)]))
            one(f"{op}:dup", lambda m, op=op: (lambda x: m.op(op, [x, x]))(m.inp(1, 1, 2, 2)))
        one(f"{op}:scalar", lambda m, op=op: m.op(op, [m.inp(1, 2, 2, 2), m.par("S")]))
    for op in ("Add", "Sub", "Mul", "Div"):
        one(f"{op}:dup", lambda m, op=op: (lambda x: m.op(op, [x, x]))(m.inp(1, 1, 2, 2)))
        for ax in (None, 0, 1, 2):
            sh = {None: (2, 3), 0: (1,), 1: (3,), 2: (2, 3)}[ax]

            def legacy(P, op=op, ax=ax, sh=sh):
                W = P("C", *sh)
                node = helper.make_node(op, ["x", "C"], ["y"], broadcast=1, **({} if ax is None else {"axis": ax}))
                g = helper.make_graph([node], "g", [helper.make_tensor_value_info("x", TensorProto.FLOAT, [1, 3, 2, 3])],
                                      [helper.make_tensor_value_info("y", TensorProto.FLOAT, [1, 3, 2, 3])], [numpy_helper.from_array(W, "C")])
                return helper.make_model(g, opset_imports=[helper.make_opsetid("", 6)], ir_version=8)
            if ax == 1:       # (3,) against axis 1: not what numpy broadcasting does
                raw(f"{op}:legacy:{ax}", legacy)
    for op in ("And", "Mod", "Equal", "Greater"):
        def unknown(m, op=op):
            m.out_type = TensorProto.FLOAT if op == "Mod" else TensorProto.BOOL
            t = m.out_type if op == "And" else TensorProto.FLOAT
            return m.op(op, [m.inp(1, 2, dtype=t), m.inp(1, 2, dtype=t)], **({"fmod": 1} if op == "Mod" else {}))
        one(f"unknown:{op}", unknown)

    # --- Concat
    def cat(name, ax, *shapes, cst=()):
        def f(m):
            return m.op("Concat", [m.par(f"C{i}", *s) if i in cst else (m.inp(*s) if i == min(set(range(len(shapes))) - set(cst)) else
                                   m.op("LeakyRelu", [m.inputs[0].name], alpha=0.25 * (i + 1))) for i, s in enumerate(shapes)], axis=ax)
        one(f"Concat:{name}", f)
    for ax in (0, 1, 2, 3, -1, -2, -3, -4):
        cat(f"a{ax}", ax, (1, 2, 2, 3), (1, 2, 2, 3))
        cat(f"a{ax}:3", ax, (1, 2, 1, 2), (1, 2, 1, 2), (1, 2, 1, 2))
        cat(f"a{ax}:cst1", ax, (1, 2, 2, 3), (1, 2, 2, 3), cst=(1,))
        cat(f"a{ax}:cst0", ax, (1, 2, 2, 3), (1, 2, 2, 3), cst=(0,))
    for r in (1, 2, 3, 5):
        sh = ((4,), (2, 3), (2, 2, 3), (1, 2, 1, 2, 2))[r - 1 if r < 4 else 3]
        for ax in range(-r, r):
            cat(f"rank{r}:{ax}", ax, sh, sh)
            cat(f"rank{r}:{ax}:cst", ax, sh, sh, cst=(1,))
    cat("single", 1, (1, 2, 2, 3))

    # --- Gather, GatherElements
    for r, sh in ((1, (4,)), (2, (3, 4)), (3, (2, 3, 4)), (4, (1, 3, 2, 4)), (5, (1, 2, 2, 2, 2))):
        for ax in (None, *range(-r, r)):
            kw = {} if ax is None else {"axis": ax}
            for n, ind in (("vec", i64(1, 0)), ("neg", i64(-1, 0)), ("scal", np.array(1, np.int64)), ("mat", i64([0, 1], [1, 0])), ("one", i64(1)), ("i32", np.array([1, 0], np.int32))):
                if sh[ax or 0] < 2:
                    ind = ind * 0
                one(f"Gather:r{r}:{ax}:{n}", lambda m, sh=sh, kw=kw, ind=ind: m.op("Gather", [m.inp(*sh), m.const(ind)], **kw))
            ind = np.zeros(sh, np.int64)
            ind[..., -1:] = -1
            one(f"GatherElements:r{r}:{ax}", lambda m, sh=sh, kw=kw, ind=ind: m.op("GatherElements", [m.inp(*sh), m.const(ind)], **kw))
            small = ind[tuple(slice(0, max(1, d - 1)) for d in sh)]
            one(f"GatherElements:r{r}:{ax}:small", lambda m, sh=sh, kw=kw, ind=small: m.op("GatherElements", [m.inp(*sh), m.const(ind)], **kw))
    one("Gather:cstdata", lambda m: m.op("Add", [m.inp(1, 2), m.op("Gather", [m.par("D", 3, 2), m.const(i64(1))])]))
    one("GatherND", lambda m: m.op("GatherND", [m.inp(2, 2), m.const(i64([0, 0], [1, 1]))]))

    # --- Gemm, MatMul
    for ta in (0, 1):
        for tb in (0, 1):
            for rows in (1, 2):
                for cn, c in (("none", None), ("n", (3,)), ("1n", (1, 3)), ("m1", (rows, 1)), ("mn", (rows, 3)), ("1", (1,)), ("scal", ()), ("empty", "")):
                    def f(m, ta=ta, tb=tb, rows=rows, c=c):
                        ins = [m.inp(*((4, rows) if ta else (rows, 4))), m.par("W", *((3, 4) if tb else (4, 3)))]
                        if c == "":
                            ins.append("")
                        elif c is not None:
                            ins.append(m.par("C", *c))
                        return m.op("Gemm", ins, transA=ta, transB=tb, alpha=0.5, beta=2.0)
                    one(f"Gemm:{ta}{tb}:{rows}:{cn}", f)
    one("Gemm:default", lambda m: m.op("Gemm", [m.inp(1, 3), m.par("W", 3, 2), m.par("C", 2)]))
    one("Gemm:dynB", lambda m: m.op("Gemm", [m.par("W", 1, 3), m.inp(3, 2)]))
    one("Gemm:dynC", lambda m: m.op("Gemm", [m.op("Tanh", [m.inp(1, 2)]), m.par("W", 2, 2), m.inputs[0].name]))
    one("Gemm:two", lambda m: m.op("Gemm", [m.inp(1, 2), m.inp(2, 2), m.par("C", 2)]))
    one("Gemm:opset6", lambda m: m.op("Gemm", [m.inp(1, 3), m.par("W", 3, 2), m.par("C", 2)], broadcast=1), 6)
    for n, a, b in (("22", (2, 3), (3, 2)), ("12", (3,), (3, 2)), ("21", (2, 3), (3,)), ("11", (3,), (3,)), ("33", (2, 2, 3), (2, 3, 2)), ("32", (2, 2, 3), (3, 2)), ("23", (2, 3), (2, 3, 2)),
                    ("44", (1, 2, 2, 3), (1, 2, 3, 2)), ("42", (1, 2, 2, 3), (3, 2)), ("24", (2, 3), (1, 2, 3, 2)), ("b4", (2, 1, 2, 3), (1, 2, 3, 2)), ("bb", (1, 2, 2, 3), (1, 1, 3, 2)),
                    ("55", (1, 1, 2, 2, 3), (1, 1, 2, 3, 2)), ("14", (3,), (1, 2, 3, 2)), ("41", (1, 2, 2, 3), (3,)), ("rowc", (1, 3), (3, 1)), ("colr", (3, 1), (1, 3)), ("r3", (1, 1, 3), (1, 3, 2))):
        one(f"MatMul:{n}:right", lambda m, a=a, b=b: m.op("MatMul", [m.inp(*a), m.par("W", *b)]))
        one(f"MatMul:{n}:left", lambda m, a=a, b=b: m.op("MatMul", [m.par("W", *a), m.inp(*b)]))
        one(f"MatMul:{n}:both", lambda m, a=a, b=b: m.op("Add", [m.op("MatMul", [m.par("W", *a), m.par("V", *b)]), m.inp(1)]))
        one(f"MatMul:{n}:dyn", lambda m, a=a, b=b: m.op("MatMul", [m.inp(*a), m.inp(*b)]))
    one("MatMul:xx", lambda m: (lambda x: m.op("MatMul", [x, x]))(m.inp(2, 2)))
    one("MatMul:xLx", lambda m: (lambda x: m.op("MatMul", [x, m.op("LeakyRelu", [x], alpha=0.5)]))(m.inp(1, 2, 2, 2)))

    # --- BatchNormalization
    def bn(name, shape, opset=13, **kw):
        c = shape[1] if len(shape) > 1 else shape[0]
        one(f"BN:{name}", lambda m: m.op("BatchNormalization", [m.inp(*shape), m.par("s", c), m.par("b", c), m.par("mu", c), m.par("v", c, pos=True)], **kw), opset)
    for sh in ((1, 2, 2, 3), (1, 3), (1, 2, 3), (2, 2, 2, 2), (1, 2, 1, 2, 2), (2, 3)):
        bn(f"{sh}".replace(" ", ""), sh)
        bn(f"{sh}:eps".replace(" ", ""), sh, epsilon=0.5)
    bn("momentum", (1, 2, 2, 2), momentum=0.5)
    bn("opset9", (1, 2, 2, 2), opset=9)
    bn("opset15", (1, 2, 2, 2), opset=15, training_mode=0)
    one("BN:spatial0", lambda m: m.op("BatchNormalization", [m.inp(1, 2, 1, 2), m.par("s", 2, 1, 2), m.par("b", 2, 1, 2), m.par("mu", 2, 1, 2), m.par("v", 2, 1, 2, pos=True)], spatial=0), 7)
    one("BN:conv", lambda m: m.op("BatchNormalization", [m.op("Conv", [m.inp(1, 1, 3, 3), m.par("W", 2, 1, 2, 2)], kernel_shape=[2, 2]), m.par("s", 2), m.par("b", 2), m.par("mu", 2),
                                                        m.par("v", 2, pos=True)]))
    one("BN:train", lambda m: m.op("BatchNormalization", [m.inp(1, 2, 2, 2), m.par("s", 2), m.par("b", 2), m.par("mu", 2), m.par("v", 2, pos=True)], nout=3, training_mode=1)[0], 15)
    one("InstanceNormalization", lambda m: m.op("InstanceNormalization", [m.inp(1, 2, 2, 2), m.par("s", 2), m.par("b", 2)]))

    # --- Transpose, Tile, Softmax
    for sh in ((2, 3), (1, 3), (2, 3, 2), (1, 2, 3), (1, 2, 3, 2), (2, 1, 2, 3), (1, 2, 1, 2, 3)):
        r = len(sh)
        import itertools
        perms = list(itertools.permutations(range(r)))
        for p in [None] + (perms if r <= 4 else perms[::11]):
            one(f"Transpose:{sh}:{p}".replace(" ", ""), lambda m, sh=sh, p=p: m.op("Transpose", [m.inp(*sh)], **({} if p is None else {"perm": list(p)})))
    for sh in ((3,), (2, 3), (2, 2, 2), (1, 2, 2, 2), (2, 1, 2, 2), (1, 1, 2, 1, 2)):
        for k in range(len(sh)):
            rep = [1] * len(sh)
            rep[k] = 2
            one(f"Tile:{sh}:{k}".replace(" ", ""), lambda m, sh=sh, rep=tuple(rep): m.op("Tile", [m.inp(*sh), m.const(i64(*rep))]))
        one(f"Tile:{sh}:all".replace(" ", ""), lambda m, sh=sh: m.op("Tile", [m.inp(*sh), m.const(i64(*[2] * len(sh)))]))
    one("Expand", lambda m: m.op("Expand", [m.inp(1, 2, 1), m.const(i64(1, 2, 3))]))
    for op in ("Softmax", "LogSoftmax", "Hardmax"):
        for sh in ((3,), (1, 3), (2, 3), (1, 2, 2), (1, 2, 2, 2), (1, 3, 1, 1), (1, 1, 1, 1, 3)):
            for ax in (None, *range(-len(sh), len(sh))):
                for ops in (11, 13):
                    one(f"{op}:{sh}:{ax}:{ops}".replace(" ", ""), lambda m, op=op, sh=sh, ax=ax: m.op(op, [m.inp(*sh)], **({} if ax is None else {"axis": ax})), ops)

    # --- reductions
    for op in ("ReduceSum", "ReduceMax", "ReduceMin", "ReduceMean", "ReduceProd", "ReduceL1", "ReduceL2", "ReduceSumSquare", "ReduceLogSumExp"):
        known = op in ("ReduceSum", "ReduceMax", "ReduceMin", "ReduceMean", "ReduceProd")
        for sh in ((2, 2, 2),) if not known else ((3,), (2, 3), (2, 2, 2), (1, 2, 2, 2), (2, 1, 2, 2), (1, 1, 2, 1, 2)):
            r = len(sh)
            sets = [None, *[(a,) for a in range(-r, r)], *([(0, r - 1)] if r > 1 else []), *([(-1, 1)] if r > 2 else []), *([(2, 1)] if r > 2 else [])]
            for axes in sets:
                for keep in (None, 0, 1):
                    for ops in (11, 18):
                        def f(m, op=op, sh=sh, axes=axes, keep=keep, ops=ops):
                            kw = {} if keep is None else {"keepdims": keep}
                            ins = [m.inp(*sh)]
                            if axes is not None:
                                if ops < 18:
                                    kw["axes"] = list(axes)
                                else:
                                    ins.append(m.const(i64(*axes)))
                            return m.op(op, ins, **kw)
                        if keep is None and ops == 11:
                            continue
                        one(f"{op}:{sh}:{axes}:{keep}:{ops}".replace(" ", ""), f, ops)
        if known:
            for noop in (0, 1):
                for n, ax in (("none", None), ("empty", i64()), ("absent", ""), ("a1", i64(1))):
                    def f(m, op=op, noop=noop, ax=ax):
                        ins = [m.inp(1, 2, 2, 2)]
                        if isinstance(ax, str):
                            ins.append("")
                        elif ax is not None:
                            ins.append(m.const(ax))
                        return m.op(op, ins, noop_with_empty_axes=noop)
                    one(f"{op}:noop{noop}:{n}", f, 18)
            one(f"{op}:13", lambda m, op=op: m.op(op, [m.inp(1, 2, 2, 2), m.const(i64(1))] if op == "ReduceSum" else [m.inp(1, 2, 2, 2)], **({} if op == "ReduceSum" else {"axes": [1]})), 13)
            one(f"{op}:dynaxes", lambda m, op=op: m.op(op, [m.inp(1, 2, 2, 2), m.inp(1, dtype=TensorProto.INT64)]), 18)
    one("ArgMax", lambda m: m.op("ArgMax", [m.inp(1, 3)]))

    # --- activations
    for op in ("Relu", "Tanh", "Sigmoid", "Exp", "Log", "Elu", "Selu", "Softplus", "Softsign", "HardSigmoid", "Abs", "Neg", "Sqrt", "Ceil", "Identity", "HardSwish", "Mish", "Celu", "ThresholdedRelu", "Sign"):
        for sh in ((2,), (1, 2), (1, 2, 2, 1), (1, 1, 2, 1, 2)):
            if len(sh) > 2 and op not in ("Relu", "Tanh", "Sigmoid", "Exp", "Log"):
                continue
            one(f"{op}:{sh}".replace(" ", ""), lambda m, op=op, sh=sh: m.op(op, [m.inp(*sh)]), 18)
        one(f"Conv:{op}", lambda m, op=op: m.op(op, [m.op("Conv", [m.inp(1, 1, 2, 2), m.par("W", 2, 1, 2, 2)], kernel_shape=[2, 2])]), 18)
    for al in (None, 0.0, 0.5, -0.5, 2.0):
        one(f"LeakyRelu:{al}", lambda m, al=al: m.op("LeakyRelu", [m.inp(1, 3)], **({} if al is None else {"alpha": al})))
        one(f"Conv:LeakyRelu:{al}", lambda m, al=al: m.op("LeakyRelu", [m.op("Conv", [m.inp(1, 1, 2, 2), m.par("W", 2, 1, 2, 2)], kernel_shape=[2, 2])], **({} if al is None else {"alpha": al})))
    for pre in (False, True):
        def clip(name, f, opset=13, pre=pre):
            def g(m):
                x = m.inp(1, 1, 2, 2)
                if pre:
                    x = m.op("Conv", [x, m.par("W", 2, 1, 2, 2)], kernel_shape=[2, 2])
                return f(m, x)
            one(f"{'Conv:' if pre else ''}Clip:{name}", g, opset)
        for n, lo, hi in (("both", -0.5, 0.75), ("lo", -0.5, None), ("hi", None, 0.75), ("none", None, None)):
            def bounds(m, lo, hi, shape):
                def c(v):
                    return "" if v is None else m.const(np.full(shape, v, np.float32))
                return [c(lo), c(hi)]
            for sn, sh in (("0d", ()), ("1d", (1,))):
                clip(f"{n}:{sn}", lambda m, x, lo=lo, hi=hi, sh=sh: m.op("Clip", [x, *bounds(m, lo, hi, sh)]))
            kw = {}
            if lo is not None:
                kw["min"] = lo
            if hi is not None:
                kw["max"] = hi
            clip(f"{n}:opset6", lambda m, x, kw=kw: m.op("Clip", [x], **kw), 6)
        clip("short", lambda m, x: m.op("Clip", [x]))
        clip("lo2", lambda m, x: m.op("Clip", [x, m.const(np.float32(-0.5))]))
        clip("lo2:1d", lambda m, x: m.op("Clip", [x, m.const(np.array([-0.5], np.float32))]))
        clip("dyn", lambda m, x: m.op("Clip", [x, m.op("ReduceMin", [x], keepdims=0)]))
        clip("cross", lambda m, x: m.op("Clip", [x, m.const(np.array([0.5], np.float32)), m.const(np.array([-0.5], np.float32))]))

    # --- Pad
    for mode in ("constant", "reflect", "edge", "wrap"):
        for ops in (2, 11, 13, 18, 19):
            if mode == "wrap" and ops < 19:
                continue
            for sh, pads in (((1, 1, 3, 3), [0, 0, 1, 0, 0, 0, 2, 1]), ((1, 2, 3, 3), [0, 1, 0, 0, 0, 0, 0, 0]), ((2, 3), [1, 0, 0, 1]), ((1, 1, 3, 3), [0, 0, -1, 0, 0, 0, 0, 1]), ((1, 1, 1, 2, 3), [0] * 4 + [1] + [0] * 5)):
                def f(m, mode=mode, ops=ops, sh=sh, pads=pads):
                    if ops < 11:
                        return m.op("Pad", [m.inp(*sh)], pads=pads, mode=mode, value=0.5)
                    return m.op("Pad", [m.inp(*sh), m.const(i64(*pads))] + ([m.const(np.float32(0.5))] if mode == "constant" else []), mode=mode)
                one(f"Pad:{mode}:{ops}:{sh}:{pads}".replace(" ", ""), f, ops)
    for n, v in (("0d", np.float32(0.5)), ("1d", np.array([0.5], np.float32)), ("none", None), ("empty", "")):
        one(f"Pad:value:{n}", lambda m, v=v: m.op("Pad", [m.inp(1, 1, 2, 2), m.const(i64(0, 0, 1, 0, 0, 0, 0, 1))] + ([] if v is None else [v if isinstance(v, str) else m.const(v)])))
    one("Pad:dynvalue", lambda m: m.op("Pad", [m.inp(1, 1, 2, 2), m.const(i64(0, 0, 1, 0, 0, 0, 0, 1)), m.op("ReduceMax", [m.inputs[0].name], keepdims=0)]))
    one("Pad:par", lambda m: m.op("Pad", [m.inp(1, 1, 2, 2), m.const(i64(0, 0, 1, 0, 0, 0, 0, 1)), m.par("v")]))

    # --- Resize
    modes = [("nearest", {}), ("linear", {}), ("cubic", {})]
    for mode, kw in modes:
        for ct in ("half_pixel", "pytorch_half_pixel", "align_corners", "asymmetric", "tf_crop_and_resize", "half_pixel_symmetric"):
            ops = 19 if ct == "half_pixel_symmetric" else 13
            for n, sc in (("up", [1, 1, 2, 1.5]), ("down", [1, 1, 0.6, 0.5]), ("n", [2, 1, 1, 1]), ("c", [1, 2, 1, 1])):
                roi = [0, 0, 0.25, 0.25, 1, 1, 0.75, 0.75] if ct == "tf_crop_and_resize" else []
                one(f"Resize:{mode}:{ct}:{n}", lambda m, mode=mode, ct=ct, sc=sc, roi=roi: m.op("Resize", [m.inp(1, 1, 3, 4), m.const(np.array(roi, np.float32)) if roi else "", m.const(np.array(sc, np.float32))],
                                                                                        mode=mode, coordinate_transformation_mode=ct), ops)
            one(f"Resize:{mode}:{ct}:sizes", lambda m, mode=mode, ct=ct: m.op("Resize", [m.inp(1, 1, 3, 4), m.const(np.array([0, 0, 0.25, 0.25, 1, 1, 0.75, 0.75], np.float32)) if ct[0] == "t" else "", "", m.const(i64(1, 1, 5, 2))],
                                                                             mode=mode, coordinate_transformation_mode=ct), ops)
        one(f"Resize:{mode}:op10", lambda m, mode=mode: m.op("Resize", [m.inp(1, 1, 2, 2), m.const(np.array([1, 1, 2, 2], np.float32))], mode=mode), 10)
        one(f"Resize:{mode}:rank2", lambda m, mode=mode: m.op("Resize", [m.inp(2, 3), "", m.const(np.array([2, 1], np.float32))], mode=mode))
        one(f"Resize:{mode}:rank3", lambda m, mode=mode: m.op("Resize", [m.inp(1, 2, 3), "", m.const(np.array([1, 1, 2], np.float32))], mode=mode))
        one(f"Resize:{mode}:rank5", lambda m, mode=mode: m.op("Resize", [m.inp(1, 1, 2, 2, 2), "", m.const(np.array([1, 1, 1, 2, 2], np.float32))], mode=mode))
        one(f"Resize:{mode}:dyn", lambda m, mode=mode: m.op("Resize", [m.inp(1, 1, 2, 2), "", m.inp(4)], mode=mode))
        for anti in (0, 1):
            one(f"Resize:{mode}:anti{anti}", lambda m, mode=mode, anti=anti: m.op("Resize", [m.inp(1, 1, 4, 4), "", m.const(np.array([1, 1, 0.5, 0.5], np.float32))], mode=mode, antialias=anti), 18)
            one(f"Resize:{mode}:excl{anti}", lambda m, mode=mode, anti=anti: m.op("Resize", [m.inp(1, 1, 3, 3), "", m.const(np.array([1, 1, 2, 2], np.float32))], mode=mode, exclude_outside=anti), 13)
        for pol in ("stretch", "not_larger", "not_smaller"):
            for axes in (None, [2, 3], [3, 2], [-1, -2]):
                one(f"Resize:{mode}:{pol}:{axes}".replace(" ", ""), lambda m, mode=mode, pol=pol, axes=axes: m.op(
                    "Resize", [m.inp(1, 1, 2, 3), "", "", m.const(i64(1, 1, 4, 4) if axes is None else i64(4, 4))], mode=mode, keep_aspect_ratio_policy=pol, coordinate_transformation_mode="asymmetric",
                    **({} if axes is None else {"axes": axes})), 18)
    for nm in ("round_prefer_floor", "round_prefer_ceil", "floor", "ceil"):
        one(f"Resize:nearest:{nm}", lambda m, nm=nm: m.op("Resize", [m.inp(1, 1, 3, 4), "", m.const(np.array([1, 1, 1.5, 0.75], np.float32))], mode="nearest", nearest_mode=nm))
    one("Resize:default", lambda m: m.op("Resize", [m.inp(1, 1, 2, 2), "", m.const(np.array([1, 1, 2, 2], np.float32))]))
    one("Upsample", lambda m: m.op("Upsample", [m.inp(1, 1, 2, 2), m.const(np.array([1, 1, 2, 2], np.float32))]), 9)

    # --- bypassed operators, alone and inside a network
    def inside(name, f, ishape=(1, 2, 2, 3), opset=13):
        def alone(m):
            return f(m, m.inp(*ishape))

        def after(m):
            return f(m, m.op("LeakyRelu", [m.inp(*ishape)], alpha=0.5))

        def before(m):
            return m.op("LeakyRelu", [f(m, m.inp(*ishape))], alpha=0.5)

        def branch(m):
            x = m.op("LeakyRelu", [m.inp(*ishape)], alpha=0.5)
            y = m.op("LeakyRelu", [f(m, x)], alpha=0.25)
            n = int(np.prod(ishape))
            return m.op("Add", [m.op("Reshape", [y, m.const(i64(1, n))]), m.op("Flatten", [x])])
        for n, g in (("alone", alone), ("after", after), ("before", before), ("branch", branch)):
            one(f"{name}:{n}", g, opset)

        def matmul(m):
            x = f(m, m.inp(*ishape))
            return m.op("Softmax", [m.op("Concat", [x, x], axis=-1)], axis=-1)
        one(f"{name}:concat", matmul, opset)
        one(f"{name}:reduce", lambda m: m.op("ReduceSum", [f(m, m.inp(*ishape))], axes=[-1], keepdims=0), 12 if opset > 12 else opset)
        one(f"{name}:add", lambda m: m.op("Add", [f(m, m.inp(*ishape)), m.par("C", 3)]), opset)
        one(f"{name}:tr", lambda m: m.op("Transpose", [f(m, m.inp(*ishape))]), opset)
    inside("LRN", lambda m, x: m.op("LRN", [x], size=3))
    inside("LRN:1", lambda m, x: m.op("LRN", [x], size=1, alpha=0.5, beta=1.0, bias=1.0))
    inside("Dropout", lambda m, x: m.op("Dropout", [x]))
    inside("Dropout:ratio", lambda m, x: m.op("Dropout", [x, m.const(np.float32(0.5))]))
    inside("Dropout:op7", lambda m, x: m.op("Dropout", [x], ratio=0.25), opset=7)
    inside("Dropout:mask", lambda m, x: m.op("Dropout", [x], nout=2)[0])
    inside("Flatten", lambda m, x: m.op("Flatten", [x]))
    for ax in (-2, 0, 2, 3, 4):
        inside(f"Flatten:{ax}", lambda m, x, ax=ax: m.op("Flatten", [x], axis=ax))
    for sh in ((1, 12), (2, 6), (1, 4, 3), (3, 4), (-1, 3), (0, -1), (1, 2, 3, 2), (12,), (1, 1, 1, 1, 12)):
        inside(f"Reshape:{sh}".replace(" ", ""), lambda m, x, sh=sh: m.op("Reshape", [x, m.const(i64(*sh))]))
    inside("Unsqueeze", lambda m, x: m.op("Unsqueeze", [x, m.const(i64(0))]), (1, 2, 3))
    inside("Unsqueeze:3", lambda m, x: m.op("Unsqueeze", [x, m.const(i64(3))]), (1, 2, 3))
    inside("Unsqueeze:op11", lambda m, x: m.op("Unsqueeze", [x], axes=[1]), (1, 2, 3), 11)
    inside("Squeeze", lambda m, x: m.op("Squeeze", [x, m.const(i64(0))]))
    inside("Identity", lambda m, x: m.op("Identity", [x]))
    inside("Cast", lambda m, x: m.op("Cast", [x], to=TensorProto.FLOAT))
    inside("Shape", lambda m, x: m.op("Reshape", [x, m.op("Shape", [x])]))
    inside("Shape:cast", lambda m, x: m.op("Mul", [x, m.op("Cast", [m.op("Shape", [x]), ], to=TensorProto.FLOAT)]), (1, 1, 1, 4))
    one("Shape", lambda m: m.op("Cast", [m.op("Shape", [m.inp(1, 2)])], to=TensorProto.FLOAT))

    # --- constants
    def constant(kind):
        def f(m):
            x = m.inp(1, 1, 2, 2)
            v = [0.5, -1.5]
            if kind == "raw":
                k = m.op("Constant", [], value=numpy_helper.from_array(np.array(v, np.float32)))
            elif kind == "typed":
                k = m.op("Constant", [], value=helper.make_tensor("v", TensorProto.FLOAT, [2], v))
            elif kind == "float":
                k = m.op("Constant", [], value_float=0.5)
            elif kind == "floats":
                k = m.op("Constant", [], value_floats=v)
            elif kind == "raw2":
                k = m.op("Constant", [], value=numpy_helper.from_array(np.array([v, [1.0, 2.0]], np.float32)))
            elif kind == "scalar":
                k = m.op("Constant", [], value=numpy_helper.from_array(np.array(0.5, np.float32)))
            elif kind == "double":
                k = m.op("Cast", [m.op("Constant", [], value=numpy_helper.from_array(np.array(v, np.float64)))], to=TensorProto.FLOAT)
            elif kind == "ofshape":
                k = m.op("ConstantOfShape", [m.const(i64(1, 2))], value=numpy_helper.from_array(np.array([0.5], np.float32)))
            return m.op("Add", [x, k])
        return f
    for kind in ("raw", "typed", "float", "floats", "raw2", "scalar", "double", "ofshape"):
        one(f"Constant:{kind}", constant(kind))
    one("Constant:ints", lambda m: m.op("Reshape", [m.inp(1, 1, 2, 2), m.op("Constant", [], value=helper.make_tensor("v", TensorProto.INT64, [2], [1, 4]))]))
    one("Constant:axes", lambda m: m.op("ReduceSum", [m.inp(1, 2, 2, 2), m.op("Constant", [], value=numpy_helper.from_array(i64(1)))], keepdims=0))
    one("Constant:axes:typed", lambda m: m.op("ReduceSum", [m.inp(1, 2, 2, 2), m.op("Constant", [], value=helper.make_tensor("v", TensorProto.INT64, [1], [1]))], keepdims=0))
    one("Constant:conv", lambda m: m.op("Conv", [m.inp(1, 1, 2, 2), m.op("Constant", [], value=numpy_helper.from_array(np.array([[[[1.0, 2.0], [0.5, -1.0]]]], np.float32)))], kernel_shape=[2, 2]))
    one("Constant:clip", lambda m: m.op("Clip", [m.inp(1, 2), m.op("Constant", [], value=numpy_helper.from_array(np.array([-0.5], np.float32))), m.op("Constant", [], value=numpy_helper.from_array(np.array([0.5], np.float32)))]))
    one("Constant:output", lambda m: m.op("Concat", [m.inp(1, 2), m.op("Constant", [], value=numpy_helper.from_array(np.array([[0.5, 1.5]], np.float32)))], axis=1))

    # --- graphs
    one("graph:2in", lambda m: m.op("Add", [m.inp(1, 2), m.inp(1, 2)]))
    one("graph:2in:conv", lambda m: m.op("Add", [m.op("Conv", [m.inp(1, 1, 2, 2), m.par("W", 1, 1, 1, 1)], kernel_shape=[1, 1]), m.inp(1, 1, 2, 2)]))
    one("graph:unusedin", lambda m: (lambda x, y: m.op("Tanh", [y]))(m.inp(1, 2), m.inp(1, 2)))
    one("graph:unusedin2", lambda m: (lambda x, y: m.op("Tanh", [x]))(m.inp(1, 2), m.inp(1, 2)))

    def two_out(m):
        x = m.inp(1, 2)
        return [m.op("LeakyRelu", [x], alpha=0.5), m.op("LeakyRelu", [x], alpha=0.25)]
    one("graph:2out", two_out)

    def chain_out(m):
        x = m.inp(1, 2)
        y = m.op("LeakyRelu", [x], alpha=0.5)
        return [y, m.op("Tanh", [y])]
    one("graph:2out:chain", chain_out)
    one("graph:2out:rev", lambda m: chain_out(m)[::-1])

    def dangling(m):
        x = m.inp(1, 2)
        y = m.op("LeakyRelu", [x], alpha=0.5)
        m.op("Tanh", [y])
        return y
    one("graph:dangling", dangling)

    def dangling2(m):
        x = m.inp(1, 2)
        m.op("Tanh", [x])
        return m.op("LeakyRelu", [x], alpha=0.5)
    one("graph:dangling:first", dangling2)

    def early(m):
        x = m.inp(1, 1, 2, 2)
        y = m.op("LeakyRelu", [x], alpha=0.5)
        m.op("Conv", [y, m.par("W", 1, 1, 2, 2)], kernel_shape=[2, 2])
        return y
    one("graph:deadconv", early)
    one("graph:initout", lambda m: (m.inp(1, 2), m.op("Add", [m.par("A", 2), m.par("B", 2)]))[1])

    def old_ir(P):
        m = M(P)
        y = m.op("Gemm", [m.inp(1, 3), m.par("W", 3, 2), m.par("B", 2)])
        mod = m.model(y)
        for t in mod.graph.initializer:
            mod.graph.input.append(helper.make_tensor_value_info(t.name, t.data_type, list(t.dims)))
        return mod
    raw("graph:inits-as-inputs", old_ir)

    def old_ir_first(P):
        mod = old_ir(P)
        ins = list(mod.graph.input)[::-1]
        del mod.graph.input[:]
        mod.graph.input.extend(ins)
        return mod
    raw("graph:inits-as-inputs:first", old_ir_first)

    def custom(P):
        g = helper.make_graph([helper.make_node("Relu", ["x"], ["y"], domain="my.domain")], "g", [helper.make_tensor_value_info("x", TensorProto.FLOAT, [1, 2])],
                              [helper.make_tensor_value_info("y", TensorProto.FLOAT, [1, 2])])
        return helper.make_model(g, opset_imports=[helper.make_opsetid("", 13), helper.make_opsetid("my.domain", 1)], ir_version=8)
    raw("graph:customdomain", custom)

    # shapes of the tensors: left out, partly left out, symbolic
    def shaped(net, how, ishape=None):
        def f(P):
            m = M(P)
            mod = m.model(net(m))
            keep = [v for i, v in enumerate(mod.graph.value_info) if how != "none" and how != i]
            del mod.graph.value_info[:]
            mod.graph.value_info.extend(keep)
            if how == "anon":
                for v in mod.graph.output:
                    v.type.tensor_type.ClearField("shape")
                del mod.graph.value_info[:]
            for i, d in enumerate(ishape or ()):
                dim = mod.graph.input[0].type.tensor_type.shape.dim[i]
                if d is None:
                    dim.ClearField("dim_value")
                elif isinstance(d, str):
                    dim.dim_param = d
            if ishape:
                for v in (*mod.graph.value_info, *mod.graph.output):
                    for i, d in enumerate(v.type.tensor_type.shape.dim):
                        if i == 0 or ishape[-1] in (None, "N") or ishape[1] in (None, "N"):
                            d.ClearField("dim_value")
            return mod
        return f

    def never(model, P, xs, symbolic):
        return []         # a model whose input has unknown dimensions has no generated code

    def convnet(m):
        x = m.op("Conv", [m.inp(1, 1, 3, 3), m.par("W", 2, 1, 2, 2), m.par("B", 2)], kernel_shape=[2, 2])
        return m.op("AveragePool", [m.op("LeakyRelu", [x], alpha=0.5)], kernel_shape=[2, 2])

    def branches(m):
        x = m.inp(1, 2, 2, 2)
        y = m.op("LeakyRelu", [x], alpha=0.5)
        z = m.op("Concat", [y, m.op("Add", [x, m.par("C", 2, 1, 1)])], axis=1)
        return m.op("ReduceSum", [z, m.const(i64(2))], keepdims=0)

    def dense(m):
        x = m.op("Gemm", [m.inp(1, 3), m.par("W", 3, 4), m.par("B", 4)])
        return m.op("MatMul", [m.op("Tanh", [x]), m.par("V", 4, 2)])
    NETS = {"conv": convnet, "branches": branches, "dense": dense}
    for nn, net in NETS.items():
        for how in ("none", "anon", 0, 1, 2):
            raw(f"shapes:{nn}:{how}", shaped(net, how))
            raw(f"shapes:{nn}:{how}:opt", shaped(net, how), optimization=True)
        r = 2 if nn == "dense" else 4
        for bn, b in (("unk", None), ("param", "N")):
            raw(f"shapes:{nn}:batch:{bn}", shaped(net, "full", [b] + [0] * (r - 1)))
            for how in ("full", "none", "anon"):
                raw(f"shapes:{nn}:dynamic:{bn}:{how}", shaped(net, how, [1, b] + [0] * (r - 2)), spec=never)
                raw(f"shapes:{nn}:dynlast:{bn}:{how}", shaped(net, how, [1] + [0] * (r - 2) + [b]), spec=never)
                raw(f"shapes:{nn}:dynall:{bn}:{how}", shaped(net, how, [b] * r), spec=never)
            raw(f"shapes:{nn}:batch:{bn}:none", shaped(net, "none", [b] + [0] * (r - 1)))
    for dt in ("DOUBLE", "FLOAT16", "INT64", "INT32", "BFLOAT16", "INT8"):
        def typed(m, dt=getattr(TensorProto, dt)):
            m.out_type = dt
            x = m.inp(1, 2, dtype=dt)
            return m.op("Add", [x, x])
        one(f"graph:dtype:{dt}", typed, 14)

    # --- other operators that must not be taken for known ones
    for op, n in (("LSTM", 3), ("GRU", 3), ("RNN", 3)):
        g = {"LSTM": 4, "GRU": 3, "RNN": 1}[op]
        one(f"{op}:y", lambda m, op=op, g=g: m.op(op, [m.inp(2, 1, 3), m.par("W", 1, g * 2, 3), m.par("R", 1, g * 2, 2)], nout=2, hidden_size=2)[0])
        one(f"{op}:yh", lambda m, op=op, g=g: m.op(op, [m.inp(2, 1, 3), m.par("W", 1, g * 2, 3), m.par("R", 1, g * 2, 2), m.par("B", 1, g * 4)], outs=["", "h"], nout=2, hidden_size=2)[1])
    one("Split", lambda m: m.op("Split", [m.inp(1, 4)], nout=2, axis=1)[0])
    one("Slice", lambda m: m.op("Slice", [m.inp(1, 4), m.const(i64(1)), m.const(i64(3)), m.const(i64(1))]))
    one("Where", lambda m: m.op("Where", [m.const(np.array([True, False])), m.inp(1, 2), m.par("C", 2)]))
    one("DepthToSpace", lambda m: m.op("DepthToSpace", [m.inp(1, 4, 1, 1)], blocksize=2))
    one("Einsum", lambda m: m.op("Einsum", [m.inp(2, 2)], equation="ij->ji"))
    return out
