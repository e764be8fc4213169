"""PyTorch exported programs, each paired with the ONNX model of the same function (the specification)."""
import numpy as np
import onnx
import torch
import torch.nn.functional as F
from onnx import numpy_helper

from checks.ops import REFUSE, i64
from vlib import harness as H
from vlib.harness import Case
from vlib.models import M


class Mod(torch.nn.Module):
    def __init__(self, params, fwd, bufs=()):
        super().__init__()
        for k, v in params.items():
            t = torch.tensor(np.array(v))
            if k in bufs or t.dtype != torch.float32:
                self.register_buffer(k, t)
            else:
                self.register_parameter(k, torch.nn.Parameter(t, requires_grad=False))
        self.fwd = fwd

    def forward(self, *x):
        return self.fwd(self, *x)


def translate(model):
    """torch source code of an ONNX graph"""
    init = {i.name: numpy_helper.to_array(i) for i in model.graph.initializer}
    ins = [g.name for g in model.graph.input if g.name not in init]
    src = ["def fwd(mod, " + ", ".join(ins) + "):"]
    for n in model.graph.node:
        a = {x.name: onnx.helper.get_attribute_value(x) for x in n.attribute}
        x = [f"mod.{i}" if i in init else i for i in n.input if i]
        t = n.op_type
        p = list(a.get("pads", [0, 0, 0, 0]))
        st = tuple(a.get("strides", [1, 1]))
        if t in ("Conv", "MaxPool", "AveragePool"):
            assert p[:2] == p[2:], p
        pp = tuple(p[:2])
        ks = tuple(a.get("kernel_shape", ()))
        y = {
            "Conv": lambda: f"F.conv2d({x[0]}, {x[1]}, {x[2] if len(x) > 2 else None}, {st}, {pp}, {tuple(a.get('dilations', [1, 1]))}, {a.get('group', 1)})",
            "Relu": lambda: f"F.relu({x[0]})",
            "LeakyRelu": lambda: f"F.leaky_relu({x[0]}, {a.get('alpha', 0.01)})",
            "Sigmoid": lambda: f"torch.sigmoid({x[0]})",
            "Tanh": lambda: f"torch.tanh({x[0]})",
            "Softmax": lambda: f"F.softmax({x[0]}, {a.get('axis', -1)})",
            "Add": lambda: f"{x[0]} + {x[1]}",
            "Sub": lambda: f"{x[0]} - {x[1]}",
            "Mul": lambda: f"{x[0]} * {x[1]}",
            "Max": lambda: f"torch.maximum({x[0]}, {x[1]})",
            "Concat": lambda: f"torch.cat([{', '.join(x)}], {a['axis']})",
            "Clip": lambda: f"torch.clamp({x[0]}, {float(init[n.input[1]])}, {float(init[n.input[2]])})",
            "BatchNormalization": lambda: f"F.batch_norm({x[0]}, {x[3]}, {x[4]}, {x[1]}, {x[2]}, False, 0.1, {a.get('epsilon', 1e-5)})",
            "MaxPool": lambda: f"F.max_pool2d({x[0]}, {ks}, {st}, {pp})",
            "AveragePool": lambda: f"F.avg_pool2d({x[0]}, {ks}, {st}, {pp}, count_include_pad={bool(a.get('count_include_pad', 0))})",
            "GlobalAveragePool": lambda: f"F.adaptive_avg_pool2d({x[0]}, (1, 1))",
            "Flatten": lambda: f"torch.flatten({x[0]}, 1)",
            "Gemm": lambda: f"F.linear({x[0]}, {x[1]}, {x[2] if len(x) > 2 else None})",       # transB=1
        }[t]()
        src.append(f"    {n.output[0]} = {y}")
    src.append(f"    return {model.graph.output[0].name}")
    ns = {"F": F, "torch": torch}
    code = "\n".join(src)
    exec(compile(code, "<model>", "exec"), ns)
    return ns["fwd"]


def pt(f, fwd=None, opset=13, last=False, bufs=(), extra=None):
    """f(m): the ONNX model; fwd(mod, x): the torch code (default: the translation of the ONNX model)."""
    def build(P):
        m = M(P, opset)
        model = m.model(f(m))
        params = {i.name: numpy_helper.to_array(i) for i in model.graph.initializer}
        bns = {n.input[k] for n in model.graph.node if n.op_type == "BatchNormalization" for k in (3, 4)}
        mod = Mod(params, fwd or translate(model), set(bufs) | bns).eval()
        xs = []
        for g in model.graph.input:
            if g.name not in params:
                shape = [d.dim_value for d in g.type.tensor_type.shape.dim]
                xs.append(torch.randn(*shape))
        if last:
            mod = mod.to(memory_format=torch.channels_last)
            xs = [x.to(memory_format=torch.channels_last) for x in xs]
        prog = torch.export.export(mod, tuple(xs))
        prog._verif = model
        prog._verif_run = (mod, xs)
        return prog
    return build


def spec(prog, P, xs, symbolic):
    return H.onnx_spec(prog._verif, P, xs, symbolic)


def validate(case):
    """The ONNX model and the torch module agree (on one random input): the specification is the right one."""
    from vlib import program as G
    P = G.Params("rand", seed=3)
    prog = case.build(P)
    mod, xs = prog._verif_run
    want = mod(*xs).detach().numpy().reshape(-1)
    got = np.array(H.spec_values(case, prog, P, [float(v) for x in xs for v in x.numpy().reshape(-1)]), dtype=float)
    return want.shape == got.shape and np.allclose(want, got, atol=1e-4, rtol=1e-4)


def case(name, f, fwd=None, expect="ok", gen=None, **kw):
    return Case("pt:" + name, pt(f, fwd, **kw), gen=gen, spec=spec, expect=expect)


def cases():
    out = []

    def conv(m, x, name, ci, co, k, bias=True, **a):
        k = k if isinstance(k, tuple) else (k, k)
        g = a.get("group", 1)
        return m.op("Conv", [x, m.par("W" + name, co, ci // g, *k)] + ([m.par("B" + name, co)] if bias else []), kernel_shape=list(k), **a)

    def one(k, shape=(1, 2, 4, 5), co=2, bias=True, **a):
        return lambda m: conv(m, m.inp(*shape), "1", shape[1], co, k, bias, **a)
    for n, c in [("k1", one(1)), ("k2", one(2)), ("k3p1", one(3, pads=[1, 1, 1, 1])), ("k3s2", one(3, (1, 1, 5, 7), strides=[2, 2])),
                 ("k32", one((3, 2))), ("k23", one((2, 3))), ("k13p", one((1, 3), pads=[0, 1, 0, 1])), ("k31p", one((3, 1), pads=[1, 0, 1, 0])),
                 ("pasym", one(2, pads=[1, 2, 1, 2])), ("pasym2", one(3, pads=[2, 0, 2, 0])), ("s12", one(2, strides=[1, 2])), ("s21", one(2, (1, 1, 5, 5), strides=[2, 1])),
                 ("d2", one(2, dilations=[2, 2])), ("d12", one(2, dilations=[1, 2])), ("d21", one(2, dilations=[2, 1])), ("d2p", one(2, pads=[1, 1, 1, 1], dilations=[2, 2])),
                 ("nobias", one(2, bias=False)), ("nobias_s2", one(2, bias=False, strides=[2, 2])), ("g2", one(2, co=4, group=2)), ("depthwise", one(2, (1, 3, 4, 3), co=3, group=3)),
                 ("g2nb", one(1, co=2, group=2, bias=False)), ("c1", one(2, (1, 1, 3, 3), co=1)), ("w1", one((2, 1), (1, 2, 3, 1)))]:
        asym = n in ("s12", "s21", "d12", "d21", "g2", "depthwise", "g2nb")
        out.append(case("conv:" + n, c, expect=REFUSE if asym else "ok"))
        out.append(case("conv:" + n + ":relu", lambda m, c=c: m.op("Relu", [c(m)]), expect=REFUSE if asym else "ok"))

    def bn(m, x, name, c, **a):
        return m.op("BatchNormalization", [x, m.par("s" + name, c), m.par("b" + name, c), m.par("mu" + name, c), m.par("var" + name, c, pos=True)], **a)
    out.append(case("conv:bn", lambda m: bn(m, one(2)(m), "1", 2)))
    out.append(case("conv:bn:eps", lambda m: bn(m, one(2)(m), "1", 2, epsilon=0.01)))
    out.append(case("conv:nb:bn", lambda m: bn(m, one(2, bias=False)(m), "1", 2)))
    out.append(case("conv:g2:bn", lambda m: bn(m, one(1, co=2, group=2)(m), "1", 2), expect=REFUSE))
    out.append(case("conv:bn:relu", lambda m: m.op("Relu", [bn(m, one(2)(m), "1", 2)])))
    out.append(case("conv:relu:bn", lambda m: bn(m, m.op("Relu", [one(2)(m)]), "1", 2)))
    out.append(case("bn", lambda m: bn(m, m.inp(1, 2, 2, 2), "1", 2)))
    out.append(case("pool:bn", lambda m: bn(m, m.op("MaxPool", [m.inp(1, 2, 3, 3)], kernel_shape=[2, 2], strides=[1, 1]), "1", 2)))

    def convbn2(m):
        c = one(1)(m)
        return m.op("Add", [c, bn(m, c, "1", 2)])
    out.append(case("conv+bn", convbn2))

    def convrelu2(m):
        c = one(1)(m)
        return m.op("Add", [c, m.op("Relu", [c])])
    out.append(case("conv+relu", convrelu2))
    out.append(case("relu:clip", lambda m: m.op("Clip", [m.op("Relu", [one(1)(m)]), m.const(np.float32(-1)), m.const(np.float32(2))])))
    out.append(case("relu:in", lambda m: m.op("Relu", [m.inp(1, 2, 2, 2)])))
    out.append(case("relu:in+", lambda m: m.op("Add", [m.op("Relu", [m.inp(1, 2, 2, 2)]), "in0"])))
    for lo, hi in ((0, 6), (-1, 1), (-0.5, 0.25)):
        out.append(case(f"clamp:{lo}:{hi}", lambda m, lo=lo, hi=hi: m.op("Clip", [one(1)(m), m.const(np.float32(lo)), m.const(np.float32(hi))])))
    out.append(case("relu6", lambda m: m.op("Clip", [one(1)(m), m.const(np.float32(0)), m.const(np.float32(6))]), lambda s, x: F.relu6(F.conv2d(x, s.W1, s.B1)), expect=REFUSE))
    out.append(case("hardtanh", lambda m: m.op("Clip", [one(1)(m), m.const(np.float32(-2)), m.const(np.float32(3))]), lambda s, x: F.hardtanh(F.conv2d(x, s.W1, s.B1), -2., 3.), expect=REFUSE))
    out.append(case("clamp:min", lambda m: m.op("Relu", [one(1)(m)]), lambda s, x: torch.clamp(F.conv2d(x, s.W1, s.B1), min=0.0), expect=REFUSE))
    out.append(case("clamp:max", lambda m: m.op("Neg", [m.op("Relu", [m.op("Neg", [one(1)(m)])])]), lambda s, x: torch.clamp(F.conv2d(x, s.W1, s.B1), max=0.0), expect=REFUSE))
    for a in ("LeakyRelu", "Sigmoid", "Tanh"):
        out.append(case(a, lambda m, a=a: m.op(a, [one(1)(m)]), expect=REFUSE))
        out.append(case(a + ":mid", lambda m, a=a: conv(m, m.op(a, [one(1)(m)]), "2", 2, 1, 1), expect=REFUSE))
    out.append(case("Softmax", lambda m: m.op("Softmax", [one(1)(m)], axis=1), expect=REFUSE))
    # pooling
    for n, shape, a in [("k2s2", (1, 2, 4, 4), dict(kernel_shape=[2, 2], strides=[2, 2])), ("k3s1", (1, 1, 4, 5), dict(kernel_shape=[3, 3], strides=[1, 1])),
                        ("k3s2p1", (1, 2, 5, 5), dict(kernel_shape=[3, 3], strides=[2, 2], pads=[1, 1, 1, 1])), ("k23", (1, 1, 4, 4), dict(kernel_shape=[2, 3], strides=[1, 1])),
                        ("s12", (1, 1, 4, 4), dict(kernel_shape=[2, 2], strides=[1, 2])), ("p01", (1, 1, 4, 4), dict(kernel_shape=[3, 3], strides=[1, 1], pads=[0, 1, 0, 1])),
                        ("p10", (1, 1, 4, 4), dict(kernel_shape=[3, 3], strides=[1, 1], pads=[1, 0, 1, 0]))]:
        ex = REFUSE if n in ("k23", "s12") else "ok"
        out.append(case("maxpool:" + n, lambda m, shape=shape, a=a: m.op("MaxPool", [m.inp(*shape)], **a), expect=ex))
        out.append(case("avgpool:" + n, lambda m, shape=shape, a=a: m.op("AveragePool", [m.inp(*shape)], **a), expect=REFUSE))
    mp = lambda k, s, shape=(1, 1, 4, 5): (lambda m: m.op("MaxPool", [m.inp(*shape)], kernel_shape=[k, k], strides=[s, s]))
    out.append(case("maxpool:def", mp(2, 2), lambda s, x: F.max_pool2d(x, 2)))
    out.append(case("maxpool:def3", mp(3, 3), lambda s, x: F.max_pool2d(x, (3, 3))))
    out.append(case("maxpool:int", mp(2, 1), lambda s, x: F.max_pool2d(x, 2, 1)))
    out.append(case("maxpool:nn", mp(3, 2), lambda s, x: torch.nn.MaxPool2d(3, 2)(x)))
    out.append(case("maxpool:ceil", lambda m: m.op("MaxPool", [m.inp(1, 1, 4, 4)], kernel_shape=[3, 3], strides=[2, 2], ceil_mode=1),
                    lambda s, x: F.max_pool2d(x, 3, 2, ceil_mode=True), expect=REFUSE))
    out.append(case("maxpool:dil", lambda m: m.op("MaxPool", [m.inp(1, 1, 4, 4)], kernel_shape=[2, 2], strides=[1, 1], dilations=[2, 2]),
                    lambda s, x: F.max_pool2d(x, 2, 1, 0, 2), expect=REFUSE))
    for shape in ((1, 2, 3, 3), (1, 3, 2, 4), (1, 1, 4, 2), (1, 2, 1, 1)):
        out.append(case(f"gap:{shape}".replace(" ", ""), lambda m, shape=shape: m.op("GlobalAveragePool", [m.inp(*shape)]), expect=REFUSE if shape[2] != shape[3] else "ok"))
    out.append(case("gap2", lambda m: m.op("AveragePool", [m.inp(1, 1, 4, 4)], kernel_shape=[2, 2], strides=[2, 2]), lambda s, x: F.adaptive_avg_pool2d(x, 2), expect=REFUSE))
    out.append(case("gap:relu", lambda m: m.op("Relu", [m.op("GlobalAveragePool", [m.inp(1, 2, 2, 2)])])))
    # linear
    for n, bias in (("b", True), ("nb", False)):
        for i, o in ((3, 4), (4, 1), (1, 3)):
            out.append(case(f"linear:{n}:{i}:{o}", lambda m, i=i, o=o, bias=bias: m.op("Gemm", [m.inp(1, i), m.par("W", o, i)] + ([m.par("B", o)] if bias else []), transB=1)))
    out.append(case("mlp", lambda m: m.op("Gemm", [m.op("Relu", [m.op("Gemm", [m.inp(1, 3), m.par("W1", 4, 3), m.par("B1", 4)], transB=1)]), m.par("W2", 2, 4), m.par("B2", 2)], transB=1)))
    out.append(case("linear:addmm", lambda m: m.op("Gemm", [m.inp(1, 3), m.par("W", 3, 4), m.par("B", 4)]), lambda s, x: torch.addmm(s.B, x, s.W), expect=REFUSE))
    out.append(case("linear:matmul", lambda m: m.op("MatMul", [m.inp(1, 3), m.par("W", 3, 4)]), lambda s, x: x @ s.W, expect=REFUSE))
    out.append(case("flatten:linear", lambda m: m.op("Gemm", [m.op("Flatten", [one(2, (1, 2, 3, 3))(m)]), m.par("W2", 3, 8), m.par("B2", 3)], transB=1)))
    out.append(case("flatten:linear:in", lambda m: m.op("Gemm", [m.op("Flatten", [m.inp(1, 2, 3, 2)]), m.par("W2", 3, 12), m.par("B2", 3)], transB=1)))
    out.append(case("view:linear", lambda m: m.op("Gemm", [m.op("Flatten", [one(2, (1, 2, 3, 3))(m)]), m.par("W2", 3, 8), m.par("B2", 3)], transB=1),
                    lambda s, x: F.linear(F.conv2d(x, s.W1, s.B1).view(1, -1), s.W2, s.B2), expect=REFUSE))
    out.append(case("linear:batch", lambda m: m.op("Gemm", [m.inp(2, 3), m.par("W", 4, 3), m.par("B", 4)], transB=1), expect=REFUSE))
    out.append(case("linear:4d", lambda m: m.op("Add", [m.op("MatMul", [m.inp(1, 1, 2, 3), m.par("W", 3, 4)]), m.par("B", 4)]), lambda s, x: F.linear(x, s.W.T.contiguous(), s.B), expect=REFUSE))
    # add, cat
    two = lambda op, **a: (lambda m: m.op(op, [one(1)(m), conv(m, "in0", "2", 2, 2, 1)], **a))
    out.append(case("add", two("Add")))
    out.append(case("add:in", lambda m: m.op("Add", [one(1)(m), "in0"])))
    out.append(case("add:same", lambda m: m.op("Add", [m.inp(1, 2, 2, 2), "in0"])))
    out.append(case("add:scalar", lambda m: m.op("Add", [one(1)(m), m.const(np.float32(1.5))]), lambda s, x: F.conv2d(x, s.W1, s.B1) + 1.5, expect=REFUSE))
    out.append(case("add:alpha", lambda m: m.op("Add", [m.op("LeakyRelu", [one(1)(m)], alpha=1.0), m.op("Mul", ["in0", m.const(np.float32(2))])]),
                    lambda s, x: torch.add(F.conv2d(x, s.W1, s.B1), x, alpha=2.0), expect=REFUSE))
    out.append(case("add:param", lambda m: m.op("Add", [one(1)(m), m.par("Z", 1, 2, 1, 1)]), expect=REFUSE))
    out.append(case("add:bcast", lambda m: m.op("Add", [m.inp(1, 2, 2, 2), m.op("GlobalAveragePool", ["in0"])])))
    out.append(case("add:relu", lambda m: m.op("Relu", [two("Add")(m)])))
    for ax in (1, 2, 3, -1, -3):
        out.append(case(f"cat:{ax}", two("Concat", axis=ax)))
    out.append(case("cat:def", lambda m: m.op("Concat", [one(1)(m), conv(m, "in0", "2", 2, 2, 1)], axis=0), lambda s, x: torch.cat([F.conv2d(x, s.W1, s.B1), F.conv2d(x, s.W2, s.B2)]), expect=REFUSE))
    out.append(case("cat3", lambda m: m.op("Concat", [one(1)(m), "in0", conv(m, "in0", "2", 2, 1, 1)], axis=1)))
    out.append(case("sub", two("Sub"), expect=REFUSE))
    out.append(case("mul", two("Mul"), expect=REFUSE))
    out.append(case("max", two("Max"), expect=REFUSE))
    out.append(case("sub:mid", lambda m: m.op("Relu", [two("Sub")(m)]), expect=REFUSE))
    out.append(case("dropout", lambda m: one(1)(m), lambda s, x: F.dropout(F.conv2d(x, s.W1, s.B1), 0.5, False)))
    out.append(case("dropout:train", lambda m: one(1)(m), lambda s, x: F.dropout(F.conv2d(x, s.W1, s.B1), 0.5, False)))
    out.append(case("permute", lambda m: m.op("Transpose", [one(1)(m)], perm=[0, 1, 3, 2]), lambda s, x: F.conv2d(x, s.W1, s.B1).permute(0, 1, 3, 2), expect=REFUSE))
    out.append(case("inplace", lambda m: m.op("Relu", [one(1)(m)]), lambda s, x: F.conv2d(x, s.W1, s.B1).relu_()))
    out.append(case("method", lambda m: m.op("Relu", [one(1)(m)]), lambda s, x: F.conv2d(x, s.W1, s.B1).relu()))
    out.append(case("conv:same", lambda m: conv(m, m.inp(1, 2, 4, 4), "1", 2, 2, 3, pads=[1, 1, 1, 1]), lambda s, x: F.conv2d(x, s.W1, s.B1, padding="same"), expect=REFUSE))
    out.append(case("conv:valid", lambda m: conv(m, m.inp(1, 2, 4, 4), "1", 2, 2, 3), lambda s, x: F.conv2d(x, s.W1, s.B1, padding="valid")))
    out.append(case("conv:int", lambda m: conv(m, m.inp(1, 1, 5, 4), "1", 1, 2, 2, strides=[2, 2], pads=[1, 1, 1, 1]), lambda s, x: F.conv2d(x, s.W1, s.B1, 2, 1)))
    out.append(case("conv:conv", lambda m: conv(m, m.op("Relu", [one(2)(m)]), "2", 2, 1, 2)))
    out.append(case("squeezefire", lambda m: (lambda s: m.op("Concat", [m.op("Relu", [conv(m, s, "2", 2, 2, 1)]), m.op("Relu", [conv(m, s, "3", 2, 2, 3, pads=[1, 1, 1, 1])])], axis=1))(
        m.op("Relu", [one(1, (1, 3, 3, 3))(m)]))))
    out.append(case("resblock", lambda m: (lambda x: m.op("Relu", [m.op("Add", [bn(m, conv(m, m.op("Relu", [bn(m, conv(m, x, "1", 2, 2, 3, bias=False, pads=[1, 1, 1, 1]), "1", 2)]), "2", 2, 2, 3,
                                                                                          bias=False, pads=[1, 1, 1, 1]), "2", 2), x])]))(m.inp(1, 2, 3, 3))))
    out.append(case("convtranspose", lambda m: m.op("Conv", [m.inp(1, 1, 2, 2), m.par("W1", 1, 1, 1, 1), m.par("B1", 1)], kernel_shape=[1, 1]),
                    lambda s, x: F.conv_transpose2d(x, s.W1, s.B1), expect=REFUSE))
    return out
