"""Small helpers to write ONNX models."""
import numpy as np
import onnx
from onnx import TensorProto, helper, numpy_helper


TYPED = False     # integer constants stored in int64_data instead of raw_data


def typed_variants(cases, select=lambda c: True):
    """The same programs with their integer constants stored as typed data."""
    import copy

    def wrap(build):
        def f(P):
            global TYPED
            TYPED = True
            try:
                return build(P)
            finally:
                TYPED = False
        return f
    out = []
    for c in cases:
        if select(c):
            d = copy.copy(c)
            d.name += ":typed"
            d.build = wrap(c.build)
            out.append(d)
    return cases + out


class M:
    def __init__(self, P, opset=13):
        self.P = P
        self.nodes = []
        self.inits = []
        self.inputs = []
        self.outputs = []
        self.opset = opset
        self.k = 0
        self.out_type = TensorProto.FLOAT

    def inp(self, *shape, name=None, dtype=TensorProto.FLOAT):
        name = name or f"in{len(self.inputs)}"
        self.inputs.append(helper.make_tensor_value_info(name, dtype, list(shape)))
        return name

    def par(self, name, *shape, **kw):
        """float parameter (symbolic when it can be traced)"""
        self.inits.append(numpy_helper.from_array(self.P(name, *shape, **kw), name))
        return name

    def const(self, arr, name=None, dtype=None):
        """fixed constant"""
        self.k += 1
        name = name or f"k{self.k}"
        arr = np.asarray(arr, dtype=dtype)
        if TYPED and arr.dtype == np.int64:
            self.inits.append(helper.make_tensor(name, TensorProto.INT64, list(arr.shape), [int(v) for v in arr.reshape(-1)]))
        else:
            self.inits.append(numpy_helper.from_array(arr, name))
        return name

    def op(self, typ, ins, nout=1, name=None, outs=None, **attrs):
        self.k += 1
        outs = outs or [f"t{self.k}" + (f"_{i}" if i else "") for i in range(nout)]
        self.nodes.append(helper.make_node(typ, ins, outs, name=name or f"{typ}_{self.k}", **attrs))
        return outs[0] if nout == 1 else outs

    def out(self, name, shape=None, dtype=TensorProto.FLOAT):
        self.outputs.append((name, shape, dtype))
        return self

    def model(self, *outs):
        for o in outs:
            self.outputs.append((o, None, self.out_type))
        g = helper.make_graph(self.nodes, "g", self.inputs,
                              [helper.make_tensor_value_info(n, d, s) for n, s, d in self.outputs], self.inits)
        m = helper.make_model(g, opset_imports=[helper.make_opsetid("", self.opset)], ir_version=8)
        m = onnx.shape_inference.infer_shapes(m)
        # give the output its inferred shape
        vi = {v.name: v for v in m.graph.value_info}
        onnx.checker.check_model(m)
        return m
