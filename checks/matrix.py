"""Matrices of small models, shared by the checks."""
import itertools

import numpy as np

from vlib.harness import Case, thorough
from vlib.models import M


# ------------------------------------------------------------------ convolution
def conv_model(cin, h, w, cout, k, pads=None, stride=1, dil=1, bias=True, act=None, auto=None, group=1, opset=13, post=None,
               attr=None, pool=None):
    def build(P):
        m = M(P, opset)
        x = m.inp(1, cin, h, w)
        ins = [x, m.par("W", cout, cin // group, k[0], k[1])]
        if bias:
            ins.append(m.par("B", cout))
        a = dict(kernel_shape=list(k))
        if stride is not None:
            a["strides"] = [stride, stride] if isinstance(stride, int) else list(stride)
        if dil != 1:
            a["dilations"] = [dil, dil] if isinstance(dil, int) else list(dil)
        if pads is not None:
            a["pads"] = list(pads)
        if auto:
            a["auto_pad"] = auto
        if group != 1:
            a["group"] = group
        a.update(attr or {})
        y = m.op("Conv", ins, **a)
        if act:
            y = activation(m, y, act)
        if pool:
            y = m.op(*pool[:1], [y], **pool[1])
        return m.model(y)
    return build


def activation(m, y, act):
    if act == "Relu":
        return m.op("Relu", [y])
    if act == "LeakyRelu":
        return m.op("LeakyRelu", [y], alpha=0.25)
    if act == "Clip":
        lo = m.const(np.array(-1.5, dtype=np.float32).reshape(1))
        hi = m.const(np.array(2.0, dtype=np.float32).reshape(1))
        return m.op("Clip", [y, lo, hi])
    return m.op(act, [y])


def conv_geometries():
    """(name, kwargs)"""
    g = [
        ("k1", dict(cin=2, h=3, w=4, cout=3, k=(1, 1))),
        ("k3", dict(cin=2, h=4, w=5, cout=2, k=(3, 3))),
        ("k3pad1", dict(cin=2, h=4, w=3, cout=3, k=(3, 3), pads=(1, 1, 1, 1))),
        ("k32", dict(cin=2, h=5, w=4, cout=3, k=(3, 2))),
        ("k23", dict(cin=3, h=4, w=5, cout=2, k=(2, 3))),
        ("k13pad", dict(cin=1, h=3, w=5, cout=2, k=(1, 3), pads=(0, 1, 0, 1))),
        ("padt", dict(cin=2, h=4, w=5, cout=2, k=(2, 3), pads=(1, 0, 0, 0))),
        ("padl", dict(cin=2, h=4, w=5, cout=2, k=(3, 2), pads=(0, 1, 0, 0))),
        ("padb", dict(cin=2, h=4, w=5, cout=2, k=(3, 2), pads=(0, 0, 1, 0))),
        ("padr", dict(cin=2, h=4, w=5, cout=2, k=(2, 3), pads=(0, 0, 0, 1))),
        ("padtl", dict(cin=1, h=4, w=3, cout=2, k=(3, 3), pads=(2, 1, 0, 1))),
        ("padmix", dict(cin=2, h=3, w=4, cout=2, k=(3, 3), pads=(1, 2, 2, 0))),
        ("s2", dict(cin=2, h=5, w=6, cout=2, k=(2, 2), stride=2)),
        ("s2k3", dict(cin=2, h=7, w=5, cout=3, k=(3, 3), stride=2)),
        ("s2pad", dict(cin=2, h=6, w=5, cout=2, k=(3, 3), stride=2, pads=(1, 0, 1, 2))),
        ("s3", dict(cin=1, h=8, w=7, cout=2, k=(2, 3), stride=3, pads=(0, 1, 1, 0))),
        ("nobias", dict(cin=2, h=4, w=4, cout=2, k=(2, 2), bias=False)),
        ("nobiaspad", dict(cin=2, h=3, w=5, cout=3, k=(3, 3), bias=False, pads=(1, 1, 1, 1))),
        ("same_upper", dict(cin=2, h=4, w=5, cout=2, k=(2, 3), auto="SAME_UPPER")),
        ("same_lower", dict(cin=2, h=4, w=5, cout=2, k=(2, 4), auto="SAME_LOWER")),
        ("same_upper_s2", dict(cin=1, h=5, w=6, cout=2, k=(3, 3), auto="SAME_UPPER", stride=2)),
        ("same_lower_s2", dict(cin=1, h=6, w=5, cout=2, k=(3, 3), auto="SAME_LOWER", stride=2)),
        ("valid", dict(cin=2, h=4, w=5, cout=2, k=(3, 2), auto="VALID")),
        ("relu", dict(cin=2, h=4, w=4, cout=2, k=(2, 3), act="Relu", pads=(1, 0, 0, 1))),
        ("leaky", dict(cin=1, h=4, w=3, cout=2, k=(2, 2), act="LeakyRelu")),
        ("sigmoid", dict(cin=1, h=3, w=3, cout=2, k=(2, 2), act="Sigmoid")),
        ("clip", dict(cin=1, h=3, w=4, cout=2, k=(2, 2), act="Clip")),
        ("full", dict(cin=3, h=3, w=4, cout=2, k=(3, 4))),
        ("c1", dict(cin=1, h=5, w=4, cout=1, k=(3, 3), pads=(1, 1, 1, 1))),
        ("c5", dict(cin=5, h=3, w=3, cout=4, k=(2, 2), pads=(0, 0, 1, 1))),
        ("defstride", dict(cin=2, h=4, w=4, cout=2, k=(2, 2), stride=None)),
    ]
    if thorough():
        for (kh, kw), st, pads in itertools.product([(1, 2), (2, 1), (3, 3), (2, 4), (5, 3)], [1, 2, 3],
                                                    [(0, 0, 0, 0), (1, 1, 1, 1), (2, 0, 1, 0), (0, 1, 0, 2), (0, 2, 1, 1)]):
            if pads[0] >= kh + 1 or pads[1] >= kw + 1:
                continue
            g.append((f"x{kh}{kw}s{st}p{''.join(map(str, pads))}", dict(cin=2, h=6, w=5, cout=3, k=(kh, kw), stride=st, pads=pads)))
    return g


DIL = [
    ("dil2", dict(cin=2, h=5, w=6, cout=2, k=(2, 3), dil=2)),
    ("dil2pad", dict(cin=1, h=5, w=6, cout=2, k=(3, 2), dil=2, pads=(1, 2, 2, 0))),
    ("dil3s2", dict(cin=1, h=8, w=9, cout=2, k=(2, 2), dil=3, stride=2, pads=(1, 0, 0, 1))),
]
