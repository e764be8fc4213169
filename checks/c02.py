"""Every implementation version of a layer computes the network's function."""
from checks import matrix as X
from vlib.harness import Case, thorough
from vlib.models import M

LEVEL = "translation_validation"
BOUNDS = ("every registered Conv2D version (6loops, std_gemm_*, indirect_gemm_*, direct_block in channels-last programs) on single convolutions "
          "(sizes <= 9, kernels <= 5, channels <= 6) and on two-convolution networks with mixed per-layer versions; pooling versions default and "
          "channels_last; every version is compared with the same model, hence with every other version")
REFUSE = "refuse-or-ok"
GEMMS = ("std_gemm_nn", "std_gemm_nt", "std_gemm_tn", "std_gemm_tt")
INDIRECT = ("indirect_gemm_nn", "indirect_gemm_nt", "indirect_gemm_tn", "indirect_gemm_tt")
HWC = dict(versions={"Conv2D": "direct_block"}, gen_data_format="channels_last")

BLOCK = [
    ("w3", dict(cin=2, h=4, w=4, cout=3, k=(3, 3))),
    ("w3pad", dict(cin=2, h=4, w=4, cout=3, k=(3, 3), pads=(1, 1, 1, 1))),
    ("w3padrb", dict(cin=1, h=5, w=4, cout=2, k=(3, 3), pads=(0, 0, 1, 2))),
    ("w3oddh", dict(cin=1, h=5, w=4, cout=2, k=(3, 3), pads=(1, 1, 1, 1))),
    ("w3oddw", dict(cin=1, h=4, w=5, cout=2, k=(3, 3), pads=(1, 1, 1, 1))),
    ("w3oddout", dict(cin=1, h=4, w=6, cout=2, k=(3, 3), pads=(1, 1, 0, 1))),
    ("w3padw", dict(cin=1, h=4, w=6, cout=2, k=(3, 3), pads=(1, 1, 1, 0))),
    ("w3s2", dict(cin=1, h=6, w=6, cout=2, k=(3, 3), stride=2, pads=(1, 1, 1, 1))),
    ("w3nobias", dict(cin=1, h=4, w=4, cout=2, k=(3, 3), bias=False)),
    ("w3leaky", dict(cin=1, h=4, w=4, cout=2, k=(3, 3), act="LeakyRelu", opt=True)),
    ("p1", dict(cin=3, h=4, w=4, cout=2, k=(1, 1))),
    ("p1s2", dict(cin=2, h=5, w=4, cout=2, k=(1, 1), stride=2)),
    ("p1pad", dict(cin=2, h=3, w=2, cout=2, k=(1, 1), pads=(1, 1, 1, 1))),
    ("p1valid", dict(cin=2, h=5, w=3, cout=2, k=(1, 1), stride=2, auto="VALID")),
    ("p1same", dict(cin=2, h=5, w=3, cout=2, k=(1, 1), stride=2, auto="SAME_UPPER")),
    ("k1x3", dict(cin=2, h=3, w=5, cout=2, k=(1, 3))),
    ("k3x1", dict(cin=2, h=5, w=3, cout=2, k=(3, 1))),
    ("dw", dict(cin=3, h=4, w=4, cout=3, k=(3, 3), group=3, pads=(1, 1, 1, 1))),
    ("dws2", dict(cin=2, h=5, w=4, cout=2, k=(2, 3), group=2, stride=2)),
    ("dw1", dict(cin=2, h=2, w=2, cout=2, k=(1, 1), group=2)),
    ("dwmult", dict(cin=2, h=3, w=3, cout=4, k=(2, 2), group=2)),
    ("grp", dict(cin=4, h=3, w=3, cout=4, k=(2, 2), group=2)),
    ("c1k1", dict(cin=1, h=3, w=3, cout=1, k=(2, 2))),
    ("c1k1w", dict(cin=1, h=4, w=4, cout=1, k=(3, 3))),
    ("k65", dict(cin=1, h=2, w=2, cout=65, k=(2, 2))),
    ("k66", dict(cin=1, h=2, w=2, cout=66, k=(2, 2), pads=(0, 0, 1, 0))),
    ("k128", dict(cin=1, h=2, w=3, cout=128, k=(2, 2))),
]


def chain(v):
    def build(P):
        m = M(P)
        x = m.inp(1, 2, 4, 4)
        y = m.op("Conv", [x, m.par("W", 2, 2, 3, 3), m.par("B", 2)], kernel_shape=[3, 3], pads=[1, 1, 1, 1])
        y = m.op("LeakyRelu", [y], alpha=0.5)
        y = m.op("Conv", [y, m.par("V", 2, 2, 2, 1), m.par("C", 2)], kernel_shape=[2, 1])
        return m.model(y)
    return build


def pool_chain(P):
    m = M(P)
    y = m.op("Conv", [m.inp(1, 2, 4, 5), m.par("W", 2, 2, 2, 2), m.par("B", 2)], kernel_shape=[2, 2])
    y = m.op("MaxPool", [y], kernel_shape=[2, 2], strides=[1, 1], pads=[0, 1, 0, 0])
    y = m.op("AveragePool", [y], kernel_shape=[2, 2], strides=[1, 1])
    return m.model(y)


def cases():
    out = []
    geo = X.conv_geometries() + X.DIL
    for name, kw in geo + BLOCK:
        kw = dict(kw)
        opt = kw.pop("opt", False)
        build = X.conv_model(**kw)
        o = dict(optimization=True) if opt else {}
        out.append(Case(f"direct_block:{name}", build, gen=dict(HWC, **o), expect=REFUSE))
    small = [g for g in geo if g[0] in ("k1", "k3", "k3pad1", "padmix", "s2k3", "s2pad", "nobiaspad", "relu", "c5", "same_lower_s2", "dil2pad")]
    for name, kw in (geo if thorough() else small):
        for v in ("6loops",) + GEMMS:
            out.append(Case(f"{v}:{name}", X.conv_model(**kw), gen=dict(versions={"Conv2D": v})))
    for name, kw in BLOCK:
        if "dw" in name or name == "grp" or name.startswith("k1") or name.startswith("k6"):
            kw = {k: v for k, v in kw.items() if k != "opt"}
            for v in ("6loops",) + GEMMS:
                out.append(Case(f"{v}:{name}", X.conv_model(**kw), gen=dict(versions={"Conv2D": v}), expect=REFUSE))
    for v in INDIRECT:
        for name, kw in [g for g in geo if g[0] in ("k1", "k3", "k3pad1", "s2pad")]:
            out.append(Case(f"{v}:{name}", X.conv_model(**kw), gen=dict(versions={"Conv2D": v})))
    # versions of a channels-last program in a channels-first one, and conversely
    for v, gf in (("direct_block", "channels_first"), ("6loops", "channels_last"), ("std_gemm_nn", "channels_last")):
        for name in ("k3", "k32"):
            out.append(Case(f"layout:{v}:{gf}:{name}", X.conv_model(**dict(geo)[name]), gen=dict(versions={"Conv2D": v}, gen_data_format=gf), expect=REFUSE))
    # per-layer versions: indices 1 (first convolution), 2 (activation), 3 (second convolution)
    mix = [("6loops", "std_gemm_nn"), ("std_gemm_nt", "6loops"), ("std_gemm_tn", "std_gemm_tt"), ("std_gemm_tt", "std_gemm_nt"), (None, "std_gemm_nn")]
    for a, b in mix:
        v = {k: x for k, x in ((1, a), (3, b)) if x}
        for opt in (False, True):
            w = {(2 if k == 3 and opt else k): x for k, x in v.items()}
            out.append(Case(f"mixed:{a}:{b}:{'opt' if opt else 'raw'}", chain(v), gen=dict(versions=w, optimization=opt)))
    out.append(Case("mixed:type+index", chain(0), gen=dict(versions={"Conv2D": "std_gemm_tn", 3: "6loops"})))
    out.append(Case("mixed:block", chain(0), gen=HWC))
    for p in (None, "channels_last"):
        for c in (None, "direct_block"):
            for gf in ("channels_first", "channels_last"):
                v = {}
                if p:
                    v.update({"MaxPooling2D": p, "AveragePooling2D": p})
                if c:
                    v["Conv2D"] = c
                ok = gf == ("channels_last" if p and c else "channels_first") and bool(p) == bool(c)
                out.append(Case(f"pools:{p}:{c}:{gf}", pool_chain, gen=dict(versions=v, gen_data_format=gf), expect="ok" if ok else REFUSE))
    out.append(Case("unknown:version", X.conv_model(**dict(geo)["k3"]), gen=dict(versions={"Conv2D": "no_such_version"}), expect=REFUSE))
    return out
