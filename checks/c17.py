from checks import fe
from checks.ops import i64, single
from vlib import mainprog as MP
from vlib.harness import thorough

LEVEL = "bounded"
BOUNDS = ("main() for 1 to 97 (thorough: 1 to 130) samples around the batch size of 32, networks of 1 to 12 inputs and outputs with parameters of every kind, single and "
          "double precision, samples given as an array, read from a file at generation, or read from a file at run time; batch_loop() for every batch size from 0 to 70 (the size is "
          "symbolic); in each parallel region the iterations run in any order on any thread; predictions are arbitrary (uninterpreted)")
ASSUMPTIONS = ["inference() writes only its context and its prediction array (C16)", "fopen, fclose, fscanf and fprintf behave as specified"]


def gemm(nin, nout):
    def f(m):
        return m.op("Gemm", [m.inp(1, nin), m.par("W", nout, nin), m.par("B", nout)], transB=1)
    return single(f)


def conv(m):
    x = m.op("Conv", [m.inp(1, 1, 3, 3), m.par("W", 2, 1, 2, 2), m.par("B", 2)], kernel_shape=[2, 2])
    x = m.op("BatchNormalization", [x, m.par("s", 2), m.par("b", 2), m.par("mu", 2), m.par("v", 2, pos=True)])
    return m.op("Add", [x, m.par("D", 1, 2, 1, 1)])


def const(m):
    x = m.op("Mul", [m.inp(1, 4), m.par("D", 1, 4)])
    return m.op("Gather", [x, m.const(i64(2, 0, 1))], axis=1)


def two(m):
    x = m.inp(1, 3)
    return m.op("Add", [m.op("MatMul", [x, m.par("W", 3, 3)]), m.op("Relu", [x])])


NETS = {"gemm1": gemm(1, 1), "gemm23": gemm(2, 3), "gemm41": gemm(4, 1), "conv": single(conv), "const": single(const), "two": single(two), 
        "double": fe.js(lambda j, x: j.dense(x, 2), (3,), dtype="float64"), "doubleconv": fe.js(lambda j, x: j.bn(j.conv(x, 2, 2)), (1, 3, 3), dtype="float64")}


def cases():
    out = []
    sizes = range(1, 131) if thorough() else (1, 2, 3, 31, 32, 33, 63, 64, 65, 96, 97)
    for nb in sizes:
        for ext in ("", "run", "file"):
            out.append(MP.MainCase(f"main:{nb}:gemm23:{ext or 'array'}", NETS["gemm23"], nb, ext=ext))
    for k in NETS:
        for nb in (1, 5, 33):
            for ext in ("", "run", "file"):
                for o, g in (("", {}), ("verbose", dict(verbose=True)), ("dec", dict(to_hex=False))):
                    if o and nb != 5:
                        continue
                    out.append(MP.MainCase(f"main:{nb}:{k}:{ext or 'array'}:{o}", NETS[k], nb, gen=g, ext=ext))
    out.append(MP.MainCase("main:5:gemm23:long file", NETS["gemm23"], 5, ext="long"))
    out.append(MP.MainCase("main:5:gemm23:short file", NETS["gemm23"], 5, ext="short"))
    for k in NETS:
        out.append(MP.BatchCase(f"batch:{k}", NETS[k], 70 if k == "gemm23" or thorough() else 34))
    return out
