from checks import matrix as X
from vlib.harness import Case

LEVEL = "translation_validation"
BOUNDS = "single convolutions, spatial sizes <= 9, kernels <= 5, channels <= 5, strides <= 3, dilations <= 3, all listed padding splits; algorithms 6loops and std_gemm_nn/nt/tn/tt"


GEMMS = ("std_gemm_nn", "std_gemm_nt", "std_gemm_tn", "std_gemm_tt")


def cases():
    return [Case(f"{alg}:{name}", X.conv_model(**kw), gen=dict(versions={"Conv2D": alg}))
            for name, kw in X.conv_geometries() + X.DIL for alg in ("6loops",) + GEMMS]
