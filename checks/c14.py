from checks import dags, fe, pt
from vlib.harness import thorough

LEVEL = "bounded"
BOUNDS = ("PyTorch: about 145 exported programs covering every aten function the importer reads (kernel, stride, padding, dilation, bias, axis, clamp bounds, "
          "default arguments, fusion of activations and batch normalisations, unsupported functions and arguments) and random networks of up to 6 (thorough: 8) "
          "operators; NNET: 14 files of 1 to 4 layers; JSON: about 150 files covering every layer class, both layouts, and random networks of up to 5 (thorough: 7) "
          "operators; tensors of at most 30 elements; every input symbolic, parameters symbolic where the importer stores them verbatim")
ASSUMPTIONS = ["each source model is paired by hand with an ONNX model of the same function; the PyTorch pairs are compared with torch on random inputs (tools/validate_pt.py)",
               "Keras (.h5) models cannot be read by this Python version and are not covered; the JSON files are written in the format of JSON_from_keras_model"]

PT_U = ("conv", "convbn", "relu", "clip", "bn", "conv", "relu")
PT_B = ("add", "concat", "add")


def cases():
    kw = dict(unary=PT_U, binary=PT_B, wrap=pt.pt, prefix="pt:dag:", spec=pt.spec)
    if thorough():
        return pt.cases() + fe.cases() + dags.dag_cases(14, per=(9, 25, 10, 1), extra=((5, 300), (6, 200), (7, 100), (8, 50)), **kw) + \
            fe.dag_cases((12, 20, 10, 1), ((5, 300), (6, 150), (7, 80)))
    return pt.cases() + fe.cases() + dags.dag_cases(14, per=(6, 9, 3, 0), extra=((4, 80), (5, 50), (6, 30)), **kw) + \
        fe.dag_cases((10, 8, 2, 0), ((4, 80), (5, 50)))
