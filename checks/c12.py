from checks import dags, mixed
from vlib.harness import thorough

LEVEL = "bounded"
BOUNDS = ("every DAG of at most 3 operators with one sink (several operator choices each), every DAG of 4 operators (one choice), and random DAGs of "
          "5 to 7 (thorough: 9) operators; operators LeakyRelu, Conv, Gather, AveragePool, BatchNormalization, Pad, Tile, Softmax, Add, Sub, Mul, "
          "Max, Concat; tensors of at most 16 elements; 130 (thorough: 2400) random networks of 2 to 6 (thorough: 9) of 23 operators whose tensors grow and shrink "
          "(at most 48 elements) and 125 (thorough: 750) whose tensors have 1 to 4 elements; all inputs and parameters symbolic; optimisation off")
ASSUMPTIONS = ["the network structures are enumerated; the values are symbolic"]


def cases():
    tiny = mixed.cases(7, tuple((n, 150 if thorough() else 25) for n in range(3, 8)), tiny=True)
    v = (None, None, dict(versions={"Conv2D": "std_gemm_nn"}))
    if thorough():
        return dags.dag_cases(7, per=(8, 16, 12, 3), extra=((5, 1500), (6, 1000), (7, 800), (8, 400), (9, 200))) + \
            mixed.cases(7, tuple((n, 300) for n in range(2, 10)), gens=v) + tiny
    return dags.dag_cases(7, per=(8, 8, 3, 1)) + mixed.cases(7, ((2, 20), (3, 30), (4, 30), (5, 30), (6, 20)), gens=v) + tiny
