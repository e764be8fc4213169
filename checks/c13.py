from checks import dags, mixed
from vlib.harness import thorough

LEVEL = "bounded"
BOUNDS = ("networks of Conv, BatchNormalization, MatMul, Add, Gemm, Sigmoid, Mul and other operators, generated with optimisation on: every producer, pair of consumers and "
          "merge around a fused tensor; every DAG of at "
          "most 3 operators (several operator choices biased towards the fused patterns), DAGs of 4 operators, random DAGs of 5 to 7 (thorough: 9); random networks of 23 operators; "
          "tensors of at most 16 elements; inputs symbolic, parameters symbolic where no pattern rewrites them")
ASSUMPTIONS = ["the network structures are enumerated; the values are symbolic"]


def cases():
    on = dict(optimization=True)
    if thorough():
        return dags.dag_cases(13, on, dags.FUSE_U, dags.FUSE_B, per=(12, 30, 20, 4), extra=((5, 1200), (6, 800), (7, 500), (8, 300), (9, 150))) + \
            dags.vec_cases(13, on, per=(9, 40, 15, 2), extra=((5, 500), (6, 300), (7, 200))) + \
            dags.fuse_cases(on) + mixed.cases(13, tuple((n, 200) for n in range(2, 9)), gens=(on,))
    return dags.dag_cases(13, on, dags.FUSE_U, dags.FUSE_B, per=(12, 12, 4, 1), extra=((5, 150), (6, 80), (7, 50))) + dags.vec_cases(13, on) + dags.fuse_cases(on) + \
        mixed.cases(13, ((2, 20), (3, 30), (4, 30), (5, 20)), gens=(on,))
