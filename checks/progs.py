"""The union of the programs of the other checks, for properties that any generated program must satisfy."""
import importlib

from checks import dags, mixed
from vlib.harness import thorough


def every():
    out = []
    for k in range(1, 11):
        out += importlib.import_module(f"checks.c{k:02d}").cases()
    return out


def sample(seq, n, salt=0):
    """Every k-th element, so that families named alike are all represented."""
    if len(seq) <= n:
        return list(seq)
    step = len(seq) / n
    return [seq[min(len(seq) - 1, int(i * step + salt) % len(seq))] for i in range(n)]


def nets(seed):
    """Networks: branching, optimised, mixed."""
    on = dict(optimization=True)
    t = thorough()
    a = dags.dag_cases(7, per=(8, 8, 3, 1))
    b = dags.dag_cases(13, on, dags.FUSE_U, dags.FUSE_B, per=(12, 12, 4, 1)) + dags.vec_cases(13, on) + dags.fuse_cases(on)
    v = (None, on, dict(versions={"Conv2D": "std_gemm_nn"}))
    m = mixed.cases(seed, tuple((n, 200 if t else 16) for n in range(2, 8)), gens=v)
    m += mixed.cases(seed, tuple((n, 150 if t else 14) for n in range(3, 8)), gens=v, tiny=True)
    from checks import c20, fe, pt
    norm = [c for c in c20.cases() if c.name.startswith("c:")]
    other = pt.cases() + fe.cases()
    m += norm + other if t else sample(norm, 30) + sample(other, 60)
    return (a + b if t else sample(a, 120) + sample(b, 120)) + m
