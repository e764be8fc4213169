"""Branching networks: every small DAG shape, with operators chosen per node."""
import itertools
import random

import numpy as np

from checks.ops import single, i64
from vlib.harness import Case, thorough

UNARY = ("leaky", "conv", "gather", "maxpool", "bn", "pad", "leaky", "tile", "softmax", "csub", "cadd")
BINARY = ("add", "concat", "sub", "add", "mul", "max", "concat3")


def shapes(n):
    """All DAGs of n operators with one sink: a tuple of operand tuples, 0 the input."""
    out = []

    def rec(k, ops):
        if k > n:
            used = {i for o in ops for i in o}
            if all(i in used for i in range(n)):
                out.append(tuple(ops))
            return
        for i in range(k):
            rec(k + 1, ops + [(i,)])
        for i, j in itertools.combinations_with_replacement(range(k), 2):
            rec(k + 1, ops + [(i, j)])
    rec(1, [])
    return out


def rand_shape(n, rng):
    while True:
        ops = []
        for k in range(1, n + 1):
            # prefer operands nobody has read yet, so that most draws have one sink
            used = {i for o in ops for i in o}
            free = [i for i in range(k) if i not in used] or list(range(k))
            i = rng.choice(free if rng.random() < 0.6 else list(range(k)))
            if rng.random() < 0.55:
                j = rng.choice(free if rng.random() < 0.5 else list(range(k)))
                ops.append((i, j))
            else:
                ops.append((i,))
        used = {i for o in ops for i in o}
        if all(i in used for i in range(n)):
            return tuple(ops)


FUSE_U = ("conv", "bn", "leaky", "relu", "sigmoid", "convbn", "gather", "clip", "conv", "leaky", "softmax1")
FUSE_B = ("add", "mul", "concat", "sub", "add", "max")


def build(shape, rng, unary=UNARY, binary=BINARY, opset=13, wrap=None, plan=None):
    """-> (description, builder)"""
    given, plan = plan, []
    nonlin = 0
    chans = [2]
    heavy = [0]
    for k, o in enumerate(shape if given is None else (), 1):
        if len(o) == 1:
            c = chans[o[0]]
            u = rng.choice(unary)
            if "sigmoid" in unary and u != "sigmoid" and any(set(p) == {k, o[0]} for p in shape if len(p) == 2) and rng.random() < 0.7:
                u = "sigmoid"
            if u in ("softmax",) and (nonlin or heavy[o[0]] > 2):
                u = "leaky"
            if c > 8 and u not in ("conv", "convbn"):
                u = "conv"
            if u == "tile" and c > 2:
                u = "leaky"
            nonlin += u == "softmax"
            plan.append(u)
            chans.append({"conv": 2, "convbn": 2, "tile": 2 * c}.get(u, c))
            heavy.append(heavy[o[0]] + (2 if u in ("softmax", "maxpool") else 1))
        else:
            a, b = chans[o[0]], chans[o[1]]
            u = rng.choice(binary)
            if u == "mul" and nonlin and "sigmoid" not in unary:
                u = "add"
            if u == "max" and heavy[o[0]] + heavy[o[1]] > 2:
                u = "sub"
            if "sigmoid" in unary and a == b and any(len(shape[q - 1]) == 1 and plan[q - 1] == "sigmoid" and shape[q - 1][0] == r
                                                     for q, r in (o, o[::-1]) if q) and rng.random() < 0.9:
                u = "mul"
            if a != b or u == "concat3":
                u = "concat"
            nonlin += u == "mul"
            plan.append(u)
            chans.append(a + b if u == "concat" else a)
            heavy.append(heavy[o[0]] + heavy[o[1]] + 1)
    plan = plan if given is None else given

    def f(m):
        ts = [m.inp(1, 2, 2, 1)]
        ch = [2]
        for k, (o, u) in enumerate(zip(shape, plan), 1):
            c = ch[o[0]]
            x = [ts[i] for i in o]
            al = [0.5, 0.25, 2.0, 3.0, 0.125, 1.5, 0.75][k % 7]
            nc = c
            if u == "leaky":
                y = m.op("LeakyRelu", x, alpha=al)
            elif u == "conv":
                nc = 2
                y = m.op("Conv", x + [m.par(f"W{k}", 2, c, 1, 1), m.par(f"B{k}", 2)], kernel_shape=[1, 1])
            elif u == "convbn":
                nc = 2
                y = m.op("Conv", x + [m.par(f"W{k}", 2, c, 1, 1), m.par(f"B{k}", 2)], kernel_shape=[1, 1])
                y = m.op("BatchNormalization", [y, m.par(f"s{k}", 2), m.par(f"b{k}", 2), m.par(f"mu{k}", 2), m.par(f"var{k}", 2, pos=True)])
            elif u == "gather":
                y = m.op("Gather", x + [m.const(i64(*reversed(range(c))))], axis=1)
            elif u == "maxpool":
                y = m.op("MaxPool", x, kernel_shape=[2, 1], strides=[1, 1], pads=[1, 0, 0, 0]) if False else \
                    m.op("AveragePool", x, kernel_shape=[1, 1], strides=[1, 1])
            elif u == "bn":
                y = m.op("BatchNormalization", x + [m.par(f"s{k}", c), m.par(f"b{k}", c), m.par(f"mu{k}", c), m.par(f"var{k}", c, pos=True)])
            elif u == "pad":
                y = m.op("Pad", x + [m.const(i64(0, 0, 1, 0, 0, 0, -1, 0)), m.const(np.float32(0.5 * k))], mode="constant")
            elif u == "tile":
                nc = 2 * c
                y = m.op("Tile", x + [m.const(i64(1, 2, 1, 1))])
            elif u in ("csub", "cadd"):
                y = m.op("Sub" if u == "csub" else "Add", [m.par(f"D{k}", 1, c, 1, 1)] + x)
            elif u == "softmax":
                y = m.op("Softmax", x, axis=1)
            elif u == "concat":
                nc = c + ch[o[1]]
                y = m.op("Concat", x, axis=1)
            elif u in ("add", "sub", "mul", "max"):
                y = m.op({"add": "Add", "sub": "Sub", "mul": "Mul", "max": "Max"}[u], x)
            elif u == "softmax1":
                y = m.op("Softmax", x, axis=[1, 2, 3][k % 3])
            elif u == "sigmoid":
                y = m.op("Sigmoid", x)
            elif u == "relu":
                y = m.op("Relu", x)
            elif u == "clip":
                y = m.op("Clip", x + [m.const(np.array([-1], dtype=np.float32)), m.const(np.array([al], dtype=np.float32))])
            else:
                raise KeyError(u)
            ts.append(y)
            ch.append(nc)
        return ts[-1]
    desc = "".join(f"{u[:4]}({','.join(map(str, o))})" for o, u in zip(shape, plan))
    return desc, (wrap or single)(f, opset=opset)


def dag_cases(seed, gen=None, unary=UNARY, binary=BINARY, per=(8, 8, 3, 1), extra=((5, 150), (6, 80), (7, 50)), tag="", wrap=None,
              prefix="dag:", **kw):
    """per: operator choices for every shape of 1, 2, 3, 4 operators; extra: (size, number of random shapes)."""
    out = []
    seen = set()
    for n, reps in enumerate(per, 1):
        for si, sh in enumerate(shapes(n)):
            for r in range(reps):
                rng = random.Random(f"{seed}/{n}/{si}/{r}")
                d, b = build(sh, rng, unary, binary, wrap=wrap)
                if d not in seen:
                    seen.add(d)
                    out.append(Case(f"{prefix}{d}{tag}", b, gen=gen, **kw))
    for n, k in extra:
        rng = random.Random(f"{seed}/x{n}")
        for _ in range(k):
            d, b = build(rand_shape(n, rng), rng, unary, binary, wrap=wrap)
            if d not in seen:
                seen.add(d)
                out.append(Case(f"{prefix}{d}{tag}", b, gen=gen, **kw))
    return out


VEC_U = ("matmul", "cadd", "relu", "gemm", "matmul", "cadd", "leaky", "sigmoid", "cadd0")
VEC_B = ("add", "mul", "sub", "add")


def build_vec(shape, rng, plan=None):
    """Vector networks: MatMul, Add, Gemm, activations."""
    given, plan = plan, []
    n = 3
    for k, o in enumerate(shape if given is None else (), 1):
        if len(o) == 1:
            u = rng.choice(VEC_U)
            if o[0] and len(shape[o[0] - 1]) == 1 and plan[o[0] - 1] == "matmul" and rng.random() < 0.7:
                u = rng.choice(("cadd", "cadd0", "cadd"))
            if any(set(p) == {k, o[0]} for p in shape if len(p) == 2) and rng.random() < 0.5:
                u = "sigmoid"
            plan.append(u)
        else:
            u = rng.choice(VEC_B)
            if any(q and len(shape[q - 1]) == 1 and plan[q - 1] == "sigmoid" and shape[q - 1][0] == r for q, r in (o, o[::-1])):
                u = "mul"
            plan.append(u)
    plan = plan if given is None else given
    swap = [rng.random() < 0.5 for _ in shape]

    def f(m):
        ts = [m.inp(1, n)]
        for k, (o, u) in enumerate(zip(shape, plan), 1):
            x = [ts[i] for i in o]
            al = [0.5, 0.25, 2.0, 3.0, 0.125, 1.5, 0.75][k % 7]
            if u == "matmul":
                y = m.op("MatMul", x + [m.par(f"W{k}", n, n)])
            elif u == "gemm":
                y = m.op("Gemm", x + [m.par(f"G{k}", n, n), m.par(f"B{k}", n)])
            elif u in ("cadd", "cadd0"):
                c = m.par(f"C{k}", *((n,) if u == "cadd" else (1, n)))
                y = m.op("Add", [c] + x if swap[k - 1] else x + [c])
            elif u == "leaky":
                y = m.op("LeakyRelu", x, alpha=al)
            elif u in ("relu", "sigmoid"):
                y = m.op(u.capitalize(), x)
            else:
                y = m.op(u.capitalize(), x)
            ts.append(y)
        return ts[-1]
    return "vec:" + "".join(f"{u[:4]}({','.join(map(str, o))})" for o, u in zip(shape, plan)), single(f)


def vec_cases(seed, gen=None, per=(9, 6, 2), extra=((4, 60), (5, 40))):
    out, seen = [], set()
    todo = [(sh, random.Random(f"{seed}/v{n}/{i}/{r}")) for n, reps in enumerate(per, 1) for i, sh in enumerate(shapes(n)) for r in range(reps)]
    for n, k in extra:
        rng = random.Random(f"{seed}/vx{n}")
        todo += [(rand_shape(n, rng), rng) for _ in range(k)]
    for sh, rng in todo:
        d, b = build_vec(sh, rng)
        if d not in seen:
            seen.add(d)
            out.append(Case(f"dag:{d}", b, gen=gen))
    return out


def fuse_cases(gen=None):
    """Every choice of operators around the tensors a fusion removes: a producer with two or three consumers."""
    out, seen = [], set()

    def add(shape, plan, vec=False, key=0):
        rng = random.Random(f"fuse/{shape}/{plan}")
        d, b = (build_vec if vec else build)(shape, rng, plan=plan)
        if d not in seen:
            seen.add(d)
            out.append(Case(f"fuse:{d}", b, gen=gen))

    cons = ("leaky", "sigmoid", "clip", "bn", "conv", "gather")
    for p in ("conv", "bn", "convbn", "csub", "gather"):
        for a, b in itertools.product(cons, repeat=2):
            if p == "conv" or {a, b} & {"leaky", "sigmoid", "bn"}:
                add(((0,), (1,), (1,), (2, 3)), (p, a, b, "sub"))
                if p in ("conv", "bn"):
                    add(((0,), (1,), (1,), (3, 2)), (p, a, b, "sub"))
                    add(((0,), (1,), (2,), (1, 3)), (p, a, b, "sub"))
        for a in cons:
            for sh in (((0,), (1,), (1, 2)), ((0,), (1,), (2, 1)), ((0,), (1,), (0, 2)), ((0,), (1,), (2, 2))):
                add(sh, (p, a, "sub" if sh[2] != (2, 2) else "add"))
                add(sh, (p, a, "mul"))
        add(((0,), (1,), (1,), (1,), (2, 3), (4, 5)), (p, "leaky", "leaky", "leaky", "sub", "sub"))
        add(((0,), (1,), (1,), (1,), (2, 3), (4, 5)), (p, "leaky", "sigmoid", "leaky", "sub", "sub"))
    for p in ("add", "concat", "max"):
        for a, b in itertools.product(("leaky", "sigmoid", "gather"), repeat=2):
            add(((0,), (0, 1), (2,), (2,), (3, 4)), ("gather", p, a, b, "sub"))
    # x * sigmoid(y), in both operand orders, sigmoid or x read elsewhere
    for p, m in itertools.product(("conv", "leaky", "gather"), ("mul", "sub", "add")):
        for sh in (((0,), (1,), (1, 2)), ((0,), (1,), (2, 1)), ((0,), (1,), (0, 2)), ((0,), (1,), (2, 0)), ((0,), (1,), (2, 2))):
            add(sh, (p, "sigmoid", m))
        for sh in (((0,), (1,), (1, 2), (2, 3)), ((0,), (1,), (2, 1), (1, 3)), ((0,), (1,), (1, 2), (0, 3)), ((0,), (1,), (1, 2), (3, 3))):
            add(sh, (p, "sigmoid", "mul", m))
        add(((0,), (1,), (1,), (2, 3)), (p, "sigmoid", "sigmoid", m))
        add(((0,), (1,), (2,), (2, 3)), (p, "sigmoid", "sigmoid", m))
    cons = ("cadd", "cadd0", "leaky", "sigmoid", "matmul", "gemm")
    for p in ("matmul", "gemm", "cadd"):
        for a, b in itertools.product(cons, repeat=2):
            add(((0,), (1,), (1,), (2, 3)), (p, a, b, "sub"), True)
            if a != b:
                add(((0,), (1,), (2,)), (p, a, b), True)
                add(((0,), (1,), (2,), (1, 3)), (p, a, b, "sub"), True)
        for a, m in itertools.product(cons, ("add", "sub", "mul")):
            for sh in (((0,), (1,), (1, 2)), ((0,), (1,), (0, 2)), ((0,), (1,), (2, 0))):
                add(sh, (p, a, m), True)
        for sh in (((0,), (0, 1)), ((0,), (1, 0)), ((0,), (1, 1)), ((0,), (0,), (1, 2)), ((0,), (0,), (2, 1), (1, 3)), ((0,), (0,), (1, 2), (3,))):
            add(sh, tuple("add" if len(o) == 2 else (p if k < 2 else "leaky") for k, o in enumerate(sh)), True)
    return out
