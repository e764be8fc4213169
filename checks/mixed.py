"""Random networks mixing all operators with tensors of changing geometry (sizes grow and shrink along the way)."""
import random

import numpy as np

from checks.ops import i64, single
from vlib.harness import Case

MAXN = 48


def plan_net(rng, n, vector_tail=True, linear=False, tiny=False):
    """-> list of (operator, operand indices, attributes, shape); tensor 0 is the input."""
    c, h, w = rng.choice([(2, 3, 3), (1, 4, 3), (3, 2, 3), (2, 2, 4), (2, 4, 2), (4, 2, 2), (1, 3, 5)]) if not tiny else \
        rng.choice([(1, 1, 1), (1, 1, 2), (1, 2, 1), (2, 1, 1), (1, 2, 2), (2, 1, 2)])
    shapes = [(c, h, w)]
    plan = []
    budget = [3]      # non-linear or multiplicative operators
    used = set()
    weight = [1.0]
    tries = 0
    while len(plan) < n:
        tries += 1
        if tries > 400:
            return None
        free = [i for i in range(len(shapes)) if i not in used] or list(range(len(shapes)))
        a = rng.choice(free if rng.random() < 0.75 else list(range(len(shapes))))
        C, H, W = shapes[a]
        op = rng.choice(["conv", "conv", "avg", "max", "pad", "resize", "concat", "concat", "add", "sub", "mul", "transpose", "tile", "reduce", "leaky",
                         "gather", "bn", "cadd", "softmax", "relu", "sigmoid", "min", "gap"])
        if op in ("max", "mul", "softmax", "relu", "sigmoid", "min") and (budget[0] == 0 or linear):
            continue
        if op == "conv":
            kh, kw, f, s = rng.randint(1, min(3, H)), rng.randint(1, min(3, W)), rng.randint(1, 3), rng.choice([1, 1, 2])
            p = [rng.choice([0, 0, 1]) for _ in range(4)]
            oh, ow = (H + p[0] + p[2] - kh) // s + 1, (W + p[1] + p[3] - kw) // s + 1
            if weight[a] * C * kh * kw > 60 or C * kh * kw > 16:
                continue
            new = (f, oh, ow)
            at = dict(k=(kh, kw), s=s, p=p, bias=rng.random() < 0.7)
            wgt = weight[a] * C * kh * kw
        elif op in ("avg", "max"):
            k, s = rng.randint(1, min(2, H, W)), rng.choice([1, 2])
            p = [rng.choice([0, 0, 1]) if k > 1 else 0 for _ in range(4)]
            new = (C, (H + p[0] + p[2] - k) // s + 1, (W + p[1] + p[3] - k) // s + 1)
            at = dict(k=k, s=s, p=p)
            wgt = weight[a] * k * k
        elif op == "gap":
            if H != W:
                continue        # the importer only reads the last spatial dimension and refuses the network
            new, at, wgt = (C, 1, 1), {}, weight[a] * H * W
        elif op == "pad":
            mode = rng.choice(["constant", "edge", "reflect"])
            p = [0, 0, rng.choice([0, 1]) if H > 1 else 0, rng.choice([0, 1, 2]) if W > 2 else 0, 0, 0, rng.choice([0, 1]) if H > 1 else 0,
                 rng.choice([0, 1]) if W > 1 else 0]
            if not any(p):
                continue
            new, at, wgt = (C, H + p[2] + p[6], W + p[3] + p[7]), dict(mode=mode, p=p), weight[a]
        elif op == "resize":
            if H < 2 or W < 2:
                continue
            mode = rng.choice(["nearest", "linear"])
            sc = rng.choice([(2, 1), (1, 2), (2, 2)])
            new, at, wgt = (C, H * sc[0], W * sc[1]), dict(mode=mode), weight[a] * (4 if mode == "linear" else 1)
        elif op == "concat":
            cands = [(b, ax) for b in range(len(shapes)) for ax in range(3)
                     if all(shapes[b][k] == shapes[a][k] for k in range(3) if k != ax)]
            b, ax = rng.choice(cands)
            ins = rng.choice([(a, b), (b, a), (a, b, a) if rng.random() < 0.3 else (a, b)])
            new = tuple(sum(shapes[i][k] for i in ins) if k == ax else shapes[a][k] for k in range(3))
            plan.append((op, ins, dict(axis=ax + 1), new))
            if np.prod(new) > MAXN:
                plan.pop()
                continue
            shapes.append(new)
            weight.append(max(weight[i] for i in ins))
            used |= set(ins)
            continue
        elif op in ("add", "sub", "mul", "min"):
            cands = [b for b in range(len(shapes)) if all(x == y or 1 in (x, y) for x, y in zip(shapes[a], shapes[b])) and (b != a or rng.random() < 0.2)]
            if not cands:
                continue
            b = rng.choice(cands)
            ins = rng.choice([(a, b), (b, a)])
            new = tuple(max(x, y) for x, y in zip(shapes[a], shapes[b]))
            wgt = weight[a] + weight[b] if op != "mul" else weight[a] * weight[b]
            if np.prod(new) > MAXN or wgt > 60:
                continue
            plan.append((op, ins, {}, new))
            budget[0] -= op in ("mul", "min")
            shapes.append(new)
            weight.append(wgt)
            used |= set(ins)
            continue
        elif op == "transpose":
            perm = rng.choice([(1, 3, 2), (2, 1, 3), (2, 3, 1), (3, 1, 2), (3, 2, 1)])
            new, at, wgt = tuple(shapes[a][k - 1] for k in perm), dict(perm=(0, *perm)), weight[a]
        elif op == "tile":
            r = rng.choice([(1, 2, 1, 1), (1, 1, 2, 1), (1, 1, 1, 2)])
            new, at, wgt = (C * r[1], H * r[2], W * r[3]), dict(r=r), weight[a]
        elif op == "reduce":
            axes = rng.choice([[1], [2], [3], [1, 2], [2, 3], [1, 3]] if not tiny else [[1, 2, 3], [2, 3], [1]])
            new = tuple(1 if k + 1 in axes else shapes[a][k] for k in range(3))
            at, wgt = dict(axes=axes, kind=rng.choice(["ReduceSum", "ReduceMean"])), weight[a] * np.prod([shapes[a][k - 1] for k in axes])
        elif op == "gather":
            ax = rng.randint(1, 3)
            d = shapes[a][ax - 1]
            idx = [rng.randrange(d) for _ in range(rng.randint(1, 3))]
            new = tuple(len(idx) if k == ax - 1 else shapes[a][k] for k in range(3))
            at, wgt = dict(axis=ax, idx=idx), weight[a]
        elif op == "softmax":
            ax = rng.choice([k + 1 for k in range(3) if shapes[a][k] > 1] or [0])
            if ax == 0 or weight[a] > 4 or np.prod(shapes[a]) in shapes[a]:
                continue
            new, at, wgt = shapes[a], dict(axis=ax), weight[a] * shapes[a][ax - 1]
        else:
            new, at, wgt = shapes[a], {}, weight[a]
        if min(new) < 1 or np.prod(new) > MAXN or wgt > 80:
            continue
        budget[0] -= op in ("max", "softmax", "relu", "sigmoid")
        plan.append((op, (a,), at, new))
        shapes.append(new)
        weight.append(wgt)
        used.add(a)
    # one sink
    sinks = [i for i in range(len(shapes)) if i not in used]
    while len(sinks) > 1:
        a, b = sinks.pop(), sinks.pop()
        for t in (a, b):
            if shapes[t][1:] != (1, 1):
                plan.append(("reduce", (t,), dict(axes=[2, 3], kind="ReduceSum"), (shapes[t][0], 1, 1)))
                shapes.append(plan[-1][3])
        k = len(shapes) - 1
        i = k if shapes[b][1:] != (1, 1) else b
        j = (k - 1 if shapes[b][1:] != (1, 1) else k) if shapes[a][1:] != (1, 1) else a
        plan.append(("concat", (i, j), dict(axis=1), (shapes[i][0] + shapes[j][0], 1, 1)))
        shapes.append(plan[-1][3])
        sinks.append(len(shapes) - 1)
    tail = rng.choice(["none", "none", "gemm", "matmul"]) if vector_tail else "none"
    return shapes[0], plan, tail


def build(net):
    shape, plan, tail = net

    def f(m):
        ts = [m.inp(1, *shape)]
        sh = [shape]
        for k, (op, ins, at, new) in enumerate(plan, 1):
            x = [ts[i] for i in ins]
            c = sh[ins[0]][0]
            al = [0.5, 0.25, 2.0, 3.0, 0.125, 1.5, 0.75][k % 7]
            if op == "conv":
                w = [m.par(f"W{k}", new[0], c, *at["k"])] + ([m.par(f"B{k}", new[0])] if at["bias"] else [])
                y = m.op("Conv", x + w, kernel_shape=list(at["k"]), strides=[at["s"]] * 2, pads=at["p"])
            elif op in ("avg", "max"):
                y = m.op("AveragePool" if op == "avg" else "MaxPool", x, kernel_shape=[at["k"]] * 2, strides=[at["s"]] * 2, pads=at["p"])
            elif op == "gap":
                y = m.op("GlobalAveragePool", x)
            elif op == "pad":
                y = m.op("Pad", x + [m.const(i64(*at["p"]))] + ([m.const(np.float32(0.5 * k))] if at["mode"] == "constant" else []), mode=at["mode"])
            elif op == "resize":
                y = m.op("Resize", x + ["", "", m.const(i64(1, *new))], mode=at["mode"], coordinate_transformation_mode="asymmetric",
                         **(dict(nearest_mode="floor") if at["mode"] == "nearest" else {}))
            elif op == "concat":
                y = m.op("Concat", x, axis=at["axis"])
            elif op in ("add", "sub", "mul", "min"):
                y = m.op(op.capitalize(), x)
            elif op == "transpose":
                y = m.op("Transpose", x, perm=list(at["perm"]))
            elif op == "tile":
                y = m.op("Tile", x + [m.const(i64(*at["r"]))])
            elif op == "reduce":
                if at["kind"] == "ReduceSum":
                    y = m.op("ReduceSum", x + [m.const(i64(*at["axes"]))], keepdims=1)
                else:
                    y = m.op(at["kind"], x, axes=at["axes"], keepdims=1)
            elif op == "gather":
                y = m.op("Gather", x + [m.const(i64(*at["idx"]))], axis=at["axis"])
            elif op == "softmax":
                y = m.op("Softmax", x, axis=at["axis"])
            elif op == "bn":
                y = m.op("BatchNormalization", x + [m.par(f"s{k}", c), m.par(f"b{k}", c), m.par(f"mu{k}", c), m.par(f"var{k}", c, pos=True)])
            elif op == "cadd":
                y = m.op("Add", x + [m.par(f"D{k}", 1, c, 1, 1)])
            elif op == "leaky":
                y = m.op("LeakyRelu", x, alpha=al)
            else:
                y = m.op(op.capitalize(), x)
            ts.append(y)
            sh.append(new)
        y, n = ts[-1], int(np.prod(sh[-1]))
        if tail != "none":
            y = m.op("Reshape", [y, m.const(i64(1, n))])
            y = m.op("Gemm", [y, m.par("Wt", 2, n), m.par("Bt", 2)], transB=1) if tail == "gemm" else m.op("MatMul", [y, m.par("Wt", n, 2)])
        return y
    return single(f)


def describe(net):
    shape, plan, tail = net
    return "x".join(map(str, shape)) + ":" + "".join(f"{o[:4]}({','.join(map(str, i))})" for o, i, _, _ in plan) + ("" if tail == "none" else tail)


def cases(seed, sizes, gens=(None,), tiny=False, **kw):
    """sizes: (operators, how many)."""
    out, seen = [], set()
    for n, k in sizes:
        r = 0
        got = 0
        while got < k:
            rng = random.Random(f"{'tiny' if tiny else 'mixed'}/{seed}/{n}/{r}")
            r += 1
            net = plan_net(rng, n, tiny=tiny)
            if net is None or len(net[1]) > n + 5:
                continue
            g = gens[got % len(gens)]
            name = f"mixed:{describe(net)}" + (f":{g['versions']['Conv2D']}" if g and "versions" in g else "")
            if name in seen:
                continue
            seen.add(name)
            got += 1
            out.append(Case(name, build(net), gen=g, **kw))
    return out
