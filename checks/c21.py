"""The generated data layout does not change the network: channels-last and channels-first programs are compared with each other."""
import random

from checks import c02, dags, fe
from checks import matrix as X
from vlib import program as G
from vlib import terms as T
from vlib.harness import Case, thorough
from vlib.models import M

LEVEL = "translation_validation"
BOUNDS = ("ONNX models (channels first) and JSON models (both layouts) generated in the channels-last and in the channels-first layout: every supported convolution and pooling geometry of the "
          "matrix, random networks of up to 7 (thorough: 9) convolutions, poolings, elementwise layers and activations; networks with layers that have no channels-last implementation are refused or equal")
ASSUMPTIONS = ["predictions and inputs of both programs are in the layout of the imported model, as documented; the channels-first program is the reference"]
KINDS = None
REFUSE = "refuse-or-ok"
LAST = dict(versions={"Conv2D": "direct_block", "MaxPooling2D": "channels_last", "AveragePooling2D": "channels_last"}, gen_data_format="channels_last")


def first(gen):
    """The predictions of the same model's channels-first program."""
    def spec(model, P, xs, symbolic):
        with G.scratch("f") as d:
            g = G.generate(model, d, **{**gen, "gen_data_format": "channels_first", "versions": {}})
            ct = {"float": "float", "double": "double"}[g.data_type]
            lift, found = G.tag_lifter(P) if symbolic else (None, None)
            r = G.run_inference(G.load_module(d), len(xs), int(g.layers[-1].size), lift=lift, ctype=ct)
        if symbolic and len(found) < P.n:
            raise T.Unsupported("parameters of the channels-first program are not lifted")
        if all(T.is_term(x) and x is T.var(f"x[{i}]") for i, x in enumerate(xs)):
            return list(r.pred)
        env = dict(zip([f"x[{i}]" for i in range(len(xs))], T.evaluate(xs, {})))
        return [T.const(T.Fraction(float(v))) for v in T.evaluate(list(r.pred), env)]
    return spec


def case(name, build, expect="ok", **gen):
    g = {**LAST, **gen}
    return Case(name, build, gen=g, spec=first(g), expect=expect, memory=False)


UNARY = ("conv3", "conv1", "conv2", "conv2s", "leaky", "relu", "max", "avg", "maxs", "gap", "sigmoid")
BINARY = ("Add", "Mul", "Sub", "Max", "Min", "Mean", "add3")


def net(shape, plan, dims):
    """dims of the input; every tensor's image shape is tracked so that elementwise layers get equal shapes."""
    def f(P):
        m = M(P)
        ts = [(m.inp(1, *dims), dims)]
        for k, (o, u) in enumerate(zip(shape, plan), 1):
            xs = [ts[i] for i in o]
            x, (c, h, w) = xs[0]

            def conv(x, c, h, w, co, kh, kw, tag, s=1, pad=0):
                y = m.op("Conv", [x, m.par(f"W{k}{tag}", co, c, kh, kw), m.par(f"B{k}{tag}", co)], kernel_shape=[kh, kw], strides=[s, s],
                         pads=[pad, pad, pad, pad])
                return y, (co, (h + 2 * pad - kh) // s + 1, (w + 2 * pad - kw) // s + 1)

            def pool(kind, k, s, pads=(0, 0, 0, 0)):
                return m.op(kind, [x], kernel_shape=[k, k], strides=[s, s], pads=list(pads)), (c, (h + pads[0] + pads[2] - k) // s + 1, (w + pads[1] + pads[3] - k) // s + 1)
            small = min(h, w) < 2
            if len(o) == 2:
                # both operands are brought to the same shape
                (b, (cb, hb, wb)) = xs[1]
                while (hb, wb) != (h, w):
                    if hb * wb > h * w:
                        b, (cb, hb, wb) = conv(b, cb, hb, wb, cb, hb - h + 1, wb - w + 1, "b")
                    else:
                        x, (c, h, w) = conv(x, c, h, w, c, h - hb + 1, w - wb + 1, "a")
                if cb != c:
                    b, (cb, hb, wb) = conv(b, cb, hb, wb, c, 1, 1, "c")
                if u == "add3":
                    y = m.op("Mean", [x, b, x])
                else:
                    y = m.op(u, [x, b])
                t = (y, (c, h, w))
            elif u == "conv3":
                t = conv(x, c, h, w, 2, 3, 3, "", pad=1)
            elif u == "conv1" or (small and u not in ("leaky", "relu", "sigmoid")):
                t = conv(x, c, h, w, 3, 1, 1, "")
            elif u == "conv2":
                t = conv(x, c, h, w, 2, 2, 2, "")
            elif u == "conv2s":
                t = conv(x, c, h, w, 3, 2, 1, "", s=2, pad=1)
            elif u in ("max", "avg"):
                t = pool("MaxPool" if u == "max" else "AveragePool", 2, 1, (1, 0, 0, 1) if k % 2 else (0, 0, 0, 0))
            elif u == "maxs":
                t = pool("MaxPool", 2, 2)
            elif u == "gap" and h == w:
                t = m.op("GlobalAveragePool", [x]), (c, 1, 1)
            elif u in ("relu", "sigmoid"):
                t = m.op({"relu": "Relu", "sigmoid": "Sigmoid"}[u], [x]), (c, h, w)
            else:
                t = m.op("LeakyRelu", [x], alpha=[0.5, 0.25, 2.0, 0.125][k % 4]), (c, h, w)
            ts.append(t)
        return m.model(ts[-1][0])
    return f


def limited(shape, rng):
    """A plan of which at most one node is costly for the solver."""
    plan, heavy, nl = [], 0, 0
    for o in shape:
        u = rng.choice(UNARY if len(o) == 1 else BINARY)
        if u in ("max", "maxs", "Max", "Min", "relu") and heavy >= 2:
            u = "avg" if len(o) == 1 else "Sub"
        heavy += u in ("max", "maxs", "Max", "Min", "relu")
        if u in ("Mul", "sigmoid") and nl:
            u = "leaky" if len(o) == 1 else "Add"
        nl += u in ("Mul", "sigmoid")
        plan.append(u)
    return plan


JS_UNARY = ("conv3", "conv1", "pool", "avg", "relu")
JS_BINARY = ("Add", "Multiply", "Subtract", "Maximum", "Average")


def jsnet(shape, plan, dims, last):
    def f(j, x):
        ts = [x]
        for k, (o, u) in enumerate(zip(shape, plan), 1):
            a = [ts[i] for i in o]
            c, h, w = j.shape[a[0]]
            if len(o) == 2:
                cb = j.shape[a[1]][0]
                b = a[1] if cb == c else j.conv(a[1], c, 1)
                y = j.merge(u, a[0], b)
            elif u in ("conv3", "relu"):
                y = j.conv(a[0], 2, 3, pad="same", a="relu" if u == "relu" else "linear")
            elif u == "conv1":
                y = j.conv(a[0], 3, 1, a="leaky_relu")
            else:
                y = j.pool(a[0], "MaxPooling2D" if u == "pool" else "AveragePooling2D", 2, 1, "same")
            ts.append(y)
        return ts[-1]
    return fe.js(f, dims, last)


def cases():
    out, seen = [], set()

    def add(c):
        if c.name not in seen:
            seen.add(c.name)
            out.append(c)
    for name, kw in X.conv_geometries() + X.DIL + c02.BLOCK:
        kw = dict(kw)
        opt = kw.pop("opt", False)
        add(case(f"conv:{name}", X.conv_model(**kw), expect=REFUSE, **({"optimization": True} if opt else {})))
    n = 60 if thorough() else 24
    for ops in (1, 2, 3, 4, 5, 6, 7) + ((8, 9) if thorough() else ()):
        rng = random.Random(f"21/{ops}")
        for i in range(n if ops > 1 else 14):
            sh = dags.rand_shape(ops, rng)
            plan = limited(sh, rng)
            dims = rng.choice([(2, 4, 4), (3, 3, 4), (2, 5, 3), (1, 4, 6), (3, 2, 2)])
            opt = i % 3 == 2
            name = f"net:{'opt:' if opt else ''}{dims}:" + "".join(f"{u}({','.join(map(str, o))})" for o, u in zip(sh, plan))
            add(case(name, net(sh, plan, dims), **({"optimization": True} if opt else {})))
    for ops in (1, 2, 3, 4, 5) + ((6, 7) if thorough() else ()):
        rng = random.Random(f"21/js{ops}")
        for i in range(n // 2):
            sh = dags.rand_shape(ops, rng)
            plan = [rng.choice(JS_UNARY if len(o) == 1 else JS_BINARY) for o in sh]
            k = 0
            for q, u in enumerate(plan):       # few comparisons, few products
                if u in ("pool", "Maximum", "relu", "Multiply"):
                    k += 1
                    if k > 2:
                        plan[q] = "Add" if len(sh[q]) == 2 else "avg"
            dims = rng.choice([(2, 4, 4), (3, 3, 4), (2, 5, 3), (1, 4, 6)])
            for last in (False, True):
                name = f"json:{'l' if last else 'f'}:{dims}:" + "".join(f"{u}({','.join(map(str, o))})" for o, u in zip(sh, plan))
                add(case(name, jsnet(sh, plan, dims, last)))
    # layers without a channels-last implementation
    for ops in (1, 2, 3):
        rng = random.Random(f"21/x{ops}")
        for i in range(60 if thorough() else 20):
            d, b = dags.build(dags.rand_shape(ops, rng), rng, unary=dags.UNARY, binary=dags.BINARY)
            if "max(" not in d:
                add(case(f"any:{d}", b, expect=REFUSE))
    for c in fe.cases():
        if c.name.startswith("json:") and ":typed" not in c.name:
            add(case(f"any:{c.name}", c.build, expect=REFUSE))
    return out
