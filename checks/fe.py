"""NNET and JSON model files, each paired with the ONNX model of the same function (the specification)."""
import json
import os
import random

import numpy as np
import onnx

from checks import dags
from checks.ops import REFUSE, i64
from vlib import harness as H
from vlib.harness import Case
from vlib.models import M


class FileModel:
    """A model the generator reads from a file."""

    def __init__(self, text, suffix, onnx_model):
        self.text, self.suffix, self.onnx = text, suffix, onnx_model

    def store(self, d):
        p = os.path.join(d, "model" + self.suffix)
        with open(p, "w") as f:
            f.write(self.text)
        return p


def spec(model, P, xs, symbolic):
    return H.onnx_spec(model.onnx, P, xs, symbolic)


def num(v):
    return repr(float(v))


def nnet(sizes, header=("// a comment",), fmt=num, norm=None):
    """norm: (mins, maxes, means, ranges) texts"""
    def build(P):
        m = M(P)
        x = m.inp(1, sizes[0])
        n = len(sizes) - 1
        lines = list(header)
        lines.append(f"{n},{sizes[0]},{sizes[-1]},{max(sizes)},")
        lines.append(",".join(map(str, sizes)) + ",")
        lines.append("0,")
        mins, maxes, means, ranges = norm or ([-1.0] * sizes[0], [1.0] * sizes[0], [0.0] * (sizes[0] + 1), [1.0] * (sizes[0] + 1))
        for v in (mins, maxes, means, ranges):
            lines.append(",".join(fmt(e) for e in v) + ",")
        for k in range(n):
            w = P(f"W{k}", sizes[k + 1], sizes[k])
            b = P(f"B{k}", sizes[k + 1])
            m.inits += [onnx.numpy_helper.from_array(w, f"W{k}"), onnx.numpy_helper.from_array(b, f"B{k}")]
            for row in w:
                lines.append(",".join(fmt(e) for e in row) + ",")
            for e in b:
                lines.append(fmt(e) + ",")
            x = m.op("Gemm", [x, f"W{k}", f"B{k}"], transB=1)
            if k < n - 1:
                x = m.op("Relu", [x])
        return FileModel("\n".join(lines) + "\n", ".nnet", m.model(x))
    return build


def pair(v):
    return list(v) if isinstance(v, tuple) else [v, v]


class JS:
    """Writes the JSON description of a Keras model and the ONNX model of the same function."""

    def __init__(self, P, last, shape, name="in", dtype="float32"):
        self.m = M(P)
        self.P = P
        self.last = last
        self.layers = []
        self.shape = {}      # value -> shape without batch, in the JSON file's (channels first) convention
        self.idx = {}
        self.dtype = dtype
        keras = (shape[1], shape[2], shape[0]) if last and len(shape) == 3 else shape
        x = self.m.inp(1, *keras)
        if last and len(shape) == 3:
            x = self.m.op("Transpose", [x], perm=[0, 3, 1, 2])
        self.layers.append({"class_name": "InputLayer", "config": {"dtype": self.dtype, "name": name, "size": int(np.prod(shape)), "input_shape": [None, *shape],
                                                                   "idx": 0, "output_shape": [None, *shape], "prev_layer_idx": []}})
        self.shape[x] = tuple(shape)
        self.idx[x] = 0
        self.x = x

    def add(self, cls, ins, y, out_shape, extra=(), top=()):
        idx = len(self.layers)
        single = len(ins) == 1
        shapes = [[None, *self.shape[i]] for i in ins]
        cfg = {"name": f"{cls.lower()}_{idx}", "idx": idx, "size": int(np.prod(out_shape)), "dtype": self.dtype,
               "input_shape": shapes[0] if single else shapes, "output_shape": [None, *out_shape], "prev_layer_idx": [self.idx[i] for i in ins]}
        cfg.update(dict(extra))
        self.layers.append({"class_name": cls, "config": cfg, **dict(top)})
        self.shape[y] = tuple(out_shape)
        self.idx[y] = idx
        return y

    def act(self, y, a, axis=-1):
        if a == "linear":
            return y
        if a == "softmax":
            return self.m.op("Softmax", [y], axis=axis)
        attr = {"alpha": 0.2} if a == "leaky_relu" else {}
        return self.m.op({"relu": "Relu", "tanh": "Tanh", "sigmoid": "Sigmoid", "leaky_relu": "LeakyRelu"}.get(a, "Elu"), [y], **attr)

    def par(self, name, *shape, **kw):
        v = self.P(name, *shape, **kw)
        self.m.inits.append(onnx.numpy_helper.from_array(v.astype(np.float32), name))     # the specification only
        return v

    def dense(self, x, units, a="linear"):
        k = len(self.layers)
        n = int(np.prod(self.shape[x]))
        w = self.par(f"W{k}", n, units)
        b = self.par(f"B{k}", units)
        y = self.act(self.m.op("Gemm", [x, f"W{k}", f"B{k}"]), a)
        return self.add("Dense", [x], y, (units,), [("units", units), ("activation", a)], [("weights", w.reshape(1, 1, n, units).tolist()), ("biases", b.tolist())])

    def _outdim(self, x, kh, kw, s, pad, d=1):
        (_, h, w), (sh, sw), (dh, dw) = self.shape[x], pair(s), pair(d)
        if pad == "same":
            return -(-h // sh), -(-w // sw)
        return (h - dh * (kh - 1) - 1) // sh + 1, (w - dw * (kw - 1) - 1) // sw + 1

    def conv(self, x, co, k, s=1, pad="valid", d=1, a="linear"):
        n = len(self.layers)
        kh, kw = k if isinstance(k, tuple) else (k, k)
        ci = self.shape[x][0]
        W = self.par(f"W{n}", co, ci, kh, kw)
        B = self.par(f"B{n}", co)
        y = self.act(self.m.op("Conv", [x, f"W{n}", f"B{n}"], kernel_shape=[kh, kw], strides=pair(s), dilations=pair(d),
                               auto_pad="SAME_UPPER" if pad == "same" else "VALID"), a, axis=1 if self.last else 3)
        hw = np.transpose(W, (2, 3, 1, 0))                 # Keras: H, W, I, O
        return self.add("Conv2D", [x], y, (co, *self._outdim(x, kh, kw, s, pad, d)),
                        [("filters", co), ("kernel_size", [kh, kw]), ("strides", pair(s)), ("dilation_rate", pair(d)), ("padding", pad), ("activation", a)],
                        [("weights", np.moveaxis(hw, 2, 0).tolist()), ("biases", B.tolist())])     # as JSON_from_keras_model stores them

    def pool(self, x, kind, k, s, pad="valid"):
        op = {"MaxPooling2D": "MaxPool", "AveragePooling2D": "AveragePool"}[kind]
        y = self.m.op(op, [x], kernel_shape=pair(k), strides=pair(s), auto_pad="SAME_UPPER" if pad == "same" else "VALID")
        return self.add(kind, [x], y, (self.shape[x][0], *self._outdim(x, *pair(k), s, pad)), [("pool_size", pair(k)), ("strides", pair(s)), ("padding", pad)])

    def flatten(self, x):
        v = x
        if self.last and len(self.shape[x]) == 3:
            v = self.m.op("Transpose", [x], perm=[0, 2, 3, 1])
        return self.add("Flatten", [x], self.m.op("Flatten", [v]), (int(np.prod(self.shape[x])),))

    def merge(self, kind, *xs):
        op = {"Add": "Add", "Multiply": "Mul", "Subtract": "Sub", "Maximum": "Max", "Minimum": "Min", "Average": "Mean"}[kind]
        y = self.m.op(op, list(xs)) if len(xs) == 2 or op in ("Max", "Min", "Mean") else self.m.op(op, [self.m.op(op, list(xs[:2])), *xs[2:]])
        return self.add(kind, xs, y, self.shape[xs[0]])

    def cat(self, axis, *xs):
        """axis: a Keras axis, in the layout of the Keras model"""
        rank = len(self.shape[xs[0]]) + 1
        ax = axis % rank
        onnx_ax = {0: 0, 1: 2, 2: 3, 3: 1}[ax] if self.last and rank == 4 else ax
        sh = list(self.shape[xs[0]])
        sh[onnx_ax - 1] = sum(self.shape[x][onnx_ax - 1] for x in xs)
        return self.add("Concatenate", xs, self.m.op("Concat", list(xs), axis=onnx_ax), sh, [("axis", axis)])

    def zeropad(self, x, p):
        c, h, w = self.shape[x]
        (t, b), (l, r) = ((p, p), (p, p)) if isinstance(p, int) else [(q, q) if isinstance(q, int) else q for q in p]
        y = self.m.op("Pad", [x, self.m.const(i64(0, 0, t, l, 0, 0, b, r))], mode="constant")
        return self.add("ZeroPadding2D", [x], y, (c, h + t + b, w + l + r), [("padding", p)])

    def bn(self, x, eps=0.001):
        k = len(self.layers)
        c = self.shape[x][0]
        v = [self.par(f"{n}{k}", c, pos=n == "var") for n in ("gamma", "beta", "mean", "var")]
        y = self.m.op("BatchNormalization", [x, f"gamma{k}", f"beta{k}", f"mean{k}", f"var{k}"], epsilon=eps)
        return self.add("BatchNormalization", [x], y, self.shape[x], [("epsilon", eps)],
                        list(zip(("gamma", "beta", "moving_mean", "moving_var"), [e.tolist() for e in v])))

    def same(self, cls, x, **cfg):
        return self.add(cls, [x], self.m.op("Identity", [x]), self.shape[x], cfg.items())

    def done(self, y):
        if self.last and len(self.shape[y]) == 3:
            y = self.m.op("Transpose", [y], perm=[0, 2, 3, 1])
        text = json.dumps({"class_name": "Functional", "config": {"name": "model", "layers": self.layers, "data_format": "channels_last" if self.last else "channels_first"}})
        return FileModel(text, ".json", self.m.model(y))


def js(f, shape, last=False, dtype="float32"):
    def build(P):
        j = JS(P, last, shape, dtype=dtype)
        return j.done(f(j, j.x))
    return build


UNARY = ("conv", "convrelu", "convleaky_relu", "bn", "zeropad", "dropout", "conv", "convtanh", "pool")
BINARY = ("Add", "Concatenate", "Subtract", "Multiply", "Maximum", "Average")


def dag(shape, rng, last):
    plan = [rng.choice(UNARY if len(o) == 1 else BINARY) for o in shape]

    def f(j, x):
        ts = [x]
        for o, u in zip(shape, plan):
            a = [ts[i] for i in o]
            sh = j.shape[a[0]]
            heavy = sh[0] > 4 or sh[1] > 3
            if u.startswith("conv") or (len(o) == 1 and heavy):
                y = j.conv(a[0], 2, (2, 1) if sh[1] > 2 else 1, a={"": "linear"}.get(u[4:], u[4:]) if u.startswith("conv") else "linear")
            elif u == "bn":
                y = j.bn(a[0])
            elif u == "zeropad":
                y = j.zeropad(a[0], ((1, 0), (0, 0)))
            elif u == "dropout":
                y = j.same("Dropout", a[0], rate=0.5)
            elif u == "pool":
                y = j.pool(a[0], "AveragePooling2D", 2, 1, "same")
            else:
                h = max(j.shape[v][1] for v in a)
                a = [v if j.shape[v][1] == h else j.zeropad(v, ((h - j.shape[v][1], 0), (0, 0))) for v in a]
                sh = j.shape[a[0]]
                if u == "Concatenate" or sh != j.shape[a[1]]:
                    y = j.cat(j.last and 3 or 1, *a)
                else:
                    y = j.merge(u, *a)
            ts.append(y)
        return ts[-1]
    return "".join(f"{u[:5]}({','.join(map(str, o))})" for o, u in zip(shape, plan)), js(f, (2, 2, 1), last)


def dag_cases(per, extra):
    out, seen = [], set()
    todo = [(sh, random.Random(f"14/{n}/{i}/{r}"), r % 2) for n, reps in enumerate(per, 1) for i, sh in enumerate(dags.shapes(n)) for r in range(reps)]
    for n, k in extra:
        rng = random.Random(f"14/x{n}")
        todo += [(dags.rand_shape(n, rng), rng, i % 2) for i in range(k)]
    for sh, rng, last in todo:
        d, b = dag(sh, rng, bool(last))
        d = f"json:dag:{'l' if last else 'f'}:{d}"
        if d not in seen:
            seen.add(d)
            out.append(Case(d, b, spec=spec))
    return out


def cases():
    out = []

    def case(name, build, expect="ok", **kw):
        out.append(Case(name, build, spec=spec, expect=expect, **kw))
    # ------------------------------------------------------------------ NNET
    for sizes in ((2, 3), (3, 1), (1, 2), (2, 3, 2), (3, 4, 4, 2), (1, 1, 1), (2, 2, 2, 2, 2), (5, 3, 1), (2, 5, 3)):
        case("nnet:" + "-".join(map(str, sizes)), nnet(sizes))
    case("nnet:nocomment", nnet((2, 3, 2), header=()))
    case("nnet:comments", nnet((2, 3, 2), header=("// a", "//b", "// 1,2,3,4,")))
    case("nnet:exp", nnet((2, 3, 2), fmt=lambda v: f"{float(v):.17e}"))
    case("nnet:spaces", nnet((2, 3, 2), fmt=lambda v: " " + num(v)))
    case("nnet:norm-ignored", nnet((2, 3, 2), norm=([-3.0, 0.5], [4.0, 1.5], [1.0, 2.0, 3.0], [4.0, 5.0, 6.0])))
    # ------------------------------------------------------------------ JSON
    for n, units in ((3, 2), (1, 3), (4, 1)):
        case(f"json:dense:{n}:{units}", js(lambda j, x, u=units: j.dense(x, u), (n,)))
    for a in ("relu", "tanh", "sigmoid", "leaky_relu", "softmax"):
        case(f"json:dense:{a}", js(lambda j, x, a=a: j.dense(x, 3, a), (3,)))
        case(f"json:dense:{a}:dense", js(lambda j, x, a=a: j.dense(j.dense(x, 3, a), 2), (2,)))
        case(f"json:conv:{a}", js(lambda j, x, a=a: j.conv(x, 2, 2, a=a), (1, 3, 3), True))
        case(f"json:conv:{a}:f", js(lambda j, x, a=a: j.conv(x, 2, 2, a=a), (1, 3, 3)))
    for last in (False, True):
        t = "l:" if last else "f:"
        J = lambda f, shape, last=last: js(f, shape, last)
        for k, s, pad, d, shape in ((1, 1, "valid", 1, (2, 3, 4)), (2, 1, "valid", 1, (3, 3, 4)), (3, 1, "same", 1, (2, 3, 4)), (3, 2, "same", 1, (1, 5, 4)), (2, 2, "valid", 1, (2, 4, 5)),
                                    (2, 1, "same", 1, (1, 3, 3)), ((2, 3), 1, "valid", 1, (2, 3, 4)), ((3, 2), 1, "same", 1, (1, 4, 3)), (2, 1, "valid", 2, (1, 4, 5)), (2, 1, "valid", 1, (2, 2, 2)), (1, 2, "valid", 1, (2, 3, 4))):
            case(f"json:{t}conv:{k}:{s}:{pad}:{d}:{shape}".replace(" ", ""), J(lambda j, x, k=k, s=s, pad=pad, d=d: j.conv(x, 2, k, s, pad, d), shape))
        case(f"json:{t}conv:dil_same", J(lambda j, x: j.conv(x, 1, 2, 1, "same", 2), (1, 4, 4)), expect=REFUSE)
        for kind in ("MaxPooling2D", "AveragePooling2D"):
            for k, s, pad, shape in ((2, 2, "valid", (2, 4, 4)), (3, 1, "valid", (1, 4, 5)), (2, 2, "same", (2, 3, 5)), (3, 1, "same", (1, 3, 4)), (3, 2, "same", (1, 5, 5)), (1, 2, "valid", (2, 3, 3))):
                case(f"json:{t}{kind[:3]}:{k}:{s}:{pad}:{shape}".replace(" ", ""), J(lambda j, x, kind=kind, k=k, s=s, pad=pad: j.pool(x, kind, k, s, pad), shape))
        case(f"json:{t}flatten", J(lambda j, x: j.flatten(x), (2, 2, 3)))
        case(f"json:{t}flatten:dense", J(lambda j, x: j.dense(j.flatten(j.conv(x, 2, 2, a="relu")), 2, "softmax"), (1, 3, 3)))
        case(f"json:{t}lenet", J(lambda j, x: j.dense(j.flatten(j.pool(j.conv(j.pool(j.conv(x, 1, 2), "AveragePooling2D", 2, 1), 1, 2, a="tanh"), "AveragePooling2D", 2, 1)), 2, "softmax"), (1, 5, 5)), tags=False)
        for kind in ("Add", "Multiply", "Subtract", "Maximum", "Minimum", "Average"):
            case(f"json:{t}{kind}", J(lambda j, x, kind=kind: j.merge(kind, j.conv(x, 2, 1), j.conv(x, 2, 1)), (2, 2, 3)))
            case(f"json:{t}{kind}:skip", J(lambda j, x, kind=kind: j.merge(kind, j.conv(x, 2, 1), x), (2, 2, 3)))
        for kind in ("Add", "Maximum", "Average"):
            case(f"json:{t}{kind}:3", J(lambda j, x, kind=kind: j.merge(kind, j.conv(x, 2, 1), x, j.conv(x, 2, 1)), (2, 2, 3)))
        for ax in (1, 2, 3, -1, -2, -3):
            case(f"json:{t}cat:{ax}", J(lambda j, x, ax=ax: j.cat(ax, j.conv(x, 2, 1), j.conv(x, 2, 1)), (2, 2, 3)), expect="ok")
        case(f"json:{t}cat:ch", J(lambda j, x: j.cat(3 if j.last else 1, j.conv(x, 1, 1), x, j.conv(x, 3, 1)), (2, 2, 3)))
        for p in (1, (1, 2), ((1, 0), (2, 1)), ((0, 2), (0, 1))):
            case(f"json:{t}zeropad:{p}".replace(" ", ""), J(lambda j, x, p=p: j.zeropad(x, p), (2, 2, 3)))
        case(f"json:{t}bn", J(lambda j, x: j.bn(x), (2, 2, 3)))
        case(f"json:{t}conv:bn:relu", J(lambda j, x: j.conv(j.bn(j.conv(x, 2, 1, a="relu")), 1, 1, a="relu"), (2, 2, 2)))
        case(f"json:{t}dropout", J(lambda j, x: j.conv(j.same("Dropout", j.conv(x, 2, 1), rate=0.5), 2, 1), (2, 2, 3)))
        case(f"json:{t}dropout:add", J(lambda j, x: (lambda d: j.merge("Add", j.conv(d, 2, 1), d))(j.same("Dropout", j.conv(x, 2, 1), rate=0.5)), (2, 2, 3)))
        case(f"json:{t}dropout:end", J(lambda j, x: j.same("Dropout", j.conv(x, 2, 1), rate=0.5), (2, 2, 3)))
        for pad in ("valid", "same"):
            for sh in ((1, 4, 5), (2, 3, 3)):
                for st in ((1, 2), (2, 1), (3, 2)):
                    case(f"json:{t}conv:uneven:{st}:{pad}:{sh}".replace(" ", ""), J(lambda j, x, pad=pad, st=st: j.conv(x, 2, (2, 3), st, pad), sh), expect=REFUSE)
                for kind in ("MaxPooling2D", "AveragePooling2D"):
                    for st in (1, 2, (1, 2), (2, 1), (3, 2)):
                        for k in (2, (1, 2), (2, 1), (3, 2), (2, 3)):
                            if isinstance(st, tuple) or isinstance(k, tuple):
                                case(f"json:{t}{kind[:3]}:uneven:{k}:{st}:{pad}:{sh}".replace(" ", ""), J(lambda j, x, kind=kind, k=k, st=st, pad=pad: j.pool(x, kind, k, st, pad), sh), expect=REFUSE)
                for d in (2, (1, 2), (2, 1), (2, 3)):
                    case(f"json:{t}conv:dil:{d}:{pad}:{sh}".replace(" ", ""), J(lambda j, x, pad=pad, d=d: j.conv(x, 2, (2, 2), 1, pad, d), sh), expect=REFUSE)
        for a in ("elu", "selu", "softplus", "exponential", "hard_sigmoid", "gelu", "relu6", "swish"):
            case(f"json:{t}conv:act:{a}", J(lambda j, x, a=a: j.conv(x, 2, 2, a=a), (1, 3, 3)), expect=REFUSE)
        case(f"json:{t}relulayer", J(lambda j, x: j.add("ReLU", [x], j.m.op("Relu", [x]), j.shape[x]), (2, 2, 3)), expect=REFUSE)
        case(f"json:{t}layernorm", J(lambda j, x: j.add("LayerNormalization", [x], j.m.op("Sub", [x, j.m.op("Relu", [x])]), j.shape[x]), (2, 2, 3)), expect=REFUSE)
        case(f"json:{t}resnet", J(lambda j, x: j.merge("Add", j.conv(j.conv(x, 2, 3, pad="same", a="relu"), 2, 3, pad="same"), x), (2, 3, 3)))
    case("json:softmax:branches", js(lambda j, x: (lambda a: j.merge("Add", j.dense(a, 2, "softmax"), j.dense(a, 2, "relu")))(j.dense(x, 3, "softmax")), (2,)), expect=REFUSE)
    case("json:softmax:dense:dense", js(lambda j, x: j.dense(j.dense(j.dense(x, 3, "softmax"), 2, "relu"), 2), (2,)))
    case("json:cat1d", js(lambda j, x: j.cat(1, j.dense(x, 2), j.dense(x, 3)), (2,)), expect=REFUSE)
    case("json:add1d", js(lambda j, x: j.merge("Add", j.dense(x, 3), j.dense(x, 3)), (2,)), expect=REFUSE)
    case("json:mul1d", js(lambda j, x: j.merge("Multiply", j.dense(x, 3), j.dense(x, 3)), (2,)), expect=REFUSE)
    return out
