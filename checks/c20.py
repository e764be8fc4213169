"""Normalisation of NNET networks."""
import contextlib

import numpy as np

from checks import c11, fe
from vlib import harness as H
from vlib import pyexec as PX
from vlib import smt
from vlib import terms as T
from vlib.harness import thorough

LEVEL = "bounded"
BOUNDS = ("NNET files of 1 to 3 layers, 1 to 5 (thorough: 7) inputs and 1 to 5 outputs, normalisation on; the input, and in turn the normalisation coefficients and the weights, symbolic; "
          "concrete coefficients of every textual form; the generated C and the Python reference, two samples and two runs")
ASSUMPTIONS = ["declared minima are below the maxima and ranges are positive"]


def build(sizes, mode, conc=None, fmt=fe.num):
    """mode: which of norm (coefficients), net (weights) are parameters."""
    n = sizes[0]

    def f(P):
        if conc is None:
            mn, mx = P("mn", n, lo=-2.0, hi=-0.25), P("mx", n, lo=0.25, hi=2.0)
            P.less = [(f"mn[{i}]", f"mx[{i}]") for i in range(n)]
            norm = (mn, mx, P("mean", n + 1), P("rng", n + 1, pos=True))
        else:
            norm = tuple(np.float32(c) for c in conc)
        Q = P
        if mode == "norm":
            Q = _Fixed(P)
        fm = fe.nnet(sizes, norm=norm, fmt=fmt)(Q)
        fm.norm = norm
        fm.names = conc is None
        return fm
    return f


class _Fixed:
    """Concrete network weights: the coefficients are the parameters of the case."""

    def __init__(self, P):
        self.P = P
        self.rng = np.random.default_rng(17)

    def __call__(self, name, *shape, **kw):
        v = np.round(self.rng.uniform(-2, 2, shape) * 4) / 4
        return np.where(v == 0, 0.5, v).astype(np.float32)

    def __getattr__(self, k):
        return getattr(self.P, k)


def clip_std(x, mn, mx, mean, rng):
    def std(v):
        return (v - mean) / rng
    return T.ite(T.cmp_("<", x, mn), std(mn), T.ite(T.cmp_(">", x, mx), std(mx), std(x)))


def clip_std_py(x, mn, mx, mean, rng):
    """The same function, written as min and max (Lemma shows it)."""
    a = T.ite(T.cmp_("<", x, mx), x, mx)
    return (T.ite(T.cmp_(">", a, mn), a, mn) - mean) / rng


class Lemma(H.Case):
    """Both forms of the specification agree whenever the minimum is below the maximum."""

    def run(self):
        out = H.Out(self.name)
        x, mn, mx, m, r = (T.var(k) for k in ("x", "mn", "mx", "m", "r"))
        q = smt.decide_equal(clip_std(x, mn, mx, m, r), clip_std_py(x, mn, mx, m, r), extra=[T.cmp_(">", r, T.const(0)), T.cmp_(">", mx, mn)], pos={"r"})
        out.info.update(queries=1, outputs=1, mode="tag", functions=[])
        if q.status != "equal":
            out.errors.append(f"lemma {q.status}")
        return out


def spec_py(model, P, xs, symbolic):
    return spec(model, P, xs, symbolic, clip_std_py)


def spec(model, P, xs, symbolic, clip_std=clip_std):
    n = len(xs)
    if model.names and symbolic:
        s = P.symbolic()
        mn, mx, mean, rng = (list(s[k]) for k in ("mn", "mx", "mean", "rng"))
    else:
        mn, mx, mean, rng = ([T.const(float(v)) for v in r] for r in model.norm)
    ins = [clip_std(x, mn[i], mx[i], mean[i], rng[i]) for i, x in enumerate(xs)]
    assert len(ins) == n
    ys = H.onnx_spec(model.onnx, P, ins, symbolic)
    return [y * rng[-1] + mean[-1] for y in ys]


def smax(*a):
    r = a[0]
    for x in a[1:]:
        r = T.ite(T.cmp_(">", PX.lift(x), PX.lift(r)), PX.lift(x), PX.lift(r))
    return r


def smin(*a):
    r = a[0]
    for x in a[1:]:
        r = T.ite(T.cmp_("<", PX.lift(x), PX.lift(r)), PX.lift(x), PX.lift(r))
    return r


class NormPy(c11.PyCase):
    def lift_more(self, gen, P):
        found = set()
        for k in ("mins", "maxes", "means", "ranges"):
            v = getattr(gen.Normalizer, k)
            keys = [P.tags.get(float(x)) for x in v]
            found |= {x for x in keys if x}
            setattr(gen.Normalizer, k, [T.var(f"{x[0]}[{x[1]}]") if x else y for x, y in zip(keys, v)])
        return found

    def run(self):
        with builtins_on_terms():
            return super().run()


@contextlib.contextmanager
def builtins_on_terms():
    import builtins

    from acetone_nnet.importers.NNET_importer import nnet_normalize as M

    def mx(*a):
        return smax(*a) if any(T.is_term(x) for x in a) else builtins.max(*a)

    def mn(*a):
        return smin(*a) if any(T.is_term(x) for x in a) else builtins.min(*a)
    M.max, M.min = mx, mn
    try:
        yield
    finally:
        del M.max, M.min


CONC = {
    "plain": ([-3.0], [4.0], [0.5, 7.5], [2.0, 3.0]),
    "wide": ([-2.0**20], [2.0**20], [2.0**-20, 2.0**17], [2.0**-16, 2.0**22]),
    "ints": ([-3], [4], [1, -2], [5, 6]),
    "far": ([2.0], [3.0], [-1.0, 0.0], [0.125, 1.0]),
}


def programs():
    on = dict(normalize=True)
    out = []
    sizes = [(1, 1), (1, 2), (2, 1), (2, 2), (1, 2, 1), (2, 2, 1), (3, 2), (2, 3, 2), (1, 2, 2, 1), (3, 3), (3, 2, 3), (4, 1), (1, 4), (5, 2), (5, 3, 5)]
    if thorough():
        sizes += [(n, o) for n in range(1, 8) for o in range(1, 6)] + [(a, b, c) for a in (1, 2, 4) for b in (1, 2, 3) for c in (1, 2, 4)] + [(5, 4, 4, 5), (2, 2, 2, 2)]
        sizes = list(dict.fromkeys(sizes))
    for s in sizes:
        out.append(("norm:" + "-".join(map(str, s)), build(s, "norm"), on))
        if len(s) < 4:
            out.append(("all:" + "-".join(map(str, s)), build(s, "all"), on))
    for k, (mn, mx, me, rg) in CONC.items():
        for s in sizes[:6]:
            r = np.arange(s[0])
            c = (mn[0] + r, mx[0] + r * 2, list(me[0] + r * 3) + [me[1]], list(rg[0] * (1 + r)) + [rg[1]])
            for t, fmt in (("repr", fe.num), ("exp", lambda v: f"{float(v):.17e}"), ("short", lambda v: f"{float(v):.9g}")):
                if t != "repr" and s not in ((1, 2), (2, 2, 1)) or k == "wide" and t == "short":
                    continue
                out.append((f"{k}:{t}:" + "-".join(map(str, s)), build(s, "all", c, fmt), on))
    return out


def cases():
    out = [Lemma("lemma:clip", None)]
    for n, b, g in programs():
        out.append(H.Case("c:" + n, b, g, spec=spec, timeout=150))
        out.append(NormPy("python:" + n, b, g, spec=spec_py, timeout=150))
    return out
