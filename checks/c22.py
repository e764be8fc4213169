"""The ONNX exporter: the exported model is valid and computes the function of the imported one."""
import copy
import random

import numpy as np
import onnx
from onnx import numpy_helper

from checks import dags, fe, progs, pt
from vlib import harness as H
from vlib import onnxspec as S
from vlib import program as G
from vlib import smt
from vlib import terms as T
from vlib.harness import thorough

LEVEL = "bounded"
BOUNDS = ("the single-operator models of C01 to C10, branching models and random mixed models, imported and exported back, optimisation off and on; every input and every stored "
          "parameter symbolic where it can be traced; ONNX imports (the other front ends have no ONNX original to compare with, except through their translation)")
ASSUMPTIONS = ["the operators of the exported model mean what the ONNX standard says; the custom operator Silu means what the exporter's own registration says"]
FN = ["py exporters/exporter.py:exporter", "py exporters/ONNX_exporter/exporter_onnx.py:onnx_exporter", "py exporters/ONNX_exporter/acetone_to_onnx_layer.py"]


class Spec(S.Spec):
    def op_Silu(self, n, a, ins):
        return S.emap(lambda v: v * S.sigmoid(v), ins[0])


def lifted(model, P):
    """Initialisers of the exported model that hold tagged parameters, as variables."""
    out, found = {}, set()
    for i in model.graph.initializer:
        a = numpy_helper.to_array(i)
        if a.dtype.kind != "f" or not a.size:
            continue
        if not any(float(v) in P.tags for v in a.reshape(-1)):
            continue
        o = np.empty(a.shape, dtype=object)
        f = o.reshape(-1)
        for k, v in enumerate(a.reshape(-1)):
            t = P.tags.get(float(v))
            f[k] = T.var(f"{t[0]}[{t[1]}]") if t else T.const(T.Fraction(float(v)))
            if t:
                found.add(t)
        out[i.name] = f.reshape(a.shape)
    return out, found


def feed(shapes, xs, hwc, dtype=object):
    """ONNX tensors are channels first: the samples of a channels-last model are transposed."""
    feeds, k = {}, 0
    for name, shape in shapes:
        n = int(np.prod(shape, dtype=int))
        a = np.empty(n, dtype=dtype)
        a[:] = xs[k:k + n]
        if hwc and len(shape) == 4:
            a = np.transpose(a.reshape([shape[0], *shape[2:], shape[1]]), (0, 3, 1, 2))
        feeds[name] = a.reshape(shape)
        k += n
    if k != len(xs):
        raise ValueError(f"{k} inputs, expected {len(xs)}")
    return feeds


def flat(outs, hwc):
    return [v for o in outs for v in (np.transpose(o, (0, 2, 3, 1)) if hwc and np.ndim(o) == 4 else np.asarray(o)).reshape(-1)]


def run_spec(cls, model, xs, params=None, hwc=False):
    sp = cls(model, params)
    return [S.lift(v) for v in flat(sp.run(feed(sp.inputs(), xs, hwc)), hwc)]


def imported(case, model):
    from acetone_nnet import CodeGenerator
    with G.quiet(), G.scratch() as d:
        return CodeGenerator(model.store(d) if hasattr(model, "store") else model, **case.gen)


def exported(case, model):
    gen = imported(case, model)
    with G.quiet():
        from acetone_nnet.exporters.exporter import exporter
        kinds = sorted({l.name for l in gen.layers})
        return gen, kinds, exporter("onnx", gen.layers, gen.data_type_py)


class Export(H.Case):
    def run(self):
        out = H.Out(self.name)
        for mode in (["tag"] if self.tags else []) + ["rand"]:
            try:
                if self.attempt(out, mode):
                    out.info["mode"] = mode
                    break
            except (T.Unsupported, S.SpecUnsupported) as e:
                out.errors.append(f"cannot encode: {e}")
                break
        return out

    def attempt(self, out, mode):
        P = G.Params(mode, seed=H.SEED * 10)
        model = self.build(P)
        try:
            gen = imported(self, model)
        except Exception as e:      # noqa: BLE001
            out.info["refused"] = str(e)[:100]                 # not imported
            return True
        n = H.n_inputs(model) if self.spec is None else (self.opts.get("n_in") or int(gen.layers[0].size))
        xs = [T.var(f"x[{i}]") for i in range(n)]
        want = H._spec(self, model, P, xs, mode == "tag")
        out.info["functions"] = FN
        try:
            gen, kinds, m2 = exported(self, model)
        except Exception as e:      # noqa: BLE001
            out.add("export-error", f"{type(e).__name__}: {str(e)[:200]}", replay={"error": str(e)})
            return True
        out.info["layers"] = kinds
        std = not any(x.op_type == "Silu" for x in m2.graph.node)
        try:
            if std:
                onnx.checker.check_model(m2, full_check=True)
        except Exception as e:      # noqa: BLE001
            out.add("invalid", f"the exported model is not valid: {' '.join(str(e).split())[:250]}", replay={"error": str(e)[:2000]})
            return True
        par = None
        if mode == "tag":
            par, found = lifted(m2, P)
            if len(found) < P.n:
                out.info["unlifted"] = P.n - len(found)
                return False
        try:
            hwc = gen.data_format == "channels_last"
            got = run_spec(Spec, m2, xs, par, hwc)
        except (T.Unsupported, S.SpecUnsupported):
            raise
        except Exception as e:      # noqa: BLE001
            out.add("invalid", f"the exported model does not run: {type(e).__name__}: {str(e)[:200]}", replay={"error": str(e)[:2000], **self.ort(m2, n)})
            return True
        if len(got) != len(want):
            out.add("output-size", f"{len(got)} outputs instead of {len(want)}", replay=self.ort(m2, n))
            return True
        pos = P.pos if mode == "tag" else set()
        base = [T.cmp_(">", T.var(v), 0) for v in sorted(pos)]
        if mode == "tag":
            base += [T.cmp_(">", T.var(b), T.var(a)) for a, b in getattr(P, "less", ())]
        ctx = smt.Ctx()
        out.info["outputs"] = len(want)
        for i, (a, b) in enumerate(zip(got, want)):
            if a is b:
                continue
            q = smt.decide_equal(a, b, extra=base, pos=pos, ctx=ctx, timeout=15000)
            out.info["queries"] = out.info.get("queries", 0) + 1
            if q.tol:
                out.info["tolerance"] = out.info.get("tolerance", 0) + 1
            if q.status == "unknown":
                if mode == "tag":
                    return False
                out.errors.append("undecided output")
                return True
            if q.status == "differ":
                rep = self.replay(mode, P, q.env or {}, n)
                if rep.get("confirmed"):
                    out.add("mismatch", rep["detail"], replay=rep)
                    return True
                if mode == "tag":
                    return False
                out.errors.append(f"output {i} differs, does not reproduce: {str(rep)[:200]}")
                return True
        w = smt.decide_equal(got[0], T.lift(want[0]) + T.const(1), extra=base, pos=pos, timeout=10000)
        out.info["witness"] = "refuted" if w.status == "differ" else w.status
        if w.status == "equal":
            out.errors.append("vacuous")
        return True

    def ort(self, m2, n):
        try:
            run_ort(m2, [0.5] * n)
        except Exception as e:      # noqa: BLE001
            return {"onnxruntime": str(e)[:500]}
        return {"onnxruntime": "runs"}

    def replay(self, mode, P, env, n):
        """Both models under onnxruntime on the counterexample."""
        Q = G.Params("rand", seed=H.SEED * 10, given={k: float(np.float32(v)) for k, v in env.items()}) if mode == "tag" else G.Params("rand", seed=H.SEED * 10)
        model = self.build(Q)
        rep = {"confirmed": False}
        for k in range(3):
            x = [float(np.float32(env.get(f"x[{i}]", 0.0))) if k == 0 else float(v) for i, v in enumerate(np.round(np.random.default_rng(k).uniform(-2, 2, n) * 8) / 8)]
            want = H.spec_values(self, model, Q, x)
            gen, _, m2 = exported(self, model)
            hwc = gen.data_format == "channels_last"
            try:
                got = run_ort(m2, x, hwc)
            except Exception as e:      # noqa: BLE001
                # operators that the runtime lacks: the standard's meaning
                try:
                    got = T.evaluate(run_spec(Spec, m2, [T.const(T.Fraction(v)) for v in x], None, hwc), {})
                except Exception:       # noqa: BLE001
                    return {"confirmed": True, "detail": f"the exported model does not run: {str(e)[:200]}", "input": x}
            scale = max([1.0] + [abs(v) for v in want if np.isfinite(v)])
            for i, (a, b) in enumerate(zip(got, want)):
                if np.isfinite(b) and not abs(a - b) <= 1e-4 * scale:
                    return {"confirmed": True, "detail": f"output {i}: the exported model gives {a!r}, the original {b!r}", "input": x, "weights": {k: float(v) for k, v in env.items()}}
            rep["last"] = [list(map(float, got))[:4], want[:4]]
        return rep


def run_ort(model, x, hwc=False):
    import onnxruntime as rt
    m = copy.deepcopy(model)
    m.ir_version = min(m.ir_version, 9)
    so = rt.SessionOptions()
    so.log_severity_level = 4
    s = rt.InferenceSession(m.SerializeToString(), so, providers=["CPUExecutionProvider"])
    return [float(v) for v in flat(s.run(None, feed([(i.name, i.shape) for i in s.get_inputs()], x, hwc, np.float32)), hwc)]


def cases():
    out, seen = [], set()

    def add(c, gen=None, tag=""):
        n = tag + c.name
        if n not in seen:
            seen.add(n)
            g = {k: v for k, v in (c.gen or {}).items() if k not in ("versions", "gen_data_format")}
            out.append(Export(n, c.build, {**g, **(gen or {})}, tags=c.tags, spec=c.spec, **({"n_in": c.opts["n_in"]} if "n_in" in (c.opts or {}) else {})))
    for c in progs.every():
        if not (c.gen or {}).get("versions"):
            add(c)
    for c in pt.cases() + fe.cases():
        add(c)
    for n in (2, 3, 4, 5, 6):
        rng = random.Random(f"22/{n}")
        for i in range(40 if thorough() else 8):
            sh = dags.rand_shape(n, rng)
            for opt in (False, True):
                kw = dict(unary=dags.FUSE_U, binary=dags.FUSE_B) if opt else {}
                desc, b = dags.build(sh, random.Random(f"22/{n}/{i}"), **kw)
                add(H.Case(f"{'opt:' if opt else ''}{desc}", b, {"optimization": opt}))
    return out
