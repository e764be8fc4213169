"""The Python reference inference computes the model's function and leaves the network and its input alone."""
import copy
import tempfile

import numpy as np

from checks import c02, matrix, ops
from vlib import harness as H
from vlib import onnxspec as S
from vlib import program as G
from vlib import pyexec as PX
from vlib import smt
from vlib import terms as T

LEVEL = "bounded"
BOUNDS = ("the single-operator programs of C01-C10 with at most 64 outputs; two test samples, both symbolic, and a second run on the same data; "
          "at most 64 paths per program; weights symbolic where they can be traced")
ASSUMPTIONS = ["numpy is interpreted over the reals; the package's own Python code runs unchanged on arrays of terms, simple branches being merged"]


class PyCase(H.Case):
    def lift_more(self, gen, P):
        """Parameters kept elsewhere than in the layers."""
        return set()

    def run(self):
        out = H.Out(self.name)
        import time
        t0 = time.time()
        try:
            for mode in (["tag"] if self.tags else []) + ["rand"]:
                if attempt(self, out, mode):
                    out.info["mode"] = mode
                    break
        except (T.Unsupported, S.SpecUnsupported) as e:
            out.errors.append(f"cannot encode: {e}")
        out.info["wall"] = round(time.time() - t0, 2)
        return out


def make(case, model, n, **kw):
    with G.quiet():
        from acetone_nnet import CodeGenerator
        if hasattr(model, "store"):
            with tempfile.TemporaryDirectory(prefix="verif_p") as d:
                return CodeGenerator(model.store(d), nb_tests=n, **{**case.gen, **kw})
        return CodeGenerator(model, **{**case.gen, **kw})


def attempt(case, out, mode):
    P = G.Params(mode, seed=H.SEED * 10)
    model = case.build(P)
    try:
        gen = make(case, model, 2)
    except Exception as e:      # noqa: BLE001
        out.info["refused"] = str(e)[:100]     # reported by the check on the generated code
        return True
    nin = int(gen.layers[0].size)
    try:
        nin = H.n_inputs(model)
    except AttributeError:
        pass
    if mode == "tag":
        found = PX.lift_layers(gen, P) | case.lift_more(gen, P)
        if len(found) < P.n:
            out.info["unlifted"] = P.n - len(found)
            return False
    xa = [T.var(f"x[{i}]") for i in range(nin)]
    xb = [T.var(f"z[{i}]") for i in range(nin)]
    spec_a = H._spec(case, model, P, xa, mode == "tag")
    spec_b = H._spec(case, model, P, xb, mode == "tag")
    if len(spec_a) > case.opts.get("max_out", 64):
        out.info["skipped"] = f"{len(spec_a)} outputs"
        return True
    if gen.layers[-1].size != len(spec_a):
        out.info["refused"] = "output size"
        return True
    pos = P.pos if mode == "tag" else set()
    base = [T.cmp_(">", T.var(n), 0) for n in sorted(pos)] + ([T.cmp_(">", T.var(b), T.var(a)) for a, b in getattr(P, "less", ())] if mode == "tag" else [])
    PX.restore_functions()
    out.info["functions"] = ["py " + f for f in PX.convert_functions()] + ["py CodeGenerator.compute_inference"] + \
        sorted({"py " + type(l).__name__ + ".forward_path_layer" for l in gen.layers})
    state = {k: copy.copy(vars(l)) for k, l in enumerate(gen.layers)}

    def reset():
        for k, l in enumerate(gen.layers):
            vars(l).clear()
            for a, v in state[k].items():
                vars(l)[a] = v.copy() if isinstance(v, np.ndarray) else (list(v) if type(v) is list else v)
            if getattr(l, "previous_layer", None) is not None:
                vars(l)["previous_layer"] = state[k]["previous_layer"]
                vars(l)["next_layer"] = state[k]["next_layer"]

    def once():
        reset()
        before = PX.attributes(gen)
        data = PX.sym_array(xa + xb, (2, 1, nin))
        with PX.symbolic_numpy(), G.quiet():
            r1, rec = PX.inference(gen, data)
        r1 = list(PX.plain(np.asarray(r1, dtype=object)).reshape(-1))
        changed = [i for i, (u, v) in enumerate(zip(PX.plain(data).reshape(-1), xa + xb)) if u is not v]
        after = PX.attributes(gen)
        attrs = sorted(f"{k[1]} of layer {k[0]}" for k in before if k not in after or not PX.same_attr(before[k], after[k]))
        with PX.symbolic_numpy(), G.quiet():
            r2, rec2 = PX.inference(gen, data)
        r2 = list(PX.plain(np.asarray(r2, dtype=object)).reshape(-1))
        return r1, rec, changed, attrs, r2, rec2
    paths = PX.Explorer(base=base).run(once)
    out.info["paths"] = len(paths)
    out.info["outputs"] = len(spec_a)
    ctx = smt.Ctx()
    for pc, res in paths:
        env0 = {}
        if pc:
            st, env0 = smt.sat_bool(PX._conj(pc + base))
            env0 = env0 or {}
        if isinstance(res, Exception):
            confirm(case, out, mode, P, env0, nin, "python-error", f"{type(res).__name__}: {str(res)[:150]}")
            return True
        r1, rec, changed, attrs, r2, rec2 = res
        n = len(spec_a)
        want = spec_a + spec_b
        if len(rec) == 2 * n:
            got = rec
        else:
            got, want = r1, spec_b
        if len(r1) != n or (len(rec) != 2 * n and rec):
            confirm(case, out, mode, P, env0, nin, "python-shape", f"{len(r1)} values returned, {len(rec)} written for 2 samples of {n}")
            return True
        pairs = [(u, v, "mismatch") for u, v in zip(got, want)]
        if got is rec:
            pairs += [(u, v, "mismatch") for u, v in zip(r1, spec_b) if u is not v]
        pairs += [(u, v, "second-run") for u, v in zip(r2, r1)]
        if len(rec2) == len(rec):
            pairs += [(u, v, "second-run") for u, v in zip(rec2, rec)]
        for u, v, kind in pairs:
            if u is v:
                continue
            q = smt.decide_equal(u, v, extra=base + pc, pos=pos, ctx=ctx, timeout=10000)
            out.info["queries"] = out.info.get("queries", 0) + 1
            if q.tol:
                out.info["tolerance"] = out.info.get("tolerance", 0) + 1
            if q.status == "differ":
                if not confirm(case, out, mode, P, {**env0, **(q.env or {})}, nin, kind, "") and mode == "tag":
                    return False
                return True
            if q.status == "unknown":
                if mode == "tag":
                    return False
                out.errors.append("undecided output")
                return True
        if changed:
            confirm(case, out, mode, P, env0, nin, "input-modified", f"elements {changed[:4]} of the test dataset are modified")
            return True
        if attrs:
            confirm(case, out, mode, P, env0, nin, "network-modified", f"{attrs[:3]} modified by the inference")
            return True
    w = smt.decide_equal(paths[0][1][0][0], T.lift(spec_b[0]) + T.const(1), extra=base + paths[0][0], pos=pos, timeout=10000)
    out.info["witness"] = "refuted" if w.status == "differ" else w.status
    if w.status == "equal":
        out.errors.append("vacuous")
    return True


def confirm(case, out, mode, P, env, nin, kind, detail):
    """Replay with the unmodified package on concrete floats."""
    PX.restore_functions()
    rep = replay(case, mode, {k: float(v) for k, v in env.items()}, nin)
    if rep.get("confirmed"):
        out.add(rep.get("kind", kind), rep["detail"] + (" -- " + detail if detail else ""), replay=rep)
        return True
    if mode == "rand" or kind not in ("mismatch", "second-run"):
        out.errors.append(f"{kind} {detail} does not reproduce: {rep}")
    return False


def replay(case, mode, env, nin):
    if mode == "tag":
        Q = G.Params("rand", seed=H.SEED * 10, given={k: float(np.float32(v)) for k, v in env.items()})
    else:
        Q = G.Params("rand", seed=H.SEED * 10)
    model = case.build(Q)
    rng = np.random.default_rng(5)

    def vec(p, k):
        if k == 0:
            return [float(np.float32(env.get(f"{p}[{i}]", 0.0))) for i in range(nin)]
        return [float(np.float32(v)) for v in np.round(rng.uniform(-2, 2, nin) * 8) / 8]
    rep = {"confirmed": False}
    for k in range(3):
        xa, xb = vec("x", k), vec("z", k)
        gen = make(case, model, 2)
        data = np.array([xa, xb], dtype=np.float32).reshape(2, 1, nin)
        gen.test_dataset = data
        want = [H.spec_values(case, model, Q, v) for v in (xa, xb)]
        before = PX.attributes(gen)
        try:
            def run():
                with tempfile.TemporaryDirectory(prefix="verif_p") as d:
                    with G.quiet():
                        ret = gen.compute_inference(d)
                    rows = [[gen.c2data(v) if "x" in v else float(v) for v in ln.split()] for ln in open(d + "/output_python.txt") if ln.strip()]
                return np.asarray(ret, dtype=float).reshape(-1), rows
            r1, rows = run()
            after = PX.attributes(gen)
            kept = data.copy()
            r2, rows2 = run()
        except Exception as e:      # noqa: BLE001
            rep = {"confirmed": True, "kind": "python-error", "detail": f"the reference inference fails: {type(e).__name__}: {str(e)[:200]}", "input": xa}
            break
        scale = max([1.0] + [abs(v) for w in want for v in w if np.isfinite(v)])
        bad = None
        if [len(r) for r in rows] != [len(w) for w in want]:
            bad = ("mismatch", f"rows of {[len(r) for r in rows]} values for outputs of {len(want[0])}")
        else:
            for s in range(2):
                for i, (a, b) in enumerate(zip(rows[s], want[s])):
                    if np.isfinite(b) and not abs(a - b) <= 2e-4 * scale:
                        bad = bad or ("mismatch", f"sample {s} output {i}: python gives {a!r}, the model {b!r}")
            for i, (a, b) in enumerate(zip(r1, want[1])):
                if np.isfinite(b) and not abs(a - b) <= 2e-4 * scale:
                    bad = bad or ("mismatch", f"returned output {i}: {a!r}, the model {b!r}")
        if not bad:
            if not np.array_equal(np.array(rows2), np.array(rows), equal_nan=True) or not np.array_equal(r1, r2, equal_nan=True):
                bad = ("second-run", f"second run gives {rows2[0][:3]} after {rows[0][:3]}")
            elif not np.array_equal(kept, np.array([xa, xb], dtype=np.float32).reshape(2, 1, nin)):
                bad = ("input-modified", "the test dataset is modified")
            else:
                ch = [f"{k[1]} of layer {k[0]}" for k in before if k not in after or not PX.same_attr(before[k], after[k])]
                if ch:
                    bad = ("network-modified", f"{ch[:3]} modified by the inference")
        if bad:
            rep = {"confirmed": True, "kind": bad[0], "detail": bad[1], "input": [xa, xb], "weights": env}
            break
    return rep


def cases():
    out = []
    seen = set()
    for name, f in SOURCES():
        for c in f():
            if c.spec is not None or c.name in seen:
                continue
            seen.add(c.name)
            n = PyCase(c.name, c.build, c.gen, c.spec, expect=c.expect, timeout=60, tags=c.tags, opts=c.opts)
            n.origin = name
            out.append(n)
    return out


def SOURCES():
    import importlib
    out = []
    for i in range(1, 11):
        m = importlib.import_module(f"checks.c{i:02d}")
        out.append((f"c{i:02d}", m.cases))
    return out
