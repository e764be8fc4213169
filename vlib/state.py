"""Memory safety and statelessness of the generated inference(), for any input and any context contents."""
import numpy as np

from . import harness as H
from . import llvmexec as L
from . import program as G
from . import smt
from . import terms as T

MEMORY = {"memory", "uninit", "fault", "unwritten-output", "stale"}
STATE = {"input-modified", "global-write", "const-write", "stale", "external-call"}
PURE = ("exp", "log", "tanh", "pow", "sqrt", "fabs", "fmax", "fmin", "floor", "ceil", "round", "rint", "trunc", "abs", "fma", "max", "min", "sin", "cos",
        "mem", "lifetime", "copysign")


def substitute(roots, ren):
    """Rename variables."""
    memo = {}
    for t in T.subterms(roots):
        if t.op == "v":
            n = ren(t.args[0])
            memo[t.id] = T.var(n) if n else t
        elif t.op in ("c", "true", "false"):
            memo[t.id] = t
        else:
            memo[t.id] = T.mk(t.op, tuple(memo[a.id] if isinstance(a, T.Term) else a for a in t.args), t.isbool)
    return [memo[r.id] for r in roots]


class StateCase(H.Case):
    """Wraps the case of another check: same program, other question."""

    def __init__(self, case):
        self.__dict__.update(case.__dict__)

    def run(self):
        out = H.Out(self.name)
        try:
            self.go(out)
        except (T.Unsupported,) as e:
            out.errors.append(f"cannot encode: {e}")
        return out

    def go(self, out):
        P = G.Params("tag" if self.tags else "rand", seed=H.SEED * 10)
        with G.scratch() as d:
            model = self.build(P)
            try:
                gen = G.generate(model, d, **self.gen)
            except G.GenError as e:
                out.info["refused"] = str(e)
                return
            ct = H.ctype_of(gen)
            nin = self.opts.get("n_in") or int(gen.layers[0].size)
            nout = int(np.prod([gen.layers[-1].size]))
            files = self.opts.get("files", ("inference.c", "global_vars.c", "parameters.c", "target.c"))
            try:
                module = G.load_module(d, files=files, extra=self.opts.get("cflags", ()))
            except L.CompileError as e:
                out.info["refused"] = "does not compile: " + str(e)[-200:]
                return
            lift, _ = G.tag_lifter(P) if self.tags else (None, None)
            try:
                r = G.run_inference(module, nin, nout, lift=lift, ctype=ct, ext=self.opts.get("ext"))
            except L.Fault as e:
                H.confirm_fault(self, out, d, nin, nout, ct, files, str(e))
                return
            out.info.update(mode="tag" if self.tags else "rand", steps=r.ex.steps, functions=sorted(f"C {f}" for f in r.ex.funcs_run),
                            branches=r.ex.branches, outputs=nout, accesses=r.ex.accesses)
            H.check_memory(self, out, P, self.tags, r, d, nin, nout, ct, files, gen)
            ext = sorted(n for n in getattr(r.ex, "ext_called", ()) if not any(p in n for p in PURE))
            if ext:
                out.add("external-call", f"inference calls {ext}", replay={"external": ext})
            self.stale(out, r, d, nin, nout, ct, files)

    def stale(self, out, r, d, nin, nout, ct, files):
        """Two executions from different context and prediction contents must agree."""
        n = bad = 0
        ctx = smt.Ctx()
        for i, p in enumerate(r.pred):
            out.info["queries"] = out.info.get("queries", 0) + 1
            if not isinstance(p, T.Term):
                continue
            fv = T.free_vars([p])
            dirty = [v for v in fv if v.startswith(("stale[", "pred0["))]
            if not dirty:
                continue
            n += 1
            q = substitute([p], lambda v: v + "'" if v in dirty else None)[0]
            res = smt.decide_equal(p, q, ctx=ctx, timeout=20000)
            if res.status == "unknown":
                out.errors.append(f"output {i}: dependence on the context's contents undecided")
                return
            if res.status == "differ":
                bad += 1
                if self.confirm(out, i, res.env, d, nin, nout, ct, files, dirty):
                    return
        if bad and not any(it["kind"] in ("unwritten-output", "memory", "uninit") for it in out.items):
            out.errors.append("dependence on the context's contents does not reproduce")
        out.info["outputs_mentioning_stale"] = n

    def confirm(self, out, i, env, d, nin, nout, ct, files, dirty):
        exe = G.build_native(d, nin, nout, ct, files=files, extra=self.opts.get("cflags", ()))
        x = [float(np.float32(env.get(f"x[{k}]", 0.37 * (k % 7) - 1))) for k in range(nin)]
        got = []
        for fill in (0, 7, -3, 1000):
            preds, _, err, rc = G.run_native(exe, [x], ct, fill)
            if rc == 0 and preds:
                got.append(tuple(preds[0]))
        if len(set(got)) > 1:
            out.add("stale", f"prediction {i} depends on the previous contents {dirty[:3]}",
                    replay={"input": x, "predictions": [list(g) for g in sorted(set(got))[:3]]})
            return True
        return False


def wrap(cases, keep=None, tag=""):
    out, seen = [], set()
    for c in cases:
        n = tag + c.name
        if n in seen or (keep and not keep(c)):
            continue
        seen.add(n)
        s = StateCase(c)
        s.name = n
        out.append(s)
    return out
