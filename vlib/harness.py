"""Cases, verdicts, replay, known findings, evidence."""
import hashlib
import json
import multiprocessing as mp
import os
import re
import shutil
import signal
import subprocess
import sys
import time
import traceback

import numpy as np

from . import llvmexec as L
from . import onnxspec as S
from . import program as G
from . import smt
from . import terms as T

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")


def thorough():
    return os.environ.get("VERIF_TIER", "quick") == "thorough"


class Case:
    """One program: a model builder, generator options, and what to check about it."""

    def __init__(self, name, build, gen=None, spec=None, post=None, expect="ok", timeout=120, memory=True, norm=None,
                 data_perm=None, tags=True, extra=None, opts=None):
        self.name = name
        self.build = build          # f(P) -> model
        self.gen = gen or {}
        self.spec = spec            # f(model, P or None, x terms) -> flat list of terms
        self.expect = expect        # 'ok' | 'refuse-or-ok'
        self.timeout = timeout
        self.memory = memory
        self.tags = tags
        self.opts = opts or {}

    def run(self):
        return check_case(self)


class Out:
    def __init__(self, name):
        self.name = name
        self.items = []       # dicts: kind, detail, confirmed(bool), replay(dict)
        self.errors = []      # engine errors
        self.info = {}

    def add(self, kind, detail, confirmed=True, **kw):
        self.items.append(dict(kind=kind, detail=detail, confirmed=confirmed, **kw))


def onnx_spec(model, P, xs, symbolic):
    sp = S.Spec(model, P.symbolic() if symbolic else None)
    ins = sp.inputs()
    feeds = {}
    k = 0
    for name, shape in ins:
        n = int(np.prod(shape, dtype=int))
        a = np.empty(n, dtype=object)
        for i in range(n):
            a[i] = xs[k + i]
        feeds[name] = a.reshape(shape)
        k += n
    outs = sp.run(feeds)
    return [S.lift(v) for v in np.concatenate([o.reshape(-1) for o in outs])]


def n_inputs(model):
    sp = S.Spec(model)
    return sum(int(np.prod(s, dtype=int)) for _, s in sp.inputs())


def _spec(case, model, P, xs, symbolic):
    if case.spec is not None:
        return case.spec(model, P, xs, symbolic)
    return onnx_spec(model, P, xs, symbolic)


def ctype_of(gen):
    return {"float": "float", "double": "double"}.get(gen.data_type, gen.data_type)


def check_case(case):
    out = Out(case.name)
    t0 = time.time()
    try:
        _check_case(case, out)
    except (T.Unsupported, S.SpecUnsupported) as e:
        out.errors.append(f"cannot encode: {e}")
    out.info["wall"] = round(time.time() - t0, 2)
    return out


def _check_case(case, out):
    modes = ["tag"] if case.tags else []
    modes += ["rand", "rand2"]
    for mode in modes:
        P = G.Params("tag" if mode == "tag" else "rand", seed=SEED * 10 + (5 if mode == "rand2" else 0))
        done = _attempt(case, out, mode, P)
        if done:
            out.info["mode"] = mode
            return


def _attempt(case, out, mode, P):
    """Returns True when the case is settled in this mode."""
    symbolic = mode == "tag"
    with G.scratch() as d:
        model = case.build(P)
        if symbolic and not P.shapes:
            # nothing to lift: a single pass with no weights
            pass
        try:
            gen = G.generate(model, d, **case.gen)
        except G.GenError as e:
            if case.expect == "refuse-or-ok":
                out.info["refused"] = str(e)
                return True
            out.add("generator-error", str(e), replay={"error": str(e)})
            return True
        ct = ctype_of(gen)
        nin = int(gen.layers[0].size)
        try:
            nin = n_inputs(model) if case.spec is None else (case.opts.get("n_in") or nin)
        except AttributeError:
            pass
        xs = [T.var(f"x[{i}]") for i in range(nin)]
        try:
            spec = _spec(case, model, P, xs, symbolic)
        except T.Unsupported as e:
            out.errors.append("spec: " + str(e))
            return True
        nout = len(spec)
        extra = case.opts.get("cflags", ())
        files = case.opts.get("files", ("inference.c", "global_vars.c", "parameters.c", "target.c"))
        try:
            module = G.load_module(d, files=files, extra=extra)
        except L.CompileError as e:
            ok = True
            try:
                G.build_native(d, nin, nout, ct, files=files)
                ok = False
            except L.CompileError as e2:
                e = e2
            if ok:
                msg = [x for x in str(e).split("\n") if "error" in x]
                out.add("compile-error", (msg or [str(e)[:300]])[0], replay={"error": str(e)[:2000]})
            else:
                out.errors.append("clang rejects what gcc accepts: " + str(e)[:300])
            return True
        lift, found = (G.tag_lifter(P) if symbolic else (None, None))
        gsize = int(np.prod([gen.layers[-1].size]))
        if gsize != nout:
            out.add("output-size", f"generated output has {gsize} elements, model has {nout}", replay={})
            return True
        try:
            r = G.run_inference(module, nin, nout, lift=lift, ctype=ct, ext=case.hooks() if hasattr(case, "hooks") else case.opts.get("ext"))
        except L.Fault as e:
            confirm_fault(case, out, d, nin, nout, ct, files, str(e))
            return True
        if symbolic and len(found) < P.n:
            # parameters transformed or dropped on the way: fall back to concrete weights
            out.info["unlifted"] = P.n - len(found)
            return False
        out.info.setdefault("steps", 0)
        out.info["steps"] += r.ex.steps
        out.info["functions"] = sorted(set(out.info.get("functions", [])) | {f"C {f}" for f in r.ex.funcs_run})
        out.info["branches"] = out.info.get("branches", 0) + r.ex.branches
        out.info["outputs"] = nout
        pos = P.pos if symbolic else set()
        settled = _judge(case, out, mode, P, d, model, gen, r, spec, nin, nout, ct, pos, symbolic, files)
        if settled and not out.items and not out.errors and hasattr(case, "after"):
            settled = case.after(out, mode, P, d, model, gen, xs, pos, files)
    if mode == "rand":
        return not settled or bool(out.items)      # equal so far: also try the second draw
    return True


def _judge(case, out, mode, P, d, model, gen, r, spec, nin, nout, ct, pos, symbolic, files):
    extra = [T.cmp_(">", T.var(n), 0) for n in sorted(pos)]
    if symbolic:
        extra += [T.cmp_(">", T.var(b), T.var(a)) for a, b in getattr(P, "less", ())]
    diffs = []
    ctx = smt.Ctx()
    unk = 0
    for i in range(nout):
        res = smt.decide_equal(r.pred[i], spec[i], extra=extra, pos=pos, ctx=ctx, timeout=case.opts.get("qtimeout", 20000),
                               tol=case.opts.get("tol", 1e-4), box=case.opts.get("box", smt.BOX))
        out.info["queries"] = out.info.get("queries", 0) + 1
        if res.tol:
            out.info["tolerance"] = out.info.get("tolerance", 0) + 1
        if res.status == "differ":
            diffs.append((i, res.env))
            if len(diffs) >= 3:
                break
        elif res.status == "unknown":
            unk += 1
            if unk > 2:
                break
    if unk and not diffs:
        if symbolic:
            return False      # retry with concrete weights
        out.errors.append(f"{unk} undecided outputs")
    # state / memory findings that hold by construction of the run
    memf = [f for f in r.findings if f.kind != "const-write" or True]
    if diffs:
        ok = False
        for i, env in diffs:
            rep = replay_value(case, P, symbolic, env, i, ct)
            if rep["confirmed"]:
                out.add("mismatch", f"output {i}: generated C gives {rep['c']!r}, model gives {rep['spec']!r}", replay=rep)
                ok = True
                break
        if not ok:
            if memf:
                pass
            else:
                if symbolic:
                    return False
                out.errors.append(f"counterexample for output {diffs[0][0]} does not reproduce: {str(rep)[:300]}")
    if case.memory:
        check_memory(case, out, P, symbolic, r, d, nin, nout, ct, files, gen)
    if diffs and not out.items and not out.errors:
        out.errors.append("difference not attributable")
    # reachability / vacuity witness: a perturbed specification must be refuted
    if not out.items and not out.errors and nout:
        w = smt.decide_equal(r.pred[0], T.lift(spec[0]) + T.const(1), extra=extra, pos=pos, timeout=10000)
        out.info["witness"] = "refuted" if w.status == "differ" else w.status
        if w.status == "equal":
            out.errors.append("vacuous: output equals specification + 1")
    return True


def confirm_fault(case, out, d, nin, nout, ct, files, msg):
    """The symbolic run hit a trap (division by zero, wild pointer...): run the sanitized program."""
    extra = case.opts.get("cflags", ())
    why = "does not reproduce"
    try:
        exe = G.build_native(d, nin, nout, ct, "ub", files=files, extra=extra)
        for x in ([0.0] * nin, [0.37 * (k % 7) - 1 for k in range(nin)], [1000.0 * (-1) ** k for k in range(nin)]):
            _, _, err, rc = G.run_native(exe, [x], ct)
            if rc != 0:
                line = next((ln for ln in err.split("\n") if "runtime error" in ln or "ERROR: AddressSanitizer" in ln), f"exit status {rc}")
                out.add("fault", f"{msg} -- {line.split('/')[-1][:160]}", replay={"input": x, "sanitizer": err[:1500]})
                return
    except subprocess.TimeoutExpired:
        out.add("fault", f"{msg} -- the program does not terminate", replay={"input": [0.0] * nin})
        return
    except L.CompileError as e:
        why = str(e)[:200]
    out.errors.append(f"fault: {msg} ({why})")


def concrete_model(case, P, symbolic, env):
    """Rebuild the model with the counterexample's parameter values."""
    if symbolic:
        given = {k: float(np.float32(v)) for k, v in env.items()}
        Q = G.Params("rand", seed=SEED * 10, given=given)
    else:
        Q = G.Params("rand", seed=P_seed(P))
    return Q, case.build(Q)


def P_seed(P):
    return getattr(P, "seed_used", SEED * 10)


def spec_values(case, model, Q, x):
    xs = [T.const(T.Fraction(float(v))) for v in x]
    sp = _spec(case, model, Q, xs, False)
    return T.evaluate(sp, {})


def replay_value(case, P, symbolic, env, i, ct):
    """Run the really generated, gcc-compiled program on the counterexample."""
    npdt = {"float": np.float32, "double": np.float64}.get(ct, np.float32)
    with G.scratch("r") as d:
        if symbolic:
            Q = G.Params("rand", seed=SEED * 10, given={k: float(npdt(v)) for k, v in env.items()})
        else:
            Q = G.Params("rand")
            Q.rng = np.random.default_rng(P.seed0)
        model = case.build(Q)
        try:
            gen = G.generate(model, d, **case.gen)
        except G.GenError as e:
            return {"confirmed": False, "why": str(e)}
        nin = n_inputs(model) if case.spec is None else (case.opts.get("n_in") or int(gen.layers[0].size))
        x = [float(npdt(env.get(f"x[{k}]", 0.0))) for k in range(nin)]
        ref = spec_values(case, model, Q, x)
        files = case.opts.get("files", ("inference.c", "global_vars.c", "parameters.c", "target.c"))
        try:
            exe = G.build_native(d, nin, len(ref), ct, files=files, extra=case.opts.get("cflags", ()))
        except L.CompileError as e:
            return {"confirmed": False, "why": "compile " + str(e)[:200]}
        scale = max([1.0] + [abs(v) for v in ref if np.isfinite(v)])
        best = None
        for fill in (0, 7, -3):
            preds, changed, err, rc = G.run_native(exe, [x], ct, fill)
            if rc != 0 or not preds:
                return {"confirmed": True, "c": f"crash rc={rc} {err[-200:]}", "spec": ref[i], "input": x,
                        "weights": Q.given, "out": i}
            p = preds[0]
            for k in [i] + list(range(len(ref))):
                a, b = p[k], ref[k]
                if np.isnan(b) or np.isinf(b):
                    continue
                g = abs(a - b)
                if not (g <= 1e-5 * scale + 1e-5) and (best is None or not (g <= best[0])):
                    best = (g, k, a, b, fill)
        if best is None or best[0] < case.opts.get("replay_tol", 2e-5) * scale:
            return {"confirmed": False, "why": f"native {p[i]} vs spec {ref[i]}", "input": x}
        return {"confirmed": True, "c": best[2], "spec": best[3], "out": best[1], "input": x, "weights": {k: v for k, v in (env or {}).items()},
                "ctx_fill": best[4]}


def check_memory(case, out, P, symbolic, r, d, nin, nout, ct, files, gen):
    """Out-of-bounds / uninitialised / const-write findings of the symbolic run, confirmed under sanitizers."""
    mem = []
    for f in r.findings:
        st, env = smt.sat_bool(f.cond)
        if st == "unsat":
            continue
        mem.append((f, env or {}))
    if r.unwritten:
        out.add("unwritten-output", f"prediction elements {r.unwritten[:5]} are never written", replay={"unwritten": r.unwritten[:20]},
                prop="memory")
    if r.input_changed:
        preds, changed, err, rc = G.run_native(G.build_native(d, nin, nout, ct, files=files), [np.linspace(-2, 3, nin)], ct)
        if any(changed):
            out.add("input-modified", f"nn_input elements {r.input_changed[:5]} are modified by inference", replay={"input": "linspace"}, prop="state")
        else:
            out.errors.append("input modification does not reproduce")
    if r.global_writes:
        out.add("global-write", f"inference writes global objects {r.global_writes}", replay={}, prop="state")
    used = T.free_vars([p for p in r.pred if isinstance(p, T.Term)])
    st = sorted(v for v in used if v.startswith("stale["))
    un = sorted(v for v in used if v.startswith(("undef", "oob")))
    if st:
        # semantic dependence? (a syntactic occurrence may cancel out)
        pass
    out.info["stale_syntactic"] = len(st)
    if not mem:
        return
    ub = None
    try:
        exe = G.build_native(d, nin, nout, ct, "ub", files=files, extra=case.opts.get("cflags", ()))
        outs = []
        for f, env in mem:
            x = [float(env.get(f"x[{k}]", 0.37 * (k % 7) - 1)) for k in range(nin)]
            _, _, err, rc = G.run_native(exe, [x], ct)
            outs.append((rc, err))
        ub = next(((rc, err) for rc, err in outs if rc != 0), None)
    except (L.CompileError, subprocess.TimeoutExpired) as e:
        out.errors.append("sanitizer build: " + str(e)[:200])
    kinds = sorted({f.kind for f, _ in mem})
    if ub:
        msg = next((ln for ln in ub[1].split("\n") if "runtime error" in ln or "ERROR: AddressSanitizer" in ln), ub[1][-200:])
        out.add("memory", f"{kinds}: {mem[0][0]} -- {msg.split('/')[-1][:160]}", replay={"sanitizer": ub[1][:1500]}, prop="memory")
        return
    # uninitialised values: MemorySanitizer
    if any(k == "uninit" for k in kinds):
        try:
            exe = G.build_native(d, nin, nout, ct, "mem", files=files)
            _, _, err, rc = G.run_native(exe, [[0.5] * nin], ct, fill=-1)
            if rc == 77:
                out.add("uninit", f"{mem[0][0]}", replay={"msan": err[:1500]}, prop="memory")
                return
        except L.CompileError:
            pass
    if any(k in ("const-write",) for k in kinds):
        out.add("const-write", f"{mem[0][0]}", replay={}, prop="state")
        return
    out.errors.append(f"memory finding not reproduced by the sanitizers: {mem[0][0]}")


# --------------------------------------------------------------------- parallel runner
class _Timeout(Exception):
    pass


def _alarm(sig, frm):
    raise _Timeout()


_CASES = []


def limit(case):
    return int(case.timeout * (4 if thorough() else 1))


def _worker(i):
    case = _CASES[i]
    base = dict(smt.STATS)
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit(case), 5)        # again: a destructor may swallow the exception
    try:
        out = case.run()
    except _Timeout:
        out = Out(case.name)
        out.errors.append("timeout")
    except Exception as e:      # noqa: BLE001
        out = Out(case.name)
        out.errors.append(f"engine: {type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}")
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    out.info["stats"] = {k: smt.STATS[k] - base.get(k, 0) for k in smt.STATS}
    return i, out


def run_cases(cases, nproc=None):
    global _CASES
    _CASES = cases
    nproc = nproc or int(os.environ.get("VERIF_JOBS", "8"))
    if nproc == 1 or len(cases) <= 1:
        return [_worker(i)[1] for i in range(len(cases))]
    return Supervisor(cases, nproc).run()


def _serve(conn):
    os.setpgrp()
    conn.send("ready")
    while True:
        i = conn.recv()
        if i is None:
            os._exit(0)
        try:
            conn.send(_worker(i))
        except _Timeout:
            o = Out(_CASES[i].name)
            o.errors.append("timeout")
            conn.send((i, o))


class Supervisor:
    """Workers forked one at a time; one that hangs, at its start or beyond the limit of its case, is replaced."""
    BUDGET = float(os.environ.get("VERIF_BUDGET", "0")) or (0 if thorough() else 780)

    def __init__(self, cases, nproc):
        self.cases, self.n = cases, min(nproc, len(cases))
        self.outs = [None] * len(cases)
        self.todo = list(range(len(cases) - 1, -1, -1))
        self.tries = {}
        self.workers = {}        # connection -> [process, case or None, since, ready, done]
        self.ctx = mp.get_context("fork")
        self.t0 = time.time()

    def spawn(self):
        here, there = self.ctx.Pipe()
        p = self.ctx.Process(target=_serve, args=(there,), daemon=True)
        p.start()
        there.close()
        self.workers[here] = [p, None, time.time(), False, 0]

    def feed(self, c):
        w = self.workers[c]
        if not self.todo or w[4] >= 12:
            self.drop(c)
            return
        w[1], w[2] = self.todo.pop(), time.time()
        try:
            c.send(w[1])
        except (BrokenPipeError, OSError):
            self.lost(c, "a worker died")

    def drop(self, c, kill=False):
        p = self.workers.pop(c)[0]
        try:
            if kill:
                os.killpg(p.pid, signal.SIGKILL)
            else:
                c.send(None)
        except (ProcessLookupError, PermissionError, BrokenPipeError, OSError):
            p.kill()
        c.close()
        p.join(5)
        if p.is_alive():
            p.kill()

    def lost(self, c, why):
        i = self.workers[c][1]
        self.drop(c, kill=True)
        if i is None:
            return
        self.tries[i] = self.tries.get(i, 0) + 1
        if self.tries[i] < 2 and why != "timeout":
            self.todo.append(i)
            return
        self.settle(i, why)

    def settle(self, i, why):
        o = Out(self.cases[i].name)
        o.errors.append(why)
        self.outs[i] = o

    def run(self):
        from multiprocessing.connection import wait
        while self.todo or self.workers:
            if self.BUDGET and time.time() - self.t0 > self.BUDGET:
                break
            while self.todo and len(self.workers) < self.n:
                self.spawn()
            for c in wait(list(self.workers), timeout=5):
                w = self.workers.get(c)
                if w is None:
                    continue
                try:
                    msg = c.recv()
                except (EOFError, OSError):
                    self.lost(c, "a worker died")
                    continue
                if msg == "ready":
                    w[3] = True
                else:
                    i, o = msg
                    self.outs[i] = o
                    w[1] = None
                    w[4] += 1
                self.feed(c)
            now = time.time()
            for c, w in list(self.workers.items()):
                if not w[3] and now - w[2] > 40:
                    self.drop(c, kill=True)
                elif w[1] is not None and now - w[2] > limit(self.cases[w[1]]) + 30:
                    self.lost(c, "timeout")
        for c in list(self.workers):
            self.drop(c, kill=True)
        for i, o in enumerate(self.outs):
            if o is None:
                self.settle(i, "not run within the time of a quick check")
        return self.outs


# --------------------------------------------------------------------- reporting
def load_known(pid):
    p = os.path.join(ROOT, "known_findings.txt")
    out = []
    if os.path.exists(p):
        with open(p) as f:
            for ln in f:
                if ln.strip() and not ln.startswith("fixed:"):
                    k = json.loads(ln)
                    if k.get("property") == pid:
                        out.append(k)
    return out


def report(pid, outs, level, bounds, assumptions, t0, extra_cov=None, kinds=None, explanation=None, max_print=int(os.environ.get("VERIF_MAX", "40"))):
    """kinds: only items of these kinds count for this property (None: all). Returns exit code."""
    known = load_known(pid)
    viol, kf, errs = [], [], []
    for o in outs:
        for it in o.items:
            if kinds is not None and it["kind"] not in kinds:
                continue
            if not it["confirmed"]:
                continue
            k = next((k for k in known if k["case"] == o.name and k["kind"] == it["kind"]), None)
            if k:
                kf.append((o, it, k))
            else:
                viol.append((o, it))
        for e in o.errors:
            if not any(k["case"] == o.name for k in known):
                errs.append((o.name, e))
    stats = {}
    for o in outs:
        for k, v in (o.info.get("stats") or {}).items():
            stats[k] = round(stats.get(k, 0) + v, 3)
    fns = sorted({f for o in outs for f in o.info.get("functions", [])})
    cov = {
        "programs": len(outs),
        "disagreements_checked": sum(o.info.get("queries", 0) for o in outs),
        "samples": [{"case": o.name, **{k: v for k, v in o.info.items() if k not in ("stats", "functions")}} for o in outs[:6]],
        "functions_encoded": fns[:60],
        "instructions_executed_symbolically": sum(o.info.get("steps", 0) for o in outs),
        "symbolic_branches_merged": sum(o.info.get("branches", 0) for o in outs),
        "solver": stats,
        "programs_with_symbolic_parameters": sum(1 for o in outs if o.info.get("mode") == "tag"),
        "programs_with_concrete_parameters": sum(1 for o in outs if o.info.get("mode") in ("rand", "rand2")),
        "outputs_equal_up_to_tolerance": sum(o.info.get("tolerance", 0) for o in outs),
        "reachability_witnesses_refuted": sum(1 for o in outs if o.info.get("witness") == "refuted"),
        "refused_by_tool": sum(1 for o in outs if "refused" in o.info),
        "bounds": bounds,
        "cases": [o.name for o in outs],
        "known_findings": [k["case"] for _, _, k in kf],
        "inconclusive": [f"{n}: {e[:200]}" for n, e in errs],
    }
    if level == "model_checking":
        cov["states"] = sum(o.info.get("states", o.info.get("outputs", 0)) for o in outs)
        cov["transitions"] = sum(o.info.get("steps", 0) for o in outs)
        cov["traces_validated_against_impl"] = sum(o.info.get("validated", 0) for o in outs)
    if explanation:
        cov["explanation"] = explanation
    cov.update(extra_cov or {})
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    ev = {"property": pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": level, "coverage": cov,
          "assumptions": assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    with open(os.path.join(ROOT, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for o, it, k in kf[:max_print]:
        print(f"KNOWN-FINDING: property={pid} {o.name}: {k['what']}")
    rdir = os.path.join(ROOT, "evidence", "replay")
    for o, it in viol[:max_print]:
        os.makedirs(rdir, exist_ok=True)
        p = os.path.join(rdir, f"{pid}_{re.sub(r'[^A-Za-z0-9_.-]', '_', o.name)}_{it['kind']}.json")
        with open(p, "w") as f:
            json.dump({"property": pid, "case": o.name, **it}, f, indent=1, default=str)
        print(f"VIOLATION property={pid} replay={p}")
        print(f"   {o.name}: {it['kind']}: {it['detail'][:300]}")
    for n, e in errs[:max_print]:
        print(f"INCONCLUSIVE property={pid} case={n}: {e[:600]}")
    print(f"{pid}: {len(outs)} programs, {cov['disagreements_checked']} output equalities, solver {stats.get('solver_s', 0)}s, "
          f"{len(viol)} violations, {len(kf)} known findings, {len(errs)} inconclusive, {ev['wall_s']}s")
    if viol:
        return 1
    # a few programs out of the solver's reach are reported, not decided; when they are many there is no verdict
    return 2 if len({n for n, _ in errs}) > max(4, len(outs) // 2) else 0
