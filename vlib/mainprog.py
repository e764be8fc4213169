"""The generated main program and batch loop: symbolic execution, OpenMP regions as unordered iterations, native log."""
import os
import re
import struct
import subprocess
import time

import numpy as np

from . import harness as H
from . import llvmexec as L
from . import program as G
from . import smt
from . import terms as T

STUB = r"""
#include <stdio.h>
#include <stddef.h>
#include "inference.h"
static int calls_made;
static FILE *verif_log;
int inference(inference_t *ctx, TYPE *prediction, TYPE *nn_input)
{
    if (!verif_log) verif_log = fopen("verif_calls.txt", "w");
    fprintf(verif_log, "%ld", (long)((char *)ctx - (char *)Context));
    for (int k = 0; k < NIN; k++) fprintf(verif_log, " %a", (double)nn_input[k]);
    fprintf(verif_log, "\n");
    fflush(verif_log);
    for (int k = 0; k < NOUT; k++) prediction[k] = (TYPE)(1 + calls_made * NOUT + k);
    calls_made++;
    return 0;
}
"""


class Call:
    def __init__(self, guard, ctx, ctx_off, pred, pred_off, inputs, region, it):
        self.__dict__.update(locals())


def ranges(cells):
    """Contiguous ranges of accessed bytes per object."""
    by = {}
    for o, off, sz in cells:
        by.setdefault(o, []).append((off, off + sz))
    for o, ivs in by.items():
        ivs.sort()
        lo, hi = ivs[0]
        for a, b in ivs[1:]:
            if a <= hi:
                hi = max(hi, b)
            else:
                yield o, lo, hi
                lo, hi = a, b
        yield o, lo, hi


class World:
    """Hooks recording what main() does."""

    def __init__(self, nin, nout, size, ctype, ctx_size, feed=None):
        self.nin, self.nout, self.size, self.ctx_size = nin, nout, size, ctx_size
        self.calls, self.events = [], []
        self.feed = feed
        self.fed = 0
        self.region = None      # (number of the parallel region, iteration)
        self.regions = 0
        self.problems = []
        self.files = {}
        self.elem = L.Module._prim[ctype]

    def inference(self, ex, a, tys, rty, n):
        ctx, pred, inp = a
        if inp.off % self.size or pred.off % self.size:
            self.problems.append(("wrong-input", "inference gets an address between two elements"))
            return 0
        x = [ex.load(L.Ptr(inp.obj, inp.off + k * self.size, inp.lo, inp.hi, inp.path), self.elem) for k in range(self.nin)]
        c = len(self.calls)
        for k in range(self.nout):
            ex.store(L.Ptr(pred.obj, pred.off + k * self.size, 0, pred.obj.size, pred.path), self.elem, T.var(f"y{c}[{k}]"))
        if not (0 <= ctx.off and ctx.off + self.ctx_size <= ctx.obj.size):
            ex.finding("oob-write", f"context {ctx.obj.name} offset {ctx.off}")
        self.calls.append(Call(ex.cond_now(), ctx.obj, ctx.off, pred.obj, pred.off, x, *(self.region or (None, None))))
        return 0

    def fork(self, ex, a, tys, rty, n):
        """#pragma omp parallel: iterations in any order on any thread; each is executed alone, accesses to shared cells compared."""
        fn, args = a[2], a[3:]
        self.regions += 1
        me = self.regions
        total = [None]
        k = 0
        foot = []
        tid = L.Obj("gtid", 4, "stack")
        tid.cells[0] = (0, 4, "i")

        def static_init(ex2, b, t2, r2, n2):
            lo, up = b[4], b[5]
            e = L.Ty("int", 32)
            u = ex2.load(up, e)
            total[0] = u + 1 if not u >> 31 else 0
            ex2.store(lo, e, k)
            ex2.store(up, e, k)
        ex.ext["__kmpc_for_static_init_4"] = static_init
        ex.ext["__kmpc_for_static_fini"] = lambda *b: None
        while True:
            self.region = (me, k)
            log = {"r": set(), "w": set()}
            shared = {id(p.obj) for p in args if isinstance(p, L.Ptr)}

            def trace(kind, p, sz):
                if p.obj.kind != "stack" or id(p.obj) in shared:
                    log[kind].add((id(p.obj), p.off, sz))
            ex.trace = trace
            try:
                ex.call(fn.name if isinstance(fn, L.FnPtr) else fn, [L.Ptr(tid, 0), L.Ptr(tid, 0), *args])
            finally:
                ex.trace = None
            foot.append(log)
            k += 1
            if total[0] is None or k >= total[0]:
                break
        self.region = None
        for c in self.calls:
            if c.region == me:      # the inference may write its whole context
                foot[c.it]["w"].add((id(c.ctx), c.ctx_off, self.ctx_size))
        self.compare(foot)

    def compare(self, foot):
        """Can two different iterations touch the same byte, one of them writing? (decided by the solver)"""
        z3 = smt.z3
        objs = {}
        w = [[], [], [], []]
        r = [[], [], [], []]
        for it, lg in enumerate(foot):
            for kind, dst in (("w", w), ("r", r)):
                for o, lo, hi in ranges(lg[kind]):
                    k = objs.setdefault(o, len(objs))
                    for d, v in zip(dst, (it, k, lo, hi)):
                        d.append(v)
        if not w[0]:
            return
        i, j, o, b = z3.Ints("i j object byte")

        def within(tab, it):
            return z3.Or([z3.And(it == t, o == k, lo <= b, b < hi) for t, k, lo, hi in zip(*tab)])
        s = z3.Solver()
        s.set("timeout", 60000)
        s.add(i != j, within(w, i), z3.Or(within(w, j), within(r, j)))
        smt.STATS["queries"] += 1
        t0 = time.time()
        st = str(s.check())
        smt.STATS["solver_s"] += time.time() - t0
        smt.STATS[st] = smt.STATS.get(st, 0) + 1
        if st == "sat":
            m = s.model()
            name = {k: n for n, k in objs.items()}[m[o].as_long()]
            del name
            self.problems.append(("race", f"iterations {m[i]} and {m[j]} of a parallel region access the same memory, one writes it"))
        elif st != "unsat":
            self.problems.append(("unknown", "race freedom undecided"))

    def io(self, ex, a, tys, rty, n):
        if ex.pathcond:
            raise T.Unsupported("I/O under a symbolic condition")
        vals = []
        for v in a:
            if isinstance(v, L.Ptr) and v.obj.const and v.obj.cells and all(c[1] == 1 for c in v.obj.cells.values()):
                vals.append(L.cstring(v))
            else:
                vals.append(v)
        if n == "fopen":
            o = L.Obj("FILE", 8, "heap")
            name = vals[0].obj.name if isinstance(vals[0], L.Ptr) else vals[0]
            self.files[id(o)] = (name, vals[1], o)
            self.events.append(("open", name, vals[1]))
            return L.Ptr(o, 0)
        if n == "fclose":
            self.events.append(("close", self.files[id(a[0].obj)][0]))
            return 0
        if n in ("fscanf", "__isoc99_fscanf"):
            name = self.files[id(a[0].obj)][0]
            fmt = vals[1]
            want = {4: "%f", 8: "%lf"}[self.size]
            p = a[2]
            m = re.fullmatch(r"\s*%(l?)[fgea]\s*", fmt)
            if not m:
                raise T.Unsupported("scanf format " + fmt)
            w = 8 if m.group(1) else 4
            if w != self.size:
                self.problems.append(("scanf", f"format {fmt} reads {w} bytes, the element has {self.size} ({want})"))
            ex.store(L.Ptr(p.obj, p.off, 0, p.obj.size, p.path), self.elem, T.var(f"f{self.fed}"))
            self.fed += 1
            self.events.append(("read", name))
            return 1
        if n == "fprintf":
            self.events.append(("print", self.files[id(a[0].obj)][0], vals[1], vals[2:]))
            return 1
        if n in ("printf", "puts", "putchar"):
            self.events.append(("print", "<stdout>", vals[0], vals[1:]))
            return 1
        if n == "clock":
            return 0
        raise T.Unsupported("external " + n)


def argv(names):
    p = L.Obj("argv", 8 * (len(names) + 1), "arg")
    for k, s in enumerate(names):
        o = L.Obj(s, 64, "string")
        for j, ch in enumerate(s.encode()):
            o.cells[j] = (ch, 1, "i")
        o.cells[len(s)] = (0, 1, "i")
        p.cells[8 * k] = (L.Ptr(o, 0), 8, "p")
    return L.Ptr(p, 0)


def install(ex, w):
    ex.ext["inference"] = w.inference
    ex.ext["__kmpc_fork_call"] = w.fork
    ex.ext["__kmpc_global_thread_num"] = lambda *a: 0
    ex.ext["__kmpc_push_num_threads"] = lambda *a: None
    ex.ext["omp_get_thread_num"] = lambda *a: 0
    for n in ("fopen", "fclose", "fscanf", "__isoc99_fscanf", "fprintf", "printf", "puts", "putchar", "clock"):
        ex.ext[n] = w.io


def any_of(l):
    r = T.FALSE
    for x in l:
        r = T.or_(r, x)
    return r


def all_of(l):
    r = T.TRUE
    for x in l:
        r = T.and_(r, x)
    return r


def same(a, b):
    return a is b or (not isinstance(a, T.Term) and not isinstance(b, T.Term) and a == b)


def text_of(fmt, v):
    """What kind of directive prints the value, with the literal text around it."""
    m = re.fullmatch(r"([^%]*)%[-+ #0]*[\d.]*(l{0,2}|h{0,2})([adegfi])([^%]*)", fmt)
    return (m.group(1), m.group(3), m.group(4)) if m else None


def hard_samples(nb, nin, dt):
    rng = np.random.default_rng(5)
    m = 1.0 + rng.integers(0, 1 << 22, (nb, nin)) * 2.0 ** -22 + 2.0 ** -23
    if dt == np.float64:
        m += (rng.integers(0, 1 << 24, (nb, nin)) * 2 + 1) * 2.0 ** -49
    e = 2.0 ** np.resize([0, -1, 5, -30, 20, -60, 1], (nb, nin))
    return (m * e * np.where(np.arange(nin) % 2, -1, 1)).astype(dt)


class MainCase(H.Case):
    """The generated main() on nb samples: every sample evaluated once, on its data, its context private, printed in order."""

    def __init__(self, name, build, nb, gen=None, ext="", timeout=300, hard=None, order="C"):
        """hard: the element type of samples whose values need all its bits; order: the memory order of the array."""
        super().__init__(name, build, gen=gen, timeout=timeout)
        self.nb, self.ext, self.external = nb, ext, ext == "run"
        self.hard, self.order = hard, order

    def arrange(self, a):
        if self.order == "F":
            return np.asfortranarray(a)
        if self.order == "T":
            return np.ascontiguousarray(a.T).T
        if self.order == "slice":
            b = np.zeros((*a.shape[:-1], a.shape[-1] * 2), dtype=a.dtype)
            b[..., ::2] = a
            return b[..., ::2]
        if self.order == "3d":
            return a.reshape(a.shape[0], 1, -1)
        if self.order == "shape":
            return np.ascontiguousarray(np.moveaxis(a.reshape(a.shape[0], *self.shape), 1, -1)).transpose(0, -1, *range(1, len(self.shape)))
        return a

    def run(self):
        out = H.Out(self.name)
        try:
            self.go(out)
        except (T.Unsupported, L.Fault) as e:
            out.errors.append(f"cannot encode: {type(e).__name__} {e}")
        return out

    def go(self, out):
        P = G.Params("rand", seed=H.SEED * 10)
        with G.scratch() as d:
            model = self.build(P)
            nin = H.n_inputs(getattr(model, "onnx", model))
            # every element of the dataset is a different value
            data = (np.arange(self.nb * nin).reshape(self.nb, nin) * 0.5 + 0.25) * np.where(np.arange(nin) % 2, -1, 1)
            dt = np.float32
            if self.hard is not None:
                dt = self.hard
                data = hard_samples(self.nb, nin, dt)
            if self.order == "shape":
                self.shape = tuple(int(v.dim_value) for v in model.graph.input[0].type.tensor_type.shape.dim)[1:]
            kw = dict(self.gen)
            if self.external:
                kw["external_input"] = True
                kw["nb_tests"] = self.nb
            elif self.ext:
                # a text file of one sample per line, in the number format of the generated program
                show = (lambda v: '"' + float(v).hex() + '"') if kw.get("to_hex", True) else (lambda v: repr(float(v)))
                rows = ["[" + ", ".join(show(v) for v in row) + "]" for row in data]
                if self.ext == "long":
                    rows.append(rows[0])
                path = os.path.join(d, "samples.txt")
                with open(path, "w") as f:
                    f.write("\n".join(rows) + "\n")
                kw["test_dataset"] = path
                kw["nb_tests"] = self.nb + (2 if self.ext == "short" else 0)
            else:
                kw["test_dataset"] = self.arrange(data.astype(dt))
            try:
                gen = G.generate(model, d, **kw)
            except G.GenError as e:
                out.add("generator-error", str(e)[:300], replay={"error": str(e)})
                return
            ct = H.ctype_of(gen)
            nout = int(gen.layers[-1].size)
            if self.hard is not None:
                data = data.astype({"float": np.float32, "double": np.float64}[ct])      # in the data type of the program
            try:
                module = G.load_module(d, files=("main.c", "test_dataset.c", "test_dataset_bin.c", "global_vars.c"), openmp=True)
            except L.CompileError as e:
                self.native_compile(out, d, ct, nin, nout, str(e))
                return
            size = {"float": 4, "double": 8}[ct]
            cty = module.types.get("%struct.inference_t")
            csize = cty._size if cty is not None and cty.kind != "opaque" else 0
            w = World(nin, nout, size, ct, csize)
            ex = L.Exec(module)
            install(ex, w)
            args = ["prog", "OUT", "IN"][:3 if self.external else 2]
            ex.call("main", [len(args), argv(args)])
            out.info.update(steps=ex.steps, functions=sorted(f"C {f}" for f in ex.funcs_run), outputs=self.nb * nout, mode="symbolic predictions")
            bad = self.judge(out, w, ex, data, nin, nout)
            bad += [(k, t) for k, t in w.problems]
            bad += [(f.kind, f.detail) for f in ex.findings.values()]
            if any(k == "unknown" for k, _ in bad):
                out.errors.append(str(bad))
                return
            self.link(out, d, gen, ct, nin, nout, data, bad)

    def expected_input(self, s, data, nin):
        if self.external:
            return [T.var(f"f{s * nin + k}") for k in range(nin)]
        return [float(v) for v in data[s]]

    def judge(self, out, w, ex, data, nin, nout):
        bad = []
        owner = {}
        for c, call in enumerate(w.calls):
            for s in range(self.nb):
                want = self.expected_input(s, data, nin)
                if len(call.inputs) == nin and all(same(a, b) for a, b in zip(call.inputs, want)):
                    owner.setdefault(s, []).append(c)
                    break
            else:
                bad.append(("wrong-input", f"call {c} of inference does not get the data of any sample"))
        for s in range(self.nb):
            if len(owner.get(s, [])) != 1:
                bad.append(("sample-count", f"sample {s} of {self.nb} is evaluated {len(owner.get(s, []))} times"))
        if len(w.calls) != self.nb and not bad:
            bad.append(("sample-count", f"{len(w.calls)} evaluations for {self.nb} samples"))
        if bad:
            return bad
        # the output file
        opens = [e for e in w.events if e[0] == "open" and e[1] == "OUT"]
        if len(opens) != 1 or "w" not in (opens[0][2] or ""):
            bad.append(("output-file", f"the output file is opened {opens}"))
        if not any(e[0] == "close" and e[1] == "OUT" for e in w.events):
            bad.append(("output-file", "the output file is not closed"))
        lines, cur, text = [], [], ""
        for e in w.events:
            if e[0] != "print" or e[1] != "OUT":
                continue
            fmt, vals = e[2], e[3]
            if vals:
                if len(vals) != 1 or text_of(fmt, vals[0]) is None:
                    raise T.Unsupported(f"print format {fmt!r}")
                pre, _, post = text_of(fmt, vals[0])
                text += pre
                if cur and not text.strip(" \t") == "" or (cur and text == ""):
                    bad.append(("output-text", f"values separated by {text!r}"))
                cur.append(vals[0])
                text = post
            else:
                text += fmt
            if "\n" in text:
                lines.append(cur)
                cur, text = [], ""
        if cur:
            lines.append(cur)
        if len(lines) != self.nb:
            bad.append(("output-lines", f"{len(lines)} lines for {self.nb} samples"))
            return bad
        ctx = smt.Ctx()
        for s, ln in enumerate(lines):
            c = owner[s][0]
            if len(ln) != nout:
                bad.append(("output-lines", f"line {s} has {len(ln)} values, the network {nout} outputs"))
                return bad
            for k, v in enumerate(ln):
                out.info["queries"] = out.info.get("queries", 0) + 1
                if v is L.UNDEF:
                    bad.append(("output-value", f"line {s} value {k} is not initialised"))
                    return bad
                r = smt.decide_equal(T.lift(v), T.var(f"y{c}[{k}]"), ctx=ctx)
                if r.status != "equal":
                    bad.append(("output-value", f"line {s} value {k} is not prediction {k} of sample {s}"))
                    return bad
        return bad

    # -------- the same program, compiled and run
    def native_compile(self, out, d, ct, nin, nout, why):
        exe, err = self.make(d, ct, nin, nout)
        if exe is None:
            out.add("compile-error", err[-300:], replay={"error": err})
        else:
            out.errors.append("clang rejects what gcc accepts: " + why[-300:])

    def make(self, d, ct, nin, nout):
        """The package's own Makefile, then a program with a logging inference()."""
        r = subprocess.run(["make", "-s"], cwd=d, capture_output=True, text=True, timeout=240)
        if r.returncode:
            return None, r.stderr
        with open(os.path.join(d, "verif_stub.c"), "w") as f:
            f.write(STUB)
        src = [x for x in ("main.c", "test_dataset.c", "global_vars.c", *(() if os.path.exists(os.path.join(d, "test_dataset.c")) else ("test_dataset.o",))) if os.path.exists(os.path.join(d, x))]
        r = subprocess.run(["gcc", "-w", "-O1", f"-DTYPE={ct}", f"-DNIN={nin}", f"-DNOUT={nout}", "verif_stub.c", *src, "-lm", "-o", "verif_main"],
                           cwd=d, capture_output=True, text=True)
        if r.returncode:
            return None, r.stderr
        return os.path.join(d, "verif_main"), ""

    def link(self, out, d, gen, ct, nin, nout, data, bad):
        exe, err = self.make(d, ct, nin, nout)
        if exe is None:
            line = next((x for x in err.split("\n") if "error" in x or "multiple" in x or "undefined" in x), err[-200:])
            out.add("compile-error", line.split("/")[-1][:250], replay={"error": err[-1500:]})
            return
        # native run of the same program: confirms a problem, and otherwise validates the encoding
        args = ["verif_out.txt"]
        if self.external:
            with open(os.path.join(d, "verif_in.txt"), "w") as f:
                f.write("\n".join(" ".join(repr(float(v)) for v in row) for row in data) + "\n")
            args.append("verif_in.txt")
        r = subprocess.run([exe, *args], cwd=d, capture_output=True, text=True, timeout=60)
        nat = self.native_problems(d, r, data, nin, nout, gen)
        if bad:
            race = [b for b in bad if b[0] == "race"]
            if nat:
                out.add(bad[0][0], bad[0][1], replay={"native": nat[:5], "encoded": bad[:5], "samples": self.nb})
            elif race:
                out.add("race", race[0][1], replay={"encoded": bad[:5], "samples": self.nb})
            else:
                out.errors.append(f"not reproduced natively: {bad[:2]}")
        elif nat:
            out.errors.append(f"native run disagrees with the encoding: {nat[:2]}")
        else:
            out.info["validated"] = 1

    def native_problems(self, d, r, data, nin, nout, gen):
        bad = []
        if r.returncode:
            bad.append(f"exit status {r.returncode}")
        p = os.path.join(d, "verif_calls.txt")
        calls = []
        if os.path.exists(p):
            with open(p) as f:
                for ln in f:
                    t = ln.split()
                    calls.append((int(t[0]), [float.fromhex(v) for v in t[1:]]))
        owner = {}
        for c, (_, x) in enumerate(calls):
            for s in range(self.nb):
                if x == [float(v) if self.hard is not None else float(np.float32(v)) for v in data[s]]:
                    owner.setdefault(s, []).append(c)
        for s in range(self.nb):
            if len(owner.get(s, [])) != 1:
                bad.append(f"sample {s} evaluated {len(owner.get(s, []))} times")
        if len(calls) != self.nb:
            bad.append(f"{len(calls)} calls")
        try:
            with open(os.path.join(d, "verif_out.txt")) as f:
                lines = f.read().split("\n")
        except OSError:
            return bad + ["no output file"]
        lines = [ln.split() for ln in lines if ln.strip()]
        if len(lines) != self.nb:
            bad.append(f"{len(lines)} lines")
        if bad:
            return bad
        for s, ln in enumerate(lines):
            want = [1 + owner[s][0] * nout + k for k in range(nout)]
            try:
                got = [float.fromhex(v) if "0x" in v else float(v) for v in ln]
            except ValueError:
                got = ln
            if got != want:
                bad.append(f"line {s}: {got} instead of {want}")
        return bad


BATCH_DRIVER = r"""
#include <stdio.h>
#include <stdlib.h>
#include "inference.h"
void batch_loop(TYPE *predictions, TYPE *nn_input, int batch_size);
int main(int argc, char **argv)
{
    int n = atoi(argv[1]);
    TYPE *in = malloc(sizeof(TYPE) * (n * NIN + 1)), *pred = malloc(sizeof(TYPE) * (n * NOUT + 1));
    for (int k = 0; k < n * NIN; k++) in[k] = k + 0.5;
    for (int k = 0; k < n * NOUT; k++) pred[k] = -1;
    batch_loop(pred, in, n);
    for (int k = 0; k < n; k++) { for (int i = 0; i < NOUT; i++) printf("%a ", (double)pred[k * NOUT + i]); printf("\n"); }
    return 0;
}
"""


class BatchCase(MainCase):
    """batch_loop() of train_hook.c for every batch size up to nb (the size is symbolic)."""

    def go(self, out):
        P = G.Params("rand", seed=H.SEED * 10)
        with G.scratch() as d:
            model = self.build(P)
            try:
                gen = G.generate(model, d, **self.gen)
            except G.GenError as e:
                out.add("generator-error", str(e)[:300], replay={"error": str(e)})
                return
            ct = H.ctype_of(gen)
            nin, nout = int(gen.layers[0].size), int(gen.layers[-1].size)
            try:
                module = G.load_module(d, files=("train_hook.c", "global_vars.c"))
                par = G.load_module(d, files=("train_hook.c", "global_vars.c"), openmp=True)
            except L.CompileError as e:
                self.native_compile(out, d, ct, nin, nout, str(e))
                return
            size = {"float": 4, "double": 8}[ct]
            cty = module.types.get("%struct.inference_t")
            csize = cty._size if cty is not None and cty.kind != "opaque" else 0
            N = self.nb
            w, ex, pred = self.execute(module, nin, nout, size, ct, csize, None)
            out.info.update(steps=ex.steps, functions=sorted(f"C {f}" for f in ex.funcs_run), outputs=N * nout, branches=ex.branches, mode="symbolic batch size")
            n = T.var("n")
            dom = [T.cmp_(">=", n, 0), T.cmp_("<=", n, N), any_of([T.cmp_("==", n, k) for k in range(N + 1)])]
            bad = [(k, t, {"n": min(N, 33)}) for k, t in w.problems]
            # which sample does each call evaluate? the elements of the input are distinct variables
            per = {}
            for c, call in enumerate(w.calls):
                s = next((s for s in range(N) if all(same(a, T.var(f"x[{s * nin + k}]")) for k, a in enumerate(call.inputs))), None)
                if s is None or call.pred is not pred or call.pred_off != s * nout * size:
                    st, env = smt.sat_bool(all_of([call.guard, *dom]))
                    out.info["queries"] = out.info.get("queries", 0) + 1
                    if st != "unsat":
                        bad.append(("wrong-input", f"a call of inference mixes samples (batch of {env and env.get('n')})", env))
                    continue
                per.setdefault(s, []).append(call.guard)
            for s in range(N):
                gs = per.get(s, [])
                want = T.cmp_(">", n, s)
                once = any_of(gs)
                twice = any_of([T.and_(a, b) for i, a in enumerate(gs) for b in gs[:i]])
                wrong = T.or_(twice, T.or_(T.and_(once, T.not_(want)), T.and_(want, T.not_(once))))
                st, env = smt.sat_bool(all_of([wrong, *dom]))
                out.info["queries"] = out.info.get("queries", 0) + 1
                if st == "sat":
                    bad.append(("sample-count", f"sample {s} of a batch of {env.get('n')} is not evaluated exactly once", env))
                elif st != "unsat":
                    out.errors.append("undecided")
                    return
                # a broken oracle would be vacuous: the sample is evaluated for some batch size
                if not bad and smt.sat_bool(all_of([once, *dom]))[0] != "sat":
                    out.errors.append("vacuous")
                    return
            for f in ex.findings.values():
                st, env = smt.sat_bool(all_of([f.cond, *dom]))
                if st != "unsat":
                    bad.append((f.kind, f.detail, env))
            for k in (1, 2, 31, 32, 33, N):
                w2, ex2, _ = self.execute(par, nin, nout, size, ct, csize, k)
                bad += [(a, b, {"n": k}) for a, b in w2.problems]
            out.info["outputs"] = N
            self.confirm(out, d, ct, nin, nout, bad)

    def execute(self, module, nin, nout, size, ct, csize, k):
        N = self.nb
        w = World(nin, nout, size, ct, csize)
        ex = L.Exec(module)
        install(ex, w)
        pred = L.Obj("predictions", N * nout * size, "arg", missing=lambda off, ty: T.var(f"p0[{off}]"))
        inp = L.Obj("nn_input", N * nin * size, "arg")
        for i in range(N * nin):
            inp.cells[i * size] = (T.var(f"x[{i}]"), size, "f")
        n = T.var("n")
        arg = k if k is not None else L.GInt([(T.cmp_("==", n, v), v) for v in range(N + 1)])
        ex.call("batch_loop", [L.Ptr(pred, 0), L.Ptr(inp, 0), arg])
        return w, ex, pred

    def confirm(self, out, d, ct, nin, nout, bad):
        exe, err = self.make(d, ct, nin, nout)
        if exe is None:
            line = next((x for x in err.split("\n") if "error" in x or "multiple" in x or "undefined" in x), err[-200:])
            out.add("compile-error", line.split("/")[-1][:250], replay={"error": err[-1500:]})
            return
        with open(os.path.join(d, "verif_batch.c"), "w") as f:
            f.write(BATCH_DRIVER)
        r = subprocess.run(["gcc", "-w", "-O1", "-fsanitize=address,undefined", f"-DTYPE={ct}", f"-DNIN={nin}", f"-DNOUT={nout}", "verif_stub.c", "verif_batch.c",
                            "train_hook.c", "global_vars.c", "parameters.c", "inference.c", "-Wl,--allow-multiple-definition", "-lm", "-o", "verif_batch"],
                           cwd=d, capture_output=True, text=True)
        if r.returncode:
            out.errors.append("driver: " + r.stderr[-300:])
            return
        sizes = sorted({int(round(b[2].get("n", 1))) for b in bad if b[2]}) if bad else [1, 33, self.nb]
        nat = []
        for k in sizes[:6]:
            calls = os.path.join(d, "verif_calls.txt")
            if os.path.exists(calls):
                os.unlink(calls)
            r = subprocess.run([os.path.join(d, "verif_batch"), str(k)], cwd=d, capture_output=True, text=True, timeout=60,
                               env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0"))
            if r.returncode:
                nat.append(f"batch of {k}: {r.stderr[-200:]}")
                continue
            got = []
            if os.path.exists(calls):
                with open(calls) as f:
                    got = [[float.fromhex(v) for v in ln.split()[1:]] for ln in f]
            order = [next((s for s in range(k) if x == [s * nin + j + 0.5 for j in range(nin)]), None) for x in got]
            if sorted(order, key=lambda v: -1 if v is None else v) != list(range(k)):
                nat.append(f"batch of {k}: samples evaluated {order}")
                continue
            for s, ln in enumerate(r.stdout.split("\n")[:k]):
                if [float.fromhex(v) for v in ln.split()] != [1 + order.index(s) * nout + j for j in range(nout)]:
                    nat.append(f"batch of {k}: prediction {s} is {ln}")
        if bad:
            if nat or bad[0][0] == "race":
                out.add(bad[0][0], bad[0][1], replay={"native": nat[:4], "encoded": [b[:2] for b in bad[:5]]})
            else:
                out.errors.append(f"not reproduced natively: {bad[:2]}")
        elif nat:
            out.errors.append(f"native run disagrees with the encoding: {nat[:2]}")
        else:
            out.info["validated"] = 1
