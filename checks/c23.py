"""Debug mode and the generation options: the same predictions, and dumps that are the layers' outputs."""
import os
import random
import re
import tempfile

import numpy as np

from checks import c02, c11, c17, dags, fe, mixed, progs
from checks.ops import single
from vlib import harness as H
from vlib import llvmexec as L
from vlib import mainprog as MP
from vlib import onnxspec as S
from vlib import program as G
from vlib import pyexec as PX
from vlib import smt
from vlib import terms as T
from vlib.harness import thorough

LEVEL = "bounded"
BOUNDS = ("small networks of each front end (single operators, branching and optimised networks, both layouts) generated with every debug mode, hexadecimal or decimal literals, "
          "binary data, page sizes 16 to 65536, external input, verbose, and pairs of them; all inputs and parameters symbolic; one inference per dump")
ASSUMPTIONS = ["fopen succeeds; fprintf prints its directives", "the time mode's MMU.h and PMH.h, which the package does not ship, declare the counter functions it calls",
               "a dump read back is the one of a single inference (the program's samples run concurrently and share the file)"]
STUBS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "stubs")
TIMERS = ("select_evt_counter", "event_track", "enable_evt_counter", "reset_evt_counter", "read_evt_counter")
FILES = ("inference.c", "global_vars.c", "parameters.c", "parameters_bin.c", "target.c")


class Dump:
    """What the program printed in its debug file."""

    def __init__(self):
        self.open, self.path, self.parts, self.bad, self.closed, self.opened = False, None, [], [], 0, 0

    def hooks(self):
        def fopen(ex, a, tys, rty, n):
            self.open, self.parts, self.path = True, [], L.cstring(a[0])
            self.opened += 1
            return L.Ptr(L.Obj("FILE", 8, "heap"), 0)

        def fclose(ex, a, tys, rty, n):
            self.open = False
            self.closed += 1
            return 0

        def fprintf(ex, a, tys, rty, n):
            fmt = L.cstring(a[1])
            vals = list(a[2:])
            if ex.pathcond:
                raise T.Unsupported("I/O under a symbolic condition")
            if not self.open:
                self.bad.append("printed to a file that is not open")
            at = 0
            for m in re.finditer(r"%%|%[-+ #0]*\d*(?:\.(\d+))?(l{0,2}|h{0,2})([a-z])", fmt):
                self.parts.append(fmt[at:m.start()])
                at = m.end()
                if m.group() == "%%":
                    self.parts.append("%")
                    continue
                v = vals.pop(0)
                self.parts.append((m.group(3), m.group(1), v, tys[len(a) - len(vals) - 1]))
            self.parts.append(fmt[at:])
            return 1
        h = {"fopen": fopen, "fclose": fclose, "fprintf": fprintf, "printf": lambda *a: 0, "puts": lambda *a: 0, "putchar": lambda *a: 0,
             "fputc": lambda ex, a, tys, rty, n: (self.parts.append(chr(a[0])), a[0])[1],
             "fwrite": lambda ex, a, tys, rty, n: (self.parts.append(L.cstring(a[0])), a[2])[1]}
        for n in TIMERS:
            h[n] = lambda *a: 0
        return h

    def text(self, ct):
        """(text with a token per value, values, problems)"""
        out, vals, bad = "", [], list(self.bad)
        need = {"float": 9, "double": 17}
        for p in self.parts:
            if isinstance(p, str):
                out += p
                continue
            conv, prec, v, _ = p
            isnum = isinstance(v, (T.Term, float))
            if conv in "di":
                if isnum:
                    bad.append(f"directive %{conv} prints a {ct}")
            elif conv in "gef":
                if not isnum and not isinstance(v, int):
                    bad.append(f"directive %{conv} prints {v!r}")
                if conv == "f" or prec is None or int(prec) + (conv == "e") < need.get(ct, 0):
                    bad.append(f"directive %{'.' + prec if prec else ''}{conv} loses digits of a {ct}")
                if ct not in need:
                    bad.append(f"directive %{conv} prints a {ct}")
            elif conv == "a":
                pass
            else:
                bad.append(f"directive %{conv}")
            out += str(len(vals))
            vals.append(v)
        return out, vals, sorted(set(bad))


def chain(model, name):
    """The tensors a layer made of this node may compute: its own, or that of the operators fused into it."""
    g = model.graph
    node = next((n for n in g.node if n.name == name), None)
    out = []
    while node is not None:
        out.append(node.output[0])
        users = [n for n in g.node if node.output[0] in n.input]
        node = users[0] if len(users) == 1 else None
    return out


class DebugCase(H.Case):
    def hooks(self):
        self.dump = Dump()
        return self.dump.hooks()

    def run(self):
        mode = self.gen.get("debug_mode")
        self.opts.setdefault("files", FILES)
        if mode == "time":
            self.opts.setdefault("cflags", ("-I" + STUBS,))
            self.memory = False                  # the timers are global by design
        out = super().run()
        if any(i["kind"] in ("compile-error", "generator-error") for i in out.items) and self.gen and self.plain_fails():
            out.info["refused"] = "the program without the option does not compile either"
            out.items = []
        return out

    def plain_fails(self):
        """The same program without this check's options fails too: not a matter of the options."""
        base = {k: v for k, v in self.gen.items() if k not in ("debug_mode", "to_hex", "bin_dataset", "target_page_size", "verbose", "external_input")}
        c = H.Case(self.name, self.build, base, self.spec, tags=self.tags, memory=False, opts={"files": FILES})
        c.run = None
        return any(i["kind"] in ("compile-error", "generator-error") for i in H.check_case(c).items)

    def after(self, out, mode, P, d, model, gen, xs, pos, files):
        if self.gen.get("debug_mode") not in ("onnx", "keras"):
            return True
        dump = self.dump
        ct = H.ctype_of(gen)
        bad = []
        if dump.opened != 1 or dump.closed != dump.opened:
            bad.append(f"the debug file is opened {dump.opened} times and closed {dump.closed} times by one inference")
        if os.path.realpath(dump.path or "") != os.path.realpath(os.path.join(d, "debug_file.txt")):
            bad.append(f"the debug file is {dump.path}")
        text, vals, b2 = dump.text(ct)
        bad += b2
        for b in bad:
            out.add("dump", b, replay=native_dump(self, P, mode, {}, gen, ct, files))
        if bad:
            return True
        with G.quiet():
            from acetone_nnet.generator.layers import ConstantLayer
        want_layers = [l for l in gen.layers[1:] if not isinstance(l, ConstantLayer)]
        if self.gen["debug_mode"] == "keras":          # the reference gives the activation of a dense layer with it
            want_layers = [l for k, l in enumerate(want_layers) if not (k + 1 < len(want_layers) and want_layers[k + 1].name == "Softmax")]
        with tempfile.TemporaryDirectory(prefix="vc23") as t:
            with open(t + "/debug.txt", "w") as f:
                f.write(text)
            try:
                from acetone_nnet.debug import debug_tools
                arrs, targets = debug_tools.extract_outputs_c(t + "/debug.txt", gen.data_type, len(want_layers))
            except Exception as e:      # noqa: BLE001
                out.add("dump", f"the dump cannot be read back: {type(e).__name__}: {e}", replay={"text": text[:500]})
                return True
        # the tokens count the printed values, of which the first are in the headers
        got = {}
        for a, tg in zip(arrs, targets):
            got[int(vals[int(tg.split(" ")[-1])]) if False else tg] = [T.lift(vals[int(round(float(k)))]) for k in np.asarray(a).reshape(-1)]
        names = sorted(f"{l.name} {l.idx}" for l in want_layers)
        if sorted(got) != names:
            out.add("dump", f"layers dumped: {sorted(got)}, expected {names}", replay={"text": text[:500]})
            return True
        return self.values(out, mode, P, d, model, gen, xs, pos, files, want_layers, got, ct)

    def values(self, out, mode, P, d, model, gen, xs, pos, files, layers, got, ct):
        base = [T.cmp_(">", T.var(n), 0) for n in sorted(pos)] if mode == "tag" else []
        if mode == "tag":
            base += [T.cmp_(">", T.var(b), T.var(a)) for a, b in getattr(P, "less", ())]
        ctx = smt.Ctx()
        ref = self.python(out, mode, P, model, xs)
        tensors = self.tensors(mode, P, model, xs)
        checked = 0
        for l in layers:
            k = f"{l.name} {l.idx}"
            wants = [("the model", w) for w in self.expected(model, l, tensors)]
            if ref is not None:
                if k not in ref:
                    out.add("dump", f"the reference inference gives no output of {k}", replay={"targets": sorted(ref)})
                    return True
                if not self.agree(out, got[k], ref[k], base, pos, ctx, mode):
                    if self.undecided:
                        if mode == "tag":
                            return False
                        out.errors.append(f"undecided dump of {k}")
                        return True
                    return self.report(out, P, mode, gen, ct, files, model, k, "the reference inference")
            checked += 1
            if not wants:
                continue
            und = False
            for _, w in wants:
                if len(w) == len(got[k]) and self.agree(out, got[k], w, base, pos, ctx, mode):
                    break
                und = und or self.undecided
            else:
                if und:
                    if mode == "tag":
                        return False
                    out.errors.append(f"undecided dump of {k}")
                    return True
                return self.report(out, P, mode, gen, ct, files, model, k, "the model")
        out.info["dumped_layers"] = checked
        return True

    undecided = False
    env = None

    def agree(self, out, a, b, base, pos, ctx, mode):
        self.undecided = False
        self.env = {}
        if len(a) != len(b):
            return False
        for u, v in zip(a, b):
            if u is v:
                continue
            q = smt.decide_equal(u, T.lift(v), extra=base, pos=pos, ctx=ctx, timeout=10000)
            out.info["queries"] = out.info.get("queries", 0) + 1
            if q.status == "unknown":
                self.undecided = True
                return False
            if q.status == "differ":
                self.env = q.env or {}
                return False
        return True

    def tensors(self, mode, P, model, xs):
        if self.spec is not None:
            return None
        sp = S.Spec(model, P.symbolic() if mode == "tag" else None)
        k, feeds = 0, {}
        for name, shape in sp.inputs():
            n = int(np.prod(shape, dtype=int))
            a = np.empty(n, dtype=object)
            a[:] = xs[k:k + n]
            feeds[name] = a.reshape(shape)
            k += n
        sp.run(feeds)
        return sp.vals

    def expected(self, model, layer, tensors):
        if tensors is None:
            return []
        return [[S.lift(v) for v in np.asarray(tensors[t]).reshape(-1)] for t in chain(model, getattr(layer, "original_name", None))]

    def python(self, out, mode, P, model, xs):
        """The debug output of the reference inference, on symbols."""
        gen = c11.make(self, model, 1, external_input=False)
        if mode == "tag" and len(PX.lift_layers(gen, P)) < P.n:
            return None
        base = []

        def once():
            data = PX.sym_array(xs, (1, 1, len(xs)))
            with PX.symbolic_numpy(), G.quiet():
                return PX.inference(gen, data)[0]
        try:
            PX.restore_functions()
            PX.convert_functions()
            paths = PX.Explorer(base=base).run(once)
        finally:
            PX.restore_functions()
        if len(paths) != 1 or isinstance(paths[0][1], Exception):
            return None                              # reported by the check on the reference inference
        from acetone_nnet.debug import debug_tools
        arrs, targets = paths[0][1]
        picked = debug_tools.extract_outputs_python((arrs, targets), [int(t.split(" ")[-1]) for t in targets])
        if sorted(picked[1]) != sorted(targets):
            out.add("debug tools", f"extract_outputs_python returns {picked[1]} of {targets}", replay={"targets": targets})
        return {t: list(PX.plain(np.asarray(a, dtype=object)).reshape(-1)) for a, t in zip(*picked)}

    def report(self, out, P, mode, gen, ct, files, model, k, who):
        rep = native_dump(self, P, mode, self.env, gen, ct, files, k)
        if rep.get("confirmed"):
            out.add("dump", f"the values dumped for {k} are not those of {who}: {rep['detail']}", replay=rep)
            return True
        if mode == "tag":
            return False
        out.errors.append(f"dump of {k} differs from {who}: does not reproduce: {str(rep)[:300]}")
        return True


def native_dump(case, P, mode, env, gen, ct, files, key=None):
    """Run the compiled program and read its dump with the package's own tool."""
    npdt = {"float": np.float32, "double": np.float64}.get(ct, np.float32)
    with G.scratch("n") as d:
        Q = G.Params("rand", seed=H.SEED * 10, given={k: float(npdt(v)) for k, v in (env or {}).items()}) if mode == "tag" else G.Params("rand")
        if mode != "tag":
            Q.rng = np.random.default_rng(P.seed0)
        model = case.build(Q)
        gen = G.generate(model, d, **case.gen)
        n = int(gen.layers[0].size)
        x = [float(npdt((env or {}).get(f"x[{i}]", 0.25 * ((7 * i) % 11) - 1))) for i in range(n)]
        exe = G.build_native(d, n, int(gen.layers[-1].size), ct, files=files)
        preds, _, err, rc = G.run_native(exe, [x], ct)
        rep = {"input": x, "confirmed": False, "rc": rc}
        p = os.path.join(d, "debug_file.txt")
        if not os.path.exists(p):
            return {**rep, "confirmed": True, "detail": "no debug file"}
        rep["text"] = open(p).read()[:600]
        if key is None:
            return rep
        from acetone_nnet.debug import debug_tools
        arrs, targets = debug_tools.extract_outputs_c(p, gen.data_type, 10 ** 6)
        c = np.asarray(dict(zip(targets, arrs))[key], dtype=float)
        with G.quiet():
            g2 = c11.make(case, model, 1, external_input=False)
            g2.test_dataset = np.array(x, dtype=npdt).reshape(1, 1, n)
            o, t = g2.compute_inference(d)
        py = np.asarray(dict(zip(t, o))[key], dtype=float).reshape(-1)
        refs = [py]
        tens = case.tensors("rand", Q, model, [T.const(T.Fraction(v)) for v in x])
        layer = next(l for l in gen.layers if f"{l.name} {l.idx}" == key)
        ws = [np.array(T.evaluate([T.lift(v) for v in w], {})) for w in case.expected(model, layer, tens)]
        far = lambda a, b: a.shape != b.shape or not np.allclose(a, b, rtol=1e-4, atol=1e-4, equal_nan=True)
        if far(c, py):
            rep.update(confirmed=True, detail=f"C dumps {c[:4]}, the reference gives {py[:4]}")
        elif ws and all(far(c, w) for w in ws):
            rep.update(confirmed=True, detail=f"C dumps {c[:4]}, the model gives {ws[0][:4]}")
        return rep


def act_net(m):
    x = m.op("Conv", [m.inp(1, 1, 3, 3), m.par("W", 2, 1, 2, 2), m.par("B", 2)], kernel_shape=[2, 2])
    x = m.op("LeakyRelu", [x], alpha=0.25)
    x = m.op("MaxPool", [x], kernel_shape=[2, 2], strides=[1, 1])
    x = m.op("Softmax", [x], axis=1)
    return m.op("Sub", [x, m.par("D", 1, 2, 1, 1)])


def long_net(m):
    x = m.inp(1, 3)
    for k in range(12):
        x = m.op(("Relu", "Add", "Mul")[k % 3], [x] if k % 3 == 0 else [x, m.par(f"D{k}", 1, 3)])
    return m.op("Gemm", [x, m.par("W", 3, 2)])


NETS = {**c17.NETS, "act": single(act_net), "long": single(long_net)}
OPTIONS = {
    "onnx": dict(debug_mode="onnx"), "keras": dict(debug_mode="keras"), "time": dict(debug_mode="time"), "dec": dict(to_hex=False), "bin": dict(bin_dataset=True),
    "page16": dict(target_page_size=16), "page65536": dict(target_page_size=65536), "ext": dict(external_input=True), "verbose": dict(verbose=True),
    "opt": dict(optimization=True), "name": dict(function_name="other_name"),
}


def cases():
    out = []
    js = [c for c in fe.cases() if c.name.startswith("json") and c.expect == "ok"]
    opts = dict(OPTIONS)
    keys = list(OPTIONS)
    for i, a in enumerate(keys):
        for b in keys[i + 1:]:
            if "debug_mode" in OPTIONS[a] and "debug_mode" in OPTIONS[b]:
                continue
            opts[f"{a}+{b}"] = {**OPTIONS[a], **OPTIONS[b]}
    for o, g in opts.items():
        for k, b in NETS.items():
            if "+" in o and k not in ("conv", "long", "double") and not thorough():
                continue
            out.append(DebugCase(f"{o}:{k}", b, g, spec=fe.spec if k.startswith("double") else None))
    for c in js:
        for mode in ("keras", "onnx") if thorough() else ("keras",):
            out.append(DebugCase(f"{mode}:{c.name}", c.build, {**c.gen, "debug_mode": mode}, spec=c.spec, tags=c.tags))
    last = dict(gen_data_format="channels_last")
    for c in c02.cases():
        if c.gen.get("gen_data_format") == "channels_last" and c.expect == "ok" and not c.opts:
            out.append(DebugCase(f"onnx:{c.name}", c.build, {**c.gen, "debug_mode": "onnx"}, tags=c.tags))
    for c in js:
        if re.match(r"json:[lf]:(conv|Max|Ave|lenet|resnet)", c.name):
            v = dict(versions={"Conv2D": "direct_block", "MaxPooling2D": "channels_last", "AveragePooling2D": "channels_last"}, **last)
            out.append(DebugCase(f"keras:last:{c.name}", c.build, {**c.gen, **v, "debug_mode": "keras"}, spec=c.spec, tags=c.tags, expect="refuse-or-ok"))
    every = [c for c in progs.every() if c.spec is None and c.expect == "ok" and not c.opts]
    for c in every if thorough() else progs.sample(every, 150, 23):
        out.append(DebugCase(f"onnx:{c.name}", c.build, {**c.gen, "debug_mode": "onnx"}, tags=c.tags))
    for n in (3, 4, 5, 6, 7) if not thorough() else range(3, 11):
        rng = random.Random(f"23/{n}")
        for i in range(6 if not thorough() else 30):
            sh = dags.rand_shape(n, rng)
            for opt in (False, True):
                kw = dict(unary=dags.FUSE_U, binary=dags.FUSE_B) if opt else {}
                desc, b = dags.build(sh, random.Random(f"23/{n}/{i}"), **kw)
                out.append(DebugCase(f"onnx:{'opt:' if opt else ''}{desc}", b, {"debug_mode": "onnx", "optimization": opt}))
    return out
