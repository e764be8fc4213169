"""Generate a C program with the real CodeGenerator, execute it symbolically, replay it concretely."""
import copy
import contextlib
import io
import logging
import os
import re
import shutil
import struct
import subprocess
import sys
import tempfile
import traceback
import warnings
from fractions import Fraction

import numpy as np

from . import llvmexec as L
from . import terms as T

HERE = os.path.dirname(os.path.abspath(__file__))
SCRATCH = os.environ.get("VERIF_SCRATCH") or tempfile.gettempdir()


class GenError(Exception):
    """The generator raised."""


class Params:
    """Supplies parameter values to model builders.

    mode 'tag':   every element gets a unique float32 value, recognised again in the generated C
    mode 'rand':  small dyadic random values
    mode 'given': values from a dictionary (counterexample), 'rand' otherwise"""

    def __init__(self, mode, seed=0, given=None):
        self.mode = mode
        self.given = given or {}
        self.seed0 = seed + 77
        self.rng = np.random.default_rng(self.seed0)
        self.tags = {}      # value -> (name, flat index)
        self.shapes = {}
        self.pos = set()
        self.n = 0

    def __call__(self, name, *shape, pos=False, dtype=np.float32, lo=-2.0, hi=2.0):
        shape = tuple(shape)
        size = int(np.prod(shape, dtype=int))
        self.shapes[name] = shape
        if self.mode == "tag":
            vals = []
            for i in range(size):
                v = 64 + (2 * self.n + 1) / 1024
                self.n += 1
                if v >= 128:
                    v = 128 + (2 * (self.n - 32768) + 1) / 512
                self.tags[v] = (name, i)
                vals.append(v)
        else:
            lo_, hi_ = (0.25, 2.0) if pos else (lo, hi)
            vals = list(np.round(self.rng.uniform(lo_, hi_, size) * 16) / 16)
            vals = [v if v != 0 else 0.5 for v in vals]
            for i in range(size):
                k = f"{name}[{i}]"
                if k in self.given:
                    vals[i] = self.given[k]
        if pos:
            self.pos |= {f"{name}[{i}]" for i in range(size)}
        return np.array(vals, dtype=dtype).reshape(shape)

    def symbolic(self):
        """name -> object array of variables, for the specification."""
        out = {}
        for name, shape in self.shapes.items():
            a = np.empty(shape, dtype=object)
            f = a.reshape(-1)
            for i in range(f.size):
                f[i] = T.var(f"{name}[{i}]")
            out[name] = a
        return out


@contextlib.contextmanager
def quiet():
    logging.disable(logging.CRITICAL)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            with np.errstate(all="ignore"):
                yield


def generate(model, outdir, **kw):
    """Run the real code generator."""
    from acetone_nnet import CodeGenerator
    with quiet():
        try:
            # the importer completes the model in place
            file = model.store(outdir) if hasattr(model, "store") else copy.deepcopy(model)
            gen = CodeGenerator(file, **kw)
            gen.generate_c_files(outdir)
            binary_stub(gen, outdir)
        except Exception as e:      # noqa: BLE001
            tb = traceback.extract_tb(sys.exc_info()[2])
            last = [f for f in tb if "acetone_nnet" in f.filename]
            where = f"{os.path.basename(last[-1].filename)}:{last[-1].name}" if last else "?"
            raise GenError(f"{type(e).__name__}: {str(e)[:200]} at {where}") from e
    return gen


def binary_stub(gen, d):
    """parameters_bin.c: the objects that the Makefile's symbols make of parameters.dat."""
    dataset_stub(d)
    p = os.path.join(d, "parameters.dat")
    if not getattr(gen, "bin_dataset", False) or not os.path.exists(p):
        return
    with open(p, "rb") as f:
        data = f.read()
    with open(os.path.join(d, "Makefile")) as f:
        at = {m.group(1): int(m.group(2)) for m in re.finditer(r"--add-symbol (\w+)=\.rodata:(\d+)", f.read())}
    with open(os.path.join(d, "inference.h")) as f:
        decl = re.findall(r"extern const ([\w ]+?) (\w+)(?:\[(\d+)\])?;", f.read())
    kinds = {"float": ("<f", 4), "double": ("<d", 8), "int": ("<i", 4), "long int": ("<q", 8), "short": ("<h", 2)}
    out = ['#include "inference.h"']
    for ty, name, n in decl:
        if name in at and ty in kinds:
            k, sz = kinds[ty]
            n = int(n or 1)
            raw = data[at[name]:at[name] + n * sz].ljust(n * sz, b"\0")
            vals = [struct.unpack(k, raw[i * sz:(i + 1) * sz])[0] for i in range(n)]
            txt = [str(v) if isinstance(v, int) else v.hex() if v - v == 0 else ("__builtin_nan(\"\")" if v != v else ("-" if v < 0 else "") + "__builtin_inf()") for v in vals]
            out.append(f"const {ty} {name}[{n}] = {{{', '.join(txt)}}};")
    with open(os.path.join(d, "parameters_bin.c"), "w") as f:
        f.write("\n".join(out) + "\n")


def dataset_stub(d):
    """test_dataset_bin.c: the samples that test_dataset.dat holds."""
    p, h = os.path.join(d, "test_dataset.dat"), os.path.join(d, "test_dataset.h")
    if not os.path.exists(p) or not os.path.exists(h):
        return
    with open(p, "rb") as f:
        data = f.read()
    with open(h) as f:
        txt = f.read()
    m = re.search(r"extern (\w+) nn_test_inputs", txt)
    n = [int(v) for v in re.findall(r"#define nn?b?_(?:samples|input_size) (\d+)", txt)]
    if m is None or len(n) != 2 or m.group(1) not in ("float", "double"):
        return
    k, sz = ("<f", 4) if m.group(1) == "float" else ("<d", 8)
    raw = data.ljust(n[0] * n[1] * sz, b"\0")
    vals = [struct.unpack(k, raw[i * sz:(i + 1) * sz])[0] for i in range(n[0] * n[1])]
    lit = [v.hex() if v - v == 0 else "0" for v in vals]
    rows = ["{" + ", ".join(lit[i * n[1]:(i + 1) * n[1]]) + "}" for i in range(n[0])]
    with open(os.path.join(d, "test_dataset_bin.c"), "w") as f:
        f.write(f'#include "test_dataset.h"\n{m.group(1)} nn_test_inputs[nb_samples][nn_input_size] = {{{", ".join(rows)}}};\n')


def load_module(d, files=("inference.c", "global_vars.c", "parameters.c"), extra=(), openmp=False):
    m = L.Module()
    for f in files:
        p = os.path.join(d, f)
        if os.path.exists(p) and os.path.getsize(p) >= 0:
            m.add_text(L.compile_ll(f, d, extra, openmp=openmp), unit=f)
    return m


class Run:
    """Result of one symbolic execution of inference()."""


def run_inference(module, n_in, n_out, *, lift=None, ctype="float", inputs=None, fname="inference", ctx_init=None, calls=1,
                  ext=None, share_ctx=True, setup=None):
    """Execute inference(ctx, prediction, nn_input) once (or several times) symbolically."""
    f = module.functions.get(fname)
    if f is None:
        raise L.Fault("no function " + fname)
    sz = {"float": 4, "double": 8}[ctype]
    ex = L.Exec(module, lift_const=lift)
    if ext:
        ex.ext.update(ext)
    ctx_ty = module.types.get("%struct.inference_t")
    if ctx_ty is None or ctx_ty.kind == "opaque":
        # no buffers used at all: size from the Context array if any
        size = 16
        g = module.globals.get("Context")
        if g:
            size = g[0]._size // max(1, g[0].n)
    else:
        size = ctx_ty._size

    def stale(off, ty):
        if ty.kind == "float":
            return T.var(f"stale[{off}]")
        return L.UNDEF

    def outside(off, ty):
        return T.var(f"pred0[{off}]") if ty.kind == "float" else L.UNDEF

    ctx = L.Obj("ctx", size, "arg", missing=stale)
    pred = L.Obj("prediction", sz * n_out, "arg", missing=outside)
    inp = L.Obj("nn_input", sz * n_in, "arg")
    for i in range(n_in):
        inp.cells[i * sz] = (inputs[i] if inputs is not None else T.var(f"x[{i}]"), sz, "f")
    r = Run()
    r.before = {k: v[0] for k, v in inp.cells.items()}
    if setup:
        setup(ex)
    r.ret = ex.call(fname, [L.Ptr(ctx, 0), L.Ptr(pred, 0), L.Ptr(inp, 0)])
    r.ex = ex
    r.ctx, r.pred_obj, r.inp = ctx, pred, inp
    r.pred = []
    r.unwritten = []
    for i in range(n_out):
        c = pred.cells.get(i * sz)
        if c is None or i * sz not in pred.written:
            r.unwritten.append(i)
            r.pred.append(T.var(f"pred0[{i * sz}]"))
        else:
            r.pred.append(c[0] if c[0] is not L.UNDEF else T.fresh("undef"))
    r.input_changed = [k // sz for k, v in r.before.items() if inp.cells[k][0] is not v]
    r.global_writes = sorted(n for n, o in ex.objs.items() if o.kind == "global" and o.written)
    r.findings = list(ex.findings.values())
    return r


DRIVER = r"""
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "inference.h"
int main(int argc, char **argv)
{
    int fill = atoi(argv[1]);
    int calls = atoi(argv[2]);
    TYPE *in = malloc(sizeof(TYPE) * NIN);
    TYPE *pred = malloc(sizeof(TYPE) * NOUT);
    inference_t *ctx = aligned_alloc(65536, (sizeof(inference_t) + 65535) / 65536 * 65536);
    for (int c = 0; c < calls; c++) {
        FILE *f = fopen(argv[3 + c], "rb");
        if (fread(in, sizeof(TYPE), NIN, f) != NIN) return 3;
        fclose(f);
        if (c == 0) { if (fill >= 0) { TYPE v = (TYPE)fill; for (size_t k = 0; k < sizeof(inference_t) / sizeof(TYPE); k++) ((TYPE *)ctx)[k] = v; } }
        if (fill >= 0) for (int i = 0; i < NOUT; i++) pred[i] = (TYPE)(fill + 12345);
        TYPE *copy = malloc(sizeof(TYPE) * NIN);
        memcpy(copy, in, sizeof(TYPE) * NIN);
        inference(ctx, pred, in);
        for (int i = 0; i < NOUT; i++) printf("%a ", (double)pred[i]);
        printf("\nINPUT %s\n", memcmp(copy, in, sizeof(TYPE) * NIN) ? "changed" : "same");
    }
    return 0;
}
"""

DRIVER_INT = DRIVER.replace('printf("%a ", (double)pred[i])', 'printf("%lld ", (long long)pred[i])')


def build_native(d, n_in, n_out, ctype="float", sanitize=None, files=("inference.c", "global_vars.c", "parameters.c"), extra=(), openmp=False):
    drv = os.path.join(d, "verif_driver.c")
    with open(drv, "w") as f:
        f.write(DRIVER if ctype in ("float", "double") else DRIVER_INT)
    exe = os.path.join(d, f"verif_driver_{sanitize or 'plain'}")
    src = [x for x in files if os.path.exists(os.path.join(d, x))]
    cc = ["gcc", "-O1"]
    if sanitize == "ub":
        cc = ["gcc", "-O1", "-g", "-fsanitize=address,undefined,bounds-strict", "-fno-sanitize-recover=all", "-fstrict-flex-arrays=3"]
    elif sanitize == "mem":
        cc = ["clang-18", "-O0", "-g", "-fsanitize=memory", "-I", os.path.join(HERE, "include")]
    cmd = [*cc, "-w", "-ffp-contract=off", f"-DTYPE={ctype}", f"-DNIN={n_in}", f"-DNOUT={n_out}", *extra, "verif_driver.c", *src, "-lm", "-o", exe]
    r = subprocess.run(cmd, cwd=d, capture_output=True, text=True)
    if r.returncode:
        raise L.CompileError(r.stderr[-3000:])
    return exe


def run_native(exe, inputs, ctype="float", fill=0, timeout=60):
    """inputs: list of flat arrays; returns (list of predictions, list of input-changed flags, stderr, rc)."""
    d = os.path.dirname(exe)
    dt = {"float": np.float32, "double": np.float64, "short": np.int16, "char": np.int8, "int": np.int32}[ctype]
    names = []
    for k, x in enumerate(inputs):
        p = os.path.join(d, f"in_{k}.bin")
        np.asarray(x, dtype=dt).tofile(p)
        names.append(p)
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0", MSAN_OPTIONS="exit_code=77")
    r = subprocess.run([exe, str(fill), str(len(names)), *names], capture_output=True, text=True, timeout=timeout, env=env, errors="replace")
    preds, changed = [], []
    for ln in r.stdout.split("\n"):
        if ln.startswith("INPUT"):
            changed.append(ln.split()[1] == "changed")
        elif ln.strip() and len(preds) == len(changed):
            conv = float.fromhex if ctype in ("float", "double") else int
            try:
                preds.append([conv(v) for v in ln.split()])
            except ValueError:
                pass
    return preds, changed, r.stderr, r.returncode


def tag_lifter(params, want=True):
    """Callback mapping tagged constants of the C program back to symbolic weights; records what it found."""
    found = {}

    def lift(gname, idx, v):
        key = params.tags.get(v)
        if key is None:
            return None
        found[key] = found.get(key, 0) + 1
        return T.var(f"{key[0]}[{key[1]}]")
    return lift, found


@contextlib.contextmanager
def scratch(prefix="v"):
    d = tempfile.mkdtemp(prefix="verif_" + prefix, dir=SCRATCH)
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)
