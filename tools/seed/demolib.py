"""Generate, compile and run the C code of a small model; everything happens in a scratch directory."""
import contextlib, io, logging, os, subprocess, sys, tempfile, warnings
import os
os.environ.setdefault("TF_CPP_MIN_LOG_LEVEL", "3"); os.environ.setdefault("TF_ENABLE_ONEDNN_OPTS", "0"); os.environ.setdefault("CUDA_VISIBLE_DEVICES", "")
sys.path.insert(0, "/repo/src")
warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)
import numpy as np
import onnx
from onnx import TensorProto, helper, numpy_helper


def model(nodes, inputs, inits=(), outputs=("y",), opset=13):
    """nodes: (op, inputs, output, attributes); inputs: (name, shape); inits: (name, array)"""
    ns = [helper.make_node(op, list(i), [o] if isinstance(o, str) else list(o), **a) for op, i, o, a in nodes]
    g = helper.make_graph(ns, "g", [helper.make_tensor_value_info(n, TensorProto.FLOAT, s) for n, s in inputs],
                          [helper.make_tensor_value_info(o, TensorProto.FLOAT, None) for o in outputs],
                          [numpy_helper.from_array(np.asarray(a), n) for n, a in inits])
    m = helper.make_model(g, opset_imports=[helper.make_opsetid("", opset)])
    m.ir_version = 8
    m = onnx.shape_inference.infer_shapes(m)
    onnx.checker.check_model(m)
    return m


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), np.errstate(all="ignore"):
        yield


def generator(m, xs, **kw):
    from acetone_nnet import CodeGenerator
    xs = np.asarray(xs, dtype=np.float32)
    with quiet():
        return CodeGenerator(m, test_dataset=xs, nb_tests=len(xs), function_name="net", **kw)


def c_outputs(gen, n, d, cflags=()):
    with quiet():
        gen.generate_c_files(d)
    src = [f for f in os.listdir(d) if f.endswith(".c")]
    subprocess.run(["gcc", "-O1", "-w", *cflags, *src, "-lm", "-o", "net"], cwd=d, check=True)
    r = subprocess.run(["./net", "out.txt"], cwd=d, capture_output=True, text=True, timeout=100)
    if r.returncode:
        print("the generated program failed:", r.returncode, r.stderr[-300:])
        sys.exit(1)
    rows = [l.split() for l in open(os.path.join(d, "out.txt")) if l.strip()]
    return np.array([[float.fromhex(v) if "x" in v else float(v) for v in r] for r in rows])[:n]


def run_c(m, xs, cflags=(), **kw):
    with tempfile.TemporaryDirectory() as d:
        g = generator(m, xs, **kw)
        return c_outputs(g, len(xs), d, cflags)


def run_python(m, xs, **kw):
    with tempfile.TemporaryDirectory() as d:
        g = generator(m, xs, **kw)
        with quiet():
            return np.asarray(g.compute_inference(d), dtype=float)


def expect(got, want, what, tol=1e-3):
    got = np.asarray(got, dtype=float).reshape(-1)
    want = np.asarray(want, dtype=float).reshape(-1)
    if got.shape != want.shape or not np.allclose(got, want, rtol=tol, atol=tol):
        print("WRONG", what, "\n got ", got[:20], "\n want", want[:20])
        sys.exit(1)
    print("ok", what)
