"""Compare vlib/onnxspec.py with onnxruntime on the models of the checks (development aid: no check uses it)."""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np, onnxruntime as ort
from vlib import onnxspec as S, program as G, harness as H, terms as T
so = ort.SessionOptions(); so.log_severity_level = 4
for pid in sys.argv[1:]:
    mod = importlib.import_module(f"checks.{pid.lower()}")
    n = bad = 0
    seen = set()
    for c in mod.cases():
        n += 1
        P = G.Params("rand", seed=3)
        try:
            m = c.build(P)
        except Exception as e:
            print(pid, c.name, "BUILD", str(e)[:150]); bad += 1; continue
        key = m.SerializeToString()
        if key in seen: continue
        seen.add(key)
        try:
            s = ort.InferenceSession(key, so, providers=["CPUExecutionProvider"])
            rs = np.random.RandomState(1)
            feeds = {}
            for i in s.get_inputs():
                feeds[i.name] = (np.round(rs.uniform(0.1 if "Log" in c.name else -3, 3, i.shape) * 8) / 8).astype(np.float32)
            ref = np.concatenate([o.reshape(-1) for o in s.run(None, feeds)])
        except Exception as e:
            print(pid, c.name, "ORT", str(e)[:200].replace("\n", " ")); continue
        sp = S.Spec(m)
        xs = [T.const(float(v)) for nme, _ in sp.inputs() for v in feeds[nme].reshape(-1)]
        try:
            got = T.evaluate(H.onnx_spec(m, None, xs, False), {})
            got = np.array([float(v) for v in got])
        except Exception as e:
            print(pid, c.name, "SPEC", type(e).__name__, str(e)[:200]); bad += 1; continue
        if got.shape != ref.shape or not np.allclose(got, ref, rtol=1e-4, atol=1e-5):
            print(pid, c.name, "DIFFER", got[:6], ref[:6]); bad += 1
    print(pid, n, "cases", bad, "bad")
