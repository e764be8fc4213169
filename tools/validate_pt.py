"""Compare the ONNX models paired with the PyTorch programs of C14 with torch itself (development aid)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import acetone_nnet
from checks import c14, pt
n = 0
for c in c14.cases():
    if c.name.startswith("pt:"):
        n += 1
        try:
            if not pt.validate(c):
                print("BAD", c.name)
        except Exception as e:
            print("EXC", c.name, type(e).__name__, str(e)[:150])
print(n, "pairs")
