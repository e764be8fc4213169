"""(Re)write the 'fixed' entries of known_findings.txt from the fix commits of /repo."""
import json, os, subprocess, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [  # subject fragment -> property
    ("blocked weight layout", "C02"), ("nt, tn and tt convolution gemms", "C02"), ("dilation rate in the gemm convolutions", "C01"),
    ("pooling window by the padding", "C03"), ("channels-last pooling", "C21"), ("alpha and no beta", "C04"), ("without its C operand", "C04"),
    ("broadcast the Gemm bias", "C04"), ("unbatched right operand", "C04"), ("constants of Sub", "C05"), ("import Mean nodes", "C05"),
    ("Tile, Gather and Reduce", "C07"), ("reduce the right elements", "C06"), ("wrap and reflect", "C08"), ("scalar index", "C07"),
    ("axes operand of Pad", "C08"), ("align_corners", "C09"), ("linear resize of a vector", "C09"), ("nearest element inside", "C09"),
    ("half_pixel_symmetric", "C09"), ("axes of Resize", "C09"), ("missing bounds of Clip", "C10"), ("into the input layer", "C10"),
    ("axes ONNX specifies in Softmax", "C10"),
]
EXTRA = os.path.join(R, "tools", "fixed_map.json")
if os.path.exists(EXTRA):
    MAP += [tuple(x) for x in json.load(open(EXTRA))]
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
out = []
for ln in log:
    h, s = ln.split(" ", 1)
    if not s.startswith("fix:"):
        continue
    pid = next((p for f, p in MAP if f in s), None)
    if pid is None:
        sys.exit("no property for: " + s)
    out.append(f"fixed: property={pid} {h} {s[4:].strip()}")
p = os.path.join(R, "known_findings.txt")
keep = []
if os.path.exists(p):
    keep = [ln for ln in open(p).read().splitlines() if ln.strip() and not ln.startswith("fixed:") and '"fixed"' not in ln]
with open(p, "w") as f:
    for o in out:
        f.write(o + "\n")
    for ln in keep:
        f.write(ln + "\n")
print(len(out), "fixed", len(keep), "findings")
