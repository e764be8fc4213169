"""known.py <property> <check output> <regex of cases> <what>: append findings for the matching violations of a saved check output."""
import json, os, re, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
pid, out, rx, what = sys.argv[1:5]
p = os.path.join(R, "known_findings.txt")
have = open(p).read()
n = 0
for ln in open(out):
    m = re.match(r"   (\S+): ([a-z-]+): (.*)", ln)
    if m and re.search(rx, m.group(1)):
        e = json.dumps({"property": pid, "case": m.group(1), "kind": m.group(2), "what": what})
        if e not in have:
            open(p, "a").write(e + "\n"); n += 1
print(n, "added")
