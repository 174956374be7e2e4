"""Regenerates the lists of DESIGN.md from known_findings.txt, seeded/ and the evidence files."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(V, "DESIGN.md")
s = open(p).read()


def block(name, text):
    global s
    a, b = "<!-- %s -->\n" % name, "<!-- end %s -->" % name
    i, j = s.index(a) + len(a), s.index(b)
    s = s[:i] + text + s[j:]


out = []
for l in open(os.path.join(V, "known_findings.txt")):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m:
        out.append("* %s, repaired by %s: %s\n" % m.groups())
    m = re.match(r"finding: property=(\S+) match=(\S+) (.*)", l)
    if m:
        out.append("* %s, recorded (%s): %s\n" % (m.group(1), m.group(2), m.group(3)))
block("findings", "".join(out))
out = ["| change | property | needs | caught by |\n|---|---|---|---|\n"]
miss = {}
f = os.path.join(V, "seeded", "missed.txt")
if os.path.exists(f):
    miss = dict(l.strip().split(" ", 1) for l in open(f) if l.strip())
for d in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(d))
    i = os.path.basename(os.path.dirname(d))
    out.append("| %s | %s | %s | %s |\n" % (i, m["property"], m["needs"].replace("|", "/"), miss.get(i, m["property"] + " quick")))
block("seeded", "".join(out))
out = ["| property | cases | model states | transitions | task executions | cases on real StarPU | quick, s |\n|---|---|---|---|---|---|---|\n"]
for d in sorted(glob.glob(os.path.join(V, "evidence", "C*.json"))):
    e = json.load(open(d))
    if e["tier"] != "quick":
        continue
    c = e["coverage"]
    out.append("| %s | %d | %d | %d | %d | %d | %.0f |\n" % (e["property"], c["cases"], c["states"], c["transitions"], c["task_executions"], c["traces_validated_against_impl"], e["wall_s"]))
if len(out) > 10:
    block("counts", "".join(out))
open(p, "w").write(s)
