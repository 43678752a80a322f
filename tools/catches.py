"""usage: catches.py LOG...   adds 'seed property rc=1' lines of the logs of catch runs to tools/design/catches.json"""
import json, os, sys
D = os.path.join(os.path.dirname(os.path.abspath(__file__)), "design", "catches.json")
c = json.load(open(D)) if os.path.exists(D) else {}
for f in sys.argv[1:]:
    for l in open(f):
        w = l.split()
        if len(w) > 2 and w[2].startswith("rc="):
            s = set(c.get(w[0], []))
            (s.add if w[2] == "rc=1" else s.discard)(w[1])
            c[w[0]] = sorted(s)
seeded = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
c = {k: v for k, v in sorted(c.items()) if os.path.isdir(os.path.join(seeded, k))}
json.dump(c, open(D, "w"), indent=0)
print(len(c), [k for k in sorted(os.listdir(seeded)) if not c.get(k)])
