"""show.py REPLAY [N] - print the violations recorded in a replay file."""
import json, sys
d = json.load(open(sys.argv[1]))
n = int(sys.argv[2]) if len(sys.argv) > 2 else 5
f = d["first"]
c = f["case"]
print(d["property"], d["violations"], "violations")
if c and "ops" in c:
    for k, op in enumerate(c["ops"][:f["i"]][-8:]):
        print("   ", json.dumps(op))
for m in [f] + d["others"][:n]:
    print(m["id"], "step", m.get("i"), m["cl"], m["blame"], m.get("kf", ""), str(m["detail"])[:500])
