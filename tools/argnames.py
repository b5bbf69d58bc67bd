"""write engine/argnames.json: parameter names by position of the functions of the pinned tree"""
import sys, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + "/engine"]
import mir
mir._ARGS.append({})
import jobs
jobs.load(["A", "B"])
out = {}
for c in ("A", "B"):
    for n, l in jobs.PROGS[c].byname.items():
        f = l[0]
        if len(l) == 1 and f.argc and n.startswith(("spdmlib::", "codec::", "mctp", "pcidoe", "<")) and all(f.names[1:f.argc + 1]):
            out[n] = f.names[1:f.argc + 1]
json.dump(out, open(V + "/engine/argnames.json", "w"), indent=0, sort_keys=True)
print(len(out))
