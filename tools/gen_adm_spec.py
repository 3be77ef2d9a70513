"""Records the WET anomalous dimensions of the current /repo tree as polynomials in the masses (run once, on the pinned revision)."""
import sys, json, gzip, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vc import boot
boot.boot()
from vc import harness
from vc.sym.num import Num, ATOMS
from vc.checks import wet_run as w
out = {}
for cls in w.BY_CLASS:
    if cls == "inv":
        continue
    for t in "se":
        for f in w.EFTS:
            x = harness.SymProvider()
            A = w.sparse(x, t, cls, f, w.masses(x))
            rows = []
            for (i, j), v in sorted(A.items()):
                if isinstance(v, Num):
                    terms = [[c.real, c.imag, {ATOMS.name[a]: e for a, e in k}] for k, c in v.t.items()]
                else:
                    v = complex(v)
                    terms = [[v.real, v.imag, {}]]
                rows.append([int(i), int(j), terms])
            out[f"{t} {cls} {f}"] = rows
p = os.path.join(V, "vc", "data", "adm_spec.json.gz")
with open(p, "wb") as fh:
    fh.write(gzip.compress(json.dumps(out).encode(), mtime=0))
print(os.path.getsize(p), {n for r in out.values() for q in r for t in q[2] for n in t[2]})
