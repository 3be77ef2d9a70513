"""Pins the coefficient lists of the WET bases flavio, Bern, EOS and formflavor (vc/data/wet_keys.json).
  Run once by hand on a reviewed tree; checks only read the result."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vc import boot; boot.boot()
from vc import bases
from vc.harness import SymProvider
from vc.sym.num import is_zero
from vc.checks import wet_trans as T
from wilson.translate import wet

x = SymProvider()
C, P, V = T.jms(x), T.params(x), x.carr("V", (3, 3))
sec = {k: s for s, d in bases.jms().items() for k in d}
R = {}
for name, f in (("flavio", wet.JMS_to_flavio), ("Bern", wet.JMS_to_Bern), ("EOS", wet.JMS_to_EOS), ("formflavor", wet.JMS_to_FormFlavor)):
    with T.env(x, P, V):
        out = f(C, 4.8)
    R[name] = {}
    for k, v in out.items():
        src = T.linear(v, C)
        ss = {sec[s] for s in src}
        fmin = 5
        for g in (4, 3):
            if fmin == g + 1 and all(bases.jms_keep(g)(s) for s in src):
                fmin = g
        if len(ss) != 1:
            print("sector?", name, k, ss)
        R[name].setdefault(ss.pop() if len(ss) == 1 else "mixed", {})[k] = {"f": fmin, **({"real": True} if is_zero(v - v.conjugate(), 1) else {})}
    print(name, len(out), {g: sum(v["f"] <= g for d in R[name].values() for v in d.values()) for g in (5, 4, 3)})
d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "vc", "data")
with open(os.path.join(d, "wet_keys.json"), "w") as fh:
    json.dump(R, fh, indent=0, sort_keys=True)
