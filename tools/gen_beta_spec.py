"""writes vc/data/beta_spec.json: the normal form of the SMEFT beta functions at the pinned commit"""
import json, os
from vc import boot
boot.boot()
from vc import tens
from vc.tens import TensProvider
from vc.sym import text, shim
from vc.sym.num import ATOMS, as_num
from fractions import Fraction
from vc.checks import smeft_spec as S
import wilson.run.smeft.beta as beta
x = TensProvider()
C = S.tensors(x, sym=True)
with x.lib():
    b = beta.beta(C)
def coef(c):
    def one(v):
        f = Fraction(v).limit_denominator(5000)
        assert abs(float(f) - v) < 1e-9*max(1,abs(v)), v
        return float(f) if abs(float(f)-v)>0 else v
    return one(c.real) if abs(c.imag) < 1e-12 else [one(c.real) if c.real else 0, one(c.imag)]
def monos(n):
    out = []
    for k, c in as_num(n).t.items():
        out.append([coef(c), {ATOMS.name[i]: e for i, e in k}])
    return sorted(out, key=str)
spec = {}
for k in S.DIM4 + S.WCS:
    t = b[k]
    if isinstance(t, tens.T):
        spec[k] = sorted([[[[n, bool(c), list(ix)] for n, c, ix in key], monos(c0)] for key, c0 in t.terms.items()], key=str)
    else:
        spec[k] = [[[], monos(t)]]
json.dump(spec, open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "vc/data/beta_spec.json"), "w"), indent=0)
print(sum(len(v) for v in spec.values()))
