"""Pins which coefficients the compositions of WET translations have to reproduce (vc/data/wet_cover.json).
Run once by hand on a reviewed tree; checks only read the result."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vc import boot; boot.boot()
from vc.harness import SymProvider
from vc.sym.num import is_zero
from vc.checks import wet_trans as T
out = {}
for a, b, c in T.TRIPS:
    x = SymProvider()
    P, V = T.params(x), x.carr("V", (3, 3))
    C = T.coeffs(x, "WET", a)
    f = lambda p, q: T.function("WET", p, q)
    with T.env(x, P, V):
        got = f(b, c)(f(a, b)(C, 4.8, None), 4.8, None)
        want = C if a == c else f(a, c)(C, 4.8, None)
    keys = T.wcxf.Basis["WET", c].all_wcs
    ok = [k for k in keys if is_zero(got.get(k, 0) - want.get(k, 0) + 0 * P["GF"], 1) and not is_zero(want.get(k, 0) + 0 * P["GF"], 1)]
    bad = [k for k in keys if k not in ok and not is_zero(want.get(k, 0) + 0 * P["GF"], 1)]
    wrong = [k for k in bad if not is_zero(got.get(k, 0) + 0 * P["GF"], 1)]
    print(a, b, c, len(ok), "not reproduced", len(bad), bad[:3], bad[-3:], "wrong", wrong[:5])
    out["-".join((a, b, c))] = ok
json.dump(out, open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "vc", "data", "wet_cover.json"), "w"), indent=0)
