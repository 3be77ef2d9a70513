"""Records the one-loop SMEFT->WET matching of the current /repo tree as a linear map at fixed parameter points (run once, on the pinned revision)."""
import sys, json, gzip, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vc import boot
boot.boot()
from vc.checks import matching as M
from vc.harness import SymProvider
from vc.sym.num import ATOMS, NILP
from wilson.match import smeft_loop
pt = int(sys.argv[1])
x = SymProvider()
with x.lib():
    C = M.symm_arrays(x, M.smeft_symbols(x))
    M.first_order(x)
    p, s = M.loop_point(pt)
    L = M.linear_map(x, smeft_loop.match_all_array(C, p, scale=s))
g = lambda v: float(f"{v:.10e}")
out = [[op, list(map(int, i)), [[k, c, g(v.real), g(v.imag)] for (k, c), v in sorted(r.items())]] for (op, i), r in L.items() if r]
json.dump(out, open(f"/tmp/loop{pt}.json", "w"))
