"""writes vc/data/loop_terms.json.gz: the normal form of the one-loop matching at the pinned commit"""
import gzip, json
from vc import boot
boot.boot()
from vc import loopterms
from vc.tens import TensProvider
from vc.checks.matching import sm_inputs
import wilson.match.smeft_loop as L
x = TensProvider()
C, p, mu, V = loopterms.setup(x, sm_inputs)
with loopterms.tensors(x, L, p, V):
    got = L.match_all_array(C, p, mu)
raw = json.dumps(loopterms.dump(got), separators=(",", ":")).encode()
with open(loopterms.FILE, "wb") as f:
    f.write(gzip.compress(raw, mtime=0))
want = loopterms.load()
for op, a in got.items():
    t = loopterms.as_terms(a)
    assert set(t) == set(want[op]), op
    for k in t:
        assert loopterms.differ(t[k], want[op][k]) is None, (op, k)
print(len(raw), sum(map(len, want.values())))
