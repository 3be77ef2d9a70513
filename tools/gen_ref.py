"""writes vc/data/dsixtools_ref.json from the reference tables of /repo's own beta-function test (DsixTools numbers)"""
import json, os
from vc import boot
boot.boot()
from wilson.util import smeftutil
d = os.path.join(boot.REPO, "wilson/run/smeft/tests/data/")
L = lambda n: json.load(open(d + n))
def rnd(o):
    return [rnd(i) for i in o] if isinstance(o, list) else float(f"{o:.10g}")
json.dump({"par": L("random_par.json"), "wc": L("random_wc.json"), "re": rnd(L("betas_re.json")), "im": rnd(L("betas_im.json")),
  "order": {"0": smeftutil.WC_keys_0f, "2": smeftutil.WC_keys_2f, "4": smeftutil.WC_keys_4f}},
  open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "vc/data/dsixtools_ref.json"), "w"))
