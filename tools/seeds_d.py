seed("S53_duplicates_adjacent_only", "P03",
     ("wcxf/classes.py", "        if len(all_keys) != len(set(all_keys)):  # we have duplicate keys!\n", "        if any(k == l for k, l in zip(all_keys, all_keys[1:])):  # we have duplicate keys!\n"),
     "the same coefficient in two sectors, with other coefficients between the two occurrences",
     "a basis with duplicate coefficients passes validation",
     """
from wilson import wcxf
wcxf.EFT('EX', {'a': {}, 'b': {}})
b = wcxf.Basis('EX', 'P', {'a': {'x': None, 'y': None}, 'b': {'x': None}})
wcxf.classes._testtex = lambda *a, **k: {'success': True, 'log': ''}
try:
    b.validate()
except ValueError:
    pass
else:
    raise SystemExit('duplicate accepted')
""")
seed("S54_wet4_bern_no_nu", "P30",
     ("match/__init__.py", "    keys = set(wcxf.Basis['WET-4', 'Bern'].all_wcs)\n    return {k: v for k, v in C.items() if k in keys}", "    keys = {k for s, wcs in wcxf.Basis['WET', 'Bern'].sectors.items() if 'b' not in s for k in wcs}\n    return {k: v for k, v in C.items() if k in keys}"),
     "a coefficient that survives the threshold although its WET sector name contains a b, e.g. in dF=0",
     "light-quark coefficients of sectors that also hold b quarks are lost at the b threshold",
     """
from wilson import wcxf
import wilson
m = wcxf.Matcher['WET', 'Bern', 'WET-4', 'Bern']
want = set(wcxf.Basis['WET-4', 'Bern'].all_wcs) & set(wcxf.Basis['WET', 'Bern'].all_wcs)
C = {k: 1. for k in wcxf.Basis['WET', 'Bern'].all_wcs}
out = m.function(C, 5., {})
assert set(out) == want, (len(out), len(want), sorted(want ^ set(out))[:5])
""")
seed("S55_wet3_jms_drops_tiny", "P30",
     ("match/__init__.py", "    keys = set(wcxf.Basis['WET-3', 'JMS'].all_wcs)\n    return {k: v for k, v in C.items() if k in keys}", "    keys = set(wcxf.Basis['WET-3', 'JMS'].all_wcs)\n    return {k: v for k, v in C.items() if k in keys and not -1e-12 < v.real < 1e-12}"),
     "a coefficient at the charm threshold that is purely imaginary or very small",
     "the coefficient is lost at the threshold",
     """
from wilson import wcxf
import wilson
m = wcxf.Matcher['WET-4', 'JMS', 'WET-3', 'JMS']
out = m.function({'VeeLL_1112': 1e-6j}, 1.3, {})
assert out == {'VeeLL_1112': 1e-6j}, out
""")
seed("S56_imaginary_sector_not_run", "P24",
     ("run/wet/rge.py", "    if np.count_nonzero(C_input) == 0 or classname == 'inv':", "    if not np.any(np.asarray(C_input).real) or classname == 'inv':"),
     "a sector in which every coefficient is purely imaginary",
     "purely imaginary coefficients do not run",
     """
from wilson.run.wet.classes import WETrunner
from wilson import wcxf
def out(v):
    w = wcxf.WC('WET', 'JMS', 80., wcxf.WC.dict2values({'S1ddRR_1323': v}))
    return WETrunner(w).run(5.).dict
a, b = out(1e-4 + 0j), out(1e-4j)
k = [x for x in a if abs(a[x]) > 1e-9]
assert k
for x in k:
    assert abs(b.get(x, 0) - 1j * a[x]) < 1e-9, (x, a[x], b.get(x))
""")
seed("S57_cache_by_integer_scale", "P36",
     ("classes.py", "            return self._cache[eft][scale][basis][sector]", "            return self._cache[eft][int(scale) if int(scale) in self._cache[eft] else scale][basis][sector]"),
     "a call at an integer scale followed by one at a scale with the same integer part",
     "the second call returns the result of the first",
     """
from wilson import Wilson
def w():
    return Wilson({'C9_bsmumu': 1., 'CS_bsmumu': .3}, 160., 'WET', 'flavio')
x = w()
x.match_run(4, 'WET', 'flavio')
a = x.match_run(4.8, 'WET', 'flavio').dict
b = w().match_run(4.8, 'WET', 'flavio').dict
assert all(abs(a[k] - b[k]) < 1e-12 for k in b), (a['CS_bsmumu'], b['CS_bsmumu'])
""")
seed("S58_zero_parameters_ignored", "P38",
     ("classes.py", "        p.update(self.get_option('parameters'))", "        p.update({k: v for k, v in self.get_option('parameters').items() if v})"),
     "a user parameter set to zero, e.g. gamma=0",
     "the user's zero is replaced by the default value",
     """
from wilson import Wilson
w = Wilson({'C9_bsmumu': 1.}, 160., 'WET', 'flavio')
w.set_option('parameters', {'gamma': 0.0, 'm_u': 0.0})
assert w.parameters['gamma'] == 0 and w.parameters['m_u'] == 0, w.parameters['gamma']
""")
seed("S59_rounded_scale_in_solution", "P42",
     ("run/smeft/rge.py", "        t = log(scale)\n", "        t = log(round(scale, 1))\n"),
     "a continuous solution evaluated at a scale with more than one decimal",
     "the solution is evaluated at a nearby scale",
     """
from math import log
import numpy as np
from wilson.run.smeft import rge, smpar
from wilson.util import smeftutil
C = {k: (0 if sh == 1 else np.zeros(sh, complex)) for k, sh in smeftutil.C_keys_shape.items()}
C.update(smpar.smeftpar(1000., dict(C), 'Warsaw'))
C['phiG'] = 1e-7
sol = rge.smeft_evolve_continuous(C, 1000., 250.)
a, b = np.real(sol(300.0)['phiG']), np.real(sol(300.04)['phiG'])
assert abs(a - b) > 1e-14, (a, b)
""")
seed("S60_pmns_phases_lost", "P22",
     ("run/smeft/classes.py", "        Mnup = -v**2 * C['llphiphi']", "        Mnup = -v**2 * abs(C['llphiphi'])"),
     "neutrino mass operators with phases, or of different signs",
     "the result depends on the lepton basis in which the operators were given",
     """
import numpy as np
from wilson.run.smeft.classes import SMEFT
from wilson.run.smeft import smpar
from wilson.util import smeftutil, smeft_warsaw
rng = np.random.RandomState(1)
C = {k: (0 if sh == 1 else np.zeros(sh, complex)) for k, sh in smeftutil.C_keys_shape.items()}
C.update(smpar.smeftpar(1000., dict(C), 'Warsaw'))
M = rng.rand(3, 3) - .5 + 1j * (rng.rand(3, 3) - .5)
C['llphiphi'] = (M + M.T) * 1e-15
U = np.linalg.qr(rng.rand(3, 3) + 1j * rng.rand(3, 3))[0]
E = np.eye(3)
C2 = smeft_warsaw.flavor_rotation(dict(C), Uq=E, Uu=E, Ud=E, Ul=U, Ue=U)
for k in ('g', 'gp', 'gs', 'Lambda', 'm2', 'Gu', 'Gd'):
    C2[k] = C[k]
C2['Ge'] = U.conj().T @ C['Ge'] @ U
a = np.asarray(SMEFT._rotate_defaultbasis(dict(C))['llphiphi'])
b = np.asarray(SMEFT._rotate_defaultbasis(dict(C2))['llphiphi'])
assert np.allclose(a, b, atol=1e-6 * abs(a).max()), (a, b)
""")
