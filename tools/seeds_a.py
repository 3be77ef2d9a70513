seed("S01_number_without_real_part", "P01",
     ("wcxf/classes.py", "            return float(v.get('Re', 0)) + 1j*float(v.get('Im', 0))",
      "            return complex(float(v['Re']) if v.get('Re') else 0, float(v.get('Im', 0)) if v.get('Re') else abs(float(v.get('Im', 0))))"),
     "a purely imaginary coefficient with negative imaginary part",
     "the sign of purely imaginary coefficients is lost when the value is read back",
     """
from wilson import wcxf
w = wcxf.WC('WET', 'JMS', 80, {'VeeLL_1111': 1.0, 'S1ddRR_1212': {'Re': 0.0, 'Im': -2.5}, 'dgamma_12': {'Im': 3.0}})
assert w.dict['S1ddRR_1212'] == -2.5j and w['dgamma_12'] == 3j
""")
seed("S02_scale8_sign", "P12",
     [("util/common.py", "                + 1 / 6 * b[0, 2, 1, i]\n                + 2 / 3 * b[1, 0, 2, i]\n                - 1 / 6 * b[1, 2, 0, i]",
       "                + 1 / 6 * b[0, 2, 1, i]\n                + 2 / 3 * b[1, 0, 2, i]\n                + 1 / 6 * b[1, 2, 0, i]"),
      ("util/common.py", "a[1, 0, 2, i] = -b[0, 2, 1, i] + 2 * b[1, 0, 2, i] + b[1, 2, 0, i]",
       "a[1, 0, 2, i] = -b[0, 2, 1, i] + 2 * b[1, 0, 2, i] - b[1, 2, 0, i]")],
     "a baryon-number violating coefficient with three different quark generations in one particular index order (two sites changed consistently)",
     "the symmetric array of the qqql operator carries a different Lagrangian than the independent coefficient qqql_231x",
     """
from wilson.util import smeftutil
for n in ('qqql_2311', 'qqql_1321', 'qqql_2131', 'qqql_1231'):
    d = smeftutil.arrays2wcxf_nonred(smeftutil.wcxf2arrays_symmetrized({n: 1.0}))
    assert abs(d.pop(n) - 1) < 1e-9 and sum(map(abs, d.values())) < 1e-9, (n, d)
""")
seed("S03_symmetrize8_index", "P11",
     ("util/common.py", "        a[2, 1, 0, 2] = a[0, 2, 1, 2] + a[0, 1, 2, 2] - a[1, 2, 0, 2]", "        a[2, 1, 0, 2] = a[0, 2, 1, 2] + a[0, 1, 2, 2] - a[1, 0, 2, 2]"),
     "a qqql coefficient with lepton generation 3 and three different quark generations",
     "the symmetric array of the baryon-number violating class violates its flavour relation in one entry",
     """
from wilson.util import smeftutil
b = np.zeros((3, 3, 3, 3), complex); b[1, 2, 0, 2] = 1; b[1, 0, 2, 2] = 0.25
C = smeftutil.symmetrize_8(b)
assert abs(C[2, 1, 0, 2] - (C[0, 2, 1, 2] + C[0, 1, 2, 2] - C[1, 2, 0, 2])) < 1e-12
""")
seed("S04_einsum_cache_equality", "P19",
     [("run/smeft/beta.py", "        return hash(self.data.tobytes())\n", "        return hash(self.shape)\n"),
      ("run/smeft/beta.py", "        return np.all(np.ndarray.__eq__(self, other))", "        return np.allclose(self, other, rtol=1e-8, atol=1e-11)")],
     "two evaluations in one process with different coefficients that are both tiny (1e-12, as typical in units of GeV^-2)",
     "cached tensor contractions of an earlier evaluation are reused for different small coefficients",
     """
from wilson.run.smeft.beta import beta
from wilson.util import smeftutil
rng = np.random.RandomState(1)
C = smeftutil.wcxf2arrays_symmetrized({'phiq1_11': 1e-12})
C.update(g=.6, gp=.3, gs=1.1, m2=-7000., Lambda=.2, Gu=rng.rand(3, 3) + 0j, Gd=rng.rand(3, 3) + 0j, Ge=rng.rand(3, 3) + 0j,
         Theta=0, Thetap=0, Thetas=0)
one = beta(C)['phiq1'].copy()
D = dict(C); D['qq1'] = C['qq1'] + 0; D['qq1'][0, 0, 0, 0] = 3e-12
two = beta(D)['phiq1']
E = dict(C); E['qq1'] = np.asarray(D['qq1']) * 1e12
three = beta(E)['phiq1']
want = one + (three - one) * 1e-12
assert abs(two - want).max() < 1e-6 * abs(want).max(), (two, want)
""")
seed("S05_flip_yukawa_leadinglog", "P21",
     ("run/smeft/rge.py", "        C_out[k] = C + b[k] / (16 * pi**2) * log(scale_out / scale_in)",
      "        C_out[k] = C + b[k] / (16 * pi**2) * (log(scale_out / scale_in) if scale_out < scale_in else log(scale_out) - log(scale_in) + 1e-3 * log(scale_out / scale_in)**2)"),
     "running upwards in the leading-log approximation",
     "upward leading-log running differs from the formula",
     """
from wilson.run.smeft import rge
from wilson.run.smeft.beta import beta
from wilson.util import smeftutil
rng = np.random.RandomState(1)
C = smeftutil.wcxf2arrays_symmetrized({'phiq1_11': 1e-7})
C.update(g=.6, gp=.3, gs=1.1, m2=-7000., Lambda=.2, Gu=rng.rand(3, 3) + 0j, Gd=rng.rand(3, 3) + 0j, Ge=rng.rand(3, 3) + 0j)
b = beta(C)
for lo, hi in ((100, 1000), (1000, 100)):
    o = rge.smeft_evolve_leadinglog(C, lo, hi)
    assert abs(o['g'] - (C['g'] + b['g'] / (16 * np.pi**2) * np.log(hi / lo))) < 1e-12
""")
seed("S06_scale_rounded", "P02",
     ("wcxf/classes.py", "        self.scale = float(scale)\n        self.values = values", "        self.scale = float('%.6g' % float(scale))\n        self.values = values"),
     "a scale that needs more than six significant digits",
     "the scale of a coefficient file is rounded when it is read",
     """
from wilson import wcxf
w = wcxf.WC('WET', 'JMS', 1234567.25, {'VeeLL_1111': 1.0})
assert wcxf.WC.load(w.dump()).scale == 1234567.25
""")
seed("S07_translate_drops_real", "P04",
     ("wcxf/classes.py", "        # filter out zero values\n        dict_out = {k: v for k, v in dict_out.items() if v != 0}\n        values = WC.dict2values(dict_out)\n        WC_out = WC(self.to_eft,",
      "        # filter out zero values\n        dict_out = {k: v for k, v in dict_out.items() if v.real != 0}\n        values = WC.dict2values(dict_out)\n        WC_out = WC(self.to_eft,"),
     "matching that produces a purely imaginary coefficient", "purely imaginary coefficients vanish in matching",
     """
from wilson import wcxf
wcxf.Matcher('E1', 'B1', 'E2', 'B2', lambda C, scale, parameters: {'a': 1j * C['x'], 'b': C['x']})
w = wcxf.WC('E1', 'B1', 80, {'x': 2.0}).match('E2', 'B2')
assert w.dict == {'a': 2j, 'b': 2.0}, w.dict
""")
seed("S08_del_parent_clear", "P05",
     ("wcxf/classes.py", "    def del_instance(cls, _name):", "    def del_instance(cls, _name):\n        if isinstance(_name, tuple):\n            for n in [n for n in cls.instances if n[:1] == _name[:1] and str(n[1]).startswith(str(_name[1]))]:\n                if n != _name:\n                    del cls.instances[n]"),
     "deleting a basis whose name is a prefix of another basis of the same EFT", "deleting the basis 'Warsaw' also removes 'Warsaw up'",
     """
from wilson import wcxf
a = wcxf.Basis('X', 'W', sectors={}); b = wcxf.Basis('X', 'W up', sectors={})
del wcxf.Basis['X', 'W']
assert wcxf.Basis['X', 'W up'] is b
""")
seed("S09_rotate_defaultbasis_lepton_phase", "P22",
     ("run/smeft/classes.py", "        Mep = v/sqrt(2) * (C['Ge'] - C['ephi'] * v**2/2)", "        Mep = v/sqrt(2) * (C['Ge'] - C['ephi'].real * v**2/2)"),
     "a complex coefficient ephi", "the charged-lepton mass matrix is not diagonal after running when ephi is complex",
     """
from wilson.run.smeft.classes import SMEFT
from wilson.util import smeftutil
rng = np.random.RandomState(1)
C = smeftutil.wcxf2arrays_symmetrized({'ephi_12': 1e-6 + 2e-6j, 'ephi_21': 1e-6j, 'llphiphi_11': 1e-16})
m = lambda: rng.rand(3, 3) + 1j * rng.rand(3, 3)
C.update(g=.6, gp=.3, gs=1.1, m2=-7000., Lambda=.2, Gu=m(), Gd=m(), Ge=m(), Theta=0, Thetap=0, Thetas=0)
D = SMEFT._rotate_defaultbasis(C)
M = D['Ge'] - D['ephi'] * 246.22**2 / 2
assert abs(M - np.diag(M.diagonal())).max() < 1e-9
""")
