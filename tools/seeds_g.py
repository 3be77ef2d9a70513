seed("S87_defaults_overwritten", "P40",
     ("translate/wet.py", "def get_parameters(scale, f=5, input_parameters=None):\n    \"\"\"Get parameters (masses, coupling constants, ...) at the scale\n    `scale` in QCD with `f` dynamical quark flavours. Optionally takes a\n    dictionary of inputs (otherwise, defaults are used).\"\"\"\n    p = default_parameters.copy()\n",
      "def get_parameters(scale, f=5, input_parameters=None):\n    \"\"\"Get parameters (masses, coupling constants, ...) at the scale\n    `scale` in QCD with `f` dynamical quark flavours. Optionally takes a\n    dictionary of inputs (otherwise, defaults are used).\"\"\"\n    p = default_parameters\n"),
     "one translation with own parameters, then any translation without",
     "parameters given to one call stay in the built-in parameters and are used by later calls",
     """
from wilson import wcxf
f = wcxf.Translator['WET', 'flavio', 'JMS'].function
a = f({'C9_bsmumu': 1.0}, 4.8, None)
f({'C9_bsmumu': 1.0}, 4.8, {'GF': 1.3e-5, 'Vcb': 0.05})
assert f({'C9_bsmumu': 1.0}, 4.8, None) == a
""")
seed("S88_parameters_remembered", "P35",
     [("translate/wet.py", "def get_parameters(scale, f=5, input_parameters=None):", "_running = {}\n\n\ndef get_parameters(scale, f=5, input_parameters=None):"),
      ("translate/wet.py", "        p.update(input_parameters)\n    parameters = {}", "        p.update(input_parameters)\n    key = (scale, f, tuple(p[k] for k in ('m_b', 'm_c', 'm_s', 'm_u', 'm_d', 'alpha_s')))\n    if key in _running:\n        return dict(_running[key])\n    parameters = {}"),
      ("translate/wet.py", "        parameters[k] = p[k]\n    return parameters\n", "        parameters[k] = p[k]\n    _running[key] = dict(parameters)\n    return parameters\n")],
     "two translations at the same scale with parameters that differ in a quantity that does not run (GF, CKM, lepton masses)",
     "the second translation uses the parameters of the first",
     """
from wilson import wcxf
f = wcxf.Translator['WET', 'flavio', 'JMS'].function
a = f({'C9_bsmumu': 1.0}, 4.8, {'gamma': 1.0})
b = f({'C9_bsmumu': 1.0}, 4.8, {'gamma': 1.0, 'GF': 1.3e-5})
k = max(a, key=lambda q: abs(a[q]))
assert abs(b[k] / a[k] - 1.3e-5 / 1.1663787e-5) < 1e-9, (a[k], b[k])
""")
seed("S89_scale_rounded", "P01",
     ("wcxf/classes.py", "        self.scale = float(scale)", "        self.scale = float('%.12g' % float(scale))"),
     "a scale with more than twelve significant digits",
     "the scale of the coefficients is not the one supplied",
     """
from wilson import wcxf
q = 100 / 3
assert wcxf.WC('WET', 'flavio', q, {}).scale == q
""")
seed("S90_same_matrix_object", "P16",
     ("util/smeft_warsaw.py", "    C = {}\n    # nothing to do", "    if Uq is Ul:\n        Uu = Uq\n    C = {}\n    # nothing to do"),
     "the same array object passed for the doublets of quarks and leptons",
     "the singlet up quarks are rotated by the matrix of the doublets",
     """
import numpy as np
from wilson.util.smeft_warsaw import flavor_rotation
r = np.random.RandomState(1)
q = lambda: np.linalg.qr(r.randn(3, 3) + 1j * r.randn(3, 3))[0]
U, V = q(), q()
C = {'phiu': r.randn(3, 3) + 1j * r.randn(3, 3)}
a = flavor_rotation(C, Uq=U, Uu=V, Ud=V, Ul=U, Ue=V)
b = flavor_rotation(C, Uq=U.copy(), Uu=V, Ud=V, Ul=U.copy(), Ue=V)
assert np.allclose(a['phiu'], b['phiu']) and np.allclose(a['phiu'], V.conj().T @ C['phiu'] @ V)
""")
seed("S91_product_with_zero_skipped", "P20",
     ("run/smeft/beta.py", "    return np.einsum(indices, *args)", "    if len(args) > 1 and not np.any(args[1]):\n        # nothing to contract\n        return np.zeros_like(np.asarray(args[0]))\n    return np.einsum(indices, *args)"),
     "a vanishing Yukawa matrix or coefficient in a contraction whose result has another number of indices than its first factor",
     "a beta function of a two-fermion operator comes out with four indices",
     """
import numpy as np
from wilson.run.smeft.beta import beta
from wilson.util import smeftutil
C = {k: np.ones((3,) * n) * .1 + 0j if n else .1 for k, n in [(k, len(s)) for k, s in smeftutil.C_keys_shape.items() for s in [() if s == 1 else s]]}
C['Ge'] = np.zeros((3, 3), complex)
C['Gu'] = np.zeros((3, 3), complex)
C['Gd'] = np.zeros((3, 3), complex)
b = beta(C)
assert all(np.shape(b[k]) == np.shape(C[k]) for k in b if k in C), [k for k in b if k in C and np.shape(b[k]) != np.shape(C[k])]
""")
seed("S92_ratio_of_couplings_limited", "P25",
     ("run/wet/rge.py", "    a = w / (2 * b0s)\n    return v @", "    a = w / (2 * b0s)\n    eta_s = min(max(eta_s, 0.25), 2.5)  # beyond, alpha_s is not perturbative\n    return v @"),
     "an evolution over more than a factor four in alpha_s",
     "the evolution stops at a ratio of couplings of 0.25 or 2.5",
     """
import numpy as np
from wilson.run.wet.rge import getUs
m = (.002, .005, .1, 1.3, 4.2, .0005, .1, 1.8)
U = lambda e: getUs('sb', e, 5, .2, .0078, *m)
assert np.allclose(U(.4) @ U(.5), U(.2))
""")
