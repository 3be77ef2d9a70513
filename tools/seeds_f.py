seed("S77_mb_four_flavours_at_mb", "P41",
     ("util/qcd.py", "    if scale == mbmb and f == 5:\n", "    if scale == mbmb:\n"),
     "the b mass exactly at m_b(m_b) in the theory with four flavours",
     "the decoupling of the b quark is skipped at one point",
     """
from wilson.util import qcd
a, b = qcd.m_b(4.18, 4.18, 4), qcd.m_b(4.18, 4.18 * (1 + 1e-9), 4)
assert abs(a - b) < 1e-6, (a, b)
""")
seed("S78_resonance_both_signs", "P25",
     ("run/wet/rge.py", "if abs(a[i] - a[j] - 1) > 1e-8:", "if abs(abs(a[i] - a[j]) - 1) > 1e-8:"),
     "a pair of eigenvalues that differ by minus one",
     "the QED evolution uses the resonant formula also for the opposite sign, where it does not hold",
     """
import numpy as np
from math import log
from wilson.run.wet import rge, adm
p = dict(m_u=.002, m_d=.004, m_s=.09, m_c=1.2, m_b=4., m_e=.0005, m_mu=.1, m_tau=1.77)
eta = .7
for c, f in (('I', 3), ('III', 3), ('IV', 3), ('dF0', 5), ('mue', 5)):
    m = [p[k] for k in ('m_u', 'm_d', 'm_s', 'm_c', 'm_b', 'm_e', 'm_mu', 'm_tau')]
    w, v = rge.admeig(c, f, *m)
    A = getattr(adm, 'adm_e_' + c)(f, *m)
    keep = rge.get_permissible_wcs(c, f)
    if keep != 'all':
        A = A[keep][:, keep]
    b0 = 11 - 2 * f / 3
    a = w / 2 / b0
    K = np.linalg.inv(v) @ A.T @ v
    for i in range(len(a)):
        for j in range(len(a)):
            # integral of x^(a_j - a_i) dx / x^2 ... from the variation of constants
            d = a[i] - a[j] - 1
            K[i, j] *= eta ** a[i] * (log(1 / eta) if abs(d) < 1e-8 else (eta ** -d - 1) / d)
    want = -.0078 / (2 * b0 * .2) * v @ K @ np.linalg.inv(v)
    got = rge.getUe(c, eta, f, .2, .0078, **p)
    assert np.allclose(got, want, atol=1e-6 * abs(want).max()), (c, f, abs(got - want).max())
""")
seed("S79_yukawa_shift_conjugated", "P23",
     ("run/smeft/smpar.py", "Mdp = v / sqrt(2) * (C['Gd'] - C['dphi'] * (v**2) / 2)", "Mdp = v / sqrt(2) * (C['Gd'] - C['dphi'].conj() * (v**2) / 2)"),
     "a complex dphi coefficient",
     "the physical masses and mixing are computed with the conjugate of the coefficient",
     """
import numpy as np
from wilson.run.smeft import smpar
from wilson.util import smeftutil
C = smeftutil.add_missing(smeftutil.wcxf2arrays_symmetrized({'dphi_23': 1e-7j}))
for b in ('Warsaw', 'Warsaw up'):
    c = dict(C)
    c.update(smpar.smeftpar(1000, C, b))
    s = smpar.smpar(c)
    for k in ('Vcb', 'm_b', 'Vub'):
        assert abs(s[k] - smpar.p[k]) < 1e-6 * smpar.p[k], (b, k, s[k], smpar.p[k])
""")
seed("S80_ckm_of_rotation", "P27",
     ("match/smeft.py", "C_WET = wilson.translate.wet.rotate_down(C_WET, p)", "C_WET = wilson.translate.wet.rotate_down(C_WET, default_parameters)"),
     "a user value of a CKM element",
     "the left-handed down quarks are rotated with the default CKM matrix",
     """
import numpy as np, ckmutil.ckm
from wilson.match import smeft
from wilson.parameters import p as P
import wilson.run.smeft.smpar as sp
p = dict(sp.p, Vcb=.2)
a = smeft.match_all({'lq1_1122': 1e-8}, 91.1876, {'Vcb': .2})
V = ckmutil.ckm.ckm_tree(p['Vus'], p['Vub'], p['Vcb'], p['gamma'])
want = V[1, 1].conj() * V[1, 2] * 1e-8
assert abs(a['VedLL_1123'] - want) < 1e-3 * abs(want), (a['VedLL_1123'], want)
""")
seed("S81_padding_first_index", "P10",
     ("util/common.py", "if isinstance(v, numbers.Number) or min(v.shape) == n_gen:", "if isinstance(v, numbers.Number) or v.shape[0] == n_gen:"),
     "an operator whose first index has three generations and another one two",
     "arrays with up-quark indices at the end are not padded",
     """
import numpy as np
from wilson.util import wetutil
for k, s in wetutil.C_keys_shape.items():
    if s == 1:
        continue
    v = np.arange(np.prod(s)).reshape(s)
    o = wetutil.pad_C({k: v})[k]
    assert o.shape == (3,) * len(s), (k, s, o.shape)
""")
seed("S82_jms_names_class4", "P14",
     ("util/wet_jms.py", "                if newname in wc_keys:\n                    Cs[newname] = v.conjugate()", "                if newname in wc_keys:\n                    Cs[newname] = v"),
     "a complex coefficient of a current-current operator under its hermitian partner's name",
     "the value is not conjugated",
     """
from wilson.util import wet_jms
from wilson import wcxf
B = set(wcxf.Basis['WET', 'JMS'].all_wcs)
n = 0
for k in sorted(B):
    name, _, i = k.partition('_')
    if name in wet_jms.C_symm_keys[4]:
        r = name + '_' + i[1] + i[0] + i[3] + i[2]
        if r not in B:
            o = wet_jms.symmetrize_JMS_dict({r: 1 + 2j})
            assert o == {k: 1 - 2j}, (r, o)
            n += 1
assert n
""")
seed("S83_jms_sector_zeros", "P13",
     ("util/wet_jms.py", "for k in wcxf.Basis['WET', 'JMS'].sectors[s]]", "for k in wcxf.Basis['WET', 'JMS'].sectors[s] if k in C or k.split('_')[0] + '_1' not in C]\n            wc_keys = wc_keys if len(sectors) > 1 else [k for k in wc_keys if '_' in k or k in C]"),
     "expansion of a single sector without one of its coefficients without indices",
     "a coefficient that is absent from the input is absent from the arrays",
     """
from wilson.util import wet_jms
o = wet_jms.JMS_to_array({}, sectors=['dF=0'])
assert 'G' in o and o['G'] == 0, 'G' in o
""")
seed("S84_rotation_of_subset", "P16",
     ("util/smeft_warsaw.py", "    if 'qd8' in C_in:", "    if 'qd8' in C_in and 'qd1' in C_in:"),
     "a set of coefficients with qd8 but without qd1",
     "qd8 is missing in the rotated coefficients",
     """
import numpy as np
from wilson.util import smeft_warsaw
I = np.eye(3)
C = {'qd8': np.ones((3, 3, 3, 3))}
assert 'qd8' in smeft_warsaw.flavor_rotation(C, I, I, I, I, I)
""")
seed("S85_no_run_near_matching_scale", "P37",
     ("classes.py", "                    if self.wc.scale == scale_ew:", "                    if round(self.wc.scale) == round(scale_ew):"),
     "an input scale close to, but not at the matching scale",
     "the running from the input scale to the matching scale is skipped",
     """
from wilson import Wilson
w = Wilson({'uG_33': 1e-6}, 91.4, 'SMEFT', 'Warsaw up')
a = w.match_run(91.1876, 'WET', 'JMS')
s = w.match_run(91.1876, 'SMEFT', 'Warsaw')
b = Wilson(s.dict, 91.1876, 'SMEFT', 'Warsaw').match_run(91.1876, 'WET', 'JMS')
k = 'dG_33'
for k in b.dict:
    assert abs(a.dict.get(k, 0) - b.dict[k]) <= 1e-6 * abs(b.dict[k]) + 1e-20, (k, a.dict.get(k, 0), b.dict[k])
""")
seed("S86_hash_of_parameter_names", "P40",
     ("classes.py", "options = frozenset((k, frozenset(v.items()) if isinstance(v, dict) else v)", "options = frozenset((k, frozenset(v) if isinstance(v, dict) else v)"),
     "two values of the same user parameter",
     "the hash does not change with the value of a parameter",
     """
from wilson import Wilson
w = Wilson({'uG_33': 1e-6}, 1000, 'SMEFT', 'Warsaw up')
w.set_option('parameters', {'m_b': 4.})
h = hash(w)
w.set_option('parameters', {'m_b': 5.})
assert hash(w) != h
""")
