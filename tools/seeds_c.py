# More planted bugs (loaded by tools/seed.py).
seed("S34_convert_case", "P07",
     ("wcxf/cli.py", "    if args.FORMAT.lower() == 'yaml':", "    if args.FORMAT == 'yaml':"),
     "the output format written with capital letters", "wcxf convert YAML writes nothing",
     """
import sys, io, json, tempfile, os, contextlib
from wilson.wcxf import cli
d = tempfile.mkdtemp()
f = os.path.join(d, 'a.json')
open(f, 'w').write(json.dumps({'eft': 'WET', 'basis': 'flavio', 'scale': 160.0, 'values': {'C9_bsmumu': -1.0}}))
b = io.StringIO()
sys.argv = ['wcxf', 'convert', 'YAML', f]
with contextlib.redirect_stdout(b):
    cli.wcxf_cli()
assert 'C9_bsmumu' in b.getvalue(), b.getvalue()
""")
seed("S35_smeftsim_phase_index", "P09",
     ("wcxf/converters/smeftsim.py", "format(angle(scaled_wc('lequ3_2313')), '.6e'), '# cLeQu3Ph2x3x1x3']", "format(angle(scaled_wc('lequ3_2331')), '.6e'), '# cLeQu3Ph2x3x1x3']"),
     "a complex value of lequ3_2313 (or 2331)", "the phase of one coefficient is the phase of another",
     """
from cmath import phase
from wilson import wcxf
from wilson.wcxf.converters.smeftsim import initialize_smeftsim_card, smeftsim_card_fill
for s in 'AB':
    wc = wcxf.WC('SMEFT', 'Warsaw mass', 1e3, {'lequ3_2313': {'Re': 1e-7, 'Im': 2e-7}})
    card = smeftsim_card_fill(initialize_smeftsim_card(s), wc, s, 1e3, 'alpha')
    ph = [r for b in card['Block'].values() for r in b.get('values', []) if str(r[-1]).endswith('cLeQu3Ph2x3x1x3')]
    ab = [r for b in card['Block'].values() for r in b.get('values', []) if str(r[-1]).endswith('cLeQu3Abs2x3x1x3')]
    for p in ph:
        assert abs(float(p[-2]) - phase(1 + 2j)) < 1e-4, p
""")
seed("S36_unpad_fourth_index", "P10",
     ("util/common.py", "                C_out[k] = v[: shape[0], : shape[1], : shape[2], : shape[3]]", "                C_out[k] = v[: shape[0], : shape[1], : shape[2], : shape[2]]"),
     "a class whose third and fourth indices have different ranges (VnueduLL, S1udduRR)", "unpadding leaves the padded entries of the fourth index in place",
     """
import numpy as np
from wilson.util import wetutil
u = wetutil
C = {k: np.zeros(s) for k, s in u.C_keys_shape.items() if s != 1}
P = u.unpad_C(u.pad_C(C))
bad = {k: P[k].shape for k in C if P[k].shape != C[k].shape}
assert not bad, bad
""")
seed("S37_jms_current_conj", "P13",
     ("util/wet_jms.py", "    C[nans] = np.einsum('klij', C)[nans]\n", "    C[nans] = np.einsum('klij', C)[nans].conj()\n"),
     "a complex scalar coefficient with two identical currents", "the entry with exchanged currents is the complex conjugate",
     """
import numpy as np
from wilson.util.wet_jms import JMS_to_array
A = JMS_to_array({'S1ddRR_1213': 1 + 2j})['S1ddRR']
assert np.allclose(A, np.einsum('klij', A))
""")
seed("S38_rotate_down_suddll", "P15",
     ("util/wet_jms.py", """        C[k] = np.einsum('jb,kc,ijkl->ibcl',
                         UdL, UdL,""", """        C[k] = np.einsum('jb,kc,ijkl->ibcl',
                         UdL, UdL.conj(),"""),
     "a baryon-number violating coefficient with two left-handed down quarks and a complex CKM matrix", "one of the two down quarks is rotated with the wrong phase",
     """
import numpy as np
from wilson.util.wet_jms import rotate_down, JMS_to_array
from wilson import wcxf
import ckmutil.ckm
p = dict(Vus=0.22, Vub=0.0036, Vcb=0.042, gamma=1.2)
C = {k: np.nan_to_num(v) for k, v in JMS_to_array({}).items()}
C['SuddLL'][0, 1, 2, 0] = 1.0
V = ckmutil.ckm.ckm_tree(p['Vus'], p['Vub'], p['Vcb'], p['gamma'])
A = rotate_down(C, p)['SuddLL']
B = np.einsum('jb,kc,ijkl->ibcl', V, V, C['SuddLL'])
assert np.allclose(A, B)
""")
seed("S39_rotation_weinberg", "P16",
     ("run/smeft/classes.py", "        C['llphiphi'] = Ul.T @ C_in['llphiphi'] @ Ul\n", "        C['llphiphi'] = Ul.conj().T @ C_in['llphiphi'] @ Ul\n"),
     "a complex lepton rotation acting on the Weinberg operator", "the Weinberg operator is rotated like a hermitian one",
     """
import numpy as np
from wilson.run.smeft.classes import SMEFT
from wilson.util import smeftutil
C = smeftutil.C_array2dict(np.zeros(9999, dtype=complex))
C['llphiphi'] = np.ones((3, 3)) + 0j
P = np.diag(np.exp(1j * np.array([0.3, 0.7, 1.1])))
I = np.eye(3)
R = SMEFT._flavor_rotation(C, I, I, I, P, I)
assert np.allclose(R['llphiphi'], P.T @ C['llphiphi'] @ P)
""")
seed("S40_beta_qu1_dagger", "P18",
     ("run/smeft/beta.py", '      + 1/2*my_einsum("pw,vt,vsrw", Gd, Gu, np.conj(C["quqd1"])) \\\n', '      + 1/2*my_einsum("pw,vt,vsrw", Gd, Gu, C["quqd1"]) \\\n'),
     "a complex quqd1 coefficient", "the running of qu1 is not hermitian",
     """
import numpy as np
from wilson.run.smeft import beta
from wilson.util import smeftutil
rng = np.random.default_rng(3)
C = smeftutil.C_array2dict(np.zeros(9999, dtype=complex))
for k in ('Gu', 'Gd', 'Ge'):
    C[k] = rng.normal(size=(3, 3)) + 1j * rng.normal(size=(3, 3))
for k in ('g', 'gp', 'gs', 'm2', 'Lambda'):
    C[k] = 0.5
C['quqd1'] = rng.normal(size=(3, 3, 3, 3)) + 1j * rng.normal(size=(3, 3, 3, 3))
B = beta.beta(C)['qu1']
assert np.allclose(B, np.einsum('jilk', B).conj())
""")
seed("S41_beta_duql_coefficient", "P20",
     ("run/smeft/beta.py", '      - my_einsum("vp,wr,vswt", Gd, Gu, C["qqql"]) \\\n', '      - my_einsum("vp,wr,wsvt", Gd, Gu, C["qqql"]) \\\n'),
     "a flavour non-universal qqql coefficient and off-diagonal Yukawa matrices", "the running of duql differs from the published equation",
     """
import numpy as np
from wilson.run.smeft import beta
from wilson.util import smeftutil
C = smeftutil.C_array2dict(np.zeros(9999, dtype=complex))
for k in ('g', 'gp', 'gs', 'm2', 'Lambda'):
    C[k] = 0.5
C['Gd'] = np.diag([1., 0, 0]) + 0j
C['Gu'] = np.diag([0, 1., 0]) + 0j
C['qqql'] = np.zeros((3, 3, 3, 3), dtype=complex)
C['qqql'][0, 2, 1, 0] = 1.0
B = beta.beta(C)['duql']
# p=0 r=1 s=2 t=0: coefficient of q(v=0) q(s=2) q(w=1) l is -1
assert abs(B[0, 1, 2, 0] + 1) < 1e-9, B[0, 1, 2, 0]
""")
seed("S42_smpar_gluon_shift", "P23",
     ("run/smeft/smpar.py", "    gs = (1 - C['phiG'].real * (v**2)) * gsbar", "    gs = gsbar / (1 + C['phiG'].real * (v**2))"),
     "a large phiG coefficient, where the second order matters", "the strong coupling extracted back differs from the input at second order",
     """
from wilson.run.smeft import smpar
from wilson.util import smeftutil
import numpy as np
C = smeftutil.C_array2dict(np.zeros(9999))
C['phiG'] = 1.5e-6
d = smpar.smeftpar(91.1876, C, 'Warsaw')
C.update(d)
r = smpar.smpar(C)
assert abs(r['alpha_s'] / smpar.p['alpha_s'] - 1) < 1e-6, r['alpha_s']
""")
seed("S43_adm_ucde_mixing", "P26",
     ("run/wet/adm.py", "            [0, 0, 0, 0, 0, 0, -20/3, -2, 0, 0],\n            [0, 0, 0, 0, 0, 0, 0, 0, 14/3, 0],", "            [0, 0, 0, 0, 0, 0, -20/3, -2, 0, 0],\n            [0, 0, 0, 0, 0, 0, 0, 0, 4/3, 0],"),
     "a baryon-number violating coefficient with u and c quarks and QED running", "the two chiralities of one operator run differently",
     """
import numpy as np
from wilson.run.wet import adm
A = adm.adm_e_ucde(5, *[0.1] * 8)
assert np.isclose(A[8, 8], A[9, 9])
""")
seed("S44_loop_phiud_dagger", "P29",
     ("match/smeft_loop.py", "    C['phiudDag'] = C['phiud'].conjugate().T", "    C['phiudDag'] = C['phiud'].conjugate()"),
     "an off-diagonal right-handed charged current phiud and one-loop matching", "the conjugate of the right-handed charged current has its indices exchanged",
     """
from wilson import wcxf
def run(order):
    w = wcxf.WC('SMEFT', 'Warsaw up', 91.1876, {'phiud_12': 1e-6})
    return w.match('WET', 'JMS', parameters={'loop_order': order}).dict
d = {k: run(1).get(k, 0) - run(0).get(k, 0) for k in run(1)}
# W_R(u_R s_R): the semileptonic current carries (d index, u index) = (2, 1)
a, b = abs(d.get('VnueduLR_1121', 0)), abs(d.get('VnueduLR_1112', 0))
assert a > 1e-12 and a > 10 * b, (a, b)
""")
seed("S46_higgs_deltag", "P32",
     ("translate/smeft_higgs.py", '        - 3 / 2 * W["phil3_22"]\n    )', '        - 3 / 2 * W["phil3_11"]\n    )'),
     "lepton non-universal phil3 coefficients", "the ZZh coupling takes the electron coefficient twice",
     """
from wilson.translate.smeft_higgs import warsaw_up_to_higgslike
from wilson import wcxf
C = {k: 0 for k in wcxf.Basis['SMEFT', 'Warsaw up'].all_wcs}
C['phil3_22'] = 1e-7
r = warsaw_up_to_higgslike(C)
assert abs(r['deltacz'] / -1.5e-7 - 1) < 0.02, r['deltacz']
""")
seed("S47_bern_tensor_primed", "P33",
     ("translate/wet.py", "            'F' + ind + 'T5': C['7' + ind] / 2 - C['7p' + ind] / 2 - 8 * C['9' + ind] + 8 * C['9p' + ind],", "            'F' + ind + 'T5': C['7' + ind] / 2 - C['7p' + ind] / 2 - 8 * C['9' + ind] - 8 * C['9p' + ind],"),
     "a non-zero primed scalar-pseudoscalar coefficient (9p) in the Bern basis", "translating Bern to JMS and back changes the tensor coefficients",
     """
from wilson import wcxf
b = wcxf.Basis['WET', 'Bern'].all_wcs
k = [x for x in b if x.startswith('9p') and x.endswith('mu')][0]
w = wcxf.WC('WET', 'Bern', 4.8, {k: 1e-9})
import wilson
r = w.translate('JMS').translate('Bern').dict
bad = {x: v for x, v in r.items() if abs(v - (1e-9 if x == k else 0)) > 1e-15}
assert not bad, bad
""")
seed("S48_flavio_sector_order", "P39",
     ("translate/wet.py", "('sd'+ lp + l in sectors):\n                d.update(Fierz_to_Flavio_lep(JMS_to_Fierz_lep", "('sd'+ l + lp in sectors):\n                d.update(Fierz_to_Flavio_lep(JMS_to_Fierz_lep"),
     "lepton flavour violating s-d coefficients and a restriction to their sector", "the coefficients of the restricted sector are those of the sector with exchanged leptons",
     """
from wilson import Wilson
w = Wilson({'CVLL_sdemu': 1e-3} if False else {'VedLL_1221': 1e-9}, 80., 'WET', 'JMS')
full = w.match_run(4.2, 'WET', 'flavio').dict
import wilson.wcxf as x
for s, c in x.Basis['WET', 'flavio'].sectors.items():
    if not s.startswith('sd'): continue
    part = Wilson({'VedLL_1221': 1e-9}, 80., 'WET', 'JMS').match_run(4.2, 'WET', 'flavio', sectors=(s,)).dict
    want = {k: v for k, v in full.items() if k in c and abs(v) > 0}
    got = {k: v for k, v in part.items() if abs(v) > 0}
    assert set(want) == set(got), (s, set(want) ^ set(got))
""")
seed("S49_qcd_ms_shortcut", "P41",
     ("util/qcd.py", "    if scale == 2 and f == 3:", "    if scale == 2 and f <= 4:"),
     "the strange mass at exactly 2 GeV with four flavours", "the threshold matching of the strange mass is skipped",
     """
from wilson.util import qcd
a, b = qcd.m_s(0.095, 2, 4), qcd.m_s(0.095, 2 + 1e-9, 4)
assert abs(a / b - 1) < 1e-6, (a, b)
""")
seed("S50_plot_imag_part", "P42",
     ("classes.py", "            return x, y.imag\n", "            return x, abs(y.imag)\n"),
     "a coefficient with a negative imaginary part", "the plotted imaginary part is positive",
     """
import numpy as np
from wilson.classes import RGsolution
@np.vectorize
def fun(s):
    return {'a': (1 - 2j) * s}
x, y = RGsolution(fun, 1., 10.).plotdata('a', part='im')
assert np.allclose(y, -2 * x)
""")
seed("S51_sm_scale_in_keeps_wc", "P43",
     ("run/smeft/classes.py", "        C_in_sm.update(C_out)\n        C_in_sm.update(C_SM)\n", "        C_in_sm.update(C_SM)\n"),
     "coefficients that feed into the Standard Model beta functions, e.g. phi or phiBox", "the SM parameters are run up without the effect of the Wilson coefficients",
     """
from wilson import wcxf
from wilson.run.smeft import classes, rge
seen = []
o = rge.smeft_evolve
def ev(C_in, *a, **k):
    if k.get('newphys') is False:
        seen.append(complex(C_in['phiBox']))
    return o(C_in, *a, **k)
rge.smeft_evolve = ev
classes.SMEFT(wcxf.WC('SMEFT', 'Warsaw', 5000., {'phiBox': 4e-7}))
assert seen and all(abs(x) > 1e-7 for x in seen), seen
""")
