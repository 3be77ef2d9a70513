seed("S10_eos_im_lfu", "P06",
     ("wcxf/converters/eos.py", "            return wc.dict.get(k2.replace('lnu', 'enue'), 0).imag", "            return abs(wc.dict.get(k2.replace('lnu', 'enue'), 0).imag)"),
     "a negative imaginary part of a lepton-universal charged-current coefficient", "the sign of the imaginary part is lost",
     """
from wilson.wcxf.converters.eos import wcxf2eos
class W: dict = {'ub->lnu::cVL': 0.5, 'b->uenue::cVL': .1 - .3j, 'b->umunumu::cVL': .1 - .3j}
d = wcxf2eos(W, {'b->ulnu::Im{cVL}': {'central': 1.0, 'min': .5, 'max': 2.}})
assert d['b->ulnu::Im{cVL}'] == {'central': 0.7, 'min': 0.7, 'max': 0.7}, d
""")
seed("S11_dsixtools_im_diag", "P08",
     ("wcxf/converters/dsixtools.py", "            C[k] = C[k] + 1j*lha2matrix(lha['BLOCK']['IMWC' + k.upper()]['values'], (3,3,3,3))",
      "            C[k] = C[k] + 1j*lha2matrix([v for v in lha['BLOCK']['IMWC' + k.upper()]['values'] if v[0] != v[1] or v[2] != v[3]], (3,3,3,3))"),
     "an imaginary part of a non-hermitian four-fermion coefficient with equal generations",
     "imaginary parts such as Im quqd1_1133 are lost when a DSixTools file is read",
     """
from wilson.wcxf.converters import dsixtools as d
from wilson.util import smeftutil
C = smeftutil.C_array2dict(np.zeros(9999, dtype=complex))
C['quqd1'][0, 0, 2, 2] = 1 + 2j
b = d.wc_lha2dict(d.wc_dict2lha(C))
assert b['quqd1'][0, 0, 2, 2] == 1 + 2j
""")
seed("S14_wet_antisym_sign", "P14",
     ("util/wet_jms.py", "            Cs['_'.join([name, indnew])] = -v\n", "            Cs['_'.join([name, indnew])] = v if i < k else -v\n"),
     "a redundant name of an operator antisymmetric in its first two indices with first index smaller than the third",
     "the exchange sign of some antisymmetric baryon-number violating coefficients is lost",
     """
from wilson.util import wet_jms
from wilson import wcxf
keys = [k for k in wcxf.Basis['WET', 'JMS'].all_wcs if k.split('_')[0] in wet_jms.C_symm_keys[71]]
bad = []
for k in keys:
    n, i = k.split('_')
    d = wet_jms.symmetrize_JMS_dict({n + '_' + i[1] + i[0] + i[2:]: 1.0})
    if d != {k: -1.0}: bad.append((k, d))
assert not bad, bad[:3]
""")
seed("S15_wet_qed_wrong_coupling", "P24",
     ("run/wet/rge.py", "        return g**2 / e / m\n", "        return g**2 / e / m if name != 'egamma' else e / m\n"),
     "running of an electron-type dipole coefficient with QCD switched on between scales with different alpha_s",
     "lepton dipole coefficients run with the electromagnetic instead of the strong normalisation",
     """
from wilson.run.wet import rge
p = dict(alpha_s=0.2, alpha_e=1/128., m_b=4., m_c=1., m_s=.1, m_u=.002, m_d=.004, m_e=.0005, m_mu=.1, m_tau=1.7)
x = rge.scale_C('egamma_12', p)
g2, e = 4*np.pi*.2, (4*np.pi/128.)**.5
assert abs(x - g2 / e / .1) < 1e-9 * x
""")
seed("S16_wet_neglect_qed_inverts", "P24",
     ("run/wet/classes.py", "                if sectors == 'all' or sector in sectors:", "                if sectors == 'all' or any(s.startswith(sector) or sector == s for s in sectors):"),
     "a sector restriction to a sector whose name begins with the name of another sector (sbemu, sb)",
     "restricting to one sector also returns another one whose name is a prefix",
     """
from wilson.run.wet.classes import WETrunner
from wilson import wcxf
S = wcxf.Basis['WET', 'JMS'].sectors
a, b = next(iter(S['sb'])), next(iter(S['sbemu']))
w = WETrunner(wcxf.WC('WET', 'JMS', 80., {a: 1e-3, b: 1e-3})).run(5., sectors=('sbemu',))
assert all(k in S['sbemu'] for k in w.dict), w.dict
""")
seed("S17_getUe_degenerate", "P25",
     ("run/wet/rge.py", "                K[i, j] *= eta_s**a[i] * log(1 / eta_s)", "                K[i, j] *= eta_s**a[j] * log(1 / eta_s)"),
     "a class with two QCD anomalous dimensions that differ by exactly twice the one-loop beta coefficient",
     "resonant terms of the QED evolution have the wrong power of the coupling ratio",
     """
from wilson.run.wet import rge, adm
b0 = 11 - 2*5/3
keep = adm.adm_s_I, adm.adm_e_I
adm.adm_s_I = lambda *a: np.diag([2*b0*1.5, 2*b0*0.5])
adm.adm_e_I = lambda *a: np.array([[0., 0.3], [0.7, 0.]])
rge.getUe.cache_clear(); rge.admeig.cache_clear()
par = dict(alpha_s=.2, alpha_e=1/128., m_u=.1, m_d=.1, m_s=.1, m_c=.1, m_b=.1, m_e=.1, m_mu=.1, m_tau=.1)
U = rge.getUe('I', 0.5, 5, **par)
# derivative of the path-ordered exponential, by quadrature
a = np.array([1.5, .5]); eta = .5; n = 20000
A = np.array([[0., 0.3], [0.7, 0.]]).T
t = np.exp((np.arange(n) + .5) / n * np.log(eta)); dl = np.log(eta) / n
S = sum(np.diag((eta/x)**a) @ A @ np.diag(x**a) * x * dl for x in t)
ref = S * (1/128.) / (2*b0*.2)
assert abs(abs(U) - abs(ref)).max() < 1e-6, (U, ref)
""")
seed("S19_rotate_down_SedRL", "P27",
     ("util/wet_jms.py", "        C[k] = np.einsum('ld,ijkl->ijkd',\n                         UdL,\n", "        C[k] = np.einsum('ld,ijkl->ijkd',\n                         UdL.real,\n"),
     "a scalar coefficient with a right-left quark current and a complex CKM matrix",
     "the CKM phase is dropped in the rotation of SedRL",
     """
from wilson.util import wet_jms
import wilson.translate.wet as w, ckmutil.ckm
p = dict(Vus=.22, Vub=.0037, Vcb=.042, gamma=1.2)
C = {k: np.zeros((3,)*r, complex) for k, r in [(k, 0 if n == 0 else 2 if n == 1 else 4) for n in wet_jms.C_symm_keys for k in wet_jms.C_symm_keys[n]]}
C['SedRL'] = np.zeros((3,)*4, complex); C['SedRL'][0, 0, 1, 0] = 1
V = ckmutil.ckm.ckm_tree(**p)
out = wet_jms.rotate_down(C, p)['SedRL'][0, 0, 1]
assert abs(out - V[0]).max() < 1e-12, (out, V[0])
""")
seed("S20_tree_phiud_index", "P28",
     ("match/smeft_tree.py", """    c['V1udduLR'] = (-einsum("st,pr",C["phiudDag"],kd))""", """    c['V1udduLR'] = (-einsum("st,pr",C["phiud"].conjugate(),kd))"""),
     "a generation-changing right-handed charged current coefficient phiud",
     "the right-handed charged current matches with its two generation indices exchanged",
     """
from wilson.match import smeft_tree
from wilson.util import smeftutil
from wilson.run.smeft.smpar import p
C = smeftutil.wcxf2arrays_symmetrized({'phiud_12': 1e-6})
for k, s in smeftutil.C_keys_shape.items():
    if k not in C: C[k] = 0 if s == 1 else np.zeros(s, complex)
c = smeft_tree.match_all_array(C, p)['V1udduLR']
assert abs(c[0, 0, 1, 0] + 1e-6) < 1e-12 and abs(c[0, 0, 0, 1]) < 1e-12, c[0, 0]
""")
seed("S23_warsaw_mass_dipole_uB", "P31",
     ("translate/smeft.py", "        _array = UuL.conj().T @ _array\n", "        _array = UuL.conj().T @ _array if name != 'uB' else (UuL.conj() @ _array.conj()).conj()\n"),
     "an off-diagonal up-quark hypercharge dipole", "the hypercharge dipole is rotated with the transposed matrix in the mass basis",
     """
from wilson.translate.smeft import warsaw_to_warsawmass as f
import wilson, ckmutil.ckm
from wilson.run.smeft.smpar import p
V = ckmutil.ckm.ckm_tree(p['Vus'], p['Vub'], p['Vcb'], p['gamma'])
C = {'uB_12': 1e-3, 'uG_12': 1e-3}
d = f(C)
for i in '123':
    assert abs(d['uB_%s2' % i] - d['uG_%s2' % i]) < 1e-15
""")
seed("S24_flavio_sector_filter", "P35",
     ("translate/wet.py", "            if sectors is None or ('db' in sectors and l == lp) or ('db'+ l + lp in sectors):\n                d.update(Fierz_to_Flavio_lep(", "            if sectors is None or ('db' in sectors and l == lp) or ('db'+ lp + l in sectors):\n                d.update(Fierz_to_Flavio_lep("),
     "a sector restriction to a lepton-flavour violating b to d sector", "restricted translation returns the transposed lepton flavours",
     """
import wilson.translate.wet as w
from wilson import wcxf
C = {k: 1e-3 for k in wcxf.Basis['WET', 'JMS'].sectors['dbemu']}
full = w.JMS_to_flavio(C, 80.)
part = w.JMS_to_flavio(C, 80., sectors=('dbemu',))
keys = wcxf.Basis['WET', 'flavio'].sectors['dbemu']
for k in keys:
    assert abs(full.get(k, 0) - part.get(k, 0)) < 1e-12, k
""")
seed("S25_fierz_color", "P34",
     ("translate/wet.py", "            'V8udduLR_' + f4 + f1 + f2 + f3: -F['F' + qqqq + '7'].conjugate(),\n            'V1udduLR_' + f4 + f1 + f2 + f3: -(F['F' + qqqq + '7'].conjugate() / (2 * Nc)) - F['F' + qqqq + '8'].conjugate() / 2,\n            'S8udduRR_' + f3 + f2 + f1 + f4: -16 * F['F' + qqqq + '9'],\n            'V1udRR_' + f3 + f4 + f1 + f2: F['F' + qqqq + '1p'] + F['F' + qqqq + '2p'] / Nc,\n            'V8udRR_' + f3 + f4 + f1 + f2: 2 * F['F' + qqqq + '2p'],\n            'V1udLR_' + f3 + f4 + f1 + f2: F['F' + qqqq + '3p'] + F['F' + qqqq + '4p'] / Nc,",
      "            'V8udduLR_' + f4 + f1 + f2 + f3: -F['F' + qqqq + '7'].conjugate(),\n            'V1udduLR_' + f4 + f1 + f2 + f3: -(F['F' + qqqq + '7'].conjugate() / (2 * Nc)) - F['F' + qqqq + '8'].conjugate() / 2,\n            'S8udduRR_' + f3 + f2 + f1 + f4: -16 * F['F' + qqqq + '9'],\n            'V1udRR_' + f3 + f4 + f1 + f2: F['F' + qqqq + '1p'] + F['F' + qqqq + '2p'] / (2 * Nc),\n            'V8udRR_' + f3 + f4 + f1 + f2: 2 * F['F' + qqqq + '2p'],\n            'V1udLR_' + f3 + f4 + f1 + f2: F['F' + qqqq + '3p'] + F['F' + qqqq + '4p'] / Nc,"),
     "a colour-crossed right-handed down-up coefficient of the Bern basis", "a colour factor is halved in the Fierz identity of one operator class",
     """
import wilson.translate.wet as w
from wilson import wcxf
ks = [k for s in ('sbuc', 'sbcu') if s in wcxf.Basis['WET', 'Bern'].sectors for k in wcxf.Basis['WET', 'Bern'].sectors[s]]
ks = ks or [k for k in wcxf.Basis['WET', 'Bern'].all_wcs if 'sbuc' in k or 'sbcu' in k]
C = {k: 0.1 + 0.01 * i for i, k in enumerate(ks)}
b = w.JMS_to_Bern(w.Bern_to_JMS(C, 80.), 80.)
for k in C: assert abs(b[k] - C[k]) < 1e-9, (k, b[k], C[k])
""")
seed("S26_params_ms_from_mb", "P35",
     ("translate/wet.py", "    parameters['m_u'] = m_s(p['m_u'], scale, f, p['alpha_s'])\n    parameters['m_d'] = m_s(p['m_d'], scale, f, p['alpha_s'])", "    parameters['m_u'] = m_s(p['m_u'], scale, f)\n    parameters['m_d'] = m_s(p['m_d'], scale, f)"),
     "a user value of alpha_s different from the default", "light quark masses are evolved with the default strong coupling",
     """
import wilson.translate.wet as w
from wilson import parameters
a = w.get_parameters(80., 5, {'alpha_s': 0.125})
b = w.get_parameters(80., 5, {'alpha_s': 0.115})
assert abs(a['m_u'] / b['m_u'] / (a['m_s'] / b['m_s']) - 1) < 1e-12
""")
seed("S27_cache_ignores_basis", "P36",
     ("classes.py", "            return self._cache[eft][scale][basis][sector]\n", "            bases = self._cache[eft][scale]\n            if basis not in bases and sector != 'all':\n                basis = next(iter(bases))\n            return bases[basis][sector]\n"),
     "two calls with a sector selection at the same EFT and scale but different bases", "the second call returns the result of the first, in the wrong basis",
     """
from wilson import Wilson
w = Wilson({'C9_bsmumu': 1.0}, 80., 'WET', 'flavio')
a = w.match_run(4.8, 'WET', 'JMS', sectors=('sb',))
b = w.match_run(4.8, 'WET', 'flavio', sectors=('sb',))
assert (b.basis, a.basis) == ('flavio', 'JMS')
""")
seed("S28_mc_scale_for_both", "P38",
     ("classes.py", "            wc_mc = wet4.run(mc, sectors=sectors).match('WET-3', 'JMS', parameters=self.matching_parameters)", "            wc_mc = wet4.run(min(mc, 1.3), sectors=sectors).match('WET-3', 'JMS', parameters=self.matching_parameters)"),
     "a charm matching scale above the default and a run from WET to WET-3", "the charm matching scale set by the user is ignored when it is larger than the default",
     """
from wilson import Wilson
import wilson.classes as c
seen = []
o = c.WETrunner.run
def run(self, scale, sectors='all'):
    seen.append(scale); return o(self, scale, sectors=sectors)
c.WETrunner.run = run
w = Wilson({'VedLL_1111': 1e-3}, 80., 'WET', 'JMS')
w.set_option('mc_matchingscale', 1.6)
w.match_run(1.0, 'WET-3', 'JMS')
assert seen == [4.2, 1.6, 1.0], seen
""")
seed("S29_matching_at_ew_uses_run", "P37",
     ("classes.py", "                    if self.wc.scale == scale_ew:\n", "                    if self.wc.scale <= scale_ew:\n"),
     "SMEFT coefficients given below the electroweak matching scale", "the coefficients are matched without being run up to the matching scale",
     """
from wilson import Wilson
import wilson.classes as c
seen = []
o = c.SMEFT.run
def run(self, scale, **k):
    seen.append(scale); return o(self, scale, **k)
c.SMEFT.run = run
w = Wilson({'phiq1_33': 1e-7}, 85., 'SMEFT', 'Warsaw')
w.set_option('smeft_accuracy', 'leadinglog')
w.match_run(80., 'WET', 'JMS')
assert seen == [91.1876], seen
""")
seed("S30_hash_ignores_parameters", "P40",
     ("classes.py", "        options = frozenset((k, frozenset(v.items()) if isinstance(v, dict) else v)", "        options = frozenset((k, frozenset(v) if isinstance(v, dict) else v)"),
     "two values of the same user parameter", "the hash does not change when the value of a parameter changes",
     """
from wilson import Wilson
w = Wilson({'C9_bsmumu': 1.0}, 80., 'WET', 'flavio')
w.set_option('parameters', {'Vus': 0.22}); a = hash(w)
w.set_option('parameters', {'Vus': 0.23}); b = hash(w)
assert a != b
""")
