seed("S61_child_empties_sector", "P03",
     ("wcxf/classes.py", "self.sectors.update(sectors)", "self.sectors.update((k, v) for k, v in sectors.items() if v)"),
     "a child basis that redefines a sector of its parent as empty",
     "the parent's coefficients stay in the sector",
     """
from wilson import wcxf
wcxf.EFT('EX', {'a': {}, 'b': {}})
wcxf.Basis('EX', 'P', {'a': {'x': None}, 'b': {'y': None}})
c = wcxf.Basis('EX', 'C', {'b': {}}, parent='P')
assert list(c.all_wcs) == ['x'], c.all_wcs
""")
seed("S62_none_fields_not_written", "P02",
     ("wcxf/classes.py", "if k[0] != '_'}", "if k[0] != '_' and v is not None}"),
     "a file with an empty field (None)",
     "the field is lost on writing and loading",
     """
from wilson import wcxf
w = wcxf.WC('WET', 'flavio', 80., {}, metadata=None, note='x')
b = wcxf.WC.load(w.dump())
assert hasattr(b, 'metadata') and b.metadata is None and b.note == 'x', b.__dict__
""")
seed("S63_empty_selection_is_everything", "P04",
     ("wcxf/classes.py", "        if sectors is None:\n            dict_out = self.function(WC_in.dict", "        if not sectors:\n            dict_out = self.function(WC_in.dict"),
     "a translation with an empty selection of sectors",
     "the empty selection does not reach the translation function, everything is translated",
     """
from wilson import wcxf
got = []
@wcxf.translator('EX', 'A', 'B')
def f(C, scale, parameters, sectors='not given'):
    got.append(sectors)
    return {}
wcxf.WC('EX', 'A', 5, {}).translate('B', sectors=())
assert got == [()], got
""")
seed("S64_dsixtools_dimension_scale", "P08",
     ("wcxf/converters/dsixtools.py", "d[k] = d[k] / self.scale_high**2", "d[k] = d[k] / scale_out**2"),
     "coefficients returned at a scale different from the high scale of the DSixTools file",
     "dimensionless coefficients are converted with the wrong power of the high scale",
     """
from wilson import wcxf
from wilson.wcxf.converters.dsixtools import SMEFTio
io = SMEFTio()
io.set_initial_wcxf(wcxf.WC('SMEFT', 'Warsaw', 1000., {'phiG': 1e-6}), scale_high=5000.)
assert abs(io.get_wcxf(io.C_in, 1000.)['phiG'] / 1e-6 - 1) < 1e-9
""")
seed("S65_smeftsim_integer_cutoff", "P07",
     ("wcxf/cli.py", "smeftsim_card_fill(card, wc, args.model_set, args.cutoff_scale, args.input_scheme)", "smeftsim_card_fill(card, wc, args.model_set, int(args.cutoff_scale), args.input_scheme)"),
     "a cutoff scale with a fractional part on the command line",
     "the card written by the command differs from the library's",
     """
import os, sys, tempfile
from wilson import wcxf
from wilson.wcxf import cli
d = tempfile.mkdtemp()
os.chdir(d)
with open('w.json', 'w') as f:
    wcxf.WC('SMEFT', 'Warsaw mass', 100., {'phi': 1e-6}).dump(f)
sys.argv = ['wcxf2smeftsim', 'w.json', '--output', 'o.dat', '--cutoff-scale', '1234.5']
cli.smeftsim()
t = open('o.dat').read()
import shutil
os.chdir('/')
shutil.rmtree(d)
assert '1.2345' in t or '1234.5' in t
""")
seed("S66_solver_options_lost", "P21",
     ("run/smeft/rge.py", "    sol = _smeft_evolve(C_in, scale_in, scale_out, newphys=newphys, **kwargs)\n    return", "    sol = _smeft_evolve(C_in, scale_in, scale_out, newphys=newphys)\n    return"),
     "a run with options for the solver, e.g. a tighter tolerance",
     "the accuracy asked for is not reached",
     """
import numpy as np
from wilson.run.smeft import rge, smpar
from wilson.util import smeftutil
C = {k: (0 if sh == 1 else np.zeros(sh, complex)) for k, sh in smeftutil.C_keys_shape.items()}
C.update(smpar.smeftpar(91.1876, dict(C), 'Warsaw'))
a = rge.smeft_evolve(C, 91.1876, 1e9, newphys=False)
b = rge.smeft_evolve(C, 91.1876, 1e9, newphys=False, rtol=1e-10, atol=1e-12)
assert abs(a['gs'] - b['gs']) > 1e-13, 'options have no effect'
""")
seed("S67_smeft_cache_label", "P36",
     ("classes.py", "self._set_cache('all', scale, 'SMEFT', wc_out.basis, wc_out)", "self._set_cache('all', scale, 'SMEFT', self.wc.basis, wc_out)"),
     "two calls at one scale for SMEFT bases, the first other than the input basis, the second the input basis",
     "the second call returns coefficients in the basis of the first",
     """
from wilson import Wilson
w = Wilson({'phiG': 1e-8}, 1000., 'SMEFT', 'Warsaw')
w.set_option('smeft_accuracy', 'leadinglog')
a = w.match_run(500., 'SMEFT', 'Warsaw up')
b = w.match_run(500., 'SMEFT', 'Warsaw')
assert (a.basis, b.basis) == ('Warsaw up', 'Warsaw'), (a.basis, b.basis)
""")
seed("S68_wet3_options_lost", "P38",
     ("classes.py", "            wc_mc = wet4.run(mc, sectors=sectors).match('WET-3', 'JMS', parameters=self.matching_parameters)\n            wet3 = WETrunner(wc_mc, **self._wetrun_opt())", "            wc_mc = wet4.run(mc, sectors=sectors).match('WET-3', 'JMS', parameters=self.matching_parameters)\n            wet3 = WETrunner(wc_mc, parameters=self.parameters)"),
     "a run from WET to WET-3 with QED or QCD switched off",
     "the three-flavour part of the run ignores the option",
     """
from wilson import Wilson
w = Wilson({'VeuLR_1111': 1e-4, 'dgamma_12': 1e-4}, 80., 'WET', 'JMS')
w.set_option('qcd_order', 0)
w.set_option('qed_order', 0)
a = w.match_run(1.0, 'WET-3', 'JMS')
assert abs(a['VeuLR_1111'] - 1e-4) < 1e-9 and abs(a['VeuLR_1111'] / 1e-4 - 1) < 1e-10, a['VeuLR_1111']
""")
seed("S69_reset_option_keeps_cache", "P36",
     ("classes.py", "        self._options.update(self._option_schema({key: value}))\n        self.clear_cache()", "        self._options.update(self._option_schema({key: value}))\n        if self._options[key] != self._default_options[key]:\n            self.clear_cache()"),
     "an option changed, a call, the option set back to its default value, the same call",
     "the result with the changed option is returned",
     """
from wilson import Wilson
w = Wilson({'CSRR_sbemu': 1e-4} if False else {'S1ddRR_1323': 1e-4}, 80., 'WET', 'JMS')
a = w.match_run(5., 'WET', 'JMS')['S1ddRR_1323']
w.set_option('qcd_order', 0); w.set_option('qed_order', 0)
b = w.match_run(5., 'WET', 'JMS')['S1ddRR_1323']
w.set_option('qed_order', 1); w.set_option('qcd_order', 1)
c = w.match_run(5., 'WET', 'JMS')['S1ddRR_1323']
assert abs(a - b) > 1e-6 and a == c, (a, b, c)
""")
seed("S70_sector_prefix", "P39",
     ("run/wet/classes.py", "if sectors == 'all' or sector in sectors:", "if sectors == 'all' or any(sector.startswith(s) for s in sectors):"),
     "a restriction to a sector whose name is the beginning of another sector's name",
     "coefficients of the other sector are returned as well",
     """
from wilson.run.wet.classes import WETrunner
from wilson import wcxf
b = wcxf.Basis['WET', 'JMS'].sectors
s1, s2 = next((s, t) for s in b for t in b if s != t and t.startswith(s) and b[s] and b[t])
C = {list(b[s])[0]: 1e-4 for s in (s1, s2)}
out = WETrunner(wcxf.WC('WET', 'JMS', 80., C)).run(5., sectors=(s1,))
assert set(out.dict) <= set(b[s1]), (s1, s2, sorted(set(out.dict) - set(b[s1]))[:3])
""")
seed("S72_higgs_mass_default", "P32",
     ("translate/smeft_higgs.py", '    W = H.copy()\n\n    # parameters\n    # neglecting dim.-6 corrections here as these are higher-order\n    # when multiplying dim.-6 WCs!\n    v = 1 / sqrt(sqrt(2) * p["GF"])  # Higgs VEV\n    lam = p["m_h"] ** 2', '    W = H.copy()\n\n    # parameters\n    # neglecting dim.-6 corrections here as these are higher-order\n    # when multiplying dim.-6 WCs!\n    v = 1 / sqrt(sqrt(2) * p["GF"])  # Higgs VEV\n    lam = default_parameters["m_h"] ** 2'),
     "a user value of the Higgs mass",
     "one direction of the translation uses the default Higgs mass, so that the two do not invert each other",
     """
from wilson import wcxf
import wilson
par = {'m_h': 140.}
w = wcxf.WC('SMEFT', 'Higgs-Warsaw up', 1000., {'deltacz': 1e-3, 'deltalambda3': 2e-3, 'czBox': 1e-3})
b = w.translate('Warsaw up', parameters=par).translate('Higgs-Warsaw up', parameters=par)
assert abs(b['deltalambda3'] - 2e-3) < 1e-9, b['deltalambda3']
""")
seed("S73_small_phase_dropped", "P01",
     ("wcxf/classes.py", "        if v.imag != 0:\n            return {'Re'", "        if abs(v.imag) > 1e-15 * abs(v.real):\n            return {'Re'"),
     "a coefficient with an imaginary part more than fifteen orders of magnitude smaller than its real part",
     "the imaginary part is lost",
     """
from wilson import Wilson, wcxf
k = wcxf.Basis['WET', 'flavio'].all_wcs[0]
v = 1.0 + 1e-17j
assert Wilson({k: v}, 80., 'WET', 'flavio').wc[k] == v
""")
seed("S74_eos_interval_without_np", "P06",
     ("wcxf/converters/eos.py", "            eosd[k][q] = sm + np", "            eosd[k][q] = sm + np if np or q == 'central' else v.get(q, sm)"),
     "an EOS parameter without new-physics contribution whose file gives a range",
     "its minimum and maximum are not set to the central value",
     """
from collections import OrderedDict
from wilson import wcxf
from wilson.wcxf.converters.eos import wcxf2eos
w = wcxf.WC('WET', 'EOS', 4.2, {})
out = wcxf2eos(w, {'p': {'central': 1., 'min': .5, 'max': 2.}})
assert dict(out['p']) == {'central': 1., 'min': 1., 'max': 1.}, out
""")
seed("S75_neutrino_phase_step", "P43",
     ("run/smeft/classes.py", "        C_out = _smeft._rgevolve_leadinglog(scale_sm)\n        # Step 3", "        C_out = _smeft._rgevolve_leadinglog(91.1876)\n        # Step 3"),
     "a weak scale different from the Z mass",
     "the coefficients entering the extraction of the parameters are those at the Z mass",
     """
from wilson import wcxf
from wilson.run.smeft.classes import SMEFT
w = wcxf.WC('SMEFT', 'Warsaw', 3000., {'phiG': 1e-7})
s = SMEFT(w, get_smpar=False)
seen = []
orig = SMEFT._rgevolve_leadinglog
SMEFT._rgevolve_leadinglog = lambda self, sc: (seen.append(sc), orig(self, sc))[1]
s.C_in.update(s._run_sm_scale_in(s.C_in, scale_sm=200.))
s._get_sm_scale_in(scale_sm=200.)
assert seen == [200.], seen
""")
seed("S76_loop_log_sign_below_top", "P29",
     ("match/smeft_loop.py", """c['Gtilde'] = (-(g3bar**2*C["Gtilde"]*log(scale**2/mt**2))""", """c['Gtilde'] = (-(g3bar**2*C["Gtilde"]*log(max(scale, mt)**2/mt**2))"""),
     "a matching scale below the top mass",
     "the logarithm of the one-loop matching of the CP-odd three-gluon operator is dropped below the top mass",
     """
import numpy as np
from wilson.util import smeftutil
C = smeftutil.add_missing(smeftutil.wcxf2arrays_symmetrized({'Gtilde': 1e-8}))
from wilson.match import smeft_loop
from wilson.run.smeft.smpar import p
r1 = complex(smeft_loop.match_all_array(C, p, 100.)['Gtilde'])
r2 = complex(smeft_loop.match_all_array(C, p, 173.)['Gtilde'])
want = -4 * np.pi * p['alpha_s'] / (16 * np.pi ** 2) * np.log(100. ** 2 / 173. ** 2) * 1e-8
assert abs((r1 - r2).real - want) < 1e-3 * abs(want), (r1, r2, want)
""")
