"""P43: the Standard Model parameters a SMEFT run starts from (SMEFT.__init__ and what it calls).

The evolution, the extraction of parameters at the electroweak scale and the
rotation to the Warsaw basis are replaced by their contracts: free functions,
each call returning new unknowns.  What is compared is where every number in
the initial condition comes from."""
import numpy as np
from ..harness import obligation, StopPath
from ..sym.num import as_num, is_zero
from . import smeft_spec as S
from wilson import wcxf
from wilson.util import smeftutil
import wilson.run.smeft.rge as rge
import wilson.run.smeft.smpar as smpar
from wilson.run.smeft.classes import SMEFT

K = "wilson.run.smeft.classes:SMEFT."
DIM4 = list(S.DIM4)
MZ = 91.1876
SCAL = [k for k in DIM4 if smeftutil.C_keys_shape[k] == 1]


def unknown(x, tag, keys):
    out = {}
    for k in keys:
        sh = smeftutil.C_keys_shape[k]
        out[k] = x.real(f"{tag}{k}") if sh == 1 else x.carr(f"{tag}{k}", sh)
    return out


def same(x, a, b):
    if np.shape(a) != np.shape(b):
        return False
    a, b = np.ravel(np.asarray(a, dtype=object)), np.ravel(np.asarray(b, dtype=object))
    if x.mode == "num":
        return all(abs(complex(p) - complex(q)) < 1e-12 for p, q in zip(a, b))
    return all(is_zero(as_num(p) - as_num(q), scale=1.0) for p, q in zip(a, b))


class Callees:
    def __init__(self, x, keys=None):
        self.x, self.calls = x, {"evolve": [], "ll": [], "smeftpar": [], "smpar": [], "rotate": []}
        self.n = 0

    def _new(self, kind, keys, **rec):
        self.n += 1
        rec["out"] = unknown(self.x, f"{kind}{self.n}_", keys)
        self.calls[kind].append(rec)
        return dict(rec["out"])

    def evolve(self, C_in, scale_in, scale_out, newphys=True, **kw):
        return self._new("evolve", smeftutil.C_keys, C=dict(C_in), a=scale_in, b=scale_out, newphys=newphys)

    def ll(self, C_in, scale_in, scale_out, newphys=True):
        return self._new("ll", list(C_in), C=dict(C_in), a=scale_in, b=scale_out, newphys=newphys)

    def smeftpar(self, scale, C, basis):
        return self._new("smeftpar", DIM4, C=dict(C), scale=scale, basis=basis)

    def smpar(self, C):
        self.n += 1
        out = {"m_W": self.x.real(f"smpar{self.n}")}
        self.calls["smpar"].append({"C": dict(C), "out": out})
        return dict(out)

    def rotate(self, C):
        return self._new("rotate", smeftutil.C_keys, C=dict(C))

    def find(self, kind, got, keys, what):
        """the call of this kind that produced these values"""
        hits = [r for r in self.calls[kind] if all(k in r["out"] and same(self.x, got.get(k), r["out"][k]) for k in keys)]
        self.x.true(what, bool(hits), "no such call" if not self.calls[kind] else "values from elsewhere")
        if not hits:
            raise StopPath()
        return hits[-1]

    def __enter__(self):
        # the rotation is a static method of the class: replaced there
        self.old = SMEFT.__dict__.get("_rotate_defaultbasis")
        self.x.need(SMEFT, "_rotate_defaultbasis")
        SMEFT._rotate_defaultbasis = staticmethod(self.rotate)
        self.cm = self.x.lib(stubs={rge.smeft_evolve: self.evolve, rge.smeft_evolve_leadinglog: self.ll,
                                    smpar.smeftpar: self.smeftpar, smpar.smpar: self.smpar}, always=True)
        self.cm.__enter__()
        return self

    def __exit__(self, *e):
        SMEFT._rotate_defaultbasis = self.old
        return self.cm.__exit__(*e)


NAMES = ["uphi_33", "phi", "phiWB", "lq1_1123", "llphiphi_12", "qqql_1112", "ee_1122", "dG_23"]


def _wc(x):
    vals = {k: (x.real("w" + k) if k in ("phi", "phiWB", "ee_1122") else x.cplx("w" + k)) for k in NAMES}
    with x.lib():
        wc = wcxf.WC("SMEFT", "Warsaw", x.real("mu", pos=True, lo=200, hi=1e5), wcxf.WC.dict2values(dict(vals)))
    return wc, vals


def _wcs(x, label, C, want):
    for k in S.WCS:
        x.eq(f"{label}[{k}]", C.get(k), want[k])


def _expected(x, vals):
    with x.lib():
        A = smeftutil.wcxf2arrays_symmetrized(dict(vals))
    return {k: A.get(k, 0 if smeftutil.C_keys_shape[k] == 1 else np.zeros(smeftutil.C_keys_shape[k])) for k in S.WCS}


def _chain(x, c, got, want, mu, scale_sm):
    """got: SM parameters at the input scale"""
    x.true("exactly the SM parameters", all(k in got for k in DIM4), [k for k in DIM4 if k not in got])
    r2 = c.find("rotate", got, DIM4, "rotated to the Warsaw basis")
    e2 = c.find("evolve", r2["C"], smeftutil.C_keys, "the rotated parameters were run up")
    x.eq("run up from, to", [e2["a"], e2["b"]], [scale_sm, mu])
    x.true("Wilson coefficients do not run on the way up", e2["newphys"] is False)
    p2 = c.find("smeftpar", e2["C"], DIM4, "parameters imposed at the electroweak scale")
    x.eq("electroweak scale", p2["scale"], scale_sm)
    x.true("Warsaw basis", p2["basis"] == "Warsaw")
    l = c.find("ll", e2["C"], S.WCS, "coefficients held during the run up are those at the electroweak scale")
    _wcs(x, "coefficients the parameters are imposed with", p2["C"], l["out"])
    x.eq("leading log from, to", [l["a"], l["b"]], [mu, scale_sm])
    x.true("leading log with Wilson coefficients", l["newphys"] is True)
    _wcs(x, "leading log of", l["C"], want)
    r1 = c.find("rotate", l["C"], DIM4, "first estimate rotated")
    e1 = c.find("evolve", r1["C"], smeftutil.C_keys, "first estimate run up")
    x.eq("first estimate from, to", [e1["a"], e1["b"]], [scale_sm, mu])
    x.true("first estimate: coefficients do not run", e1["newphys"] is False)
    _wcs(x, "first estimate with", e1["C"], want)
    p1 = c.find("smeftpar", e1["C"], DIM4, "first estimate imposed at the electroweak scale")
    x.eq("electroweak scale (first)", p1["scale"], scale_sm)
    x.true("Warsaw basis (first)", p1["basis"] == "Warsaw")
    _wcs(x, "first estimate imposed with", p1["C"], want)


FN = [K + n for n in ("__init__", "_set_initial_wcxf", "_get_sm_scale_in", "_run_sm_scale_in", "_rgevolve", "_rgevolve_leadinglog", "_set_initial", "_check_initial")]


@obligation("P43", "initial condition with extracted parameters", FN, profiles=("parts", "imag", "neg"), cost=3, samples=1, fallback=2)
def _(x):
    wc, vals = _wc(x)
    with Callees(x) as c:
        s = SMEFT(wc)
    want = _expected(x, vals)
    x.eq("input scale", s.scale_in, wc.scale)
    _wcs(x, "coefficient", s.C_in, want)
    x.true("complete", set(s.C_in) == set(smeftutil.C_keys), sorted(set(s.C_in) ^ set(smeftutil.C_keys))[:5])
    x.eq("argument unchanged", wc.dict, vals)
    _chain(x, c, s.C_in, want, wc.scale, MZ)


@obligation("P43", "extraction at another electroweak scale", FN, profiles=("parts", "imag", "neg"), samples=1, fallback=2, cost=3)
def _(x):
    wc, vals = _wc(x)
    f = x.need(SMEFT, "_get_sm_scale_in")
    q = x.real("q", pos=True, lo=80, hi=200)
    with Callees(x) as c:
        s = SMEFT(wc, get_smpar=False)
        keep = dict(s.C_in)
        got = f(s, scale_sm=q)
    want = _expected(x, vals)
    x.true("only SM parameters", set(got) == set(DIM4), sorted(set(got) ^ set(DIM4))[:5])
    x.true("coefficients untouched", set(s.C_in) == set(keep) and all(s.C_in[k] is keep[k] for k in keep))
    _chain(x, c, got, want, wc.scale, q)


@obligation("P43", "initial condition without parameters; wrong input", FN, profiles=("parts", "imag", "neg"), samples=1, fallback=2)
def _(x):
    wc, vals = _wc(x)
    with Callees(x) as c:
        s = SMEFT(wc, get_smpar=False)
    x.true("nothing is computed", not any(c.calls.values()), {k: len(v) for k, v in c.calls.items()})
    want = _expected(x, vals)
    _wcs(x, "coefficient", s.C_in, want)
    x.true("no SM parameters", not set(s.C_in) & set(DIM4), sorted(set(s.C_in) & set(DIM4)))
    x.eq("input scale", s.scale_in, wc.scale)
    x.raises("wrong EFT", ValueError, SMEFT, wcxf.WC("WET", "JMS", 100., {}))
    x.raises("wrong basis", ValueError, SMEFT, wcxf.WC("SMEFT", "Warsaw up", 100., {}))
    e = SMEFT(None)
    x.raises("no coefficients", Exception, e.run, 100.)
    x.raises("no coefficients", Exception, e.run, 100., accuracy="leadinglog")
    t = SMEFT(None)
    C = unknown(x, "set", smeftutil.C_keys)
    t._set_initial(C, wc.scale)
    x.eq("set by hand", t.C_in, C)
    x.eq("set by hand: scale", t.scale_in, wc.scale)
    # parameters set by hand survive loading coefficients
    C2 = unknown(x, "set", DIM4)
    u = SMEFT(None)
    u._set_initial(dict(C2), x.real("other", pos=True))
    with Callees(x):
        u._set_initial_wcxf(wc, get_smpar=False)
    for k in DIM4:
        x.eq(f"parameter {k} kept", u.C_in.get(k), C2[k])
    _wcs(x, "coefficient loaded", u.C_in, want)
    x.eq("scale loaded", u.scale_in, wc.scale)


@obligation("P43", "parameters reported at the electroweak scale", [K + "get_smpar", K + "_rgevolve", K + "_rgevolve_leadinglog"], samples=1, profiles=("parts", "imag", "neg"), fallback=2)
def _(x):
    wc, vals = _wc(x)
    for acc, kind in ((None, "evolve"), ("integrate", "evolve"), ("leadinglog", "ll")):
        for q in (None, x.real("q", pos=True, lo=80, hi=200)):
            t = SMEFT(None)
            C = unknown(x, "in", smeftutil.C_keys)
            t._set_initial(dict(C), wc.scale)
            kw = {k: v for k, v in (("accuracy", acc), ("scale_sm", q)) if v is not None}
            with Callees(x) as c:
                got = t.get_smpar(**kw)
            lab = f"{acc} {q is not None}"
            x.true(lab + " one evolution, one extraction", {k: len(v) for k, v in c.calls.items() if v} == {kind: 1, "smpar": 1})
            e, s = c.calls[kind][0], c.calls["smpar"][0]
            x.eq(lab + " evolved", e["C"], C)
            x.eq(lab + " from, to", [e["a"], e["b"]], [wc.scale, MZ if q is None else q])
            x.true(lab + " everything runs", e["newphys"] is True)
            x.eq(lab + " extracted from", {k: s["C"].get(k) for k in C}, e["out"])
            x.eq(lab + " reported", got, s["out"])
            x.eq(lab + " input kept", t.C_in, C)
    x.raises("unknown accuracy", ValueError, t.get_smpar, accuracy="exact")


CASES = [({}, 1000.), ({}, 150.), ({}, 1e5), ({"phiWB": 1e-7, "uphi_33": 1e-7, "phi": 1e-7, "phiD": 1e-8}, 1000.),
         ({"dphi_33": 1e-8, "phiG": 1e-8, "phiBox": 1e-7}, 1e4), ({"llphiphi_33": 1e-15, "phiW": 1e-8, "phiB": -1e-8, "uphi_22": 2e-9}, 3e3)]


@obligation("P43", "running back reproduces the measured parameters", FN + [K + "get_smpar"], samples=1, fallback=1, cost=15,
            bounded="six inputs with small coefficients between 150 GeV and 100 TeV, tolerance one per cent (the real evolution runs)")
def _(x):
    x.clauses += 1
    if x.mode != "num":
        return
    for vals, mu in CASES:
        s = SMEFT(wcxf.WC("SMEFT", "Warsaw", mu, vals))
        for acc in ("integrate", "leadinglog") if mu <= 1000 else ("integrate",):
            got = s.get_smpar(accuracy=acc)
            tol = 1e-2 if acc == "integrate" else 0.15
            bad = {k: (got[k], v) for k, v in smpar.p.items() if not abs(got[k] - v) <= tol * abs(v)}
            x.true(f"{vals} {mu} {acc}", not bad, bad)


@obligation("P43", "initial conditions of different objects are independent", FN, samples=1, fallback=1, cost=3,
            bounded="two inputs, in both orders")
def _(x):
    x.clauses += 1
    if x.mode != "num":
        return
    A = ({"uphi_33": 1e-7, "phiWB": 1e-8}, 2000.)
    B = ({"dphi_33": 1e-8, "phi": 1e-7}, 500.)
    first = {}
    for order in ((A, B), (B, A), (A, A)):
        for vals, mu in order:
            s = SMEFT(wcxf.WC("SMEFT", "Warsaw", mu, dict(vals)))
            C = {k: np.array(v) for k, v in s.C_in.items()}
            s.run(100., accuracy="leadinglog")
            x.true(f"running leaves the initial condition alone {mu}", all(np.array_equal(C[k], s.C_in[k]) for k in C))
            ref = first.setdefault(mu, C)
            bad = [k for k in ref if not np.allclose(ref[k], C[k], rtol=1e-9, atol=0)]
            x.true(f"same initial condition {mu}", not bad, bad)
