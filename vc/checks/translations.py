"""P31-P35: translations between operator bases."""
import contextlib, json, os
import numpy as np
import ckmutil.ckm, ckmutil.diag
from ..harness import obligation, Missing
from .. import bases, tens
from ..sym.num import Num
from . import smeft_spec as S
from .arrays import _wcs
from wilson import wcxf
from wilson.util import smeftutil, smeft_warsaw
from wilson.translate import smeft as tsm, smeft_higgs as hig, wet as twet
from wilson.parameters import p as DEFAULTS

TS, TH, TW, TI = "wilson.translate.smeft:", "wilson.translate.smeft_higgs:", "wilson.translate.wet:", "wilson.translate:"
CKM = ("Vus", "Vub", "Vcb", "gamma")
DOWN, UP, MASS, HIGGS = "Warsaw", "Warsaw up", "Warsaw mass", "Higgs-Warsaw up"


class Ckm:
    """contract of ckmutil.ckm.ckm_tree: some unitary matrix, a function of the four parameters"""

    def __init__(self, x, V):
        self.x, self.V, self.calls, self.seen = x, V, [], False

    def __call__(self, *a, **k):
        self.calls.append((a, k))
        return self.V

    def check(self, tag, p):
        self.seen |= bool(self.calls)
        if not self.seen:
            raise Missing("the CKM matrix is not taken from ckmutil.ckm.ckm_tree")
        for a, k in self.calls:
            self.x.eq(f"{tag}: arguments of the CKM matrix", list(a) + list(k.values()), [p[q] for q in CKM])
        self.calls.clear()


def override(x):
    """(parameters argument, effective parameters)"""
    own = {**{q: x.real("own_" + q) for q in CKM}, "GF": x.real("own_GF", pos=True, lo=1e-5, hi=2e-5)}
    for a in (None, {}, own):
        yield a, {**DEFAULTS, **(a or {})}


def unitary(x, name="V"):
    if x.mode != "num":
        return x.carr(name, (3, 3))
    q, _ = np.linalg.qr(x.carr(name, (3, 3)))
    return q


def function(eft, src, dst):
    """the registered translation"""
    try:
        return wcxf.Translator[eft, src, dst].function
    except (KeyError, AttributeError):
        raise Missing(f"no translation {eft} {src} -> {dst}")


@contextlib.contextmanager
def attrs(obj, **new):
    """methods of an object replaced by their contracts"""
    for n in new:
        if not callable(getattr(obj, n, None)):
            raise Missing(f"{obj}.{n}")
    saved = {n: obj.__dict__[n] for n in new if n in obj.__dict__}
    obj.__dict__.update(new)
    try:
        yield
    finally:
        for n in new:
            del obj.__dict__[n]
        obj.__dict__.update(saved)


# ------------------------------------------------------------------ P31
def _rot(V, up):
    one = np.eye(3)
    return {"q": V.conj().T if up else V, "u": one, "d": one, "l": one, "e": one}


for _src, _dst in ((DOWN, UP), (UP, DOWN)):
    for _part in range(4):
        def _f(x, src=_src, dst=_dst, part=_part):
            tr = function("SMEFT", src, dst)
            V = unitary(x)
            ckm = Ckm(x, V)
            wcs = _wcs(x, "SMEFT", pick=lambda k: bases.SMEFT_ORDER.index(k.split("_")[0]) % 4 == part)
            for tag, pick in (("all", wcs), ("subset", {k: v for i, (k, v) in enumerate(wcs.items()) if i % 5 == 0})):
                for par, eff in override(x):
                    if tag == "all" and par is not None or tag != "all" and par == {}:
                        continue
                    with x.lib(stubs={ckmutil.ckm.ckm_tree: ckm}, always=True):
                        before = dict(pick)
                        got = tr(pick, 160.0, par)
                        A = smeftutil.wcxf2arrays_symmetrized(dict(pick))
                        want = smeftutil.arrays2wcxf_nonred(S.rotate(x, {k: v for k, v in A.items() if k in S.WCS}, _rot(V, dst == UP)))
                    x.eq(f"{tag}: coefficients", got, want, absent=0)
                    x.true(f"{tag}: names", set(got) <= set(wcxf.Basis["SMEFT", dst].all_wcs))
                    x.eq(f"{tag}: argument unchanged", pick, before)
                    ckm.check(tag, eff)
        obligation("P31", f"{_src} -> {_dst} rotates the quark doublets, part {_part}",
                   [TS + ("warsaw_to_warsaw_up" if _dst == UP else "warsaw_up_to_warsaw"), TI + ("warsaw_to_warsaw_up" if _dst == UP else "warsaw_up_to_warsaw"),
                    "wilson.util.smeft_warsaw:flavor_rotation"], cost=4, fallback=2,
                   assumptions=["ckmutil.ckm.ckm_tree returns the CKM matrix of its four arguments"])(_f)


@obligation("P31", "to the up basis and back", [TS + "warsaw_to_warsaw_up", TS + "warsaw_up_to_warsaw"], engine="tensor",
            assumptions=["the CKM matrix is unitary", "conversion between coefficients and arrays is the identity (P12)"])
def _(x):
    V = x.tensor("V", 2, unitary=True)
    ckm = Ckm(x, V)
    C = {k: v for k, v in S.tensors(x, sym=True).items() if k in S.WCS}
    same = lambda D: dict(D)
    calls = []

    def into(D):
        calls.append("in")
        return dict(D)

    def out(D):
        calls.append("out")
        return dict(D)
    a, b = function("SMEFT", DOWN, UP), function("SMEFT", UP, DOWN)
    with attrs(smeftutil, wcxf2arrays_symmetrized=into, arrays2wcxf_nonred=out), x.lib(stubs={ckmutil.ckm.ckm_tree: ckm}, always=True):
        up = a(C, 160.0, None)
        down = b(C, 160.0, None)
        back, forth = b(up, 160.0, None), a(down, 160.0, None)
    if calls.count("in") != 4 or calls.count("out") != 4:
        raise Missing("coefficients are not converted with wcxf2arrays_symmetrized / arrays2wcxf_nonred")
    x.eq("Warsaw -> up -> Warsaw", back, C)
    x.eq("up -> Warsaw -> up", forth, C)
    for n in C:      # hermiticity and flavour symmetries survive, so that the conversion loses nothing
        for perm, cj, sg in S.symmetry(n) or ():
            t = x.np.conj(up[n]) if cj else up[n]
            w = x.einsum("abcd"[:len(perm)] + "->" + "".join("abcd"[q] for q in np.argsort(perm)), t)
            x.eq(f"symmetry of {n} {perm}", sg * w, up[n])


@obligation("P31", "Warsaw -> Warsaw mass", [TS + "warsaw_to_warsawmass", TS + "smeft_toarray", TS + "smeft_fromarray", TI + "warsaw_to_warsawmass"], cost=2, fallback=3,
            assumptions=["ckmutil.diag.msvd returns the singular values of its argument", "ckmutil.ckm.ckm_tree returns the CKM matrix of its four arguments"])
def _(x):
    tr = function("SMEFT", DOWN, MASS)
    V = unitary(x)
    ckm = Ckm(x, V)
    every = _wcs(x, "SMEFT")
    sv = x.rarr("sv", (3,))
    seen = []

    def msvd(m):
        seen.append(m)
        return (x.np.eye(3), sv)
    names = ("uphi", "uG", "uW", "uB")
    for tag, wcs in (("all", every), ("some", {k: v for i, (k, v) in enumerate(every.items()) if i % 3 == 0})):
        for par, eff in override(x):
            before = dict(wcs)
            with x.lib(stubs={ckmutil.ckm.ckm_tree: ckm, ckmutil.diag.msvd: msvd}, always=True):
                got = tr(wcs, 160.0, par)
            want = dict(before)
            for n in names:
                A = x.array([[before.get(f"{n}_{i}{j}", 0) + 0j for j in (1, 2, 3)] for i in (1, 2, 3)])
                R = x.einsum("ij,jk->ik", V, A)
                want.update({f"{n}_{i + 1}{j + 1}": R[i, j] for i in range(3) for j in range(3)})
            want.update({f"llphiphi_{i + 1}{j + 1}": sv[i] if i == j else 0 for i in range(3) for j in range(3)})
            x.eq(f"{tag}: coefficients", got, want, absent=0)
            x.eq(f"{tag}: argument unchanged", wcs, before)
            ckm.check(tag, eff)
            if not seen and par is None and tag == "all":
                raise Missing("the Weinberg operator is not diagonalised with ckmutil.diag.msvd")
            for m in seen:
                n = lambda i, j: before.get(f"llphiphi_{min(i, j) + 1}{max(i, j) + 1}", 0)
                x.eq(f"{tag}: diagonalised matrix", m, x.array([[n(i, j) + 0j for j in range(3)] for i in range(3)]))
            seen.clear()


# ------------------------------------------------------------------ P32
MIXED = ("phi phiBox phiD phiG phiB phiW phiWB phiGtilde phiBtilde phiWtilde phiWtildeB phil1 phil3 phie phiq1 phiq3 phiu phid phiud").split()
HPAR = ("GF", "m_h", "m_Z", "alpha_e", "alpha_s")


def hpar(x):
    rng = {"GF": (1.1e-5, 1.2e-5), "m_h": (120, 130), "m_Z": (90, 92), "alpha_e": (0.0075, 0.0080), "alpha_s": (0.1, 0.13)}
    return {k: x.real(k, pos=True, lo=rng[k][0], hi=rng[k][1]) for k in HPAR}


def hwcs(x, basis, pick=None):
    out = {}
    for s in wcxf.Basis["SMEFT", basis].sectors.values():
        for k, v in s.items():
            if pick is None or pick(k):
                out[k] = x.real(k) if v.get("real") else x.cplx(k)
    return out


def ew(x, p):
    """gauge couplings from GF, m_Z, alpha_e at tree level"""
    sq = x.np.sqrt
    e = sq(4 * np.pi * p["alpha_e"])
    s2 = (1 - sq(1 - 4 * np.pi * p["alpha_e"] / (2 ** .5 * p["GF"] * p["m_Z"] ** 2))) / 2
    lam = p["m_h"] ** 2 * (2 ** .5 * p["GF"]) / 2
    return e / sq(s2), e / sq(1 - s2), sq(4 * np.pi * p["alpha_s"]), lam


def herm(x, C, n):
    z = lambda i, j: C.get(f"{n}_{i}{j}", 0) + 0j if i <= j else x.np.conj(C.get(f"{n}_{j}{i}", 0) + 0j)
    return x.array([[z(i, j) for j in (1, 2, 3)] for i in (1, 2, 3)])


def to_higgs(x, W, p, V):
    """LHCHXSWG-INT-2015-001: Higgs-basis couplings in terms of Warsaw coefficients (up-aligned)"""
    g, gp, gs, lam = ew(x, p)
    w = lambda k: W.get(k, 0)
    H = {k: v for k, v in W.items() if k.split("_")[0] not in MIXED}
    dv = w("ll_1221") / 4 - w("phil3_11") / 2 - w("phil3_22") / 2     # contribution to GF
    D = g ** 2 - gp ** 2

    def f(T3, Q):
        return -Q * g * gp / D * w("phiWB") + (dv - w("phiD") / 4) * (T3 + Q * gp ** 2 / D)
    for i in (1, 2, 3):
        for j in (1, 2, 3):
            o, d = f"_{i}{j}", (1 if i == j else 0)
            H["deltagWqR" + o] = -w("phiud" + o) / 2
            if j < i:
                continue
            H["deltagWlL" + o] = w("phil3" + o) + d * (f(.5, 0) - f(-.5, -1))
            H["deltagZeL" + o] = -(w("phil3" + o) + w("phil1" + o)) / 2 + d * f(-.5, -1)
            H["deltagZeR" + o] = -w("phie" + o) / 2 + d * f(0, -1)
            H["deltagZuL" + o] = (w("phiq3" + o) - w("phiq1" + o)) / 2 + d * f(.5, 2 / 3)
            H["deltagZuR" + o] = -w("phiu" + o) / 2 + d * f(0, 2 / 3)
            H["deltagZdR" + o] = -w("phid" + o) / 2 + d * f(0, -1 / 3)
    R = x.einsum("ai,ab,bj->ij", x.np.conj(V), herm(x, W, "phiq3") + herm(x, W, "phiq1"), V)
    for i in range(3):
        for j in range(i, 3):
            H[f"deltagZdL_{i + 1}{j + 1}"] = -R[i, j] / 2 + (f(-.5, -1 / 3) if i == j else 0)
    H["deltalambda3"] = lam * (3 * w("phiBox") - 3 / 4 * w("phiD") + dv) - w("phi")
    H["deltacz"] = w("phiBox") - w("phiD") / 4 + 3 * dv
    H["czBox"] = (w("phiD") / 2 - 2 * dv) / g ** 2
    s, t = g ** 2, gp ** 2
    for e in ("", "tilde"):
        B, Wb, M, G = w("phiB" + e), w("phiW" + e), w("phiWB" if not e else "phiWtildeB"), w("phiG" + e)
        H["cgg" + e] = 4 * G / gs ** 2
        H["cgammagamma" + e] = 4 * (Wb / s + B / t - M / (g * gp))
        H["czz" + e] = 4 * (s * Wb + t * B + g * gp * M) / (s + t) ** 2
        H["czgamma" + e] = (4 * Wb - 4 * B - 2 * (s - t) / (g * gp) * M) / (s + t)
    return H


HF = {(UP, HIGGS): (TH + "warsaw_up_to_higgslike", TI + "warsaw_up_to_higgs_up"), (HIGGS, UP): (TH + "higgslike_to_warsaw_up", TI + "higgs_up_to_warsaw_up")}
HA = ["ckmutil.ckm.ckm_tree returns the CKM matrix of its four arguments", "couplings positive, 4 pi alpha_e < sqrt(2) GF m_Z^2"]


def kept(k):
    return k.split("_")[0] not in MIXED and not k.startswith(("deltag", "cz", "cg", "deltac", "deltal"))


@obligation("P32", "Warsaw up -> Higgs-Warsaw up", list(HF[UP, HIGGS]), cost=3, fallback=3, assumptions=HA)
def _(x):
    tr = function("SMEFT", UP, HIGGS)
    V = unitary(x)
    ckm = Ckm(x, V)
    p = hpar(x)
    W = hwcs(x, UP)
    some = {k: v for i, (k, v) in enumerate(W.items()) if i % 4 == 1}
    for tag, C, par in (("all", W, {**p, **{q: x.real("own_" + q) for q in CKM}}), ("some", some, {**p, "Vcb": x.real("own_Vcb")}), ("default", some, None)):
        before = dict(C)
        with x.lib(stubs={ckmutil.ckm.ckm_tree: ckm}, always=True):
            got = tr(C, 160.0, par)
            want = to_higgs(x, C, {**DEFAULTS, **(par or {})}, V)
        x.eq(f"{tag}: couplings", got, want, absent=0)
        x.true(f"{tag}: names", set(got) <= set(wcxf.Basis["SMEFT", HIGGS].all_wcs))
        x.eq(f"{tag}: argument unchanged", C, before)
        ckm.check(tag, {**DEFAULTS, **(par or {})})


@obligation("P32", "Higgs-Warsaw up -> Warsaw up inverts the definition of the Higgs couplings", list(HF[HIGGS, UP]), cost=3, fallback=3, assumptions=HA)
def _(x):
    tr = function("SMEFT", HIGGS, UP)
    V = unitary(x)
    ckm = Ckm(x, V)
    p = hpar(x)
    H = hwcs(x, HIGGS)
    some = {k: v for i, (k, v) in enumerate(H.items()) if i % 4 == 1}
    for tag, C, par in (("all", H, {**p, **{q: x.real("own_" + q) for q in CKM}}), ("some", some, {**p, "Vcb": x.real("own_Vcb")}), ("default", some, None)):
        before = dict(C)
        with x.lib(stubs={ckmutil.ckm.ckm_tree: ckm}, always=True):
            got = tr(C, 160.0, par)
            q = {**DEFAULTS, **(par or {})}
            back = to_higgs(x, got, q, V)
        x.eq(f"{tag}: couplings", {k: v for k, v in back.items() if not k.startswith("deltagZdL")},
             {k: v for k, v in C.items() if not k.startswith("deltagZdL")}, absent=0)
        # down quarks: before the rotation to the down basis (V is unitary)
        g, gp, gs, lam = ew(x, q)
        A = herm(x, got, "phiq3") + herm(x, got, "phiq1")
        D = g ** 2 - gp ** 2
        w = lambda k: got.get(k, 0)
        f = g * gp / D * w("phiWB") / 3 + (w("ll_1221") / 4 - w("phil3_11") / 2 - w("phil3_22") / 2 - w("phiD") / 4) * (-.5 - gp ** 2 / D / 3)
        x.eq(f"{tag}: left-handed down quarks", -A / 2 + f * x.np.eye(3), x.einsum("ai,ij,bj->ab", V, herm(x, C, "deltagZdL"), x.np.conj(V)))
        x.true(f"{tag}: names", set(got) <= set(wcxf.Basis["SMEFT", UP].all_wcs))
        x.eq(f"{tag}: argument unchanged", C, before)
        ckm.check(tag, {**DEFAULTS, **(par or {})})


@obligation("P32", "translations of the Warsaw basis go through the up basis", [TI + "higgs_up_to_warsaw", TI + "warsaw_up_to_higgs_up"])
def _(x):
    par = {"GF": x.real("GF", pos=True, lo=1e-5, hi=2e-5)}
    down, up, hg = {"G": x.real("a")}, {"W": x.real("b")}, {"cgg": x.real("c")}
    log = []

    def stub(name, want, ret):
        def g(C, parameters=None, sectors=None):
            log.append(name)
            x.eq(f"{name}: argument", C, want)
            x.eq(f"{name}: parameters", parameters or {}, par)
            return dict(ret)
        return g
    st = {tsm.warsaw_to_warsaw_up: stub("d2u", down, up), hig.warsaw_up_to_higgslike: stub("u2h", up, hg),
          tsm.warsaw_up_to_warsaw: stub("u2d", up, down), hig.higgslike_to_warsaw_up: stub("h2u", hg, up)}
    for src, dst, a, b, path in ((DOWN, HIGGS, down, hg, ["d2u", "u2h"]), (HIGGS, DOWN, hg, down, ["h2u", "u2d"]),
                                 (DOWN, UP, down, up, ["d2u"]), (UP, DOWN, up, down, ["u2d"]), (UP, HIGGS, up, hg, ["u2h"]), (HIGGS, UP, hg, up, ["h2u"])):
        log.clear()
        f = function("SMEFT", src, dst)
        with attrs(tsm, **{k.__name__: v for k, v in st.items() if k.__module__ == tsm.__name__}), \
                attrs(hig, **{k.__name__: v for k, v in st.items() if k.__module__ == hig.__name__}):
            got = f(dict(a), 91.0, dict(par))
        if not log:
            raise Missing(f"{src} -> {dst} does not use the functions of wilson.translate")
        x.eq(f"{src} -> {dst}", got, b)
        x.true(f"{src} -> {dst}: path", log == path, log)


for _p, _pairs in (("P31", (("Warsaw", "Warsaw up"), ("Warsaw up", "Warsaw"), ("Warsaw", "Warsaw mass"))),
                   ("P32", ((UP, HIGGS), (HIGGS, UP), ("Warsaw", HIGGS), (HIGGS, "Warsaw")))):
    obligation(_p, "the translation of every pair of bases is registered", ["wilson.wcxf.classes:translator"])(
        lambda x, q=_pairs: [x.true(f"{a} -> {b}", ("SMEFT", a, b) in wcxf.Translator.instances) for a, b in q] and None)
