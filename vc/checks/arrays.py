"""P10-P15: array / dictionary representations of Wilson coefficients."""
import itertools, random
import numpy as np
from ..harness import obligation
from .. import bases
from . import spec
from wilson import wcxf
import wilson.util
from wilson.util import smeftutil, wetutil, wet_jms
import wilson.util.common as common

EU = "wilson.util.common:EFTutil."
UTILS = {"SMEFT": smeftutil, "WET": wetutil}
D4 = {"SMEFT": {"g": (), "gp": (), "gs": (), "Lambda": (), "m2": (), "Gu": (3, 3), "Gd": (3, 3), "Ge": (3, 3)},
      "WET": {"e": (), "gs": (), "Md": (3, 3), "Mu": (2, 2), "Me": (3, 3), "Mnu": (3, 3)}}


def shapes(eft):
    """coefficient name -> shape, from the basis tables (not from the code)"""
    d = dict(D4[eft])
    if eft == "SMEFT":
        for n in bases.SMEFT_ORDER:
            d[n] = bases.smeft_shape(n)
    else:
        ks = {k.split("_")[0] for s in bases.wet_sectors().values() for k in s}
        for n in ks:
            d[n] = bases.jms_shape(n)
    return d


def classes(eft, n):
    if n in D4[eft]:
        return 0 if D4[eft][n] == () else 1
    return bases.smeft_class_of(n) if eft == "SMEFT" else bases.jms_class_of(n)


def sym_dict(x, eft, only=None):
    C = {}
    for n, s in shapes(eft).items():
        if only is not None and n not in only:
            continue
        C[n] = x.cplx(n) if s == () else x.carr(n, s)
    return C


def _copy(C):
    return {k: (v.copy() if hasattr(v, "copy") and np.shape(v) != () else v) for k, v in C.items()}


# ------------------------------------------------------------------ P10
for _e, _u in UTILS.items():
    def _flat(x, e=_e, u=_u):
        sh = shapes(e)
        n = sum(int(np.prod(s)) if s else 1 for s in sh.values())
        v = x.carr("v", (n,))
        with x.lib():
            C = u.C_array2dict(v)
            back = u.C_dict2array(C)
        x.true("keys", sorted(C) == sorted(sh), set(C) ^ set(sh))
        for k in sh:
            x.eq(f"shape {k}", list(np.shape(C[k])), list(sh[k]))
        x.eq("vector -> dict -> vector", back, v)
        seen = set()
        D = sym_dict(x, e)
        D = {k: D[k] for k in sorted(D, key=lambda k: (len(k), k[::-1]))}   # another key order
        before = _copy(D)
        with x.lib():
            w = u.C_dict2array(D)
            E = u.C_array2dict(w)
        x.eq("length", len(w), n)
        x.eq("dict -> vector -> dict", E, before)
        x.eq("argument unchanged", D, before)
    obligation("P10", f"flat vector bijection {_e}", [EU + "C_array2dict", EU + "C_dict2array", EU + "_get_keys_and_shapes"])(_flat)

    def _keys(x, e=_e, u=_u):
        sh = shapes(e)
        x.true("C_keys", sorted(u.C_keys) == sorted(sh), set(u.C_keys) ^ set(sh))
        x.true("WC_keys", sorted(u.WC_keys) == sorted(set(sh) - set(D4[e])))
        for name, rank in (("WC_keys_0f", 0), ("WC_keys_2f", 2), ("WC_keys_4f", 4)):
            x.true(name, sorted(getattr(u, name)) == sorted(k for k in sh if k not in D4[e] and len(sh[k]) == rank))
        for k, s in sh.items():
            x.eq(f"shape {k}", [int(i) for i in np.atleast_1d(u.C_keys_shape[k])], list(s) or [1])
            x.true(f"class {k}", [c for c, ks in u.C_symm_keys.items() if k in ks] == [classes(e, k)],
                   [c for c, ks in u.C_symm_keys.items() if k in ks])
    obligation("P10", f"names, shapes and symmetry classes {_e}",
               [EU + "_get_keys_and_shapes", EU + "_get_symm_keys", EU + "__init__"])(_keys)

    def _pad(x, e=_e, u=_u):
        C = sym_dict(x, e)
        before = _copy(C)
        with x.lib():
            P = u.pad_C(C)
            P1 = u.pad_C(C, fill_value=1)
            B = u.unpad_C(P)
        x.true("padded keys", set(P) == set(C) and set(P1) == set(C))
        for k, v in C.items():
            n = np.ndim(v)
            for tag, Q, fill in (("0", P, 0), ("1", P1, 1)):
                if n == 0:
                    x.eq(f"pad{tag} {k}", Q[k], v)
                    continue
                x.eq(f"pad{tag} shape {k}", list(np.shape(Q[k])), [3] * n)
                want = np.full((3,) * n, fill, dtype=object)
                want[tuple(slice(0, s) for s in np.shape(v))] = np.asarray(v)
                x.eq(f"pad{tag} {k}", Q[k], want)
        x.eq("unpad . pad", B, before)
        x.eq("argument unchanged", C, before)
    obligation("P10", f"padding {_e}", [EU + "pad_C", EU + "unpad_C"])(_pad)

    def _names(x, e=_e, u=_u):
        C = sym_dict(x, e)
        with x.lib():
            d = u.arrays2wcxf(C)
            B = u.wcxf2arrays(d)
            part = u.wcxf2arrays({k: v for i, (k, v) in enumerate(d.items()) if i % 3 == 0})
        want = {}
        for k, s in shapes(e).items():
            for idx in np.ndindex(*s):
                want[bases.label(k, idx)] = C[k] if s == () else C[k][idx]
        x.eq("named entries", d, want)
        x.eq("names -> arrays", B, C)
        picked = {k for i, k in enumerate(d) if i % 3 == 0}
        for k in part:
            s = shapes(e)[k]
            for idx in np.ndindex(*s):
                x.eq(f"partial {bases.label(k, idx)}", part[k] if s == () else part[k][idx],
                     want[bases.label(k, idx)] if bases.label(k, idx) in picked else 0)
    obligation("P10", f"indexed names {_e}", [EU + "arrays2wcxf", EU + "wcxf2arrays"], cost=2)(_names)

    def _missing(x, e=_e, u=_u):
        sh = shapes(e)
        some = [k for i, k in enumerate(sorted(sh)) if i % 2]
        C = sym_dict(x, e, some)
        with x.lib():
            F = u.add_missing(C)
        for k in sh:
            if k in C:
                x.eq(f"kept {k}", F[k], C[k])
            elif k not in D4[e]:
                x.true(f"added {k}", k in F)
                if k in F:
                    x.eq(f"zero {k}", F[k], 0 if sh[k] == () else np.zeros(sh[k]))
        x.true("argument unchanged", sorted(C) == sorted(some))
    obligation("P10", f"missing arrays are zero {_e}", [EU + "add_missing"])(_missing)


# ------------------------------------------------------------------ P11
def _sym_want(cls, v, n=3):
    shape = (n,) * np.ndim(v)
    out = {}
    if cls == 8:
        for l in range(n):
            full = spec.q8_full([v[t + (l,)] for t in bases.QQQL_NONRED])
            for t, val in full.items():
                out[t + (l,)] = val
        return out
    for idx in np.ndindex(*shape):
        w = spec.sym_value(cls, idx, lambda i: v[i])
        if w is not None:
            out[idx] = w
    return out


for _c, _rank in ((2, 2), (9, 2), (4, 4), (41, 4), (5, 4), (6, 4), (7, 4), (71, 4), (8, 4)):
    def _symm(x, c=_c, rank=_rank):
        b = x.carr("b", (3,) * rank)
        keep = b.copy()
        f = x.need(common.EFTutil, f"symmetrize_{c}")
        with x.lib():
            a = f(b)
            aa = f(a)
        for idx, w in _sym_want(c, b).items():
            x.eq(f"a[{idx}]", a[idx], w)
        x.eq("idempotent", aa, a)
        x.eq("argument unchanged", b, keep)
    obligation("P11", f"symmetrizer class {_c}", [EU + f"symmetrize_{_c}"])(_symm)

for _e, _u in UTILS.items():
    def _symmetrize(x, e=_e, u=_u):
        C = sym_dict(x, e)
        before = _copy(C)
        with x.lib():
            S = u.symmetrize(C)
            SS = u.symmetrize(S)
        x.true("keys", set(S) == set(C), set(S) ^ set(C))
        for k, v in C.items():
            cls, s = classes(e, k), shapes(e)[k]
            x.eq(f"shape {k}", list(np.shape(S[k])), list(s))
            if s == ():
                x.eq(k, S[k], spec.re(v))
                continue
            pad = np.zeros((3,) * len(s), dtype=object)
            pad[tuple(slice(0, i) for i in s)] = np.asarray(v)
            for idx, w in _sym_want(cls, pad).items():
                if all(i < n for i, n in zip(idx, s)):
                    x.eq(f"{k}{list(idx)}", S[k][idx], w)
        x.eq("idempotent", SS, S)
        x.eq("argument unchanged", C, before)
    obligation("P11", f"symmetrize dispatches every operator to its class {_e}", [EU + "symmetrize"], cost=3)(_symmetrize)


# ------------------------------------------------------------------ P12
def _nonred(eft):
    """{label: real?} of the non-redundant coefficients"""
    if eft == "SMEFT":
        return {k: bool(v.get("real")) for k, v in bases.smeft_warsaw().items()}
    return {k: bool(v.get("real")) for s in bases.jms().values() for k, v in s.items()}


def _wcs(x, eft, pick=None):
    return {k: (x.real(k) if r else x.cplx(k)) for k, r in _nonred(eft).items() if pick is None or pick(k)}


for _e, _u in UTILS.items():
    def _id(x, e=_e, u=_u):
        wc = _wcs(x, e)
        with x.lib():
            C = u.wcxf2arrays_symmetrized(wc)
            back = u.arrays2wcxf_nonred(C)
        x.eq("coefficients -> arrays -> coefficients", back, wc, absent=0)
        x.true("all arrays present", set(C) == set(shapes(e)) - set(D4[e]))
        x.true("only basis names", set(back) <= set(wc))
    obligation("P12", f"non-redundant -> symmetric -> non-redundant {_e}",
               [EU + f for f in ("wcxf2arrays_symmetrized", "symmetrize_nonred", "arrays2wcxf_nonred", "unscale_dict",
                                 "scale_8", "unscale_8", "_get_scale_dict", "arrays2wcxf", "wcxf2arrays")], cost=3)(_id)

    def _lag(x, e=_e, u=_u):
        wc = _wcs(x, e)
        with x.lib():
            C = u.wcxf2arrays_symmetrized(wc)
        for n, s in shapes(e).items():
            if n in D4[e]:
                continue
            cls = classes(e, n)
            g = lambda idx: wc.get(bases.label(n, idx), 0)
            if s == ():
                x.eq(n, C[n], spec.re(g(())))
            elif cls == 8:
                w = spec.smeft_array(n, wc)
                x.eq(n, C[n], w)
            else:
                for idx in np.ndindex(*s):
                    v = spec.sym_value(cls, idx, g)
                    if v is None:
                        x.eq(f"{n}{list(idx)}", C[n][idx], 0)
                    else:
                        x.eq(f"{n}{list(idx)}", C[n][idx], v / spec.multiplicity(cls, idx))
    obligation("P12", f"symmetric arrays carry the same Lagrangian {_e}",
               [EU + f for f in ("wcxf2arrays_symmetrized", "symmetrize_nonred", "scale_8", "symmetrize_8", "add_missing")], cost=3)(_lag)

    def _id2(x, e=_e, u=_u):
        C0 = sym_dict(x, e, [k for k in shapes(e) if k not in D4[e]])
        with x.lib():
            S = u.symmetrize(C0)
            d = u.arrays2wcxf_nonred(S)
            B = u.wcxf2arrays_symmetrized(d)
        if e == "WET":      # diagonal of an antisymmetric pair is not an operator
            for n in bases.JMS_CLASS[71]:
                for i in range(S[n].shape[0]):
                    S[n][i, i] = 0
        x.eq("arrays -> coefficients -> arrays", B, S)
    obligation("P12", f"symmetric -> non-redundant -> symmetric {_e}",
               [EU + f for f in ("arrays2wcxf_nonred", "unscale_dict", "unscale_8", "symmetrize_nonred", "wcxf2arrays_symmetrized")], cost=4)(_id2)

    def _sub(x, e=_e, u=_u):
        names = list(_nonred(e))
        pick = set(names[::7])
        wc = _wcs(x, e, lambda k: k in pick)
        with x.lib():
            C = u.wcxf2arrays_symmetrized(wc)
            back = u.arrays2wcxf_nonred(C)
        x.eq("a subset of coefficients survives, nothing appears", back, wc, absent=0)
    obligation("P12", f"sparse coefficients {_e}", [EU + "wcxf2arrays_symmetrized", EU + "arrays2wcxf_nonred"])(_sub)


# ------------------------------------------------------------------ P13, P14
def _jms_keys(sectors=None):
    s = bases.jms()
    return {k: bool(v.get("real")) for n, d in s.items() if sectors is None or n in sectors for k, v in d.items()}


def _idx(k):
    return tuple(int(i) - 1 for i in k.split("_")[1]) if "_" in k else ()


def _jms_array(x, sectors, half):
    keys = _jms_keys(sectors)
    wc = {k: (x.real(k) if r else x.cplx(k)) for i, (k, r) in enumerate(keys.items()) if half is None or i % 2 == half}
    if sectors is not None:      # coefficients of other sectors are dropped
        every = _jms_keys()
        other = [k for k in every if k not in keys]
        wc.update({k: (x.real(k) if every[k] else x.cplx(k)) for k in other[::97]})
    before = dict(wc)
    with x.lib():
        A = wet_jms.JMS_to_array(wc, sectors=sectors)
    x.true("operators", set(A) == {k.split("_")[0] for k in keys})
    for k in keys:
        n, idx = k.split("_")[0], _idx(k)
        v = wc.get(k, 0)
        cls = bases.jms_class_of(n)
        if idx == ():
            x.eq(k, A[n], v)
            continue
        orb = bases.orbit(cls, idx) if cls in (4, 41, 5, 71) else [(idx, False, 1)]
        for t, c, s in orb:
            x.eq(f"{n}{list(t)}", A[n][t], s * (spec.conj(v) if c else v))
    x.eq("argument unchanged", wc, before)


for _s in [None] + sorted(bases.wet_sectors()):
    def _ja(x, s=_s):
        for half in (None, 1, 0, 2):       # all coefficients, every other one, none
            _jms_array(x, None if s is None else (s,), half)
        if s is None:
            names_ = sorted(bases.wet_sectors())
            _jms_array(x, tuple(names_[:2]), 1)
            _jms_array(x, tuple(names_[::3]), 0)
    obligation("P13", f"JMS arrays sector {_s}", ["wilson.util.wet_jms:JMS_to_array", "wilson.util.wet_jms:_scalar2array",
               "wilson.util.wet_jms:_symm_herm", "wilson.util.wet_jms:_symm_current", "wilson.util.wet_jms:_antisymm_12"],
               cost=3 if _s is None else 1)(_ja)


@obligation("P14", "redundant names are mapped to their basis partner", ["wilson.util.wet_jms:symmetrize_JMS_dict"])
def _jms_dict(x):
    keys = _jms_keys()
    for part in range(4):
        C, want = {}, {}
        for j, (k, r) in enumerate(keys.items()):
            n, idx = k.split("_")[0], _idx(k)
            cls = bases.jms_class_of(n)
            orb = bases.orbit(cls, idx) if cls in (4, 41, 5, 71) else [(idx, False, 1)]
            t, c, s = orb[(part + (j if part == 3 else 0)) % len(orb)]
            if r and c:
                c = False
            v = x.real(k) if r else x.cplx(k)
            lab = bases.label(n, t)
            if lab in C:
                continue
            if lab in keys and lab != k:
                continue
            C[lab] = v
            want[k] = s * (spec.conj(v) if c else v)
        with x.lib():
            got = wet_jms.symmetrize_JMS_dict(C)
        x.eq(f"part {part}", got, want)


# ------------------------------------------------------------------ P15
def _down(name):
    """(conjugate?) per index: left-handed down quark fields of the operator, from its name and chirality"""
    f = bases.jms_fields(name)
    return f


# positions of left-handed d fields: '*' conjugated (bar), '' not; from the operator definitions (1709.04486)
DL = {
    "dgamma": {0: "*"}, "dG": {0: "*"},
    "VddLL": {0: "*", 1: "", 2: "*", 3: ""},
    "V1udLL": {2: "*", 3: ""}, "V8udLL": {2: "*", 3: ""}, "VedLL": {2: "*", 3: ""}, "VnudLL": {2: "*", 3: ""},
    "V1ddLR": {0: "*", 1: ""}, "V1duLR": {0: "*", 1: ""}, "V8ddLR": {0: "*", 1: ""}, "V8duLR": {0: "*", 1: ""},
    "VdeLR": {0: "*", 1: ""},
    "S1ddRR": {0: "*", 2: "*"}, "S8ddRR": {0: "*", 2: "*"},
    "V1udduLR": {1: ""}, "V8udduLR": {1: ""},
    "VnueduLL": {2: "*"}, "SedRR": {2: "*"}, "TedRR": {2: "*"}, "SnueduRR": {2: "*"}, "TnueduRR": {2: "*"},
    "S1udRR": {2: "*"}, "S8udRR": {2: "*"}, "S1udduRR": {2: "*"}, "S8udduRR": {2: "*"},
    "SedRL": {3: ""},
    "SduuLL": {0: ""}, "SduuLR": {0: ""}, "SuudRL": {2: ""}, "SdudRL": {2: ""}, "SuddLL": {1: "", 2: ""},
}


def _ckm_stub(x):
    """V as opaque 3x3 matrix (symbolic) or the real CKM (concrete)"""
    import ckmutil.ckm
    if x.mode == "sym":
        V = x.carr("V", (3, 3))
        return V, {ckmutil.ckm.ckm_tree: lambda *a, **k: V}
    p = {"Vus": 0.2, "Vub": 0.004, "Vcb": 0.04, "gamma": 1.2}
    return ckmutil.ckm.ckm_tree(p["Vus"], p["Vub"], p["Vcb"], p["gamma"]), None


def _rot_down(x, names):
    V, stubs = _ckm_stub(x)
    p = {"Vus": 0.2, "Vub": 0.004, "Vcb": 0.04, "gamma": 1.2, "m_W": 80.4}
    C = {}
    with x.lib(stubs=stubs):
        allk = [k for ks in bases.JMS_CLASS.values() for k in ks]
        for k in allk:
            r = len(bases.jms_fields(k))
            C[k] = x.cplx(k) if r == 0 else (x.carr(k, (3,) * r) if k in names else x.zeros((3,) * r))
        before = _copy(C)
        got = wet_jms.rotate_down(C, p)
        x.true("keys", set(got) == set(C))
        for k in names:
            w = C[k]
            r = np.ndim(w)
            for pos, st in DL.get(k, {}).items():
                U = V.conj() if st else V
                a = "abcd"[:r]
                w = x.einsum(f"x{'y'},{a.replace(a[pos], 'x')}->{a.replace(a[pos], 'y')}", U, w)
            x.eq(k, got[k], w)
    x.eq("argument unchanged", C, before)


_all_jms = [k for ks in bases.JMS_CLASS.values() for k in ks]
for _i in range(6):
    def _rd(x, i=_i):
        names = sorted(_all_jms)[i::6]
        # V enters at most four times per operator; entries are symbolic in V and in C
        _rot_down(x, names)
    obligation("P15", f"down-quark rotation part {_i}", ["wilson.util.wet_jms:rotate_down"], cost=3,
               assumptions=["ckmutil.ckm.ckm_tree is an arbitrary 3x3 complex matrix (not assumed unitary)"])(_rd)


@obligation("P15", "scaling and unscaling are inverse", ["wilson.util.wet_jms:scale_dict_wet", "wilson.util.wet_jms:unscale_dict_wet"])
def _scale(x):
    C = {}
    for k in _all_jms:
        r = len(bases.jms_fields(k))
        C[k] = x.cplx(k) if r == 0 else x.carr(k, (3,) * r)
    before = _copy(C)
    with x.lib():
        S = wet_jms.scale_dict_wet(C)
        U = wet_jms.unscale_dict_wet(C)
        B = wet_jms.unscale_dict_wet(S)
    for k in _all_jms:
        r = len(bases.jms_fields(k))
        cls = bases.jms_class_of(k)
        if r == 0:
            x.eq(k, S[k], C[k])
            continue
        for idx in np.ndindex(*(3,) * r):
            m = spec.multiplicity(cls, idx)
            x.eq(f"scale {k}{list(idx)}", S[k][idx], C[k][idx] / m)
            x.eq(f"unscale {k}{list(idx)}", U[k][idx], C[k][idx] * m)
    x.eq("round trip", B, before)
