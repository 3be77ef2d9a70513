"""P27-P30: matching SMEFT -> WET and the WET thresholds."""
import itertools, json, os, re
import numpy as np
from ..harness import obligation, Missing
from .. import bases
from ..sym.num import Num, as_num, ATOMS, POSITIVE
from ..sym import num as symnum
from . import spec
from .spec import conj
from .formats import make_wc
import wilson
from wilson import wcxf
from wilson.util import smeftutil, wet_jms
from wilson.match import smeft as msmeft, smeft_tree, smeft_loop
import wilson.match as mmod
import ckmutil.ckm

TR, LO, MS, MM, WJ = "wilson.match.smeft_tree:", "wilson.match.smeft_loop:", "wilson.match.smeft:", "wilson.match:", "wilson.util.wet_jms:"
SMEFT_NAMES = [n for ns in smeftutil.C_symm_keys.values() for n in ns] if isinstance(smeftutil.C_symm_keys, dict) else []


def smeft_symbols(x, size=1.0):
    """one symbol per independent SMEFT coefficient"""
    C = {}
    for s, d in bases.smeft_sectors().items():
        for k, m in d.items():
            if m.get("real"):
                C[k] = x.real("c_" + k) * size
            else:
                C[k] = x.cplx("c_" + k) * size
    return C


def first_order(x):
    """treat all coefficient symbols as infinitesimal"""
    if x.mode != "sym":
        return
    for n in list(x.syms):
        if n.startswith("c_"):
            i = ATOMS.sym(n, x.syms[n][0] == "real")
            symnum.NILP.add(i)
            symnum.NILP.add(ATOMS.conj[i])


def names():
    return sorted({k.split("_")[0] for d in bases.smeft_sectors().values() for k in d})


def symm_arrays(x, C):
    return {n: (lambda a: a if np.ndim(a) == 0 else x.array(a.tolist()))(spec.smeft_array(n, C)) for n in names()}


def sm_inputs(x):
    """physical inputs such that the tree-level relations are rational: independent quantities v, m_W, m_Z"""
    v = x.real("v", pos=True, lo=1, hi=2)
    if x.mode == "sym":
        M, Z = x.real("mW", pos=True), x.real("mZ", pos=True)
        R = (Z * Z - M * M).sqrt()
        (k, _), = R.t.items()
        POSITIVE.add(ATOMS.name[k[0][0]])
        e = 2 * M * R / (v * Z)
        symnum.SQRT_HINTS.append(e)
    else:
        M, Z = x.real("mW", lo=.5, hi=.8), x.real("mZ", lo=.9, hi=1.2)
        e = 2 * M * np.sqrt(Z * Z - M * M) / (v * Z)
    p = {"m_W": M, "GF": 1 / (np.sqrt(2) * v * v), "alpha_e": e * e / (4 * np.pi)}
    return v, M, Z, e, p


# ------------------------------------------------------------------ specification: exchange of gauge bosons at tree level
def currents(x, C, v0, M, Z0, e):
    """couplings of the W and Z to fermions in the SMEFT (m_W, G_F, alpha as inputs), first order in the coefficients"""
    kd = np.eye(3)
    I = x.array(kd.tolist())
    s = x.np.sqrt
    # Fermi constant: muon decay receives contributions of the W vertices and of the contact interaction
    dG = -C["ll"][0, 1, 1, 0] - C["ll"][1, 0, 0, 1] + 2 * C["phil3"][0, 0] + 2 * C["phil3"][1, 1]
    v2 = v0 ** 2 * (1 + v0 ** 2 * dG / 2)
    v = v0 * (1 + v0 ** 2 * dG / 4)
    g2 = 2 * M / v
    # mixing angle from e = g1 g2 / sqrt(g1^2 + g2^2) at leading order
    sw2 = e * e / (g2 * g2)                 # sin^2 from e and g2
    eps = C["phiWB"] * v2
    return kd, I, dG, v, v2, g2, eps


def symmetrise(A, x, perms):
    return sum((x.np.einsum(p + "->prst", A) if p != "prst" else A) for p in perms) / len(perms)


def spec_tree(x, C, v0, M, Z0, e):
    """c = contact terms - (g_Z^2/m_Z^2) J_Z J_Z - (g_2^2/(2 m_W^2)) J_W J_W^+ (arXiv:1709.04486), up to second order"""
    E = x.einsum
    kd, I, dG, v, v2, g2, eps = currents(x, C, v0, M, Z0, e)
    h = 0.5
    # g1 from e:  e = g1 g2/gz (1 - g1 g2/gz^2 eps)
    c0 = M / Z0                              # tree-level cosine at zeroth order
    r = g2 * g2 - e * e
    rt = (2 * M * M / (v0 * Z0)) * (1 + (r / (4 * M ** 4 / (v0 ** 2 * Z0 ** 2)) - 1) / 2)      # sqrt(g2^2 - e^2) to first order
    g1 = e * g2 / rt + e * e * g2 / r * eps
    gz2 = g1 * g1 + g2 * g2
    gz0 = 2 * Z0 / v0
    gz = gz0 * (1 + (gz2 / gz0 ** 2 - 1) / 2)
    sb = g1 / gz * (1 + eps / 2 * g2 / g1 * (g2 * g2 - g1 * g1) / gz2)
    cb = g2 / gz * (1 - eps / 2 * g1 / g2 * (g2 * g2 - g1 * g1) / gz2)
    mz2 = v2 / 4 * (1 + v2 / 2 * C["phiD"]) * gz2 + v2 / 2 * eps * g1 * g2
    eb = g2 * sb - cb * g2 * eps / 2
    gzb = eb / (sb * cb) * (1 + gz2 / (2 * g1 * g2) * eps)
    kz = gzb * gzb / mz2
    kw = g2 * g2 / (2 * M * M)
    s2 = sb * sb
    # couplings T3 - Q s^2 and the corrections of the current-current operators
    z = {"nuL": I * h - v2 / 2 * (C["phil1"] - C["phil3"]),
         "eL": I * (s2 - h) - v2 / 2 * (C["phil1"] + C["phil3"]),
         "uL": I * (h - 2 * s2 / 3) - v2 / 2 * (C["phiq1"] - C["phiq3"]),
         "dL": I * (s2 / 3 - h) - v2 / 2 * (C["phiq1"] + C["phiq3"]),
         "eR": I * s2 - v2 / 2 * C["phie"], "uR": I * (-2 * s2 / 3) - v2 / 2 * C["phiu"], "dR": I * (s2 / 3) - v2 / 2 * C["phid"]}
    wl, wq, wr = I + v2 * C["phil3"], I + v2 * C["phiq3"], v2 / 2 * C["phiud"]
    Z = lambda a, b: kz * E("pr,st->prst", z[a], z[b])
    T = lambda A, p: E(p + "->prst", A)
    O = x.zeros((3, 3, 3, 3))
    o = {}
    # four-fermion operators with vector currents
    S1 = lambda A: (A + T(A, "stpr")) / 2
    S2 = lambda A: (S1(A) + T(S1(A), "ptsr")) / 2
    C6 = C["ll"]
    o["VnunuLL"] = S2(C6 - Z("nuL", "nuL") / 2)
    o["VeeLL"] = S2(C6 - Z("eL", "eL") / 2)
    o["VnueLL"] = C6 + T(C6, "stpr") - Z("nuL", "eL") - kw * E("pt,sr->prst", wl, E("sr->rs", wl).conj())
    lq1, lq3, q1, q3 = C["lq1"], C["lq3"], C["qq1"], C["qq3"]
    o["VnuuLL"] = lq1 + lq3 - Z("nuL", "uL")
    o["VnudLL"] = lq1 - lq3 - Z("nuL", "dL")
    o["VeuLL"] = lq1 - lq3 - Z("eL", "uL")
    o["VedLL"] = lq1 + lq3 - Z("eL", "dL")
    o["VnueduLL"] = 2 * lq3 - kw * E("pr,st->prst", wl, E("st->ts", wq).conj())
    o["VuuLL"] = S1(q1 + q3 - Z("uL", "uL") / 2)
    o["VddLL"] = S1(q1 + q3 - Z("dL", "dL") / 2)
    W = E("pt,sr->prst", wq, E("sr->rs", wq).conj())
    X = T(q3, "ptsr") + T(q3, "srpt")
    o["V1udLL"] = q1 + T(q1, "stpr") - q3 - T(q3, "stpr") + 2 / 3 * X - kw / 3 * W - Z("uL", "dL")
    o["V8udLL"] = 4 * X - 2 * kw * W
    o["VeeRR"] = S2(C["ee"] - Z("eR", "eR") / 2)
    o["VeuRR"] = C["eu"] - Z("eR", "uR")
    o["VedRR"] = C["ed"] - Z("eR", "dR")
    o["VuuRR"] = S1(C["uu"] - Z("uR", "uR") / 2)
    o["VddRR"] = S1(C["dd"] - Z("dR", "dR") / 2)
    o["V1udRR"] = C["ud1"] - Z("uR", "dR")
    o["V8udRR"] = C["ud8"]
    for n, a, b, c in (("VnueLR", "nuL", "eR", "le"), ("VeeLR", "eL", "eR", "le"), ("VnuuLR", "nuL", "uR", "lu"), ("VnudLR", "nuL", "dR", "ld"),
                       ("VeuLR", "eL", "uR", "lu"), ("VedLR", "eL", "dR", "ld"), ("VueLR", "uL", "eR", "qe"), ("VdeLR", "dL", "eR", "qe"),
                       ("V1uuLR", "uL", "uR", "qu1"), ("V1udLR", "uL", "dR", "qd1"), ("V1duLR", "dL", "uR", "qu1"), ("V1ddLR", "dL", "dR", "qd1")):
        o[n] = C[c] - Z(a, b)
    for n, c in (("V8uuLR", "qu8"), ("V8udLR", "qd8"), ("V8duLR", "qu8"), ("V8ddLR", "qd8")):
        o[n] = C[c]
    wrd = E("st->ts", wr).conj()
    o["VnueduLR"] = -kw * E("pr,st->prst", wl, wrd)
    o["V1udduLR"] = -kw * E("pr,st->prst", wq, wrd)
    o["V8udduLR"] = O
    # scalars and tensors
    o["SedRL"] = o["SnueduRL"] = C["ledq"]
    o["SeuRR"], o["SnueduRR"] = -C["lequ1"], C["lequ1"]
    o["TeuRR"], o["TnueduRR"] = -C["lequ3"], C["lequ3"]
    o["S1udRR"], o["S8udRR"] = C["quqd1"], C["quqd8"]
    o["S1udduRR"], o["S8udduRR"] = -T(C["quqd1"], "stpr"), -T(C["quqd8"], "stpr")
    for n in ("SeuRL", "SeeRR", "SedRR", "TedRR", "S1uuRR", "S8uuRR", "S1ddRR", "S8ddRR"):
        o[n] = O
    # baryon number violation
    q = C["qqql"]
    o["SduuLL"] = o["SuddLL"] = T(q, "srpt") - T(q, "rspt") + T(q, "rpst")
    o["SduuLR"] = -C["qque"] - T(C["qque"], "rpst")
    o["SduuRL"], o["SdudRL"], o["SduuRR"] = C["duql"], -C["duql"], C["duue"]
    for n in ("SuudLR", "SuudRL", "SdduRL"):
        o[n] = O
    # dipoles
    for f, sg in (("u", 1), ("d", -1), ("e", -1)):
        o[f + "gamma"] = (sg * C[f + "W"] * sb + C[f + "B"] * cb) * v / np.sqrt(2)
        if f != "e":
            o[f + "G"] = C[f + "G"] * v / np.sqrt(2)
    o["G"], o["Gtilde"] = C["G"], C["Gtilde"]
    return o


SIZE = 1e-7


@obligation("P28", "tree-level matching conditions", [TR + "match_all_array", TR + "_match_all_array"], fallback=4, cost=6,
            assumptions=["to first order in the dimension-six coefficients (second-order terms are beyond the accuracy of the EFT expansion)"])
def _(x):
    f = x.need(smeft_tree, "match_all_array")
    w = smeft_symbols(x, SIZE if x.mode == "num" else 1)
    C = symm_arrays(x, w)
    v, M, Z, e, p = sm_inputs(x)
    first_order(x)
    if x.mode == "num":
        x.rtol, x.scale = 1e-5, SIZE
    with x.lib():
        got = f({k: (a.copy() if np.ndim(a) else a) for k, a in C.items()}, dict(p))
    want = spec_tree(x, C, v, M, Z, e)
    sm = spec_tree(x, {k: 0 * a for k, a in C.items()}, v, M, Z, e)
    x.true("operators", set(got) == set(want), sorted(set(got) ^ set(want)))
    for n in sorted(want):
        x.eq(n, got[n], want[n] - sm[n])


# ------------------------------------------------------------------ P27: the matcher as a whole
def jms_names():
    return [n for c in bases.JMS_CLASS.values() for n in c]


def dl_slots(name):
    """{slot: conjugate?} of the left-handed down-type quark fields of an operator"""
    f = bases.jms_fields(name)
    if not f:
        return {}
    if name in ("dG", "dgamma"):
        return {0: True}
    if name in ("ugamma", "uG", "egamma"):
        return {}
    m = re.match(r"^([VST])[18]?(?:nu|[ude])+(LL|LR|RL|RR)$", name)
    kind, ch = m.group(1), m.group(2)
    fl = re.findall(r"nu|[ude]", name[1:-2])
    if kind == "V":
        side, bar = ch[0] * 2 + ch[1] * 2, (True, False, True, False)
    elif len(fl) == 3:                  # (q q)(q l): no conjugate field
        side, bar = ch[0] * 2 + ch[1] * 2, (False,) * 4
    else:                               # (psi-bar_L psi_R)(psi-bar_L psi_R) or (psi-bar_L psi_R)(psi-bar_R psi_L)
        side, bar = ("LRLR" if ch == "RR" else "LRRL"), (True, False, True, False)
    return {i: bar[i] for i in range(4) if f[i] == "d" and side[i] == "L"}


def rotated(x, name, A, V):
    s = dl_slots(name)
    if not s:
        return A
    r = len(bases.jms_fields(name))
    ops, sub, out, old = [], [], list("prst"[:r]), list("prst"[:r])
    for i, cj in s.items():
        out[i] = "abcd"[i]
        ops.append(x.np.conj(V) if cj else V)
        sub.append(old[i] + out[i])
    return x.einsum(",".join(sub + ["".join(old)]) + "->" + "".join(out), *ops, A)


@obligation("P27", "rotation of left-handed down quarks to the mass basis", [WJ + "rotate_down"], engine="tensor")
def _(x):
    C = {}
    for n in jms_names():
        C[n] = x.tensor("C" + n, len(bases.jms_fields(n)))
    V = x.tensor("V", 2)
    calls = []

    def ckm(*a):
        calls.append(a)
        return V
    p = {k: x.real(k, lo=.1, hi=1) for k in ("Vus", "Vub", "Vcb", "gamma")}
    before = {k: (v.copy() if hasattr(v, "copy") else v) for k, v in C.items()}
    with x.lib(stubs={ckmutil.ckm.ckm_tree: ckm}, always=True):
        got = wet_jms.rotate_down(C, {**p, "Vts": 7})
    if not calls:
        raise Missing("CKM matrix is not taken from ckmutil")
    for a in calls:
        x.eq("CKM arguments", list(a), [p[k] for k in ("Vus", "Vub", "Vcb", "gamma")])
    x.true("names", set(got) == set(C))
    for n in C:
        x.eq(n, got[n], rotated(x, n, before[n], V))
    x.eq("argument unchanged", C, before)


def jms_arrays(x, tag):
    """opaque arrays with the permutation and hermiticity symmetries of the operators (independent symbols)"""
    out = {}
    for n in jms_names():
        cls, shape = bases.jms_class_of(n), tuple(3 for _ in bases.jms_fields(n))
        g = lambda idx: (x.real if bases.is_real(cls, idx) else x.cplx)(f"{tag}_{n}_{''.join(map(str, idx))}")
        if not shape:
            out[n] = x.real(f"{tag}_{n}")
            continue
        a = np.zeros(shape, dtype=object)
        for idx in np.ndindex(*shape):
            v = spec.sym_value(cls, idx, g)
            a[idx] = 0 if v is None else v
        out[n] = x.array(a.tolist())
    return out


@obligation("P27", "matching of all coefficients combines the orders and selects the basis", [MS + "match_all", WJ + "unscale_dict_wet"], cost=4, fallback=2)
def _(x):
    every = smeft_symbols(x)
    tree, loop, rot = jms_arrays(x, "T"), jms_arrays(x, "L"), jms_arrays(x, "R")
    B = wcxf.Basis["WET", "JMS"]
    mu = x.real("scale", pos=True)
    few = [["uphi_33"], ["phiWB"], []]
    for par, order, names in (({}, 0, None), (None, 0, few[0]), ({"loop_order": 0, "Vus": 0.3}, 0, few[1]), ({"loop_order": 1, "GF": 2.0}, 1, None),
                              ({"loop_order": 1}, 1, few[0]), ({"m_b": 4.0, "loop_order": 1}, 1, few[1]), ({"loop_order": 1}, 1, few[2])):
        w = every if names is None else {k: every[k] for k in names}
        want_in = symm_arrays(x, w)
        log = []

        def st(C, p):
            log.append(("tree", C, dict(p)))
            return dict(tree)

        def sl(C, p, scale=None, **k):
            log.append(("loop", C, dict(p), scale))
            return dict(loop)

        def sr(C, p):
            log.append(("rot", C, dict(p)))
            return dict(rot)
        arg = None if par is None else dict(par)
        win = dict(w)
        with x.lib(stubs={smeft_tree.match_all_array: st, smeft_loop.match_all_array: sl, wet_jms.rotate_down: sr}, always=True):
            keep = dict(msmeft.default_parameters)
            got = msmeft.match_all(win, mu, arg)
        tag = f"{par} {names or ''}"
        kinds = [l[0] for l in log]
        if "tree" not in kinds or "rot" not in kinds:
            raise Missing("matching does not call the tree-level matching and the rotation")
        full = {**keep, **(par or {})}
        x.eq(f"{tag}: defaults unchanged", dict(msmeft.default_parameters), keep)
        x.eq(f"{tag}: parameters unchanged", arg, par)
        x.eq(f"{tag}: coefficients unchanged", win, w)
        x.true(f"{tag}: loop only on request", ("loop" in kinds) == (order == 1))
        for l in log:
            x.eq(f"{tag}: parameters of {l[0]}", {k: l[2].get(k) for k in full}, full)
            if l[0] != "rot":
                x.eq(f"{tag}: input of {l[0]}", {k: l[1][k] for k in want_in}, want_in)
            else:
                x.eq(f"{tag}: rotated quantity", {k: l[1][k] for k in tree}, {k: tree[k] + loop[k] if order else tree[k] for k in tree})
            if l[0] == "loop":
                x.eq(f"{tag}: scale", l[3], mu)
        want = {}
        for s, d in B.sectors.items():
            for k in d:
                n, i = (k.split("_") + [""])[:2]
                idx = tuple(int(c) - 1 for c in i)
                v = rot[n][idx] if idx else rot[n]
                want[k] = v * spec.multiplicity(bases.jms_class_of(n), idx) if idx else v
        x.true(f"{tag}: keys", {k for k in got} <= set(want), sorted(set(got) - set(want))[:4])
        x.eq(f"{tag}: coefficients", got, want, absent=0)


OUTPUT = {"JMS": None, "flavio": "JMS_to_flavio", "EOS": "JMS_to_EOS", "Bern": "JMS_to_Bern"}


@obligation("P27", "registered matchers compose translation, matching and translation", [MM + "warsaw_up_to_jms", MM + "warsaw_to_jms", MM + "warsaw_to_flavio", MM + "warsaw_up_to_flavio",
                                                                                       MM + "warsaw_to_eos", MM + "warsaw_to_bern"])
def _(x):
    C, par, mu = {"G": x.real("G")}, {"a": x.real("a")}, x.real("scale", pos=True)
    reg = {(m.from_eft, m.from_basis, m.to_eft, m.to_basis): m for m in set(wcxf.Matcher.instances.values())} if hasattr(wcxf.Matcher, "instances") else {}
    if not reg:
        raise Missing("registry of matchers")
    found = {k for k in wcxf.Matcher.instances}
    for i in ("Warsaw", "Warsaw up"):
        for o, tr in OUTPUT.items():
            key = ("SMEFT", i, "WET", o)
            if key not in found:
                x.true(f"{i} -> {o} registered", (i, o) in (("Warsaw up", "EOS"), ("Warsaw up", "Bern")))
                continue
            log = []
            up = lambda c, p=None, **k: (log.append(("up", dict(c), p)), {"U": c["G"]})[1]
            ma = lambda c, s, p=None: (log.append(("match", dict(c), s, p)), {"M": list(c.values())[0], "k": list(c)[0]})[1]
            tf = lambda c, s, p=None, **k: (log.append(("out", dict(c), s, p)), {"F": 1})[1]
            stubs = {wilson.translate.smeft.warsaw_to_warsaw_up: up, msmeft.match_all: ma}
            if tr:
                stubs[getattr(wilson.translate, tr)] = tf
            with x.lib(stubs=stubs, always=True):
                f = wcxf.Matcher.instances[key].function
                r = f(dict(C), mu, par)
            kinds = [l[0] for l in log]
            want = (["up"] if i == "Warsaw" else []) + ["match"] + (["out"] if tr else [])
            if kinds != want and not {"match"} <= set(kinds):
                raise Missing(f"{key} is composed differently")
            x.true(f"{key}: steps", kinds == want, kinds)
            mid = {"U": C["G"]} if i == "Warsaw" else C
            for l in log:
                if l[0] == "up":
                    x.eq(f"{key}: translated", l[1], C)
                    x.true(f"{key}: parameters of the translation", l[2] is par or dict(l[2]) == par)
                else:
                    x.eq(f"{key}: scale", l[2], mu)
                    x.true(f"{key}: parameters", l[3] is par or dict(l[3]) == par)
                if l[0] == "match":
                    x.eq(f"{key}: matched", l[1], mid)
            x.true(f"{key}: result", set(r) == ({"F"} if tr else {"M", "k"}))


# ------------------------------------------------------------------ P30: thresholds
@obligation("P30", "crossing a quark threshold keeps the light coefficients and nothing else", [MM + n for n in (
    "wet_wet4_flavio", "wet4_wet3_flavio", "wet_wet4_bern", "wet4_wet3_bern", "wet_wet4_jms", "wet4_wet3_jms", "wet3_wet2_jms")])
def _(x):
    chain = ("WET", "WET-4", "WET-3", "WET-2")
    seen = 0
    for key, m in list(wcxf.Matcher.instances.items()):
        fe, fb, te, tb = key
        if fe not in chain:
            continue
        x.true(f"{key}: next effective theory, same basis", fb == tb and chain.index(te) == chain.index(fe) + 1)
        if (fe, fb) not in wcxf.Basis.instances or (te, tb) not in wcxf.Basis.instances:
            continue
        seen += 1
        src = {k for d in wcxf.Basis[fe, fb].sectors.values() for k in d}
        dst = {k for d in wcxf.Basis[te, tb].sectors.values() for k in d}
        C = {k: x.cplx(f"{fe}{k}") for k in src}
        arg, mu = dict(C), x.real("scale", pos=True)
        with x.lib():
            got = m.function(arg, mu, {"a": 1})
            part = m.function({k: C[k] for k in list(C)[::3]}, mu, None)
        x.eq(f"{key}", got, {k: C[k] for k in src & dst})
        x.eq(f"{key}: subset", part, {k: C[k] for k in list(C)[::3] if k in dst})
        x.eq(f"{key}: argument unchanged", arg, C)
        if fb == "JMS":
            ok = bases.jms_keep({"WET-4": 4, "WET-3": 3, "WET-2": 2}[te])
            x.true(f"{key}: exactly the operators of light quarks survive", {k for k in src if ok(k)} == set(got), sorted({k for k in src if ok(k)} ^ set(got))[:5])
    if not seen:
        raise Missing("no threshold matcher")
    for fe, te, bs in (("WET", "WET-4", ("flavio", "Bern", "JMS")), ("WET-4", "WET-3", ("flavio", "Bern", "JMS")), ("WET-3", "WET-2", ("JMS",))):
        for b in bs:
            x.true(f"{fe} -> {te} {b} registered", (fe, b, te, b) in wcxf.Matcher.instances)


# ------------------------------------------------------------------ P29: one loop
def loop_point(seed):
    rng = np.random.RandomState(seed)
    r = lambda a, b: float(rng.uniform(a, b))
    return {"m_W": r(75, 85), "GF": r(1.0e-5, 1.3e-5), "alpha_e": r(1 / 135, 1 / 125), "alpha_s": r(.1, .13), "Vus": r(.2, .25), "Vub": r(.003, .005),
            "Vcb": r(.03, .05), "gamma": r(.8, 1.4), "m_u": r(.001, .003), "m_c": r(.8, 1.4), "m_t": r(160, 180), "m_d": r(.003, .006), "m_s": r(.08, .12),
            "m_b": r(3.5, 4.5), "m_e": r(.0004, .0006), "m_mu": r(.1, .11), "m_tau": r(1.7, 1.8)}, r(80, 200)


LOOP_SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data", "loop_spec.json.gz")


def load_loop_spec():
    import gzip
    return json.loads(gzip.open(LOOP_SPEC).read())


def linear_map(x, got):
    """{(operator, index): {(input, conjugate?): coefficient}}"""
    name = {}
    for n, (kind, *_) in x.syms.items():
        if n.startswith("c_"):
            i = ATOMS.sym(n, kind == "real")
            name[ATOMS.conj[i]] = (n[2:], 1)
            name[i] = (n[2:], 0)
    L = {}
    for op, A in got.items():
        A = A if np.ndim(A) else np.array(A, dtype=object)
        for idx in np.ndindex(*A.shape):
            v = as_num(A[idx])
            L[op, idx] = {(name[k[0][0]] if len(k) == 1 and k[0][1] == 1 else ("1" if not k else "?", 0)): c for k, c in v.t.items()}
    return L


_SP = {}


def species():
    if not _SP:
        for i, (s, g) in enumerate((s, g) for s in "qudle" for g in range(3)):
            _SP[s, g] = i
    return _SP


def charge(ports, idx, cj=False):
    q = np.zeros(15, int)
    for (s, bar), g in zip(ports, idx):
        q[species()[s, g]] += 1 if bar != cj else -1
    return q


def jms_ports(name):
    """field species of the slots (left-handed quarks share the charge of their doublet)"""
    f = bases.jms_fields(name)
    if not f:
        return []
    left = {"u": "q", "d": "q", "e": "l", "nu": "l"}
    if len(f) == 2:
        return [(left[f[0]], True), (f[1], False)]
    m = re.match(r"^([VST])[18]?((?:nu|[ude])+)(LL|LR|RL|RR)$", name)
    kind, ch = m.group(1), m.group(3)
    fl = re.findall(r"nu|[ude]", m.group(2))
    if kind == "V":
        side, bar = ch[0] * 2 + ch[1] * 2, (True, False) * 2
    elif len(fl) == 3:
        side, bar = ch[0] * 2 + ch[1] * 2, (False,) * 4
    else:
        side, bar = ("LRLR" if ch == "RR" else "LRRL"), (True, False) * 2
    return [((left[f[i]] if side[i] == "L" else f[i]), bar[i]) for i in range(4)]


def allowed(name):
    """charges that masses may absorb: the top mass everywhere, the fermion's own mass in dipoles"""
    sp = species()
    unit = lambda a, b: np.eye(15, dtype=int)[sp[a]] - np.eye(15, dtype=int)[sp[b]]
    out = [unit(("q", 2), ("u", 2))]
    if name in ("uG", "ugamma"):
        out += [unit(("q", g), ("u", g)) for g in range(3)]
    if name == "egamma":
        out += [unit(("l", g), ("e", g)) for g in range(3)]
    return out


def in_span(q, basis):
    B = np.array(basis).T
    s, *_ = np.linalg.lstsq(B, q, rcond=None)
    return np.abs(B @ s - q).max() < 1e-9


CKM_OPS = ("dG", "dgamma", "ugamma")


def _loop(x, point):
    from . import smeft_spec as S
    f = x.need(smeft_loop, "match_all_array")
    spec_ = load_loop_spec()[str(point)]
    p, mu = loop_point(point)
    size = 1e-11
    w = smeft_symbols(x, size if x.mode == "num" else 1)
    C = symm_arrays(x, w)
    if x.mode == "num":
        rows = {}
        got = f({k: (a.copy() if np.ndim(a) else a) for k, a in C.items()}, dict(p), scale=mu)
        for op, idx, ins in spec_:
            rows[op, tuple(idx)] = sum(complex(a, b) * (np.conj(w[k]) if cj else w[k]) for k, cj, a, b in ins)
        for op, A in got.items():
            A = np.asarray(A)
            want = np.array([rows.get((op, idx), 0) for idx in np.ndindex(*A.shape)]).reshape(A.shape)
            sc = max(abs(want).max(), 1e-4 * size)
            x.clauses += A.size
            if not np.all(abs(A - want) <= 1e-5 * sc):
                i = np.unravel_index(np.argmax(abs(A - want)), A.shape)
                x._fail(f"one-loop matching of {op}{list(map(int, i))}", A[i], want[i])
        return
    first_order(x)
    with x.lib():
        got = f(dict(C), dict(p), scale=mu)
    L = linear_map(x, got)
    want = {(op, tuple(idx)): {(k, cj): complex(a, b) for k, cj, a, b in ins} for op, idx, ins in spec_}
    x.true("operators", {op for op, _ in L} >= {op for op, _ in want})
    for op in sorted(got):
        ports = jms_ports(op)
        cls = bases.jms_class_of(op)
        span = allowed(op)
        A = got[op]
        tol = 1e-8 * max([abs(c) for (o, _), d in want.items() if o == op for c in d.values()] + [1e-30])
        for (o, idx), row in L.items():
            if o != op:
                continue
            ref = want.get((o, idx), {})
            x.clauses += 1
            x.scalars += len(row)
            for k in set(row) | set(ref):
                a, b = row.get(k, 0), ref.get(k, 0)
                if abs(a - b) > tol + 1e-7 * abs(b):
                    x._fail(f"one-loop matching of {op}{list(idx)}: {'conj ' * k[1]}{k[0]}", a, b)
            # no SM contribution, first order
            if any(k[0] in "1?" for k in row):
                x._fail(f"{op}{list(idx)}: linear in the coefficients", [k for k in row if k[0] in "1?"], "no other term")
            # flavour charges
            if op not in CKM_OPS and ports:
                q = charge(ports, idx)
                for k, cj in row:
                    n, i = (k.split("_") + [""])[:2]
                    if abs(row[k, cj]) <= tol:
                        continue
                    # the contraction of GF with the muon decay operators carries no flavour
                    d = q - charge(S.PORTS.get(n, ()), [int(c) - 1 for c in i], bool(cj))
                    if not in_span(d, span):
                        x._fail(f"{op}{list(idx)}: flavour of {k}", "violates the flavour symmetry broken by the masses", "conserved")
        # symmetries of the operator
        if ports and len(ports) == 4:
            for idx in np.ndindex(3, 3, 3, 3):
                for t, cj, s in bases.orbit(cls, idx) if cls not in (3,) else ():
                    v = A[t]
                    x.eq(f"{op}{list(idx)}: symmetry", as_num(A[idx]), as_num(conj(v) if cj else v) * s)


for _p in (1, 2, 3):
    obligation("P29", f"one-loop matching, parameter point {_p}", [LO + "match_all_array", LO + "_match_all_array"], profiles=(), bounded="sampled parameters and scale; all coefficients, to first order",
               cost=60, samples=1, fallback=2, thorough_only=_p > 1, timeout=600)(lambda x, p=_p: _loop(x, p))


def _instances(f, rank):
    """(free indices, entries of named tensors) for every assignment of generations with non-vanishing δ, e3 and
    diagonal factors"""
    from .. import tens
    labels = sorted({i for _, _, ix in f for i in ix})
    for val in itertools.product(range(3), repeat=len(labels)):
        a = dict(zip(labels, val))
        ok = all((n not in ("δ", "Mu", "Md", "Me") or a[ix[0]] == a[ix[1]]) and (n != tens.AXIS or a[ix[0]] == 2) for n, _, ix in f)
        if ok:
            yield tuple(a[-1 - r] for r in range(rank)), [(n, c, tuple(a[i] for i in ix)) for n, c, ix in f if n.startswith("c_")]


@obligation("P29", "one-loop matching for all parameters, scales and coefficients", [LO + "match_all_array", LO + "_match_all_array"], engine="tensor", profiles=(),
            samples=0, fallback=1, cost=40, timeout=800,
            assumptions=["expansion to first order in the coefficients", "ckm_tree returns a unitary matrix", "sqrt, log: real functions at positive arguments"])
def _(x):
    if x.mode == "num":
        return _loop(x, 1)
    from .. import loopterms, tens
    from . import smeft_spec as S
    f = x.need(smeft_loop, "match_all_array")
    C, p, mu, V = loopterms.setup(x, sm_inputs)
    names_in = list(C)
    with loopterms.tensors(x, smeft_loop, p, V):
        got = f(C, p, mu)
    x.true("coefficients in the argument", list(C) == names_in)
    want = loopterms.load()
    x.true("operators", set(got) >= {op for op, t in want.items() if t})
    for op, A in got.items():
        t, w = loopterms.as_terms(A), want.get(op, {})
        for k in set(t) | set(w):
            a, b = t.get(k, symnum.Num.const(0)), w.get(k, symnum.Num.const(0))
            x.clauses += 1
            x.scalars += len(a.t)
            d = loopterms.differ(a, b)
            if d is not None:
                x._fail(f"one-loop matching of {op}: " + tens.show(tens.T(0, {k: symnum.Num.const(1)}), 1), str(a)[:200], str(b)[:200])
            nil = sum(n in tens.NILT for n, _, _ in k)
            if any(symnum._deg(m) + nil != 1 for m in a.t):
                x._fail(f"one-loop matching of {op}: linear in the coefficients", str(a)[:200], "no term of order zero")
        ports = jms_ports(op)
        if not isinstance(A, tens.T) or not ports:
            continue
        if op not in CKM_OPS:
            span = allowed(op)
            seen = set()
            for k in t:
                for idx, cs in _instances(k, len(ports)):
                    q = charge(ports, idx)
                    for n, c, ix in cs:
                        q = q - charge(S.PORTS[n[2:]], ix, c)
                    if tuple(q) in seen:
                        continue
                    seen.add(tuple(q))
                    x.clauses += 1
                    if not in_span(q, span):
                        x._fail(f"{op}{list(idx)}: flavour", "violates the flavour symmetry broken by the masses", "conserved")
        if len(ports) == 4:
            cls = bases.jms_class_of(op)
            gen = (0, 1, 2, 3)
            for perm, cj, s in (bases.orbit(cls, gen) if cls not in (3,) else ()):
                if perm == gen and not cj:
                    continue
                B = A.permute(perm)
                B = (B.conj() if cj else B) * s
                tb = loopterms.as_terms(B)
                for k in set(t) | set(tb):
                    x.clauses += 1
                    d = loopterms.differ(t.get(k, symnum.Num.const(0)), tb.get(k, symnum.Num.const(0)))
                    if d is not None:
                        x._fail(f"{op}: symmetry {perm}", tens.show(tens.T(0, {k: symnum.Num.const(1)}), 1), "symmetric")
