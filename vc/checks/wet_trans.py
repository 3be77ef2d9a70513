"""P33-P36: translations between WET bases."""
import contextlib, inspect
import numpy as np
import ckmutil.ckm
from ..harness import obligation, Missing
from .. import bases, lagr
from ..sym.num import Num, ATOMS
from .translations import Ckm, function
from wilson import wcxf
from wilson.translate import wet

TW, TI = "wilson.translate.wet:", "wilson.translate.__init__:"
MASS = ("m_b", "m_c", "m_s", "m_u", "m_d", "m_e", "m_mu", "m_tau", "m_W", "m_Z")
PAR = MASS + ("alpha_s", "GF", "alpha_e", "Vus", "Vub", "Vcb", "gamma")
LEVEL = {"WET": 5, "WET-4": 4, "WET-3": 3}


def params(x):
    return {k: x.real(k, pos=True) for k in PAR}


def jms(x, f=5):
    keep = bases.jms_keep(f) if f < 5 else (lambda k: True)
    return {k: x.real(k) if v.get("real") else x.cplx(k) for s in bases.jms().values() for k, v in s.items() if keep(k)}


def coeffs(x, eft, basis, pick=lambda k: True):
    return {k: x.real(k) if v.get("real") else x.cplx(k)
            for s in wcxf.Basis[eft, basis].sectors.values() for k, v in s.items() if pick(k)}


class Par:
    """contract of get_parameters: the parameters at a scale, a function of the given parameters"""

    def __init__(self, x, P):
        self.x, self.P, self.calls = x, P, []

    def __call__(self, scale, f=5, input_parameters=None):
        self.calls.append((scale, f, input_parameters))
        return dict(self.P)


@contextlib.contextmanager
def env(x, P, V):
    ckm, par = Ckm(x, V), Par(x, P)
    with x.lib(stubs={ckmutil.ckm.ckm_tree: ckm, wet.get_parameters: par}, always=True):
        yield ckm, par


def linear(v, C):
    """sources of a linear function"""
    src = set()
    if isinstance(v, Num):
        for i in v.atoms():
            n = ATOMS.name[i].rstrip("~")
            if n in C:
                src.add(n)
    return src


EFTS = ("WET", "WET-4", "WET-3")
NAMES = {("flavio", "JMS"): "flavio_to_JMS", ("JMS", "flavio"): "JMS_to_flavio", ("Bern", "JMS"): "Bern_to_JMS", ("JMS", "Bern"): "JMS_to_Bern",
         ("Bern", "flavio"): "Bern_to_flavio", ("flavio", "Bern"): "flavio_to_Bern", ("JMS", "EOS"): "JMS_to_EOS", ("JMS", "formflavor"): "JMS_to_FormFlavor",
         ("JMS", "FlavorKit"): "JMS_to_FlavorKit", ("FlavorKit", "JMS"): "FlavorKit_to_JMS"}
ASSUME = ["ckmutil.ckm.ckm_tree returns the CKM matrix of its four arguments, with non-zero elements", "masses, couplings and GF positive"]


def cover():
    return bases._load("wet_cover.json")


def funcs(*pairs):
    return [TW + NAMES[p] for p in pairs]


SCALE = 4.8
TRIPS = [("flavio", "JMS", "flavio"), ("Bern", "JMS", "Bern"), ("JMS", "flavio", "JMS"), ("JMS", "Bern", "JMS"),
         ("JMS", "Bern", "flavio"), ("Bern", "JMS", "flavio"), ("flavio", "JMS", "Bern"), ("JMS", "flavio", "Bern"),
         ("flavio", "Bern", "flavio"), ("Bern", "flavio", "Bern")]
for _eft in EFTS:
    for _trip in TRIPS:
        def _f(x, eft=_eft, trip=_trip):
            a, b, c = trip
            f, g = function(eft, a, b), function(eft, b, c)
            P, V = params(x), x.carr("V", (3, 3))
            C = coeffs(x, eft, a)
            names = set(wcxf.Basis[eft, c].all_wcs) & set(cover()["-".join(trip)])
            with env(x, P, V):
                mid = f(C, SCALE, None)
                mid = {k: v for k, v in mid.items() if k in wcxf.Basis[eft, b].all_wcs}
                got = g(mid, SCALE, None)
                want = C if a == c else function(eft, a, c)(C, SCALE, None)
            x.eq("coefficients", {k: got.get(k, 0) for k in names}, {k: want.get(k, 0) for k in names})
        obligation("P33", f"{_eft}: {' -> '.join(_trip)}", funcs(_trip[:2], _trip[1:], *([] if _trip[0] == _trip[2] else [(_trip[0], _trip[2])])),
                   cost=3 if _eft == "WET" else 1, fallback=2, assumptions=ASSUME)(_f)



# ------------------------------------------------------------------ P39: sectors under translation
for _eft in EFTS:
    for _src, _dst in NAMES:
        if "FlavorKit" in (_src, _dst) or _eft != "WET" and _dst in ("EOS", "formflavor"):
            continue

        def _h(x, eft=_eft, src=_src, dst=_dst):
            f = function(eft, src, dst)
            P, V = params(x), x.carr("V", (3, 3))
            C = coeffs(x, eft, src)
            a, b = wcxf.Basis[eft, src].sectors, wcxf.Basis[eft, dst].sectors
            names = sorted({*a, *b})
            known = {k for d in b.values() for k in d}
            with env(x, P, V):
                full = f(C, SCALE, None)
                for bit in range((len(names) - 1).bit_length()):
                    some = [n for i, n in enumerate(names) if i >> bit & 1]
                    part = {k: C[k] for n in some for k in a.get(n, ()) if k in C}
                    keys = {k for n in some for k in b.get(n, ())}
                    got = f(dict(part), SCALE, None)
                    # any two sectors differ in some bit of their number
                    x.eq(f"half {bit}: values", {k: got.get(k, 0) for k in keys}, {k: full.get(k, 0) for k in keys})
                    x.eq(f"half {bit}: nothing else", {k: v for k, v in got.items() if k in known - keys}, {}, absent=0)
                    if bit < 2:
                        got = f(dict(part), SCALE, None, sectors=tuple(some))
                        x.eq(f"half {bit}: selected", {k: got.get(k, 0) for k in known}, {k: full.get(k, 0) if k in keys else 0 for k in known})
        obligation("P39", f"{_eft} {_src} -> {_dst} keeps the sectors apart", funcs((_src, _dst)), cost=5, fallback=1, assumptions=ASSUME)(_h)


# ------------------------------------------------------------------ P35: what the translations read
for _eft in EFTS:
    for _src, _dst in NAMES:
        if "FlavorKit" in (_src, _dst) or _eft != "WET" and _dst in ("EOS", "formflavor"):
            continue

        def _f(x, eft=_eft, src=_src, dst=_dst):
            f = function(eft, src, dst)
            P, V = params(x), x.carr("V", (3, 3))
            C = coeffs(x, eft, src)
            own = {"m_b": x.real("own_m_b", pos=True), "GF": x.real("own_GF", pos=True)}
            mu = x.real("mu", pos=True)
            with env(x, P, V) as (ckm, par):
                full = f(C, mu, own)
                if not par.calls:
                    raise Missing("parameters are not taken from get_parameters")
                for sc, fl, inp in par.calls:
                    x.eq("scale of the parameters", sc, mu)
                    x.eq("given parameters", inp, own)
                    if eft == "WET":
                        x.eq("number of flavours", fl, 5)
                if ckm.calls:
                    ckm.check("CKM", P)
                x.true("names", set(full) <= set(wcxf.Basis["WET", dst].all_wcs), sorted(set(full) - set(wcxf.Basis["WET", dst].all_wcs))[:5])
                for r in (2, 3):
                    pick = {k: v for i, k in enumerate(sorted(C)) if i % r == 0 for v in [C[k]]}
                    before = dict(pick)
                    got = f(pick, mu, own)
                    want = f({k: pick.get(k, x.real("zero") * 0) for k in C}, mu, own)
                    x.eq(f"missing coefficients are zero ({r})", got, want, absent=0)
                    x.eq(f"argument unchanged ({r})", pick, before)
                x.eq("no coefficients", f({}, mu, own), {}, absent=0)
        obligation("P35", f"{_eft} {_src} -> {_dst}: parameters and incomplete input", funcs((_src, _dst)), cost=2, fallback=2, assumptions=ASSUME)(_f)

        def _g(x, eft=_eft, src=_src, dst=_dst):
            f = function(eft, src, dst)
            P, V = params(x), x.carr("V", (3, 3))
            C = coeffs(x, eft, src)
            secs = wcxf.Basis[eft, dst].sectors
            with env(x, P, V):
                full = f(C, SCALE, None)
                names = sorted(bases.jms())
                for s in names + [tuple(names[:9]), tuple(names[9:]), tuple(names)]:
                    t = (s,) if isinstance(s, str) else s
                    keys = {k for q in t for k in secs.get(q, ())}
                    got = f(C, SCALE, None, sectors=t)
                    tag = s if isinstance(s, str) else f"{len(t)} sectors from {t[0]}"
                    x.eq(f"{tag}: coefficients of the sector", {k: got.get(k, 0) for k in keys}, {k: full.get(k, 0) for k in keys})
        obligation("P35", f"{_eft} {_src} -> {_dst}: selected sectors", funcs((_src, _dst)), cost=5, fallback=2, assumptions=ASSUME)(_g)


@obligation("P35", "parameters at a scale", [TW + "get_parameters"], profiles=("neg",), assumptions=["wilson.util.qcd functions satisfy their contracts (P41)"])
def _(x):
    log = []

    def stub(n):
        sig = inspect.signature(getattr(wet, n))

        def g(*a, **k):
            q = sig.bind(*a, **k)
            q.apply_defaults()
            log.append((n, list(q.arguments.values())[:4 if n != "alpha_s" else 3], x.real(f"out{len(log)}")))
            return log[-1][2]
        return g
    own = {k: x.real("own_" + k, pos=True) for k in PAR}
    mu = x.real("mu", pos=True)
    mod = vars(wet)
    for n in ("m_b", "m_c", "m_s", "alpha_s"):
        if not callable(mod.get(n)):
            raise Missing(f"wet.{n}")
    from wilson.parameters import p as dflt
    for f in (3, 4, 5):
        for tag, inp in (("all given", own), ("some given", {k: own[k] for k in ("m_b", "m_u", "GF", "Vub")}), ("none given", {}), ("default", None)):
            p = {**dflt, **(inp or {})}
            before = dict(inp or {})
            log.clear()
            with x.lib(stubs={mod[n]: stub(n) for n in ("m_b", "m_c", "m_s", "alpha_s")}, always=True):
                got = wet.get_parameters(mu, f, inp) if f < 5 else wet.get_parameters(mu, input_parameters=inp)
            if not log:
                raise Missing("running parameters are not computed with wilson.util.qcd")
            want = {k: p[k] for k in ("m_W", "m_Z", "GF", "alpha_e", "Vus", "Vub", "Vcb", "gamma", "m_e", "m_mu", "m_tau")}
            x.eq(f"{tag}, f={f}: constants", {k: got.get(k) for k in want}, want)
            x.eq(f"{tag}, f={f}: argument unchanged", dict(inp or {}), before)
            for k in ("m_b", "m_c", "m_s", "m_u", "m_d", "alpha_s"):
                hit = [q for q in log if _same(x, got.get(k), q[2])]
                x.true(f"{tag}, f={f}: {k} is evolved", len(hit) == 1 and hit[0][0] == (k if k not in ("m_u", "m_d") else "m_s"))
                if hit:
                    x.eq(f"{tag}, f={f}: evolution of {k}", hit[0][1], ([p[k]] if k != "alpha_s" else []) + [mu, f, p["alpha_s"]])


def _same(x, a, b):
    if x.mode == "num":
        return a == b
    from ..sym.num import as_num, is_zero
    return a is not None and is_zero(as_num(a) - as_num(b), 1)


# ------------------------------------------------------------------ P34: same interactions
def zero_equal(x, tag, L1, L2):
    """equality of two Lagrangians, reported per flavour content"""
    by = {}
    for k in list(dict.fromkeys(list(L1) + list(L2))):
        by.setdefault(k[0], []).append(k)
    for f, ks in by.items():
        x.eq(f"{tag} {lagr.show(f)}", [L1.get(k, 0) for k in ks], [L2.get(k, 0) for k in ks])


def terms(x, basis, C, P, V, eft="WET"):
    sec = {k: s for s, d in wcxf.Basis[eft, basis].sectors.items() for k in d}
    for k, c in C.items():
        if basis == "JMS":
            n, op = 1, lagr.jms_op(k)
        elif basis == "Bern":
            n, op = lagr.bern_op(k, P, x)
        else:
            n, op = lagr.flavio_op(k, sec[k], P, V, x)
        yield basis + k, c * n * (1 + 0j), op


for _eft in EFTS:
    for _src, _dst in (("JMS", "flavio"), ("flavio", "JMS"), ("JMS", "Bern"), ("Bern", "JMS"), ("flavio", "Bern")):
        def _f(x, eft=_eft, src=_src, dst=_dst):
            f = function(eft, src, dst)
            P, V = params(x), x.carr("V", (3, 3))
            names = set(cover()["-".join((src, dst, src))])
            C = coeffs(x, eft, src, lambda k: k in names)
            with env(x, P, V):
                got = f(C, SCALE, None)
            unknown = [k for k in got if k not in wcxf.Basis["WET", dst].all_wcs]
            x.true("names", not unknown, unknown[:3])
            keep = set(wcxf.Basis[eft, dst].all_wcs)
            L1 = lagr.lagrangian(terms(x, src, C, P, V, eft), x.np.conj)
            L2 = lagr.lagrangian(terms(x, dst, {k: v for k, v in got.items() if k in keep}, P, V, eft), x.np.conj)
            zero_equal(x, "interaction of", L1, L2)
        obligation("P34", f"{_eft}: {_src} -> {_dst}", funcs((_src, _dst)), cost=10 if _eft == "WET" else 6, fallback=1, timeout=400,
                   assumptions=ASSUME + ["four-dimensional Fierz identities, three colours"])(_f)


def jms_with(x, *pred):
    """symbolic values for JMS coefficients whose operators have one of the flavour contents"""
    out = {}
    for k, v in coeffs(x, "WET", "JMS").items():
        op = lagr.jms_op(k)
        if any(p(op) or p(op.dagger()) for p in pred):
            out[k] = v
    return out


def fl(*want):
    w = {(tuple(sorted((a, c))), tuple(sorted((b, d)))) for a, b, c, d in want}
    return lambda op: isinstance(op, lagr.Op) and op.key() in w


def dip(*want):
    return lambda op: isinstance(op, lagr.Dipole) and op.k[1:3] in want


def eos_terms(x, got, P, V):
    """definitions of the EOS operators (complete blocks only)"""
    cj, O, spin = x.np.conj, lagr.Op, lagr.spin
    gf = 4 * P["GF"] / 2 ** .5
    e, gs = x.np.sqrt(4 * np.pi * P["alpha_e"]), x.np.sqrt(4 * np.pi * P["alpha_s"])
    ts = V[2, 2] * cj(V[2, 1])
    for l, n in (("e", "ee"), ("mu", "mumu")):
        N = gf * ts * e ** 2 / (16 * np.pi ** 2)
        for t, kind, g5, chi in (("9", "V", False, "L"), ("10", "V", True, "L"), ("S", "S", False, "R"), ("P", "S", True, "R"), ("T", "T", False, ""), ("T5", "T", True, "")):
            for pr in ("", "'") if chi else ("",):
                h = {"L": "R", "R": "L"}[chi] if pr else chi
                C = got[f"b->s{n}::Re{{c{t}{pr}}}"] + 1j * got[f"b->s{n}::Im{{c{t}{pr}}}"]
                yield f"EOS{n}{t}{pr}", C * N, O(("s", "b", l, l), spin(kind, h, "", g5))
    for pr in ("", "'"):
        C = got[f"b->s::Re{{c7{pr}}}"] + 1j * got[f"b->s::Im{{c7{pr}}}"]
        yield f"EOS7{pr}", C * gf * ts * e * P["m_b"] / (16 * np.pi ** 2), lagr.Dipole("gamma", "s", "b", "L" if pr else "R")
    for n, kind, chi, col in ((1, "V", "LL", "1"), (2, "S", "LL", "1"), (3, "S", "LL", "x"), (4, "S", "LR", "1"), (5, "S", "LR", "x")):
        for pr in ("", "'") if n <= 3 else ("",):
            h = chi if not pr else "RR"
            yield f"EOS{n}{pr}sbsb", got[f"sbsb::c{n}{pr}"] * gf * ts ** 2, lagr.current(kind, h, col, ("s", "b", "s", "b"))
    up = {"u": 0, "c": 1}
    for u in "uc":
        for l in ("e", "mu", "tau"):
            for n, kind, h in (("VL", "V", "L"), ("VR", "V", "R"), ("SR", "S", "R"), ("SL", "S", "L"), ("T", "T", "L")):
                yield f"EOS{u}b{l}{n}", got[f"{u}b{l}nu{l}::c{n}"] * -gf * V[up[u], 2], lagr.current(kind, h + "L", "1", (u, "b", l, "nu" + l))
    for d, i in (("s", 1), ("d", 0)):
        for n in range(1, 11):
            for pr in ("", "'"):
                kind = ("V", "V3", "S", "T", "S4")[(n - 1) // 2]
                h = "L" if (kind in ("V", "V3")) != bool(pr) else "R"
                yield f"EOS{d}bcu{n}{pr}", got[f"{d}bcu::c{n}{pr}"] * gf * V[1, 2] * cj(V[0, i]), O((d, "b", "c", "u"), spin(kind, h, ""), "8" if n % 2 == 0 else "1")


EOS_BLOCKS = [("s", "b", "e", "e"), ("s", "b", "mu", "mu"), ("s", "b", "s", "b"), ("s", "b", "c", "u"), ("d", "b", "c", "u")] + \
    [(u, "b", l, "nu" + l) for u in "uc" for l in ("e", "mu", "tau")]


def cmm():
    """operators of the standard (Chetyrkin-Misiak-Muenz) basis of b -> s transitions as combinations of JMS operators"""
    names = [k for k in wcxf.Basis["WET", "JMS"].sectors["sb"] if isinstance(lagr.jms_op(k), lagr.Op)]
    cols = [(k, dag, lagr.jms_op(k).dagger() if dag else lagr.jms_op(k)) for k in names for dag in (False, True)]
    qs = ["u", "d", "s", "c", "b"]
    want = {f(q).key() for q in qs for f in (lambda q: lagr.Op(("s", "b", q, q), lagr.spin("V", "L", "")),)}
    cols = [(k, dag, op.key(), op.vector()) for k, dag, op in cols if op.key() in want]
    rows = {(f, m): i * lagr.NP + m for i, f in enumerate(sorted(want)) for m in range(lagr.NP)}
    A = np.zeros((len(rows), len(cols)), complex)
    for j, (_, _, f, v) in enumerate(cols):
        for m, a in enumerate(v):
            A[rows[f, m], j] = a
    out = {}
    for i in range(1, 7):
        if i <= 2:
            ops = [lagr.Op(("s", "c", "c", "b"), lagr.spin("V", "L", "L"), "8" if i == 1 else "1")]
        else:
            ops = [lagr.Op(("s", "b", q, q), lagr.spin("V" if i < 5 else "V3", "L", ""), "8" if i % 2 == 0 else "1") for q in qs]
        b = np.zeros(len(rows), complex)
        for op in ops:
            for m, a in enumerate(op.vector()):
                b[rows[op.key(), m]] += a
        s = np.linalg.lstsq(A, b, rcond=None)[0]
        if abs(A @ s - b).max() > 1e-9:
            raise AssertionError("not a combination of JMS operators")
        out[i] = [(k, dag, c) for (k, dag, _, _), c in zip(cols, s) if abs(c) > 1e-10]
    return out


@obligation("P34", "WET: JMS -> EOS, complete blocks", funcs(("JMS", "EOS")), cost=4, fallback=1, assumptions=ASSUME + ["four-dimensional Fierz identities, three colours"])
def _(x):
    f = function("WET", "JMS", "EOS")
    P, V = params(x), x.carr("V", (3, 3))
    C = jms_with(x, fl(*EOS_BLOCKS), dip(("s", "b")))
    C = {k: v for k, v in C.items() if not k.startswith("dG")}
    with env(x, P, V):
        got = f(C, SCALE, None)
    unknown = [k for k in got if k not in wcxf.Basis["WET", "EOS"].all_wcs]
    x.true("names", not unknown, unknown[:3])
    L1 = lagr.lagrangian(terms(x, "JMS", C, P, V), x.np.conj)
    # operators outside the EOS basis: the scalar of opposite chirality in Delta F = 2 is related by hermitian conjugation
    L2 = lagr.lagrangian(eos_terms(x, got, P, V), x.np.conj)
    zero_equal(x, "interaction of", L1, L2)
    for k, v in got.items():
        if "Re{" in k or "Im{" in k:
            x.eq(f"{k} is real", v - x.np.conj(v), 0)


@obligation("P34", "WET: JMS -> EOS, hadronic operators", funcs(("JMS", "EOS")), cost=2, fallback=1, assumptions=ASSUME + ["four-dimensional Fierz identities, three colours"])
def _(x):
    f = function("WET", "JMS", "EOS")
    P, V = params(x), x.carr("V", (3, 3))
    c = {i: x.real(f"c{i}") for i in range(1, 7)}
    c8 = {"": x.cplx("c8"), "'": x.cplx("c8p")}
    N = 4 * P["GF"] / 2 ** .5 * V[2, 2] * x.np.conj(V[2, 1])
    n8 = N * x.np.sqrt(4 * np.pi * P["alpha_s"]) * P["m_b"] / (16 * np.pi ** 2)
    C = {}
    for i, t in cmm().items():
        for k, dag, a in t:
            z = N * c[i] * complex(a)
            C[k] = C.get(k, 0) + (x.np.conj(z) if dag else z)
    C["dG_23"], C["dG_32"] = n8 * c8[""], x.np.conj(n8 * c8["'"])
    with env(x, P, V):
        got = f(C, SCALE, None)
        rest = f({k: v for k, v in coeffs(x, "WET", "JMS").items()}, SCALE, None)
    for i in c:
        x.eq(f"c{i}", got[f"b->s::c{i}"], c[i])
    for p in c8:
        x.eq(f"c8{p}", got[f"b->s::c8{p}"], (c8[p] + x.np.conj(c8[p])) / 2)
    for k, v in got.items():
        if not k.startswith("b->s::c"):
            x.eq(k, v, 0)
    for k in [f"b->s::c{i}" for i in c] + ["b->s::c8", "b->s::c8'"]:
        x.eq(f"{k} is real", rest[k] - x.np.conj(rest[k]), 0)


def ff_terms(x, got, P):
    cj, e, gs = x.np.conj, x.np.sqrt(4 * np.pi * P["alpha_e"]), x.np.sqrt(4 * np.pi * P["alpha_s"])
    for q in ("sb", "db", "ds", "uc"):
        a, b = q
        for t, chi in (("V", "LL"), ("V", "RR"), ("V", "LR"), ("S", "LR"), ("T", "LL"), ("T", "RR")):
            f = 2 * q[::-1]
            yield f"FF{t}{chi}{q}", got[f"C{t}{chi}_{f}"] + 0j, lagr.current(t, chi, "1", (a, b, a, b))
    for b in "sd":
        for t in "VST":
            for chi in ("LL", "RR") + (("LR", "RL") if t != "T" else ()):
                yield f"FF{t}{chi}b{b}mm", got[f"C{t}{chi}_b{b}mm"] + 0j, lagr.current(t, chi, "1", (b, "b", "mu", "mu"))
    for f in ("sb", "db", "uu", "dd", "mt", "em", "et"):
        l = {"m": "mu", "t": "tau", "e": "e"}
        a, b = [l[q] if f in ("mt", "em", "et") else q for q in f]
        for gauge, n, g in (("gamma", "A", e), ("G", "G", gs))[:1 if f in ("mt", "em", "et") else 2]:
            for h in "RL":
                if h == "L" and a == b:
                    continue
                yield f"FF{n}{h}{f}", got[f"C{n}{h}_{f}"] * g, lagr.Dipole(gauge, a, b, h)


@obligation("P34", "WET: JMS -> FormFlavor", funcs(("JMS", "formflavor")), cost=3, fallback=1, assumptions=ASSUME + ["four-dimensional Fierz identities, three colours"])
def _(x):
    f = function("WET", "JMS", "formflavor")
    P, V = params(x), x.carr("V", (3, 3))
    full = coeffs(x, "WET", "JMS")
    C = jms_with(x, *[fl((q[0], "b", "mu", "mu")) for q in "sd"], dip(*[tuple(t) for t in (("s", "b"), ("d", "b"), ("u", "u"), ("d", "d"), ("mu", "tau"), ("e", "mu"), ("e", "tau"))]))
    D2 = jms_with(x, *[fl(2 * (a, b)) for a, b in ("sb", "db", "ds", "uc")])
    V2 = {k: v for k, v in D2.items() if not k.startswith("S")}
    with env(x, P, V):
        got = f({**C, **V2}, SCALE, None)
        every = f(full, SCALE, None)
    unknown = [k for k in every if k not in wcxf.Basis["WET", "formflavor"].all_wcs]
    x.true("names", not unknown, unknown[:3])
    L1 = lagr.lagrangian(terms(x, "JMS", {**C, **V2}, P, V), x.np.conj)
    L2 = lagr.lagrangian(ff_terms(x, got, P), x.np.conj)
    zero_equal(x, "interaction of", L1, L2)
    for h in "LR":
        x.eq(f"CV{h}L_sdnn", every[f"CV{h}L_sdnn"], sum(full[f"VnudL{h}_{i}{i}12"] for i in (1, 2, 3)) / 3)
    for q in ("uu", "dd"):
        for n in "AG":
            x.eq(f"C{n}L_{q}", every[f"C{n}L_{q}"], x.np.conj(every[f"C{n}R_{q}"]))
    # the scalar and tensor operators of Delta F = 2 (conventions of the FormFlavor manual are not available; recorded from the code)
    for q, t, i, j in (("sb", "dd", 2, 3), ("db", "dd", 1, 3), ("ds", "dd", 1, 2), ("cu", "uu", 2, 1)):
        for h, ij in (("R", f"{i}{j}{i}{j}"), ("L", f"{j}{i}{j}{i}")):
            z = [full[f"S{c}{t}RR_{ij}"] for c in "18"]
            if (h == "L") == (q != "cu"):
                z = [x.np.conj(c) for c in z]
            f2 = 2 * (q if q == "cu" else q[::-1])
            x.eq(f"CS{h}{h}_{f2}", every[f"CS{h}{h}_{f2}"], z[0] - z[1] / 6 + z[1] / 4)
            x.eq(f"CT{h}{h}_{f2}", every[f"CT{h}{h}_{f2}"], -z[1] / 16)


# ------------------------------------------------------------------ FlavorKit
def fk_table():
    """FlavorKit name -> (JMS name, conjugated)"""
    return {k: tuple(v) for k, v in bases._load("flavorkit.json").items()}


@obligation("P33", "FlavorKit -> JMS -> FlavorKit", funcs(("FlavorKit", "JMS"), ("JMS", "FlavorKit")), fallback=2, assumptions=ASSUME)
def _(x):
    a, b = function("WET", "FlavorKit", "JMS"), function("WET", "JMS", "FlavorKit")
    P, V = params(x), x.carr("V", (3, 3))
    T = fk_table()
    C = {k: x.cplx(k) for k in T}
    J = jms(x)
    with env(x, P, V):
        mid = a(C, SCALE, None)
        back = b(mid, SCALE, None)
        down = b(J, SCALE, None)
        up = a(down, SCALE, None)
    x.eq("FlavorKit -> JMS -> FlavorKit", back, C, absent=0)
    names = set(mid) & set(J)
    x.eq("JMS -> FlavorKit -> JMS", {k: up.get(k, 0) for k in names}, {k: J[k] for k in names})


@obligation("P34", "FlavorKit -> JMS and JMS -> FlavorKit", funcs(("FlavorKit", "JMS"), ("JMS", "FlavorKit")), fallback=2, assumptions=ASSUME)
def _(x):
    a, b = function("WET", "FlavorKit", "JMS"), function("WET", "JMS", "FlavorKit")
    P, V = params(x), x.carr("V", (3, 3))
    T = fk_table()
    C = {k: x.cplx(k) for k in T}
    J = jms(x)
    e = x.np.sqrt(4 * np.pi * P["alpha_e"])
    m = {"1": P["m_e"], "2": P["m_mu"], "3": P["m_tau"]}
    cj = x.np.conj
    up, down = {}, {}
    for k, (j, c) in T.items():
        f = e * m[k[4]] / 2 if k.startswith("K2R") else 1
        up[j] = (cj(C[k]) if c else C[k]) * f
        if j in J:
            down[k] = (cj(J[j]) if c else J[j]) / f
    with env(x, P, V):
        x.eq("FlavorKit -> JMS", a(C, SCALE, None), up, absent=0)
        x.eq("JMS -> FlavorKit", b(J, SCALE, None), down, absent=0)
        for r in (2, 3):
            pick = {k: v for i, (k, v) in enumerate(C.items()) if i % r == 0}
            before = dict(pick)
            x.eq(f"part of the coefficients ({r})", a(pick, SCALE, None), {T[k][0]: up[T[k][0]] for k in pick}, absent=0)
            x.eq(f"argument unchanged ({r})", pick, before)


REGISTERED = {(e, a, b) for e in ("WET", "WET-4", "WET-3") for a in ("JMS", "flavio", "Bern") for b in ("JMS", "flavio", "Bern") if a != b} | {
    ("WET", "JMS", "EOS"), ("WET", "JMS", "formflavor"), ("WET", "JMS", "FlavorKit"), ("WET", "FlavorKit", "JMS"), ("WET", "FlavorKit", "flavio")}


@obligation("P33", "the translation of every pair of bases is registered", ["wilson.translate:" + "_to_".join(t[1:]) for t in sorted(REGISTERED) if t[0] == "WET"])
def _(x):
    for t in sorted(REGISTERED):
        x.true(" ".join(t), t in wcxf.Translator.instances)


@obligation("P33", "FlavorKit -> flavio composes FlavorKit -> JMS -> flavio", ["wilson.translate:FlavorKit_to_flavio", *funcs(("FlavorKit", "JMS"), ("JMS", "flavio"))],
            fallback=2, assumptions=ASSUME)
def _(x):
    f, a, b = function("WET", "FlavorKit", "flavio"), function("WET", "FlavorKit", "JMS"), function("WET", "JMS", "flavio")
    P, V = params(x), x.carr("V", (3, 3))
    C = {k: x.cplx(k) for k in fk_table()}
    with env(x, P, V):
        x.eq("all", f(dict(C), SCALE, None), b(a(dict(C), SCALE, None), SCALE, None), absent=0)
        part = {k: v for i, (k, v) in enumerate(C.items()) if i % 3 == 0}
        x.eq("part", f(dict(part), SCALE, None), b(a(dict(part), SCALE, None), SCALE, None), absent=0)
