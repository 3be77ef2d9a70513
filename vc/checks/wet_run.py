"""P24-P26: running in the weak effective theory."""
import contextlib, gzip, json, os, re
import numpy as np
import scipy.linalg
from ..harness import obligation, Missing
from .. import bases
from ..sym.num import Num, as_num, ATOMS
from .formats import make_wc
from wilson import wcxf
from wilson.util import qcd
from wilson.run.wet import adm, rge, definitions
from wilson.run.wet.classes import WETrunner
from wilson.parameters import p as DEFAULTS

RG, AD, CL = "wilson.run.wet.rge:", "wilson.run.wet.adm:", "wilson.run.wet.classes:"
EFTS = {5: "WET", 4: "WET-4", 3: "WET-3"}
MASSES = ("m_u", "m_d", "m_s", "m_c", "m_b", "m_e", "m_mu", "m_tau")

# ------------------------------------------------------------------ specification: which sector evolves with which matrix
# classes of sectors (the flavour structures of the published WET RGE); a sector evolves with the matrix of its class
CLASS_OF = {}
for _c, _s in {
        "I": "sbsb dbdb sdsd", "Ie": "tauetaue muemue taumutaumu", "Iu": "cucu",
        "II": " ".join(u + d + l + "nu" for d in "bsd" for u in "uc" for l in ("e", "mu", "tau")),
        "III": "sbuc sbcu dbuc dbcu sduc sdcu", "IV": "sbsd dbsb dbds",
        "Vb": " ".join(q + l for q in ("sb", "db", "sd") for l in ("emu", "mue", "etau", "taue", "mutau", "taumu")),
        "Vb_c": " ".join("cu" + l for l in ("emu", "mue", "etau", "taue", "mutau", "taumu")),
        "IVe": "muemutau etauemu tauetaumu", "inv": "sbnunu dbnunu sdnunu cununu nunumue nunumutau nunutaue nunununu",
        "cu": "cu", "db": "db", "sb": "sb", "sd": "sd", "mue": "mue", "mutau": "mutau", "taue": "taue", "dF0": "dF=0", "ffnunu": "ffnunu",
        "uddnu": "uddnu ussnu ubbnu cddnu cssnu cbbnu", "udsnu": "udsnu usbnu udbnu cdbnu cdsnu csbnu",
        "uude": " ".join(u + u + d + l for d in "dsb" for u in "uc" for l in ("e", "mu", "tau")),
        "ucde": " ".join("uc" + d + l for d in "dsb" for l in ("e", "mu", "tau"))}.items():
    for _q in _s.split():
        CLASS_OF[_q] = _c
BY_CLASS = {}
for _q, _c in CLASS_OF.items():
    BY_CLASS.setdefault(_c, []).append(_q)


def heavy(key):
    """mass parameter multiplying a dipole operator of this name"""
    f, i = key[0], max(int(c) for c in key.split("_")[1])
    return {"u": ("m_u", "m_c"), "d": ("m_d", "m_s", "m_b"), "e": ("m_e", "m_mu", "m_tau")}[f][i - 1]


def factor(x, key, p):
    """normalisation of the coefficient in which the one-loop QCD evolution is homogeneous"""
    n = key.split("_")[0]
    g, e = x.np.sqrt(4 * np.pi * p["alpha_s"]), x.np.sqrt(4 * np.pi * p["alpha_e"])
    if n in ("uG", "dG"):
        return g / p[heavy(key)]
    if n in ("ugamma", "dgamma", "egamma"):
        return g ** 2 / e / p[heavy(key)]
    if n in ("G", "Gtilde"):
        return g
    return 1


def params(x, tag):
    d = {"alpha_s": x.real("alpha_s" + tag, pos=True, lo=0.05, hi=0.5), "alpha_e": x.real("alpha_e", pos=True, lo=0.001, hi=0.02)}
    d.update({m: x.real(m + tag, pos=True, lo=0.01, hi=5) for m in MASSES})
    return d


# ------------------------------------------------------------------ P24
@obligation("P24", "every coefficient of every sector evolves exactly once", [RG + "get_permissible_wcs"])
def _(x):
    for f, e in EFTS.items():
        B = wcxf.Basis[e, "JMS"]
        for s in B.sectors:
            x.true(f"{e} {s} evolves", s in definitions.sectors and s in definitions.coeffs)
            if s not in definitions.sectors:
                continue
            x.true(f"{e} {s}: class", definitions.sectors[s] == CLASS_OF.get(s), definitions.sectors[s])
            p = rge.get_permissible_wcs("dF0" if s == "dF=0" else s, f)
            k = definitions.coeffs[s] if isinstance(p, str) else [definitions.coeffs[s][i] for i in p]
            x.true(f"{e} {s}: each coefficient once", len(set(k)) == len(k))
            # coefficients that do not exist in the effective theory are only harmless where no quark runs
            want = set(B.sectors[s])
            x.true(f"{e} {s}: the coefficients of the basis", want <= set(k) and (set(k) == want or s == "ffnunu"), sorted(set(k) ^ want)[:5])


def _keys(s, f):
    ok = bases.jms_keep(f)
    k = list(definitions.coeffs[s])
    return [i for i in k if ok(i)] if s != "ffnunu" else k


def _matrix(x, tag, n):
    """generic sparse matrix: diagonal and a few off-diagonal entries per row"""
    M = np.zeros((n, n), dtype=object if x.mode == "sym" else float)
    step = 1 if tag == "s" else 2
    for i in range(n):
        M[i, i] = x.real(f"U{tag}[{i}]")
        if n > 1:
            M[i, (i + step) % n] = M[i, (i + step) % n] + x.real(f"W{tag}[{i}]")
            M[(i + 3) % n, i] = M[(i + 3) % n, i] + x.real(f"X{tag}[{i}]")
    return x.array(M) if x.mode == "num" else x.array(M.tolist())


def _sector(x, cls, f):
    run = x.need(rge, "run_sector")
    gs, ge = x.need(rge, "getUs"), x.need(rge, "getUe")
    pi_, po = params(x, "_in"), params(x, "_out")
    eta = x.real("eta", pos=True, lo=.3, hi=2)
    for s in BY_CLASS[cls]:
        if s not in wcxf.Basis[EFTS[f], "JMS"].sectors:
            continue
        keys = _keys(s, f)
        n = len(keys)
        C = {k: x.cplx("C_" + k) for k in keys}
        other = {"VeeLL_1111": x.cplx("o1"), "phil1_12": x.cplx("o2"), "dG_99": x.cplx("o3")}
        other = {k: v for k, v in other.items() if k not in C}
        for qcd_, qed in ((1, 1), (1, 0), (0, 1), (0, 0)) if s == BY_CLASS[cls][0] else ((1, 1),):
            calls = []

            def us(*a, **k):
                calls.append(("s", a, k))
                return _matrix(x, "s", n)

            def ue(*a, **k):
                calls.append(("e", a, k))
                return _matrix(x, "e", n)
            tag = f"{s} qcd{qcd_} qed{qed}"
            with x.lib(stubs={gs: us, ge: ue}, always=True):
                out = run(s, {**C, **other}, eta, f, pi_, po, qed_order=qed, qcd_order=qcd_)
            x.true(f"{tag}: coefficients", list(map(str, out)) == keys, list(out)[:3])
            if cls == "inv":
                x.eq(f"{tag}: invariant", {str(k): v for k, v in out.items()}, C)
                continue
            got = [c[0] for c in calls]
            if (qcd_ and "s" not in got) or (qed and "e" not in got):
                raise Missing("evolution matrices are not requested from getUs and getUe")
            x.true(f"{tag}: neglected orders are not computed", (qcd_ or "s" not in got) and (qed or "e" not in got))
            for _, a, k in calls:
                x.true(f"{tag}: class and number of flavours", a[0] == cls and a[2] == f)
                x.eq(f"{tag}: eta", a[1], eta if qcd_ else 1)
                x.eq(f"{tag}: parameters at the input scale", dict(k), pi_)
            M = (_matrix(x, "s", n) if qcd_ else x.np.eye(n)) + (_matrix(x, "e", n) if qed else x.np.zeros((n, n)))
            fi, fo = [factor(x, k, pi_) for k in keys], [factor(x, k, po) for k in keys]
            for i, k in enumerate(keys):
                want = 0
                for j in range(n):
                    m = M[i, j]
                    if isinstance(m, Num) and not m.t or (not isinstance(m, Num) and m == 0):
                        continue
                    want = want + m * fi[j] * C[keys[j]]
                x.eq(f"{tag}: {k}", out[k], want / fo[i])
        zero = run(s, dict(other), eta, f, pi_, po) if x.mode == "num" and cls == "inv" else None
        with x.lib(stubs={gs: lambda *a, **k: _matrix(x, "s", n), ge: lambda *a, **k: _matrix(x, "e", n)}, always=True):
            zero = run(s, dict(other), eta, f, pi_, po)
        x.eq(f"{s}: nothing is generated from other sectors", {str(k): v for k, v in zero.items()}, {k: 0 for k in keys}, absent=0)


for _cls in BY_CLASS:
    for _f in EFTS:
        if any(s in wcxf.Basis[EFTS[_f], "JMS"].sectors for s in BY_CLASS[_cls]):
            obligation("P24", f"evolution of sectors of class {_cls} with {_f} flavours", [RG + "run_sector", RG + "scale_C", RG + "get_m", RG + "get_permissible_wcs"],
                       cost=3 if _cls == "dF0" else 1, fallback=3)(lambda x, c=_cls, f=_f: _sector(x, c, f))


def _qcdstubs(x, rec):
    def mk(name):
        def fn(*a, **k):
            rec.append((name, a, k))
            return x.real(f"{name}#{len(rec)}", pos=True, lo=.1, hi=4)
        return fn
    return {getattr(qcd, n): mk(n) for n in ("alpha_s", "m_b", "m_c", "m_s")}


@obligation("P24", "running parameters at both scales", [CL + "WETrunner._get_running_parameters", CL + "WETrunner.__init__"], profiles=("parts", "imag", "real", "neg"))
def _(x):
    g = x.need(WETrunner, "_get_running_parameters")
    par = {"alpha_s": x.real("as"), "m_b": x.real("mb"), "m_c": x.real("mc"), "m_s": x.real("ms"), "m_u": x.real("mu"), "alpha_e": x.real("ae"), "m_mu": x.real("mmu")}
    keep = dict(DEFAULTS)
    mu = x.real("scale", pos=True)
    for f, e in EFTS.items():
        with x.lib():
            w = WETrunner(make_wc(x, e, "JMS", 3.5, {}), parameters=dict(par))
        full = {**DEFAULTS, **par}
        x.true(f"{e}: number of flavours", w.f == f)
        x.eq(f"{e}: parameters", dict(w.parameters), full)
        rec = []
        with x.lib(stubs=_qcdstubs(x, rec), always=True):
            p = g(w, mu, f)
        x.true(f"{e}: names", set(p) == {"alpha_s", "alpha_e", *MASSES}, sorted(p))
        by = {}
        for i, (n, a, k) in enumerate(rec):
            by.setdefault(n, []).append((i, a, k))
        if sum(map(len, by.values())) != 6:
            raise Missing("running parameters are computed differently")
        at = {n: x.real(f"{c}#{i + 1}", pos=True, lo=.1, hi=4) for i, (n, c) in
              enumerate((("alpha_s", "alpha_s"), ("m_b", "m_b"), ("m_c", "m_c"), ("m_s", "m_s"), ("m_u", "m_s"), ("m_d", "m_s")))}
        order = {}
        for n in at:
            # identify the call by the start value, not by its position
            for i, (c, a, k) in enumerate(rec):
                if n == "alpha_s" and c == "alpha_s":
                    order[n] = i
                    x.eq(f"{e}: alpha_s arguments", [a[0], a[1], (list(a[2:]) + [k.get("alphasMZ")])[0]], [mu, f, full["alpha_s"]])
                elif n != "alpha_s" and c == ("m_s" if n in ("m_s", "m_u", "m_d") else n) and not x_differs(x, a[0], full[n]):
                    order[n] = i
                    x.eq(f"{e}: {n} arguments", [a[0], a[1], a[2], (list(a[3:]) + [k.get("alphasMZ")])[0]], [full[n], mu, f, full["alpha_s"]])
        x.true(f"{e}: every running parameter from its own start value", set(order) == set(at), set(at) - set(order))
        for n, i in order.items():
            x.eq(f"{e}: {n}", p[n], x.real(f"{rec[i][0]}#{i + 1}", pos=True, lo=.1, hi=4))
        for n in ("alpha_e", "m_e", "m_mu", "m_tau"):
            x.eq(f"{e}: {n} does not run", p[n], full[n])
    x.true("the default parameters are left alone", dict(DEFAULTS) == keep)
    with x.lib():
        x.eq("default parameters", dict(WETrunner(make_wc(x, "WET", "JMS", 3.5, {})).parameters), keep)
        x.raises("other bases are rejected", AssertionError, WETrunner, make_wc(x, "WET", "flavio", 3.5, {}))


def x_differs(x, a, b):
    d = as_num(a) - as_num(b) if x.mode == "sym" else a - b
    return bool(d.t) if isinstance(d, Num) else abs(d) > 1e-12


def _fake_par(x, rec):
    def fn(self, scale, *a, **k):
        rec.append(scale)
        t = "_in" if not x_differs(x, scale, x.real("mu_in", pos=True)) else "_out"
        return params(x, t)
    return fn


def _sector_stub(x, rec):
    def fn(sector, C_in, eta, f, p_in, p_out, qed_order=1, qcd_order=1):
        rec.append((sector, C_in, eta, f, p_in, p_out, qed_order, qcd_order))
        return {k: x.cplx(f"{sector}:{k}") for k in definitions.coeffs[sector]}
    return fn


def _patched(obj, name, val):
    import contextlib

    @contextlib.contextmanager
    def cm():
        old = obj.__dict__[name]
        setattr(obj, name, val)
        try:
            yield
        finally:
            setattr(obj, name, old)
    return cm()


for _f, _e in EFTS.items():
    def _run(x, f=_f, e=_e):
        x.need(WETrunner, "_run_dict")
        x.need(WETrunner, "_get_running_parameters")
        rs = x.need(rge, "run_sector")
        mi, mo = x.real("mu_in", pos=True), x.real("mu_out", pos=True)
        B = wcxf.Basis[e, "JMS"]
        d = {k: x.cplx("c_" + k) for k in list(B.all_wcs)[::7]}
        for sel in ("all", tuple(list(B.sectors)[:1]), tuple(list(B.sectors)[1::3])):
            for qed, qcd_ in ((1, 1), (0, 1), (1, 0)):
                rec = []
                with _patched(WETrunner, "_get_running_parameters", _fake_par(x, [])), x.lib(stubs={rs: _sector_stub(x, rec)}, always=True):
                    w = WETrunner(make_wc(x, e, "JMS", mi, d), qed_order=qed, qcd_order=qcd_)
                    out = w.run(mo) if sel == "all" else w.run(mo, sectors=sel)
                if not rec:
                    raise Missing("sectors are not evolved by run_sector")
                want = list(B.sectors) if sel == "all" else [s for s in B.sectors if s in sel]
                t = f"{len(want)} sectors {qed}{qcd_}"
                x.true(f"{t}: exactly the requested sectors", sorted(r[0] for r in rec) == sorted(want), [r[0] for r in rec])
                pi_, po = params(x, "_in"), params(x, "_out")
                for s, C, eta, ff, a, b, oe, os_ in rec:
                    x.eq(f"{t} {s}: input", dict(C), d)
                    x.eq(f"{t} {s}: ratio of couplings", eta, pi_["alpha_s"] / po["alpha_s"])
                    x.eq(f"{t} {s}: parameters", [dict(a), dict(b)], [pi_, po])
                    x.true(f"{t} {s}: flavours and orders", (ff, oe, os_) == (f, qed, qcd_), (ff, oe, os_))
                x.true(f"{t}: labels", (out.eft, out.basis) == (e, "JMS"))
                x.eq(f"{t}: scale", out.scale, mo)
                x.eq(f"{t}: coefficients", dict(out.dict), {k: x.cplx(f"{s}:{k}") for s in want for k in B.sectors[s]}, absent=0)
        # vanishing coefficients are not listed
        zero = lambda sector, *a, **k: {q: 0 for q in definitions.coeffs[sector]}
        with _patched(WETrunner, "_get_running_parameters", _fake_par(x, [])), x.lib(stubs={rs: zero}, always=True):
            x.true("no zeros in the result", not WETrunner(make_wc(x, e, "JMS", mi, d)).run(mo).dict)
    obligation("P24", f"running {_e} coefficients combines the sectors", [CL + "WETrunner.run", CL + "WETrunner._run_dict"], fallback=3)(_run)


@obligation("P24", "continuous running evaluates the same evolution", [CL + "WETrunner.run_continuous"], fork=True)
def _(x):
    x.need(WETrunner, "_run_dict")
    mi = x.real("mu_in", pos=True)
    lo, hi = mi / 2, mi * 3
    calls = []

    def rd(self, scale_out, sectors="all"):
        calls.append((scale_out, sectors))
        return {"a": scale_out * 2, "b": sectors}
    with _patched(WETrunner, "_run_dict", rd), x.lib():
        w = WETrunner(make_wc(x, "WET", "JMS", mi, {}))
        x.raises("nothing to run", ValueError, w.run_continuous, mi)
        for s in (lo, hi):
            for sec in ("all", ("sbsb",)):
                r = w.run_continuous(s) if sec == "all" else w.run_continuous(s, sectors=sec)
                x.eq("interval", [r.scale_min, r.scale_max], [lo, mi] if s is lo else [mi, hi])
                m = mi * (0.75 if s is lo else 1.5)
                if x.mode == "num":
                    v = r.fun(m)
                    x.eq("value", v["a"], 2 * m)
                    x.true("sectors", v["b"] == sec)
                    v = r.fun(np.array([m, m * 1.1]))
                    x.eq("values", [q["a"] for q in v], [2 * m, 2.2 * m])


def oracle(As, Ae, eta, b0, als, ale):
    """evolution matrices from the exponential of a block matrix (first order in the electromagnetic coupling)"""
    n = len(As)
    a, e = As.T / (2 * b0), Ae.T / (2 * b0)
    E = scipy.linalg.expm(np.block([[a, e], [np.zeros((n, n)), a + np.eye(n)]]) * np.log(eta))
    return E[:n, :n], ale / als * E[:n, n:]


@obligation("P24", "running with actual parameters solves the equations of every sector", [CL + "WETrunner.run", RG + "run_sector", RG + "getUs", RG + "getUe"],
            bounded="sampled coefficients, 2 pairs of scales per effective theory", samples=1, cost=3)
def _(x):
    x.clauses += 1
    if x.mode != "num":
        return
    x.rtol, x.scale = 1e-6, 1e-7
    rng = np.random.RandomState(x.seed % 2 ** 31)
    for f, e, scales in ((5, "WET", ((160., 4.8), (4.8, 30.))), (4, "WET-4", ((4.2, 1.6),)), (3, "WET-3", ((1.25, 1.05), (1.1, 2.)))):
        B = wcxf.Basis[e, "JMS"]
        for mi, mo in scales:
            d = {}
            for k, m in B.all_wcs_dict.items() if hasattr(B, "all_wcs_dict") else [(k, v) for s in B.sectors.values() for k, v in s.items()]:
                real = bool(m and m.get("real"))
                d[k] = rng.randn() if real else complex(rng.randn(), rng.randn())
                if k.split("_")[0][-5:] == "gamma" or k.split("_")[0] in ("uG", "dG", "G", "Gtilde"):
                    d[k] = d[k] * 1e-3
            wc = wcxf.WC(e, "JMS", mi, wcxf.WC.dict2values(d))
            w = WETrunner(wc)
            out = w.run(mo).dict
            sub = WETrunner(wc).run(mo, sectors=("dF=0",)).dict
            x.eq(f"{e} restricted", dict(sub), {k: out[k] for k in B.sectors["dF=0"] if k in out})
            same = WETrunner(wc).run(mi).dict
            x.eq(f"{e} equal scales", dict(same), d)
            P = {}
            for t, m in (("in", mi), ("out", mo)):
                a = DEFAULTS["alpha_s"]
                P[t] = {"alpha_s": qcd.alpha_s(m, f, a), "alpha_e": DEFAULTS["alpha_e"],
                        **{q: getattr(qcd, q if q in ("m_b", "m_c") else "m_s")(DEFAULTS[q], m, f, a) for q in ("m_b", "m_c", "m_s", "m_u", "m_d")},
                        **{q: DEFAULTS[q] for q in ("m_e", "m_mu", "m_tau")}}
            eta = P["in"]["alpha_s"] / P["out"]["alpha_s"]
            mats = {}
            for s in B.sectors:
                c = CLASS_OF[s]
                keys = _keys(s, f)
                if c == "inv":
                    want = {k: d[k] for k in keys}
                else:
                    if c not in mats:
                        args = (f,) + tuple(P["in"][m] for m in MASSES)
                        ok = [i for i, k in enumerate(definitions.coeffs[s]) if k in keys]
                        As, Ae = [getattr(adm, f"adm_{t}_{c}")(*args)[np.ix_(ok, ok)] for t in "se"]
                        mats[c] = sum(oracle(As, Ae, eta, 11 - 2 * f / 3, P["in"]["alpha_s"], P["in"]["alpha_e"]))
                    v = mats[c] @ np.array([factor(x, k, P["in"]) * d.get(k, 0) for k in keys])
                    want = {k: v[i] / factor(x, k, P["out"]) for i, k in enumerate(keys)}
                for k in B.sectors[s]:
                    x.eq(f"{e} {mi}->{mo} {k}", out.get(k, 0), want[k])


def _close(a, b, tol=1e-9):
    """dictionaries equal up to rounding relative to the largest entry"""
    m = max([abs(v) for v in b.values()], default=0)
    return all(abs(a.get(k, 0) - b.get(k, 0)) <= tol * m for k in {*a, *b})


@obligation("P24", "running is linear in coefficients of any size and phase", [CL + "WETrunner.run", RG + "run_sector"],
            bounded="sampled coefficients; sizes 1e-45 to 1e20; cancelling, imaginary and single coefficients", samples=1, cost=3)
def _(x):
    x.clauses += 1
    if x.mode != "num":
        return
    rng = np.random.RandomState(x.seed % 2 ** 31)
    for f, e, mi, mo in ((5, "WET", 160., 4.8), (5, "WET", 80., 80.), (5, "WET", 4.8, 4.804), (4, "WET-4", 4.2, 1.6), (3, "WET-3", 1.25, 1.05)):
        B = wcxf.Basis[e, "JMS"]
        keys = [k for s in B.sectors.values() for k in s]
        real = {k: bool(v and v.get("real")) for s in B.sectors.values() for k, v in s.items()}
        small = lambda k: 1e-3 if k.split("_")[0][-5:] == "gamma" or k.split("_")[0] in ("uG", "dG", "G", "Gtilde") else 1

        def run(d, **kw):
            before = dict(d)
            wc = wcxf.WC(e, "JMS", mi, wcxf.WC.dict2values(d))
            r = WETrunner(wc).run(mo, **kw)
            x.true(f"{e}: the input is left alone", dict(wc.dict) == before and r.scale == mo)
            return dict(r.dict)
        d = {k: small(k) * (rng.randn() if real[k] else complex(rng.randn(), rng.randn())) for k in keys}
        full = run(d)
        for c in (1e-10, 1e-22, 1e-45, 1e20):
            r = run({k: c * v for k, v in d.items()})
            x.true(f"{e} {mi}->{mo}: coefficients of size {c}", _close({k: v / c for k, v in r.items()}, full))
        x.true(f"{e}: the same result again", run(d) == full)
        imag = {k: v.imag for k, v in d.items() if not real[k]}
        x.true(f"{e}: imaginary coefficients", _close(run({k: 1j * v for k, v in imag.items()}), {k: 1j * v for k, v in run(imag).items()}))
        # coefficients of one sector adding up to zero
        pairs, single = {}, {}
        for s in B.sectors.values():
            ks = list(s)
            for i in range(0, len(ks) - 1, 2):
                pairs[ks[i]], pairs[ks[i + 1]] = small(ks[i]), -small(ks[i])
            single[ks[len(ks) // 2]] = small(ks[len(ks) // 2])
        rest = lambda p: {k: d[k] - p.get(k, 0) for k in keys}
        for lab, p in (("cancelling", pairs), ("single", single)):
            a, b = run(p), run(rest(p))
            x.true(f"{e} {mi}->{mo}: {lab} coefficients", _close({k: a.get(k, 0) + b.get(k, 0) for k in keys}, full))
        for secs in (("dF=0",), tuple(B.sectors)[:2], tuple(B.sectors)[-1:], ()):
            r = run(d, sectors=secs)
            w = {k: full[k] for s in secs for k in B.sectors[s] if k in full}
            x.true(f"{e} {mi}->{mo} {secs}: only these sectors", set(r) == set(w) and _close(r, w), set(r) ^ set(w))


@obligation("P24", "parameters of the runner", [CL + "WETrunner.__init__", CL + "WETrunner._get_running_parameters"], bounded="each default parameter in turn, several values", samples=1)
def _(x):
    x.clauses += 1
    if x.mode != "num":
        return
    wc = wcxf.WC("WET", "JMS", 80., {})
    base = dict(DEFAULTS)
    if not isinstance(getattr(WETrunner(wc), "parameters", None), dict):
        raise Missing("WETrunner.parameters")
    for k in [*base, "own"]:
        for v in (0, 0.0, -1.5, 3, 1e-9, 1e5):
            user = {k: v}
            w = WETrunner(wc, parameters=user)
            x.true(f"{k}={v}", w.parameters == {**base, k: v} and user == {k: v}, w.parameters.get(k))
    for p in (None, {}):
        x.true(f"defaults {p}", WETrunner(wc, parameters=p).parameters == base)
    w.parameters["m_b"] = -1
    x.true("defaults are not shared", DEFAULTS == base)
    for k in ("m_c", "m_b", "alpha_s", "alpha_e", "m_tau", "m_e", "m_d"):
        w = WETrunner(wc, parameters={k: base[k] * 1.1})
        p, q = (r._get_running_parameters(50., 5) if hasattr(r, "_get_running_parameters") else {} for r in (w, WETrunner(wc)))
        x.true(f"{k} in use", not p or (p[k] != q[k] and all(p[n] == q[n] for n in p if n != k and k != "alpha_s")), k)


# ------------------------------------------------------------------ P25
def _spectral(x, n, b0, gaps):
    """a matrix with given eigenvectors and symbolic eigenvalues: v unimodular (generic up to the norm of its columns)"""
    L = [[1 if i == j else (x.real(f"l{i}{j}") if i > j else 0) for j in range(n)] for i in range(n)]
    U = [[1 if i == j else (x.real(f"u{i}{j}") if i < j else 0) for j in range(n)] for i in range(n)]
    mm = lambda A, B: [[sum((A[i][k] * B[k][j] for k in range(n)), 0) for j in range(n)] for i in range(n)]

    def inv(A, lower):
        # unit triangular
        R = [[1 if i == j else 0 for j in range(n)] for i in range(n)]
        for i in (range(n) if lower else reversed(range(n))):
            for j in range(n):
                R[i][j] = R[i][j] - sum((A[i][k] * R[k][j] for k in (range(i) if lower else range(i + 1, n))), 0)
        return R
    v, vi = mm(L, U), mm(inv(U, False), inv(L, True))
    w = [x.real("w0", lo=-3, hi=3)]
    for k in range(1, n):
        g = gaps[k - 1]
        t = x.real(f"gap{k}", lo=.1, hi=.8 if n == 2 else .45)
        # successive eigenvalues: closer than, exactly at, or further apart than the resonance 2 b0
        w.append(w[-1] + (2 * b0 * t if g == "<" else 2 * b0 if g == "=" else 2 * b0 * (1 + t)))
    return v, vi, w


def _mat(x, rows):
    return x.array(rows)


def _evolution(x, n, f, gaps):
    gs, ge, ae = x.need(rge, "getUs"), x.need(rge, "getUe"), x.need(rge, "admeig")
    x.need(adm, "adm_s_I")
    b0 = 11 - 2 * f / 3
    v, vi, w = _spectral(x, n, b0, gaps)
    V, VI = _mat(x, v), _mat(x, vi)
    E = [[x.real(f"e{i}{j}") for j in range(n)] for i in range(n)]
    D = _mat(x, [[w[i] if i == j else 0 for j in range(n)] for i in range(n)])
    As, Ae = (V @ D @ VI).T, (V @ _mat(x, E) @ VI).T
    seen = []

    def fs(*a):
        seen.append(("s", a))
        return As

    def fe(*a):
        seen.append(("e", a))
        return Ae
    W = x.array(w)

    def eig(M):
        x.eq("diagonalisation of the transposed matrix", M, As.T)
        return W, V
    m = tuple(x.real(q, pos=True) for q in MASSES)
    al, ale = x.real("alpha_s", pos=True, lo=.1, hi=.4), x.real("alpha_e", pos=True, lo=.001, hi=.01)
    e1, e2 = x.real("eta1", pos=True, lo=.5, hi=.9), x.real("eta2", pos=True, lo=1.2, hi=1.9)
    stubs = {adm.adm_s_I: fs, adm.adm_e_I: fe}
    if x.mode == "sym":
        stubs[np.linalg.eig] = eig
    for c in (ae, gs, ge):
        if hasattr(c, "cache_clear"):
            c.cache_clear()
    try:
        with x.lib(stubs=stubs, always=True):
            S = {k: gs("I", q, f, a, ale, *m) for k, q, a in (("1", e1, al), ("2", e2, al / e1), ("12", e1 * e2, al), ("id", 1, al))}
            Q = {k: ge("I", q, f, a, ale, *m) for k, q, a in (("1", e1, al), ("2", e2, al / e1), ("12", e1 * e2, al), ("id", 1, al))}
    finally:
        for c in (ae, gs, ge):
            if hasattr(c, "cache_clear"):
                c.cache_clear()
    if not {"s", "e"} <= {t for t, _ in seen}:
        raise Missing("anomalous dimensions are not taken from adm")
    for t, a in seen:
        x.eq(f"arguments of the {t} matrix", list(a), [f, *m])
    a = [q / (2 * b0) for q in w]
    rot = lambda M: VI @ M @ V
    pw = lambda e, q: e ** q
    for k, q in (("1", e1), ("2", e2), ("12", e1 * e2)):
        x.eq(f"QCD evolution by eta{k}", rot(S[k]), _mat(x, [[pw(q, a[i]) if i == j else 0 for j in range(n)] for i in range(n)]))
    x.eq("no QCD evolution between equal scales", S["id"], _mat(x, [[1 if i == j else 0 for j in range(n)] for i in range(n)]))
    x.eq("no QED evolution between equal scales", Q["id"], _mat(x, [[0] * n for i in range(n)]))
    x.eq("QCD evolution composes", S["2"] @ S["1"], S["12"])
    # closed form of the solution to first order in alpha_e
    H = [[None] * n for _ in range(n)]
    res = lambda i, j: any(g == "=" for g in gaps) and _res(i, j, gaps)
    for i in range(n):
        for j in range(n):
            if res(i, j):
                h = pw(e1, a[j]) * e1 * x.np.log(1 / e1)
            else:
                h = (pw(e1, a[j]) * e1 - pw(e1, a[i])) / (a[i] - a[j] - 1)
            H[i][j] = -ale / (2 * b0 * al) * E[i][j] * h
    x.eq("QED evolution", rot(Q["1"]), _mat(x, H))
    x.eq("QED evolution composes", rot(S["2"] @ Q["1"] + Q["2"] @ S["1"]), rot(Q["12"]))


def _res(i, j, gaps):
    """a_i - a_j = 1 : j is the direct predecessor of i with a gap '='"""
    return i == j + 1 and gaps[j] == "="


for _f in EFTS:
    for _n, _gaps in ((2, "<"), (2, "="), (2, ">"), (3, "<<"), (3, "<="), (3, "=>")):
        if (_f != 5 and _n == 3):
            continue
        obligation("P25", f"evolution matrices for {_f} flavours, eigenvalue gaps {_gaps.replace('<', 'lt').replace('=', 'eq').replace('>', 'gt')}",
                   [RG + "getUs", RG + "getUe", RG + "admeig"], fork=True, profiles=("parts", "imag", "real", "neg"), bounded=f"matrices of dimension {_n}, all eigenvectors and eigenvalues with these gaps",
                   assumptions=["numpy.linalg.eig returns the eigenvalues and eigenvectors of its argument"], fallback=6, timeout=400)(
            lambda x, n=_n, f=_f, g=_gaps: _evolution(x, n, f, g))


# -- any dimension: matrices are products of named factors, loops over their indices are cut by an invariant
class _Unsupported(Missing):
    pass


class _N:
    """the (unknown) dimension"""


class _Ix:
    """an arbitrary index"""
    def __init__(self, name):
        self.name = name


def _no(*a, **k):
    raise _Unsupported("operation on a matrix of any dimension")


class _Any:
    __array_ufunc__ = None
    ndim = 1
    __array__ = __iter__ = __len__ = __bool__ = __lt__ = __gt__ = __le__ = __ge__ = __eq__ = __ne__ = _no
    __hash__ = object.__hash__
    __getattr__ = lambda self, k: _no()


class _Vec(_Any):
    """a vector of any length, known through its entry at an arbitrary index"""
    def __init__(self, at):
        self.at = at

    def __getitem__(self, k):
        return self.at(k) if isinstance(k, _Ix) else _no()

    def _map(self, f):
        return _Vec(lambda k: f(self.at(k)))
    __mul__ = __rmul__ = lambda self, o: _no() if isinstance(o, _Any) else self._map(lambda v: v * o)
    __truediv__ = lambda self, o: _no() if isinstance(o, _Any) else self._map(lambda v: v / o)
    __add__ = __radd__ = lambda self, o: _no() if isinstance(o, _Any) else self._map(lambda v: v + o)
    __sub__ = lambda self, o: _no() if isinstance(o, _Any) else self._map(lambda v: v - o)
    __neg__ = lambda self: self._map(lambda v: -v)
    __rpow__ = lambda self, o: _no() if isinstance(o, _Any) else self._map(lambda v: o ** v)

    @property
    def shape(self):
        return (_N,)


class _Mat(_Any):
    """scalar times a word of matrix factors; `cells`: entries rewritten by a loop"""
    ndim = 2

    def __init__(self, word, c=1, entry=None):
        self.word, self.c, self.entry, self.cells = tuple(word), c, entry, {}

    def __matmul__(self, o):
        if not isinstance(o, _Mat):
            _no()
        w = [*self._frozen().word, *o._frozen().word]
        i = 0
        while i + 1 < len(w):
            if {w[i], w[i + 1]} == {"V", "V^-1"}:
                del w[i:i + 2]
                i = max(0, i - 1)
            else:
                i += 1
        return _Mat(w, self.c * o.c)

    def _frozen(self):
        if not self.cells:
            return self
        return _Mat([_Cells(self.word, self.cells)], self.c)

    __mul__ = __rmul__ = lambda self, o: _no() if isinstance(o, _Any) else _Mat(self._frozen().word, self.c * o)
    __truediv__ = lambda self, o: _no() if isinstance(o, _Any) else _Mat(self._frozen().word, self.c / o)
    __neg__ = lambda self: _Mat(self._frozen().word, -self.c)

    @property
    def shape(self):
        return (_N, _N)

    @property
    def T(self):
        if len(self.word) != 1 or not isinstance(self.word[0], str) or self.c != 1 or self.cells:
            _no()
        w = self.word[0]
        return _Mat([w[:-2] if w.endswith("^T") else w + "^T"])

    def _cell(self, k):
        if not (isinstance(k, tuple) and len(k) == 2 and all(isinstance(q, _Ix) for q in k)):
            _no()
        return k[0].name, k[1].name

    def __getitem__(self, k):
        if self.entry is None and self.word and all(isinstance(w, str) for w in self.word):
            return self.cells.get(self._cell(k), _ENTRY(self.word, *self._cell(k)))
        _no()

    def __setitem__(self, k, v):
        if k[0].name[0] != "i" or k[1].name[0] != "j":
            _no()
        self.cells[self._cell(k)] = v


class _Cells:
    def __init__(self, word, cells):
        self.word, self.cells = word, dict(cells)


def _ENTRY(word, i, j):
    return Num_entry(".".join(word), i, j)


@contextlib.contextmanager
def _index_loops(module):
    """`for i in range(n)` over the unknown dimension: two arbitrary indices per loop (the body must not carry state)"""
    level = []

    def rng(*a):
        if a and a[-1] is _N:
            if len(a) == 2 and a[0] != 0 or len(a) > 2:
                _no()
            letter = "ij"[len(level)] if len(level) < 2 else _no()
            level.append(letter)
            try:
                for n in (1, 2):
                    yield _Ix(f"{letter}{n}")
            finally:
                level.pop()
        else:
            if any(q is _N for q in a):
                _no()
            yield from range(*a)
    saved = module.__dict__.get("range", _N)
    module.range = rng
    try:
        yield
    finally:
        if saved is _N:
            del module.range
        else:
            module.range = saved


def _stateless_loops(fn):
    """no variable is updated from one iteration to the next"""
    import ast, inspect, textwrap
    t = ast.parse(textwrap.dedent(inspect.getsource(inspect.unwrap(fn))))
    for loop in [n for n in ast.walk(t) if isinstance(n, (ast.For, ast.While, ast.ListComp, ast.GeneratorExp))]:
        if isinstance(loop, ast.While):
            return False
        for n in ast.walk(loop):
            if isinstance(n, (ast.Break, ast.Continue, ast.Return, ast.Nonlocal, ast.Global)) or isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                return False
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "pop", "add", "update", "extend", "insert", "setdefault"):
                return False
    return True


GAPS = {"on both sides of resonance": (-1, 2, -1), "above resonance": (1, 1, 1), "at resonance": (0, 1, 1), "at resonance, falling": (0, -1, -1), "far below": (-1, -1, -1)}


def _any_dimension(x, f, case):
    global Num_entry
    gs, ge, ae = x.need(rge, "getUs"), x.need(rge, "getUe"), x.need(rge, "admeig")
    gp = x.need(rge, "get_permissible_wcs")
    for fn in (gs, ge, ae):
        if not _stateless_loops(fn):
            raise Missing("loop carries state")
    b0 = 11 - 2 * f / 3
    # spectrum at two arbitrary pairs of indices
    t, u, w_ = GAPS[case]
    part = lambda s, n: 0 if s == 0 else s * x.real(n, lo=1e-6, hi=50)
    aj1 = x.real("aj", lo=-50, hi=50)
    # signs are chosen such that no difference of the four pairs can come closer to resonance than 1e-6 (unless it is exactly there)
    T, U, W = part(t, "t"), part(min(u, 1), "u"), part(w_, "w")
    if u == 2:
        U = U - T - W
    val = {"j1": aj1, "i1": aj1 + 1 + T, "i2": aj1 + 1 + T + U, "j2": aj1 - W}
    Num_entry = lambda word, i, j: x.real(f"K[{word}]{i}{j}")
    w = _Vec(lambda k: 2 * b0 * val[k.name])
    V, VI = _Mat(["V"]), _Mat(["V^-1"])
    As, Ae = _Mat(["A_s"]), _Mat(["A_e"])
    seen = []
    m = tuple(x.real(q, pos=True) for q in MASSES)
    al, ale = x.real("alpha_s", pos=True, lo=.05, hi=.6), x.real("alpha_e", pos=True, lo=.001, hi=.01)
    e1, e2 = x.real("eta1", pos=True, lo=.5, hi=.9), x.real("eta2", pos=True, lo=1.2, hi=1.9)

    def eig(M):
        x.true("diagonalisation of the transposed matrix", isinstance(M, _Mat) and M.word == ("A_s^T",) and not M.cells)
        return w, V

    def inv(M):
        if not (isinstance(M, _Mat) and M.word in (("V",), ("V^-1",))):
            _no()
        return VI if M.word == ("V",) else V

    def diag(v, k=0):
        if not isinstance(v, _Vec) or k != 0:
            _no()
        return _Mat([_Diag(v)])
    fs = lambda *a: (seen.append(("s", a)), As)[1]
    fe = lambda *a: (seen.append(("e", a)), Ae)[1]
    stubs = {adm.adm_s_I: fs, adm.adm_e_I: fe, gp: lambda *a: "all", np.linalg.eig: eig, np.linalg.inv: inv, np.diag: diag}
    clear = lambda: [c.cache_clear() for c in (ae, gs, ge) if hasattr(c, "cache_clear")]
    clear()
    try:
        with x.lib(stubs=stubs, always=True), _index_loops(rge):
            runs = (("1", e1, al), ("2", e2, al / e1), ("12", e1 * e2, al), ("id", 1, al))
            S = {k: gs("I", q, f, a, ale, *m) for k, q, a in runs}
            Q = {k: ge("I", q, f, a, ale, *m) for k, q, a in runs}
    finally:
        clear()
    for t_, a in seen:
        x.eq(f"arguments of the {t_} matrix", list(a), [f, *m])
    pw = lambda e, q: e ** q
    D = {}
    for k, q, _ in runs:
        M = S[k]
        ok = isinstance(M, _Mat) and len(M.word) == 3 and (M.word[0], M.word[2]) == ("V", "V^-1") and isinstance(M.word[1], _Diag)
        if not ok:
            raise _Unsupported("QCD evolution is not of the form V D V^-1")
        D[k] = {n: M.c * M.word[1].v.at(_Ix(n)) for n in val}
        for n in val:
            x.eq(f"QCD evolution by eta{k}, eigenvalue {n}", D[k][n], pw(q, val[n]) if k != "id" else 1)
    H = {}
    for k, q, a in runs:
        M = Q[k]
        ok = isinstance(M, _Mat) and len(M.word) == 3 and (M.word[0], M.word[2]) == ("V", "V^-1") and isinstance(M.word[1], _Cells)
        if not ok:
            raise _Unsupported("QED evolution is not of the form V K V^-1")
        x.true("the electromagnetic matrix in the eigenbasis", M.word[1].word == ("V^-1", "A_e^T", "V"), M.word[1].word)
        x.true("every entry is treated", set(M.word[1].cells) == {(i, j) for i in ("i1", "i2") for j in ("j1", "j2")}, set(M.word[1].cells))
        for (i, j), v in M.word[1].cells.items():
            K = Num_entry("V^-1.A_e^T.V", i, j)
            H[k, i, j] = M.c * v
            if k == "id":
                x.eq(f"no QED evolution between equal scales {i}{j}", H[k, i, j], 0)
                continue
            if t == 0 and (i, j) == ("i1", "j1"):
                h = pw(q, val[j]) * q * x.np.log(1 / q)
            else:
                h = (pw(q, val[j]) * q - pw(q, val[i])) / (val[i] - val[j] - 1)
            x.eq(f"QED evolution {k} {i}{j}", H[k, i, j], -ale / (2 * b0 * a) * K * h)
    for i in ("i1", "i2"):
        for j in ("j1", "j2"):
            if ("1", i, j) in H:
                x.eq(f"QED evolution composes {i}{j}", D["2"][i] * H["1", i, j] + H["2", i, j] * D["1"][j], H["12", i, j])


class _Diag:
    def __init__(self, v):
        self.v = v


for _f in EFTS:
    for _c in GAPS:
        obligation("P25", f"evolution matrices of any dimension for {_f} flavours, eigenvalues {_c}", [RG + "getUs", RG + "getUe", RG + "admeig"], fork=True, numeric=False,
                   assumptions=["numpy.linalg.eig returns the eigenvalues and eigenvectors of its argument",
                                "real eigenvalues; pairs with 0 < |a_i - a_j - 1| < 1e-6 excluded",
                                "loops over matrix indices: two arbitrary iterations stand for all (no variable is updated between iterations: checked in the source)"],
                   timeout=400)(lambda x, f=_f, c=_c: _any_dimension(x, f, c))


@obligation("P25", "evolution matrices of every class equal the exponential of its anomalous dimension", [RG + "getUs", RG + "getUe", RG + "admeig", RG + "get_permissible_wcs"],
            bounded="sampled masses and coupling ratios", samples=1, cost=3)
def _(x):
    x.clauses += 1
    if x.mode != "num":
        return
    x.rtol = 1e-7
    for f in EFTS:
        for c, secs in BY_CLASS.items():
            secs = [s for s in secs if s in wcxf.Basis[EFTS[f], "JMS"].sectors]
            if c == "inv" or not secs:
                continue
            m = [x.real(f"{q}{f}", lo=a, hi=b) for q, a, b in zip(MASSES, (.001, .003, .05, .5, 2, .0004, .1, 1.5), (.004, .01, .2, 1.4, 5, .0006, .12, 2))]
            ok = [i for i, k in enumerate(definitions.coeffs[secs[0]]) if k in _keys(secs[0], f)]
            As, Ae = [getattr(adm, f"adm_{t}_{c}")(f, *m)[np.ix_(ok, ok)] for t in "se"]
            for eta in (x.real(f"eta{f}", lo=.3, hi=.9), 1.4):
                a, b = oracle(As, Ae, eta, 11 - 2 * f / 3, .2, .0075)
                us, ue = rge.getUs(c, eta, f, .2, .0075, *m), rge.getUe(c, eta, f, .2, .0075, *m)
                for lab, g, w in (("QCD", us, a), ("QED", ue, b)):
                    x.true(f"{lab} {c} {f}: shape", g.shape == w.shape)
                    x.true(f"{lab} {c} {f} eta={eta:.3f}", g.shape == w.shape and abs(g - w).max() <= 1e-7 * max(1e-2, abs(w).max()), abs(g - w).max() if g.shape == w.shape else "")
            again = rge.getUs(c, .7, f, .2, .0075, *m)
            keep = again.copy()
            rge.getUe(c, .7, f, .2, .0075, *m)
            x.true(f"{c} {f}: the memo is not changed by later calls", np.array_equal(rge.getUs(c, .7, f, .2, .0075, *m), keep))
            m2 = list(m)
            m2[2] *= 1.1
            rge.getUs(c, .7, f, .2, .0075, *m2)
            x.true(f"{c} {f}: the memo depends on every argument",
                   np.allclose(rge.getUs(c, .7, f, .2, .0075, *m2), oracle(getattr(adm, f"adm_s_{c}")(f, *m2)[np.ix_(ok, ok)], Ae, .7, 11 - 2 * f / 3, .2, .0075)[0], rtol=1e-6, atol=1e-8))


@obligation("P25", "QED evolution without QCD", [RG + "run_sector"], bounded="sampled sectors and couplings", samples=1)
def _(x):
    """with the QCD anomalous dimension neglected, QED evolution alone remains: C_out = (1 + alpha_e/(2 b0 alpha_s) (eta - 1) A_e^T) C"""
    x.clauses += 1
    if x.mode != "num":
        return
    p = {"alpha_s": .2, "alpha_e": 1 / 128., **{m: 1. for m in MASSES}}
    q = {**p, "alpha_s": .3}
    eta = p["alpha_s"] / q["alpha_s"]
    for s in ("sbsb", "ubmunu", "muemue"):
        c = CLASS_OF[s]
        keys = definitions.coeffs[s]
        A = getattr(adm, f"adm_e_{c}")(5, *[1.] * 8)
        C = {k: 1. + i for i, k in enumerate(keys)}
        out = rge.run_sector(s, C, eta, 5, p, q, qed_order=1, qcd_order=0)
        v = np.array([C[k] for k in keys])
        want = v + p["alpha_e"] / (2 * (23 / 3) * p["alpha_s"]) * (eta - 1) * (A.T @ v)
        x.true(f"QED running is not lost ({s})", np.allclose([out[k] for k in keys], want, rtol=1e-6), [out[k] for k in keys][:3])


# ------------------------------------------------------------------ P26
SHORT = dict(zip(("mu", "md", "ms", "mc", "mb", "me", "mmu", "mtau"), MASSES))
FIELD_MASS = {"d": ["m_d", "m_s", "m_b"], "u": ["m_u", "m_c"], "e": ["m_e", "m_mu", "m_tau"]}


def masses(x):
    return {m: x.real(m, pos=True, lo=.2, hi=5) for m in MASSES}


def sparse(x, t, cls, f, m):
    """transposed anomalous dimension: {(result, source): entry}"""
    fn = x.need(adm, f"adm_{t}_{cls}")
    with x.lib():
        A = fn(f, *[m[q] for q in MASSES])
    n = len(definitions.coeffs[BY_CLASS[cls][0]])
    x.true(f"{cls} {t} {f}: dimension", np.shape(A) == (n, n), np.shape(A))
    A = np.asarray(A.view(np.ndarray) if hasattr(A, "view") else A)
    out = {}
    for j, i in np.ndindex(*A.shape):
        v = A[j, i]
        if isinstance(v, Num):
            if v.t:
                out[i, j] = v
        elif v != 0:
            out[i, j] = v
    return out


def canon(k, keys):
    """(name in the basis, conjugated, sign) of a coefficient name"""
    if k in keys:
        return k, False, 1
    if "_" not in k:
        return None
    n, i = k.split("_")
    c = bases.jms_class_of(n)
    if c is None:
        return None
    for t, cj, s in bases.orbit(c, tuple(int(q) - 1 for q in i)):
        if bases.label(n, t) in keys:
            return bases.label(n, t), cj, s
    return None


def parity(k):
    """parity transform of a coefficient without neutrinos: (name, conjugated, sign)"""
    if k in ("G", "Gtilde"):
        return k, False, (-1 if k == "Gtilde" else 1)
    n, i = k.split("_")
    if n[-2:] in ("LL", "RR") and n[0] == "V":
        return n[:-2] + {"LL": "RR", "RR": "LL"}[n[-2:]] + "_" + i, False, 1
    if re.match(r"[ued](G|gamma)$", n):
        return n + "_" + i[::-1], True, 1
    if "udduRR" in n or "udduLR" in n:
        return n + "_" + i[::-1], True, 1
    if n[0] == "V" and n.endswith("LR"):
        m = re.match(r"(V[18]?)([ude])([ude])LR$", n)
        return f"{m.group(1)}{m.group(3)}{m.group(2)}LR_{i[2:]}{i[:2]}", False, 1
    if n[0] in "ST" and "L" not in n[1:].replace("RL", "") and len(bases.jms_fields(n)) == 4 and len(re.findall("[ude]", n)) in (2, 4):
        return n + "_" + i[1] + i[0] + i[3] + i[2], True, 1
    return None


def conj(v):
    return v.conjugate() if hasattr(v, "conjugate") else v


def _parity(x, t, cls, f):
    ok = bases.jms_keep(f)
    keys = definitions.coeffs[BY_CLASS[cls][0]]
    pos = {k: i for i, k in enumerate(keys)}
    mp = {}
    for k in keys:
        if not ok(k) or "nu" in k:
            continue
        p = parity(k)
        c = p and canon(p[0], pos)
        if c:
            mp[pos[k]] = (pos[c[0]], p[1] ^ c[1], p[2] * c[2])
    need = [k for k in keys if ok(k) and "nu" not in k]
    x.true("all coefficients have a mirror image in the sector", len(mp) == len(need), [k for k in need if pos[k] not in mp][:5])
    A = sparse(x, t, cls, f, masses(x))
    got, want = {}, {}
    for (i, j), v in A.items():
        if i in mp and j in mp:
            want[f"{keys[i]} from {keys[j]}"] = v
            a, cj, s = mp[i]
            b, _, s2 = mp[j]
            got[f"{keys[a]} from {keys[b]}"] = (conj(v) if cj else v) * s * s2
    x.eq(f"{cls} {f}", got, want, absent=0)


def relabel(k, perm):
    if "_" not in k:
        return k
    n, i = k.split("_")
    return n + "_" + "".join(str(perm.get(fl, {}).get(int(c), int(c))) for fl, c in zip(bases.jms_fields(n), i))


def perms(f):
    sw = lambda a, b: {a: b, b: a}
    P = [("d", 1, 2), ("e", 1, 2), ("nu", 1, 2), ("nu", 2, 3)]
    if f >= 4:
        P += [("u", 1, 2), ("e", 2, 3)]
    if f == 5:
        P += [("d", 2, 3)]
    return [(p, {p[0]: sw(*p[1:])}) for p in P]


_SECTOR_OF = {}
for _s, _ks in definitions.coeffs.items():
    for _k in _ks:
        _SECTOR_OF.setdefault(_k, _s)


def norm(k, m):
    """dipole coefficients are normalised to the heavier quark or lepton mass"""
    n = k.split("_")[0]
    return m[heavy(k)] if re.match(r"[ued](G|gamma)$", n) else 1


def _relabel(x, t, cls, f):
    ok = bases.jms_keep(f)
    m = masses(x)
    mats = {}

    def get(c, tag, mm):
        if (c, tag) not in mats:
            mats[c, tag] = sparse(x, t, c, f, mm)
        return mats[c, tag]
    for (fl, a, b), P in perms(f):
        m2 = dict(m)
        if fl in FIELD_MASS:
            q = FIELD_MASS[fl]
            m2[q[a - 1]], m2[q[b - 1]] = m[q[b - 1]], m[q[a - 1]]
        done = set()
        for s in BY_CLASS[cls]:
            keys = [k for k in definitions.coeffs[s] if ok(k)]
            mp, target = {}, set()
            for k in keys:
                r = relabel(k, P)
                c = canon(r, _SECTOR_OF)
                if c:
                    mp[k] = c
                    target.add(_SECTOR_OF[c[0]])
            if len(target) != 1 or len(mp) != len(keys):
                continue            # the exchanged flavours are no sector of their own (its hermitian conjugate is)
            s2 = target.pop()
            c2 = CLASS_OF[s2]
            p1, p2 = ({k: i for i, k in enumerate(definitions.coeffs[q])} for q in (s, s2))
            sig = (c2, tuple((p1[k], p2[v[0]], v[1:]) for k, v in mp.items()))
            if sig in done:
                continue
            done.add(sig)
            A, B = get(cls, None, m), get(c2, (fl, a, b) if fl != "nu" else None, m2)
            inv = {p1[k]: (p2[v[0]], v[1], v[2], norm(k, m) / norm(v[0], m2)) for k, v in mp.items()}
            rev = {v[0]: k for k, v in inv.items()}
            got, want = {}, {}
            for (i, j), v in A.items():
                if i in inv and j in inv:
                    (i2, cj, s_, ni), (j2, _, t_, nj) = inv[i], inv[j]
                    got[i2, j2] = (conj(v) if cj else v) * s_ * t_ * ni / nj
            for (i, j), v in B.items():
                if i in rev and j in rev:
                    want[i, j] = v
            n2 = definitions.coeffs[s2]
            ren = lambda d: {f"{n2[i]} from {n2[j]}": v for (i, j), v in d.items()}
            x.eq(f"{s} -> {s2} under {fl}{a}<->{fl}{b}", ren(got), ren(want), absent=0)


_PIN = None


def pinned():
    global _PIN
    if _PIN is None:
        with gzip.open(os.path.join(os.path.dirname(bases.__file__), "data", "adm_spec.json.gz"), "rt") as fh:
            _PIN = json.load(fh)
    return _PIN


def _pinned(x, t, cls, f):
    m = masses(x)
    A = sparse(x, t, cls, f, m)
    want = {}
    for i, j, terms in pinned()[f"{t} {cls} {f}"]:
        v = 0
        for re_, im, mono in terms:
            q = complex(re_, im) if im else re_
            for n, e in mono.items():
                q = q * m[n] ** e
            v = v + q
        want[i, j] = v
    keys = definitions.coeffs[BY_CLASS[cls][0]]
    ren = lambda d: {f"{keys[i]} from {keys[j]}": v for (i, j), v in d.items()}
    x.eq(f"{cls} {t} {f}", ren(A), ren(want), absent=0)


if os.path.exists(os.path.join(os.path.dirname(bases.__file__), "data", "adm_spec.json.gz")):
    for _cls in BY_CLASS:
        if _cls == "inv":
            continue
        for _t in "se":
            for _f in EFTS:
                if not any(s in wcxf.Basis[EFTS[_f], "JMS"].sectors for s in BY_CLASS[_cls]):
                    continue
                nm = f"{'QCD' if _t == 's' else 'QED'} matrix of class {_cls}, {_f} flavours"
                c = 3 if _cls == "dF0" else 1
                obligation("P26", nm + ": pinned equations", [AD + f"adm_{_t}_{_cls}"], cost=c, fallback=2)(lambda x, t=_t, c=_cls, f=_f: _pinned(x, t, c, f))
                if not any("nu" in s for s in BY_CLASS[_cls]) and _cls not in ("uude", "ucde"):
                    obligation("P26", nm + ": parity", [AD + f"adm_{_t}_{_cls}"], cost=c, fallback=2)(lambda x, t=_t, c=_cls, f=_f: _parity(x, t, c, f))
                obligation("P26", nm + ": flavour relabelling", [AD + f"adm_{_t}_{_cls}"], cost=2 * c, fallback=2)(lambda x, t=_t, c=_cls, f=_f: _relabel(x, t, c, f))


def _solution(x, f, e):
    """the continuous solution at an arbitrary scale against running to this scale, both over run_sector as a free function"""
    rs = x.need(rge, "run_sector")
    x.need(WETrunner, "_get_running_parameters")
    mi, mo, m = (x.real(n, pos=True) for n in ("mu_in", "mu_out", "mu"))
    B = wcxf.Basis[e, "JMS"]
    d = {k: x.cplx("c_" + k) for k in list(B.all_wcs)[::29]}
    nonzero = {s: [k for k in ks][i % len(ks)] for i, (s, ks) in enumerate(B.sectors.items()) if i < 2}
    used = []

    def at(scale):
        for i, s in enumerate(used):
            if not x_differs(x, s, scale):
                return f"_{i}"
        used.append(scale)
        return f"_{len(used) - 1}"

    def par(self, scale, *a, **k):
        return params(x, at(scale))

    def sector(sector, C_in, eta, f, p_in, p_out, qed_order=1, qcd_order=1):
        # a free function of the arguments: one unknown per coefficient times the arguments
        out = {k: 0 for k in definitions.coeffs[sector]}
        if sector in nonzero:
            out[nonzero[sector]] = x.cplx("F") * p_out["alpha_s"] * (1 + p_out["m_b"]) * (2 + p_in["alpha_s"]) * eta * (1 + qed_order + 3 * qcd_order)
        return out
    last = list(B.sectors)[1]
    with _patched(WETrunner, "_get_running_parameters", par), x.lib(stubs={rs: sector}, always=True):
        w = WETrunner(make_wc(x, e, "JMS", mi, d), qed_order=0)
        if mo == mi:
            x.raises("nothing to run", ValueError, w.run_continuous, mo)
            return
        for sec in (None, (last,)):
            kw = {} if sec is None else {"sectors": sec}
            sol = w.run_continuous(mo, **kw)
            up = bool(mo > mi)
            x.eq(f"{sec} range", [sol.scale_min, sol.scale_max], [mi, mo] if up else [mo, mi])
            got = sol.fun(m)
            out = w.run(m, **kw)
            want = out.dict
            names = [k for s in (B.sectors if sec is None else sec) for k in B.sectors[s]]
            x.true(f"{sec} complete", isinstance(got, dict) and set(names) <= set(got), [k for k in names if k not in got][:5])
            x.eq(f"{sec} equals run", {k: got[k] for k in names}, {k: want.get(k, 0) for k in names})
            x.true(f"{sec} no other coefficient of the basis", all(k in names or k not in B.all_wcs for k in got))
            # the end points and several scales at once
            q = np.empty(3, dtype=object)
            q[:] = [mi, m, mo]
            many = sol.fun(q if x.mode == "sym" else q.astype(float))
            x.true(f"{sec} one set per scale", np.shape(many) == (3,))
            for s, g in zip((mi, m, mo), many):
                r = w.run(s, **kw).dict
                x.eq(f"{sec} at every scale", {k: g[k] for k in names}, {k: r.get(k, 0) for k in names})
        x.eq("input untouched", dict(w.C_in), d)
        x.eq("input scale untouched", w.scale_in, mi)


for _f, _e in EFTS.items():
    obligation("P42", f"{_e} solution equals running at an arbitrary scale", [CL + "WETrunner.run_continuous", CL + "WETrunner._run_dict", CL + "WETrunner.run"],
               fork=True, samples=2, fallback=4)(lambda x, f=_f, e=_e: _solution(x, f, e))
