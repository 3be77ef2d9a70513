"""History independence of every step on actual numbers: a call gives what the
same call gives in a fresh process, whatever was computed before it with other
parameters, coefficients or scales, and the built-in parameters stay what they
are.  The fresh process is a fork made before any call."""
import os, pickle
import numpy as np
from ..harness import obligation, Missing
from .. import bases
from wilson import wcxf, parameters as parmod, Wilson
from wilson.run.smeft import smpar, SMEFT
from wilson.run.wet import WETrunner
from wilson.translate import wet as twet

DEFAULTS, SM_DEFAULTS = dict(parmod.p), dict(smpar.p)


def fresh(fn):
    """the result of fn in a process of its own"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            try:
                out = ("ok", fn())
            except Exception as e:
                out = ("raise", f"{type(e).__name__}: {e}")
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f)
        except BaseException:
            code = 1
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise RuntimeError("the process made for the reference ended early")
    return pickle.loads(data)


def plain(d):
    if isinstance(d, wcxf.WC):
        return (d.eft, d.basis, d.scale, plain(d.dict))
    if isinstance(d, dict):
        return {k: plain(v) for k, v in d.items()}
    if isinstance(d, (list, tuple)):
        return [plain(v) for v in d]
    if isinstance(d, np.ndarray):
        return d.tolist()
    return d


def same(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return all(same(a.get(k, 0), b.get(k, 0)) for k in {*a, *b})
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(p, q) for p, q in zip(a, b))
    if isinstance(a, (int, float, complex)) and isinstance(b, (int, float, complex)):
        return a == b or a != a and b != b or abs(a - b) <= 1e-12 * max(abs(a), abs(b))
    return a == b


def compare(x, calls):
    """calls: (label, function of nothing); each in a fresh process, then all in this one, twice and in another order"""
    want = {l: fresh(lambda: plain(f())) for l, f in calls}
    order = list(calls) + [calls[i] for i in range(0, len(calls), 2)] + list(reversed(calls))
    prev = "nothing"
    for l, f in order:
        try:
            got = ("ok", plain(f()))
        except Exception as e:
            got = ("raise", f"{type(e).__name__}: {e}")
        w = want[l]
        good = got[0] == w[0] and (got[0] == "raise" or same(got[1], w[1]))
        x.true(f"{l}", good, f"after {prev}: " + difference(got[1], w[1]) if not good else "")
        prev = l
    x.true("built-in parameters unchanged", dict(parmod.p) == DEFAULTS and dict(smpar.p) == SM_DEFAULTS,
           {k: v for k, v in parmod.p.items() if DEFAULTS.get(k) != v})


def difference(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple) and a and isinstance(a[-1], dict):
        a, b = a[-1], b[-1]
    if isinstance(a, dict) and isinstance(b, dict):
        bad = [k for k in {*a, *b} if not same(a.get(k, 0), b.get(k, 0))]
        return f"{len(bad)} values differ: " + ", ".join(f"{k}: {a.get(k)} not {b.get(k)}"[:90] for k in sorted(bad)[:3])
    return f"{str(a)[:150]} not {str(b)[:150]}"


def parameter_sets(rng, extra=()):
    """none, everything changed, one at a time"""
    out = [None]
    for k in DEFAULTS:
        out.append({k: DEFAULTS[k] * (1 + .02 * rng.random())})
    out.append({k: v * (1 + .02 * rng.random()) for k, v in DEFAULTS.items()})
    return out[:1] + out[-1:] + out[1:-1] + [{}] + list(extra)


def show(p):
    return "default parameters" if not p else f"own {next(iter(p))}" if len(p) == 1 else "own parameters"


def coefficients(rng, eft, basis, size=1e-9):
    real = {k: (v or {}).get("real") for s in wcxf.Basis[eft, basis].sectors.values() for k, v in s.items()}
    return {k: size * complex(rng.gauss(0, 1), 0 if real[k] else rng.gauss(0, 1)) for k in real}


BOUND = "every built-in parameter changed on its own and all together; each call repeated after others, against the same call in a fresh process"


@obligation("P35", "parameters at a scale do not depend on earlier calls", ["wilson.translate.wet:get_parameters"], samples=1, fallback=1, bounded=BOUND, cost=5)
def _(x):
    x.clauses += 1
    if x.mode != "num":
        return
    f = twet.get_parameters
    calls = []
    for n, mu in ((5, 4.8), (5, 80.), (4, 2.0), (3, 1.1)):
        for i, p in enumerate(parameter_sets(x.rng)):
            calls.append((f"{n} flavours at {mu}, {show(p)} ({i})", lambda p=p, n=n, mu=mu: f(mu, n, None if p is None else dict(p))))
            ref = fresh(calls[-1][1])
            if ref[0] == "ok":
                q = {**DEFAULTS, **(p or {})}
                x.true(f"{calls[-1][0]}: constants", all(ref[1].get(k) == q[k] for k in ("m_W", "m_Z", "GF", "alpha_e", "Vus", "Vub", "Vcb", "gamma", "m_e", "m_mu", "m_tau")))
    compare(x, calls)


def _translations(prop, eft):
    ts = sorted({(a, b) for e, a, b in wcxf.Translator.instances if e == eft and (e, a) in wcxf.Basis.instances})

    def _f(x):
        x.clauses += 1
        if x.mode != "num":
            return
        size = 1e-9 if eft == "SMEFT" else 1
        for a, b in ts:
            C = [coefficients(x.rng, eft, a, size), coefficients(x.rng, eft, a, size)]
            C.append({k: v for k, v in list(C[0].items())[::7]})
            mus = {"SMEFT": (1000., 250.), "WET": (4.8, 80.), "WET-4": (2.0, 4.1), "WET-3": (1.1, 1.2)}[eft]
            f = wcxf.Translator[eft, a, b].function
            ps = parameter_sets(x.rng)
            if (eft, a, b)[1] != "JMS" and eft != "SMEFT":
                ps = ps[:2] + ps[2::3] + [{}]
            calls = [(f"{a} to {b}, {show(p)} ({i})", lambda p=p: f(dict(C[0]), mus[0], None if p is None else dict(p))) for i, p in enumerate(ps)]
            calls += [(f"{a} to {b}, coefficients {j} at {mu}", lambda c=c, mu=mu: f(dict(c), mu, None)) for j, c in enumerate(C) for mu in mus]
            compare(x, calls)
    fs = [f"wilson.translate.smeft:{n}" for n in ("warsaw_to_warsawmass", "warsaw_to_warsaw_up", "warsaw_up_to_warsaw")] if eft == "SMEFT" else ["wilson.translate.wet:get_parameters"]
    obligation(prop, f"{eft} translations do not depend on earlier calls", fs, samples=1, fallback=1, bounded=BOUND, cost=30)(_f)


_translations("P31", "SMEFT")
for _e in ("WET", "WET-4", "WET-3"):
    _translations("P35", _e)


@obligation("P40", "own parameters of one call never reach another", ["wilson.parameters:p"], samples=1, fallback=1, cost=20,
            bounded="every translation, matching and running step and match_run, alternating between default and own parameters")
def _(x):
    x.clauses += 1
    if x.mode != "num":
        return
    own = {k: v * (1 + .05 * x.rng.random()) for k, v in DEFAULTS.items()}
    par = (None, own, {}, {"m_b": 4.5, "Vub": 0.004, "gamma": 1.1, "GF": 1.2e-5})
    cp = lambda p: None if p is None else dict(p)
    calls = []
    for e, a, b in sorted(t for t in wcxf.Translator.instances if t[:2] in wcxf.Basis.instances):
        c = coefficients(x.rng, e, a, 1e-9 if e == "SMEFT" else 1)
        for i, p in enumerate(par):
            calls.append((f"{e} {a} to {b} ({i})", lambda c=c, p=p, e=e, a=a, b=b: wcxf.Translator[e, a, b].function(dict(c), 4. if e != "WET-3" else 1.2, cp(p))))
    for e, a, g, b in sorted(t for t in wcxf.Matcher.instances if t[:2] in wcxf.Basis.instances):
        c = coefficients(x.rng, e, a, 1e-9 if e == "SMEFT" else 1)
        for i, p in enumerate(par):
            calls.append((f"{e} {a} to {g} {b} ({i})", lambda c=c, p=p, e=e, a=a, g=g, b=b: wcxf.Matcher[e, a, g, b].function(dict(c), {"SMEFT": 91.1876, "WET": 4.2}.get(e, 1.3), cp(p))))
    for e, mi, mo in (("WET", 80., 4.2), ("WET-4", 4.2, 1.4), ("WET-3", 1.3, 1.)):
        c = coefficients(x.rng, e, "JMS", 1e-3)
        for i, p in enumerate(par):
            calls.append((f"{e} running ({i})", lambda c=c, p=p, e=e, mi=mi, mo=mo: WETrunner(wcxf.WC(e, "JMS", mi, wcxf.WC.dict2values(c)), parameters=cp(p)).run(mo)))
    compare(x, calls)


@obligation("P36", "instances do not influence each other", ["wilson.classes:Wilson.match_run"], samples=1, fallback=1, cost=40,
            bounded="a few instances, options and targets with the real steps; every call repeated after others, against a fresh process")
def _(x):
    x.clauses += 1
    if x.mode != "num":
        return
    calls = []
    few = lambda e, b, s: dict(list(coefficients(x.rng, e, b, s).items())[x.rng.randrange(5)::25])
    src = [("SMEFT", "Warsaw", 1000., 1e-9), ("SMEFT", "Warsaw up", 1000., 1e-9), ("WET", "flavio", 80., 1e-2), ("WET", "JMS", 80., 1e-4), ("WET-4", "Bern", 3., 1e-2)]
    opts = [{}, {"parameters": {"m_b": 4.4, "Vub": 0.0041, "gamma": 1.1}}, {"qcd_order": 0}, {"qed_order": 0}, {"mb_matchingscale": 4.5, "smeft_matchingscale": 100.},
            {"parameters": {"alpha_s": 0.12, "alpha_e": 1 / 128., "m_tau": 1.7}}]
    for e, b, mu, s in src:
        for j in range(2):
            c = few(e, b, s)
            for o in opts:
                for q, te, tb, secs in ((4.8, "WET", "flavio", ("sb", "sd")), (2.0, "WET-4", "JMS", ("sd",))):
                    if e == "WET-4" and te == "WET":
                        continue

                    def f(c=c, e=e, b=b, mu=mu, o=o, q=q, te=te, tb=tb, secs=secs):
                        w = Wilson(dict(c), mu, e, b)
                        w.set_option("smeft_accuracy", "leadinglog")
                        for k, v in o.items():
                            w.set_option(k, v)
                        return w.match_run(q, te, tb, sectors=secs)
                    if e == "SMEFT" and (o not in opts[:2] or te != "WET"):
                        continue
                    calls.append((f"{e} {b} {j} with {o} to {te} {tb} at {q}", f))
    x.rng.shuffle(calls)
    compare(x, calls)


def history(prop, name, functions, cost=10, bound=None):
    """an obligation made of the calls that `make` lists"""
    def dec(make):
        def _f(x):
            x.clauses += 1
            if x.mode == "num":
                compare(x, make(x))
        obligation(prop, name, functions, samples=1, fallback=1, cost=cost,
                   bounded=bound or "sampled calls, each repeated after others, against the same call in a fresh process")(_f)
        return make
    return dec


MASSES = ("m_u", "m_d", "m_s", "m_c", "m_b", "m_e", "m_mu", "m_tau")


@history("P25", "evolution matrices do not depend on earlier calls", ["wilson.run.wet.rge:getUs", "wilson.run.wet.rge:getUe", "wilson.run.wet.rge:admeig"])
def _(x):
    from wilson.run.wet import rge, definitions as df
    for n in ("getUs", "getUe"):
        if not callable(getattr(rge, n, None)):
            raise Missing(f"rge.{n}")
    p0 = {k: DEFAULTS[k] for k in MASSES}
    calls = []
    for c in sorted(set(df.sectors.values()) - {"inv"}):
        for f in (x.rng.choice((5, 4, 3)),):
            more = [(f" {k}", .7, {k: p0[k] * 1.3}) for k in MASSES] + [(" eta", .7 + 1e-9, {}), (" eta 1", 1, {}), (" alpha", .7, {"alpha_e": .009}), (" alphas", .7, {"alpha_s": .3})]
            for tag, eta, q in [("", .7, {})] + x.rng.sample(more, 3 if c == "dF0" else 5):
                p = {"alpha_s": .2, "alpha_e": .0078, **p0, **q}
                calls.append((f"{c} with {f} flavours{tag}", lambda c=c, f=f, eta=eta, p=p: [rge.getUs(c, eta, f, **p), rge.getUe(c, eta, f, **p)]))
    x.rng.shuffle(calls)
    return calls


@history("P24", "running does not depend on earlier calls", ["wilson.run.wet.classes:WETrunner.run"], cost=20)
def _(x):
    calls = []
    for e, mi, mos in (("WET", 80., (4.2, 4.2000001, 20., 80., 160.)), ("WET-4", 4.2, (1.4, 3., 4.2)), ("WET-3", 1.3, (1., 1.2))):
        Cs = [coefficients(x.rng, e, "JMS", 1e-3), coefficients(x.rng, e, "JMS", 1e-3)]
        Cs += [dict(list(Cs[0].items())[::9])]
        for j, c in enumerate(Cs):
            for mo in mos:
                for k, kw in enumerate(({}, {"qcd_order": 0}, {"qed_order": 0}, {"parameters": {"alpha_s": .12}}, {"parameters": {"m_b": 4.3, "m_tau": 1.7}})):
                    if k and j:
                        continue
                    calls.append((f"{e} {mi} to {mo}, coefficients {j}, {kw}", lambda c=c, e=e, mi=mi, mo=mo, kw=kw: WETrunner(wcxf.WC(e, "JMS", mi, wcxf.WC.dict2values(c)), **kw).run(mo)))
                    if mo != mi and not k:
                        calls.append((f"{e} {mi} to {mo} sectors, coefficients {j}", lambda c=c, e=e, mi=mi, mo=mo: WETrunner(wcxf.WC(e, "JMS", mi, wcxf.WC.dict2values(c))).run(mo, sectors=("sb", "sd"))))
    x.rng.shuffle(calls)
    return calls[:30]


@history("P41", "running parameters do not depend on earlier calls", ["wilson.util.qcd:alpha_s", "wilson.util.qcd:m_b", "wilson.util.qcd:m_c", "wilson.util.qcd:m_s"], cost=5)
def _(x):
    from wilson.util import qcd
    calls = []
    for f in (5, 4, 3):
        for mu in (1.5, 2, 3., 4.18, 80., 91.1876):
            for a in (.1185, .12):
                for loop in (1, 2, 3, 4):
                    for n, m in (("alpha_s", ()), ("m_b", (4.18,)), ("m_b", (4.3,)), ("m_c", (1.28,)), ("m_c", (1.3,)), ("m_s", (.095,)), ("m_s", (.1,))):
                        calls.append((f"{n}{m} at {mu}, {f} flavours, {a}, {loop} loops", lambda f=f, mu=mu, a=a, loop=loop, n=n, m=m: getattr(qcd, n)(*m, mu, f, a, loop)))
    x.rng.shuffle(calls)
    return calls[:300]


def _start(x, n, size=1e-9):
    return [coefficients(x.rng, "SMEFT", "Warsaw", size) for _ in range(n)]


@history("P21", "SMEFT running does not depend on earlier calls", ["wilson.run.smeft.classes:SMEFT.run", "wilson.run.smeft.rge:smeft_evolve", "wilson.run.smeft.rge:smeft_evolve_leadinglog"], cost=60)
def _(x):
    A, B = _start(x, 2)
    few = dict(list(A.items())[::101])
    calls = []
    for j, c in enumerate((A, B, few, {})):
        for mi, mo in ((1000., 91.1876), (1000., 1000.), (1200., 500.)):
            calls.append((f"leading logarithm, coefficients {j}, {mi} to {mo}", lambda c=c, mi=mi, mo=mo: SMEFT(wcxf.WC("SMEFT", "Warsaw", mi, wcxf.WC.dict2values(c))).run(mo, accuracy="leadinglog")))
    for j, c in enumerate((few, {})):
        calls.append((f"integrated, coefficients {j}", lambda c=c: SMEFT(wcxf.WC("SMEFT", "Warsaw", 1000., wcxf.WC.dict2values(c))).run(600.)))

    def again(c, d, order):
        s = SMEFT(wcxf.WC("SMEFT", "Warsaw", 1000., wcxf.WC.dict2values(c)))
        out = {}
        for q in order:
            out[q] = plain(s.run(q, accuracy="leadinglog"))
        return [out[q] for q in sorted(out)]
    calls.append(("one instance to several scales", lambda: again(few, B, (300., 500., 91.1876))))
    calls.append(("one instance to several scales", lambda: again(few, B, (500., 91.1876, 300., 500.))))
    return calls


@history("P23", "Standard Model parameters do not depend on earlier calls", ["wilson.run.smeft.smpar:smeftpar", "wilson.run.smeft.smpar:smpar"], cost=5)
def _(x):
    from wilson.util import smeftutil
    calls = []
    for j, c in enumerate([*_start(x, 2), {}]):
        C = smeftutil.wcxf2arrays_symmetrized(c)
        for q in (91.1876, 200.):
            def f(C=C, q=q):
                P = smpar.smeftpar(q, {k: np.array(v) if np.ndim(v) else v for k, v in C.items()}, "Warsaw")
                return [plain(P), plain(smpar.smpar({**C, **P}))]
            calls.append((f"coefficients {j} at {q}", f))
    return calls


@history("P27", "matching does not depend on earlier calls", ["wilson.match.smeft:match_all"], cost=30)
def _(x):
    from wilson.match import smeft as ms
    calls = []
    A, B = _start(x, 2)
    for j, c in enumerate((A, B, dict(list(A.items())[::31]), {})):
        for q in (91.1876, 160.):
            for k, p in enumerate((None, {"loop_order": 1}, {"loop_order": 0, "Vub": .0041}, {"GF": 1.2e-5, "loop_order": 1, "alpha_s": .12}, {"m_W": 80.})):
                if (j > 1 and k > 1) or (q != 91.1876 and k > 1):
                    continue
                calls.append((f"coefficients {j} at {q} with {p}", lambda c=c, q=q, p=p: ms.match_all(dict(c), q, None if p is None else dict(p))))
    return calls


@history("P12", "symmetric arrays do not depend on earlier calls", ["wilson.util.common:EFTutil.wcxf2arrays_symmetrized", "wilson.util.common:EFTutil.arrays2wcxf_nonred"], cost=3)
def _(x):
    from wilson.util import smeftutil
    calls = []
    A, B = _start(x, 2, 1)
    for j, c in enumerate((A, B, dict(list(A.items())[::31]), dict(list(B.items())[3::31]), {})):
        calls.append((f"arrays {j}", lambda c=c: smeftutil.wcxf2arrays_symmetrized(dict(c))))
        calls.append((f"there and back {j}", lambda c=c: smeftutil.arrays2wcxf_nonred(smeftutil.add_missing(smeftutil.wcxf2arrays_symmetrized(dict(c))))))
    return calls


@history("P13", "WET arrays do not depend on earlier calls", ["wilson.util.wet_jms:JMS_to_array", "wilson.util.wet_jms:symmetrize_JMS_dict"], cost=3)
def _(x):
    from wilson.util import wet_jms
    calls = []
    A, B = coefficients(x.rng, "WET", "JMS", 1), coefficients(x.rng, "WET", "JMS", 1)
    for j, c in enumerate((A, B, dict(list(A.items())[::17]), {})):
        for s in (None, ("sb",), ("dF=0", "cu")):
            calls.append((f"arrays {j} {s}", lambda c=c, s=s: wet_jms.JMS_to_array(dict(c), sectors=s)))
        calls.append((f"names {j}", lambda c=c: wet_jms.symmetrize_JMS_dict(dict(c))))
    return calls
