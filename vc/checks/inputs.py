"""Coefficient dictionaries of every shape on actual numbers.  The linear steps
are proved linear for symbols; here the same is asked of the values a user can
hand over: a single coefficient, explicit zeros, equal values, other number
types, other orders, purely real or imaginary or negative values.  Reference:
f(G + S) - f(G) for a generic G with all coefficients."""
from collections import OrderedDict
import numpy as np
from ..harness import obligation, Missing
from .history import coefficients, plain
from wilson import wcxf, Wilson
from wilson.run.wet import WETrunner
from wilson.util import smeftutil, wet_jms


def special(rng, keys, real, size):
    """(label, dictionary); numbers of the type the label says"""
    keys = list(keys)
    r = lambda: size * rng.choice((-1, 1)) * rng.uniform(.5, 2)
    z = lambda k: complex(r(), 0 if k in real else r())
    cplx = [k for k in keys if k not in real]
    pick = sorted(rng.sample(keys, min(len(keys), 12)))
    yield from ((f"only {k}", {k: z(k)}) for k in pick)
    yield from ((f"only real {k}", {k: r()}) for k in pick[:4])
    yield from ((f"{k} and explicit zeros", {**{q: 0 for q in keys}, k: z(k)}) for k in pick[:4])
    yield from ((f"{k} and one zero after it", {k: z(k), q: 0.0}) for k, q in zip(pick[:4], pick[4:8]))
    yield from ((f"one zero before {k}", {q: 0j, k: z(k)}) for k, q in zip(pick[:4], pick[4:8]))
    v = r()
    yield "all the same number", {k: v for k in keys}
    yield "a few the same number", {k: v for k in pick}
    yield "two the same number", {k: v for k in pick[:2]}
    yield "opposite numbers", {k: (-1) ** i * v for i, k in enumerate(keys)}
    yield "every second the same number", {k: v if i % 2 else z(k) for i, k in enumerate(keys)}
    yield "numpy floats", {k: np.float64(r()) for k in pick}
    yield "numpy complex numbers", {k: np.complex128(z(k)) for k in keys}
    yield "numpy complex numbers without imaginary part", {k: np.complex128(r()) for k in keys}
    yield "floats", {k: r() for k in keys}
    yield "complex numbers without imaginary part", {k: complex(r(), 0) for k in keys}
    yield "a float first", {k: z(k) if i else r() for i, k in enumerate(keys)}
    yield "a float last", {k: z(k) if i else r() for i, k in reversed(list(enumerate(keys)))}
    if cplx:
        yield "imaginary numbers", {k: 1j * r() for k in cplx}
        yield "imaginary numbers and zeros", {k: 1j * r() if i % 2 else 0 for i, k in enumerate(cplx)}
    yield "negative numbers", {k: -abs(r()) for k in keys}
    yield "positive numbers", {k: abs(r()) for k in keys}
    yield "an ordered dictionary", OrderedDict((k, z(k)) for k in keys)
    sh = list(keys)
    rng.shuffle(sh)
    yield "shuffled names", {k: z(k) for k in sh}
    yield "all but one", {k: z(k) for k in sh[1:]}
    yield "all but two", {k: z(k) for k in sh[2:]}
    yield "half of them", {k: z(k) for k in sh[::2]}
    yield "the other half", {k: z(k) for k in sh[1::2]}
    yield "one name and its neighbours", {k: z(k) for k in keys[len(keys) // 3:len(keys) // 3 + 3]}


def flat(d):
    d = plain(d)
    if isinstance(d, tuple):
        d = d[-1]
    out = {}
    for k, v in d.items():
        a = np.asarray(v, dtype=complex)
        for i in np.ndindex(a.shape):
            out[(k, i)] = complex(a[i]) if a[i] == a[i] else 0
    return out


def battery(x, tag, f, keys, real, size=1.0, ints=True, sizes=(1e-12, 1e5), tol=(1e-8, 1e-12)):
    rng = x.rng
    add = lambda a, b: {k: a.get(k, 0) + b.get(k, 0) for k in {**a, **b}}
    G0 = {k: size * complex(rng.gauss(0, 1), 0 if k in real else rng.gauss(0, 1)) for k in keys}
    base = flat(f(dict(G0)))
    more = []
    if ints:
        ks = rng.sample(list(keys), min(9, len(keys)))
        more = [("integers", {k: i - 4 for i, k in enumerate(ks)}, size), ("the integer one", {ks[0]: 1}, size)]
    big = [(f"size {c}", {k: c * size * complex(rng.gauss(0, 1), 0 if k in real else rng.gauss(0, 1)) for k in keys}, c * size) for c in sizes]
    for lab, S, sz in [(l, s, size) for l, s in special(rng, keys, real, size)] + more + big:
        keep = dict(S)
        try:
            got = flat(f(S))
        except Exception as e:
            x.true(f"{tag}: {lab} returns", False, f"{type(e).__name__}: {e}"[:200])
            continue
        G, a = (G0, base) if sz == size else ((lambda g: (g, flat(f(dict(g)))))({k: v * (sz / size) for k, v in G0.items()}))
        b = flat(f(add(G, {k: complex(v) for k, v in keep.items()})))
        top = max([abs(v) for v in (*a.values(), *b.values())] + [0])
        bad = [k for k in {*got, *a, *b}
               if not abs(got.get(k, 0) - (b.get(k, 0) - a.get(k, 0))) <= tol[0] * (abs(a.get(k, 0)) + abs(b.get(k, 0))) + tol[1] * top]
        x.true(f"{tag}: {lab}", not bad, [(k, got.get(k), b.get(k, 0) - a.get(k, 0)) for k in bad[:2]])
        x.true(f"{tag}: {lab} unchanged", dict(S) == keep and list(S) == list(keep))


def reals(eft, basis):
    return {k for s in wcxf.Basis[eft, basis].sectors.values() for k, v in s.items() if (v or {}).get("real")}


def names(eft, basis):
    return list(wcxf.Basis[eft, basis].all_wcs)


BOUND = "about 45 dictionaries per step: single coefficients, zeros, equal values, number types, orders, signs, phases, sizes"


def shapes(prop, name, functions, cost=5):
    def dec(run):
        def _f(x):
            x.clauses += 1
            if x.mode == "num":
                run(x)
        obligation(prop, name, functions, samples=1, fallback=1, bounded=BOUND, cost=cost)(_f)
        return run
    return dec


@shapes("P27", "matching of dictionaries of every shape", ["wilson.match.smeft:match_all"], cost=20)
def _(x):
    from wilson.match import smeft as ms
    ks = names("SMEFT", "Warsaw")
    battery(x, "tree level", lambda d: ms.match_all(d, 91.1876), ks, reals("SMEFT", "Warsaw"), 1e-12, ints=False, sizes=(.01, 10.), tol=(1e-4, 1e-6))
    battery(x, "one loop", lambda d: ms.match_all(d, 120., {"loop_order": 1}), ks, reals("SMEFT", "Warsaw"), 1e-12, ints=False, sizes=(10.,), tol=(1e-4, 1e-6))


@shapes("P30", "threshold matching of dictionaries of every shape", ["wilson.match:wet_wet4_flavio"], cost=5)
def _(x):
    for e, a, g, b in sorted(t for t in wcxf.Matcher.instances if t[0] != "SMEFT" and t[:2] in wcxf.Basis.instances):
        f = wcxf.Matcher[e, a, g, b].function
        battery(x, f"{e} {a} to {g} {b}", lambda d: f(d, 4.2 if e == "WET" else 1.3, None), names(e, a), reals(e, a))


def _trans(prop, eft, cost):
    @shapes(prop, f"{eft} translation of dictionaries of every shape", ["wilson.wcxf.classes:WC.translate"], cost=cost)
    def _(x):
        for e, a, b in sorted(t for t in wcxf.Translator.instances if t[0] == eft and t[:2] in wcxf.Basis.instances):
            f = wcxf.Translator[e, a, b].function
            ks = names(e, a)
            if b == "Warsaw mass":
                # the Weinberg operator is diagonalised: not linear
                g = lambda d: {k: v for k, v in f(d, 1000., None).items() if not k.startswith("llphiphi")}
            else:
                g = lambda d: f(d, {"SMEFT": 1000., "WET": 4.8, "WET-4": 2.0, "WET-3": 1.1}[e], None)
            battery(x, f"{a} to {b}", g, ks, reals(e, a), 1e-8 if e == "SMEFT" else 1., ints=e != "SMEFT")


_trans("P31", "SMEFT", 40)
for _e in ("WET", "WET-4", "WET-3"):
    _trans("P35", _e, 30)


@shapes("P24", "running of dictionaries of every shape", ["wilson.run.wet.classes:WETrunner.run", "wilson.run.wet.rge:run_sector"], cost=30)
def _(x):
    from wilson.run.wet import rge
    for e, mi, mo in (("WET", 80., 4.2), ("WET-4", 4.2, 1.4), ("WET-3", 1.3, 1.)):
        battery(x, f"{e} running", lambda d: WETrunner(wcxf.WC(e, "JMS", mi, wcxf.WC.dict2values(d))).run(mo), names(e, "JMS"), reals(e, "JMS"), ints=True)
    if not hasattr(rge, "run_sector"):
        return
    w = WETrunner(wcxf.WC("WET", "JMS", 80., {}))
    if not hasattr(w, "_get_running_parameters"):
        return
    p, q = w._get_running_parameters(80., 5), w._get_running_parameters(4.2, 5)
    B = wcxf.Basis["WET", "JMS"].sectors
    for s in sorted(B):
        if len(B[s]) > 1:
            battery(x, f"sector {s}", lambda d: rge.run_sector(s, d, .6, 5, p, q), list(B[s]), reals("WET", "JMS"))


@shapes("P12", "arrays from dictionaries of every shape", ["wilson.util.common:EFTutil.wcxf2arrays_symmetrized", "wilson.util.common:EFTutil.arrays2wcxf_nonred"], cost=10)
def _(x):
    ks, re = names("SMEFT", "Warsaw"), reals("SMEFT", "Warsaw")
    battery(x, "arrays", lambda d: smeftutil.wcxf2arrays_symmetrized(d), ks, re)
    battery(x, "there and back", lambda d: smeftutil.arrays2wcxf_nonred(smeftutil.add_missing(smeftutil.wcxf2arrays_symmetrized(d))), ks, re)


@shapes("P13", "WET arrays from dictionaries of every shape", ["wilson.util.wet_jms:JMS_to_array", "wilson.util.wet_jms:symmetrize_JMS_dict"], cost=10)
def _(x):
    ks, re = names("WET", "JMS"), reals("WET", "JMS")
    battery(x, "arrays", lambda d: wet_jms.JMS_to_array(d), ks, re)
    battery(x, "names", lambda d: wet_jms.symmetrize_JMS_dict(d), ks, re)


@shapes("P37", "match_run of dictionaries of every shape", ["wilson.classes:Wilson.match_run"], cost=30)
def _(x):
    def f(d, e, b, mi, q, te, tb):
        return Wilson(dict(d), mi, e, b).match_run(q, te, tb)
    for e, b, mi, q, te, tb in (("WET", "flavio", 80., 4.8, "WET", "flavio"), ("WET", "JMS", 80., 2., "WET-4", "Bern"), ("WET-4", "flavio", 4., 1.1, "WET-3", "JMS")):
        battery(x, f"{e} {b} to {te} {tb}", lambda d: f(d, e, b, mi, q, te, tb), names(e, b), reals(e, b), 1e-3)
