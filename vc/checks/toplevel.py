"""P36-P42: the top-level interface, wilson/classes.py.

The callees of Wilson.match_run are replaced by their contracts: a translation
or matching function, SMEFT.run and WETrunner.run are free functions of their
arguments.  A set of coefficients is therefore determined by the chain of steps
that made it; the chain is carried by the coefficient VALUES (one number per
distinct chain), the sectors it has been limited to by the coefficient NAMES,
so that WC objects may be rebuilt, filtered or copied by the code under check."""
import contextlib, copy, itertools
import numpy as np
from ..harness import obligation, Missing
from ..sym.num import Num
from .translations import function
import wilson.classes
from wilson import wcxf, parameters as parmod
from wilson.classes import Wilson, ConfigurableClass, RGsolution
from wilson.run.smeft import SMEFT
from wilson.run.wet import WETrunner

T = "wilson.classes:"
ORDER = ("SMEFT", "WET", "WET-4", "WET-3")
SEC = ("sd", "sdemu")
BASES = {"SMEFT": ("Warsaw", "Warsaw up"), "WET": ("JMS", "flavio"), "WET-4": ("JMS", "flavio"), "WET-3": ("JMS", "flavio")}


def _names():
    out = {}
    for (eft, basis), b in wcxf.Basis.instances.items():
        if eft == "SMEFT":
            ks = [k for s in b.sectors.values() for k in s]
            out[eft, basis] = dict(zip(SEC, ks))
        elif all(s in b.sectors for s in SEC):
            out[eft, basis] = {s: next(iter(b.sectors[s])) for s in SEC}
    return out


NAMES = _names()


@contextlib.contextmanager
def cls_attrs(cls, **new):
    saved = {n: cls.__dict__[n] for n in new if n in cls.__dict__}
    for n, v in new.items():
        if not hasattr(cls, n):
            raise Missing(f"{cls.__name__}.{n}")
        setattr(cls, n, v)
    try:
        yield
    finally:
        for n in new:
            if n in saved:
                setattr(cls, n, saved[n])
            else:
                delattr(cls, n)


OPTS = {"smeft_accuracy": "leadinglog", "qed_order": 0, "qcd_order": 1, "smeft_matching_order": 1,
        "parameters": {"m_b": 4.321, "Vus": 0.2201, "extra": 7.0}}


class World:
    """free interpretation of the callees; `full`: the options given to a step are part of it"""

    def __init__(self, full=True, lazy=True, opts=None):
        self.full, self.lazy = full, lazy
        self.tab = []
        self.scale = {}
        self.opts = dict(OPTS, **(opts or {}))
        self.n_opt = 0

    def intern(self, op, parent, args=(), scale=None, at=None):
        for o, p, a, s, i in self.tab:
            if o == op and p == parent and a == args and (s is None) == (scale is None) and (s is None or bool(s == scale)):
                return i
        i = float(len(self.tab) + 1)
        self.tab.append((op, parent, args, scale, i))
        self.scale[i] = at
        return i

    def show(self, i):
        for o, p, a, s, j in self.tab:
            if j == i:
                return (self.show(p) + " -> " if p is not None else "") + " ".join(
                    [o, *[str(q) for q in a if not isinstance(q, tuple)]] + ([f"@{s}"] if s is not None else []))
        return f"mixed({i})"

    # ---- steps
    def par(self, p, loop=False):
        if not self.full:
            return ()
        d = dict(parmod.p)
        if p is not None:
            d = dict(p)
        l = d.pop("loop_order", 0)
        return (tuple(sorted(d.items())), l if loop else None)

    def tr(self, i, eft, a, b, p):
        return i if a == b else self.intern("translate", i, (eft, a, b, self.par(p)), at=self.scale[i])

    def match(self, i, a, b, to, tob, p):
        if a == "SMEFT":
            i = self.tr(i, a, b, "Warsaw", {k: v for k, v in p.items() if k != "loop_order"} if p is not None else None)
            b = "Warsaw"
        return self.intern("match", i, (a, b, to, tob, self.par(p, a == "SMEFT")), at=self.scale[i])

    def run(self, i, eft, scale, opt):
        if bool(scale == self.scale[i]):
            return i
        return self.intern("run", i, (eft, opt if self.full else ()), scale=scale, at=scale)

    # ---- the contracts
    @staticmethod
    def read(C, eft, basis):
        ids = set(C.values())
        inv = {v: k for k, v in NAMES[eft, basis].items()}
        return (ids.pop().real if len(ids) == 1 else -1.0), [inv[k] for k in C]

    def write(self, i, secs, eft, basis):
        self.scale.setdefault(i, None)
        return {NAMES[eft, basis][s]: i for s in secs}

    def f_translator(self, eft, a, b):
        def f(C, scale, parameters=None, sectors=None):
            i, secs = self.read(C, eft, a)
            if sectors is not None and not self.lazy and eft != "SMEFT":
                secs = [s for s in secs if s in sectors]
            return self.write(self.tr(i, eft, a, b, parameters), secs, eft, b)
        return f

    def f_matcher(self, a, b, to, tob):
        def f(C, scale, parameters=None):
            i, secs = self.read(C, a, b)
            return self.write(self.match(i, a, b, to, tob, parameters), secs, to, tob)
        return f

    @contextlib.contextmanager
    def install(self, options=True):
        W = self

        def s_init(self_, wc, get_smpar=True):
            if wc.eft != "SMEFT" or wc.basis != "Warsaw":
                raise ValueError("precondition of SMEFT")
            self_.wc = wc

        def s_run(self_, scale, accuracy="integrate", **kw):
            i, secs = W.read(self_.wc.dict, "SMEFT", "Warsaw")
            return wcxf.WC("SMEFT", "Warsaw", scale, W.write(W.run(i, "SMEFT", scale, (accuracy,) + tuple(sorted(kw.items()))), secs, "SMEFT", "Warsaw"))

        def w_init(self_, wc, parameters=None, qed_order=1, qcd_order=1):
            assert wc.basis == "JMS"
            self_.eft, self_.scale_in, self_._wc = wc.eft, wc.scale, wc
            p = dict(parmod.p)
            p.update(parameters or {})
            self_._opt = (W.par(p), qed_order, qcd_order)

        def w_run(self_, scale_out, sectors="all"):
            i, secs = W.read(self_._wc.dict, self_.eft, "JMS")
            secs = [s for s in secs if sectors == "all" or s in sectors]
            return wcxf.WC(self_.eft, "JMS", scale_out, W.write(W.run(i, self_.eft, scale_out, self_._opt), secs, self_.eft, "JMS"))

        saved = []
        for k, t in list(wcxf.Translator.instances.items()) + list(wcxf.Matcher.instances.items()):
            k = k if isinstance(k, tuple) else t.name
            if not hasattr(t, "function"):
                raise Missing("function of a translator")
            saved.append((t, t.function))
            efts = ((k[0], k[1]), (k[0], k[2])) if len(k) == 3 else ((k[0], k[1]), (k[2], k[3]))
            if all(e in NAMES for e in efts):
                t.function = (self.f_translator if len(k) == 3 else self.f_matcher)(*k)

        def get_option(self_, key):
            W.n_opt += 1
            return copy.copy(W.opts[key])
        with contextlib.ExitStack() as st:
            st.enter_context(cls_attrs(SMEFT, __init__=s_init, run=s_run))
            st.enter_context(cls_attrs(WETrunner, __init__=w_init, run=w_run))
            st.enter_context(cls_attrs(Num, __hash__=lambda s: 1))
            if options:
                st.enter_context(cls_attrs(Wilson, get_option=get_option))
            try:
                yield
            finally:
                for t, f in saved:
                    t.function = f

    def wilson(self, eft, basis, scale):
        i = self.intern("input", None, (eft, basis), at=scale)
        return Wilson({n: i for n in NAMES[eft, basis].values()}, scale, eft, basis), (i, eft, basis, scale)

    # ---- what match_run must return
    def spec(self, start, scale, eft, basis):
        """chain of steps, or None where there is no way"""
        i, e, b, s = start
        o = self.opts
        P = dict(parmod.p, **o["parameters"])
        M = dict(P, loop_order=o["smeft_matching_order"])
        wet = (self.par(P), o["qed_order"], o["qcd_order"])

        def tr(i, e, a, b):
            if a != b and (e, a, b) not in wcxf.Translator.instances:
                raise LookupError
            return self.tr(i, e, a, b, P)
        if e not in ORDER or eft not in ORDER or ORDER.index(eft) < ORDER.index(e):
            return None
        try:
            if e == eft and bool(scale == s):
                return tr(i, e, b, basis)
            if e == "SMEFT":
                i, b = tr(i, e, b, "Warsaw"), "Warsaw"
                if eft == "SMEFT":
                    return tr(self.run(i, e, scale, (o["smeft_accuracy"],)), e, b, basis)
                i = self.run(i, e, o["smeft_matchingscale"], (o["smeft_accuracy"],))
                i, e, b = self.match(i, e, b, "WET", "JMS", M), "WET", "JMS"
            i, b = tr(i, e, b, "JMS"), "JMS"
            for thr, lower in (("mb_matchingscale", "WET-4"), ("mc_matchingscale", "WET-3")):
                if ORDER.index(e) < ORDER.index(lower) <= ORDER.index(eft):
                    i = self.match(self.run(i, e, o[thr], wet), e, "JMS", lower, "JMS", M)
                    e = lower
            return tr(self.run(i, e, scale, wet), e, b, basis)
        except LookupError:
            return None


def scales(x, W):
    for n in ("smeft_matchingscale", "mb_matchingscale", "mc_matchingscale"):
        W.opts[n] = x.real(n, pos=True)
    return x.real("scale_in", pos=True), x.real("scale_out", pos=True)


def chain(wc):
    return World.read(wc.dict, wc.eft, wc.basis)


def check(x, W, lab, r, want, scale, eft, basis, secs=SEC, names=True):
    if r is None or want is None:
        return x.true(lab, (r is None) == (want is None), f"returned {r}, chain {want and W.show(want)}")
    x.true(lab + ".meta", r.eft == eft and r.basis == basis and bool(r.scale == scale), (r.eft, r.basis, r.scale))
    if (r.eft, r.basis) != (eft, basis):
        return
    i, s = chain(r)
    x.true(lab + ".steps", i == want, f"got {W.show(i)} want {W.show(want)}")
    if names:
        x.true(lab + ".sectors", sorted(s) == sorted(secs), (s, secs))


def call(w, *a, **k):
    try:
        return w.match_run(*a, **k)
    except ValueError:
        return None


INPUTS = [(e, b) for e in ORDER for b in BASES[e]] + [("SMEFT", "Higgs-Warsaw up"), ("WET", "Bern"), ("WET-3", "Bern")]
TARGETS = [(e, b) for e in ORDER for b in BASES[e]] + [("SMEFT", "Warsaw mass"), ("SMEFT", "Higgs-Warsaw up"), ("WET-4", "Bern")]


COMBOS = [{}, {"smeft_accuracy": "integrate", "qed_order": 1, "qcd_order": 0, "smeft_matching_order": 0, "parameters": {}},
          {"smeft_accuracy": "integrate", "qed_order": 0, "qcd_order": 0, "parameters": {"m_b": 0.0, "loop_order": 5.0}},
          {"smeft_accuracy": "leadinglog", "qed_order": 1, "smeft_matching_order": 0}]


def one_call(x, src, secs, full, names, targets=TARGETS, lazies=(True,)):
    for eft, basis in targets:
        if (eft, basis) not in NAMES:
            continue
        for lazy, combo in [(lz, c) for lz in lazies for c in (COMBOS if full else COMBOS[:1])]:
            W = World(full=full, lazy=lazy, opts=combo)
            s_in, s_out = scales(x, W)
            with W.install():
                w, start = W.wilson(*src, s_in)
                want = W.spec(start, s_out, eft, basis)
                r = call(w, s_out, eft, basis, **({} if secs == "all" else {"sectors": secs}))
                n = W.n_opt
                if want is not None and not n:
                    raise Missing("Wilson.get_option")
                check(x, W, f"{eft} {basis}", r, want, s_out, eft, basis, SEC if secs == "all" or eft == "SMEFT" else secs, names)
                x.true(f"{eft} {basis}.input kept", chain(w.wc) == (start[0], list(SEC)) and w.wc.basis == src[1])


for _src in INPUTS:
    if _src not in NAMES:
        continue
    obligation("P37", f"match_run from {_src[0]} {_src[1]}", [T + "Wilson.match_run"], fork=True, cost=20)(
        lambda x, s=_src: one_call(x, s, "all", False, True))
    obligation("P38", f"options of every step from {_src[0]} {_src[1]}",
               [T + "Wilson.match_run", T + "Wilson.parameters", T + "Wilson.matching_parameters", T + "Wilson._wetrun_opt"], fork=True, cost=20)(
        lambda x, s=_src: one_call(x, s, "all", True, False))
    if _src[0] != "SMEFT" or _src[1] == "Warsaw":
        obligation("P39", f"sectors from {_src[0]} {_src[1]}", [T + "Wilson.match_run"], fork=True, cost=20)(
            lambda x, s=_src: one_call(x, s, ("sd",), False, True, [t for t in TARGETS if t[0] != "SMEFT"], (True, False)))


def end_to_end(x, src, target, sectors, dq):
    """nothing replaced: match_run against the same chain of library operations written out"""
    x.clauses += 1
    if x.mode != "num":
        return
    from wilson.parameters import p as par
    eft, basis, mu = src
    opt = {"smeft_accuracy": "leadinglog", "smeft_matchingscale": 100.0, "mb_matchingscale": 4.5, "mc_matchingscale": 1.4, "parameters": {"m_b": 4.3}}
    par = dict(par, m_b=4.3)
    mpar = dict(par, loop_order=0)
    names = wcxf.Basis[eft, basis].sectors
    vals = {k: 1e-6 for s in (names if eft == "SMEFT" else sectors) for k in list(names[s])[:3]}
    if eft == "SMEFT":
        vals = {k: 1e-8 for k in list(wcxf.Basis[eft, basis].all_wcs)[5::40]}
    w = Wilson(vals, mu, eft, basis)
    for k, v in opt.items():
        w.set_option(k, v)
    if dq:
        w.set_option("qed_order", 0)
    run = lambda wc, q: WETrunner(wc, parameters=par, qed_order=0 if dq else 1).run(q, sectors=sectors)
    te, tb, q = target
    wc = w.wc
    if eft == "SMEFT":
        wc = SMEFT(wc.translate("Warsaw", parameters=par)).run(100.0, accuracy="leadinglog").match("WET", "JMS", parameters=mpar)
    else:
        wc = wc.translate("JMS", parameters=par, sectors=sectors)
    for nxt, at in (("WET-4", 4.5), ("WET-3", 1.4)):
        if ORDER.index(nxt) <= ORDER.index(wc.eft) or ORDER.index(nxt) > ORDER.index(te):
            continue
        wc = run(wc, at).match(nxt, "JMS", parameters=mpar)
    want = run(wc, q).translate(tb, sectors=sectors, parameters=par).dict
    for again in (0, 1):
        try:
            r = w.match_run(q, te, tb, sectors=sectors)
        except Exception as e:
            return x.true("returns", False, repr(e))
        x.true(f"meta {again}", (r.eft, r.basis) == (te, tb) and abs(r.scale - q) < 1e-9, (r.eft, r.basis, r.scale))
        got = r.dict
        big = max([abs(v) for v in want.values()] + [1e-30])
        bad = [k for k in {*got, *want} if not abs(got.get(k, 0) - want.get(k, 0)) <= 1e-7 * big]
        x.true(f"values {again}", want and not bad, [(k, got.get(k), want.get(k)) for k in bad[:3]])


for _s, _t, _sec, _dq in ((("SMEFT", "Warsaw", 1000.0), ("WET", "flavio", 5.0), ("sb",), False), (("SMEFT", "Warsaw up", 500.0), ("WET-3", "flavio", 1.1), ("sd",), True),
                          (("WET", "flavio", 80.0), ("WET-3", "Bern", 1.2), ("sd", "sdsd"), False), (("WET", "Bern", 4.5), ("WET-4", "JMS", 2.0), ("sd",), False),
                          (("WET-4", "flavio", 3.0), ("WET-4", "flavio", 1.5), ("cu", "sd"), False), (("WET-3", "JMS", 1.3), ("WET-3", "flavio", 1.0), ("sd", "sdemu"), True)):
    obligation("P37", f"end to end: {' '.join(map(str, _s))} to {' '.join(map(str, _t))}", [T + "Wilson.match_run"], samples=1, fallback=1, cost=30,
               bounded="one concrete input; the real translators, matching and running")(
        lambda x, a=_s, b=_t, c=_sec, d=_dq: end_to_end(x, a, b, c, d))


@obligation("P39", "every sector of every basis", [T + "Wilson.match_run"], samples=1, fallback=1, cost=30,
            bounded="one set of values for all coefficients of a basis; every single sector and two pairs; the real translators and running")
def _(x):
    x.clauses += 1
    if x.mode != "num":
        return
    for eft, basis, to, tob in (("WET", "JMS", "WET", "JMS"), ("WET", "flavio", "WET", "flavio"), ("WET-4", "Bern", "WET-4", "Bern"), ("WET-3", "JMS", "WET-3", "JMS"),
                                ("WET", "JMS", "WET", "flavio"), ("WET-4", "JMS", "WET-4", "flavio"), ("WET-3", "JMS", "WET-3", "Bern"), ("WET-3", "flavio", "WET-3", "JMS"),
                                ("WET", "flavio", "WET-3", "flavio")):
        b, out = wcxf.Basis[eft, basis], wcxf.Basis[to, tob]
        real = {k for ks in b.sectors.values() for k, v in ks.items() if (v or {}).get("real")}
        vals = {k: (1 + i % 7) * 1e-9 * (1 if k in real else 1 - 0.5j) for i, k in enumerate(b.all_wcs)}
        for same in ((True, False) if eft == to else (False,)):
            q_in, q = (80.0 if eft == "WET" else 3.0), None
            q = q_in if same else {"WET": 5.0, "WET-4": 2.0, "WET-3": 1.1}[to]
            try:
                whole = Wilson(vals, q_in, eft, basis).match_run(q, to, tob).dict
            except ValueError:
                continue
            big = max(abs(v) for v in whole.values())
            names = list(b.sectors)
            for secs in [(s,) for s in names] + [tuple(names[:2]), tuple(names[1::5])]:
                w = Wilson(vals, q_in, eft, basis)
                try:
                    r = w.match_run(q, to, tob, sectors=secs).dict
                except Exception as e:
                    x.true(f"{eft} {basis} {to} {tob} {q} {secs} returns", False, repr(e))
                    continue
                want = {k for s in secs for k in out.sectors.get(s, {}) if k in whole}
                bad = [k for k in {*r, *want} if (k in r) != (k in want) and abs(r.get(k, whole.get(k, 0))) > 1e-12 * big or abs(r.get(k, 0) - (whole.get(k, 0) if k in want else 0)) > 1e-9 * big]
                x.true(f"{eft} {basis} {to} {tob} {q} {secs}", not bad, [(k, r.get(k), whole.get(k)) for k in bad[:3]])


# ------------------------------------------------------------------ P36
class Lazy(dict):
    """an arbitrary dictionary level of the cache: what is in it is decided when it is looked up"""

    def __init__(self, x, make, name):
        super().__init__()
        self.x, self.make, self.name, self.absent = x, make, name, []

    def _look(self, k):
        if isinstance(k, (tuple, list)) and len(k) != 1 and not all(s in SEC for s in k):
            raise Missing("nested cache")
        if dict.__contains__(self, k) or any(a is k or (type(a) == type(k) and bool(a == k)) for a in self.absent):
            return
        v = self.make(k)
        if v is not None and self.x.real(f"{self.name}#{len(self) + len(self.absent)}") > 0:
            dict.__setitem__(self, k, v)
        else:
            self.absent.append(k)

    def __contains__(self, k):
        self._look(k)
        return dict.__contains__(self, k)

    def __getitem__(self, k):
        self._look(k)
        return dict.__getitem__(self, k)

    def __setitem__(self, k, v):
        self._look(k)
        dict.__setitem__(self, k, v)

    def get(self, k, d=None):
        return self[k] if k in self else d

    def setdefault(self, k, d=None):
        if k not in self:
            self[k] = d
        return self[k]


def leaves(c, path=()):
    for k in list(dict.keys(c)):
        v = dict.__getitem__(c, k)
        if isinstance(v, dict):
            yield from leaves(v, path + (k,))
        else:
            yield path + (k,), v


def any_cache(x, W, start):
    """every dictionary of the shape eft/scale/basis/sectors whose entries are what a fresh instance returns"""
    count = itertools.count()

    def fresh():
        return f"level{next(count)}"

    def entry(eft, scale, basis, secs):
        if (eft, basis) not in NAMES or not (secs == "all" or (isinstance(secs, tuple) and all(s in SEC for s in secs))):
            return None
        want = W.spec(start, scale, eft, basis)
        if want is None:
            return None
        return wcxf.WC(eft, basis, scale, W.write(want, SEC if secs == "all" or eft == "SMEFT" else secs, eft, basis))

    def lvl_s(eft, scale, basis):
        return Lazy(x, lambda secs: entry(eft, scale, basis, secs), fresh())

    def lvl_b(eft, scale):
        return Lazy(x, lambda basis: lvl_s(eft, scale, basis) if isinstance(basis, str) else None, fresh())

    def lvl_q(eft):
        return Lazy(x, lambda scale: lvl_b(eft, scale) if not isinstance(scale, str) else None, fresh())
    return Lazy(x, lambda eft: lvl_q(eft) if isinstance(eft, str) else None, fresh())


def cache_step(x, src, secs, eft, basis):
    W = World(full=False)
    s_in, s_out = scales(x, W)
    with W.install():
        w, start = W.wilson(*src, s_in)
        if not isinstance(getattr(w, "_cache", None), dict) or w._cache:
            raise Missing("Wilson._cache")
        w._cache = any_cache(x, W, start)
        r = call(w, s_out, eft, basis, **({} if secs == "all" else {"sectors": secs}))
        check(x, W, f"{eft} {basis}", r, W.spec(start, s_out, eft, basis), s_out, eft, basis, SEC if secs == "all" or eft == "SMEFT" else secs)
        if not isinstance(w._cache, dict):
            raise Missing("Wilson._cache")
        for p, v in leaves(w._cache):
            if len(p) != 4 or not hasattr(v, "dict"):
                raise Missing("nested cache")
            e, q, b, s = p
            check(x, W, f"{eft} {basis}: entry {e} {b} {s}", v, W.spec(start, q, e, b), q, e, b,
                  SEC if s == "all" or e == "SMEFT" else s)


for _src in [("SMEFT", "Warsaw"), ("SMEFT", "Warsaw up"), ("WET", "JMS"), ("WET", "flavio"), ("WET-4", "JMS"), ("WET-3", "flavio")]:
    for _t in [t for t in TARGETS if t in NAMES and ORDER.index(t[0]) >= ORDER.index(_src[0]) and t[1] not in ("Bern", "Higgs-Warsaw up")]:
        for _secs in ("all", ("sd",)):
            obligation("P36", f"one call on any valid cache from {' '.join(_src)} to {' '.join(_t)} {'all' if _secs == 'all' else 'one sector'}",
                       [T + "Wilson." + n for n in ("match_run", "_get_from_cache", "_set_cache")], fork=True, cost=10)(
                lambda x, s=_src, q=_secs, t=_t: cache_step(x, s, q, *t))


def histories(x, src):
    """two calls on one instance, the second one against a fresh instance"""
    W = World(full=True, opts={"smeft_matchingscale": 91.1876, "mb_matchingscale": 4.2, "mc_matchingscale": 1.3})
    s_in = 160.0
    calls = [(q, e, b, s) for e, b in TARGETS if (e, b) in NAMES and ORDER.index(e) >= ORDER.index(src[0]) and b in ("Warsaw", "Warsaw up", "JMS", "flavio")
             for q in (s_in, 91.1876, 4.2, 1.3, 2.0) for s in ("all", ("sd",))]
    with W.install():
        want = {}
        for c in calls:
            w, start = W.wilson(*src, s_in)
            want[c] = chain(w.match_run(c[0], c[1], c[2], sectors=c[3]))
        for a, b in itertools.product(calls, calls):
            w, start = W.wilson(*src, s_in)
            w.match_run(a[0], a[1], a[2], sectors=a[3])
            r = w.match_run(b[0], b[1], b[2], sectors=b[3])
            x.true(f"{b} after {a}", chain(r) == want[b] and (r.scale, r.eft, r.basis) == b[:3], "")
        # scales close to one another, whole numbers, of type int and float
        near = [91.1876, 91, 91.0, 91.9, 91.18760001, 91.2, 4.2, 4, 4.20000001, 4.9, 2, 2.5, 1.3, 1.0, 1, 160, 160.0000001, 160.4]
        for e, b in {(c[1], c[2]) for c in calls if c[2] in ("Warsaw up", "JMS", "flavio")}:
            for s in ("all", ("sd",)):
                for q in near:
                    w, start = W.wilson(*src, s_in)
                    want[q] = chain(w.match_run(q, e, b, sectors=s))
                for q1, q2 in itertools.permutations(near, 2):
                    w, start = W.wilson(*src, s_in)
                    w.match_run(q1, e, b, sectors=s)
                    r = w.match_run(q2, e, b, sectors=s)
                    x.true(f"{e} {b}: {q2} after {q1}", chain(r) == want[q2] and r.scale == q2, r.scale)


for _src in [("SMEFT", "Warsaw up"), ("WET", "flavio"), ("WET-4", "JMS")]:
    obligation("P36", f"pairs of calls from {_src[0]} {_src[1]}", [T + "Wilson.match_run"], numeric=False, cost=30,
               bounded="histories of two calls, five output scales (and eighteen for the same target twice), one input scale")(lambda x, s=_src: histories(x, s))

CHANGE = {"smeft_accuracy": "integrate", "qed_order": 1, "qcd_order": 0, "smeft_matching_order": 0, "smeft_matchingscale": 120.0,
          "mb_matchingscale": 5.0, "mc_matchingscale": 1.5, "parameters": {"m_b": 4.0}}


def options_reset(x, src):
    """set_option between two calls: the second call is that of a fresh instance with the new options"""
    base = {"smeft_matchingscale": 91.1876, "mb_matchingscale": 4.2, "mc_matchingscale": 1.3}
    calls = [(q, e, b, s) for e, b in TARGETS if (e, b) in NAMES and ORDER.index(e) >= ORDER.index(src[0]) and b in ("Warsaw", "Warsaw up", "JMS", "flavio")
             for q in (91.1876, 2.0) for s in ("all", ("sd",))]
    W = World(full=True, opts=base)
    for key, val in CHANGE.items():
        for a in calls:
            with W.install(options=False):
                w, start = W.wilson(*src, 160.0)
                for k, v in dict(OPTS, **base).items():
                    w.set_option(k, v)
                w.match_run(a[0], a[1], a[2], sectors=a[3])
                w.set_option(key, val)
                for b in ([a] if a != calls[0] else calls):
                    r = w.match_run(b[0], b[1], b[2], sectors=b[3])
                    W2 = W
                    W2.opts = dict(OPTS, **base, **{key: val}) if key not in OPTS and key not in base else {**OPTS, **base, key: val}
                    want = W2.spec(start, b[0], b[1], b[2])
                    W.opts = dict(OPTS, **base)
                    x.true(f"{key} then {b}", want is not None and chain(r)[0] == want, f"got {W.show(chain(r)[0])} want {W.show(want)}")


for _src in [("SMEFT", "Warsaw"), ("WET", "JMS"), ("WET-4", "flavio")]:
    obligation("P36", f"options changed between calls from {_src[0]} {_src[1]}",
               [T + "ConfigurableClass.set_option", T + "Wilson.clear_cache", T + "Wilson.match_run"], numeric=False, cost=10,
               bounded="one change of each option, two output scales")(
        lambda x, s=_src: options_reset(x, s))


# ------------------------------------------------------------------ P40
GOOD = {"smeft_accuracy": ["integrate", "leadinglog"], "qed_order": [0, 1], "qcd_order": [0, 1], "smeft_matching_order": [0, 1],
        "smeft_matchingscale": [91, 120.5, "100", 1e4, 1, 80.123456789, np.float64(173.1)], "mb_matchingscale": [4, 4.8, 100.0, 0.5, "1e1"],
        "mc_matchingscale": [1.5, 2, 90.5, 1e-3, 4.2],
        "parameters": [{}, {"m_b": 4}, {"m_b": 4.25}, {"m_b": 4.25, "m_c": 1.5}, {"Vus": 0.22, "m_t": "170"}, {"gamma": 1.1}, {"my_own": 3},
                       {"m_b": 0}, {"Vub": 0.0, "gamma": -1.2}, {"loop_order": 1}, {"m_W": np.float64(80.1)}]}
BAD = {"smeft_accuracy": ["exact", None, 1.5], "qed_order": [2, -1, "1"], "qcd_order": [2, 0.5], "smeft_matching_order": [2, None],
       "smeft_matchingscale": ["high", None], "mb_matchingscale": ["x"], "mc_matchingscale": [[1.0]], "parameters": [{"m_b": "heavy"}, {"m_b": None}],
       "no_such_option": [1]}


def coerced(key, v):
    if key.endswith("matchingscale"):
        return float(v)
    return {k: float(q) for k, q in v.items()} if key == "parameters" else v


class Mark:
    """a value nothing is known about"""


@contextlib.contextmanager
def defaults():
    if not isinstance(Wilson.__dict__.get("_default_options"), dict):
        raise Missing("_default_options")
    saved = Wilson._default_options
    Wilson._default_options = copy.deepcopy(saved)
    try:
        yield Wilson._default_options
    finally:
        Wilson._default_options = saved


def new_wilson():
    return Wilson({NAMES["WET", "JMS"]["sd"]: 1.0}, 80., "WET", "JMS")


def values(w):
    return {k: w.get_option(k) for k in GOOD}


def _any_number(v):
    return v if isinstance(v, Num) else float(v)


def _symbolic_schema(sch):
    """the option schema with the coercion to float replaced by its contract: a number stays the number it is"""
    import voluptuous as vol
    if isinstance(sch, vol.Schema):
        return vol.Schema(_symbolic_schema(sch.schema), required=sch.required, extra=sch.extra)
    if isinstance(sch, dict):
        return {k: _symbolic_schema(v) for k, v in sch.items()}
    if isinstance(sch, vol.Coerce) and sch.type is float:
        return _any_number
    if isinstance(sch, (vol.All, vol.Any)):
        return type(sch)(*[_symbolic_schema(v) for v in sch.validators])
    return sch


NUMBERS = [("smeft_matchingscale", None), ("mb_matchingscale", None), ("mc_matchingscale", None), ("parameters", ("m_b",)), ("parameters", ("gamma", "own")),
           ("parameters", ("m_c", "m_t", "Vus", "alpha_s")), ("parameters", ("loop_order",)), ("parameters", ("delta",)), ("parameters", ("m_W", "delta"))]


def any_option(x, key, names, how):
    """set_option / set_default_option for every number"""
    import warnings
    if not hasattr(Wilson, "_option_schema"):
        raise Missing("_option_schema")
    new = x.real("v") if names is None else {n: x.real("v_" + n) for n in names}
    keep = new if names is None else dict(new)
    want = keep if names is None else {("gamma" if n == "delta" else n): v for n, v in keep.items()}
    old = {k: Mark() for k in GOOD}
    patch = {"_option_schema": _symbolic_schema(Wilson._option_schema)} if x.mode == "sym" else {}
    saved, own = Wilson.__dict__.get("_option_schema"), "_option_schema" in Wilson.__dict__
    with defaults() as d, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for k, v in patch.items():
            setattr(Wilson, k, v)
        try:
            d.update(old)
            bystander, w = new_wilson(), new_wilson()
            with x.lib():
                getattr(w, how)(key, new)
                q = w if how == "set_option" else new_wilson()
                got = {k: q.get_option(k) for k in GOOD}
                x.eq("stored", got[key], want)
                x.true("the other options are kept", all(got[k] is old[k] for k in GOOD if k != key))
                x.true("other instances are kept", all(bystander.get_option(k) is old[k] for k in GOOD))
                if how == "set_option":
                    x.true("defaults are kept", all(d[k] is old[k] for k in old) and set(d) == set(old))
                    x.true("future instances are kept", all(new_wilson().get_option(k) is old[k] for k in GOOD))
                else:
                    x.true("the instance it was called from is kept", all(w.get_option(k) is old[k] for k in GOOD))
                if names is not None:
                    x.eq("argument unchanged", new, keep)
                    p = q.parameters
                    x.true("names of the parameters in effect", set(p) == set(parmod.p) | set(want))
                    for k in p:
                        x.eq(f"{k} in effect", p[k], want.get(k, parmod.p.get(k)))
                    new["m_b"] = -1.0
                    x.eq("not shared with the argument", q.get_option(key), want)
        finally:
            if patch:
                if own:
                    Wilson._option_schema = saved
                else:
                    del Wilson._option_schema


for _k, _n in NUMBERS:
    for _h in ("set_option", "set_default_option"):
        obligation("P40", f"{_h} {_k} {' '.join(_n or ())}: any number", [T + "ConfigurableClass." + _h, T + "ConfigurableClass.get_option", T + "ConfigurableClass.__init__",
                   *([T + "Wilson.parameters"] if _n else [])], fork=True, samples=2, fallback=6,
                   assumptions=["voluptuous: Coerce(float) returns the number it is given"])(
            lambda x, k=_k, n=_n, h=_h: any_option(x, k, n, h))


@obligation("P40", "setting an option in any state", [T + "ConfigurableClass.set_option", T + "ConfigurableClass.get_option"],
            numeric=False, bounded="values: representatives of every option's schema; the other options are opaque")
def _(x):
    for key in GOOD:
        for v in GOOD[key]:
            with defaults() as d:
                for k in d:
                    d[k] = Mark()
                other, w = new_wilson(), new_wilson()
                if not isinstance(getattr(w, "_options", None), dict):
                    raise Missing("_options")
                w._options.update({k: Mark() for k in w._options})
                before, odef, oth = values(w), dict(d), values(other)
                arg = copy.deepcopy(v)
                w.set_option(key, arg)
                after = values(w)
                x.true(f"{key}={v} stored", after[key] == coerced(key, v) and type(after[key]) is type(coerced(key, v)), after[key])
                x.true(f"{key}={v} others kept", all(after[k] is before[k] for k in GOOD if k != key))
                x.true(f"{key}={v} defaults kept", all(d[k] is odef[k] for k in odef) and set(d) == set(odef))
                x.true(f"{key}={v} other instance kept", all(values(other)[k] is oth[k] for k in GOOD))
                x.true(f"{key}={v} argument kept", arg == v, arg)
                if isinstance(arg, dict):
                    arg["m_b"] = -1.0
                    x.true(f"{key}={v} not shared with the argument", w.get_option(key) == coerced(key, v), w.get_option(key))


DEFAULTS = {"smeft_accuracy": "integrate", "qed_order": 1, "qcd_order": 1, "smeft_matching_order": 0, "smeft_matchingscale": 91.1876,
            "mb_matchingscale": 4.2, "mc_matchingscale": 1.3, "parameters": {}}


@obligation("P40", "valid values are accepted and the documented defaults apply",
            [T + "ConfigurableClass.set_option", T + "ConfigurableClass.set_default_option", T + "ConfigurableClass.get_option"],
            bounded="representatives of every option's schema")
def _(x):
    x.clauses += 1
    if x.mode != "num":
        return
    w = new_wilson()
    for k, v in DEFAULTS.items():
        got = w.get_option(k)
        x.true(f"default {k}", abs(got - v) < 1e-6 * v if isinstance(v, float) else got == v, got)
    for key, vals in [*GOOD.items(), *((k, [v]) for k, v in DEFAULTS.items())]:
        for v in vals:
            for how in ("set_option", "set_default_option"):
                with defaults():
                    w = new_wilson()
                    try:
                        getattr(w, how)(key, copy.deepcopy(v))
                        got = (w if how == "set_option" else new_wilson()).get_option(key)
                    except Exception as e:
                        got = e
                    x.true(f"{how} {key}={v}", not isinstance(got, Exception) and got == coerced(key, v), got)


@obligation("P40", "setting a default in any state", [T + "ConfigurableClass.set_default_option", T + "ConfigurableClass.__init__"],
            numeric=False, bounded="values: representatives of every option's schema; the other options are opaque")
def _(x):
    for key in GOOD:
        for v in GOOD[key]:
            with defaults() as d:
                for k in d:
                    d[k] = Mark()
                old = new_wilson()
                odef, before = dict(d), values(old)
                arg = copy.deepcopy(v)
                (old if v == GOOD[key][0] else Wilson).set_default_option(key, arg)
                x.true(f"{key}={v} existing instance kept", all(values(old)[k] is before[k] for k in GOOD))
                new = values(new_wilson())
                x.true(f"{key}={v} future instance", new[key] == coerced(key, v), new[key])
                x.true(f"{key}={v} other defaults kept", all(new[k] is odef[k] for k in GOOD if k != key))
                x.true(f"{key}={v} argument kept", arg == v, arg)


@obligation("P40", "invalid options are refused and change nothing", [T + "ConfigurableClass.set_option", T + "ConfigurableClass.set_default_option"],
            numeric=False, bounded="representatives of invalid values")
def _(x):
    import voluptuous as vol
    for key in BAD:
        for v in BAD[key]:
            for how in ("set_option", "set_default_option"):
                with defaults() as d:
                    w = new_wilson()
                    before, bd = values(w), copy.deepcopy(d)
                    x.raises(f"{how} {key}={v}", (vol.Invalid, TypeError), getattr(w, how), key, copy.deepcopy(v))
                    x.true(f"{how} {key}={v} nothing changed", values(w) == before and d == bd)
    x.raises("unknown option", KeyError, new_wilson().get_option, "no_such_option")


@obligation("P40", "delta is an alias of gamma", [T + "ConfigurableClass.set_option", T + "ConfigurableClass.set_default_option"],
            numeric=False, bounded="one value, with and without other parameters")
def _(x):
    import warnings
    for p in ({"delta": 1.2}, {"delta": 1.2, "Vus": 0.2}, {"Vus": 0.2, "delta": "1.2"}):
        want = {("gamma" if k == "delta" else k): float(v) for k, v in p.items()}
        for how in ("set_option", "set_default_option"):
            with defaults(), warnings.catch_warnings(record=True) as rec:
                warnings.simplefilter("always")
                w = new_wilson()
                arg = dict(p)
                getattr(w, how)("parameters", arg)
                q = w if how == "set_option" else new_wilson()
                x.true(f"{how} {p} stored", q.get_option("parameters") == want, q.get_option("parameters"))
                x.true(f"{how} {p} argument kept", arg == p, arg)
                x.true(f"{how} {p} warns", any(issubclass(r.category, FutureWarning) for r in rec))
                x.true(f"{how} {p} effective", q.parameters["gamma"] == 1.2 and "delta" not in q.parameters)


@obligation("P40", "parameters in effect", [T + "Wilson.parameters", T + "Wilson.matching_parameters"], numeric=False,
            bounded="user dictionaries: empty, overriding, extending; values opaque")
def _(x):
    for keys in ([], ["m_b"], ["my_own"], list(parmod.p)[:5] + ["q"], list(parmod.p), ["loop_order"], list(parmod.p)[::-1] + ["loop_order"], 0, 0.0, False):
        if isinstance(keys, list):
            user = {k: Mark() for k in keys}
        else:
            # vanishing values are values
            user = {k: type(keys)(0) for k in [*parmod.p, "own"]}
            keys = list(user)
        for lo in (0, 1):
            base = dict(parmod.p)
            with cls_attrs(Wilson, get_option=lambda s, k: {"parameters": user, "smeft_matching_order": lo}[k]):
                w = new_wilson()
                p, m = w.parameters, w.matching_parameters
            x.true(f"{keys[:3]} parameters", set(p) == set(base) | set(keys) and all(p[k] is (user[k] if k in user else base[k]) for k in p))
            x.true(f"{keys[:3]} matching", set(m) == set(p) | {"loop_order"} and all(m[k] is p[k] for k in p if k != "loop_order") and m["loop_order"] == lo)
            p["m_b"] = m["m_c"] = None
            x.true(f"{keys[:3]} not shared", parmod.p == base and set(user) == set(keys) and all(v is not None for v in user.values()))


@obligation("P38", "parameters given by the user reach every step", [T + "Wilson.parameters", T + "Wilson.matching_parameters", T + "ConfigurableClass.set_option"],
            samples=3, bounded="every default parameter and two others, one at a time and together; values zero, negative, small, large, integer")
def _(x):
    x.clauses += 1
    if x.mode != "num":
        return
    vals = [0, 0.0, -1.5, 1e-9, 3, 1e6, x.rng.uniform(-5, 5), "2.5", np.float64(x.rng.uniform(0, 200))]
    base = dict(parmod.p)
    for lo in (0, 1):
        for k in [*base, "my_own", "loop_order"]:
            for v in vals:
                w = new_wilson()
                w.set_option("smeft_matching_order", lo)
                w.set_option("parameters", {k: v})
                for p in (w.parameters, *([w._wetrun_opt()["parameters"]] if hasattr(w, "_wetrun_opt") else [])):
                    x.true(f"{k}={v}", p == {**base, k: float(v)}, {q: r for q, r in p.items() if base.get(q) != r})
                x.true(f"{k}={v} matching", w.matching_parameters == {**base, k: float(v), "loop_order": lo}, w.matching_parameters.get(k))
        w.set_option("parameters", {k: v for k, v in zip(base, vals * len(base))})
        x.true("all together", w.parameters == {k: float(v) for k, v in zip(base, vals * len(base))} and w.matching_parameters == {**w.parameters, "loop_order": lo})
    x.true("defaults unchanged", parmod.p == base)


@obligation("P40", "hash follows options and coefficients", [T + "Wilson.__hash__"], numeric=False,
            bounded="all pairs of representative values of each option")
def _(x):
    w = new_wilson()
    h0 = hash(w)
    x.true("stable", hash(w) == h0)
    w._set_cache("all", 1.0, "WET", "JMS", w.wc) if hasattr(w, "_set_cache") else None
    x.true("independent of what was computed", hash(w) == h0)
    x.true("another instance differs", hash(new_wilson()) != h0)
    for key, vs in GOOD.items():
        seen = {}
        for v in vs:
            w.set_option(key, v)
            seen.setdefault(hash(w), []).append(coerced(key, v))
        x.true(f"{key}: different values, different hash", all(all(q == c[0] for q in c) for c in seen.values())
               and len(seen) == len({str(coerced(key, v)) for v in vs}), seen)
        h = hash(w)
        w.set_option(key, vs[0])
        w.set_option(key, vs[-1])
        x.true(f"{key}: same value, same hash", hash(w) == h)
    a, b = {"m_b": 4.0, "m_c": 1.0}, {"m_c": 1.0, "m_b": 4.0}
    w.set_option("parameters", a)
    h = hash(w)
    w.set_option("parameters", b)
    x.true("order of the parameters is irrelevant", hash(w) == h)


@obligation("P40", "instances from other sources", [T + "Wilson.__init__", T + "Wilson.from_wc", T + "Wilson.load_wc"], fork=True,
            assumptions=["yaml round trip of numbers (P02)"])
def _(x):
    import io, json
    ks = list(NAMES["WET", "flavio"].values())
    for vals in ({ks[0]: x.real("a")}, {ks[0]: x.cplx("a2"), ks[1]: x.real("b")}, {}):
        w = Wilson(vals, x.real("mu", pos=True), "WET", "flavio")
        x.eq("coefficients", w.wc.dict, vals)
        w2 = Wilson.from_wc(w.wc)
        x.eq("from_wc", w2.wc.dict, vals)
        x.eq("scale", w2.wc.scale, w.wc.scale)
        x.true("names", (w2.wc.eft, w2.wc.basis, w.wc.eft, w.wc.basis) == ("WET", "flavio") * 2)
        x.true("options", values(w2) == {k: Wilson._default_options[k] for k in GOOD})
    d = {"eft": "WET", "basis": "flavio", "scale": 80.5, "values": {ks[0]: 1.5, ks[1]: {"Re": 1e-3, "Im": -2.0}}}
    w = Wilson.load_wc(io.StringIO(json.dumps(d)))
    x.true("load_wc", (w.wc.eft, w.wc.basis, w.wc.scale, w.wc.dict) == ("WET", "flavio", 80.5, {ks[0]: 1.5, ks[1]: 1e-3 - 2j}), w.wc.dict)
    x.raises("unknown coefficient", (AssertionError, ValueError), Wilson, {"no_such_wc": 1.0}, 80., "WET", "flavio")
    x.raises("unknown basis", (AssertionError, ValueError), Wilson, {}, 80., "WET", "nobasis")
    x.raises("unknown EFT", (AssertionError, ValueError), Wilson, {}, 80., "NOEFT", "flavio")


# ------------------------------------------------------------------ P42
@obligation("P42", "plot data of any solution", [T + "RGsolution.__init__", T + "RGsolution.plotdata"], fork=True, fallback=4,
            bounded="number of points 2, 3, 17, 50; scales sampled; the solution and its values are unknown")
def _(x):
    import math
    lib = contextlib.nullcontext
    for lo, hi, n in ((1.0, 100.0, 3), (91.1876, 1e4, 17), (0.5, 0.75, 2), (4.2, 160.0, None)):
        for how in ("log", "linear", None):
            for part in ("re", "im", None):
                seen = []

                def fun(q):
                    seen.append(np.array(q, dtype=float))
                    out = np.empty(len(q), dtype=object)
                    for i in range(len(q)):
                        out[i] = {"a": x.cplx(f"a{i}"), "b": x.cplx(f"b{i}")}
                    return out
                kw = {k: v for k, v in (("scale", how), ("part", part), ("steps", n)) if v is not None}
                xs, ys = RGsolution(fun, lo, hi).plotdata("a", **kw)
                m = n or 50
                lab = f"{lo}-{hi} {how} {part}"
                xs = np.array(xs, dtype=float)
                want = np.linspace(lo, hi, m) if how == "linear" else np.array([math.exp(math.log(lo) + (math.log(hi) - math.log(lo)) * i / (m - 1)) for i in range(m)])
                x.eq(lab + " scales", list(xs), list(want))
                x.true(lab + " evaluated once there", len(seen) == 1 and np.array_equal(seen[0], xs))
                vals = [x.cplx(f"a{i}") for i in range(m)]
                x.eq(lab + " values", [ys[i] for i in range(len(ys))], [v.imag if part == "im" else v.real for v in vals])


class _Opaque:
    """an array nothing is known about"""
    ndim = 1
    __array_ufunc__ = None

    def _no(self, *a, **k):
        raise Missing("operation on an array of unknown length")
    __array__ = __iter__ = __len__ = __getitem__ = __add__ = __radd__ = __mul__ = __rmul__ = __sub__ = __rsub__ = __truediv__ = __rtruediv__ = __pow__ = __rpow__ = __bool__ = __eq__ = __ne__ = __lt__ = __gt__ = _no
    __getattr__ = _no
    __hash__ = object.__hash__


class _Values:
    """what a solution returns for such an array: an arbitrary entry is looked at"""
    ndim = 1

    def __init__(self, *entries):
        self.entries = entries

    def __iter__(self):
        return iter(self.entries)

    def _no(self, *a, **k):
        raise Missing("operation on an array of unknown length")
    __array__ = __len__ = __getitem__ = __getattr__ = _no


@obligation("P42", "plot data for any number of points and any scales", [T + "RGsolution.__init__", T + "RGsolution.plotdata"], fork=True, numeric=False,
            assumptions=["numpy.logspace and linspace: equidistant points between the given ends in the exponent resp. the value"])
def _(x):
    lo, hi, n = x.real("scale_min", pos=True), x.real("scale_max", pos=True), x.real("steps", pos=True)
    import math
    for how in ("log", "linear", None):
        for part in ("re", "im", None):
            pts, seen, made = _Opaque(), [], []

            def logspace(a, b, num=50, endpoint=True, base=10.0, *z, **k):
                made.append(("log", a, b, num, endpoint, base, z, k))
                return pts

            def linspace(a, b, num=50, endpoint=True, *z, **k):
                made.append(("linear", a, b, num, endpoint, None, z, k))
                return pts

            def geomspace(a, b, num=50, endpoint=True, *z, **k):
                made.append(("geom", a, b, num, endpoint, None, z, k))
                return pts
            e1, e2 = ({"a": x.cplx(f"a{i}"), "b": x.cplx(f"b{i}")} for i in (1, 2))

            def fun(q):
                seen.append(q)
                return _Values(e1, e2)
            kw = {k: v for k, v in (("scale", how), ("part", part)) if v is not None}
            with x.lib(stubs={np.logspace: logspace, np.linspace: linspace, np.geomspace: geomspace}, always=True):
                xs, ys = RGsolution(fun, lo, hi).plotdata("a", steps=n, **kw)
            if len(made) != 1:
                raise Missing("points from another source")
            kind, a, b, num, end, base, z, k = made[0]
            x.true(f"{how}: kind of spacing", (kind == "linear") == (how == "linear") and end is True and not z and not k, made)
            if kind == "log":
                x.eq("ends", [a * math.log(base), b * math.log(base)], [lo.log(), hi.log()])
            else:
                x.eq("ends", [a, b], [lo, hi])
            x.eq("number of points", num, n)
            x.true("evaluated once, at these points", len(seen) == 1 and seen[0] is pts and xs is pts)
            x.eq(f"{part}: values", [ys[0], ys[1]], [v["a"].imag if part == "im" else v["a"].real for v in (e1, e2)])


@obligation("P42", "real and integer valued solutions", [T + "RGsolution.plotdata"], numeric=False, bounded="kinds and sizes of values")
def _(x):
    for v in (1.5, 2, 1 + 0j, np.float64(3.0), 0, 1 / 3, 1e-60, -1e-300, 1e150, 1 / 3 + 1e-70j, 1e-200 - 7e100j, 2 ** 53 - 1):
        s = RGsolution(lambda q: np.array([{"a": v} for _ in q]), 1.0, 2.0)
        for part in ("re", "im"):
            for how in ("log", "linear"):
                xs, ys = s.plotdata("a", part=part, scale=how, steps=4)
                x.true(f"{v} {part} {how}", np.shape(ys) == (4,) and np.all(np.asarray(ys) == (complex(v).real if part == "re" else complex(v).imag)), ys)
        x.raises("unknown key", KeyError, s.plotdata, "b")


@obligation("P42", "WET solution: every coefficient of the basis at every scale", ["wilson.run.wet.classes:WETrunner.run_continuous",
            "wilson.run.wet.classes:WETrunner._run_dict"], samples=1, fallback=1,
            bounded="one input per sector, three scales; the real evolution runs", cost=20)
def _(x):
    x.clauses += 1
    if x.mode != "num":
        return
    for eft, lo, hi in (("WET", 5.0, 80.0), ("WET-4", 2.0, 4.2), ("WET-3", 1.0, 1.3)):
        b = wcxf.Basis[eft, "JMS"]
        vals = {next(iter(ks)): 1e-3 for ks in b.sectors.values()}
        for a, z in ((lo, hi), (hi, lo)):
            w = WETrunner(wcxf.WC(eft, "JMS", a, vals))
            sol = w.run_continuous(z)
            x.true(f"{eft} range", (sol.scale_min, sol.scale_max) == (lo, hi))
            pts = np.array([lo, 0.7 * lo + 0.3 * hi, hi])
            ds = sol.fun(pts)
            for mu, d in zip(pts, ds):
                miss = [k for k in b.all_wcs if k not in d]
                x.true(f"{eft} {mu} complete", not miss, miss[:5])
                r = w.run(mu).dict
                bad = [k for k in b.all_wcs if k in d and abs(d[k] - r.get(k, 0)) > 1e-12 * max(1e-3, abs(d[k]))]
                x.true(f"{eft} {mu} equals run", not bad, [(k, d[k], r.get(k)) for k in bad[:3]])
            for q in (lo / 3, lo / 1.7, hi * 1.1, hi * 21, 0.5 if eft == "WET-3" else 0.9):
                rng = w.run_continuous(q)
                x.true(f"{eft} range to {q}", (rng.scale_min, rng.scale_max) == (min(q, a), max(q, a)), (rng.scale_min, rng.scale_max))
            tiny = WETrunner(wcxf.WC(eft, "JMS", a, {k: v * 1e-35 for k, v in vals.items()})).run_continuous(z).fun(pts)[1]
            x.true(f"{eft} tiny coefficients", all(abs(tiny[k] / 1e-35 - ds[1][k]) <= 1e-9 * max(1e-3, abs(ds[1][k])) for k in ds[1]))
            one = sol.fun(pts[1])
            x.true(f"{eft} scalar", isinstance(one, dict) and one.keys() == ds[1].keys())


@obligation("P42", "SMEFT solution: values, vanishing coefficients and SM parameters", ["wilson.run.smeft.rge:smeft_evolve_continuous",
            "wilson.run.smeft.classes:SMEFT.run_continuous"], samples=1, fallback=1,
            bounded="two concrete inputs, three scales, tolerance 2e-3 of the largest coefficient (the solver takes different steps)", cost=30)
def _(x):
    x.clauses += 1
    if x.mode != "num":
        return
    for vals, a, z in (({"uphi_33": 1e-7, "lq1_1123": 1e-7, "phiq1_33": 1e-7}, 1000.0, 200.0), ({"qu1_1233": 1e-7, "dG_23": 1e-8}, 200.0, 500.0)):
        sm = SMEFT(wcxf.WC("SMEFT", "Warsaw", a, vals))
        sol = sm.run_continuous(z)
        for mu in (a, z, (a * z) ** 0.5):
            d, r = sol.fun(mu), sm.run(mu).dict
            names = [k for k in wcxf.Basis["SMEFT", "Warsaw"].all_wcs]
            miss = [k for k in names if k not in d]
            x.true(f"{a} {mu} complete", not miss, miss[:5])
            top = max(abs(v) for v in r.values())
            bad = [k for k in names if k in d and abs(d[k] - r.get(k, 0)) > 2e-3 * top]
            x.true(f"{a} {mu} equals run", not bad, [(k, d[k], r.get(k)) for k in bad[:3]])
            x.true(f"{a} {mu} SM parameters", all(k in d for k in ("g", "gp", "gs", "m2", "Lambda")))
        for part in ("re", "im"):
            for how in ("log", "linear"):
                for k in ("lq1_1122", "phiq1_23", "G", "g"):
                    x.true(f"{a} plot {k}", len(sol.plotdata(k, part=part, scale=how, steps=5)[1]) == 5)
