"""P41: QCD parameters, wilson/util/qcd.py.

RunDec is replaced by its contract: a coupling (mass) is a free function of the
running and decoupling steps that led to it.  Every call into RunDec has the
precondition that the coupling it is given is the one belonging to its scale
and number of flavours."""
import contextlib
from ..harness import obligation, Missing
from ..sym.num import Num
from .toplevel import cls_attrs
import wilson.util.qcd as qcd

Q = "wilson.util.qcd:"
FUN = ("alpha_s", "m_b", "m_c", "m_s")


class RunDec:
    """ghost state: what every number handed out by the library stands for"""

    def __init__(self, x, alphasMZ):
        self.x = x
        self.tab = []          # (kind, state, value)
        self.thr = {}
        self.loop = None
        self.calls = 0

    def same(self, a, b):
        if isinstance(a, tuple) and isinstance(b, tuple):
            return len(a) == len(b) and all(self.same(p, q) for p, q in zip(a, b))
        if isinstance(a, tuple) or isinstance(b, tuple) or isinstance(a, str) or isinstance(b, str):
            return a is b or (type(a) == type(b) and a == b)
        return bool(a == b)

    def value(self, state):
        for s, v in self.tab:
            if self.same(s, state):
                return v
        n = len(self.tab)
        v = self.x.real(f"term{n}", lo=None)
        self.tab.append((state, v))
        return v

    def state(self, v):
        for s, w in self.tab:
            if v is w or (isinstance(v, type(w)) and not isinstance(v, Num) and v == w) or \
                    (isinstance(v, Num) and isinstance(w, Num) and v.frozen() == w.frozen()):
                return s
        return ("input", v)

    # states: ("as"/"m", start value, flavour, scale, steps) ; steps = alternating runs and thresholds
    def start(self, kind, v, nf, mu):
        s = (kind, v, nf, mu, ())
        self.tab.append((s, v))
        return s

    def run(self, s, mu):
        k, v, nf, at, st = s
        if self.same(at, mu):
            return s
        if st and st[-1][0] == "run":      # two runs in the same theory
            st, at = st[:-1], st[-1][2]
            if self.same(at, mu):
                return (k, v, nf, mu, st)
        return (k, v, nf, mu, st + (("run", nf, at, mu),))

    def cross(self, s, th, nf):
        k, v, f, at, st = s
        return (k, v, nf, at, st + (("threshold", th, f, nf),))

    def library(self):
        R = self

        class Trip:
            Mth = muth = nf = 0

        class CRunDec:
            def __init__(self, *a):
                self.nfMmu = Trip()

            def _in(self, what, v, mu, nf, kind):
                s = R.state(v)
                ok = s[0] == kind and s[2] == nf and R.same(s[3], mu)
                R.x.true(f"{what}: {'coupling' if kind == 'as' else 'mass'} given at its scale and number of flavours", ok, f"{s} mu={mu} nf={nf}")
                return s if s[0] == kind else (kind, v, nf, mu, ())

            def _loop(self, l):
                R.calls += 1
                R.x.true("loop order", l == R.loop, l)

            def _thr(self, d):
                R.x.true("threshold mass and scale agree", d.Mth == d.muth, (d.Mth, d.muth))
                return float(d.muth), d.nf

            def _up(self, s, d, mu, nf):
                return R.run(R.cross(R.run(s, d), d, nf), mu)

            def AlphasExact(self, a, mu0, mu, nf, loop):
                self._loop(loop)
                return R.value(R.run(self._in("AlphasExact", a, mu0, nf, "as"), mu))

            def AlL2AlH(self, a, mu0, d, mu, loop):
                self._loop(loop)
                t, n = self._thr(d)
                return R.value(self._up(self._in("AlL2AlH", a, mu0, n - 1, "as"), t, mu, n))

            def AlH2AlL(self, a, mu0, d, mu, loop):
                self._loop(loop)
                t, n = self._thr(d)
                return R.value(self._up(self._in("AlH2AlL", a, mu0, n, "as"), t, mu, n - 1))

            def mMS2mMS(self, m, a0, a1, nf, loop):
                self._loop(loop)
                s0, s1 = R.state(a0), R.state(a1)
                R.x.true("mMS2mMS: couplings of this theory", s0[0] == "as" and s1[0] == "as" and s0[2] == nf and s1[2] == nf, (s0, s1))
                s = self._in("mMS2mMS", m, s0[3], nf, "m")
                return R.value(R.run(s, s1[3]))

            def mL2mH(self, m, a, mu0, d, mu, loop):
                self._loop(loop)
                t, n = self._thr(d)
                self._in("mL2mH", a, mu0, n - 1, "as")
                return R.value(self._up(self._in("mL2mH", m, mu0, n - 1, "m"), t, mu, n))

            def mH2mL(self, m, a, mu0, d, mu, loop):
                self._loop(loop)
                t, n = self._thr(d)
                self._in("mH2mL", a, mu0, n, "as")
                return R.value(self._up(self._in("mH2mL", m, mu0, n, "m"), t, mu, n - 1))
        return CRunDec

    def path(self, s, nf, mu, thr):
        while s[2] != nf:
            n = s[2] + (1 if nf > s[2] else -1)
            t = thr[max(n, s[2])]
            s = self.cross(self.run(s, t), t, n)
        return self.run(s, mu)


THRESHOLD = {6: 170.0, 5: 4.8, 4: 1.3}     # m_t, m_b, m_c pole masses: one set for all functions
START = {"alpha_s": 5, "m_b": 5, "m_c": 4, "m_s": 3}
REACH = {"alpha_s": (3, 4, 5, 6), "m_b": (3, 4, 5, 6), "m_c": (3, 4, 5), "m_s": (3, 4, 5)}


@contextlib.contextmanager
def world(x, loop):
    a = x.real("alphasMZ", pos=True)
    R = RunDec(x, a)
    R.loop = loop
    for n in FUN:
        if not hasattr(qcd, n):
            raise Missing(n)
    if not hasattr(qcd.rundec, "CRunDec"):
        raise Missing("CRunDec")
    orig = qcd.rundec.CRunDec

    def clear():
        for n in dir(qcd):
            f = getattr(qcd, n)
            if hasattr(f, "cache_clear"):
                f.cache_clear()
    clear()
    qcd.rundec.CRunDec = R.library()
    try:
        with cls_attrs(Num, __hash__=lambda s: 1):
            yield R, a
    finally:
        qcd.rundec.CRunDec = orig
        clear()


def one(x, name, f, loop):
    with world(x, loop) as (R, a):
        sa = R.start("as", a, 5, qcd.MZ)
        mu = x.real("scale", pos=True)
        if name == "alpha_s":
            s0, args = sa, ()
        else:
            v = x.real(name, pos=True)
            at = v if name != "m_s" else 2
            s0 = R.start("m", v, START[name], at)
            args = (v,)
        fn = getattr(qcd, name)
        want = R.path(s0, f, mu, THRESHOLD)
        try:
            r = fn(*args, mu, f, a, loop=loop) if name != "alpha_s" else fn(mu, f, a, loop)
        except ValueError as e:
            # a library value of exactly zero signals failure
            zero = [v for s, v in R.tab if s[0] == "as" and not isinstance(s[1], str) and bool(v == 0)]
            x.true("an error only if the library fails", bool(zero), str(e))
            return
        got = R.state(r)
        x.true("steps", R.same(got, want), f"got {got} want {want}")


for _n in FUN:
    for _f in REACH[_n]:
        for _l in (3, 2):
            obligation("P41", f"{_n} with {_f} flavours, loop order {_l}", [Q + _n] + ([Q + "alpha_s"] if _n != "alpha_s" else []), fork=True,
                       assumptions=["RunDec computes the running and decoupling its methods are named after"])(
                lambda x, n=_n, f=_f, l=_l: one(x, n, f, l))


@obligation("P41", "default arguments", [Q + n for n in FUN], numeric=False, fork=True)
def _(x):
    for n in FUN:
        with world(x, 3) as (R, a):
            R.start("as", 0.1185, 5, qcd.MZ)
            R.start("m", 1.0, START[n], 2 if n == "m_s" else 1.0)
            try:
                r = getattr(qcd, n)(*(() if n == "alpha_s" else (1.0,)), 10.0, START[n])
            except ValueError:
                x.true(n + " fails only if the library does", any(bool(v == 0) for s, v in R.tab if s[0] == "as"))
                continue
            s0 = ("as", 0.1185, 5, qcd.MZ, ()) if n == "alpha_s" else ("m", 1.0, START[n], 2 if n == "m_s" else 1.0, ())
            x.true(n, R.same(R.state(r), R.path(s0, START[n], 10.0, THRESHOLD)), R.state(r))


@obligation("P41", "nonsensical arguments are refused", [Q + "_sane"] + [Q + n for n in FUN], numeric=False, fork=True)
def _(x):
    bad = x.real("bad_scale", hi=0)
    mu = x.real("scale", pos=True)
    for n in FUN:
        with world(x, 3) as (R, a):
            m = () if n == "alpha_s" else (x.real("m", pos=True),)
            R.start("as", a, 5, qcd.MZ)
            R.start("m", m[0] if m else 1.0, START[n], 2 if n == "m_s" else m[0] if m else 1.0)
            fn = getattr(qcd, n)
            for f in (3, 4, 5, 6):
                x.raises(f"{n} f={f} scale <= 0", ValueError, fn, *m, bad, f, a)
            for f in (2, 7, 0, -5, 2.5, 6.5):
                x.raises(f"{n} f={f}", ValueError, fn, *m, mu + 200, f, a)
            if n in ("m_c", "m_s"):
                x.raises(f"{n} f=6", ValueError, fn, *m, mu + 200, 6, a)


@obligation("P41", "results do not depend on earlier calls", [Q + n for n in FUN], samples=3, fallback=3,
            bounded="sampled sequences of calls into the real library")
def _(x):
    x.clauses += 1
    if x.mode != "num":
        return
    import random
    g = random.Random(x.seed)
    calls = []
    for _ in range(60):
        n = g.choice(FUN)
        f = g.choice(REACH[n])
        mu = g.choice([2, 2.0, 4.8, 1.3, 91.1876, g.uniform(1.5, 300)])
        m = () if n == "alpha_s" else (g.choice([4.2, 1.27, 0.1, 1, 1.0]) + (3.2 if n == "m_b" else 0.5 if n == "m_c" else 0),)
        calls.append((n, m + (mu, f, g.choice([0.1185, 0.118, 0.12])), {"loop": g.choice([2, 3])}))

    def val(c):
        return getattr(qcd, c[0])(*c[1], **c[2])
    fresh = []
    for c in calls:
        for n in FUN:
            getattr(getattr(qcd, n), "cache_clear", lambda: None)()
        fresh.append(val(c))
    for _ in range(2):
        x.true("same numbers in sequence", [val(c) for c in calls] == fresh)
    g.shuffle(calls)
