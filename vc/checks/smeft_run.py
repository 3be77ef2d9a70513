"""P16-P23: SMEFT flavour rotations, beta functions, evolution, output basis, SM parameters."""
import itertools
import cmath
import json, os
import numpy as np
from math import pi
from ..harness import obligation, StopPath
from .. import bases, tens
from ..sym.num import Num, as_num
from . import spec
from . import smeft_spec as S
from wilson import wcxf
from wilson.util import smeftutil
import wilson.util.smeft_warsaw as smeft_warsaw
import wilson.run.smeft.beta as beta
import wilson.run.smeft.rge as rge
import wilson.run.smeft.smpar as smpar
import wilson.run.smeft.classes as rclasses
from wilson.run.smeft.classes import SMEFT

B = "wilson.run.smeft.beta:"
R = "wilson.run.smeft.rge:"
K = "wilson.run.smeft.classes:SMEFT."
SP = "wilson.run.smeft.smpar:"


def _U(x, suffix="", unitary=True):
    return {s: x.tensor(f"U{s}{suffix}", 2, unitary=unitary) for s in "qudle"}


def _kw(U):
    return {f"U{s}": U[s] for s in "qudle"}


def _cp(C):
    return {k: (v.copy() if hasattr(v, "copy") and np.ndim(v) else v) for k, v in C.items()}


# ------------------------------------------------------------------ P16
def _impls(x):
    f = smeft_warsaw.flavor_rotation
    g = x.need(SMEFT, "_flavor_rotation")
    return f, g


@obligation("P16", "rotation of every coefficient (library function)", ["wilson.util.smeft_warsaw:flavor_rotation"], engine="tensor")
def _(x):
    C, U = S.tensors(x, sym=False), _U(x, unitary=False)
    C = {k: C[k] for k in S.WCS}
    before = _cp(C)
    with x.lib():
        got = smeft_warsaw.flavor_rotation(C, **_kw(U))
    x.eq("rotated", got, S.rotate(x, C, U))
    x.eq("argument unchanged", C, before)


@obligation("P16", "rotation of a subset of coefficients", ["wilson.util.smeft_warsaw:flavor_rotation"], engine="tensor")
def _(x):
    C, U = S.tensors(x, sym=False), _U(x, unitary=False)
    for off in range(3):
        D = {k: C[k] for i, k in enumerate(S.WCS) if i % 3 == off}
        with x.lib():
            got = smeft_warsaw.flavor_rotation(D, **_kw(U))
        x.eq(f"rotated {off}", got, S.rotate(x, D, U))
    with x.lib():
        x.eq("nothing", smeft_warsaw.flavor_rotation({}, **_kw(U)), {})


@obligation("P16", "rotation with the same matrix object for several fields", ["wilson.util.smeft_warsaw:flavor_rotation", K + "_flavor_rotation"], engine="tensor", cost=5)
def _(x):
    C = S.tensors(x, sym=False)
    W = {k: C[k] for k in S.WCS}
    U = _U(x, unitary=False)
    for name, f, D in (("library", smeft_warsaw.flavor_rotation, W), ("running", getattr(SMEFT, "_flavor_rotation", None), C)):
        if f is None:
            continue
        for n in range(2, 6):
            for eq in itertools.combinations("qudle", n):
                V = {s: U[eq[0]] if s in eq else U[s] for s in "qudle"}
                with x.lib():
                    got = f(D, **_kw(V))
                x.eq(f"{name}: the same object for {eq}", got, S.rotate(x, D, V))


@obligation("P16", "rotation of every parameter and coefficient (running)", [K + "_flavor_rotation"], engine="tensor")
def _(x):
    f = x.need(SMEFT, "_flavor_rotation")
    C, U = S.tensors(x, sym=False), _U(x, unitary=False)
    before = _cp(C)
    with x.lib():
        got = f(C, **_kw(U))
        wc = f(C, **_kw(U), sm_parameters=False)
    want = S.rotate(x, C, U)
    x.eq("rotated", got, want)
    x.eq("without SM parameters", wc, {k: want[k] for k in S.WCS})
    x.eq("argument unchanged", C, before)


@obligation("P16", "group action: identity, composition, inverse", ["wilson.util.smeft_warsaw:flavor_rotation", K + "_flavor_rotation"], engine="tensor")
def _(x):
    C = S.tensors(x, sym=False)
    W = {k: C[k] for k in S.WCS}
    U, V = _U(x), _U(x, "2")
    for name, f, D in (("library", smeft_warsaw.flavor_rotation, W), ("running", getattr(SMEFT, "_flavor_rotation", None), C)):
        if f is None:
            continue
        with x.lib():
            one = {s: x.np.eye(3) if x.mode == "num" else tens.T.delta() for s in "qudle"}
            x.eq(f"identity {name}", f(D, **_kw(one)), D)
            step = f(f(D, **_kw(U)), **_kw(V))
            x.eq(f"composition {name}", step, f(D, **{f"U{s}": U[s] @ V[s] for s in "qudle"}))
            back = f(f(D, **_kw(U)), **{f"U{s}": U[s].conj().T for s in "qudle"})
            x.eq(f"inverse {name}", back, D)


# ------------------------------------------------------------------ P17
def _typed(key, out_ports):
    """covariance of one canonical tensor monomial by index typing; None or the reason"""
    where = {}
    for n, c, ix in key:
        if n == "δ":
            ports = None
        else:
            if n not in S.PORTS:
                return f"unknown tensor {n}"
            ports = [(s, st ^ bool(c)) for s, st in S.PORTS[n]]
        for pos, i in enumerate(ix):
            where.setdefault(i, []).append(ports[pos] if ports else ("δ", None))
    deltas = [ix for n, c, ix in key if n == "δ"]
    if deltas:
        # canonical form: deltas only join two open indices
        for a, b in deltas:
            if not (a < 0 and b < 0):
                return "unreduced delta"
            pa, pb = out_ports[-1 - a], out_ports[-1 - b]
            if pa[0] != pb[0] or pa[1] == pb[1]:
                return f"delta joins {pa} {pb}"
    for i, ps in where.items():
        if i < 0:
            p = ps[0]
            if p[0] != "δ" and p != out_ports[-1 - i]:
                return f"open index {-1-i}: {p} instead of {out_ports[-1-i]}"
        else:
            if len(ps) != 2:
                return f"index {i} occurs {len(ps)} times"
            a, b = ps
            if "δ" in (a[0], b[0]):
                return "contracted delta"
            if a[0] != b[0] or a[1] == b[1]:
                return f"contraction of {a} with {b}"
    return None


def _cov_fn(names):
    def f(x):
        C = S.tensors(x, sym=True)
        if x.mode == "tens":
            with x.lib():
                b = beta.beta(C)
            x.true("every parameter has a beta function", sorted(b) == sorted(C), set(b) ^ set(C))
            for k in names:
                t = b[k]
                ports = S.PORTS.get(k, [])
                terms = t.terms if isinstance(t, tens.T) else {}
                x.clauses += 1
                x.scalars += max(1, len(terms))
                for key in terms:
                    why = _typed(key, ports)
                    if why:
                        x._fail(f"beta[{k}]", tens.show(tens.T(len(ports), {key: terms[key]}), 1), why)
            return
        U = _U(x)
        x.scale = 1.0
        b0 = beta.beta(C)
        b1 = beta.beta(S.rotate(x, C, U))
        w = S.rotate(x, dict(b0), U)
        for k in names:
            x.eq(f"beta[{k}] of rotated = rotated beta", b1[k], w[k])
    return f


obligation("P17", "every term of the beta function of dphi is a flavour tensor", [B + "beta"], engine="tensor", fallback=2)(_cov_fn(["dphi"]))
_rest = [k for k in S.DIM4 + S.WCS if k != "dphi"]
for _i in range(4):
    obligation("P17", f"every term of every beta function is a flavour tensor, part {_i}", [B + "beta"], engine="tensor", cost=2, fallback=3)(_cov_fn(_rest[_i::4]))


@obligation("P17", "covariance of the leading-log evolution", [R + "smeft_evolve_leadinglog"], bounded="concrete runs only (random coefficients and rotations)", samples=3, engine="poly", numeric=True)
def _(x):
    if x.mode != "num":
        x.clauses += 1
        return
    C = S.tensors(x, sym=True)
    _sym8(C)
    U = _U(x)
    x.scale = 1.0
    a = rge.smeft_evolve_leadinglog(S.rotate(x, C, U), 1000., 700.)
    b = S.rotate(x, rge.smeft_evolve_leadinglog(C, 1000., 700.), U)
    x.eq("evolution commutes with rotation", a, b)


def _sym8(C):
    a = np.zeros((3, 3, 3, 3), dtype=complex)
    for l in range(3):
        full = spec.q8_full([C["qqql"][t + (l,)] for t in bases.QQQL_NONRED])
        for t, v in full.items():
            a[t + (l,)] = v
    C["qqql"] = a


# ------------------------------------------------------------------ P18
def _perm(x, v, perm):
    L = "abcd"[:len(perm)]
    return x.einsum("".join(L[p] for p in perm) + "->" + L, v)


def _check_symm(x, label, d, skip=()):
    for k in S.WCS:
        if k in skip:
            continue
        v = d[k]
        if k in S.SCALARS:
            x.eq(f"{label}[{k}] real", v - spec.conj(v), 0)
            continue
        if k == "qqql":
            e = lambda s: x.einsum(s + "->prst", v)
            x.eq(f"{label}[qqql] relation", e("prst") + e("rpst") - e("sprt") - e("srpt"), 0 * e("prst"))
            continue
        for perm, c, sg in (S.symmetry(k) or [])[1:]:
            w = _perm(x, v, perm)
            if c:
                w = w.conj()
            x.eq(f"{label}[{k}] {perm}{'*' if c else ''}", w, sg * v if sg != 1 else v)
    for k in S.DIM4_SCALARS:
        x.eq(f"{label}[{k}] real", d[k] - spec.conj(d[k]), 0)


@obligation("P18", "beta functions keep hermiticity and flavour symmetry", [B + "beta"], engine="tensor", cost=2)
def _(x):
    C = S.tensors(x, sym=True)
    if x.mode == "num":
        x.scale = 1.0
    with x.lib():
        b = beta.beta(C)
    _check_symm(x, "beta", b, skip=("ee", "qqql"))


@obligation("P18", "leading-log evolution keeps hermiticity and flavour symmetry", [R + "smeft_evolve_leadinglog"], engine="tensor", cost=2)
def _(x):
    C = S.tensors(x, sym=True)
    if x.mode == "num":
        x.scale = 1.0
        _sym8(C)
    a, b = x.real("scale_in", pos=True, lo=200, hi=2000), x.real("scale_out", pos=True, lo=100, hi=200)
    with x.lib():
        out = rge.smeft_evolve_leadinglog(C, a, b)
    if x.mode == "tens":
        # C itself satisfies the relation: check the increment
        out["qqql"] = out["qqql"] - C["qqql"]
    _check_symm(x, "C_out", out)


@obligation("P18", "ODE right-hand side keeps hermiticity and flavour symmetry", [R + "_smeft_evolve", R + "smeft_evolve"], engine="tensor", cost=2)
def _(x):
    _rhs(x, lambda C, f: _check_symm(x, "rhs", f))


def _rhs(x, judge):
    """run smeft_evolve with the ODE solver replaced by its caller-side contract: the right-hand side
    is evaluated at the initial point, and y(t1) is an arbitrary vector"""
    import scipy.integrate
    C = S.tensors(x, sym=True)
    if x.mode == "num":
        x.scale = 1.0
        _sym8(C)
        got = {}
        orig = rge.solve_ivp

        def stub(fun, t_span, y0, **kw):
            got["r"] = fun(t_span[0], y0)
            got["y0"] = y0
            got["span"] = t_span
            return orig(fun=fun, t_span=t_span, y0=y0, **kw)
        rge.solve_ivp = stub
        try:
            out = rge.smeft_evolve(C, 1000., 999.)
        finally:
            rge.solve_ivp = orig
        f = smeftutil.C_array2dict(got["r"].view(complex))
        judge(C, f)
        return
    got = {}

    class Flat:
        """flat vector of tensors: only the operations of a real/complex view"""
        def __init__(self, d):
            self.d = d

        def view(self, t):
            return self

        def __truediv__(self, o):
            return Flat({k: v / o for k, v in self.d.items()})

        def __mul__(self, o):
            return Flat({k: v * o for k, v in self.d.items()})
        __rmul__ = __mul__

    class Sol:
        pass

    def solve(fun, t_span, y0, **kw):
        got["r"] = fun(t_span[0], y0)
        s = Sol()

        class Y:
            def __getitem__(self, i):
                return y0
        s.y = Y()
        return s

    def a2d(self_or, C=None):
        return dict((C if C is not None else self_or).d)

    def d2a(C, *r):
        return Flat({k: C[k] for k in smeftutil.C_keys})
    old = smeftutil.C_array2dict, smeftutil.C_dict2array
    smeftutil.C_array2dict = lambda v: dict(v.d)
    smeftutil.C_dict2array = d2a
    try:
        with x.lib(stubs={scipy.integrate.solve_ivp: solve}):
            out = rge.smeft_evolve(C, x.real("scale_in", pos=True), x.real("scale_out", pos=True))
    finally:
        del smeftutil.C_array2dict, smeftutil.C_dict2array
    judge(C, got["r"].d)


# ------------------------------------------------------------------ P19
@obligation("P19", "beta functions are linear in the dimension-6 coefficients", [B + "beta"], engine="tensor", cost=2)
def _(x):
    C = S.tensors(x, sym=False)
    if x.mode == "num":
        x.scale = 1.0
        D = S.tensors(x, sym=False, pre="B:")
        z = {k: (C[k] if k in S.DIM4 else 0 * C[k]) for k in C}
        e = {k: (C[k] if k in S.DIM4 else 2.5 * C[k] - 1.5 * D[k]) for k in C}
        d = {k: (C[k] if k in S.DIM4 else D[k]) for k in C}
        b0, bc, bd, be = beta.beta(z), beta.beta(C), beta.beta(d), beta.beta(e)
        for k in C:
            x.eq(f"linear {k}", be[k] - b0[k], 2.5 * (bc[k] - b0[k]) - 1.5 * (bd[k] - b0[k]))
            if k in S.WCS:
                x.eq(f"homogeneous {k}", b0[k], 0 * b0[k])
        return
    with x.lib():
        b = beta.beta(C)
    scal = set(S.SCALARS)
    for k, t in b.items():
        t = t if isinstance(t, tens.T) else tens.T._lift(None, t)
        for key, c in t.terms.items():
            n0 = sum(1 for n, cj, ix in key if n in S.WCS)
            for mono in as_num(c).t:
                n = n0 + _degree(mono, scal)
                lo = 1 if k in S.WCS else 0
                x.scalars += 1
                if not lo <= n <= 1:
                    x._fail(f"degree of beta[{k}]", tens.show(tens.T(t.rank, {key: c}), 1), f"{n} coefficients")
        x.clauses += 1


def _degree(mono, names):
    from ..sym.num import ATOMS
    n = 0
    for i, e in mono:
        if ATOMS.name[i] in names:
            n += e
        elif ATOMS.kind[i] != "sym":
            return 99
    return n


@obligation("P19", "no coefficients: Standard Model running", [B + "beta"], engine="tensor")
def _(x):
    C = S.tensors(x, sym=False)
    Z = {k: (C[k] if k in S.DIM4 else (0 if k in S.SCALARS else x.zeros((3,) * len(S.PORTS[k])) if x.mode == "num" else tens.T(len(S.PORTS[k]), {})))
         for k in C}
    if x.mode == "num":
        x.scale = 1.0
    with x.lib():
        b0 = beta.beta(Z)
        full = beta.beta(C)
    bs = None
    with x.lib():
        if x.mode == "num":
            bs = beta.beta(Z, newphys=False)
    for k in S.WCS:
        x.eq(f"beta[{k}] of the SM", b0[k], 0 if k in S.SCALARS else Z[k])
    if bs is not None:
        x.eq("newphys=False", dict(bs), dict(b0))
        bf = beta.beta(C, newphys=False)
        for k in S.DIM4:
            x.eq(f"dimension-4 running is the same with newphys=False: {k}", bf[k], full[k])
        for k in S.WCS:
            x.eq(f"coefficients frozen: {k}", bf[k], Z[k])
    x.eq("beta(g)", b0["g"], -19 / 6 * C["g"] ** 3)
    x.eq("beta(gp)", b0["gp"], 41 / 6 * C["gp"] ** 3)
    x.eq("beta(gs)", b0["gs"], -7 * C["gs"] ** 3)


@obligation("P19", "history independence and frame of the beta functions", [B + "beta", B + "beta_array", B + "my_einsum"],
            bounded="concrete runs (two evaluation points, nearby points, repeated calls)", samples=2, fallback=3)
def _(x):
    x.clauses += 1
    if x.mode != "num":
        return
    x.scale = 1e-6
    C = S.tensors(x, sym=False)
    keep = _cp(C)
    first = {k: np.array(v) for k, v in beta.beta(C).items()}
    x.eq("argument unchanged", C, keep)
    near = {k: v * (1 + 1e-5) for k, v in C.items()}
    n1 = {k: np.array(v) for k, v in beta.beta(near).items()}
    arr = np.array(beta.beta_array(C))
    x.eq("array form", smeftutil.C_array2dict(arr), first)
    b = beta.beta(C)
    for k in b:
        try:
            if isinstance(b[k], np.ndarray):
                b[k] = b[k] * 0
                b[k][...] = 7
        except Exception:
            pass
    x.eq("same point again", {k: np.array(v) for k, v in beta.beta(C).items()}, first)
    if hasattr(beta, "_cached_einsum") and hasattr(beta._cached_einsum, "cache_clear"):
        beta._cached_einsum.cache_clear()
    x.eq("nearby point without history", {k: np.array(v) for k, v in beta.beta(near).items()}, n1)


# ------------------------------------------------------------------ P20
SPECFILE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data", "beta_spec.json")


def spec_terms():
    with open(SPECFILE) as f:
        return json.load(f)


def _poly(x, mono_list, C):
    """[[coef, {scalar: power}]] -> number"""
    tot = 0
    for c, powers in mono_list:
        m = complex(*c) if isinstance(c, list) else c
        for n, e in powers.items():
            v = C[n.rstrip("~")]
            if n.endswith("~"):
                v = spec.conj(v)
            m = m * v ** e
        tot = tot + m
    return tot


def _beta_part(names):
    def f(x):
        C = S.tensors(x, sym=True)
        if x.mode == "num":
            x.scale = 1.0
            _sym8(C)
        with x.lib():
            b = beta.beta(C)
        sp = spec_terms()
        for k in names:
            r = len(S.PORTS.get(k, ()))
            if x.mode == "tens":
                raw = {}
                want = tens.T(r, {})
                for key, mono in sp[k]:
                    ops, subs = [], []
                    want = want + _term(x, key, r, C) * _poly(x, mono, C) if r or key else want + _poly(x, mono, C)
                x.eq(f"beta[{k}]", b[k], want)
            else:
                want = 0
                for key, mono in sp[k]:
                    want = want + _poly(x, mono, C) * _term(x, key, r, C)
                x.eq(f"beta[{k}]", b[k], want)
    return f


def _term(x, key, r, C):
    """[[name, conj, indices]] -> tensor (open indices -1, -2, ...)"""
    if not key:
        return 1
    mp, ins, ops = {}, [], []
    L = lambda i: mp.setdefault(i, "abcdefghijklmnopqrstuvwxyz"[len(mp)])
    out = "".join(L(-1 - i) for i in range(r))
    for n, c, ix in key:
        a = (np.eye(3) if x.mode == "num" else tens.T.delta()) if n == "δ" else C[n]
        ops.append(a.conj() if c else a)
        ins.append("".join(L(i) for i in ix))
    s = ",".join(ins) + "->" + out
    return np.einsum(s, *ops, optimize="greedy") if x.mode == "num" else x.einsum(s, *ops)


_all = S.DIM4 + S.WCS
for _i in range(8):
    obligation("P20", f"beta functions equal the pinned renormalisation group equations, part {_i}", [B + "beta"],
               engine="tensor", cost=3, fallback=3)(_beta_part(_all[_i::8]))
obligation("P20", "numerical reference tables of the published equations", [B + "beta"],
           bounded="one reference point (run/smeft/tests/data)", samples=1, fallback=1)(lambda x: _reference(x))


def _reference(x):
    x.clauses += 1
    if x.mode != "num":
        return
    from .. import boot
    d = os.path.join(os.path.dirname(SPECFILE), "dsixtools_ref.json")
    ref = json.load(open(d))
    rpar, rC = ref["par"], ref["wc"]
    C = {}
    C["g"], C["gp"], C["gs"], C["Lambda"], C["m2"] = rpar[:5]
    for i, n in enumerate(("Gu", "Gd", "Ge")):
        C[n] = np.array(rpar[5 + 2 * i]) + 1j * np.array(rpar[6 + 2 * i])
    rank = {0: 0, 2: 1, 4: 2}
    order = ref["order"]
    for r in (0, 2, 4):
        for n, v in zip(order[str(r)], rC[rank[r]]):
            C[n] = np.array(v) if r else v
    b = beta.beta(C, 1000)
    for r in (0, 2, 4):
        for i, n in enumerate(order[str(r)]):
            re_, im_ = np.array(ref["re"][rank[r]][i]), np.array(ref["im"][rank[r]][i]) if r else 0
            want = re_ + 1j * im_
            if not r:       # the random point is not hermitian: only the real part is tabulated
                b[n] = np.real(b[n])
            x.true(f"reference {n}", np.max(np.abs(b[n] - want)) <= 1e-3 * np.max(np.abs(want)),
                   np.max(np.abs(b[n] - want)) / np.max(np.abs(want)))


# ------------------------------------------------------------------ P21
def _project(x, b):
    """the flavour relations of the two coefficients whose beta function is only given up to vanishing operators"""
    b = dict(b)
    e = lambda k, s: x.einsum(s + "->prst", b[k])
    b["ee"] = (e("ee", "prst") + e("ee", "srpt") + e("ee", "ptsr") + e("ee", "stpr")) * 0.25
    q = lambda s: x.einsum(s + "l->prsl", b["qqql"])
    b["qqql"] = (4 * q("prs") - q("psr") - q("rps") + _e(x, b["qqql"], (1, 2, 0, 3)) + _e(x, b["qqql"], (2, 0, 1, 3)) + 2 * q("srp")) * (1 / 6)
    return b


def _e(x, v, axes):
    """numpy's transpose(v, axes)"""
    L = "abcd"
    return x.einsum(L + "->" + "".join(L[i] for i in axes), v)


def _betastub(x, rec):
    def stub(C, HIGHSCALE=1, newphys=True):
        rec.append((dict(C), newphys))
        tag = f"b{len(rec)}:"
        return S.tensors(x, sym=False, pre=tag)
    return stub


@obligation("P21", "leading-log formula", [R + "smeft_evolve_leadinglog"], engine="tensor")
def _(x):
    C = S.tensors(x, sym=False)
    if x.mode == "num":
        x.scale = 1.0
    a, b = x.real("scale_in", pos=True, lo=200, hi=2000), x.real("scale_out", pos=True, lo=100, hi=5000)
    keep = _cp(C)
    for newphys in (True, False):
        rec = []
        with x.lib(stubs={beta.beta: _betastub(x, rec)}):
            out = rge.smeft_evolve_leadinglog(C, a, b) if newphys else rge.smeft_evolve_leadinglog(C, a, b, newphys=False)
        if x.mode == "num":
            be = beta.beta(C, newphys=newphys)
            L = np.log(b / a)
        else:
            x.true("beta evaluated once, at the input point", len(rec) == 1 and rec[0][1] is newphys)
            x.eq("beta argument", rec[0][0], keep)
            be = S.tensors(x, sym=False, pre="b1:")
            L = b.log() - a.log()
        be = _project(x, be)
        x.eq("C_out", dict(out), {k: C[k] + be[k] * (L / (16 * pi ** 2)) for k in C})
        x.eq("C_in unchanged", C, keep)


def _ode(x, newphys, kw, judge):
    """smeft_evolve with solve_ivp replaced by its contract; judge(rec) gets everything handed to it"""
    import scipy.integrate
    C, Y, Z = S.tensors(x, sym=False), S.tensors(x, sym=False, pre="y:"), S.tensors(x, sym=False, pre="z:")
    a, b = x.real("scale_in", pos=True, lo=200, hi=2000), x.real("scale_out", pos=True, lo=100, hi=5000)
    rec = {"C": C, "Y": Y, "Z": Z, "a": a, "b": b, "newphys": newphys, "beta": []}
    args = {} if newphys else {"newphys": False}
    if x.mode == "num":
        x.scale = 1.0
        orig = rge.solve_ivp

        def stub(fun, t_span, y0, **k):
            rec.update(y0=smeftutil.C_array2dict(np.array(y0).view(complex)), span=t_span, kw=k)
            y = smeftutil.C_dict2array(Y).view(float)
            rec["r"] = smeftutil.C_array2dict(np.array(fun(0.3, y)).view(complex))
            s = type("Sol", (), {})()
            z = smeftutil.C_dict2array(Z).view(float)
            s.y = np.vstack([y0, z * 0 + 9, z]).T
            s.success, s.status, s.message, s.t = True, 0, "", np.array([t_span[0], 1., t_span[1]])
            return s
        rge.solve_ivp = stub
        try:
            rec["out"] = rge.smeft_evolve(C, a, b, **args, **kw)
        finally:
            rge.solve_ivp = orig
        rec["be"] = _project(x, beta.beta(Y, newphys=newphys))
        rec["L"] = (np.log(a), np.log(b))
        return judge(rec)

    class Flat:
        def __init__(self, d):
            self.d = d

        def view(self, t):
            return self

        def __truediv__(self, o):
            return Flat({k: v / o for k, v in self.d.items()})

        def __mul__(self, o):
            return Flat({k: v * o for k, v in self.d.items()})
        __rmul__ = __mul__

    def solve(fun, t_span, y0, **k):
        rec.update(y0=y0.d, span=t_span, kw=k)
        rec["r"] = fun(x.real("t", pos=True), Flat(dict(Y))).d
        s = type("Sol", (), {})()

        class M:
            def __getitem__(self, i):
                if isinstance(i, tuple) and len(i) == 2 and i[0] == slice(None) and i[1] == -1:
                    return Flat(Z)
                raise TypeError("only the final column of the solution is under contract")
        s.y = M()
        return s
    old = smeftutil.C_array2dict, smeftutil.C_dict2array
    stubs = {scipy.integrate.solve_ivp: solve, beta.beta: _betastub(x, rec["beta"]),
             old[0]: lambda C: dict(C.d), old[1]: lambda C: Flat({k: C[k] for k in smeftutil.C_keys})}
    # smeftutil re-exports lazily: the two converters are module attributes
    su = smeftutil
    had = {k: vars(su)[k] for k in ("C_array2dict", "C_dict2array") if k in vars(su)}
    su.C_array2dict, su.C_dict2array = stubs[old[0]], stubs[old[1]]
    try:
        with x.lib(stubs=stubs):
            rec["out"] = rge.smeft_evolve(C, a, b, **args, **kw)
    finally:
        del su.C_array2dict, su.C_dict2array
        for k, v in had.items():
            setattr(su, k, v)
    x.true("one evaluation of beta per call", len(rec["beta"]) == 1 and rec["beta"][0][1] is newphys)
    x.eq("beta evaluated at the current point", rec["beta"][0][0], Y)
    rec["be"] = _project(x, S.tensors(x, sym=False, pre="b1:"))
    rec["L"] = (a.log(), b.log())
    judge(rec)


def _judge_ode(x, kw):
    def j(r):
        x.eq("initial value", r["y0"], r["C"])
        x.eq("integration interval", list(r["span"]), list(r["L"]))
        x.eq("right-hand side", r["r"], {k: v * (1 / (16 * pi ** 2)) for k, v in r["be"].items()})
        x.eq("result is the solution at the final scale", dict(r["out"]), r["Z"])
        for k, v in kw.items():
            x.true(f"solver option {k} handed on", r["kw"].get(k) == v, r["kw"])
    return j


for _np, _kwargs in ((True, {}), (False, {"rtol": 1e-3, "atol": 1}), (True, {"rtol": 1e-5, "method": "Radau"})):
    obligation("P21", f"initial value problem handed to the ODE solver newphys={_np} {_kwargs}",
               [R + "smeft_evolve", R + "_smeft_evolve"], engine="tensor",
               assumptions=["scipy.integrate.solve_ivp returns the solution of the initial value problem it is given"])(
        lambda x, _np=_np, _kwargs=_kwargs: _ode(x, _np, _kwargs, _judge_ode(x, _kwargs)))


def _continuous(x):
    x.clauses += 1
    if x.mode != "num":
        return
    x.scale = 1.0
    C = S.tensors(x, sym=True)
    Z = S.tensors(x, sym=True, pre="z:")
    for c in (C, Z):
        _sym8(c)
    orig = rge.solve_ivp
    for a, b in ((1000., 300.), (300., 1000.), (1234.567, 60.789)):
        z = smeftutil.C_dict2array(Z).view(float)

        def stub(fun, t_span, y0, dense_output=False, **k):
            x.true("dense output requested", dense_output is True)
            x.eq("span", list(t_span), [np.log(a), np.log(b)])
            s = type("Sol", (), {})()
            if dense_output:
                s.sol = lambda t: y0 + z * (t - t_span[0])
            s.y = np.vstack([y0, z]).T
            return s
        rge.solve_ivp = stub
        try:
            sm = SMEFT(None)
            sm._set_initial(C, a)
            sol = sm.run_continuous(b)
            x.true("range", sol.scale_min == min(a, b) and sol.scale_max == max(a, b), (sol.scale_min, sol.scale_max))
            for mu in (a, b, 500., 512.3456789, (a * b) ** .5, 999):
                want = {k: C[k] + Z[k] * (np.log(mu) - np.log(a)) for k in C}
                got = sol.fun(mu)
                wc = sm._to_wcxf(want, mu).dict
                x.eq(f"values at {mu}", {k: got.get(k, "missing") for k in smeftutil.all_wcs},
                     {k: wc.get(k, 0) for k in smeftutil.all_wcs})
                x.eq(f"SM parameters at {mu}", {k: got.get(k, "missing") for k in ("g", "gp", "gs", "Lambda", "m2")},
                     {k: want[k] for k in ("g", "gp", "gs", "Lambda", "m2")})
            xs, ys = sol.plotdata("phiq1_23", part="re", scale="linear", steps=5)
            x.eq("plot abscissa", np.array(xs), np.linspace(min(a, b), max(a, b), 5))
            for xx, yy in zip(xs, ys):
                x.eq("plot ordinate", yy, sm._to_wcxf({k: C[k] + Z[k] * (np.log(xx) - np.log(a)) for k in C}, xx)["phiq1_23"].real)
            xs, ys = sol.plotdata("lq1_1123", part="im", steps=4)
            for xx, yy in zip(xs, ys):
                x.eq("plot ordinate", yy, sm._to_wcxf({k: C[k] + Z[k] * (np.log(xx) - np.log(a)) for k in C}, xx)["lq1_1123"].imag)
            x.raises("equal scales", ValueError, sm.run_continuous, a)
        finally:
            rge.solve_ivp = orig


for _p in ("P21", "P42"):
    obligation(_p, "continuous solution" if _p == "P21" else "SMEFT solution at any scale", [R + "smeft_evolve_continuous", K + "run_continuous"],
               bounded="concrete runs, interpolation object of solve_ivp replaced by a straight line in log(scale)", samples=2, fallback=2)(_continuous)


@obligation("P21", "evolution between any two scales, coefficients of any size", [R + "smeft_evolve", R + "smeft_evolve_leadinglog", R + "smeft_evolve_continuous"],
            bounded="eleven pairs of scales from 1 GeV to 1e17 GeV; coefficients of three sizes; solve_ivp replaced by its contract", samples=1, fallback=1)
def _(x):
    x.clauses += 1
    if x.mode != "num":
        return
    base = S.tensors(x, sym=True)
    fin = S.tensors(x, sym=True, pre="z:")
    for c in (base, fin):
        _sym8(c)
    orig = rge.solve_ivp
    for n, (a, b) in enumerate(((1e3, 91.1876), (91.1876, 1e3), (1e3, 2.), (5., 80.), (1e16, 91.2), (160., 1e17), (1e3, 900.), (1000, 1001.5), (3000, 30), (1.5, 1.2), (246.22, 173.1))):
        size = (1, 1e-12, 1e-40)[n % 3]
        C = {k: v * (size if k in S.WCS else 1) for k, v in base.items()}
        Z = {k: v * (size if k in S.WCS else 1) for k, v in fin.items()}
        keep = {k: np.array(v) for k, v in C.items()}
        rec = {}

        def stub(fun, t_span, y0, **k):
            rec.update(span=t_span, y0=smeftutil.C_array2dict(np.array(y0).view(complex)), kw=k)
            z = smeftutil.C_dict2array(Z).view(float)
            s = type("Sol", (), {})()
            s.y = np.vstack([y0, z * 0 + 9, z]).T
            s.success, s.status, s.message, s.t = True, 0, "", np.array([t_span[0], 1., t_span[1]])
            s.sol = lambda t: z
            return s
        norm = lambda d: {k: np.asarray(v) / (size if k in S.WCS else 1) for k, v in d.items()}
        rge.solve_ivp = stub
        try:
            for how in ("end", "continuous"):
                rec.clear()
                kw = {"rtol": 1e-7, "max_step": .5}
                if how == "end":
                    out = rge.smeft_evolve(C, a, b, **kw)
                    x.eq(f"{a}->{b} result is the solution at the final scale", norm(out), norm(Z))
                else:
                    f = rge.smeft_evolve_continuous(C, a, b, **kw)
                    x.true("dense output", rec["kw"].get("dense_output") is True)
                    got = f(float(a * b) ** .5)
                    d = smeftutil.arrays2wcxf_nonred(Z)
                    x.true(f"{a}->{b} every coefficient of the interpolated solution", all(abs(got[k] - d.get(k, 0)) <= 1e-12 * abs(d.get(k, 0)) for k in smeftutil.all_wcs))
                x.eq(f"{a}->{b} {how} interval", list(rec["span"]), [np.log(a), np.log(b)])
                x.eq(f"{a}->{b} {how} initial value", norm(rec["y0"]), norm(C))
                x.true(f"{how}: solver options handed on", all(rec["kw"].get(k) == v for k, v in kw.items()), rec["kw"])
        finally:
            rge.solve_ivp = orig
        out = rge.smeft_evolve_leadinglog(C, a, b)
        be = _project(x, beta.beta({k: np.array(v) for k, v in C.items()}))
        L = np.log(b) - np.log(a)
        x.eq(f"{a}->{b} leading logarithm", norm(out), {k: norm(C)[k] + norm(be)[k] * (L / (16 * pi ** 2)) for k in C})
        x.true(f"{a}->{b} input left alone", all(np.array_equal(C[k], keep[k]) for k in keep))


@obligation("P21", "run: method selection, scales, initial values", [K + "__init__", K + "_set_initial_wcxf", K + "run", K + "_rgevolve", K + "_rgevolve_leadinglog"],
            fork=True, generic_eq=True)
def _(x):
    vals = {"phiq1_23": x.cplx("a"), "lq1_1123": x.cplx("b"), "G": x.real("g"), "qqql_1231": x.cplx("c")}
    d = {k: v for k, v in vals.items()}
    sc = x.real("scale_in", pos=True, lo=200, hi=2000)
    out = x.real("scale_out", pos=True, lo=100, hi=5000)
    wc = wcxf.WC("SMEFT", "Warsaw", sc, wcxf.WC.dict2values(d))
    sm = SMEFT(wc, get_smpar=False)
    x.eq("input scale", sm.scale_in, sc)
    want = smeftutil.wcxf2arrays_symmetrized(vals)
    for n in S.WCS:
        r = len(S.PORTS.get(n, ()))
        x.eq(f"initial value {n}", sm.C_in[n], want[n] if n in want else (0 if r == 0 else x.zeros((3,) * r)))
    x.true("no SM parameters invented", not set(S.DIM4) & set(sm.C_in))
    calls = []
    o1, o2, o3 = rge.smeft_evolve, rge.smeft_evolve_leadinglog, SMEFT._to_wcxf
    tok = {}

    def f1(C_in, scale_in, scale_out, *a, **k):
        calls.append(("integrate", C_in, scale_in, scale_out, k))
        return tok

    def f2(C_in, scale_in, scale_out, *a, **k):
        calls.append(("leadinglog", C_in, scale_in, scale_out, k))
        return tok
    rge.smeft_evolve, rge.smeft_evolve_leadinglog = f1, f2
    SMEFT._to_wcxf = lambda self, C, s: ("wc", C is tok, s)
    try:
        for args, kind, kw in (({}, "integrate", {}), ({"accuracy": "integrate", "rtol": 0.5}, "integrate", {"rtol": 0.5}),
                               ({"accuracy": "leadinglog"}, "leadinglog", {})):
            del calls[:]
            r = sm.run(out, **args)
            x.true(f"{args}: one evolution", len(calls) == 1 and calls[0][0] == kind and calls[0][4] == kw, [(c[0], c[4]) for c in calls])
            x.true(f"{args}: initial values", calls[0][1] is sm.C_in or set(calls[0][1]) == set(sm.C_in))
            x.eq(f"{args}: scales", list(calls[0][2:4]), [sc, out])
            x.true(f"{args}: converted result", r[0] == "wc" and r[1] is True)
            x.eq(f"{args}: scale of the result", r[2], out)
        for bad in ("exact", "", "Leadinglog", None):
            x.raises(f"accuracy {bad!r}", ValueError, sm.run, out, accuracy=bad)
            x.raises(f"get_smpar accuracy {bad!r}", ValueError, sm.get_smpar, accuracy=bad)
    finally:
        rge.smeft_evolve, rge.smeft_evolve_leadinglog, SMEFT._to_wcxf = o1, o2, o3
    x.raises("wrong EFT", ValueError, SMEFT, wcxf.WC("WET", "JMS", 80, {}), get_smpar=False)
    x.raises("wrong basis", ValueError, SMEFT, wcxf.WC("SMEFT", "Warsaw up", 1000, {}), get_smpar=False)
    x.raises("no initial condition", Exception, SMEFT(None).run, 100)


# ------------------------------------------------------------------ P22
VEV = 246.22


def _fromsvd(x, C, L, D, R, v=VEV):
    """fix the Yukawa matrices such that the mass matrices are L D R^dagger"""
    C = dict(C)
    for G, phi, s in (("Gu", "uphi", "u"), ("Gd", "dphi", "d"), ("Ge", "ephi", "e")):
        m = x.einsum("ab,bc,dc->ad", L[s], D[s], R[s].conj())
        C[G] = m * (2 ** 0.5 / v) + C[phi] * (v ** 2 / 2)
    return C


@obligation("P22", "output basis: rotation and diagonal masses", [K + "_rotate_defaultbasis"], engine="tensor", profiles=("parts", "imag", "real", "neg", "tiny"),
            assumptions=["ckmutil.diag.msvd, mtakfac: singular value / Takagi decompositions", "ckmutil.phases.rephase_*: rephasing by diagonal unitary matrices to the standard phase convention"])
def _(x):
    import ckmutil.diag, ckmutil.phases
    f = x.need(SMEFT, "_rotate_defaultbasis")
    C = S.tensors(x, sym=True)
    if x.mode == "num":
        _sym8(C)
        x.scale = 1.0
        for k in C:
            if k in S.WCS:
                C[k] = C[k] * 1e-5
        got = f(C)
        M = lambda c, G, phi: VEV / 2 ** .5 * (c[G] - c[phi] * VEV ** 2 / 2)
        out = {"e": M(got, "Ge", "ephi"), "d": M(got, "Gd", "dphi"), "u": M(got, "Gu", "uphi")}
        for s in "ed":
            x.eq(f"mass matrix {s} diagonal", out[s], np.diag(np.linalg.svd(M(C, {"e": "Ge", "d": "Gd"}[s], {"e": "ephi", "d": "dphi"}[s]))[1][::-1]))
        mu = np.linalg.svd(M(C, "Gu", "uphi"))[1][::-1]
        K = (out["u"] / mu).conj().T
        x.eq("CKM unitary", K @ K.conj().T, np.eye(3))
        import ckmutil.phases, ckmutil.ckm
        par = ckmutil.phases.mixing_phases(K)
        x.eq("CKM standard phases", ckmutil.ckm.ckm_standard(**{a: b for a, b in par.items() if a in ("t12", "t13", "t23", "delta")}), K)
        # lepton mixing: the rephasing of the neutrinos' Takagi matrix leaves the charged leptons alone
        import ckmutil.diag
        for q in (got, f({**C, "llphiphi": C["llphiphi"] * np.exp(.7j)}), f({**C, "llphiphi": -C["llphiphi"]})):
            Un = ckmutil.diag.mtakfac(-VEV ** 2 * q["llphiphi"])[0]
            ph = ckmutil.phases.rephase_pmns_standard(Un, np.eye(3), np.eye(3))[1] ** 2
            x.true("PMNS standard phases", np.allclose(ph, np.eye(3), rtol=0, atol=1e-4), ph)
            x.eq("charged leptons diagonal", M(q, "Ge", "ephi"), np.diag(np.diag(M(q, "Ge", "ephi")).real))
        # the coefficients are carried along by the same rotation: basis independent combinations
        for k in ("phiq1", "phiq3", "phil1", "phie", "phid", "phiu"):
            x.eq(f"spectrum of {k}", np.linalg.eigvalsh(got[k]) * 1e5, np.linalg.eigvalsh(C[k]) * 1e5)
        inv = lambda c: [np.trace(c["phiq1"] @ c["Gd"] @ c["Gd"].conj().T), np.trace(c["phiq1"] @ c["Gu"] @ c["Gu"].conj().T),
                         np.trace(c["phiud"].conj().T @ c["Gu"].conj().T @ c["Gd"]), np.trace(c["phil3"] @ c["Ge"] @ c["phie"] @ c["Ge"].conj().T) * 1e5,
                         np.einsum("prst,ts,rp", c["qd1"], c["Gd"].conj().T @ c["Gd"], c["Gd"] @ c["Gd"].conj().T),
                         np.einsum("prst,pr,st", c["quqd1"], c["Gu"].conj(), c["Gd"].conj()), np.einsum("prst,pr,st", c["lequ1"], c["Ge"].conj(), c["Gu"].conj()),
                         np.einsum("prst,pr,ts", c["ledq"], c["Ge"].conj(), c["Gd"])]
        x.eq("flavour invariants", [1e3 * i for i in inv(got)], [1e3 * i for i in inv(C)])
        return
    L = {s: x.tensor(f"L{s}", 2, unitary=True) for s in "ude"}
    Rr = {s: x.tensor(f"R{s}", 2, unitary=True) for s in "ude"}
    D = {s: x.tensor(f"D{s}", 2, symm=[((0, 1), False, 1), ((0, 1), True, 1), ((1, 0), False, 1), ((1, 0), True, 1)]) for s in "ude"}
    C = _fromsvd(x, C, L, D, Rr)
    m = {s: x.einsum("ab,bc,dc->ad", L[s], D[s], Rr[s].conj()) for s in "ude"}
    tok = {s: (x.tensor(f"L0{s}", 2, unitary=True), ("sv", s), x.tensor(f"R0{s}", 2, unitary=True)) for s in "ude"}
    nu = x.tensor("Lnu0", 2, unitary=True)

    def same(a, b):
        sub = tens.TensProvider.__new__(tens.TensProvider)
        Provider_init(sub)
        sub.eq("", a, b)
        return not sub.fails

    from ..harness import Provider
    Provider_init = Provider.__init__

    def msvd(M):
        for s in "ude":
            if same(M, m[s]):
                return tok[s]
        raise AssertionError("singular value decomposition of a matrix that is not a running mass matrix")

    def mtakfac(M):
        x.eq("neutrino mass matrix", M, C["llphiphi"] * (-VEV ** 2))
        return nu, ("sv", "nu")

    def rs(UuL, UdL, UuR, UdR):
        x.eq("quark rephasing arguments", [UuL, UdL, UuR, UdR], [tok["u"][0], tok["d"][0], tok["u"][2], tok["d"][2]])
        return L["u"], L["d"], Rr["u"], Rr["d"]

    def rp(Unu, UeL, UeR):
        x.eq("lepton rephasing arguments", [Unu, UeL, UeR], [nu, tok["e"][0], tok["e"][2]])
        return x.tensor("Lnu", 2, unitary=True), L["e"], Rr["e"]
    with x.lib(stubs={ckmutil.diag.msvd: msvd, ckmutil.diag.mtakfac: mtakfac, ckmutil.phases.rephase_standard: rs,
                      ckmutil.phases.rephase_pmns_standard: rp}):
        got = f(C)
    want = S.rotate(x, C, {"q": L["d"], "u": Rr["u"], "d": Rr["d"], "l": L["e"], "e": Rr["e"]})
    x.eq("rotated parameters and coefficients", dict(got), want)
    M = lambda G, phi: got[G] * (VEV / 2 ** .5) - got[phi] * (VEV ** 3 / 2 ** 1.5)
    x.eq("charged lepton masses diagonal", M("Ge", "ephi"), D["e"])
    x.eq("down quark masses diagonal", M("Gd", "dphi"), D["d"])
    x.eq("up quark mass matrix V^dagger S", M("Gu", "uphi"), x.einsum("ba,bc,cd->ad", L["d"].conj(), L["u"], D["u"]))


@obligation("P22", "conversion of a run result", [K + "_to_wcxf"], fork=True, generic_eq=True)
def _(x):
    f = x.need(SMEFT, "_to_wcxf")
    C = {}
    for n in S.DIM4 + S.WCS:
        r = 2 if n in ("Gu", "Gd", "Ge") else len(S.PORTS.get(n, ()))
        C[n] = x.real(n) if r == 0 else x.carr(n, (3,) * r)
    sc = x.real("scale", pos=True, lo=100, hi=1000)
    seen = []
    old = SMEFT._rotate_defaultbasis

    def rot(c):
        seen.append(c)
        return {k: v * 2 for k, v in c.items()}
    SMEFT._rotate_defaultbasis = staticmethod(rot)
    try:
        wc = f(SMEFT(None), C, sc)
    finally:
        SMEFT._rotate_defaultbasis = staticmethod(old)
    x.true("rotated once", len(seen) == 1)
    x.eq("EFT, basis", [wc.eft, wc.basis], ["SMEFT", "Warsaw"])
    x.eq("scale", wc.scale, sc)
    x.eq("values", wc.dict, smeftutil.arrays2wcxf_nonred({k: v * 2 for k, v in C.items()}), absent=0)
    if x.mode == "num":
        # coefficients of any size
        SMEFT._rotate_defaultbasis = staticmethod(lambda c: c)
        try:
            for size in (1e-15, 1e-28, 1e-45):
                D = {k: v * (size if k in S.WCS else 1) for k, v in C.items()}
                got, want = f(SMEFT(None), D, sc).dict, smeftutil.arrays2wcxf_nonred(D)
                x.true(f"values of size {size}", {k: v for k, v in got.items() if v != 0} == {k: v for k, v in want.items() if v != 0})
        finally:
            SMEFT._rotate_defaultbasis = staticmethod(old)


# ------------------------------------------------------------------ P23
def _higgsC(x):
    return {k: x.cplx("C" + k) for k in ("phi", "phiBox", "phiD")}


def _re(v):
    return v.real


@obligation("P23", "potential parameters from vev and mass, and back", [SP + "m2Lambda_to_vMh2", SP + "vMh2_to_m2Lambda"], fork=True, samples=8)
def _(x):
    C = {k: x.real("C" + k, lo=-0.3, hi=0.3) for k in ("phi", "phiBox", "phiD")}
    v, M = x.real("v", pos=True, lo=0.1, hi=1.2), x.real("Mh2", pos=True, lo=0.1, hi=3)
    ckin = C["phiBox"] - C["phiD"] / 4
    if abs_small(x, C["phi"]):
        C["phi"] = 0      # |Cphi| below the numerical threshold is treated as zero
    x.assume(1 - 2 * ckin * v ** 2, ">")
    try:
        r = smpar.vMh2_to_m2Lambda(v, M, C)
    except ValueError:
        return x.true("positive vev and mass accepted", False)
    if x.mode == "sym":
        from ..sym import num as N
        # lemma: the argument of the root is a perfect square, and Lambda - 3 Cphi v^2 > 0
        h = M / v ** 2 * (1 - 2 * ckin * v ** 2)
        N.SQRT_HINTS[:] = [h, v]
        N.CMP_HINTS[:] = [h * h, v ** 2, M]
    try:
        back = smpar.m2Lambda_to_vMh2(r["m2"], r["Lambda"], C)
    except ValueError as e:
        return x.true("solution found", False, e)
    x.eq("vev", back["v"], v)
    x.eq("Higgs mass", back["Mh2"], M)


def abs_small(x, c):
    return (c < 1e-16 and c > -1e-16) if x.mode == "sym" else abs(c) < 1e-16


@obligation("P23", "vev and mass from potential parameters, and back", [SP + "m2Lambda_to_vMh2", SP + "vMh2_to_m2Lambda"], fork=True, samples=8)
def _(x):
    C = {k: x.real("C" + k, lo=-0.2, hi=0.2) for k in ("phi", "phiBox", "phiD")}
    m2, L = x.real("m2", pos=True, lo=0.01, hi=0.3), x.real("Lambda", pos=True, lo=1.0, hi=2)
    if abs_small(x, C["phi"]):
        C["phi"] = 0
    try:
        r = smpar.m2Lambda_to_vMh2(m2, L, C)
    except ValueError:
        return
    back = smpar.vMh2_to_m2Lambda(r["v"], r["Mh2"], C)
    x.eq("Lambda", back["Lambda"], L)
    x.eq("m2", back["m2"], m2)


@obligation("P23", "unphysical potentials are rejected", [SP + "m2Lambda_to_vMh2", SP + "vMh2_to_m2Lambda"], fork=True, samples=8)
def _(x):
    C = {k: x.real("C" + k, lo=-3, hi=3) for k in ("phi", "phiBox", "phiD")}
    m2, L = x.real("m2", lo=-2, hi=2), x.real("Lambda", lo=-2, hi=2)
    if x.mode == "num":
        try:
            r = smpar.m2Lambda_to_vMh2(m2, L, C)
        except ValueError:
            r = None
        ck = C["phiBox"] - C["phiD"] / 4
        if L ** 2 - 12 * C["phi"] * m2 < 0:
            x.true("negative discriminant rejected", r is None, r)
        if r is not None:
            x.true("positive", r["v"] > 0 and r["Mh2"] > 0, r)
    v, M = x.real("v", lo=-2, hi=2), x.real("Mh2", lo=-2, hi=2)
    if v > 0 and M > 0:
        x.true("accepted", set(smpar.vMh2_to_m2Lambda(v, M, C)) == {"m2", "Lambda"})
    else:
        x.raises("not positive", ValueError, smpar.vMh2_to_m2Lambda, v, M, C)


def _smparC(x, small):
    C = {}
    for k in ("phi", "phiBox", "phiD", "phiG", "phiW", "phiB", "phiWB"):
        C[k] = x.real("C" + k, lo=-small, hi=small)
    for k in ("dphi", "uphi", "ephi"):
        C[k] = x.carr("C" + k, (3, 3))
    C["llphiphi"] = x.carr("Cnu", (3, 3))
    if x.mode == "num":
        for k in ("dphi", "uphi", "ephi", "llphiphi"):
            C[k] = C[k] * small
        C["llphiphi"] = C["llphiphi"] + C["llphiphi"].T
    return C


def _roundtrip(x, basis):
    import ckmutil.diag, ckmutil.ckm, scipy.optimize
    p = smpar.p
    small = 1e-8 if x.mode == "num" else None
    if x.mode == "sym":
        small = 1e-7
    C = _smparC(x, small)
    keep = dict(C)
    if x.mode == "sym" and abs_small(x, C["phi"]):
        C["phi"] = 0
    if x.mode == "sym" and C["phiWB"] == 0:
        C["phiWB"] = as_num(0)
    want = {k: p[k] for k in p if k != "m_Z"}
    if x.mode == "num":
        masses = [k for k in want if k[:2] == "m_" and k not in ("m_W", "m_h")] + ["Vus", "Vub", "Vcb", "gamma"]
        saved = dict(p)
        # the larger size makes terms of second order in the coefficients visible; other input parameters; a hypercharge coupling above one
        for factor, own in ((1, {}), (50, {}), (1, {"gamma": -0.9, "alpha_e": 0.009, "m_W": 78.0, "m_t": 150.0, "m_c": 0.9, "GF": 1.2e-5}), (1, {"phiWB": 1.63e-5})):
            E = {k: (v * factor if np.ndim(v) == 0 else v) for k, v in C.items()}
            E.update({k: v for k, v in own.items() if k in E})
            D = dict(E)
            try:
                p.update({k: v for k, v in own.items() if k in p})
                want = {k: p[k] for k in p if k != "m_Z"}
                K = ckmutil.ckm.ckm_tree(p["Vus"], p["Vub"], p["Vcb"], p["gamma"])     # (for some angles not exactly that of its argument)
                want["gamma"] = cmath.phase(-K[0, 0] * K[0, 2].conj() / (K[1, 0] * K[1, 2].conj()))
                D.update(smpar.smeftpar(91.2, E, basis=basis))
            finally:
                p.clear()
                p.update(saved)
            got = smpar.smpar(D)
            x.rtol = 1e-4     # ckmutil diagonalises M M^dagger: light quark masses lose digits
            x.eq("parameters", {k: got[k] for k in masses}, {k: want[k] for k in masses})
            x.rtol = 1e-8
            x.eq("parameters", {k: got[k] for k in want if k not in masses}, {k: want[k] for k in want if k not in masses})
            x.true("all parameters real", all(isinstance(v, float) or np.isrealobj(v) for v in got.values()))
        return
    from ..sym import num as N
    v2 = 1 / 2 ** 0.5 / p["GF"]
    v = v2 ** 0.5
    M2 = p["m_h"] ** 2
    ckin = C["phiBox"] - C["phiD"] / 4
    h = M2 / v2 * (1 - 2 * ckin * v2)
    x.assume(1 - 2 * ckin * v2, ">")
    N.SQRT_HINTS[:] = [h, as_num(v)]
    N.CMP_HINTS[:] = [h * h, as_num(v2), as_num(M2)]
    K = x.carr("K", (3, 3))
    mass = {"u": [p["m_u"], p["m_c"], p["m_t"]], "d": [p["m_d"], p["m_s"], p["m_b"]], "e": [p["m_e"], p["m_mu"], p["m_tau"]]}
    root, f0 = x.real("gp_root", pos=True), []

    def ckm(Vus, Vub, Vcb, gamma):
        x.eq("CKM input", [Vus, Vub, Vcb, gamma], [p["Vus"], p["Vub"], p["Vcb"], p["gamma"]])
        return K

    def brentq(f, a, b, *r, **k):
        f0.append(f(root))
        return root
    KD = K.conj().T
    one = x.array(np.eye(3).tolist())
    shapes = {"u": (KD if basis == "Warsaw" else one), "d": (one if basis == "Warsaw" else K), "e": one}

    def msvd(M):
        for s, left in shapes.items():
            t = left @ x.array(np.diag(mass[s]).tolist())
            if all(N.is_zero(as_num(M[i]) - as_num(t[i]), scale=1e5) for i in np.ndindex(3, 3)):
                return left, np.array(mass[s]), one
        raise AssertionError("decomposition of a matrix that is not the input mass matrix: %r" % (M.tolist(),))

    def tak(M):
        x.eq("neutrino mass matrix", M, C["llphiphi"] * (-v2))
        return one, np.zeros(3)
    with x.lib(stubs={ckmutil.ckm.ckm_tree: ckm, scipy.optimize.brentq: brentq, ckmutil.diag.msvd: msvd, ckmutil.diag.mtakfac: tak}):
        D = dict(C)
        D.update(smpar.smeftpar(91.2, C, basis=basis))
        got = smpar.smpar(D)
    Vus, Vcb, Vub = N_abs(K[0, 1]), N_abs(K[1, 2]), N_abs(K[0, 2])
    for k in want:
        if k in ("alpha_e", "Vus", "Vub", "Vcb", "gamma"):
            continue
        x.eq(k, got[k], want[k])
    for k, w in (("Vus", Vus), ("Vcb", Vcb), ("Vub", Vub)):
        x.eq(k, got[k], w)
    eb = (4 * pi * p["alpha_e"]) ** 0.5
    if f0:
        # brentq: f0(root) = 0
        x.eq("alpha_e", got["alpha_e"], (f0[-1] + eb) ** 2 / (4 * pi))
    else:
        x.eq("alpha_e", got["alpha_e"], p["alpha_e"])
    w = -K[0, 0] * K[0, 2].conjugate() / (K[1, 0] * K[1, 2].conjugate())
    x.eq("gamma", got["gamma"], Num.fun("angle", w))


def N_abs(v):
    return abs(v)


for _b in ("Warsaw", "Warsaw up"):
    obligation("P23", f"extraction inverts the computation of the parameters: {_b}", [SP + "smeftpar", SP + "smpar", SP + "get_gpbar"], fork=True, samples=3,
               assumptions=["scipy.optimize.brentq returns a root of the function it is given", "ckmutil.ckm.ckm_tree returns a CKM matrix with the given parameters"])(
        lambda x, _b=_b: _roundtrip(x, _b))


@obligation("P23", "no solution for the hypercharge coupling is rejected", [SP + "get_gpbar", SP + "smeftpar"], samples=3,
            assumptions=["scipy.optimize.brentq raises ValueError when the function has the same sign at both ends"], generic_eq=True)
def _(x):
    import scipy.optimize

    def none(f, a, b, *r, **k):
        raise ValueError("f(a) and f(b) must have different signs")
    C = _smparC(x, 1e-8 if x.mode == "num" else 1e-7)
    if x.mode == "sym":
        C["phi"] = as_num(0)
        for b in ("Warsaw", "Warsaw up"):
            with x.lib(stubs={scipy.optimize.brentq: none}):
                x.raises(f"rejected {b}", ValueError, smpar.smeftpar, 91.2, C, b)
    if x.mode == "num":
        D = {k: (0 if np.ndim(v) == 0 else np.zeros((3, 3))) for k, v in C.items()}
        for w in (2e-4, 1e-3, 1.0):
            x.raises(f"mixing {w}", ValueError, smpar.smeftpar, 91.2, dict(D, phiWB=w), "Warsaw")
        x.raises("basis", ValueError, smpar.smeftpar, 91.2, D, "flavio")


@obligation("P23", "masses and couplings follow the published first-order relations", [SP + "smpar"], samples=3,
            assumptions=["published relations: Alonso, Jenkins, Manohar, Trott, arXiv:1312.2014, section 2"])
def _(x):
    import ckmutil.diag
    num = x.mode == "num"
    names = ("c_phiW", "c_phiB", "c_phiWB", "c_phiG", "c_phiD")
    c = {n[2:]: x.real(n, lo=-1e-9, hi=1e-9) for n in names}
    if not num:
        from ..sym import num as N
        N.NILP.update(N.ATOMS.sym(n, True) for n in names)
    g, gp, gs = (x.real(n, pos=True, lo=lo, hi=hi) for n, lo, hi in (("g", .6, .7), ("gp", .3, .4), ("gs", 1, 1.2)))
    m2, Lam = 8528.2, 0.2813
    v2 = 2 * m2 / Lam
    v = v2 ** .5
    C = dict(c, phi=0.0, phiBox=c["phiD"] / 4, g=g, gp=gp, gs=gs, m2=np.float64(m2), Lambda=np.float64(Lam), llphiphi=x.carr("nu", (3, 3)))
    C["llphiphi"] = (C["llphiphi"] + C["llphiphi"].T) * (1e-15 if num else 1)
    for k in ("Gu", "Gd", "Ge", "uphi", "dphi", "ephi"):
        C[k] = x.carr(k, (3, 3)) * ((1e-7 if k[0] != "G" else 1) if num else 1)
    want = {k: v / 2 ** .5 * (C["G" + k] - C[k + "phi"] * v2 / 2) for k in "ude"}
    if num:
        got = smpar.smpar(C)
    else:
        left, nu, seen = {k: x.carr("U" + k, (3, 3)) for k in want}, [], []

        def msvd(M):
            for k, w in want.items():
                if all(N.is_zero(as_num(M[i]) - as_num(w[i]), scale=1e5) for i in np.ndindex(3, 3)):
                    seen.append(k)
                    return left[k], np.array(["ude".index(k) * 10 + q + 1. for q in range(3)]), left[k]
            raise AssertionError("decomposition of a matrix that is not a mass matrix: %r" % (M.tolist(),))

        def tak(M):
            nu.append(M)
            return left["e"], np.zeros(3)
        with x.lib(stubs={ckmutil.diag.msvd: msvd, ckmutil.diag.mtakfac: tak}):
            got = smpar.smpar(C)
        for k, q in (("u", "uct"), ("d", "dsb"), ("e", ("e", "mu", "tau"))):
            x.eq(f"masses {k}", [got["m_" + n] for n in q], ["ude".index(k) * 10 + j + 1. for j in range(3)])
        if nu:
            x.eq("neutrino masses", nu[0], C["llphiphi"] * (-v2))
    if num:
        x.rtol = 1e-6
        for k, q in (("u", "uct"), ("d", "dsb"), ("e", ("e", "mu", "tau"))):
            x.eq(f"masses {k}", [got["m_" + n] for n in q], sorted(np.linalg.svd(want[k])[1]))
    s = g * g + gp * gp
    x.eq("GF", got["GF"], 1 / (2 ** .5 * v2))
    x.eq("m_W", got["m_W"] ** 2, v2 / 4 * g * g * (1 + 2 * c["phiW"] * v2))
    x.eq("alpha_s", got["alpha_s"] * 4 * pi, gs * gs * (1 + 2 * c["phiG"] * v2))
    x.eq("m_h", got["m_h"] ** 2, 2 * m2)
    x.eq("alpha_e", got["alpha_e"] * 4 * pi * s * s, g * g * gp * gp * (s + 2 * v2 * (c["phiW"] * gp * gp + c["phiB"] * g * g - g * gp * c["phiWB"])))
    x.eq("m_Z", got["m_Z"] ** 2, v2 / 4 * (g * g * (1 + 2 * c["phiW"] * v2) + gp * gp * (1 + 2 * c["phiB"] * v2)) + v2 * v2 / 8 * c["phiD"] * s + v2 * v2 / 2 * g * gp * c["phiWB"])


class _Flat:
    """the solution vector: viewed as real or complex numbers it is the same vector"""
    def __init__(self, v):
        self.v = v

    def view(self, t):
        return self.v


def _smeft_solution(x, up):
    """the continuous solution at an arbitrary scale against running to this scale; the ODE solver is a free function of the logarithm of the scale"""
    import scipy.integrate
    from .arrays import sym_dict
    x.scale = 1.0
    mi, m = x.real("mu_in", pos=True, lo=200, hi=2000), x.real("mu", pos=True, lo=100, hi=5000)
    mo = mi * 3 if up else mi / 2
    C = sym_dict(x, "SMEFT")
    keep = _cp(C)
    seen = []
    sym = x.mode == "sym"
    n = sum(int(np.prod(np.shape(v))) if np.shape(v) else 1 for v in C.values())
    z0, z1 = x.carr("z0", (n,)), x.carr("z1", (n,))
    log_ = (lambda s: s.log()) if sym else np.log

    def at(t):
        v = z0 + z1 * t
        return _Flat(v) if sym else np.ascontiguousarray(v).view(float)

    def solve(fun, t_span, y0, dense_output=False, **k):
        seen.append((list(t_span), y0 if sym else np.array(y0).view(complex), dense_output, k))
        s = type("Sol", (), {})()
        if dense_output:
            s.sol = at

        class Y:
            def __getitem__(self, i):
                if isinstance(i, tuple) and len(i) == 2 and i[0] == slice(None) and i[1] == -1:
                    return at(t_span[1])
                raise TypeError("only the final column of the solution is under contract")
        s.y = Y()
        s.success, s.status, s.message = True, 0, ""
        return s

    def rot(D):
        out = {k: v * x.real("r_" + k) for k, v in D.items()}
        out["phid"] = out["phid"] + D["Gd"] * x.real("r_Gd_phid")
        return out
    real = smeftutil.C_dict2array
    su, had, orig = smeftutil, vars(smeftutil).get("C_dict2array"), rge.solve_ivp
    x.need(SMEFT, "_rotate_defaultbasis")
    x.need(rge, "solve_ivp")
    old = SMEFT.__dict__["_rotate_defaultbasis"]
    SMEFT._rotate_defaultbasis = staticmethod(rot)
    rge.solve_ivp = solve
    if sym:
        su.C_dict2array = lambda D: _Flat(real(D))
    try:
        with x.lib(stubs={scipy.integrate.solve_ivp: solve}, always=True):
            sm = SMEFT(None)
            sm._set_initial(C, mi)
            x.raises("nothing to run", ValueError, sm.run_continuous, mi)
            sol = sm.run_continuous(mo)
            x.eq("range", [sol.scale_min, sol.scale_max], [mi, mo] if up else [mo, mi])
            x.true("one initial value problem, to be evaluated anywhere", len(seen) == 1 and seen[0][2] is True)
            got = sol.fun(m)
            x.true("a dictionary per scale", isinstance(got, dict))
            res = sm.run(m)
            x.true("running solves one initial value problem", len(seen) == 2)
            x.eq("same initial values", seen[0][1], seen[1][1])
            x.eq("interval of the continuous solution", seen[0][0], [log_(mi), log_(mo)])
            x.eq("start of the run", seen[1][0], [log_(mi), log_(m)])
            names = smeftutil.all_wcs
            x.true("complete", set(names) <= set(got), [k for k in names if k not in got][:5])
            x.eq("equals run", {k: got[k] for k in names}, {k: res.dict.get(k, 0) for k in names})
            # Standard Model parameters in the default basis
            D = rot(smeftutil.C_array2dict(z0 + z1 * log_(m)))
            sm4 = [k for k in ("g", "gp", "gs", "Lambda", "m2")]
            x.eq("SM parameters", {k: got.get(k, "missing") for k in sm4}, {k: D[k] for k in sm4})
            for k in ("Gu", "Gd", "Ge"):
                x.eq(f"{k}", [got.get(f"{k}_{i + 1}{j + 1}", "missing") for i in range(3) for j in range(3)], [D[k][i, j] for i in range(3) for j in range(3)])
            q = np.empty(2, dtype=object)
            q[:] = [mo, m]
            many = sol.fun(q if sym else q.astype(float))
            x.true("one set per scale", np.shape(many) == (2,))
            x.eq("second of several scales", {k: many[1][k] for k in names}, {k: got[k] for k in names})
            last = sm.run(mo).dict
            x.eq("end of the range", {k: many[0][k] for k in names}, {k: last.get(k, 0) for k in names})
        x.eq("input untouched", dict(sm.C_in), keep)
        x.eq("input scale untouched", sm.scale_in, mi)
    finally:
        SMEFT._rotate_defaultbasis = old
        rge.solve_ivp = orig
        if sym:
            if had is None:
                del su.C_dict2array
            else:
                su.C_dict2array = had


for _p, _up in (("P42", True), ("P42", False), ("P21", True), ("P21", False)):
    obligation(_p, f"SMEFT solution equals running at an arbitrary scale, {'up' if _up else 'down'}", [R + "smeft_evolve_continuous", R + "smeft_evolve", R + "_smeft_evolve",
               K + "run_continuous", K + "run", K + "_to_wcxf"], fork=True, generic_eq=True, cost=5, samples=1, fallback=2,
               assumptions=["scipy.integrate.solve_ivp: the dense solution at a scale is the solution of the initial value problem up to this scale"])(
        lambda x, up=_up: _smeft_solution(x, up))
