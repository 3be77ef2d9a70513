"""Special points of functions on arrays: vanishing, diagonal, degenerate, real
and integer arrays, single entries, special rotations and masses.  The beta
functions are polynomials in their arguments, so the value at a special point is
the extrapolation of values at generic points around it; rotations and evolution
matrices are compared with their definition."""
import numpy as np
from ..harness import obligation, Missing
from . import smeft_spec as S
from .inputs import reals
from wilson.util import smeftutil, smeft_warsaw
from wilson.run.smeft import beta as bmod, SMEFT

ARRAYS = lambda r, n: r.randn(*(3,) * n) + 1j * r.randn(*(3,) * n)
RANK = {k: len(S.PORTS.get(k, ())) for k in S.WCS}
SM = ("g", "gp", "gs", "m2", "Lambda")


def copy(C):
    return {k: np.array(v) if np.ndim(v) else v for k, v in C.items()}


def generic(r):
    C = {k: float(r.uniform(.3, 1)) for k in SM}
    C.update({k: 0.0 for k in ("theta", "thetap", "thetas")})
    C.update({k: ARRAYS(r, 2) * .5 for k in ("Gu", "Gd", "Ge")})
    C.update({k: ARRAYS(r, RANK[k]) if RANK[k] else float(r.randn()) for k in S.WCS})
    return C


def wc_points(r):
    """shapes of coefficient arrays"""
    full = {k: ARRAYS(r, n) if n else float(r.randn()) for k, n in RANK.items()}
    zero = {k: np.zeros((3,) * n, complex) if n else 0. for k, n in RANK.items()}
    yield "all zero", zero
    yield "all zero, real", {k: np.zeros((3,) * n) if n else 0 for k, n in RANK.items()}
    yield "real arrays", {k: np.real(v).copy() if np.ndim(v) else v for k, v in full.items()}
    yield "imaginary arrays", {k: 1j * np.real(v) if np.ndim(v) else v for k, v in full.items()}
    yield "real numbers in complex arrays", {k: np.real(v) + 0j if np.ndim(v) else v for k, v in full.items()}
    sym = {k: np.asarray(v) if RANK[k] else v for k, v in smeftutil.symmetrize(copy(full)).items() if k in RANK}
    yield "symmetrised arrays", sym
    yield "symmetrised real arrays", {k: np.real(v).copy() if RANK[k] else v for k, v in sym.items()}
    one = {}
    for k, n in RANK.items():
        one[k] = np.zeros((3,) * n, complex) if n else float(r.randn())
        if n:
            one[k][tuple(r.randint(0, 3, n))] = 1.5
    yield "one entry each", one
    yield "only the boson operators", {k: v if RANK[k] == 0 else zero[k] for k, v in full.items()}
    yield "only two fermions", {k: v if RANK[k] == 2 else zero[k] for k, v in full.items()}
    yield "only four fermions", {k: v if RANK[k] == 4 else zero[k] for k, v in full.items()}
    yield "flavour universal", {k: np.eye(3) * complex(r.randn(), r.randn()) if n == 2 else np.einsum("ij,kl->ijkl", np.eye(3), np.eye(3)) * complex(r.randn(), r.randn()) if n else v for (k, n), v in zip(RANK.items(), full.values())}
    yield "constant arrays", {k: np.full((3,) * n, complex(r.randn(), r.randn())) if n else v for (k, n), v in zip(RANK.items(), full.values())}
    yield "integer arrays", {k: r.randint(-2, 3, (3,) * n) if n else int(r.randint(-2, 3)) for k, n in RANK.items()}
    yield "transposed memory", {k: np.asfortranarray(v) if np.ndim(v) else v for k, v in full.items()}
    yield "complex numbers for the boson operators", {k: complex(v) if RANK[k] == 0 else v for k, v in full.items()}
    ks = sorted(RANK)
    for i in range(6):
        pick = {ks[j] for j in r.randint(0, len(ks), 3)}
        yield f"only {sorted(pick)}", {k: full[k] if k in pick else zero[k] for k in ks}
    for c in (1e-14, 1e6):
        yield f"size {c}", {k: c * v for k, v in full.items()}


def sm_points(r, C):
    z, I = np.zeros((3, 3), complex), np.eye(3)
    d = lambda: np.diag(r.uniform(.1, 1, 3)) + 0j
    yield "no up-quark Yukawas", dict(Gu=z)
    yield "no down-quark Yukawas", dict(Gd=z)
    yield "no lepton Yukawas", dict(Ge=z)
    yield "no Yukawas", dict(Gu=z, Gd=z, Ge=z)
    yield "no Yukawas, real arrays", dict(Gu=z.real, Gd=z.real, Ge=z.real)
    yield "diagonal down-quark and lepton Yukawas", dict(Gd=d(), Ge=d())
    yield "diagonal Yukawas", dict(Gu=d(), Gd=d(), Ge=d())
    yield "only the top", dict(Gu=np.diag([0, 0, 1.]) + 0j, Gd=z, Ge=z)
    yield "real Yukawas", {k: C[k].real.copy() for k in ("Gu", "Gd", "Ge")}
    yield "real numbers in complex Yukawas", {k: C[k].real + 0j for k in ("Gu", "Gd", "Ge")}
    yield "degenerate Yukawas", dict(Gu=I * .7 + 0j, Gd=I * .7 + 0j, Ge=I * .7 + 0j)
    yield "equal Yukawas", dict(Gu=C["Gd"].copy())
    yield "equal couplings", dict(g=.5, gp=.5, gs=.5)
    yield "no strong coupling", dict(gs=0.)
    yield "no couplings", dict(g=0., gp=0., gs=0.)
    yield "integer couplings", dict(g=1, gp=1, gs=1)
    yield "no Higgs mass", dict(m2=0.)
    yield "negative Higgs mass", dict(m2=-.8)
    yield "no self-coupling", dict(Lambda=0.)
    yield "negative self-coupling", dict(Lambda=-.3)
    yield "complex numbers", {k: complex(C[k]) for k in SM}
    yield "large couplings", dict(gs=2.5, g=2., Gu=3 * C["Gu"])
    yield "small couplings", dict(gs=.05, g=.02, gp=.01)


def close(x, tag, got, want, scale, tol=1e-7):
    bad = []
    for k in {*got, *want}:
        d = np.max(np.abs(np.asarray(got.get(k, 0)) - np.asarray(want.get(k, 0))))
        if not d <= tol * scale.get(k, 0) + 1e-300:
            bad.append((k, float(d), float(scale.get(k, 0))))
    x.true(tag, not bad, sorted(bad)[:3])


def size(*ds):
    out = {}
    for d in ds:
        for k, v in d.items():
            out[k] = max(out.get(k, 0), float(np.max(np.abs(v))))
    return out


@obligation("P20", "beta functions at special points", ["wilson.run.smeft.beta:beta"], samples=1, fallback=1, cost=20,
            bounded="about 22 shapes of coefficient arrays, 23 special values of the Standard Model parameters; against extrapolation from generic points")
def _(x):
    x.clauses += 1
    if x.mode != "num":
        return
    r = np.random.RandomState(x.seed % 2 ** 31)
    C = generic(r)
    beta = lambda D: {k: np.array(v) for k, v in bmod.beta(D).items()}
    G = {k: C[k] for k in S.WCS}
    sm = {k: v for k, v in C.items() if k not in G}
    tiny = lambda c: {k: c * v for k, v in G.items()}
    # linear in the coefficients: the Standard Model part from two generic points
    b1, b2 = beta(copy(C)), beta(copy({**sm, **tiny(2.)}))
    base = {k: 2 * b1[k] - b2[k] for k in b1}
    for lab, W in wc_points(r):
        n = max(float(np.max(np.abs(v))) for v in W.values()) or 1.
        keep = copy(W)
        try:
            got = beta({**copy(sm), **W})
        except Exception as e:
            x.true(f"{lab} returns", False, f"{type(e).__name__}: {e}"[:200])
            continue
        u, v = beta({**copy(sm), **{k: n * G[k] + W[k] for k in G}}), beta({**copy(sm), **tiny(n)})
        close(x, f"coefficients: {lab}", got, {k: u[k] - v[k] + base[k] for k in u}, size(u, v, b1, b2))
        x.true(f"coefficients: {lab} unchanged", all(np.array_equal(W[k], keep[k]) for k in W))
    # a polynomial of degree at most 8 in the Standard Model parameters
    t = np.cos(np.pi * (2 * np.arange(10) + 1) / 20)
    w = np.array([np.prod([-t[j] / (t[i] - t[j]) for j in range(10) if j != i]) for i in range(10)])
    D = generic(np.random.RandomState(5))
    for lab, p in sm_points(r, C):
        P = {**C, **p}
        try:
            got = beta(copy(P))
        except Exception as e:
            x.true(f"{lab} returns", False, f"{type(e).__name__}: {e}"[:200])
            continue
        around = [beta({**copy(P), **{k: P[k] + a * D[k] for k in (*SM, "Gu", "Gd", "Ge")}}) for a in t]
        close(x, f"parameters: {lab}", got, {k: sum(c * b[k] for c, b in zip(w, around)) for k in got}, size(*around), 1e-8)


def rotations(r):
    q = lambda: np.linalg.qr(ARRAYS(r, 2))[0]
    U = {s: q() for s in "qudle"}
    I = np.eye(3)
    yield "generic", U
    yield "identity", {s: I for s in "qudle"}
    yield "complex identity", {s: I + 0j for s in "qudle"}
    for s in "qudle":
        yield f"only {s}", {**{t: I for t in "qudle"}, s: U[s]}
        yield f"all but {s}", {**U, s: I}
    yield "phases", {s: np.diag(np.exp(1j * r.uniform(0, 6, 3))) for s in "qudle"}
    yield "one phase each", {s: np.exp(1j * r.uniform(0, 6)) * I for s in "qudle"}
    yield "permutations", {s: I[r.permutation(3)] for s in "qudle"}
    yield "real rotations", {s: np.linalg.qr(r.randn(3, 3))[0] for s in "qudle"}
    yield "signs", {s: np.diag(r.choice([-1., 1.], 3)) for s in "qudle"}
    yield "integer signs", {s: np.diag(r.choice([-1, 1], 3)) for s in "qudle"}
    yield "equal matrices", {s: U["q"].copy() for s in "qudle"}
    yield "equal doublets", {**U, "l": U["q"].copy()}
    yield "conjugate matrices", {**U, "u": U["q"].conj()}
    yield "nearly identity", {s: np.linalg.qr(I + 1e-9 * ARRAYS(r, 2))[0] for s in "qudle"}
    yield "transposed memory", {s: np.asfortranarray(U[s]) for s in "qudle"}


@obligation("P16", "special rotations and coefficient arrays", ["wilson.util.smeft_warsaw:flavor_rotation", "wilson.run.smeft.classes:SMEFT._flavor_rotation"], samples=1, fallback=1, cost=10,
            bounded="26 sets of matrices, 22 shapes of coefficient arrays, single coefficients and subsets")
def _(x):
    x.clauses += 1
    if x.mode != "num":
        return
    r = np.random.RandomState(x.seed % 2 ** 31)
    C = generic(r)
    G = {k: C[k] for k in S.WCS}
    fs = [("library", smeft_warsaw.flavor_rotation)] + ([("running", lambda *a, **k: SMEFT._flavor_rotation(*a, **k, sm_parameters=False))] if hasattr(SMEFT, "_flavor_rotation") else [])

    def case(lab, D, U):
        want = S.rotate(x, {k: np.asarray(v) if np.ndim(v) else v for k, v in D.items()}, U)
        for n, f in fs:
            if n == "running" and set(D) != set(S.WCS):
                continue
            keep = copy(D)
            got = f(D, **{f"U{s}": U[s] for s in "qudle"})
            close(x, f"{n}: {lab}", {k: got[k] for k in got if k in D or n == "library"}, want, {k: 1e-2 * v for k, v in size(want, keep).items()}, 1e-8)
            x.true(f"{n}: {lab} unchanged", set(D) == set(keep) and all(np.array_equal(D[k], keep[k]) for k in D))
    Us = list(rotations(r))
    for lab, U in Us:
        case(lab, dict(G), U)
    for lab, W in wc_points(r):
        case(lab, dict(W), Us[0][1])
    for k in S.WCS:
        case(f"only {k}", {k: G[k]}, Us[0][1])
        if RANK[k]:
            one = np.zeros((3,) * RANK[k])
            one[tuple(r.randint(0, 3, RANK[k]))] = 1
            case(f"one entry of {k}", {k: one}, Us[0][1])
    for _ in range(10):
        ks = [k for k in S.WCS if r.rand() < .3]
        case(f"{len(ks)} coefficients", {k: G[k] for k in ks[::-1]}, Us[0][1])


@obligation("P11", "symmetrisation of arrays of every shape", ["wilson.util.common:EFTutil.symmetrize"], samples=1, fallback=1, cost=5,
            bounded="22 shapes of coefficient arrays, single coefficients, subsets; against f(G + S) - f(G)")
def _(x):
    x.clauses += 1
    if x.mode != "num":
        return
    r = np.random.RandomState(x.seed % 2 ** 31)
    G = {k: v for k, v in generic(r).items() if k in RANK}
    c = lambda d: {k: np.asarray(v, complex) if RANK[k] else complex(v) for k, v in d.items()}
    for n, f in (("symmetrize", smeftutil.symmetrize), ("symmetrize_nonred", smeftutil.symmetrize_nonred), ("unscale", getattr(smeftutil, "unscale_dict", None))):
        if f is None:
            continue
        base = f(c(G))

        def case(lab, W):
            keep = copy(W)
            got = f(W)
            u = f({k: c(G)[k] + c(W)[k] for k in W})
            m = max([float(np.max(np.abs(v))) for v in W.values()] + [1.])
            close(x, f"{n}: {lab}", got, {k: u[k] - base[k] for k in W}, {k: m for k in W}, 1e-9)
            x.true(f"{n}: {lab} unchanged", all(np.array_equal(W[k], keep[k]) for k in keep))
        for lab, W in wc_points(r):
            if lab != "integer arrays" or n == "symmetrize":
                case(lab, {k: (np.array(v) if np.ndim(v) else np.float64(np.real(v)) if not isinstance(v, complex) else np.complex128(v)) for k, v in W.items()})
        if n != "symmetrize":
            continue  # the other two need every coefficient of some classes
        for k in RANK:
            case(f"only {k}", {k: G[k] if RANK[k] else np.float64(G[k])})
            if RANK[k]:
                one = np.zeros((3,) * RANK[k], complex)
                one[tuple(r.randint(0, 3, RANK[k]))] = 1
                case(f"one entry of {k}", {k: one})
        for _ in range(8):
            ks = [k for k in RANK if r.rand() < .3]
            case(f"{len(ks)} coefficients", {k: G[k] if RANK[k] else np.float64(G[k]) for k in ks[::-1]})


@obligation("P25", "evolution matrices at special points", ["wilson.run.wet.rge:getUs", "wilson.run.wet.rge:getUe", "wilson.run.wet.rge:admeig"], samples=1, fallback=1, cost=30,
            bounded="every class and number of flavours; ratios of couplings from 0.1 to 3, vanishing, equal, integer and inverted masses, vanishing electromagnetic coupling")
def _(x):
    x.clauses += 1
    if x.mode != "num":
        return
    from .wet_run import oracle, EFTS, BY_CLASS
    from .history import DEFAULTS, MASSES
    from wilson import wcxf
    from wilson.run.wet import rge, adm
    for n in ("getUs", "getUe", "get_permissible_wcs"):
        if not callable(getattr(rge, n, None)):
            raise Missing(f"rge.{n}")
    p0 = {k: DEFAULTS[k] for k in MASSES}
    pts = [(f"ratio {e}", e, {}) for e in (.1, .25, .45, .99, 1, 1.2, 2.1, 3.)]
    pts += [(f"massless {k}", .6, {k: 0.}) for k in MASSES] + [("integer massless u", .6, {"m_u": 0})]
    pts += [("integer masses", .6, {"m_b": 4, "m_c": 1, "m_tau": 2}), ("m_s = m_d", .6, {"m_s": p0["m_d"]}), ("m_u = m_d", .6, {"m_u": p0["m_d"]}), ("m_c > m_b", .6, {"m_c": 5.}),
            ("m_e = m_mu = m_tau", .6, {"m_e": 1.7, "m_mu": 1.7, "m_tau": 1.7}), ("no electromagnetism", .6, {"alpha_e": 0.}), ("large alpha_s", .6, {"alpha_s": .5}), ("small alpha_s", .9, {"alpha_s": .05}),
            ("large alpha_e", .6, {"alpha_e": .05})]
    for cl in sorted(set(BY_CLASS) - {"inv"}):
        for f in (5, 4, 3):
            if not any(n in wcxf.Basis[EFTS[f], "JMS"].sectors for n in BY_CLASS[cl]):
                continue
            use = pts if cl not in ("dF0",) else [pts[i] for i in x.rng.sample(range(len(pts)), 3)]
            for lab, eta, q in use:
                p = {"alpha_s": .2, "alpha_e": .0078, **p0, **q}
                args = (f,) + tuple(p[m] for m in MASSES)
                try:
                    As, Ae = (getattr(adm, f"adm_{t}_{cl}")(*args) for t in "se")
                except ZeroDivisionError:
                    continue  # normalised to a mass that vanishes here
                ok = rge.get_permissible_wcs(cl, f)
                if not (isinstance(ok, str) and ok == "all"):
                    As, Ae = As[ok][:, ok], Ae[ok][:, ok]
                Us, Ue = oracle(As, Ae, eta, 11 - 2 * f / 3, p["alpha_s"], p["alpha_e"])
                g = rge.getUs(cl, eta, f, **p), rge.getUe(cl, eta, f, **p)
                for n, a, b in (("QCD", g[0], Us), ("QED", g[1], Ue)):
                    a = np.asarray(a)
                    d = float(np.max(np.abs(a - b))) if a.shape == b.shape else np.inf
                    x.true(f"{cl}, {f} flavours, {n}: {lab}", d <= 1e-7 * max(1e-3 * (n == "QED"), float(np.max(np.abs(b)))), d)
