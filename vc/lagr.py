"""Effective Lagrangians of four-fermion operators as antisymmetrised vertices.

An operator (psibar_1 A psi_2)(psibar_3 B psi_4) is represented by its tree-level
vertex: the tensor in spinor and colour indices of the four fields, antisymmetrised
under the exchange of identical fields and contracted with fixed random tensors.
Two sums of operators describe the same interaction in four dimensions exactly if
these vectors agree, so that Fierz and colour identities need not be written down.
The definitions of the operators of each basis are the specification; they do not
use the code under verification.
"""
import functools, re
import numpy as np
from . import bases

g = [np.zeros((4, 4), complex) for _ in range(4)]
_s = [np.eye(2), np.array([[0, 1], [1, 0]]), np.array([[0, -1j], [1j, 0]]), np.array([[1, 0], [0, -1]])]
for _m in range(4):
    g[_m][:2, 2:] = _s[_m]
    g[_m][2:, :2] = _s[_m] if _m == 0 else -_s[_m]
METRIC = [1, -1, -1, -1]
PL, PR = np.diag([1, 1, 0, 0]).astype(complex), np.diag([0, 0, 1, 1]).astype(complex)
P = {"L": PL, "R": PR, "": np.eye(4)}
OTHER = {"L": "R", "R": "L"}
G5 = PR - PL
SIG = {(m, n): .5j * (g[m] @ g[n] - g[n] @ g[m]) for m in range(4) for n in range(4)}


def words(n):
    """gamma^mu1...gamma^mun (upper) with its partner with lower indices"""
    import itertools
    for w in itertools.product(range(4), repeat=n):
        M, s = np.eye(4, dtype=complex), 1
        for m in w:
            M = M @ g[m]
            s *= METRIC[m]
        yield M, s


def spin(kind, a, b, g5=False):
    """list of (A, B) summed over Lorentz indices; a, b: chirality of the right field of each current"""
    r = G5 if g5 else np.eye(4)
    if kind == "T":
        return [(SIG[m, n] @ P[a], METRIC[m] * METRIC[n] * SIG[m, n] @ P[b] @ r) for m in range(4) for n in range(4)]
    n = {"S": 0, "V": 1, "V3": 3, "S4": 4}[kind]
    return [(M @ P[a], s * M @ P[b] @ r) for M, s in words(n)]


LEPTON = ("e", "mu", "tau", "nue", "numu", "nutau")
NP = 24


@functools.lru_cache(None)
def probe(dims, m):
    return np.random.default_rng([m, sum(d * 7 ** i for i, d in enumerate(dims))]).normal(size=(4, 4, 4, 4) + dims)


def bar(M):
    return g[0] @ M.conj().T @ g[0]


class Op:
    """sum of terms (coefficient, (f1, f2, f3, f4), [(A, B)], colour): (f1bar A f2)(f3bar B f4)"""

    def __init__(self, f, pairs, colour="1"):
        self.f, self.pairs, self.colour = f, pairs, colour

    def dagger(self):
        a, b, c, d = self.f
        return Op((b, a, d, c), [(bar(A), bar(B)) for A, B in self.pairs], self.colour)

    def key(self):
        a, b, c, d = self.f
        return tuple(sorted((a, c))), tuple(sorted((b, d)))

    def vector(self):
        a, b, c, d = self.f
        S = sum(np.einsum("ij,kl->ikjl", A, B) for A, B in self.pairs)          # psibar1 psibar3 psi2 psi4
        n = [1 if f in LEPTON else 3 for f in (a, c, b, d)]
        dl = lambda p, q: np.ones((n[p], n[q])) if n[p] == n[q] == 1 else np.eye(n[p])
        if 3 in n and n.count(3) == 2:
            # the colour line joins the two quarks
            ps = [i for i in range(4) if n[i] == 3]
            C = np.eye(3).reshape([3 if i in ps else 1 for i in range(4)])
            assert self.colour == "1"
        elif 3 not in n:
            C = np.ones((1,) * 4)
        else:
            direct, cross = np.einsum("ij,kl->ikjl", dl(0, 2), dl(1, 3)), np.einsum("il,kj->ikjl", dl(0, 3), dl(1, 2))
            C = {"1": direct, "x": cross, "8": cross / 2 - direct / 6}[self.colour]
        T = np.einsum("ikjl,mnpq->ikjlmnpq", S, C)
        swap_bar, swap_psi = (1, 0, 2, 3, 5, 4, 6, 7), (0, 1, 3, 2, 4, 5, 7, 6)
        if a > c:
            T = -T.transpose(swap_bar)
        if b > d:
            T = -T.transpose(swap_psi)
        if a == c:
            T = (T - T.transpose(swap_bar)) / 2
        if b == d:
            T = (T - T.transpose(swap_psi)) / 2
        dims = T.shape[4:]
        v = np.array([np.vdot(probe(dims, m), T) for m in range(NP)])
        v[abs(v) < 1e-12] = 0
        return v


class Dipole:
    def __init__(self, gauge, f1, f2, chi):
        self.k = (gauge, f1, f2, chi)

    def dagger(self):
        G, a, b, c = self.k
        return Dipole(G, b, a, OTHER[c])

    def key(self):
        return self.k

    def vector(self):
        return np.ones(1)


class Gluon:
    def __init__(self, n):
        self.n = n

    def dagger(self):
        return self

    def key(self):
        return (self.n,)

    def vector(self):
        return np.ones(1)


class Sum:
    """sum of operators, at least one"""

    def __init__(self, *ops):
        self.ops = ops


QF = {"u": ("u", "c"), "d": ("d", "s", "b"), "e": ("e", "mu", "tau"), "nu": ("nue", "numu", "nutau")}


def current(kind, chir, colour, f, g5=False):
    """chir: field chirality of the current(s): V: 'L'/'R'; S, T: 'R' = (L R), 'L' = (R L)"""
    return Op(tuple(f), spin(kind, chir[0], chir[1], g5), colour)


def jms_op(key):
    name, idx = (key.split("_") + [""])[:2]
    if name in ("G", "Gtilde"):
        return Gluon(name)
    fl = [QF[t][int(i) - 1] for t, i in zip(bases.jms_fields(name), idx)]
    m = re.match(r"^[ude](G|gamma)$", name)
    if m:
        return Dipole(m.group(1), *fl, "R")
    m = re.match(r"^([VST])([18]?)\w*?(LL|RR|LR|RL)$", name)
    return current(m.group(1), m.group(3), m.group(2) or "1", fl)


FLAV = "numu|nutau|nue|mu|tau|e|u|d|s|c|b"


def flavours(s):
    """all ways to split into flavours of two currents"""
    out = []

    def rec(s, acc):
        if not s:
            if len(acc) in (2, 4):
                out.append(acc)
            return
        for f in FLAV.split("|"):
            if s.startswith(f):
                rec(s[len(f):], acc + [f])
    rec(s, [])
    kind = lambda f: "nu" if f.startswith("nu") else "l" if f in LEPTON else "u" if f in "uc" else "d"
    ok = [o for o in out if sum(kind(f) in ("nu", "l") for f in o) % 2 == 0]
    return ok


def one(s):
    o = flavours(s)
    if len(o) != 1:
        raise ValueError(f"ambiguous flavours {s} {o}")
    return o[0]


def flavio_op(key, sector, p, V, x):
    """(factor, operator): L = sum factor * C * operator + h.c."""
    np_ = x.np
    e, gs = np_.sqrt(4 * np.pi * p["alpha_e"]), np_.sqrt(4 * np.pi * p["alpha_s"])
    gf = 4 * p["GF"] / 2 ** .5
    up, down = {"u": 0, "c": 1}, {"d": 0, "s": 1, "b": 2}
    if key in ("CG", "CGtilde"):
        return gf, Gluon(key[1:])
    name, fl = key.split("_")
    f = one(fl)

    def ckm(a, b):        # transition b -> a
        c = x.np.conj
        return {("s", "b"): V[2, 2] * c(V[2, 1]), ("d", "b"): V[2, 2] * c(V[2, 0]), ("d", "s"): V[2, 1] * c(V[2, 0]),
                ("u", "c"): c(V[1, 2]) * V[0, 2]}[a, b]
    heavy = {("s", "b"): "m_b", ("d", "b"): "m_b", ("d", "s"): "m_s", ("u", "c"): "m_c"}
    blind = sector in ("dF=0", "ffnunu")
    m = re.match(r"^C([78])(p?)$", name)
    if m:
        coup, gauge = (e, "gamma") if m.group(1) == "7" else (gs, "G")
        if blind:
            return gf * coup / (16 * np.pi ** 2) * p["m_" + f[0]], Dipole(gauge, f[0], f[0], "R")
        a, b = f[1], f[0]
        return gf * ckm(a, b) * coup / (16 * np.pi ** 2) * p[heavy[a, b]], Dipole(gauge, a, b, "L" if m.group(2) else "R")
    if name == "Cgamma":
        return 1, Dipole("gamma", f[1], f[0], "R")
    m = re.match(r"^C(9|10|S|P)(p?)$", name)
    if m:
        a, b, l1, l2 = f[1], f[0], f[3], f[2]
        t, pr = m.groups()
        chi = {"": "L", "p": "R"}[pr] if t in ("9", "10") else {"": "R", "p": "L"}[pr]
        N = gf * ckm(a, b) * e ** 2 / (16 * np.pi ** 2)
        if t in "SP":
            N = N * p[heavy[a, b]]
        return N, Op((a, b, l1, l2), spin("V" if t in ("9", "10") else "S", chi, "", g5=t in ("10", "P")))
    m = re.match(r"^C([LR])$", name)
    if m:
        a, b, l1, l2 = f[1], f[0], f[3], f[2]
        return gf * ckm(a, b) * e ** 2 / (8 * np.pi ** 2), current("V", m.group(1) + "L", "1", (a, b, l1, l2))
    m = re.match(r"^C([VST])([LR]?)$", name)
    if m:               # charged current: d u l nu
        d, u, l, nu = f
        t, h = m.group(1), m.group(2) or "L"
        if t == "S":
            h, ch = {"R": "R", "L": "L"}[h], "L"
        else:
            ch = "L"
        return -gf * V[up[u], down[d]], current(t, h + ch, "1", (u, d, l, nu))
    m = re.match(r"^C([VST])([18]?)(LL|RR|LR|RL)(t?)$", name)
    t, c, chi, tilde = m.groups()
    if blind:
        return gf, current(t, chi, c or "1", f)
    a, b, c1, d1 = f[1], f[0], f[3], f[2]
    if (a, b) == (c1, d1) and f[0] not in LEPTON:                          # Delta F = 2
        return 1, current(t, chi, "1", (a, b, c1, d1))
    if f[0] in LEPTON or sector not in ("sb", "db", "sd", "cu"):
        return 1, current(t, chi, c or "1", (a, b, c1, d1))
    return gf * ckm(a, b), current(t, chi, "x" if tilde else "1", (a, b, c1, d1))


PRIME = {"L": "R", "R": "L"}


def bern_op(key, p, x):
    e, gs = x.np.sqrt(4 * np.pi * p["alpha_e"]), x.np.sqrt(4 * np.pi * p["alpha_s"])
    gf = 4 * p["GF"] / 2 ** .5
    m = re.match(r"^(nu)?(10|\d)(p?)(gamma|g)?([a-z]+)$", key)
    nu, n, pr, dip, fl = m.groups()
    n = int(n)
    q = {(): 0}
    mq = {"sb": "m_b", "db": "m_b", "ds": "m_s"}
    if dip:
        a, b = fl
        if dip == "gamma":
            return gf * e * p[mq[fl]] / gs ** 2, Dipole("gamma", a, b, "L" if pr else "R")
        return gf * p[mq[fl]] / gs, Dipole("G", a, b, "L" if pr else "R")
    if nu:
        f = one(fl)
        return gf, current("V", ("R" if pr else "L") + "L", "1", (f[0], f[1], "nu" + f[2], "nu" + f[3]))
    if fl in ("sbsb", "dbdb", "dsds", "cucu"):
        a, b = fl[:2]
        kind, chi, col = {1: ("V", "LL", "1"), 2: ("S", "LL", "1"), 3: ("S", "LL", "x"), 4: ("S", "LR", "1"), 5: ("S", "LR", "x")}[n]
        if pr:
            chi = "".join(PRIME[c] for c in chi)
        return gf, current(kind, chi, col, (a, b, a, b))
    f = one(fl)
    if f[0] in "uc":                         # charged current
        kind, h = {(1, ""): ("V", "L"), (1, "p"): ("V", "R"), (5, ""): ("S", "R"), (5, "p"): ("S", "L"), (7, "p"): ("T", "L")}[n, pr]
        return gf, current(kind, h + "L", "1", (f[0], f[1], f[2], "nu" + f[3]))
    kind = {1: "V", 2: "V", 3: "V3", 4: "V3", 5: "S", 6: "S", 7: "T", 8: "T", 9: "S4", 10: "S4"}[n]
    chi = "L" if kind in ("V", "V3") else "R"
    if fl in ("sbss", "dbdd", "dbds", "sbsd", "bsbd", "dsdd") and n >= 5:      # chirality of the scalar operators exchanged
        chi = PRIME[chi]
    if pr:
        chi = PRIME[chi]
    return gf, Op(tuple(f), spin(kind, chi, ""), "8" if n % 2 == 0 and n > 0 else "1")


class Vertices:
    def __init__(self):
        self.cache = {}

    def get(self, tag, op):
        if tag not in self.cache:
            v, d = op.vector(), op.dagger()
            w = d.vector()
            self.cache[tag] = (op.key(), v, d.key(), w, op.key() == d.key() and np.allclose(v, w, atol=1e-9))
        return self.cache[tag]


V4 = Vertices()


def lagrangian(terms, conj):
    """terms: [(tag, coefficient, operator)] -> {(flavours, component): number}"""
    L = {}
    for tag, c, op in terms:
        k, v, kd, w, herm = V4.get(tag, op)
        for key, vec, co in ((k, v, c),) if herm else ((k, v, c), (kd, w, conj(c))):
            for m, a in enumerate(vec):
                if a != 0:
                    t = co * complex(a)
                    L[key, m] = L[key, m] + t if (key, m) in L else t
    return L


def show(key):
    if len(key) == 2:
        (a, c), (b, d) = key
        return f"({a} {c})bar ({b} {d})"
    return " ".join(key)
