"""Flavour index types (ports) of the SMEFT parameters and Wilson coefficients.
('q', True): the index sits on a conjugated field, i.e. rotates with conj(Uq)."""
from .. import bases


def _p(s):
    return [(t.rstrip("*"), t.endswith("*")) for t in s.split()]


PORTS = {
    "Gu": _p("q* u"), "Gd": _p("q* d"), "Ge": _p("l* e"),
    "phil1": _p("l* l"), "phil3": _p("l* l"), "phie": _p("e* e"), "phiq1": _p("q* q"), "phiq3": _p("q* q"),
    "phiu": _p("u* u"), "phid": _p("d* d"), "phiud": _p("u* d"), "llphiphi": _p("l l"),
    "ledq": _p("l* e d* q"), "quqd1": _p("q* u q* d"), "quqd8": _p("q* u q* d"),
    "lequ1": _p("l* e q* u"), "lequ3": _p("l* e q* u"),
    "duql": _p("d u q l"), "qque": _p("q q u e"), "qqql": _p("q q q l"), "duue": _p("d u u e"),
}
for _n in ("uphi", "uW", "uB", "uG"):
    PORTS[_n] = _p("q* u")
for _n in ("dphi", "dW", "dB", "dG"):
    PORTS[_n] = _p("q* d")
for _n in ("ephi", "eW", "eB"):
    PORTS[_n] = _p("l* e")
for _n in bases.SMEFT_CLASS[4] + bases.SMEFT_CLASS[5] + bases.SMEFT_CLASS[6]:
    _a, _b = _n[0], _n[1]
    PORTS[_n] = _p(f"{_a}* {_a} {_b}* {_b}")
DIM4_SCALARS = ["g", "gp", "gs", "Lambda", "m2"]
DIM4 = DIM4_SCALARS + ["Gu", "Gd", "Ge"]
SCALARS = bases.SMEFT_CLASS[0]
WCS = list(bases.SMEFT_ORDER)

# permutation symmetries as (perm, conj, sign)
_id4 = (0, 1, 2, 3)
_SW = (2, 3, 0, 1)
_HC = (1, 0, 3, 2)
_HS = (3, 2, 1, 0)
SYMMETRY = {2: [((0, 1), False, 1), ((1, 0), True, 1)],
            9: [((0, 1), False, 1), ((1, 0), False, 1)],
            5: [(_id4, False, 1), (_HC, True, 1)],
            4: [(_id4, False, 1), (_SW, False, 1), (_HC, True, 1), (_HS, True, 1)],
            6: [(p, c, 1) for p, c in
                [(_id4, False), (_SW, False), ((2, 1, 0, 3), False), ((0, 3, 2, 1), False),
                 (_HC, True), (_HS, True), ((1, 2, 3, 0), True), ((3, 0, 1, 2), True)]],
            7: [(_id4, False, 1), ((1, 0, 2, 3), False, 1)]}


def symmetry(name):
    return SYMMETRY.get(bases.smeft_class_of(name)) if name in WCS else None


def tensors(x, sym=True, names=None, pre=""):
    C = {}
    for n in DIM4_SCALARS:
        C[n] = x.real(pre + n)
    for n in ("Gu", "Gd", "Ge"):
        C[n] = x.tensor(pre + n, 2)
    for n in WCS:
        r = len(PORTS.get(n, ()))
        C[n] = x.real(pre + n) if r == 0 else x.tensor(pre + n, r, symm=symmetry(n) if sym else None)
    return C


def rotate(x, C, U):
    """gauge-invariant flavour rotation; U: species -> matrix"""
    out = {}
    for n, v in C.items():
        ports = PORTS.get(n)
        if not ports:
            out[n] = v
            continue
        r = len(ports)
        a, b = "ijkl"[:r], "abcd"[:r]
        ops = [U[s].conj() if st else U[s] for s, st in ports]
        w = v
        for pos in range(r):       # one index at a time
            a2 = a[:pos] + "z" + a[pos + 1:]
            w = x.einsum(f"{a[pos]}z,{a}->{a2}", ops[pos], w)
        out[n] = w
    return out
