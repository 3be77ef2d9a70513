"""Spec functions: written from the operator definitions, independent of /repo."""
import itertools
import numpy as np
from .. import bases
from ..sym.num import Num


def conj(v):
    return v.conjugate() if hasattr(v, "conjugate") else v


def re(v):
    return (v + conj(v)) / 2


def sym_value(cls, idx, get):
    """value at idx of the tensor that has the symmetry of class cls and whose
    non-redundant entries are get(rep)"""
    if cls == 0:
        return re(get(()))
    if cls in (1, 3):
        return get(idx)
    if cls == 71 and idx[0] == idx[1]:
        return None                       # not an operator: unconstrained
    orb = bases.orbit(cls, idx)
    t, c, s = min(orb, key=lambda o: (o[0], o[1]))
    v = get(t)
    if bases.is_real(cls, t):
        return s * re(v)
    return s * (conj(v) if c else v)


def multiplicity(cls, idx):
    """number of identical (non-conjugate) copies of the operator in a sum over all indices"""
    if cls in (4, 41):
        return len({idx, idx[2:] + idx[:2]})
    if cls == 6:
        i, j, k, l = idx
        return len({(i, j, k, l), (k, l, i, j), (k, j, i, l), (i, l, k, j)})
    if cls in (7, 71):
        i, j, k, l = idx
        return len({(i, j, k, l), (j, i, k, l)})
    return 1


# qqql: C_prst + C_rpst = C_sprt + C_srpt ; M expresses all 27 (prs) entries by the 19 free ones
def _q8():
    trip = list(itertools.product(range(3), repeat=3))
    pos = {t: i for i, t in enumerate(trip)}
    rows = []
    for p, r, s in trip:
        row = np.zeros(27)
        row[pos[p, r, s]] += 1
        row[pos[r, p, s]] += 1
        row[pos[s, p, r]] -= 1
        row[pos[s, r, p]] -= 1
        rows.append(row)
    A = np.array(rows)
    u, sv, vh = np.linalg.svd(A)
    null = vh[np.sum(sv > 1e-10):].T          # 27 x d
    free = [pos[t] for t in bases.QQQL_NONRED]
    F = null[free]
    assert F.shape[0] == F.shape[1], F.shape
    M = null @ np.linalg.inv(F)
    return trip, np.round(M * 6) / 6, A


Q8_TRIP, Q8_M, Q8_REL = _q8()
Q8_MTMI = np.linalg.inv(Q8_M.T @ Q8_M)


def q8_full(nr, zero=0):
    """nr: list over QQQL_NONRED -> dict triple -> value, tensor with the operator symmetry"""
    out = {}
    for t, row in zip(Q8_TRIP, Q8_M):
        acc = zero
        for c, v in zip(row, nr):
            if c:
                acc = acc + c * v
        out[t] = acc
    return out


def q8_scaled(nr):
    """non-redundant coefficients -> symmetric tensor with the same Lagrangian"""
    res = []
    for row in Q8_MTMI:
        acc = 0
        for c, v in zip(row, nr):
            if abs(c) > 1e-12:
                acc = acc + c * v
        res.append(acc)
    return q8_full(res)


def smeft_array(name, wc):
    """symmetric coefficient array of the operator `name` for a dict of non-redundant coefficients"""
    cls = bases.smeft_class_of(name)
    shape = bases.smeft_shape(name)
    g = lambda idx: wc.get(bases.label(name, idx), 0)
    if cls == 0:
        return re(g(()))
    out = np.zeros(shape, dtype=object)
    if cls == 8:
        for l in range(3):
            full = q8_scaled([g(t + (l,)) for t in bases.QQQL_NONRED])
            for t, v in full.items():
                out[t + (l,)] = v
        return out
    for idx in np.ndindex(*shape):
        v = sym_value(cls, idx, g)
        out[idx] = 0 if v is None else v / multiplicity(cls, idx)
    return out
