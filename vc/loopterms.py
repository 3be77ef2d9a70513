"""The one-loop matching in the tensor engine: flavour indices, the coefficients (to first order), the physical inputs
and the matching scale all stay symbolic.  Shared by the check and by tools/gen_loop_terms.py."""
import contextlib
import gzip
import json
import os
import random
import numpy as np
from . import tens
from .tens import T
from .sym import num as symnum, shim
from .sym.num import Num, ATOMS, as_num, is_zero, evaluate, Unsupported
from .checks import smeft_spec as S

FILE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "data", "loop_terms.json.gz")
MASSES = {"Mu": ("m_u", "m_c", "m_t"), "Md": ("m_d", "m_s", "m_b"), "Me": ("m_e", "m_mu", "m_tau")}
BOTH = [((0, 1), False, 1), ((1, 0), False, 1)]


def setup(x, sm_inputs):
    """-> coefficients, parameters, scale, CKM matrix; x: TensProvider"""
    x.mode, m = "sym", x.mode
    try:
        v, M, Z, e, p = sm_inputs(x)
    finally:
        x.mode = m
    # in units of 100 GeV (the code contains masses in GeV): coefficients of comparable size
    p["m_W"], p["GF"] = 100 * p["m_W"], p["GF"] / 1e4
    C = {}
    for n in S.WCS:
        r = len(S.PORTS.get(n, ()))
        if r:
            C[n] = x.tensor("c_" + n, r, symm=S.symmetry(n))
            tens.NILT.add("c_" + n)
        else:
            C[n] = x.real("c_" + n)
            symnum.NILP.add(ATOMS.sym("c_" + n, True))
    for n, ms in MASSES.items():
        for m in ms:
            p[m] = x.real(m, pos=True)
        tens.DIAGS[ms] = n
        tens.SYMM[n] = BOTH
        tens.REALT.add(n)
    tens.REALT.add(tens.AXIS)
    for k in ("Vus", "Vub", "Vcb", "gamma"):
        p[k] = x.real(k)
    g3 = x.real("g3", pos=True)
    p["alpha_s"] = g3 * g3 / (4 * np.pi)
    symnum.SQRT_HINTS.append(g3)
    mu = 100 * x.real("scale", pos=True)
    return C, p, mu, x.tensor("V", 2, unitary=True)


@contextlib.contextmanager
def tensors(x, module, p, V):
    """module constants that are the unit matrix or the projector on the third generation become abstract tensors"""
    import ckmutil.ckm
    e3 = T.named(tens.AXIS, 1)
    saved = dict(module.__dict__)
    real_diag = shim.OVERRIDE["diag"]

    def diag(a, *k):
        d = tens.diag(a) if not isinstance(a, T) and np.ndim(a) == 1 and not k else None
        return d if d is not None else real_diag(a, *k)

    def ckm_tree(Vus, Vub, Vcb, gamma):
        for n, g in (("Vus", Vus), ("Vub", Vub), ("Vcb", Vcb), ("gamma", gamma)):
            x.eq(f"argument {n} of the CKM parametrisation", g, p[n])
        return V
    tens.FAST[0] = True
    try:
        shim.OVERRIDE["diag"] = diag
        for k, a in saved.items():
            if isinstance(a, np.ndarray) and a.shape == (3, 3):
                if np.array_equal(a, np.eye(3)):
                    module.__dict__[k] = T.delta()
                elif np.array_equal(a, np.diag([0, 0, 1])):
                    module.__dict__[k] = tens.einsum("a,b->ab", e3, e3)
        with x.lib(stubs={ckmutil.ckm.ckm_tree: ckm_tree}):
            yield
    finally:
        for k, a in saved.items():
            module.__dict__[k] = a
        shim.OVERRIDE["diag"] = real_diag
        tens.FAST[0] = False


def as_terms(a):
    """{factors: coefficient}; what is of order zero in the Wilson coefficients is dropped where it is identically zero"""
    if isinstance(a, T):
        t = a.terms
    elif isinstance(a, np.ndarray):
        if any(as_num(v).t for v in a.flat):
            raise Unsupported("array of scalars among the tensors")
        t = {}
    else:
        t = {(): as_num(a)}
    out = {}
    for k, v in t.items():
        if not any(n in tens.NILT for n, _, _ in k):
            z = Num({m: c for m, c in v.t.items() if not symnum._deg(m)})
            if z.t and differ(z, Num.const(0)) is None:      # the Standard Model part cancels
                v = Num({m: c for m, c in v.t.items() if symnum._deg(m)})
        if v.t:
            out[k] = v
    return out


# ---------------------------------------------------------------- file
def dump(got):
    order, table = {}, []

    def atom(i):
        if i not in order:
            if ATOMS.kind[i] == "sym":
                row = ["sym", ATOMS.name[i]]
            else:
                row = [ATOMS.defn[i][0]] + [poly(a) for a in ATOMS.arg[i]]
            order[i] = len(table)
            table.append(row)
        return order[i]

    def poly(n):
        out = []
        for k, c in n.t.items():
            c = complex(c)
            out.append([c.real if c.imag == 0 else [c.real, c.imag], [[atom(i), e] for i, e in k]])
        return out
    ops = {op: [[[[n, bool(c), list(ix)] for n, c, ix in k], poly(v)] for k, v in as_terms(a).items()] for op, a in got.items()}
    return {"atoms": table, "terms": ops}


def load():
    d = json.loads(gzip.open(FILE).read())
    ids = []

    def poly(rows):
        t = {}
        for c, k in rows:
            m = tuple(sorted((ids[i], e) for i, e in k))
            t[m] = complex(*c) if isinstance(c, list) else c
        return Num(t)
    for row in d["atoms"]:
        if row[0] == "sym":
            n = row[1]
            if n.endswith("~"):
                i = ATOMS.conj[ATOMS.sym(n[:-1], False)]
            elif ("sym", n) in ATOMS.key:
                i = ATOMS.key["sym", n]
            elif "@" in n:
                base, ix = n.split("@")
                s = tens._entry((base, False, tuple(-1 - j for j in range(len(ix)))), tuple(int(c) for c in ix))
                i = list(s.t)[0][0][0]
            else:
                i = ATOMS.sym(n, True)
        else:
            i = ATOMS.fun(row[0], tuple(poly(a) for a in row[1:]))
        ids.append(i)
    return {op: {tuple((n, c, tuple(ix)) for n, c, ix in k): poly(v) for k, v in ts} for op, ts in d["terms"].items()}


# ---------------------------------------------------------------- comparison
def point(seed):
    r = random.Random(seed)
    env = {"v": r.uniform(2, 3), "mW": r.uniform(.7, .85), "mZ": r.uniform(.88, 1), "g3": r.uniform(1, 1.4), "scale": r.uniform(.6, 3)}
    return env


def differ(a, b):
    """None: equal for all values (normal forms); otherwise the difference. Raises Unsupported where the normal forms
    differ but no point separates them."""
    d = a - b
    mags = {k: max(abs(a.t.get(k, 0)), abs(b.t.get(k, 0))) for k in d.t}
    d = Num({k: v for k, v in d.t.items() if abs(v) > 1e-9 * mags[k]})
    if not d.t:
        return None
    if _separated(d, a, b):
        return d
    if _rounding(d, a, b) or is_zero(d, max(mags.values())):
        return None
    raise Unsupported("equality of two expressions not decided")


def _points(a, b):
    names = {ATOMS.name[i] for n in (a, b) for k in n.t for i, e in k if ATOMS.kind[i] == "sym"}
    for s in range(4):
        env = point(s)
        r = random.Random(s + 99)
        for n in sorted(names):
            n = n.rstrip("~")
            if n not in env:
                env[n] = complex(r.uniform(-1, 1), r.uniform(-1, 1)) if ("sym", n) in ATOMS.key and ATOMS.conj[ATOMS.key["sym", n]] != ATOMS.key["sym", n] else r.uniform(-1, 1)
        yield env


def _rounding(d, a, b):
    """every term of the difference is rounding left over from terms that cancel (all quantities are of order one: units of 100 GeV)"""
    for env in _points(a, b):
        size = sum(abs(evaluate(Num({k: c}), env)) for n in (a, b) for k, c in n.t.items())
        if sum(abs(evaluate(Num({k: c}), env)) for k, c in d.t.items()) > 1e-12 * size:
            return False
    return True


def _separated(d, a, b):
    for env in _points(a, b):
        v = evaluate(d, env)
        mag = sum(abs(evaluate(Num({k: c}), env)) for k, c in d.t.items())
        size = max(abs(evaluate(a, env)), abs(evaluate(b, env))) if b.t else 1e-6 * mag
        if abs(v) > 1e-7 * size and abs(v) > 1e-11 * mag:
            return True
    return False
