"""Symbolic scalars: Laurent polynomials with complex coefficients over atoms.

An atom is a symbol (real, or complex with a conjugate partner) or an opaque
function application (sqrt, exp, log, inverse of a non-monomial, abs ...).
Normal form = dict monomial -> complex coefficient, so equality of two scalars
built from + - * / conj is decided by comparing normal forms; machine
arithmetic is treated as exact (coefficients are doubles, compared with a
relative tolerance TOL).
"""
import cmath, math, numbers, os, sys
import numpy as _np
from fractions import Fraction

TOL = 1e-9


class Unsupported(Exception):
    """The engine has no semantics for this construct (undecided, not a failure)."""


class _Atoms:
    def __init__(self):
        self.reset()

    def reset(self):
        self.name = []      # display name
        self.conj = []      # id of conjugate atom
        self.kind = []      # 'sym' | 'fun'
        self.defn = []      # for 'fun': (fname, tuple of frozen args)
        self.arg = []       # for 'fun': Num args
        self.key = {}

    def sym(self, name, real):
        k = ("sym", name)
        if k in self.key:
            i = self.key[k]
            if (self.conj[i] == i) != bool(real):
                raise ValueError(f"symbol {name} redeclared with other reality")
            return i
        i = self._new(name, "sym", None, None)
        self.key[k] = i
        if real:
            self.conj[i] = i
        else:
            j = self._new(name + "~", "sym", None, None)
            self.key[("symc", name)] = j
            self.conj[i] = j
            self.conj[j] = i
        return i

    def _new(self, name, kind, defn, arg):
        self.name.append(name)
        self.conj.append(None)
        self.kind.append(kind)
        self.defn.append(defn)
        self.arg.append(arg)
        return len(self.name) - 1

    def fun(self, fname, args):
        k = (fname,) + tuple(a.frozen() for a in args)
        if k in self.key:
            return self.key[k]
        i = self._new(f"{fname}({', '.join(map(str, args))})", "fun", k, args)
        self.key[k] = i
        cargs = [a.conjugate() for a in args]
        ck = (fname,) + tuple(a.frozen() for a in cargs)
        if fname in ("abs", "angle") or ck == k:
            self.conj[i] = i
        else:
            j = self._new(f"{fname}({', '.join(map(str, cargs))})", "fun", ck, cargs)
            self.key[ck] = j
            self.conj[i] = j
            self.conj[j] = i
        return i


ATOMS = _Atoms()


def _mul_mono(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for i, e in b:
        n = d.get(i, 0) + e
        if n:
            d[i] = n
        else:
            d.pop(i, None)
    return tuple(sorted(d.items()))


class Num:
    __slots__ = ("t",)
    __array_ufunc__ = None  # replaced below: numpy scalars defer to us
    __array_priority__ = 1000

    def __init__(self, t):
        self.t = t

    # -- construction
    @staticmethod
    def const(c):
        c = complex(c)
        return Num({(): c}) if c != 0 else Num({})

    @staticmethod
    def sym(name, real=False):
        return Num({((ATOMS.sym(name, real), 1),): 1 + 0j})

    @staticmethod
    def fun(fname, *args):
        return Num({((ATOMS.fun(fname, list(args)), 1),): 1 + 0j})

    # -- inspection
    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const_value(self):
        return self.t.get((), 0j) if self.is_const() else None

    def cleaned(self):
        if not self.t:
            return self
        m = max(abs(v) for v in self.t.values())
        return Num({k: v for k, v in self.t.items() if abs(v) > 1e-13 * max(m, 1e-300)})

    def frozen(self):
        return frozenset((k, complex(float(f"{v.real:.11e}") + 0.0, float(f"{v.imag:.11e}") + 0.0))
                         for k, v in self.cleaned().t.items())

    def is_real(self):
        return is_zero(self - self.conjugate())

    def atoms(self):
        return {i for k in self.t for i, _ in k}

    def __repr__(self):
        if not self.t:
            return "0"
        out = []
        for k, v in list(self.t.items())[:6]:
            m = "*".join(ATOMS.name[i] + (f"^{e}" if e != 1 else "") for i, e in k)
            c = f"{v.real:.6g}" if v.imag == 0 else f"({v.real:.6g}{v.imag:+.6g}j)"
            out.append(m if (c == "1" and m) else c + ("*" + m if m else ""))
        return " + ".join(out) + (" + ..." if len(self.t) > 6 else "")

    # -- arithmetic
    def __add__(self, o):
        o = as_num(o)
        if o is NotImplemented:
            return o
        if len(o.t) > len(self.t):
            a, b = o.t, self.t
        else:
            a, b = self.t, o.t
        t = dict(a)
        for k, v in b.items():
            n = t.get(k)
            if n is None:
                t[k] = v
            else:
                s = n + v
                if abs(s) <= 1e-14 * (abs(n) + abs(v)):
                    del t[k]
                else:
                    t[k] = s
        return Num(t)

    __radd__ = __add__

    def __neg__(self):
        return Num({k: -v for k, v in self.t.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = as_num(o)
        if o is NotImplemented:
            return o
        return self + (-o)

    def __rsub__(self, o):
        o = as_num(o)
        if o is NotImplemented:
            return o
        return o + (-self)

    def __mul__(self, o):
        if isinstance(o, (int, float, complex)):
            if o == 0:
                return Num({})
            if o == 1:
                return self
            c = complex(o)
            return Num({k: v * c for k, v in self.t.items()})
        o = as_num(o)
        if o is NotImplemented:
            return o
        t = {}
        A, B = self.t.items(), o.t.items()
        if NILP:
            A = [(k, v, _deg(k)) for k, v in A]
            z = [(k, v) for k, v in B if not _deg(k)]
            for k1, v1, d in A:
                for k2, v2 in (z if d else B):
                    k = _mul_mono(k1, k2)
                    v = v1 * v2
                    n = t.get(k)
                    t[k] = v if n is None else n + v
            return _reduce(Num({k: v for k, v in t.items() if v != 0}))
        for k1, v1 in A:
            for k2, v2 in B:
                k = _mul_mono(k1, k2)
                v = v1 * v2
                n = t.get(k)
                t[k] = v if n is None else n + v
        r = Num({k: v for k, v in t.items() if v != 0})
        return _reduce(r)

    __rmul__ = __mul__

    def inverse(self):
        if not self.t:
            raise ZeroDivisionError("division by symbolic zero")
        if NILP:
            a, b = _split(self)
            if b is not None:
                i = a.inverse()
                return i - b * i * i
        s = simplify(self.cleaned())
        if len(s.t) == 1:
            (k, v), = s.t.items()
            if any(ATOMS.kind[i] == "fun" and ATOMS.defn[i][0] == "inv" for i, e in k):
                r = Num.const(1 / v)
                for i, e in k:
                    if ATOMS.kind[i] == "fun" and ATOMS.defn[i][0] == "inv" and e > 0:
                        r = r * ATOMS.arg[i][0] ** e
                    else:
                        r = r * Num({((i, -e),): 1 + 0j})
                return r
            return Num({tuple((i, -e) for i, e in k): 1 / v})
        # pull out a common monomial and the leading coefficient for canonicity
        m, s = common_monomial(s)
        k0 = min(s.t)
        c = s.t[k0]
        r = Num.fun("inv", s * (1 / c)) * (1 / c)
        return r if not m else r * Num({m: 1 + 0j}).inverse()

    def __truediv__(self, o):
        if isinstance(o, (int, float, complex)):
            if o == 0:
                raise ZeroDivisionError
            c = complex(o)
            return Num({k: v / c for k, v in self.t.items()})
        o = as_num(o)
        if o is NotImplemented:
            return o
        r = self * o.inverse()
        return simplify(r) if len(o.t) > 1 else r

    def __rtruediv__(self, o):
        o = as_num(o)
        if o is NotImplemented:
            return o
        return o * self.inverse()

    def __pow__(self, n):
        if getattr(n, "ndim", 0):
            return NotImplemented
        if isinstance(n, Num):
            c = n.const_value()
            if c is None:
                return _power(self, n)
            n = c.real if c.imag == 0 else c
        if isinstance(n, float) and n == int(n):
            n = int(n)
        if isinstance(n, (int,)) or hasattr(n, "__index__"):
            n = int(n)
            if n < 0:
                return (self ** (-n)).inverse()
            r = Num.const(1)
            b = self
            while n:
                if n & 1:
                    r = r * b
                b = b * b if n > 1 else b
                n >>= 1
            return r
        if isinstance(n, float) and abs(2 * n - round(2 * n)) < 1e-12:
            k = int(round(2 * n))
            return self.sqrt() ** k
        c = self.const_value()
        if c is not None:
            return Num.const(c ** n)
        return Num.fun("pow", self, Num.const(n))

    def __rpow__(self, b):
        b = as_num(b)
        if b is NotImplemented:
            return b
        return _power(b, self)

    # -- complex structure
    def conjugate(self):
        cj = ATOMS.conj
        return Num({tuple(sorted((cj[i], e) for i, e in k)): v.conjugate() for k, v in self.t.items()})

    conj = conjugate

    @property
    def real(self):
        return (self + self.conjugate()) * 0.5

    @property
    def imag(self):
        return (self - self.conjugate()) * (-0.5j)

    # numpy object ufuncs look up these methods
    def sqrt(self):
        c = self.const_value()
        if c is not None:
            return Num.const(cmath.sqrt(c))
        if NILP:
            a, b = _split(self)
            if b is not None:
                r = a.sqrt()
                return r + b * r.inverse() * 0.5
        s = simplify(self.cleaned())
        if len(s.t) == 1:
            (k, v), = s.t.items()
            # sqrt(c * m^2) = sqrt(c) |m| : only for atoms declared positive
            if all(e % 2 == 0 and ATOMS.name[i] in POSITIVE for i, e in k):
                return Num({tuple((i, e // 2) for i, e in k): cmath.sqrt(v)})
        for h in SQRT_HINTS:
            # the caller's lemma: s = h^2, hence sqrt(s) = |h|
            if is_zero(s - h * h, scale=max(abs(v) for v in s.t.values())):
                if len(h.t) == 1:
                    (k, v), = h.t.items()
                    if v.imag == 0 and all(ATOMS.name[i] in POSITIVE for i, e in k):
                        return h * (1 if v.real > 0 else -1)
                return h if h >= 0 else -h
        return Num.fun("sqrt", s)

    def _u(self, name, f):
        c = self.const_value()
        if c is not None:
            r = f(c.real) if c.imag == 0 else getattr(cmath, name)(c)
            return Num.const(r)
        if NILP:
            a, b = _split(self)
            if b is not None:
                if name not in ("log", "exp"):
                    raise Unsupported(f"{name} to first order")
                return getattr(a, name)() + b * (a.inverse() if name == "log" else a.exp())
        return Num.fun(name, simplify(self))

    def exp(self):
        return self._u("exp", math.exp)

    def log(self):
        if NILP and _split(self)[1] is not None:
            return self._u("log", math.log)
        s = self.cleaned()
        if len(s.t) == 1 and not s.is_const():
            # log of a monomial in positive quantities
            (k, v), = s.t.items()
            if v.imag == 0 and v.real > 0 and all(ATOMS.name[i] in POSITIVE for i, e in k):
                r = Num.const(math.log(v.real))
                for i, e in k:
                    r = r + Num.fun("log", Num({((i, 1),): 1 + 0j})) * e
                return r
        return self._u("log", math.log)

    def log10(self):
        return self._u("log10", math.log10)

    def sin(self):
        return self._u("sin", math.sin)

    def cos(self):
        return self._u("cos", math.cos)

    def tan(self):
        return self._u("tan", math.tan)

    def arctan(self):
        return self._u("atan", math.atan)

    def __abs__(self):
        c = self.const_value()
        if c is not None:
            return Num.const(abs(c))
        if NILP:
            a, b = _split(self)
            if b is not None:
                # |z| to first order: |a| + Re(conj(a) b) / |a|
                m = abs(a)
                return m + (a.conjugate() * b).real * m.inverse()
        if Ctx.cur is not None and self.is_real():
            return self if self >= 0 else -self
        pos, rest, ph = split_positive(self)
        r = rest * (1 / ph)
        c = r.const_value()
        return pos * abs(c) if c is not None else pos * Num.fun("abs", r)

    # -- comparisons
    def __eq__(self, o):
        o = as_num(o)
        if o is NotImplemented:
            return False
        return cmp_zero(self - o, "==")

    def __ne__(self, o):
        o = as_num(o)
        if o is NotImplemented:
            return True
        return cmp_zero(self - o, "!=")

    def __lt__(self, o):
        return cmp_zero(self - as_num(o), "<")

    def __le__(self, o):
        return cmp_zero(self - as_num(o), "<=")

    def __gt__(self, o):
        return cmp_zero(self - as_num(o), ">")

    def __ge__(self, o):
        return cmp_zero(self - as_num(o), ">=")

    def __hash__(self):
        c = self.const_value()
        if c is not None:
            return hash(c)
        return hash(self.frozen())

    def __bool__(self):
        return bool(self != 0)

    def __float__(self):
        c = self.const_value()
        if c is not None and abs(c.imag) <= TOL * abs(c):
            return float(c.real)
        raise Unsupported("float() of a symbolic value")

    def __complex__(self):
        c = self.const_value()
        if c is not None:
            return complex(c)
        raise Unsupported("complex() of a symbolic value")

    def __int__(self):
        return int(float(self))

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def copy(self):
        return self

    def __reduce__(self):
        raise Unsupported("pickling a symbolic value")

    def __format__(self, spec):
        if self.is_const():
            c = self.const_value()
            return format(c.real if c.imag == 0 else c, spec)
        from . import text
        return text.embed(self, spec)

    __str__ = __repr__
    shape = ()
    ndim = 0
    size = 1

    def item(self):
        return self


del Num.__array_ufunc__
numbers.Number.register(Num)
SQRT_HINTS = []
NILP = set()          # atoms of which products vanish: expansion to first order in these


def _deg(k):
    return sum(e for i, e in k if i in NILP)


def _split(n):
    """n = n0 + n1, n1 of first order in the nilpotent atoms (None: nothing of first order)"""
    t1 = {k: v for k, v in n.t.items() if _deg(k)}
    if not t1:
        return n, None
    return Num({k: v for k, v in n.t.items() if k not in t1}), Num(t1)

def _power(b, n):
    """b ** n with a symbolic exponent: for a positive monomial b the product of exp(term * log(atom)) over the terms of n"""
    s = simplify(b.cleaned())
    if len(s.t) != 1 or not all(ATOMS.name[i] in POSITIVE for k in s.t for i, _ in k):
        return Num.fun("pow", b, n)
    (k, v), = s.t.items()
    if v.imag != 0 or v.real <= 0:
        return Num.fun("pow", b, n)
    n = simplify(n.cleaned())
    out = Num.const(1)
    for base, e in [(Num.const(v.real), 1)] * (v.real != 1) + [(Num({((i, 1),): 1 + 0j}), e) for i, e in k]:
        for m, c in n.t.items():
            ce = c * e
            if m == () and ce.imag == 0 and abs(ce.real - round(ce.real)) < 1e-12:
                out = out * base ** int(round(ce.real))
            else:
                lead = 1
                if ce.imag == 0 and ce.real < 0:
                    ce, lead = -ce, -1
                out = out * Num.fun("exp", Num({m: ce}) * base.log()) ** lead
    return out


def split_positive(n):
    """n = pos * rest with pos the positive scalar and monomial content over positive atoms (a unique choice); ph: phase of a term of rest"""
    n = simplify(n.cleaned())
    if not n.t:
        return Num.const(1), n, 1.0
    lo = None
    for k in n.t:
        d = {i: e for i, e in k if ATOMS.name[i] in POSITIVE}
        lo = d if lo is None else {i: min(e, d.get(i, 0)) for i, e in lo.items()} | {i: min(e, 0) for i, e in d.items() if i not in lo}
    mono = tuple(sorted((i, e) for i, e in lo.items() if e))
    inv = tuple((i, -e) for i, e in mono)
    c = n.t[min(n.t)]
    pos = Num({mono: complex(abs(c))})
    rest = Num({_mul_mono(k, inv): v / abs(c) for k, v in n.t.items()})
    return pos, rest, c / abs(c)


POSITIVE = set()   # names of symbols assumed > 0


def as_num(x):
    if isinstance(x, Num):
        return x
    if isinstance(x, (int, float, complex)):
        return Num.const(x)
    if isinstance(x, Fraction):
        return Num.const(float(x))
    if isinstance(x, (_np.generic, _np.ndarray)) and x.ndim == 0 and x.dtype.kind in "bifcu":
        return Num.const(x.item())
    return NotImplemented


def _reduce(n):
    """sqrt(p)^2 -> p, inv(p)*... left alone (cleared in is_zero)."""
    bad = None
    for k in n.t:
        for i, e in k:
            if (e >= 2 or e <= -2) and ATOMS.kind[i] == "fun" and ATOMS.defn[i][0] == "sqrt":
                bad = i
                break
        if bad is not None:
            break
    if bad is None:
        return n
    p = ATOMS.arg[bad][0]
    out = Num({})
    for k, v in n.t.items():
        d = dict(k)
        e = d.get(bad, 0)
        if e >= 2 or e <= -2:
            q, r = divmod(abs(e), 2)
            s = 1 if e > 0 else -1
            d[bad] = r * s
            if not r:
                del d[bad]
            base = Num({tuple(sorted(d.items())): v})
            out = out + base * (p ** (s * q))
        else:
            out = out + Num({k: v})
    return _reduce(out)


def common_monomial(s):
    lo = None
    for k in s.t:
        d = dict(k)
        if lo is None:
            lo = d
        else:
            lo = {i: min(e, d.get(i, 0)) for i, e in lo.items()} | {i: min(e, 0) for i, e in d.items() if i not in lo}
    m = tuple(sorted((i, e) for i, e in (lo or {}).items() if e))
    if not m:
        return m, s
    inv = tuple((i, -e) for i, e in m)
    return m, Num({_mul_mono(k, inv): v for k, v in s.t.items()})


def _divide(a, p):
    """exact quotient of two Laurent polynomials, or None"""
    ma, a = common_monomial(a)
    mp, p = common_monomial(p)
    ids = sorted({i for q in (a, p) for k in q.t for i, e in k})
    vec = lambda k: tuple(dict(k).get(i, 0) for i in ids)
    A = {vec(k): v for k, v in a.t.items()}
    P = {vec(k): v for k, v in p.t.items()}
    lead = max(P)
    big = max(abs(v) for v in A.values())
    Q = {}
    for _ in range(4 * len(A) + 50):
        if not A:
            break
        t = max(A)
        d = tuple(x - y for x, y in zip(t, lead))
        if any(x < 0 for x in d):
            return None
        c = A[t] / P[lead]
        Q[d] = c
        for k, v in P.items():
            kk = tuple(x + y for x, y in zip(k, d))
            n = A.get(kk, 0) - c * v
            if abs(n) <= 1e-11 * max(abs(c * v), abs(A.get(kk, 0)), 1e-6 * big):
                A.pop(kk, None)
            else:
                A[kk] = n
        A.pop(t, None)
    if A:
        return None
    out = Num({tuple((i, e) for i, e in zip(ids, k) if e): v for k, v in Q.items()})
    m = _mul_mono(ma, tuple((i, -e) for i, e in mp))
    return out * Num({m: 1 + 0j}) if m else out


def simplify(n):
    """cancel inv(p) atoms against multiples of p (p assumed nonzero)"""
    seen = set()
    for _ in range(12):
        target = None
        for k in n.t:
            for i, e in k:
                if i not in seen and ATOMS.kind[i] == "fun" and ATOMS.defn[i][0] == "inv":
                    target = i
                    break
            if target is not None:
                break
        if target is None or len(n.t) > 400:
            return n
        seen.add(target)
        p = ATOMS.arg[target][0]
        parts = {}
        for k, v in n.t.items():
            d = dict(k)
            e = d.pop(target, 0)
            parts.setdefault(e, {})[tuple(sorted(d.items()))] = v
        top = max(parts)
        if top <= 0:
            continue
        a = Num({})
        for e, t in parts.items():
            a = a + Num(t) * p ** (top - e)
        a = a.cleaned()
        while top > 0 and a.t:
            q = _divide(a, p)
            if q is None:
                break
            a, top = q, top - 1
        if top and len(a.t) > 200:
            return n
        n = a * Num({((target, top),): 1 + 0j}) if top and a.t else a
    return n


def _clear_inv(n):
    """multiply away inv(p) atoms and negative powers of sqrt atoms (p assumed nonzero)."""
    for _ in range(20):
        target = None
        for k in n.t:
            for i, e in k:
                if ATOMS.kind[i] == "fun" and ATOMS.defn[i][0] == "inv":
                    target = i
                    break
            if target is not None:
                break
        if target is None:
            # negative powers: multiply through
            mins = {}
            for k in n.t:
                for i, e in k:
                    if e < 0:
                        mins[i] = min(mins.get(i, 0), e)
            if not mins:
                return n
            f = Num({tuple(sorted((i, -e) for i, e in mins.items())): 1 + 0j})
            n2 = n * f
            if n2.t.keys() == n.t.keys():
                return n2
            n = n2
            continue
        p = ATOMS.arg[target][0]
        mx = max(dict(k).get(target, 0) for k in n.t)
        mn = min(dict(k).get(target, 0) for k in n.t)
        out = Num({})
        for k, v in n.t.items():
            d = dict(k)
            e = d.pop(target, 0)
            out = out + Num({tuple(sorted(d.items())): v}) * p ** (mx - e)
        n = out
    raise Unsupported("clearing denominators")


def is_zero(n, scale=None):
    if not isinstance(n, Num):
        return abs(n) <= TOL
    if not n.t:
        return True
    m = max(abs(v) for v in n.t.values())
    if m <= TOL * (scale if scale is not None else 1e-4):
        return True
    if any(e < 0 or ATOMS.kind[i] == "fun" for k in n.t for i, e in k):
        n = _clear_inv(n)
        if not n.t:
            return True
        m = max(abs(v) for v in n.t.values())
        return m <= TOL * (scale if scale is not None else 1e-4)
    return False


class Ctx:
    """comparison policy / path state; set by the path explorer"""
    cur = None


CMP_HINTS = []


HINTS = {}           # line of the code under test -> comparisons decided (or not decidable) there at a generic point
_ROOT = [None]


def _hint(d, op):
    """remember what the code compared with zero: the harness tries inputs on either side"""
    if len(HINTS) > 60:
        return
    if _ROOT[0] is None:
        _ROOT[0] = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "wilson")
    f = sys._getframe(2)
    for _ in range(25):
        if f is None:
            return
        if f.f_code.co_filename.startswith(_ROOT[0]):
            h = HINTS.setdefault((f.f_code.co_filename, f.f_lineno), [])
            if len(h) < 3 or op not in ("==", "!=") and len(h) < 6:
                h.append((d, op))
            return
        f = f.f_back


GENERIC = [0]        # equality tests decided for generic values (harness: such obligations also get the special value profiles)


def cmp_zero(d, op):
    for h in CMP_HINTS:
        if d.t and is_zero(d - h, scale=max(abs(v) for v in d.t.values())):
            d = h
            break
    c = d.cleaned().const_value()
    if c is not None or is_zero(d):
        c = 0j if (c is None or abs(c) < 1e-13) else c
        if op == "==":
            return c == 0
        if op == "!=":
            return c != 0
        x = c.real
        return {"<": x < 0, "<=": x <= 0, ">": x > 0, ">=": x >= 0}[op]
    if Ctx.cur is None:
        # generic point: a non-zero normal form is non-zero
        if GENERIC[0] < 5000:
            _hint(d, op)
        if op in ("==", "!="):
            GENERIC[0] += 1
        if op == "==":
            return False
        if op == "!=":
            return True
        raise Unsupported(f"comparison {d} {op} 0 outside a path explorer")
    return Ctx.cur.decide(simplify(d), op)


# ------------------------------------------------------------- evaluation
def evaluate(n, env):
    """numeric value of n for env: symbol name -> number"""
    if not isinstance(n, Num):
        return n
    r = 0j
    for k, v in n.t.items():
        x = v
        for i, e in k:
            x = x * atom_value(i, env) ** e
        r += x
    return r


def atom_value(i, env):
    if ATOMS.kind[i] == "sym":
        nm = ATOMS.name[i]
        if nm.endswith("~"):
            return complex(env[nm[:-1]]).conjugate()
        return env[nm]
    f = ATOMS.defn[i][0]
    a = [evaluate(x, env) for x in ATOMS.arg[i]]
    if f == "inv":
        return 1 / a[0]
    if f == "pow":
        return a[0] ** a[1]
    if f == "abs":
        return abs(a[0])
    if f in FUNVAL:
        return FUNVAL[f](*a)
    x = a[0]
    return getattr(cmath, f)(x)


FUNVAL = {}
