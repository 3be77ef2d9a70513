"""numpy/math/builtins shim injected into the globals of the verified modules.

Only the *meaning of the library calls* is replaced (numpy arrays of symbolic
scalars instead of machine numbers); the verified function objects are the
real ones.  patched() scans every wilson module for references to numpy, math
and numpy/math functions (however imported) and swaps them for the duration of
a symbolic run.
"""
import builtins, cmath, contextlib, copy as _copy, math, sys, types
import numpy as np
from .num import Num, as_num, Unsupported, split_positive
from .arr import SymArr, RealView, ImagView, _View, has_sym, _wrapres, _isreal

def _identity(x, *a, **k):
    return x


REG = {}          # original callable -> replacement
TENSOR = []       # predicates/handlers of other engines: (test, dispatch)


def _dtype_kind(dtype, default):
    if dtype is None:
        return default
    if dtype in (complex, np.complex128, "complex", "complex128", np.complex64):
        return "c"
    if dtype in (float, np.float64, "float", "float64"):
        return "f"
    try:
        k = np.dtype(dtype).kind
    except TypeError:
        return default
    return {"c": "c", "f": "f"}.get(k, k)


def _norm(x):
    if isinstance(x, _View):
        return x._get()
    if isinstance(x, np.ndarray) and not isinstance(x, SymArr) and x.dtype == object and has_sym(x):
        return SymArr.wrap(x, "c")
    return x


def _to_obj(x):
    """nested lists / arrays -> object ndarray of the right shape"""
    x = _norm(x)
    if isinstance(x, np.ndarray):
        return x.view(np.ndarray).astype(object) if not isinstance(x, SymArr) else np.array(x.view(np.ndarray), dtype=object, copy=True)
    if isinstance(x, (list, tuple)):
        parts = [_to_obj(v) for v in x]
        if not parts:
            return np.empty((0,), dtype=object)
        sh = parts[0].shape
        if any(p.shape != sh for p in parts):
            raise ValueError("inhomogeneous shape")
        out = np.empty((len(parts),) + sh, dtype=object)
        for i, p in enumerate(parts):
            out[i] = p if sh else p[()]
        return out
    o = np.empty((), dtype=object)
    o[()] = x
    return o


def _symbolic(*xs):
    for x in xs:
        if isinstance(x, (Num, SymArr, _View)):
            return True
        if isinstance(x, (list, tuple)) and _symbolic(*x):
            return True
        if isinstance(x, dict) and _symbolic(*x.values()):
            return True
    return False


def _kind_of(x):
    x = _norm(x)
    if isinstance(x, SymArr):
        return x.kind
    if isinstance(x, np.ndarray):
        return "c" if x.dtype.kind == "c" else "f"
    if isinstance(x, (list, tuple)):
        return "c" if any(_kind_of(v) == "c" for v in x) else "f"
    if isinstance(x, Num):
        return "f" if x.is_real() else "c"
    return "c" if isinstance(x, (complex, np.complexfloating)) else "f"


def f_array(x, dtype=None, copy=True, **kw):
    for test, disp in TENSOR:
        if test(x):
            return disp("array", (x,), {})
    x = _norm(x)
    if not _symbolic(x):
        return np.array(x, dtype=dtype, copy=copy, **kw) if not _mode["force"] or not _numericlike(x) else \
            _force(np.array(x, dtype=dtype, copy=copy, **kw))
    x = _norm(x)
    k = _dtype_kind(dtype, _kind_of(x))
    if k not in "cfO":
        raise Unsupported(f"array of dtype {dtype}")
    o = _to_obj(x)
    if k == "f" and _kind_of(x) == "c":
        if isinstance(x, (list, tuple)):
            raise TypeError("float() argument must be a string or a real number, not 'complex'")
        o = np.frompyfunc(lambda v: v.real if hasattr(v, "real") else v, 1, 1)(o)
        o = _to_obj(o)
    if k == "O":
        k = _kind_of(x)
    return _wrapres(o, k)


def _numericlike(x):
    try:
        return np.asarray(x).dtype.kind in "fc"
    except Exception:
        return False


def _force(a):
    if isinstance(a, np.ndarray) and a.dtype == object and not isinstance(a, SymArr):
        return SymArr.wrap(a, "c")
    if isinstance(a, np.ndarray) and a.dtype.kind in "fc" and not isinstance(a, SymArr):
        return _wrapres(a.astype(object), "c" if a.dtype.kind == "c" else "f")
    return a


def f_asarray(x, dtype=None, **kw):
    for test, disp in TENSOR:
        if test(x):
            return disp("array", (x,), {})
    x = _norm(x)
    if isinstance(x, SymArr):
        k = _dtype_kind(dtype, x.kind)
        return x if k == x.kind else x.astype(complex if k == "c" else float)
    return f_array(x, dtype=dtype)


def _ctor(fn):
    def f(shape, dtype=None, *a, **kw):
        r = fn(shape, *a, **kw) if dtype is None else fn(shape, dtype=dtype, **kw)
        return _force(r)
    f.__name__ = fn.__name__
    return f


def f_empty(shape, dtype=None, **kw):
    r = np.zeros(shape, dtype=dtype or float)
    r = _force(r)
    if isinstance(r, SymArr):
        for i in np.ndindex(r.shape):
            np.ndarray.__setitem__(r, i, float("nan"))
    return r


def f_full(shape, fill_value, dtype=None, **kw):
    k = _dtype_kind(dtype, _kind_of(fill_value))
    o = np.empty(shape, dtype=object)
    for i in np.ndindex(o.shape):
        o[i] = fill_value
    return _wrapres(o, k)


def _like(fn):
    def f(a, dtype=None, **kw):
        a = _norm(a)
        if isinstance(a, SymArr):
            return _force(fn(a.shape, dtype=complex if _dtype_kind(dtype, a.kind) == "c" else float))
        if np.asarray(a).dtype.kind in "fc":
            return _force(fn(np.shape(a), dtype=dtype or np.asarray(a).dtype))
        return fn(np.shape(a), dtype=dtype or np.asarray(a).dtype)
    return f


def f_eye(n, *a, **kw):
    return _force(np.eye(n, *a, **kw))


def f_einsum(sub, *ops, **kw):
    for test, disp in TENSOR:
        if any(test(o) for o in ops):
            return disp("einsum", (sub,) + ops, kw)
    ops = [_norm(o) for o in ops]
    if not _symbolic(*ops):
        return np.einsum(sub, *ops, **kw)
    return einsum_obj(sub, ops)


def einsum_obj(sub, ops):
    sub = sub.replace(" ", "")
    if "->" in sub:
        ins, out = sub.split("->")
    else:
        ins = sub
        letters = sorted(set(ins.replace(",", "")))
        out = "".join(l for l in letters if ins.count(l) == 1)
    ins = ins.split(",")
    kinds = [_kind_of(o) for o in ops]
    arrs = [_to_obj(o) for o in ops]
    if len(ins) != len(arrs):
        raise ValueError("einsum: number of operands")
    for s, a in zip(ins, arrs):
        if "." in s:
            raise Unsupported("einsum ellipsis")
        if len(s) != a.ndim:
            raise ValueError("einstein sum subscripts string does not match operand dimensions")
    dims = {}
    for s, a in zip(ins, arrs):
        for l, n in zip(s, a.shape):
            if dims.setdefault(l, n) != n:
                raise ValueError("operands could not be broadcast together")
    # sequential contraction over sparse dict tensors, smallest first
    def sparse(s, a):
        d = {}
        for idx in np.ndindex(a.shape):
            v = a[idx]
            if isinstance(v, Num):
                if not v.t:
                    continue
            elif v == 0:
                continue
            key = {}
            ok = True
            for l, i in zip(s, idx):
                if key.setdefault(l, i) != i:
                    ok = False
                    break
            if ok:
                ls = sorted(set(s))
                d[tuple(key[l] for l in ls)] = as_num(v)
        return sorted(set(s)), d
    terms = [sparse(s, a) for s, a in zip(ins, arrs)]
    # contract: start from the largest operand, fold in the others one by one
    terms.sort(key=lambda t: -len(t[0]))
    cur = terms.pop(0)
    while terms:
        terms.sort(key=lambda t: -len(set(t[0]) & set(cur[0])))
        nxt = terms.pop(0)
        rest = set(out)
        for t in terms:
            rest |= set(t[0])
        cl, cd = cur
        nl, nd = nxt
        common = [l for l in nl if l in cl]
        keep = sorted(l for l in set(cl) | set(nl) if l in rest)
        byc = {}
        ci = [nl.index(l) for l in common]
        for k, v in nd.items():
            byc.setdefault(tuple(k[i] for i in ci), []).append((k, v))
        cci = [cl.index(l) for l in common]
        src = [(0, cl.index(l)) if l in cl else (1, nl.index(l)) for l in keep]
        res = {}
        for k, v in cd.items():
            for k2, v2 in byc.get(tuple(k[i] for i in cci), ()):
                kk = tuple(k[i] if w == 0 else k2[i] for w, i in src)
                p = v * v2
                if kk in res:
                    _iadd(res[kk], p)
                else:
                    res[kk] = dict(p.t)
        cur = (keep, {k: _clean(v) for k, v in res.items()})
    cl, cd = cur
    o = np.empty(tuple(dims[l] for l in out), dtype=object)
    for i in np.ndindex(o.shape):
        o[i] = Num.const(0)
    pos = [cl.index(l) for l in out]
    for k, v in cd.items():
        kk = tuple(k[i] for i in pos)
        o[kk] = o[kk] + v
    kind = "c" if "c" in kinds else "f"
    if not out:
        return o[()]
    return _wrapres(o, kind)


def _iadd(t, p):
    for k, v in p.t.items():
        n = t.get(k)
        t[k] = v if n is None else n + v


def _clean(t):
    return Num({k: v for k, v in t.items() if abs(v) > 1e-15})


def f_dot(a, b):
    a, b = _norm(a), _norm(b)
    if isinstance(a, Num) or isinstance(b, Num) or np.ndim(a) == 0 or np.ndim(b) == 0:
        return a * b
    from .arr import _mm
    return _mm(a, b)


def f_trace(a, *r, **k):
    for test, disp in TENSOR:
        if test(a):
            return disp("trace", (a,) + r, k)
    a = _norm(a)
    if isinstance(a, SymArr):
        return a.trace()
    return np.trace(a, *r, **k)


def _unary(name, fn):
    def f(x, *a, **k):
        for test, disp in TENSOR:
            if test(x):
                return disp(name, (x,) + a, k)
        x = _norm(x)
        if isinstance(x, Num):
            return getattr(x, name)()
        if isinstance(x, SymArr):
            return getattr(np, name)(x) if hasattr(np, name) else np.frompyfunc(lambda v: getattr(as_num(v), name)(), 1, 1)(x)
        return fn(x, *a, **k)
    return f


def f_abs(x):
    x = _norm(x)
    if isinstance(x, Num):
        return abs(x)
    return np.abs(x)


def f_angle(x, deg=False):
    x = _norm(x)
    if isinstance(x, Num) and not x.is_const():
        return Num.fun("angle", split_positive(x)[1])
    return np.angle(complex(x) if isinstance(x, Num) else x, deg)


def f_real(x):
    for test, disp in TENSOR:
        if test(x):
            return disp("real", (x,), {})
    return x.real if hasattr(x, "real") else x


def f_imag(x):
    for test, disp in TENSOR:
        if test(x):
            return disp("imag", (x,), {})
    return x.imag if hasattr(x, "imag") else 0


def f_conj(x, *a, **k):
    for test, disp in TENSOR:
        if test(x):
            return disp("conj", (x,), {})
    return _norm(x).conjugate() if hasattr(x, "conjugate") else x


def f_hstack(xs, **kw):
    if not _symbolic(*xs):
        return np.hstack(xs, **kw)
    k = "c" if any(_kind_of(x) == "c" for x in xs) else "f"
    parts = [np.atleast_1d(_to_obj(x)) for x in xs]
    return _wrapres(np.concatenate(parts, axis=0 if parts[0].ndim == 1 else 1), k)


def f_concatenate(xs, axis=0, **kw):
    if not _symbolic(*xs):
        return np.concatenate(xs, axis=axis, **kw)
    k = "c" if any(_kind_of(x) == "c" for x in xs) else "f"
    return _wrapres(np.concatenate([_to_obj(x) for x in xs], axis=axis), k)


def f_diag(x, k=0):
    x = _norm(x)
    if not _symbolic(x):
        return np.diag(x, k)
    if not isinstance(x, SymArr):
        x = f_array(x)
    if x.ndim == 1:
        n = len(x) + abs(k)
        o = np.zeros((n, n), dtype=object)
        for i in range(len(x)):
            o[(i, i + k) if k >= 0 else (i - k, i)] = x[i]
        return _wrapres(o, x.kind)
    return _wrapres(np.diag(x.view(np.ndarray), k).copy(), x.kind)


def f_shape(x):
    if isinstance(x, Num):
        return ()
    x = _norm(x)
    return x.shape if isinstance(x, np.ndarray) else np.shape(x)


def f_isnan(x):
    x = _norm(x)
    if isinstance(x, Num):
        return bool(np.isnan(complex(x))) if x.is_const() else False
    return np.isnan(x)


def f_isrealobj(x):
    return _kind_of(x) == "f"


def f_iscomplexobj(x):
    return _kind_of(x) == "c"


def f_inv(a):
    a = _norm(a)
    if not _symbolic(a):
        return np.linalg.inv(a)
    if not has_sym(a):
        return _force(np.linalg.inv(a.numeric()))
    n = a.shape[0]
    if a.shape != (n, n) or n > 3:
        raise Unsupported("inverse of a symbolic matrix")
    M = [[as_num(a[i, j]) for j in range(n)] for i in range(n)]

    def det(m):
        if len(m) == 1:
            return m[0][0]
        return sum(((-1) ** j * m[0][j] * det([r[:j] + r[j + 1:] for r in m[1:]]) for j in range(len(m))), Num.const(0))
    di = det(M).inverse()
    o = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            mi = [r[:i] + r[i + 1:] for k, r in enumerate(M) if k != j]
            o[i, j] = ((-1) ** (i + j) * det(mi) if mi else Num.const(1)) * di
    return _wrapres(o, a.kind)


def f_vectorize(*a, **k):
    return np.vectorize(*a, **k)


def generic(fn):
    """default wrapper: numeric -> numpy; symbol-free SymArr -> numeric; else try on objects"""
    def f(*args, **kw):
        for test, disp in TENSOR:
            if any(test(o) for o in args):
                return disp(fn.__name__, args, kw)
        args = tuple(_norm(a) for a in args)
        if not _symbolic(*args) and not _symbolic(*kw.values()):
            return fn(*args, **kw)
        if not any(has_sym(a) for a in args):
            args = tuple(_num(a) for a in args)
            return fn(*args, **kw)
        k = "c" if any(_kind_of(a) == "c" for a in args if isinstance(a, (Num, SymArr, list, tuple))) else "f"
        args2 = tuple(a.view(np.ndarray) if isinstance(a, SymArr) else
                      (_to_obj(a) if isinstance(a, (list, tuple)) and _symbolic(a) and not any(isinstance(q, np.ndarray) for q in a) else
                       ([q.view(np.ndarray) if isinstance(q, SymArr) else q for q in a] if isinstance(a, (list, tuple)) and _symbolic(a) else a))
                      for a in args)
        try:
            r = fn(*args2, **kw)
        except (TypeError, np.linalg.LinAlgError) as e:
            raise Unsupported(f"numpy.{fn.__name__} on symbolic values: {e}")
        if isinstance(r, np.ndarray) and r.dtype == object:
            return _wrapres(r, k)
        if isinstance(r, (list, tuple)):
            return type(r)(_wrapres(q, k) for q in r)
        return r
    f.__name__ = getattr(fn, "__name__", "numpyfn")
    return f


def _num(a):
    if isinstance(a, SymArr):
        return a.numeric()
    if isinstance(a, Num):
        c = a.const_value()
        return c.real if c.imag == 0 else c
    if isinstance(a, (list, tuple)):
        return type(a)(_num(v) for v in a)
    return a


_mode = {"force": False}

OVERRIDE = {
    "array": f_array, "asarray": f_asarray, "zeros": _ctor(np.zeros), "ones": _ctor(np.ones), "empty": f_empty,
    "full": f_full, "zeros_like": _like(np.zeros), "ones_like": _like(np.ones), "empty_like": _like(np.zeros),
    "eye": f_eye, "identity": f_eye, "einsum": f_einsum, "dot": f_dot, "matmul": f_dot, "trace": f_trace,
    "abs": f_abs, "absolute": f_abs, "angle": f_angle, "real": f_real, "imag": f_imag, "conj": f_conj,
    "conjugate": f_conj, "hstack": f_hstack, "concatenate": f_concatenate, "diag": f_diag, "shape": f_shape,
    "isnan": f_isnan, "isrealobj": f_isrealobj, "iscomplexobj": f_iscomplexobj,
}
for _n in ("sqrt", "exp", "log", "log10", "sin", "cos", "tan", "arctan"):
    OVERRIDE[_n] = _unary(_n, getattr(np, _n))


class NPShim(types.ModuleType):
    def __init__(self, real, over):
        super().__init__(real.__name__)
        object.__setattr__(self, "_real", real)
        object.__setattr__(self, "_over", over)
        object.__setattr__(self, "_cache", {})

    def __getattr__(self, name):
        if name in self._over:
            return self._over[name]
        c = self._cache
        v = getattr(self._real, name)
        if name in c and c[name][0] is v:
            return c[name][1]
        if isinstance(v, type) or isinstance(v, (float, int)) or not callable(v):
            r = v
        else:
            r = generic(v)
        c[name] = (v, r)
        return r


LINALG = NPShim(np.linalg, {"inv": f_inv})
OVERRIDE["linalg"] = LINALG
NP = NPShim(np, OVERRIDE)


_busy = []


def array_function(func, args, kwargs):
    """numpy functions reached through __array_function__ (e.g. from unpatched code)"""
    name = func.__name__
    mod = getattr(func, "__module__", "")
    if mod.endswith("linalg"):
        return getattr(LINALG, name)(*args, **kwargs)
    if name in OVERRIDE and name not in _busy:
        _busy.append(name)
        try:
            return OVERRIDE[name](*args, **kwargs)
        finally:
            _busy.pop()
    # run on plain object arrays
    def strip(a):
        if isinstance(a, SymArr):
            return a.view(np.ndarray)
        if isinstance(a, (list, tuple)):
            return type(a)(strip(v) for v in a)
        return a
    k = "c" if _kind_of(list(args)) == "c" else "f"
    r = func(*[strip(a) for a in args], **{n: strip(v) for n, v in kwargs.items()})
    if isinstance(r, np.ndarray) and r.dtype == object:
        return _wrapres(r, k)
    if isinstance(r, (list, tuple)):
        return type(r)(_wrapres(q, k) for q in r)
    return r


# ------------------------------------------------------------------ math
def _m(name, npname=None):
    real = getattr(math, name)
    npname = npname or name

    def f(x, *a):
        x = _norm(x)
        if isinstance(x, SymArr) and x.ndim == 0:
            x = x[()]
        if isinstance(x, Num):
            if not x.is_const():
                if a and name == "log":
                    return x.log() / f(a[0])
                return getattr(x, npname)()
            x = float(x)
        return real(x, *a)
    f.__name__ = name
    return f


MATHOVER = {n: _m(n, m) for n, m in
            [("sqrt", "sqrt"), ("log", "log"), ("exp", "exp"), ("sin", "sin"), ("cos", "cos"), ("tan", "tan"),
             ("atan", "arctan"), ("fabs", "__abs__"), ("log10", "log10")]}
MATHOVER["pow"] = lambda a, b: a ** b if isinstance(a, Num) or isinstance(b, Num) else math.pow(a, b)


def m_isclose(a, b, **k):
    if isinstance(a, Num) or isinstance(b, Num):
        return bool(as_num(a) == as_num(b))
    return math.isclose(a, b, **k)


MATHOVER["isclose"] = m_isclose
MATH = NPShim(math, MATHOVER)
CMATH = NPShim(cmath, {**{n: MATHOVER[n] for n in ("sqrt", "exp", "log", "sin", "cos")},
                       "phase": f_angle})
CMATHREAL = {getattr(cmath, n): CMATH._over[n] for n in CMATH._over}


# ------------------------------------------------------------ builtins
class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, float) or (isinstance(x, Num) and x.is_real())

    def __subclasscheck__(cls, c):
        return issubclass(c, float)

    def __eq__(cls, o):
        return o is float or o is cls

    def __hash__(cls):
        return hash(float)


class symfloat(float, metaclass=_FloatMeta):
    def __new__(cls, x=0.0):
        x = _norm(x)
        if isinstance(x, SymArr) and x.size == 1:
            x = x.view(np.ndarray).flat[0]
        if isinstance(x, Num):
            if x.is_const():
                return builtins.float(x)
            if x.is_real():
                return x.real
            raise TypeError("float() argument must be a string or a real number, not 'complex'")
        from . import text
        if isinstance(x, str) and text.MARK in x:
            return text.extract(x)
        return builtins.float(x)


class _ComplexMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, complex) or isinstance(x, Num)

    def __eq__(cls, o):
        return o is complex or o is cls

    def __hash__(cls):
        return hash(complex)


class symcomplex(complex, metaclass=_ComplexMeta):
    def __new__(cls, x=0, y=0):
        x, y = _norm(x), _norm(y)
        if isinstance(x, SymArr) and x.size == 1:
            x = x.view(np.ndarray).flat[0]
        if isinstance(x, Num) or isinstance(y, Num):
            return as_num(x) + as_num(y) * 1j
        return builtins.complex(x, y) if y != 0 or not isinstance(x, str) else builtins.complex(x)


def sym_isinstance(x, t):
    if isinstance(x, Num):
        ts = t if isinstance(t, tuple) else (t,)
        flat = []
        for q in ts:
            flat.extend(q if isinstance(q, tuple) else (q,))
        for q in flat:
            if q in (complex, symcomplex, np.complex128):
                if not x.is_real():
                    return True
            if q in (float, symfloat, np.float64):
                if x.is_real():
                    return True
        return builtins.isinstance(x, tuple(q for q in flat if isinstance(q, type)))
    if isinstance(x, SymArr):
        return builtins.isinstance(x, t) if not isinstance(t, tuple) else builtins.isinstance(x, t)
    if isinstance(t, tuple):
        t = tuple({symfloat: float, symcomplex: complex}.get(q, q) for q in t)
    elif t is symfloat:
        t = float
    elif t is symcomplex:
        t = complex
    return builtins.isinstance(x, t)


def sym_sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


BUILTINS = {"float": symfloat, "complex": symcomplex, "isinstance": sym_isinstance}


def _replacement(v):
    if v is np:
        return NP
    if v is math:
        return MATH
    if v is cmath:
        return CMATH
    if v is np.linalg:
        return LINALG
    try:
        if v in REG:
            return REG[v]
    except TypeError:
        return None
    return None


def _build_reg():
    for n, f in OVERRIDE.items():
        if n != "linalg":
            REG[getattr(np, n)] = f
    for n, f in MATHOVER.items():
        REG[getattr(math, n)] = f
    for n, f in CMATH._over.items():
        REG[getattr(cmath, n)] = f
    REG[np.linalg.inv] = f_inv


_build_reg()

# other library modules whose global references are swapped as well
EXTRA_MODULES = ["ckmutil.ckm"]


def wilson_modules():
    return [m for n, m in list(sys.modules.items())
            if m is not None and (n == "wilson" or n.startswith("wilson.")) and hasattr(m, "__dict__")]


@contextlib.contextmanager
def stubbed(stubs):
    """only the callee stubs, wherever a module refers to the callee"""
    mods = wilson_modules()
    saved = []
    try:
        for m in list(sys.modules.values()):
            d = getattr(m, "__dict__", None)
            if d is None or not (any(m is q for q in mods) or any(getattr(k, "__module__", "") == getattr(m, "__name__", None) for k in stubs)):
                continue
            for n, v in list(d.items()):
                try:
                    hit = v in stubs
                except TypeError:
                    continue
                if hit:
                    saved.append((d, n, v))
                    d[n] = stubs[v]
        yield
    finally:
        for d, n, v in reversed(saved):
            d[n] = v


@contextlib.contextmanager
def patched(force_arrays=True, extra=None, stubs=None):
    """Swap library references in every wilson module; `stubs` maps a real
    callable to its contract stub (assumed contract of a callee)."""
    saved = []
    old = dict(_mode)
    _mode["force"] = force_arrays
    stubs = dict(stubs or {})
    mods = wilson_modules() + [sys.modules[n] for n in EXTRA_MODULES if n in sys.modules]
    try:
        for key, stub in stubs.items():
            nm = getattr(key, "__name__", None)
            for m in list(sys.modules.values()):
                d = getattr(m, "__dict__", None)
                if nm and d is not None and d.get(nm) is key:
                    saved.append((d, nm, key))
                    d[nm] = stub
        for m in mods:
            d = m.__dict__
            for k, v in list(d.items()):
                if k.startswith("__"):
                    continue
                r = None
                try:
                    if v in stubs:
                        r = stubs[v]
                except TypeError:
                    pass
                if r is None:
                    r = _replacement(v)
                if r is None and hasattr(v, "__wrapped__") and hasattr(v, "cache_info"):
                    r = v.__wrapped__          # memoised pure function: contract of the cache checked apart
                if r is None and isinstance(v, type) and issubclass(v, np.ndarray) and \
                        getattr(v, "__module__", "").startswith("wilson"):
                    r = _identity              # ndarray subclass used as a wrapper
                if r is not None:
                    saved.append((d, k, v))
                    d[k] = r
            for k, v in BUILTINS.items():
                if k not in d:
                    saved.append((d, k, None))
                    d[k] = v
        yield
    finally:
        for d, k, v in reversed(saved):
            if v is None:
                d.pop(k, None)
            else:
                d[k] = v
        _mode.update(old)
