"""Symbolic arrays: numpy object arrays with the semantics of complex/float arrays."""
import numpy as np
from .num import Num, as_num, Unsupported, is_zero


def has_sym(x):
    if isinstance(x, Num):
        return True
    if isinstance(x, np.ndarray) and x.dtype == object:
        return any(isinstance(v, Num) and not v.is_const() for v in x.flat)
    if isinstance(x, (list, tuple)):
        return any(has_sym(v) for v in x)
    return False


def _isreal(v):
    if isinstance(v, Num):
        return v.is_real()
    if isinstance(v, (complex, np.complexfloating)):
        return v.imag == 0
    return True


class SymArr(np.ndarray):
    """object-dtype array; .kind 'c' (complex) or 'f' (float) mirrors the numpy dtype"""
    kind = "c"

    def __array_finalize__(self, obj):
        self.kind = getattr(obj, "kind", "c") if isinstance(obj, SymArr) else "c"

    @staticmethod
    def wrap(a, kind=None):
        a = np.asarray(a, dtype=object) if not (isinstance(a, np.ndarray) and a.dtype == object) else a
        r = a.view(SymArr)
        if kind is None:
            kind = "f" if all(_isreal(v) for v in np.asarray(a, dtype=object).flat) else "c"
        r.kind = kind
        return r

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        out = kw.pop("out", None)
        arrs = []
        kinds = []
        for x in inputs:
            if isinstance(x, SymArr):
                kinds.append(x.kind)
                arrs.append(x.view(np.ndarray))
            elif isinstance(x, (RealView, ImagView)):
                y = x._get()
                kinds.append("f")
                arrs.append(y.view(np.ndarray))
            else:
                if isinstance(x, Num):
                    kinds.append("f" if x.is_real() else "c")
                    o = np.empty((), dtype=object)
                    o[()] = x
                    x = o
                elif isinstance(x, np.ndarray):
                    kinds.append("c" if x.dtype.kind == "c" or x.dtype == object else "f")
                    if x.dtype != object:
                        x = x.astype(object)
                else:
                    kinds.append("c" if isinstance(x, (complex, np.complexfloating)) else "f")
                arrs.append(x)
        nm = ufunc.__name__
        if nm in ("isnan", "isfinite", "isinf") and method == "__call__":
            f = getattr(np, nm)
            return np.frompyfunc(lambda v: (nm == "isfinite") if isinstance(v, Num) and not v.is_const()
                                 else bool(f(complex(v))), 1, 1)(arrs[0]).astype(bool)
        if nm in ("equal", "not_equal", "less", "less_equal", "greater", "greater_equal"):
            res = getattr(ufunc, method)(*arrs, **kw)
            if isinstance(res, np.ndarray):
                return res.astype(bool) if res.dtype == object else res
            return res
        if nm == "absolute":
            res = np.frompyfunc(abs, 1, 1)(arrs[0])
            return _wrapres(res, "f")
        if nm in ("sqrt", "exp", "log", "log10", "sin", "cos", "tan", "arctan") and method == "__call__":
            res = np.frompyfunc(lambda v: getattr(as_num(v), nm)(), 1, 1)(arrs[0])
            return _wrapres(res, "f" if kinds == ["f"] else "c")
        if nm in ("conjugate",):
            res = np.frompyfunc(lambda v: v.conjugate(), 1, 1)(arrs[0])
            return _wrapres(res, kinds[0])
        try:
            if nm == "matmul":
                res = _matmul(arrs[0], arrs[1])
            else:
                res = getattr(ufunc, method)(*arrs, **kw)
        except TypeError as e:
            raise Unsupported(f"numpy.{nm} on symbolic arrays: {e}")
        k = "c" if "c" in kinds else "f"
        if out is not None:
            o = out[0]
            if not isinstance(o, SymArr):
                if has_sym(res):
                    raise Unsupported("in-place operation of symbolic values into a numeric array")
                o[...] = res
                return o
            o[...] = res
            return o
        return _wrapres(res, k)

    def __array_function__(self, func, types, args, kwargs):
        from . import shim
        return shim.array_function(func, args, kwargs)

    # -- complex structure with write-through
    @property
    def real(self):
        return RealView(self)

    @real.setter
    def real(self, v):
        RealView(self)[...] = v

    @property
    def imag(self):
        return ImagView(self)

    @imag.setter
    def imag(self, v):
        ImagView(self)[...] = v

    def conj(self):
        return _wrapres(np.frompyfunc(lambda v: v.conjugate(), 1, 1)(self.view(np.ndarray)), self.kind)

    conjugate = conj

    def __getitem__(self, idx):
        r = super().__getitem__(idx)
        if type(r) in (complex, float, int):
            return Num.const(r)
        return r

    def __setitem__(self, idx, v):
        if isinstance(v, (RealView, ImagView)):
            v = v._get()
        if self.kind == "f":
            if isinstance(v, (Num, complex, np.complexfloating)) and not isinstance(v, np.ndarray):
                if not _isreal(v) or (isinstance(v, complex) and not isinstance(v, Num)):
                    if not _isreal(v) or isinstance(v, complex):
                        raise TypeError("float() argument must be a string or a real number, not 'complex'")
            elif isinstance(v, np.ndarray):
                v = np.frompyfunc(lambda x: x.real if hasattr(x, "real") else x, 1, 1)(v.view(np.ndarray))
        if isinstance(v, np.ndarray):
            v = v.view(np.ndarray)
            if v.ndim == 0:
                v = v[()]
        self.view(np.ndarray)[idx] = v

    def astype(self, dtype, *a, **k):
        if dtype is complex or dtype == np.complex128:
            r = self.copy()
            r.kind = "c"
            return r
        if dtype is float or dtype == np.float64:
            r = self.real._get()
            return r
        if dtype is object or dtype == object:
            return self.copy()
        return np.ndarray.astype(self, dtype, *a, **k)

    def __matmul__(self, o):
        if getattr(o, "__array_ufunc__", 0) is None:      # abstract tensors decide themselves
            return NotImplemented
        return _mm(self, o)

    def __rmatmul__(self, o):
        return _mm(o, self)

    def dot(self, o):
        from . import shim
        return shim.NP.dot(self, o)

    def trace(self, *a, **k):
        return sum((self[i, i] for i in range(min(self.shape))), Num.const(0))

    def sum(self, *a, **k):
        r = np.add.reduce(self.view(np.ndarray), axis=k.get("axis", a[0] if a else None))
        return _wrapres(r, self.kind)

    def numeric(self):
        """plain numeric array, if no symbol is left"""
        z = np.array([complex(v) for v in self.view(np.ndarray).flat]).reshape(self.shape)
        return z.real if self.kind == "f" and not np.any(z.imag) else z

    def __repr__(self):
        return "SymArr" + str(self.shape)

    __str__ = __repr__

    def __format__(self, s):
        return repr(self)

    def __bool__(self):
        if self.size != 1:
            raise ValueError("The truth value of an array with more than one element is ambiguous.")
        return bool(self.view(np.ndarray).flat[0])

    def any(self, *a, **k):
        return any(bool(v != 0) for v in self.view(np.ndarray).flat)

    def all(self, *a, **k):
        return all(bool(v != 0) for v in self.view(np.ndarray).flat)

    def item(self, *a):
        return self.view(np.ndarray).item(*a)

    def tolist(self):
        return self.view(np.ndarray).tolist()


def _wrapres(res, kind):
    if isinstance(res, np.ndarray):
        if res.dtype != object:
            return res
        r = res.view(SymArr)
        r.kind = kind
        return r
    return res


def _matmul(a, b):
    a2 = a[None, :] if a.ndim == 1 else a
    b2 = b[:, None] if b.ndim == 1 else b
    if a2.ndim != 2 or b2.ndim != 2:
        raise Unsupported("matmul of stacked symbolic arrays")
    if a2.shape[1] != b2.shape[0]:
        raise ValueError("matmul: mismatch in its core dimension")
    out = np.empty((a2.shape[0], b2.shape[1]), dtype=object)
    for i in range(out.shape[0]):
        for j in range(out.shape[1]):
            s = Num.const(0)
            for k in range(a2.shape[1]):
                x, y = a2[i, k], b2[k, j]
                if (not isinstance(x, Num) and x == 0) or (not isinstance(y, Num) and y == 0):
                    continue
                s = s + as_num(x) * as_num(y)
            out[i, j] = s
    if a.ndim == 1 and b.ndim == 1:
        return out[0, 0]
    if a.ndim == 1:
        return out[0]
    if b.ndim == 1:
        return out[:, 0]
    return out


def _mm(a, b):
    ka = a.kind if isinstance(a, SymArr) else ("c" if np.asarray(a).dtype.kind == "c" else "f")
    kb = b.kind if isinstance(b, SymArr) else ("c" if np.asarray(b).dtype.kind == "c" else "f")
    A = _raw(a)
    B = _raw(b)
    return _wrapres(_matmul(A, B), "c" if "c" in (ka, kb) else "f")


def _raw(a):
    if isinstance(a, (RealView, ImagView)):
        a = a._get()
    if isinstance(a, SymArr):
        return a.view(np.ndarray)
    return np.asarray(a, dtype=object)


class _View:
    __array_priority__ = 2000
    kind = "f"

    def __init__(self, base):
        self.base_ = base

    def _get(self):
        r = np.frompyfunc(lambda v: getattr(v, self.part) if hasattr(v, self.part) else v, 1, 1)(
            self.base_.view(np.ndarray))
        return _wrapres(np.asarray(r, dtype=object), "f")

    def __getitem__(self, idx):
        b = self.base_[idx]
        if isinstance(b, SymArr):
            return type(self)(b)
        if isinstance(b, np.ndarray):
            return getattr(b, self.part)
        return getattr(b, self.part)

    def __getattr__(self, name):
        return getattr(self._get(), name)

    def _bin(op):
        def f(self, o):
            if isinstance(o, _View):
                o = o._get()
            return getattr(self._get(), op)(o)
        return f

    for _op in ("add radd sub rsub mul rmul truediv rtruediv matmul rmatmul pow eq ne lt le gt ge").split():
        locals()[f"__{_op}__"] = _bin(f"__{_op}__")
    del _op
    __hash__ = None

    def __neg__(self):
        return -self._get()

    def __len__(self):
        return len(self.base_)

    def __iter__(self):
        return iter(self._get())

    def __array__(self, dtype=None, copy=None):
        return np.asarray(self._get(), dtype=object)

    @property
    def shape(self):
        return self.base_.shape

    @property
    def T(self):
        return self._get().T

    def __iadd__(self, o):
        self[...] = self._get() + o
        return self

    def __isub__(self, o):
        self[...] = self._get() - o
        return self

    def __imul__(self, o):
        self[...] = self._get() * o
        return self

    def __repr__(self):
        return f"{self.part}({self.base_!r})"


def _asre(v):
    if isinstance(v, _View):
        v = v._get()
    if isinstance(v, np.ndarray):
        return np.frompyfunc(lambda x: x.real if hasattr(x, "real") else x, 1, 1)(
            v.view(np.ndarray) if isinstance(v, SymArr) else v)
    if isinstance(v, Num):
        if not v.is_real():
            raise TypeError("float() argument must be a string or a real number, not 'complex'")
        return v
    if isinstance(v, complex):
        raise TypeError("float() argument must be a string or a real number, not 'complex'")
    return v


def _sc(v):
    while isinstance(v, np.ndarray) and v.ndim == 0:
        v = v.view(np.ndarray)[()]
    return v


def _obj(v):
    if isinstance(v, np.ndarray):
        return v
    o = np.empty((), dtype=object)
    o[()] = v
    return o


class RealView(_View):
    part = "real"

    def __setitem__(self, idx, v):
        cur = self.base_[idx]
        v = _asre(v)
        if isinstance(cur, np.ndarray):
            im = np.frompyfunc(lambda x: x.imag, 1, 1)(cur.view(np.ndarray))
            new = np.frompyfunc(lambda a, b: as_num(a) + as_num(b) * 1j, 2, 1)(_obj(v), im)
            np.ndarray.__setitem__(self.base_, idx, new)
        else:
            self.base_.view(np.ndarray)[idx] = as_num(_sc(v)) + as_num(cur.imag) * 1j


class ImagView(_View):
    part = "imag"

    def __setitem__(self, idx, v):
        if self.base_.kind == "f":
            raise TypeError("array does not have imaginary part to set")
        cur = self.base_[idx]
        v = _asre(v)
        if isinstance(cur, np.ndarray):
            re = np.frompyfunc(lambda x: x.real, 1, 1)(cur.view(np.ndarray))
            new = np.frompyfunc(lambda a, b: as_num(a) + as_num(b) * 1j, 2, 1)(re, _obj(v))
            np.ndarray.__setitem__(self.base_, idx, new)
        else:
            self.base_.view(np.ndarray)[idx] = as_num(cur.real) + as_num(_sc(v)) * 1j


def _num_array_ufunc(self, ufunc, method, *inputs, **kw):
    return SymArr.__array_ufunc__(None, ufunc, method, *inputs, **kw)


Num.__array_ufunc__ = _num_array_ufunc
