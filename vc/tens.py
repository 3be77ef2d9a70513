"""Abstract flavour tensors: the code of the beta functions / rotations is run
with tensors whose flavour indices stay symbolic.

A tensor expression is a sum of terms; a term is a Num coefficient times a
product of named tensors with contracted (dummy) and free indices.  Terms are
kept in canonical form (dummy renaming, factor order and the declared index
symmetries are quotiented out), so equality of expressions is decided for
every number of generations and every value of every tensor entry.
"""
import contextlib
import itertools
import numpy as np
from .sym.num import Num, as_num, is_zero, Unsupported, ATOMS, POSITIVE, NILP, _split
from .sym import shim
from .harness import Provider, NumProvider
from .sym.arr import SymArr

SYMM = {}      # tensor name -> list of (perm, conj, sign): T[idx] = sign * T^(conj)[idx∘perm]
REALT = set()
UNITARY = set()
NILT = set()       # tensors of which products vanish (expansion to first order, with num.NILP for scalars)
DIAGS = {}         # names of the entries of a diagonal matrix -> name of the (real, symmetric) tensor
VEC = "·v"
AXIS = "e3"        # the unit vector of the third generation
FAST = [False]     # keep coefficients unsimplified while summing


class T:
    """tensor expression of given rank"""
    __array_ufunc__ = None
    __array_priority__ = 5000

    def __init__(self, rank, terms):
        self.rank = rank
        self.terms = terms      # canonical factors tuple -> Num

    # term representation: tuple of (name, conj, (idx...)), idx >= 0 dummy, idx < 0 free: -1-k
    @staticmethod
    def named(name, rank):
        return _mk(rank, [([(name, False, tuple(-1 - k for k in range(rank)))], Num.const(1))])

    @staticmethod
    def delta():
        return _mk(2, [([("δ", False, (-1, -2))], Num.const(1))])

    @staticmethod
    def scalar(n):
        return T(0, {(): as_num(n)} if as_num(n).t else {})

    @property
    def ndim(self):
        return self.rank

    @property
    def shape(self):
        return (3,) * self.rank

    @property
    def dtype(self):
        return np.dtype(complex)

    def _lift(self, o):
        if isinstance(o, T):
            return o
        if isinstance(o, (np.ndarray, SymArr)) and np.ndim(o) == 1 and DIAGS:
            d = diag(list(o))
            if d is not None:
                (k, _), = d.terms.items()
                return T.named(k[0][0] + VEC, 1)
        n = as_num(o) if not isinstance(o, np.ndarray) else NotImplemented
        if n is not NotImplemented:
            return T.scalar(n)
        if isinstance(o, np.ndarray) and o.shape == (3, 3):
            a = np.array([[complex(v) for v in r] for r in o])
            if np.allclose(a, a[0, 0] * np.eye(3)):
                return T.delta() * complex(a[0, 0])
        if isinstance(o, np.ndarray) and not np.any(np.array([complex(v) for v in o.flat])):
            return T(o.ndim, {})
        raise Unsupported(f"tensor op with {type(o)}")

    def __add__(self, o):
        o = self._lift(o)
        if o.rank != self.rank:
            if o.rank == 0 and not o.terms:
                return self
            if self.rank == 0 and not self.terms:
                return o
            raise Unsupported("adding tensors of different rank")
        t = dict(self.terms)
        for k, v in o.terms.items():
            n = t[k] + v if k in t else v
            if n.t and (FAST[0] or not is_zero(n, 1e-3)):
                t[k] = n
            else:
                t.pop(k, None)
        return T(self.rank, t)

    __radd__ = __add__

    def __neg__(self):
        return T(self.rank, {k: -v for k, v in self.terms.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        return self + (-self._lift(o))

    def __rsub__(self, o):
        return self._lift(o) + (-self)

    def __mul__(self, o):
        o = self._lift(o)
        if o.rank == 2 and self.rank == 1:
            o, self = self, o
        if o.rank == 1 and self.rank == 2 and len(o.terms) == 1:
            ((k, c),) = o.terms.items()
            if len(k) == 1 and k[0][0][:-len(VEC)] in DIAGS.values():
                return self @ (T.named(k[0][0][:-len(VEC)], 2) * c)      # broadcast along the last index
        if o.rank and self.rank:
            raise Unsupported("elementwise product of tensors")
        if FAST[0] and set(o.terms) <= {()}:
            o, self = self, o
        if FAST[0] and set(self.terms) <= {()}:
            c = self.terms.get(())
            if c is None:
                return T(o.rank, {})
            t = {k: _linear(k, v * c) for k, v in o.terms.items()}
            return T(o.rank, {k: v for k, v in t.items() if v.t})
        out = []
        for k1, v1 in self.terms.items():
            for k2, v2 in o.terms.items():
                off = _ndum(k1)
                out.append((list(k1) + _shift(k2, off), v1 * v2))
        return _mk(max(self.rank, o.rank), out)

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = self._lift(o)
        if o.rank or set(o.terms) - {()}:
            raise Unsupported("division by a tensor")
        return self * (as_num(1) / o.terms[()])

    def __pow__(self, n):
        if self.rank:
            raise Unsupported("power of a tensor")
        if set(self.terms) <= {()}:
            return T.scalar(self.terms.get((), Num.const(0)) ** n)
        r = T.scalar(1)
        if int(n) != n or n < 0:
            raise Unsupported("power of a tensor scalar")
        for _ in range(int(n)):
            r = r * self
        return r

    def __matmul__(self, o):
        if not isinstance(o, T):
            o = self._lift(o)
        return einsum("ij,jk->ik", self, o) if (self.rank, o.rank) == (2, 2) else _unsup("matmul")

    def __rmatmul__(self, o):
        return self._lift(o) @ self

    def permute(self, perm):
        """result[i_0..] = self[..] with result axis a = self axis perm[a]"""
        inv = {p: a for a, p in enumerate(perm)}
        return _mk(self.rank, [([(n, c, tuple(i if i >= 0 else -1 - inv[-1 - i] for i in ix)) for n, c, ix in k], v)
                               for k, v in self.terms.items()])

    @property
    def T(self):
        return self.permute(tuple(reversed(range(self.rank))))

    def transpose(self, *axes):
        if not axes or axes[0] is None:
            return self.T
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = axes[0]
        return self.permute(tuple(axes))

    def swapaxes(self, a, b):
        p = list(range(self.rank))
        p[a], p[b] = p[b], p[a]
        return self.permute(tuple(p))

    def conj(self):
        return _mk(self.rank, [([(n, (not c) if (n != "δ" and n not in REALT) else c, ix) for n, c, ix in k], v.conjugate())
                               for k, v in self.terms.items()])

    conjugate = conj

    @property
    def real(self):
        return (self + self.conj()) * 0.5

    @property
    def imag(self):
        return (self - self.conj()) * (-0.5j)

    def trace(self, *a, **k):
        return einsum("ii", self)

    def dot(self, o):
        return self @ o

    def copy(self):
        return self

    def astype(self, *a, **k):
        return self

    def is_zero(self):
        return all(is_zero(v, 1e-3) for v in self.terms.values())

    def __eq__(self, o):
        raise Unsupported("comparison of tensors")

    __hash__ = None

    def __bool__(self):
        raise Unsupported("truth value of a tensor")

    def __getitem__(self, i):
        if i is Ellipsis or (isinstance(i, slice) and i == slice(None)):
            return self
        if isinstance(i, tuple) and len(i) == self.rank and all(isinstance(k, (int, np.integer)) and 0 <= k < 3 for k in i) and \
                all(len(k) == 1 and k[0][0] in NILT for k in self.terms):
            return sum((v * _entry(k[0], i) for k, v in self.terms.items()), Num.const(0))
        raise Unsupported("indexing an abstract tensor")

    def __repr__(self):
        return show(self)


def _unsup(s):
    raise Unsupported(s)


def _entry(f, idx):
    """one entry of a named tensor as a scalar symbol (one symbol per orbit of its index symmetries)"""
    n, c, ix = f
    a = tuple(idx[-1 - j] for j in ix)
    orb = {(tuple(a[p] for p in perm), cj): sg for perm, cj, sg in SYMM.get(n) or [(tuple(range(len(a))), False, 1)]}
    (b, cj), sg = min(orb.items())
    real = (b, not cj) in orb
    s = Num.sym(f"{n}@{''.join(map(str, b))}", real)
    (k, _), = s.t.items()
    for i in (k[0][0], ATOMS.conj[k[0][0]]):
        NILP.add(i)
    return (s.conjugate() if cj != c else s) * sg


def _linear(f, v):
    """drop the part of second order"""
    if not NILT:
        return v
    n = sum(x[0] in NILT for x in f)
    if n == 0:
        return v
    if n > 1:
        return Num.const(0)
    a, b = _split(v)
    return v if b is None else a


def _axis(f):
    """e3·e3 = 1"""
    ch = True
    while ch:
        ch = False
        at = {}
        for p, (n, c, ix) in enumerate(f):
            if n == AXIS and ix[0] >= 0:
                if ix[0] in at:
                    f = [g for q, g in enumerate(f) if q not in (p, at[ix[0]])]
                    ch = True
                    break
                at[ix[0]] = p
    return f


def _ndum(k):
    m = -1
    for _, _, ix in k:
        for i in ix:
            m = max(m, i)
    return m + 1


def _shift(k, off):
    return [(n, c, tuple(i + off if i >= 0 else i for i in ix)) for n, c, ix in k]


def _mk(rank, raw):
    terms = {}
    for f, v in raw:
        f, v = _deltas(f, v)
        f, v = _unitary(f, v)
        v = _linear(f, v)
        if not v.t:
            continue
        f, v = canon(_axis(f), v)
        n = terms[f] + v if f in terms else v
        terms[f] = n
    return T(rank, {k: v for k, v in terms.items() if v.t and not is_zero(v, 1e-3)})


def _deltas(f, v):
    f = list(f)
    ch = True
    while ch:
        ch = False
        for p, (n, c, ix) in enumerate(f):
            if n != "δ":
                continue
            a, b = ix
            if a == b and a >= 0:
                v = v * 3
                f.pop(p)
                ch = True
                break
            if a >= 0 or b >= 0:
                d, o = (a, b) if a >= 0 else (b, a)
                f.pop(p)
                f = [(n2, c2, tuple(o if i == d else i for i in ix2)) for n2, c2, ix2 in f]
                ch = True
                break
    # delta with both free: order canonical
    return [(n, c, tuple(sorted(ix, reverse=True)) if n == "δ" else ix) for n, c, ix in f], v


def _unitary(f, v):
    """U_ij U*_kj -> δ_ik, U_ij U*_ik -> δ_jk"""
    ch = True
    while ch:
        ch = False
        for a, (n, c, ix) in enumerate(f):
            if n not in UNITARY or c:
                continue
            for b, (n2, c2, ix2) in enumerate(f):
                if n2 != n or not c2:
                    continue
                for pos in (0, 1):
                    if ix[pos] == ix2[pos] and ix[pos] >= 0:
                        rest = [x for i, x in enumerate(f) if i not in (a, b)]
                        rest.append(("δ", False, (ix[1 - pos], ix2[1 - pos])))
                        f, v = _deltas(rest, v)
                        ch = True
                        break
                if ch:
                    break
            if ch:
                break
    return f, v


def _encode_component(fs, start, where):
    order, seen, dm = [start], {start}, {}
    out = []
    q = 0
    while q < len(order):
        n, c, ix = fs[order[q]]
        q += 1
        e = []
        for i in ix:
            if i < 0:
                e.append(i)
            else:
                if i not in dm:
                    dm[i] = len(dm)
                e.append(dm[i])
                for j in where[i]:
                    if j not in seen:
                        seen.add(j)
                        order.append(j)
        out.append((n, c, tuple(e)))
    return tuple(out)


def _key(enc):
    return [(n, c, ix) for n, c, ix in enc]


def _canon_nosym(fs):
    fs = list(fs)
    where = {}
    for p, (n, c, ix) in enumerate(fs):
        for i in ix:
            if i >= 0:
                where.setdefault(i, []).append(p)
    left = set(range(len(fs)))
    comps = []
    while left:
        s = min(left)
        comp, stack = {s}, [s]
        while stack:
            p = stack.pop()
            for i in fs[p][2]:
                if i >= 0:
                    for j in where[i]:
                        if j not in comp:
                            comp.add(j)
                            stack.append(j)
        left -= comp
        # only start from factors with the lexicographically smallest header
        heads = {p: (fs[p][0], fs[p][1], tuple(i if i < 0 else 0 for i in fs[p][2])) for p in comp}
        m = min(heads.values())
        comps.append(min(_encode_component(fs, p, where) for p in comp if heads[p] == m))
    comps.sort()
    out, off = [], 0
    for c in comps:
        out += _shift(c, off)
        off += _ndum(c)
    return tuple((n, c, tuple(ix)) for n, c, ix in out)


def canon(fs, v):
    alts = [SYMM.get(n) for n, c, ix in fs]
    if not any(alts):
        return _canon_nosym(fs), v
    best = None
    zero = False
    pos = [i for i, a in enumerate(alts) if a]
    signs = {}
    for combo in itertools.product(*[alts[i] for i in pos]):
        g = list(fs)
        s = 1
        for i, (perm, cj, sg) in zip(pos, combo):
            n, c, ix = g[i]
            g[i] = (n, c != cj, tuple(ix[p] for p in perm))
            s *= sg
        k = _canon_nosym(g)
        if best is None or k < best[0]:
            best = (k, s)
        signs.setdefault(k, set()).add(s)
    if len(signs[best[0]]) == 2:
        return (), Num.const(0)
    return best[0], v * best[1]


def _repeated(ins, out, ops):
    """labels occurring more than twice: sums weighted with a projector on the third generation or with a vector of
    masses.  Only patterns T..T with an operand e3_T e3_T, or a vector of a declared diagonal matrix."""
    ins = [list(s) for s in ins]
    ops = list(ops)
    nxt = 0

    def fresh():
        nonlocal nxt
        nxt += 1
        return ("new", nxt)
    P = {((AXIS, False, (-1,)), (AXIS, False, (-2,))), ((AXIS, False, (-2,)), (AXIS, False, (-1,)))}
    for l in sorted({l for s in ins for l in s}):
        n = sum(s.count(l) for s in ins) + (l in out)
        if n <= 2:
            continue
        proj = [q for q, s in enumerate(ins) if s == [l, l] and len(ops[q].terms) == 1 and set(ops[q].terms) <= P]
        if proj:
            w = Num.const(1)
            for q in proj:
                (c,) = ops[q].terms.values()
                w = w * c
            ins, ops = ([s for q, s in enumerate(ins) if q not in proj], [o for q, o in enumerate(ops) if q not in proj])
            e = T.named(AXIS, 1)
            for s in list(ins):
                for j, m in enumerate(s):
                    if m == l:
                        s[j] = fresh()
                        ins.append([s[j]])
                        ops.append(e)
            if l in out:
                ins.append([l])
                ops.append(e)
            ins.append([])
            ops.append(T.scalar(w))
            continue
        vec = [q for q, s in enumerate(ins) if s == [l] and len(ops[q].terms) == 1 and
               [k[0][0] for k in ops[q].terms if len(k) == 1] and [k[0][0] for k in ops[q].terms][0][:-len(VEC)] in DIAGS.values()]
        if len(vec) == 1 and n == 3:
            q = vec[0]
            ((k, c),) = ops[q].terms.items()
            a, b = fresh(), l
            done = False
            for q2, s in enumerate(ins):
                for j, m in enumerate(s):
                    if q2 != q and m == l and not done:
                        s[j] = a
                        done = True
            ins[q], ops[q] = [a, b], T.named(k[0][0][:-len(VEC)], 2) * c
            continue
        raise Unsupported("einsum pattern outside tensor algebra")
    cnt = {}
    for s in ins:
        for l in s:
            cnt[l] = cnt.get(l, 0) + 1
    return ins, ops, cnt


def diag(a):
    """np.diag of a vector of declared diagonal entries"""
    k = tuple(ATOMS.name[m[0][0]] if len(v.t) == 1 and c == 1 and len(m) == 1 and m[0][1] == 1 else None
              for v in (as_num(e) for e in np.asarray(a, dtype=object)) for m, c in v.t.items())
    return T.named(DIAGS[k], 2) if k in DIAGS else None


def einsum(sub, *ops):
    sub = sub.replace(" ", "")
    ins, out = (sub.split("->") if "->" in sub else (sub, None))
    ins = ins.split(",")
    if out is None:
        all_ = "".join(ins)
        out = "".join(l for l in sorted(set(all_)) if all_.count(l) == 1)
    ops = [o if isinstance(o, T) else T._lift(None, o) for o in ops]
    if len(ins) != len(ops):
        raise ValueError("einsum: number of operands")
    for s, o in zip(ins, ops):
        if len(s) != o.rank:
            raise ValueError("einstein sum subscripts string does not match operand rank")
    cnt = {}
    for l in "".join(ins):
        cnt[l] = cnt.get(l, 0) + 1
    if NILT and any(n > 2 or (n > 1 and l in out) for l, n in cnt.items()):
        ins, ops, cnt = _repeated(ins, out, ops)
    out = list(out)
    if any(n > 2 for n in cnt.values()) or any(cnt.get(l, 0) != 1 for l in out) or len(set(out)) != len(out):
        raise Unsupported("einsum pattern outside tensor algebra")
    if any(n == 1 and l not in out for l, n in cnt.items()):
        raise Unsupported("einsum with a free summed index")
    raw = [([], Num.const(1))]
    for s, o in zip(ins, ops):
        new = []
        for f, v in raw:
            for k, w in o.terms.items():
                off = 1000 + max([i for _, _, ix in f for i in ix if isinstance(i, int)] + [0])
                g = [(n, c, tuple(i + off if i >= 0 else ("L", s[-1 - i]) for i in ix)) for n, c, ix in k]
                new.append((f + g, v * w))
        raw = new
    lab = {}
    nd = 10 ** 7
    for l in cnt:
        if l in out:
            lab[l] = -1 - out.index(l)
        else:
            lab[l] = nd
            nd += 1
    fin = [([(n, c, tuple(lab[i[1]] if isinstance(i, tuple) else i for i in ix)) for n, c, ix in f], v) for f, v in raw]
    return _mk(len(out), fin)


def show(t, maxn=6):
    out = []
    for k, v in list(t.terms.items())[:maxn]:
        out.append(f"({v})" + "".join(f" {n}{'*' if c else ''}[{','.join(map(str, ix))}]" for n, c, ix in k))
    return " + ".join(out) + (" + ..." if len(t.terms) > maxn else "") if out else "0"


# -------------------------------------------------------- shim integration
def _test(o):
    return isinstance(o, T)


def _disp(name, args, kw):
    if name == "einsum":
        return einsum(*args)
    if name == "trace":
        return args[0].trace()
    if name in ("conj", "conjugate"):
        return args[0].conj()
    if name in ("real", "imag"):
        return getattr(args[0], name)
    if name in ("transpose",):
        return args[0].transpose(*args[1:])
    if name == "swapaxes":
        return args[0].swapaxes(*args[1:])
    if name in ("dot", "matmul"):
        a = args[0] if isinstance(args[0], T) else T._lift(None, args[0])
        return a @ args[1]
    if name in ("sqrt", "exp", "log") and args[0].rank == 0 and set(args[0].terms) <= {()}:
        return getattr(args[0].terms.get((), Num.const(0)), name)()
    if name in ("array", "asarray", "copy", "ascontiguousarray"):
        return args[0]
    raise Unsupported(f"numpy.{name} on abstract tensors")


shim.TENSOR.append((_test, _disp))


# ------------------------------------------------ evaluating tensor terms
def eval_term(k, v, tensors, ein, rank, scal):
    """concrete/poly value of one term"""
    letters = "abcdefghijklmnopqrstuvwxyz"
    ins, ops = [], []
    mp = {}

    def L(i):
        if i not in mp:
            mp[i] = letters[len(mp)]
        return mp[i]
    out = "".join(L(-1 - r) for r in range(rank))
    for n, c, ix in k:
        a = np.eye(3) if n == "δ" else tensors[n]
        ops.append(a.conj() if c else a)
        ins.append("".join(L(i) for i in ix))
    if not ops:
        return scal(v)
    return scal(v) * ein(",".join(ins) + "->" + out, *ops)


class TensProvider(Provider):
    mode = "tens"

    def __init__(self):
        super().__init__()
        self.np = shim.NP
        self.explorer = None
        SYMM.clear()
        NILT.clear()
        DIAGS.clear()
        FAST[0] = False
        REALT.clear()
        UNITARY.clear()

    def real(self, name, pos=False, lo=None, hi=None):
        if pos:
            POSITIVE.add(name)
        return Num.sym(name, True)

    def assume(self, n, op):
        pass

    def cplx(self, name):
        return Num.sym(name, False)

    def tensor(self, name, rank, symm=None, unitary=False, real=False):
        if symm:
            SYMM[name] = symm
        if unitary:
            UNITARY.add(name)
        if rank == 0:
            return Num.sym(name, real)
        return T.named(name, rank)

    @contextlib.contextmanager
    def lib(self, stubs=None, always=False):
        with shim.patched(force_arrays=False, stubs=stubs):
            yield

    def einsum(self, s, *ops):
        return einsum(s, *ops)

    def _eq(self, label, got, want, absent):
        if isinstance(got, T) or isinstance(want, T):
            g = got if isinstance(got, T) else T._lift(None, got)
            w = want if isinstance(want, T) else T._lift(None, want)
            self.scalars += max(len(g.terms), 1)
            if g.rank != w.rank and g.terms and w.terms:
                return self._fail(label + ".rank", g.rank, w.rank)
            ks = set(g.terms) | set(w.terms)
            bad = {}
            for k in ks:
                a, b = g.terms.get(k, Num.const(0)), w.terms.get(k, Num.const(0))
                sc = max([abs(c) for c in a.t.values()] + [abs(c) for c in b.t.values()] + [1e-6])
                if not is_zero(a - b, sc):
                    bad[k] = a - b
            if bad:
                self._fail(label, "difference: " + show(T(g.rank, bad), 3), "0")
            return
        return super()._eq(label, got, want, absent)

    def _scalar(self, label, got, want):
        from .harness import SymProvider
        SymProvider._scalar(self, label, got, want)


def _tensor_num(self, name, rank, symm=None, unitary=False, real=False):
    """NumProvider / SymProvider version: concrete 3-generation arrays"""
    if rank == 0:
        return self.real(name) if real else self.cplx(name)
    a = self.carr(name, (3,) * rank)
    if symm:
        b = a * 0
        for perm, cj, sg in symm:
            # T[i] = sg T^(cj)[i∘perm]
            p = np.transpose(a, np.argsort(perm)) if False else _perm(a, perm)
            b = b + sg * (p.conj() if cj else p)
        a = b * (1.0 / len(symm))
    if unitary:
        if self.mode != "num":
            raise Unsupported("unitary matrices in the polynomial engine")
        q, r = np.linalg.qr(a)
        a = q
    return a


def _perm(a, perm):
    letters = "abcdefgh"[:len(perm)]
    src = "".join(letters[p] for p in perm)
    return shim.f_einsum(src + "->" + letters, a) if isinstance(a, SymArr) else np.einsum(src + "->" + letters, a)


NumProvider.tensor = _tensor_num
from .harness import SymProvider as _SP
_SP.tensor = _tensor_num
