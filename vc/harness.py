"""Obligations, discharge, counterexample replay and evidence.

An obligation is a Python function ob(x) that calls the *real* function and
states its contract through the provider x (x.eq, x.true, x.raises).  It is run
  * symbolically: inputs are symbols, the call is executed by the engine in
    vc.sym (or on abstract flavour tensors, vc.tens) and every x.eq is
    discharged by the normal-form procedure, path conditions by z3;
  * concretely: inputs are machine numbers and the untouched real code runs;
    this is the CPython cross-check of the engine on every run, and the replay
    of a refuted obligation.
"""
import contextlib, json, math, os, random, signal, sys, threading, time, traceback
import numpy as np
from . import boot
from .sym.num import Num, as_num, is_zero, Unsupported, ATOMS, Ctx, POSITIVE
from .sym import num as symnum, arr as symarr, shim, text, path as sympath
from .sym.arr import SymArr

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NTOL = 1e-7


class Refuted(Exception):
    pass


class Missing(Exception):
    """a private helper the obligation is anchored at is not there any more"""


class StopPath(Exception):
    pass


REGISTRY = {}     # property -> list of Obligation


# special values for the concrete runs of an obligation whose proof decided equality tests for generic
# values only, or whose proof does not go through: parts missing, purely imaginary, purely real, tiny, negative
PROFILES = ("parts", "parts", "parts", "imag", "real", "tiny", "neg", "zero", "big")
RANGES = {}          # declared input -> (positive, lowest, highest)


def _leaves(d, seen=None):
    """names of the inputs a value depends on"""
    out = set()
    for i in d.atoms():
        if ATOMS.kind[i] == "sym":
            out.add(ATOMS.name[i].rstrip("~"))
        else:
            for a in ATOMS.arg[i]:
                if isinstance(a, Num):
                    out |= _leaves(a)
    return out


def _draw(name, rng):
    if name not in RANGES:
        return complex(rng.gauss(0, 1), rng.gauss(0, 1))
    pos, lo, hi = RANGES[name]
    if lo is not None or hi is not None:
        return rng.uniform(lo if lo is not None else hi - 10, hi if hi is not None else lo + 10)
    v = rng.gauss(0, 1)
    return abs(v) if pos else v


def _allowed(name, v):
    pos, lo, hi = RANGES.get(name, (False, None, None))
    return not (pos and not v > 0 or lo is not None and v < lo or hi is not None and v > hi)


def boundary_inputs(rng, limit=18):
    """for what the code compared with zero: inputs where the difference vanishes and inputs on either side of it"""
    out, per = [], [list(h) for h in symnum.HINTS.values()]
    todo = [h[k] for k in range(6) for h in per if k < len(h)]
    for d, op in todo:
        if len(out) >= limit:
            break
        try:
            names = sorted(_leaves(d))
            if not names or len(names) > 30:
                continue
            env = {n: _draw(n, rng) for n in names}
            for n in rng.sample(names, len(names))[:4]:
                r = _solve(d, dict(env), n)
                if r is None:
                    continue
                w = max(abs(r), 0.0) or 1.0
                cand = [r] if op in ("==", "!=") else [r - .5 * w, r + .5 * w, r]
                ok = [v for v in cand if _allowed(n, v)]
                if not ok:
                    continue
                if abs(r) < 1e-6 and r != 0:
                    out.append((None, ("tiny", .05 * abs(r))))
                out += [({**env, n: v}, None) for v in ok]
                break
        except Exception:
            continue
    return out


def _solve(d, env, n):
    """value of the input n at which d vanishes"""
    cplx = n not in RANGES
    f = lambda v: complex(symnum.evaluate(d, {**env, n: v}))
    v = complex(env[n]) if cplx else float(env[n])
    for _ in range(40):
        y = f(v)
        h = 1e-6 * max(abs(v), 1e-30)
        if cplx:
            a, b = (f(v + h) - y) / h, (f(v + 1j * h) - y) / h
            s = np.linalg.lstsq(np.array([[a.real, b.real], [a.imag, b.imag]]), -np.array([y.real, y.imag]), rcond=1e-9)[0]
            w = v + complex(*s)
        else:
            a = (f(v + h) - y) / h
            s = np.linalg.lstsq(np.array([[a.real], [a.imag]]), -np.array([y.real, y.imag]), rcond=1e-9)[0]
            w = v + float(s[0])
        if abs(w - v) <= 1e-12 * max(abs(w), abs(v)):
            v = w
            break
        v = w
    scale = max(abs(env[n]), 1e-300)
    rnd = lambda t, k: 0.0 if abs(t) < 1e-13 * scale else float(f"{t:.{k}e}")
    both = lambda k: complex(rnd(v.real, k), rnd(v.imag, k)) if cplx else rnd(v, k)
    r = min([both(6), both(12), v], key=lambda t: abs(f(t)))     # the exact root is usually a round number
    return r if abs(f(r)) <= 1e-8 * max(abs(f(env[n])), 1e-300) else None


class Obligation:
    def __init__(self, prop, name, fn, functions, engine="poly", bounded=None, fork=False, samples=1,
                 assumptions=(), fallback=12, thorough_only=False, generic_eq=False, numeric=True,
                 cost=1, timeout=300, profiles=None):
        self.cost = cost
        self.timeout = timeout
        self.prop, self.name, self.fn = prop, name, fn
        self.functions = functions
        self.engine = engine
        self.bounded = bounded          # text of the bound, or None
        self.fork = fork
        self.samples = samples
        self.assumptions = list(assumptions)
        self.fallback = fallback
        self.thorough_only = thorough_only
        self.generic_eq = generic_eq
        self.numeric = numeric
        self.profiles = PROFILES if profiles is None else profiles


def obligation(prop, name, functions, **kw):
    def dec(fn):
        REGISTRY.setdefault(prop, []).append(Obligation(prop, name, fn, functions, **kw))
        return fn
    return dec


def _shape(x):
    if isinstance(x, Num):
        return ()
    return np.shape(x)


class Provider:
    """common part"""
    mode = None

    def __init__(self):
        self.clauses = 0
        self.scalars = 0
        self.fails = []

    def need(self, obj, name):
        try:
            return getattr(obj, name)
        except AttributeError:
            raise Missing(name)

    def _fail(self, label, got, want, extra=None):
        self.fails.append({"clause": label, "got": repr(got)[:400], "want": repr(want)[:400], **(extra or {})})

    # equality of scalars / arrays / dicts; `absent` : value of a key that is not there
    def eq(self, label, got, want, absent=None):
        self.clauses += 1
        self._eq(label, got, want, absent)

    def _eq(self, label, got, want, absent):
        if isinstance(got, symarr._View):
            got = got._get()
        if isinstance(want, symarr._View):
            want = want._get()
        if isinstance(want, dict) or isinstance(got, dict):
            if not (isinstance(want, dict) and isinstance(got, dict)):
                return self._fail(label, got, want)
            keys = list(want) + [k for k in got if k not in want]
            for k in keys:
                if k not in got or k not in want:
                    if absent is None:
                        self._fail(f"{label}[{k}]", got.get(k, "<absent>"), want.get(k, "<absent>"))
                        continue
                self._eq(f"{label}[{k}]", got.get(k, absent), want.get(k, absent), absent)
            return
        if isinstance(want, (list, tuple)) and isinstance(got, (list, tuple)):
            if len(want) != len(got):
                return self._fail(label, got, want)
            for i, (g, w) in enumerate(zip(got, want)):
                self._eq(f"{label}[{i}]", g, w, absent)
            return
        if isinstance(want, (str, bool, type(None))) or isinstance(got, (str, type(None))):
            self.scalars += 1
            if not (type(got) == type(want) or isinstance(want, bool)) or got != want:
                self._fail(label, got, want)
            return
        sg, sw = _shape(got), _shape(want)
        if sg != sw:
            return self._fail(label + ".shape", sg, sw)
        if sg == ():
            return self._scalar(label, _unbox(got), _unbox(want))
        g = got.view(np.ndarray) if isinstance(got, SymArr) else np.asarray(got)
        w = want.view(np.ndarray) if isinstance(want, SymArr) else np.asarray(want)
        for i in np.ndindex(*sg):
            self._scalar(f"{label}{list(i)}", g[i], w[i])

    def true(self, label, cond, detail=""):
        self.clauses += 1
        self.scalars += 1
        if not cond:
            self._fail(label, False, True, {"detail": str(detail)[:400]})

    def raises(self, label, excs, fn, *a, **k):
        self.clauses += 1
        self.scalars += 1
        try:
            r = fn(*a, **k)
        except excs:
            return
        except Unsupported:
            raise
        except Exception as e:
            return self._fail(label, f"{type(e).__name__}: {e}", f"raises {excs}")
        self._fail(label, r, f"raises {excs}")

    @contextlib.contextmanager
    def lib(self, stubs=None, always=False):
        """the real code runs inside this block; `always`: the callee stubs also
        stand in during concrete runs (otherwise these run the real callees)"""
        if always and stubs:
            with shim.stubbed(stubs):
                yield
        else:
            yield


def _unbox(v):
    while isinstance(v, np.ndarray) and v.ndim == 0:
        v = v.view(np.ndarray)[()]
    return v


class SymProvider(Provider):
    mode = "sym"

    def __init__(self, explorer=None):
        super().__init__()
        self.syms = {}
        self.explorer = explorer
        self.np = shim.NP

    def real(self, name, pos=False, lo=None, hi=None):
        s = Num.sym(name, True)
        self.syms[name] = ("real", pos, lo, hi)
        RANGES[name] = (pos, lo, hi)
        if pos:
            POSITIVE.add(name)
        if self.explorer is not None:
            if pos:
                self.explorer.add_assume(s, ">")
            if lo is not None:
                self.explorer.add_assume(s - lo, ">=")
            if hi is not None:
                self.explorer.add_assume(s - hi, "<=")
        return s

    def assume(self, cond_num, op):
        """precondition cond_num op 0"""
        if self.explorer is not None:
            self.explorer.add_assume(cond_num, op)

    def cplx(self, name):
        self.syms[name] = ("cplx",)
        return Num.sym(name, False)

    def carr(self, name, shape):
        o = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            o[i] = self.cplx(f"{name}[{','.join(map(str, i))}]")
        return SymArr.wrap(o, "c")

    def rarr(self, name, shape):
        o = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            o[i] = self.real(f"{name}[{','.join(map(str, i))}]")
        return SymArr.wrap(o, "f")

    def array(self, nested):
        return shim.f_array(nested)

    def zeros(self, shape):
        return shim._force(np.zeros(shape, dtype=complex))

    def einsum(self, s, *ops):
        return shim.f_einsum(s, *ops)

    @contextlib.contextmanager
    def lib(self, stubs=None, always=False):
        with shim.patched(stubs=stubs):
            yield

    def _scalar(self, label, got, want):
        self.scalars += 1
        g, w = as_num(got), as_num(want)
        if g is NotImplemented or w is NotImplemented:
            if not (got == want):
                self._fail(label, got, want)
            return
        for q, o in ((g, w), (w, g)):
            if any(v != v for v in q.t.values()):
                if any(v != v for v in o.t.values()):
                    return
                return self._fail(label, got, want)
        sc = max([abs(v) for v in g.t.values()] + [abs(v) for v in w.t.values()] + [0.0])
        if sc == 0:
            return
        if not is_zero(g - w, scale=max(sc, 1e-6)):
            if self.explorer is not None and self.explorer.entails_zero(g - w):
                return
            self._fail(label, g, w)


TINY = 1e-16


class NumProvider(Provider):
    mode = "num"

    def __init__(self, seed, env=None, profile=None):
        super().__init__()
        self.rng = random.Random(seed)
        self.profile = profile
        self.tiny = TINY
        if isinstance(profile, (tuple, list)):
            profile, self.tiny = profile
            self.profile = profile
        if profile == "tiny":
            self.scale = 1e-3 * self.tiny
        self.seed = seed
        self.env = dict(env or {})
        self.used = {}
        self.np = np

    def real(self, name, pos=False, lo=None, hi=None):
        if name in self.used:
            return self.used[name]
        v = self.env.get(name)
        if v is None:
            if lo is not None or hi is not None:
                a = lo if lo is not None else hi - 10
                b = hi if hi is not None else lo + 10
                v = self.rng.uniform(a, b)
            else:
                v = self.rng.gauss(0, 1) + self.rng.choice([-1, 1]) * 0.1
                if pos:
                    v = abs(v)
                elif self.profile:
                    v = {"parts": v if self.rng.choice([0, 1, 1]) else 0.0, "tiny": v * self.tiny, "neg": -abs(v), "zero": 0.0, "big": v * self.rng.choice([1, 30])}.get(self.profile, v)
        if isinstance(v, complex):
            v = v.real
        self.used[name] = v
        return v

    def assume(self, n, op):
        x = n.real if isinstance(n, complex) else n
        ok = {"<": x < 0, "<=": x <= 0, ">": x > 0, ">=": x >= 0, "==": x == 0, "!=": x != 0}[op]
        if not ok:
            raise StopPath()

    def cplx(self, name):
        if name in self.used:
            return self.used[name]
        v = self.env.get(name)
        if v is None:
            v = complex(self.rng.gauss(0, 1), self.rng.gauss(0, 1))
            if self.profile:
                a, b = v.real, v.imag
                v = {"parts": complex(a if self.rng.choice([0, 1]) else 0.0, b if self.rng.choice([0, 1]) else 0.0), "imag": complex(0, b), "real": complex(a, 0),
                     "tiny": v * self.tiny, "neg": complex(-abs(a), -abs(b)), "zero": 0j, "big": v * self.rng.choice([1, 30])}.get(self.profile, v)
        v = complex(v)
        self.used[name] = v
        return v

    def carr(self, name, shape):
        o = np.zeros(shape, dtype=complex)
        for i in np.ndindex(*shape):
            o[i] = self.cplx(f"{name}[{','.join(map(str, i))}]")
        return o

    def rarr(self, name, shape):
        o = np.zeros(shape)
        for i in np.ndindex(*shape):
            o[i] = self.real(f"{name}[{','.join(map(str, i))}]")
        return o

    def array(self, nested):
        return np.array(nested)

    def zeros(self, shape):
        return np.zeros(shape, dtype=complex)

    def einsum(self, s, *ops):
        return np.einsum(s, *ops)

    def _scalar(self, label, got, want):
        self.scalars += 1
        try:
            g, w = complex(got), complex(want)
        except (TypeError, ValueError):
            if not (got == want):
                self._fail(label, got, want)
            return
        if math.isnan(abs(g)) or math.isnan(abs(w)):
            if getattr(self, "profile", None):
                return                  # special values outside the domain (0/0)
            if math.isnan(abs(g)) != math.isnan(abs(w)):
                self._fail(label, got, want)
            return
        if abs(g - w) > getattr(self, "rtol", NTOL) * max(abs(g), abs(w), getattr(self, "scale", 1e-3)):
            self._fail(label, got, want)


# ---------------------------------------------------------------- runner
class Result:
    def __init__(self, ob):
        self.ob = ob
        self.status = None     # proved | bounded | undecided | violated
        self.clauses = self.scalars = self.paths = 0
        self.note = ""
        self.fail = None
        self.replay = None
        self.wall = 0.0
        self.z3 = 0
        self.samples = 0


class EngineTimeout(BaseException):
    pass


def _alarm(sig, frm):
    raise EngineTimeout()


FORCE_PROFILES = os.environ.get("VC_PROFILES") == "force"


def run_symbolic(ob):
    """-> (status, provider fails, clauses, scalars, paths, note, envs)"""
    ATOMS.reset()
    POSITIVE.clear()
    symnum.SQRT_HINTS.clear()
    symnum.CMP_HINTS.clear()
    symnum.NILP.clear()
    text.reset()
    symnum.GENERIC[0] = 0
    symnum.HINTS.clear()
    RANGES.clear()
    tot = {"generic": 0, "clauses": 0, "scalars": 0, "paths": 0, "fails": [], "envs": [], "z3": 0}
    if ob.engine == "tensor":
        from .tens import TensProvider
        x = TensProvider()
        ob.fn(x)
        tot.update(clauses=x.clauses, scalars=x.scalars, paths=1, fails=x.fails)
        return tot
    if not ob.fork:
        x = SymProvider()
        with x.lib():
            ob.fn(x)
        tot.update(clauses=x.clauses, scalars=x.scalars, paths=1, fails=x.fails, generic=symnum.GENERIC[0])
        return tot
    ex = sympath.Explorer(generic_eq=ob.generic_eq)

    def one():
        x = SymProvider(ex)
        with x.lib():
            try:
                ob.fn(x)
            except StopPath:
                pass
            except (Missing, Unsupported):
                raise
            except Exception as e:      # keep inputs that lead here: the concrete run decides
                try:
                    e.path_envs = ex.models(random.Random(7))
                except Exception:
                    pass
                raise
        return x

    def on(ex_, x):
        tot["clauses"] += x.clauses
        tot["scalars"] += x.scalars
        tot["paths"] += 1
        if x.fails:
            envs = []
            if len(tot["envs"]) < 40:
                try:
                    envs = ex_.models(random.Random(7))
                except Exception:
                    pass
            for f in x.fails[:3]:
                f["path"] = [f"{d} {op} 0: {b}" for d, op, b in ex_.trace][:20]
            tot["fails"] += x.fails[:5]
            tot["envs"] += envs
    ex.run(one, on)
    tot["z3"] = ex.queries
    tot["generic"] = symnum.GENERIC[0]
    tot["unknown"] = ex.unknown
    return tot


def run_concrete(ob, seed, env=None, profile=None):
    x = NumProvider(seed, env, profile)
    try:
        ob.fn(x)
    except StopPath:
        return x
    except Missing:
        # the anchor is there for generic values (those runs come first)
        if not profile or not x.fails:
            raise
    return x


def discharge(ob, seed, tier):
    res = Result(ob)
    t0 = time.time()
    sym = None
    err = None
    raised = []
    try:
        if ob.timeout and threading.current_thread() is threading.main_thread():
            signal.signal(signal.SIGALRM, _alarm)
            signal.alarm(int(ob.timeout))
        sym = run_symbolic(ob)
    except EngineTimeout:
        err = f"symbolic run exceeded {ob.timeout} s"
    except Missing as e:
        err = f"anchor missing: {e}"
    except Unsupported as e:
        err = f"outside the engine: {e}"
    except Exception as e:
        raised = [v for v in getattr(e, "path_envs", []) if v]
        err = f"{type(e).__name__}: {e} @ " + " < ".join(
            f"{os.path.basename(f.filename)}:{f.lineno}" for f in reversed(traceback.extract_tb(e.__traceback__)[-4:]))
    finally:
        signal.alarm(0)
        Ctx.cur = None
    if sym:
        res.clauses, res.scalars, res.paths, res.z3 = sym["clauses"], sym["scalars"], sym["paths"], sym["z3"]
    # concrete runs: cross-check (1 sample), replay or fallback (more)
    if not ob.numeric:
        n, envs = 0, []
    elif sym and not sym["fails"]:
        n, envs = ob.samples if tier == "quick" else 4 * ob.samples, []
    else:
        n, envs = ob.fallback if tier == "quick" else 4 * ob.fallback, [e for e in (sym or {}).get("envs", []) if e] + raised
    found = None
    plans = [(seed, e, None) for e in envs[:40]] + [(seed * 1000 + i, None, None) for i in range(n)]
    if ob.numeric and (n or envs) and (not sym or sym["fails"] or sym["generic"] or FORCE_PROFILES):
        plans += [(seed * 1000 + 500 + i, None, p) for i, p in enumerate(ob.profiles)]
    if ob.numeric and ob.profiles and symnum.HINTS:
        plans += [(seed * 1000 + 600 + i, e, p or "at") for i, (e, p) in enumerate(boundary_inputs(random.Random(seed))) if not p or "tiny" in ob.profiles]
    for sd, env, prof in plans:
        try:
            x = run_concrete(ob, sd, env, prof)
            res.samples += 1
            fails = x.fails
        except Missing as e:
            if prof:
                continue
            res.status, res.note = "undecided", f"anchor missing: {e}"
            res.wall = time.time() - t0
            return res
        except Exception as e:
            if prof and isinstance(e, ZeroDivisionError):
                continue                # a special value outside the domain of the clause
            if isinstance(e, TypeError) and "<locals>" in str(e) and "argument" in str(e):
                # the code calls a callee the way its stand-in does not foresee
                res.status, res.note = "undecided", f"callee contract does not fit: {e}"
                res.wall = time.time() - t0
                return res
            fails = [{"clause": "raises", "got": "".join(traceback.format_exception(e))[-1500:], "want": "no exception"}]
            x = None
        if fails:
            used = {k: ([v.real, v.imag] if isinstance(v, complex) else v) for k, v in list((x.used if x else {}).items())[:4000]}
            found = {"seed": sd, "profile": prof, "env": {k: ([v.real, v.imag] if isinstance(v, complex) else v) for k, v in (env or {}).items()},
                     "fails": fails[:3000], "inputs": used if len(used) <= 400 else dict(list(used.items())[:400])}
            break
    if found:
        res.status = "violated"
        res.fail = {"obligation": ob.name, "concrete": found, "symbolic": (sym or {}).get("fails", [])[:3000], "engine_note": err}
        res.replay = "input"
    elif sym and sym["fails"] and ob.numeric and res.samples and (not ob.fork or sym["unknown"] or envs):
        # a generic polynomial / tensor identity that fails does so at a random point;
        # a refutation no concrete run confirms is an incompleteness of the engine
        res.status = "undecided"
        res.note = (f"not discharged by the normal form, {res.samples} concrete runs of the clause pass: "
                    + "; ".join(f"{f['clause']}: got {f['got'][:80]} want {f['want'][:80]}" for f in sym["fails"][:2]))
    elif sym and sym["fails"] and sym.get("unknown"):
        res.status = "undecided"
        res.note = f"fails on some path, but {sym['unknown']} path conditions were not decided by z3"
    elif sym and sym["fails"]:
        res.status = "violated"
        res.fail = {"obligation": ob.name, "concrete": None, "symbolic": sym["fails"][:10]}
        res.replay = "none"
    elif sym:
        if res.clauses == 0:
            res.status, res.note = "undecided", "no clause generated (vacuous)"
        else:
            res.status = "bounded" if ob.bounded else "proved"
            res.note = ob.bounded or ""
    else:
        res.status = "undecided"
        res.note = err + (f"; concrete stand-in: {res.samples} samples, no failure" if res.samples else "")
    res.wall = time.time() - t0
    return res
