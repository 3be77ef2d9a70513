"""Path exploration: comparisons of symbolic scalars fork; z3 prunes infeasible
branches and supplies models for the path taken."""
import z3
from .num import Num, ATOMS, Ctx, GENERIC, evaluate, Unsupported, as_num


class Z3Enc:
    def __init__(self):
        self.v = {}
        self.axioms = []

    def atom(self, i):
        """(re, im) z3 terms"""
        if i in self.v:
            return self.v[i]
        c = ATOMS.conj[i]
        if c == i:
            r = (z3.Real(f"a{i}"), None)
            self.v[i] = r
            d = ATOMS.defn[i]
            if d and d[0] in ("sqrt", "abs", "inv", "exp") and ATOMS.arg[i][0].is_real():
                a, _ = self.num(ATOMS.arg[i][0])
                t = r[0]
                self.axioms.append({"sqrt": lambda: z3.Implies(a >= 0, z3.And(t >= 0, t * t == a)),
                                    "abs": lambda: z3.And(t >= 0, z3.Or(t == a, t == -a)),
                                    "inv": lambda: z3.Implies(a != 0, t * a == 1),
                                    "exp": lambda: t > 0}[d[0]]())
        else:
            lo = min(i, c)
            re, im = z3.Real(f"a{lo}_re"), z3.Real(f"a{lo}_im")
            self.v[lo] = (re, im)
            self.v[max(i, c)] = (re, -im)
            r = self.v[i]
        return r

    def num(self, n):
        re, im = z3.RealVal(0), z3.RealVal(0)
        for k, c in n.t.items():
            tr, ti = z3.RealVal(repr(c.real)), z3.RealVal(repr(c.imag))
            for i, e in k:
                ar, ai = self.atom(i)
                for _ in range(abs(e)):
                    if e > 0:
                        if ai is None:
                            tr, ti = tr * ar, ti * ar
                        else:
                            tr, ti = tr * ar - ti * ai, tr * ai + ti * ar
                    else:
                        if ai is None:
                            tr, ti = tr / ar, ti / ar
                        else:
                            d = ar * ar + ai * ai
                            tr, ti = (tr * ar + ti * ai) / d, (ti * ar - tr * ai) / d
            re, im = re + tr, im + ti
        return z3.simplify(re), z3.simplify(im)

    def rel(self, d, op):
        re, im = self.num(d)
        if op == "==":
            return z3.And(re == 0, im == 0)
        if op == "!=":
            return z3.Or(re != 0, im != 0)
        return {"<": re < 0, "<=": re <= 0, ">": re > 0, ">=": re >= 0}[op]


class Explorer:
    """run fn() once per feasible path. assume: list of (Num, op) preconditions"""

    def __init__(self, assume=(), max_paths=2000, timeout_ms=4000, generic_eq=False):
        self.assume = list(assume)
        self.max_paths = max_paths
        self.enc = Z3Enc()
        self.timeout = timeout_ms
        self.generic_eq = generic_eq
        self.paths = 0
        self.queries = 0
        self.unknown = 0

    def _solver(self):
        s = z3.Solver()
        s.set("timeout", self.timeout)
        for d, op in self.assume:
            s.add(self.enc.rel(as_num(d), op))
        for a in self.enc.axioms:
            s.add(a)
        return s

    def add_assume(self, d, op):
        """precondition declared while running (before any decision depends on it)"""
        self.declared.append((d, op))
        self.solver.add(self._rel(as_num(d), op))

    def _rel(self, d, op):
        n = len(self.enc.axioms)
        f = self.enc.rel(d, op)
        for a in self.enc.axioms[n:]:
            self.solver.add(a)
        return f

    def decide(self, d, op):
        if self.generic_eq and op in ("==", "!="):
            GENERIC[0] += 1
            return op == "!="
        f = self._rel(d, op)
        n = len(self.taken)
        if n < len(self.prefix):
            b = self.prefix[n]
        else:
            b = None
            rt, rf = self._check(f), self._check(z3.Not(f))
            if rt == z3.unsat and rf == z3.unsat:
                raise Unsupported("contradictory path")
            if rt == z3.unsat:
                b = False
            elif rf == z3.unsat:
                b = True
            else:
                if z3.unknown in (rt, rf):
                    self.unknown += 1
                b = True
                self.todo.append(self.taken + [False])
        self.taken.append(b)
        self.trace.append((d, op, b))
        self.solver.add(f if b else z3.Not(f))
        return b

    def _check(self, f):
        self.queries += 1
        self.solver.push()
        self.solver.add(f)
        r = self.solver.check()
        self.solver.pop()
        return r

    def run(self, fn, on_path):
        self.todo = [[]]
        while self.todo:
            self.prefix = self.todo.pop()
            self.taken = []
            self.trace = []
            self.declared = []
            self.solver = self._solver()
            self.paths += 1
            if self.paths > self.max_paths:
                raise Unsupported("too many paths")
            old = Ctx.cur
            Ctx.cur = self
            try:
                r = fn()
            finally:
                Ctx.cur = old
            on_path(self, r)

    def entails_zero(self, d):
        """the path condition implies d = 0"""
        if not any(op in ("==", "!=") for _, op, _ in self.trace) or len(d.t) > 40:
            return False
        try:
            f = self._rel(d, "!=")
        except Exception:
            return False
        r = self._check(f)
        if r == z3.unknown:
            self.unknown += 1
        return r == z3.unsat

    def models(self, rng, n=6):
        """model of the path condition and generic points near it on the same path"""
        env = self.model()
        if env is None:
            return []
        out = [env]
        conds = list(self.trace) + [(as_num(d), op, True) for d, op in self.declared]
        # quantities the path pins to a value stay there in two runs out of three
        pinned = set()
        for d, op, b in self.trace:
            if (op == "==") == b and op in ("==", "!="):
                pinned |= {ATOMS.name[i] for m in d.t for i, _ in m if ATOMS.kind[i] == "sym"}
        for t in range(60):
            if len(out) > n:
                break
            e2 = {}
            for k, v in env.items():
                if k in pinned and t % 3:
                    e2[k] = v
                    continue
                w = rng.choice([0.01, 0.1, 1.0, 10.0]) * max(abs(v), 0.1 if rng.random() < .5 else 1)
                e2[k] = v + (complex(rng.gauss(0, w), rng.gauss(0, w)) if isinstance(v, complex) else rng.gauss(0, w))
            if self._holds(conds, e2):
                out.append(e2)
        return out

    def _holds(self, conds, env):
        for d, op, b in conds:
            try:
                v = evaluate(d, env)
            except Exception:
                return False
            r = v.real
            t = {"<": r < 0, "<=": r <= 0, ">": r > 0, ">=": r >= 0, "==": v == 0, "!=": v != 0}[op]
            if t != b:
                return False
        return True

    def model(self, extra=None):
        """env name -> value satisfying the path condition (and extra), or None"""
        s = self.solver
        s.push()
        if extra is not None:
            s.add(extra)
        r = s.check()
        env = None
        if r == z3.sat:
            m = s.model()
            env = {}

            def val(t):
                x = m.eval(t, model_completion=True)
                try:
                    return float(x.as_fraction())
                except AttributeError:
                    return float(x.approx(20).as_fraction())
            for i, (re, im) in self.enc.v.items():
                if ATOMS.kind[i] != "sym" or ATOMS.name[i].endswith("~"):
                    continue
                env[ATOMS.name[i]] = val(re) if im is None else complex(val(re), val(im))
        s.pop()
        return env
