"""Behaviour-preserving rewrites of /repo's sources in scratch copies: every check must stay quiet.
python3-vt tools/refactor.py [FILE ...] [-t TRANSFORM,...] [-j J] [-p P01,...]"""
import ast, copy, json, os, re, shutil, subprocess, sys, argparse, threading
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument("files", nargs="*"); ap.add_argument("-t"); ap.add_argument("-j", type=int, default=8); ap.add_argument("-p")
a = ap.parse_args()
sys.setrecursionlimit(20000)
W = f"/tmp/refwork/{os.getpid()}"
sh = lambda c, **k: subprocess.run(c, shell=True, capture_output=True, text=True, **k)
FUN = (ast.FunctionDef,)


class Base(ast.NodeTransformer):
    n = 0

    def tmp(self):
        Base.n += 1
        return f"_t{Base.n}"


class ReturnTemp(Base):
    """return E  ->  t = E; return t"""
    def visit_Return(self, n):
        if n.value is None or isinstance(n.value, (ast.Name, ast.Constant)): return n
        t = self.tmp()
        return [ast.Assign([ast.Name(t, ast.Store())], n.value), ast.Return(ast.Name(t, ast.Load()))]


class RenameLocals(Base):
    def visit_FunctionDef(self, n):
        if any(isinstance(m, (ast.FunctionDef, ast.Lambda, ast.Global, ast.Nonlocal, ast.ClassDef)) for m in ast.walk(n) if m is not n): return n
        if any(isinstance(m, ast.Call) and isinstance(m.func, ast.Name) and m.func.id in ("locals", "eval", "exec", "vars") for m in ast.walk(n)): return n
        args = {x.arg for x in n.args.args + n.args.kwonlyargs + n.args.posonlyargs} | {x.arg for x in (n.args.vararg, n.args.kwarg) if x}
        loc = {m.id for m in ast.walk(n) if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Store)} - args
        for m in ast.walk(n):
            if isinstance(m, ast.Name) and m.id in loc: m.id = m.id + "_v"
            if isinstance(m, ast.ExceptHandler) and m.name in loc: m.name += "_v"
        return n


class NegateIf(Base):
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            n.test, n.body, n.orelse = ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body
        return n


class CompToLoop(Base):
    """x = [E for ...] / {K: V for ...} at statement level  ->  explicit loop"""
    def visit_Assign(self, n):
        return self.do(n, n.value, lambda v: ast.Assign(n.targets, v))

    def visit_Return(self, n):
        return self.do(n, n.value, lambda v: ast.Return(v))

    def do(self, n, v, mk):
        if not isinstance(v, (ast.ListComp, ast.DictComp)): return n
        if any(isinstance(m, (ast.Lambda,)) for m in ast.walk(v)): return n
        t = self.tmp()
        ld = ast.Name(t, ast.Load())
        if isinstance(v, ast.ListComp):
            init = ast.List([], ast.Load()); st = ast.Expr(ast.Call(ast.Attribute(ld, "append", ast.Load()), [v.elt], []))
        else:
            init = ast.Dict([], []); st = ast.Assign([ast.Subscript(ld, v.key, ast.Store())], v.value)
        # comprehension variables must not leak: rename
        names = {m.id for g in v.generators for m in ast.walk(g.target) if isinstance(m, ast.Name)}
        first = v.generators[0].iter
        body = [st]
        for g in reversed(v.generators):
            for c in reversed(g.ifs): body = [ast.If(c, body, [])]
            body = [ast.For(g.target, g.iter, body, [])]
        ren = {k: f"{k}{t}" for k in names}
        loop = body[0]
        keep = {id(m) for m in ast.walk(first)}
        for m in ast.walk(loop):
            if isinstance(m, ast.Name) and m.id in ren and id(m) not in keep: m.id = ren[m.id]
        return [ast.Assign([ast.Name(t, ast.Store())], init), loop, mk(ld)]


class Wrap(Base):
    """def f(args): BODY  ->  def _f_impl(args): BODY; def f(args): return _f_impl(args)   (module level and methods)"""
    def visit_Module(self, n):
        n.body = self.go(n.body, None); return n

    def go(self, body, cls):
        out = []
        for s in body:
            if isinstance(s, ast.ClassDef): s.body = self.go(s.body, s)
            if isinstance(s, ast.FunctionDef) and not s.name.startswith("__") and not any(isinstance(m, (ast.Yield, ast.YieldFrom)) for m in ast.walk(s)) \
                    and not any(isinstance(m, ast.Call) and isinstance(m.func, ast.Name) and m.func.id in ("super",) for m in ast.walk(s)) and s.name != "match_run_":
                deco = [ast.unparse(d) for d in s.decorator_list]
                if cls is not None and deco:
                    out.append(s); continue
                impl = copy.deepcopy(s); impl.decorator_list = []; impl.name = f"_{s.name}__impl"
                A = s.args
                call = ast.Call(ast.Name(impl.name, ast.Load()), [ast.Name(x.arg, ast.Load()) for x in A.posonlyargs + A.args], [ast.keyword(x.arg, ast.Name(x.arg, ast.Load())) for x in A.kwonlyargs])
                if A.vararg: call.args.append(ast.Starred(ast.Name(A.vararg.arg, ast.Load())))
                if A.kwarg: call.keywords.append(ast.keyword(None, ast.Name(A.kwarg.arg, ast.Load())))
                if cls is not None:
                    call.func = ast.Attribute(ast.Name(A.args[0].arg, ast.Load()), impl.name, ast.Load()); call.args = call.args[1:]
                doc = [s.body[0]] if isinstance(s.body[0], ast.Expr) and isinstance(s.body[0].value, ast.Constant) else []
                s.body = doc + [ast.Return(call)]
                out.append(impl)
            out.append(s)
        return out


class Commute(Base):
    """a * b -> b * a where the operands are names, attributes, numbers, subscripts or products of them"""
    def visit_BinOp(self, n):
        self.generic_visit(n)
        ok = lambda m: isinstance(m, (ast.Name, ast.Subscript, ast.Attribute)) or isinstance(m, ast.Constant) and isinstance(m.value, (int, float))
        if isinstance(n.op, ast.Mult) and (ok(n.left) and ok(n.right)) and not isinstance(n.right, ast.Constant):
            n.left, n.right = n.right, n.left
        return n


class IterList(Base):
    def visit_For(self, n):
        self.generic_visit(n)
        n.iter = ast.Call(ast.Name("list", ast.Load()), [n.iter], [])
        return n


class Fstring(Base):
    """f"..{x}.." -> "..".format, '+' kept"""
    def visit_JoinedStr(self, n):
        self.generic_visit(n)
        fmt, args = "", []
        for v in n.values:
            if isinstance(v, ast.Constant): fmt += v.value.replace("{", "{{").replace("}", "}}")
            elif v.format_spec is None and v.conversion == -1: fmt += "{}"; args.append(v.value)
            else: return n
        return ast.Call(ast.Attribute(ast.Constant(fmt), "format", ast.Load()), args, [])

    def visit_FormattedValue(self, n): return n


class Kwargs(Base):
    """positional None default tests: 'x is None' -> 'None is x'"""
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
            n.left, n.comparators = n.comparators[0], [n.left]
        return n


class Noop(Base):
    """a statement that does nothing at the start of every function; a comment is invisible to ast"""
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        i = 1 if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else 0
        n.body.insert(i, ast.Assign([ast.Name("_unused", ast.Store())], ast.Constant(None)))
        return n


class IfExpToIf(Base):
    """x = A if C else B -> if statement"""
    def visit_Assign(self, n):
        if isinstance(n.value, ast.IfExp):
            v = n.value
            return ast.If(v.test, [ast.Assign(n.targets, v.body)], [ast.Assign(copy.deepcopy(n.targets), v.orelse)])
        return n


class Continue(Base):
    """for ..: if c: BODY  ->  if not c: continue; BODY"""
    def visit_For(self, n):
        self.generic_visit(n)
        if len(n.body) == 1 and isinstance(n.body[0], ast.If) and not n.body[0].orelse:
            i = n.body[0]
            n.body = [ast.If(ast.UnaryOp(ast.Not(), i.test), [ast.Continue()], [])] + i.body
        return n


class DictUpdate(Base):
    """d.update(e) -> for k, v in e.items(): d[k] = v   when e is a name or a call"""
    def visit_Expr(self, n):
        v = n.value
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == "update" and len(v.args) == 1 and not v.keywords and isinstance(v.func.value, (ast.Name, ast.Attribute)):
            t = self.tmp(); k, w = t + "k", t + "v"
            return ast.For(ast.Tuple([ast.Name(k, ast.Store()), ast.Name(w, ast.Store())], ast.Store()),
                           ast.Call(ast.Attribute(ast.Call(ast.Name("dict", ast.Load()), [v.args[0]], []), "items", ast.Load()), [], []),
                           [ast.Assign([ast.Subscript(v.func.value, ast.Name(k, ast.Load()), ast.Store())], ast.Name(w, ast.Load()))], [])
        return n


class Lift(Base):
    """every call argument that is itself a call is bound to a name first (statement level assignments and returns)"""
    def visit_Assign(self, n): return self.do(n)
    def visit_Return(self, n): return self.do(n)

    def do(self, n):
        v = n.value
        if isinstance(v, ast.Call) and v.args and isinstance(v.args[0], ast.Call):
            t = self.tmp()
            x = v.args[0]
            v.args[0] = ast.Name(t, ast.Load())
            return [ast.Assign([ast.Name(t, ast.Store())], x), n]
        return n


T = {c.__name__: c for c in (ReturnTemp, RenameLocals, NegateIf, CompToLoop, Wrap, Commute, IterList, Fstring, Kwargs, Noop, IfExpToIf, Continue, DictUpdate, Lift)}
want = a.t.split(",") if a.t else list(T)
files = a.files or [f for f in sh("git -C /repo ls-files 'wilson/*.py'").stdout.split() if "/test" not in f and "_smeft_old" not in f and "/tests/" not in f and not f.endswith("definitions.py")]
files = [f[7:] if f.startswith("wilson/") else f for f in files]
o = sh(f"cd {V} && PYTHONPATH={V} python3-vt -c \"\nfrom vc import boot; boot.boot()\nfrom vc import run, harness\nimport json\nrun.load_checks()\nc={{}}\nfor p,obs in harness.REGISTRY.items():\n  for ob in obs:\n    for f in ob.functions: c.setdefault(f.partition(':')[0], set()).add(p)\nprint(json.dumps({{k:sorted(v) for k,v in c.items()}}))\"")
MAP = json.loads(o.stdout.splitlines()[-1])
EXTRA = {"classes.py": "P36 P37 P38 P39 P40 P42", "wcxf/classes.py": "P01 P02 P03 P04 P05 P37", "util/common.py": "P10 P11 P12 P16 P18 P22 P27", "translate/__init__.py": "P31 P32 P33 P34 P35 P39",
         "run/smeft/beta.py": "P17 P18 P19 P20 P21", "util/wet_jms.py": "P13 P14 P15 P27 P24", "run/wet/adm.py": "P25 P26", "util/qcd.py": "P41 P35"}
jobs = []
for f in files:
    src = open("/repo/wilson/" + f).read()
    base = ast.unparse(ast.parse(src))
    for t in want:
        tree = ast.fix_missing_locations(T[t]().visit(ast.parse(src)))
        new = ast.unparse(tree)
        if new != base: jobs.append((f, t, new))
print(len(jobs), "rewrites", flush=True)
free = []
for i in range(a.j):
    w = f"{W}/{i}"; os.makedirs(w + "/verif"); sh(f"git clone -q /repo {w}/repo")
    for n in ("vc", "check", "known-findings.txt"): sh(f"cp -a {V}/{n} {w}/verif/")
    sh(f"cp -a /opt/vp/harness {w}/harness && sed -i 's#/repo/#{w}/repo/#g' {w}/harness/wilson_partial.py")
    t = open("/opt/vp/test.sh").read().replace("cd /repo ||", f"cd {w}/repo ||").replace("PYTHONPATH=/opt/vp/harness", f"PYTHONPATH={w}/harness")
    open(f"{w}/test.sh", "w").write(t); free.append(w)


def one(j):
    f, t, new = j
    w = free.pop()
    try:
        open(f"{w}/repo/wilson/{f}", "w").write(new)
        try:
            sh(f"timeout 120 bash {w}/test.sh {w}/out.json")
            ok = len(json.load(open(f"{w}/out.json"))["passed"]) >= 18
        except Exception: ok = False
        if not ok: print(f"TESTS {f} {t}", flush=True); return
        mod = "wilson." + f[:-3].replace("/", ".").replace(".__init__", "")
        props = a.p.split(",") if a.p else sorted({*MAP.get(mod, ()), *EXTRA.get(f, "").split()})
        for q in props:
            r = sh(f"cd {w}/verif && VERIF_REPO={w}/repo VERIF_TIER=quick timeout 900 python3-vt -m vc.run {q} -j 1")
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            c = [l.strip()[:300] for l in r.stdout.splitlines() if l.startswith("  obligation")]
            u = [l.strip()[:220] for l in r.stdout.splitlines() if l.startswith("  undecided")]
            if r.returncode: print(f"ALARM {f} {t} {q} rc={r.returncode} {len(v)} {c[:2]} {r.stderr[-200:]}", flush=True)
            elif u: print(f"undecided {f} {t} {q} {len(u)} {u[:1]}", flush=True)
    finally:
        sh(f"git -C {w}/repo checkout -q -- ."); free.append(w)


with ThreadPoolExecutor(a.j) as ex: list(ex.map(one, jobs))
print("done")
shutil.rmtree(W, ignore_errors=True)
