"""Systematic mutation of /repo's sources in scratch copies; lists the mutants no check reports.
python3-vt tools/mutate.py FILE(rel. to wilson/) [-n N] [-s SEED] [-j J] [-f FUNCTION] [-p P01,P02]
Mutants that fail the stable tests are skipped.  Output: one line per surviving mutant."""
import ast, copy, json, os, random, re, shutil, subprocess, sys, argparse, threading
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument("file"); ap.add_argument("-n", type=int, default=60); ap.add_argument("-s", type=int, default=1)
ap.add_argument("-j", type=int, default=8); ap.add_argument("-f"); ap.add_argument("-p"); ap.add_argument("--max", type=int, default=8)
a = ap.parse_args()
W = f"/tmp/mutwork/{os.getpid()}"
sh = lambda c, **k: subprocess.run(c, shell=True, capture_output=True, text=True, **k)
src = open("/repo/wilson/" + a.file).read()
tree = ast.parse(src)

CMP = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt,
       ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.MatMult: None, ast.Pow: ast.Mult, ast.FloorDiv: ast.Div, ast.Mod: ast.Mult}


def sites(tree):
    out = []
    doc = set()
    for n in ast.walk(tree):
        b = getattr(n, "body", None)
        if isinstance(b, list) and b and isinstance(b[0], ast.Expr) and isinstance(getattr(b[0], "value", None), ast.Constant) and isinstance(b[0].value.value, str):
            doc.add(id(b[0].value)); doc.add(id(b[0]))
    for n in ast.walk(tree):
        n_ = lambda k: out.append((n, k))
        if id(n) in doc: continue
        if isinstance(n, ast.Compare): n_("cmp")
        elif isinstance(n, ast.BinOp) and BIN.get(type(n.op)): n_("bin")
        elif isinstance(n, ast.BinOp) and isinstance(n.op, ast.MatMult): n_("swap")
        elif isinstance(n, ast.BoolOp): n_("bool"); n_("drop")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)): n_("unary")
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool): n_("flip")
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)): n_("num")
        elif isinstance(n, ast.Constant) and isinstance(n.value, complex): n_("conjc")
        elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value and ' ' not in n.value: n_("str")
        elif isinstance(n, (ast.If, ast.While)): n_("neg")
        elif isinstance(n, ast.IfExp): n_("neg")
        elif isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Attribute) and f.attr in ("conj", "conjugate", "copy", "deepcopy", "real", "imag", "array", "sqrt") : n_("unwrap")
            if isinstance(f, ast.Attribute) and f.attr == "T": n_("unwrap")
            if len(n.args) >= 2 and not any(isinstance(x, ast.Starred) for x in n.args): n_("args")
            if n.keywords: n_("kw")
        elif isinstance(n, ast.Attribute) and n.attr in ("T", "real", "imag"): n_("attr")
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Tuple) and len(n.slice.elts) >= 2: n_("idx")
        elif isinstance(n, (ast.Expr, ast.AugAssign, ast.Continue, ast.Break, ast.Raise, ast.Delete)): n_("del")
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Subscript): n_("del")
        elif isinstance(n, ast.Return) and n.value is not None: n_("ret")
    return out


def mutate(k, kind, rnd):
    t = ast.parse(src)
    nodes = list(ast.walk(t))
    n = nodes[k]
    par = {id(c): (p, f, i) for p in nodes for f, v in ast.iter_fields(p) for i, c in (enumerate(v) if isinstance(v, list) else [(None, v)]) if isinstance(c, ast.AST)}

    def put(new):
        p, f, i = par[id(n)]
        if i is None: setattr(p, f, new)
        else: getattr(p, f)[i] = new
    if kind == "cmp": n.ops[0] = CMP[type(n.ops[0])]()
    elif kind == "bin": n.op = BIN[type(n.op)]()
    elif kind == "swap": n.left, n.right = n.right, n.left
    elif kind == "bool": n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
    elif kind == "drop": put(n.values[0])
    elif kind == "unary": put(n.operand)
    elif kind == "flip": n.value = not n.value
    elif kind == "num": n.value = n.value + 1 if isinstance(n.value, int) else n.value * 1.1
    elif kind == "conjc": n.value = n.value.conjugate()
    elif kind == "str":
        s = n.value
        d = re.findall(r"\d", s)
        if len(set(d)) > 1:
            i, j = rnd.sample([m.start() for m in re.finditer(r"\d", s)], 2)
            l = list(s); l[i], l[j] = l[j], l[i]; s2 = "".join(l)
        elif len(s) > 1:
            i = rnd.randrange(len(s) - 1); l = list(s); l[i], l[i + 1] = l[i + 1], l[i]; s2 = "".join(l)
        else: s2 = s + "x"
        if s2 == s: return None
        n.value = s2
    elif kind == "neg": n.test = ast.UnaryOp(ast.Not(), n.test)
    elif kind == "unwrap": put(n.args[0] if n.args else n.func.value)
    elif kind == "args": n.args[0], n.args[1] = n.args[1], n.args[0]
    elif kind == "kw": del n.keywords[rnd.randrange(len(n.keywords))]
    elif kind == "attr": put(n.value)
    elif kind == "idx":
        e = n.slice.elts
        i, j = rnd.sample(range(len(e)), 2)
        if ast.dump(e[i]) == ast.dump(e[j]): return None
        e[i], e[j] = e[j], e[i]
    elif kind == "del": put(ast.Pass())
    elif kind == "ret": n.value = ast.Constant(None)
    ast.fix_missing_locations(t)
    line = n.lineno if hasattr(n, "lineno") else 0
    old = src.splitlines()[line - 1].strip()[:110]
    new = ast.unparse(t)
    if new == ast.unparse(ast.parse(src)): return None
    fn = ""
    p = n
    while id(p) in par:
        p = par[id(p)][0]
        if isinstance(p, (ast.FunctionDef, ast.ClassDef)): fn = p.name + ("." + fn if fn else "")
    # minimal textual form of the change
    a1, b1 = ast.unparse(ast.parse(src)).splitlines(), new.splitlines()
    import difflib
    ch = [l for l in difflib.unified_diff(a1, b1, n=0, lineterm="") if l[:1] in "+-" and l[:3] not in ("+++", "---")]
    if len(ch) == 2:
        x, y = ch[0][1:].strip(), ch[1][1:].strip()
        i = len(os.path.commonprefix([x, y])); j = len(os.path.commonprefix([x[::-1], y[::-1]]))
        x, y = (z[max(0, i - 60):len(z) - max(0, j - 40)] for z in (x, y))
        ch = ["-" + x, "+" + y]
    return new, line, fn, kind, " | ".join(c[:1] + c[1:].strip()[:160] for c in ch[:3])


rnd = random.Random(a.s)
nodes = list(ast.walk(tree)); pos = {id(n): i for i, n in enumerate(nodes)}
st = [(pos[id(n)], k) for n, k in sites(tree)]
rnd.shuffle(st)
mut = []
for k, kind in st:
    m = mutate(k, kind, rnd)
    if m and (not a.f or re.search(a.f, m[2])): mut.append(m)
    if len(mut) >= a.n: break
mod = "wilson." + a.file[:-3].replace("/", ".").replace(".__init__", "")
if a.p: props = a.p.split(",")
else:
    o = sh(f"cd {V} && PYTHONPATH={V} python3-vt -c \"\nfrom vc import boot; boot.boot()\nfrom vc import run, harness\nrun.load_checks()\nfrom collections import Counter\nc=Counter()\nfor p,obs in harness.REGISTRY.items():\n  for ob in obs:\n    c[p]+=any(f.partition(':')[0]=='{mod}' for f in ob.functions)\nprint(' '.join(p for p,n in c.most_common() if n))\"")
    props = o.stdout.split()
print(a.file, len(mut), "mutants of", len(st), "sites; properties", " ".join(props), flush=True)
free = []
for i in range(a.j):
    w = f"{W}/{i}"; os.makedirs(w + "/verif"); sh(f"git clone -q /repo {w}/repo")
    for n in ("vc", "check", "known-findings.txt"): sh(f"cp -a {V}/{n} {w}/verif/")
    sh(f"cp -a /opt/vp/harness {w}/harness && sed -i 's#/repo/#{w}/repo/#g' {w}/harness/wilson_partial.py")
    t = open("/opt/vp/test.sh").read().replace("cd /repo ||", f"cd {w}/repo ||").replace("PYTHONPATH=/opt/vp/harness", f"PYTHONPATH={w}/harness")
    open(f"{w}/test.sh", "w").write(t); free.append(w)
stat = {}
lock = threading.Lock()


def one(m):
    new, line, fn, kind, ch = m
    w = free.pop()
    try:
        p = f"{w}/repo/wilson/{a.file}"
        open(p, "w").write(new)
        try:
            sh(f"timeout 120 bash {w}/test.sh {w}/out.json")
            ok = len(json.load(open(f"{w}/out.json"))["passed"]) >= 18
        except Exception: ok = False
        res = None
        if not ok: res = "tests"
        else:
            und = []
            for q in props:
                try: r = sh(f"cd {w}/verif && VERIF_REPO={w}/repo VERIF_TIER=quick timeout 600 python3-vt -m vc.run {q} -j 1")
                except Exception as e: und.append((q, "timeout")); continue
                v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
                if r.returncode == 1 and v:
                    res = "caught" if not all("no-failing" in l for l in v) else "caught-noinput"; break
                u = [l.strip()[:100] for l in r.stdout.splitlines() if l.startswith("  undecided")]
                if u or r.returncode: und.append((q, r.returncode, len(u)))
            if res is None: res = "UNDECIDED" if und else "SURVIVED"
        with lock: stat[res] = stat.get(res, 0) + 1
        if res in ("UNDECIDED", "SURVIVED"): print(f"{res} {a.file}:{line} {fn} [{kind}] {ch} {und or ''}", flush=True)
    finally:
        sh(f"git -C {w}/repo checkout -q -- ."); free.append(w)


with ThreadPoolExecutor(a.j) as ex: list(ex.map(one, mut))
print(a.file, stat)
shutil.rmtree(W, ignore_errors=True)
