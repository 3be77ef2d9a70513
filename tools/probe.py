"""Quick probes: python3 tools/probe.py FILE [-j N]. FILE holds lines probe("P01 P02", "wcxf/classes.py", old, new).
Applies each edit in a scratch copy, runs the stable tests and the named checks, prints the outcome."""
import os, sys, json, threading, shutil
from concurrent.futures import ThreadPoolExecutor
sys.argv, ARGS = [sys.argv[0]], sys.argv[1:]
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = open(os.path.join(V, "tools", "seed.py")).read()
ns = {"__file__": os.path.join(V, "tools", "seed.py"), "__name__": "seedlib"}
exec(compile(src.split("def build(")[0].replace("/tmp/seedwork", "/tmp/probework"), "seed.py", "exec"), ns)
P = []


def probe(props, path, old, new):
    P.append((props.split(), path, old, new))


exec(open(ARGS[0]).read())
J = int(ARGS[ARGS.index("-j") + 1]) if "-j" in ARGS else 3
ONLY = [int(a) for a in ARGS[1:] if a.isdigit() and ARGS[ARGS.index(a) - 1] != "-j"]
BASE = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", json.load(open("/opt/vp/BASELINE.json")).get("passed", [])))
pool = [f"/tmp/probework/{i}" for i in range(J)]
for w in pool:
    ns["prepare"](w)
lock = threading.Lock()


def one(i):
    props, path, old, new = P[i]
    with lock:
        w = pool.pop()
    try:
        p = f"{w}/repo/wilson/{path}"
        t = open(p).read()
        n = t
        for o_, n_ in (old if isinstance(old, list) else [(old, new)]):
            if n.count(o_) != 1:
                return i, f"pattern occurs {n.count(o_)} times"
            n = n.replace(o_, n_)
        open(p, "w").write(n)
        try:
            ns["sh"](f"bash {w}/test.sh {w}/out.json", timeout=300)
            o = json.load(open(f"{w}/out.json"))
            failed = sorted(set(o.get("failed", [])) & BASE) if BASE else o.get("failed")
            res = ns["checks"](w, props)
        finally:
            open(p, "w").write(t)
        caught = [q for q, rc, v, u in res if rc == 1]
        return i, ("CAUGHT " + " ".join(caught) if caught else "MISSED " + repr([(q, rc, u[:1]) for q, rc, v, u in res])[:300]) + (f"  [tests fail {len(failed)}]" if failed else "")
    except Exception as e:
        return i, "ERROR " + repr(e)[:200]
    finally:
        with lock:
            pool.append(w)


with ThreadPoolExecutor(J) as ex:
    for i, r in ex.map(one, ONLY or range(len(P))):
        print(i, P[i][0], P[i][1], repr(str(P[i][3]).strip()[:60]), r, flush=True)
shutil.rmtree("/tmp/probework")
