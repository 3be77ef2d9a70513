"""Plant the bugs of tools/seeds_*.py one after another and record what happens.
python3 tools/seed.py [ID ...] [-j N]    (works in scratch copies of /repo and /verif under /tmp/seedwork)
--recheck: only rerun the checks against existing seeded/<id>/patch.diff"""
import glob, json, os, shutil, subprocess, sys, threading
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = []


def seed(id, prop, edits, needs, breaks, demo, also=()):
    SEEDS.append(dict(id=id, prop=prop, edits=edits if isinstance(edits[0], (list, tuple)) else [edits],
                      needs=" ".join(needs.split()), breaks=" ".join(breaks.split()), demo=demo, also=also))


for f in sorted(glob.glob(os.path.join(V, "tools", "seeds_*.py"))):
    exec(compile(open(f).read(), f, "exec"))

sh = lambda c, **k: subprocess.run(c, shell=True, capture_output=True, text=True, **k)


W = "/tmp/seedwork"
PATHS = [os.path.join(W, str(i)) for i in range(4)]


def prepare(w):
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    assert sh(f"git clone -q /repo {w}/repo").returncode == 0
    os.makedirs(f"{w}/verif")
    for n in ("vc", "check", "known-findings.txt"):
        sh(f"cp -a {V}/{n} {w}/verif/")
    sh(f"cp -a /opt/vp/harness {w}/harness && sed -i 's#/repo/#{w}/repo/#g' {w}/harness/wilson_partial.py")
    t = open("/opt/vp/test.sh").read()
    assert "cd /repo ||" in t and "PYTHONPATH=/opt/vp/harness" in t
    t = t.replace("cd /repo ||", f"cd {w}/repo ||").replace("PYTHONPATH=/opt/vp/harness", f"PYTHONPATH={w}/harness")
    open(f"{w}/test.sh", "w").write(t)


def run_demo(w, d):
    env = {k: v for k, v in os.environ.items() if k != "PYTHONPATH"}
    env["VERIF_REPO"] = f"{w}/repo"
    shutil.rmtree(f"{w}/demo", ignore_errors=True)
    shutil.copytree(d, f"{w}/demo", ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    r = subprocess.run(["bash", f"{w}/demo/demo.sh"], cwd=f"{w}/repo", env=env, capture_output=True, text=True, timeout=300)
    return r.returncode, (r.stdout + r.stderr)[-600:]


def checks(w, props):
    out = []
    for p in props:
        r = sh(f"cd {w}/verif && VERIF_REPO={w}/repo ./check {p} quick", timeout=900)
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        und = [l.strip()[:160] for l in r.stdout.splitlines() if l.startswith("  undecided")]
        out.append((p, r.returncode, v, und))
    return out


def build(w, d, s):
    os.makedirs(os.path.join(d, "demo_boot", "data"), exist_ok=True)
    for f in ("bases.py", "boot.py"):
        shutil.copy(os.path.join(V, "vc", f), os.path.join(d, "demo_boot", f))
    open(os.path.join(d, "demo_boot", "__init__.py"), "w").close()
    for f in ("jms_sectors.json", "wet_keys.json", "higgs_up.json"):
        if os.path.exists(os.path.join(V, "vc", "data", f)):
            shutil.copy(os.path.join(V, "vc", "data", f), os.path.join(d, "demo_boot", "data", f))
    with open(os.path.join(d, "demo.py"), "w") as f:
        f.write("import sys, os\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\n"
                "from demo_boot import boot\nboot.boot()\nimport numpy as np\n" + s["demo"].strip() + "\n")
    with open(os.path.join(d, "demo.sh"), "w") as f:
        f.write('#!/bin/bash\nexport OMP_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    rc, out = run_demo(w, d)
    if rc != 0:
        return "DEMO FAILS ON CLEAN TREE " + out
    for path, old, new in s["edits"]:
        p = os.path.join(w, "repo/wilson", path)
        t = open(p).read()
        if t.count(old) != 1:
            return f"pattern occurs {t.count(old)} times {path} {old[:60]}"
        open(p, "w").write(t.replace(old, new))
    open(os.path.join(d, "patch.diff"), "w").write(sh(f"git -C {w}/repo diff").stdout)
    sh(f"bash {w}/test.sh {w}/out.json")
    t = json.load(open(f"{w}/out.json"))
    if len(t["passed"]) < 18:
        return f"TESTS FAIL {t['failed']}"
    rc, out = run_demo(w, d)
    if rc == 0:
        return "DEMO PASSES WITH PATCH " + out


def one(s):
    w = free.pop()
    d = os.path.join(V, "seeded", s["id"])
    try:
        if "--recheck" in sys.argv and os.path.exists(os.path.join(d, "patch.diff")):
            if sh(f"git -C {w}/repo apply {d}/patch.diff").returncode:
                print(s["id"], "PATCH DOES NOT APPLY", flush=True)
                return
        else:
            os.makedirs(d, exist_ok=True)
            why = build(w, d, s)
            if why:
                print(s["id"], why, flush=True)
                shutil.rmtree(d)
                return
        res = checks(w, [s["prop"], *s["also"]])
        hit = [p for p, rc, v, u in res if rc == 1 and v]
        nf = ["no-failing" in l for p, rc, v, u in res for l in v]
        print(s["id"], "CAUGHT" if s["prop"] in hit else "MISSED", hit, [(p, rc) for p, rc, v, u in res if rc not in (0, 1)],
              f"({sum(nf)} of {len(nf)} without input)", [] if hit else [u for *_, u in res], flush=True)
        caught[s["id"]] = ", ".join(hit) or "none"
    finally:
        sh(f"git -C {w}/repo checkout -q -- .")
        free.append(w)


cf = os.path.join(V, "tools", "caught.json")
caught = json.load(open(cf)) if os.path.exists(cf) else {}
J = int(sys.argv[sys.argv.index("-j") + 1]) if "-j" in sys.argv else 3
only = [a for a in sys.argv[1:] if not a.startswith("-") and not a.isdigit()]
todo = [s for s in SEEDS if (s["id"] in only if only else "--recheck" in sys.argv
        or not os.path.exists(os.path.join(V, "seeded", s["id"], "patch.diff")))]
free = PATHS[:J]
for w in free:
    prepare(w)
with ThreadPoolExecutor(J) as ex:
    for f in [ex.submit(one, s) for s in todo]:
        f.result()
json.dump(caught, open(cf, "w"), indent=1, sort_keys=True)
shutil.rmtree(W, ignore_errors=True)
