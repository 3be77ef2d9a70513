"""Check one property: generate its obligations from /repo's current source,
discharge them, write evidence/<id>.json and report.

  python3-vt -m vc.run P11 [--tier quick|thorough] [--seed N] [-v] [--only NAME]

exit 0  every obligation discharged, or (listed in the evidence as undecided)
        outside the engine's reach with its concrete stand-in passing
exit 1  a named obligation is refuted: VIOLATION line
exit 2  the check itself could not run (no obligations, import failure of the checker)
"""
import argparse, hashlib, importlib, inspect, json, multiprocessing as mp, os, re, resource, signal, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = ["wcxf_core", "formats", "arrays", "smeft_run", "wet_run", "matching", "translations", "wet_trans", "toplevel", "qcdpar", "smpar_init", "history", "inputs", "points"]
KNOWN = os.path.join(VERIF, "known-findings.txt")


def slug(name):
    return re.sub(r"[^A-Za-z0-9]+", "_", name).strip("_")


def load_known(prop):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"known: property=(\S+) obligation=(\S+) clause=(\S+) :: (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    return out


def load_checks():
    here = os.path.join(VERIF, "vc", "checks")
    for c in CHECKS:
        if os.path.exists(os.path.join(here, c + ".py")):
            importlib.import_module("vc.checks." + c)


def _worker(args):
    prop, idx, seed, tier = args
    from . import harness
    resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
    ob = harness.REGISTRY[prop][idx]
    try:
        r = harness.discharge(ob, seed, tier)
    except BaseException as e:      # the checker itself failed on this obligation
        r = harness.Result(ob)
        r.status = "error"
        r.note = "".join(traceback.format_exception(e))[-1500:]
    return {"idx": idx, "name": ob.name, "status": r.status, "clauses": r.clauses, "scalars": r.scalars,
            "paths": r.paths, "z3": r.z3, "samples": r.samples, "note": r.note, "fail": r.fail, "replay": r.replay,
            "wall": round(r.wall, 3)}


def where(fn):
    """'wilson.util.common:EFTutil.pad_C' -> file:line and source hash"""
    mod, _, q = fn.partition(":")
    try:
        o = importlib.import_module(mod)
        for p in q.split("."):
            o = inspect.getattr_static(o, p) if p.startswith("__") else getattr(o, p)
        o = getattr(o, "fget", o)
        o = inspect.unwrap(o)
        src, line = inspect.getsourcelines(o)
        return {"function": fn, "where": f"{os.path.basename(inspect.getsourcefile(o))}:{line}",
                "sha256": hashlib.sha256("".join(src).encode()).hexdigest()[:16]}
    except Exception:
        return {"function": fn, "where": "not found in this tree"}


def jdefault(o):
    if isinstance(o, complex):
        return [o.real, o.imag]
    if isinstance(o, (set, frozenset, tuple)):
        return list(o)
    return repr(o)


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--only")
    ap.add_argument("-q", action="store_true")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("-j", type=int, default=8)
    a = ap.parse_args(argv)
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS"):
        os.environ.setdefault(v, "1")
    t0 = time.time()
    from . import boot, harness
    try:
        boot.boot()
    except Exception as e:
        # the code under test does not even import: every property it provides is gone
        import traceback as tb
        path = os.path.join(VERIF, "evidence", "replay", f"{a.prop}-import.json")
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w") as f:
            json.dump({"property": a.prop, "obligation": "import", "error": "".join(tb.format_exception(e))}, f, indent=1)
        write_evidence(a.prop, tier, a.seed, [], [], t0, 1, ["import of wilson failed"], [])
        print("".join(tb.format_exception(e))[-2000:])
        print(f"VIOLATION property={a.prop} replay={path}")
        return 1
    load_checks()
    obs = harness.REGISTRY.get(a.prop, [])
    sel = [i for i, o in enumerate(obs) if (not a.only or re.search(a.only, o.name))
           and (tier == "thorough" or not o.thorough_only)]
    if not sel:
        print(f"ERROR: no obligations for {a.prop}")
        return 2
    # costly first
    sel.sort(key=lambda i: -obs[i].cost)
    results = []
    ctx = mp.get_context("fork")
    with ctx.Pool(min(a.j, len(sel)), maxtasksperchild=1) as pool:
        for r in pool.imap_unordered(_worker, [(a.prop, i, a.seed, tier) for i in sel], chunksize=1):
            results.append(r)
            if a.v or (a.q and r["status"] != "proved"):
                print(f"  [{r['status']:9s}] {r['name']} clauses={r['clauses']} scalars={r['scalars']} "
                      f"paths={r['paths']} samples={r['samples']} {r['wall']:.2f}s {r['note'][:300]}", flush=True)
    results.sort(key=lambda r: r["idx"])
    known = load_known(a.prop)
    viol, findings = [], []
    for r in results:
        if r["status"] != "violated":
            continue
        conc = (r["fail"]["concrete"] or {}).get("fails") or []
        fails = conc or r["fail"]["symbolic"]
        match = lambda f: [k for k in known if k[0] == slug(r["name"]) and k[1].search(f["clause"])]
        new = [f for f in fails if not match(f)]
        for f in fails:
            for k in match(f):
                if k not in findings:
                    findings.append(k)
        if new:
            r["new"] = new
            viol.append(r)
        else:
            r["status"] = "known"
    errors = [r for r in results if r["status"] == "error"]
    functions = sorted({f for i in sel for f in obs[i].functions})
    assumptions = sorted({s for i in sel for s in obs[i].assumptions})
    write_evidence(a.prop, tier, a.seed, results, functions, t0, len(viol), assumptions, [obs[i] for i in sel])
    for f in findings:
        print(f"KNOWN-FINDING: property={a.prop} {f[2]}")
    n = {s: sum(r["status"] == s for r in results) for s in ("proved", "bounded", "undecided", "known", "violated", "error")}
    print(f"{a.prop} {tier}: {len(results)} obligations {n}, "
          f"{sum(r['clauses'] for r in results)} clauses, {sum(r['scalars'] for r in results)} scalar equalities, {time.time()-t0:.1f}s")
    for r in results:
        if r["status"] in ("undecided", "error"):
            print(f"  undecided {r['name']}: {r['note'][:600]}")
    if viol:
        for r in viol:
            path = os.path.join(VERIF, "evidence", "replay", f"{a.prop}-{re.sub(r'[^A-Za-z0-9_]+', '_', r['name'])}.json")
            os.makedirs(os.path.dirname(path), exist_ok=True)
            for part in (r["fail"]["concrete"] or {}, r["fail"]):
                for key in ("fails", "symbolic"):
                    if key in part:
                        part[key] = [f for f in part[key] if f in r["new"] or key == "symbolic"][:20]
            with open(path, "w") as f:
                json.dump({"property": a.prop, "obligation": r["name"], "functions": [where(x) for x in obs[r["idx"]].functions],
                           "tier": tier, "seed": a.seed, "how_to_replay": f"cd /verif && python3-vt -m vc.replay {path}",
                           **r["fail"]}, f, indent=1, default=jdefault)
            for f in r["new"][:3]:
                print(f"  obligation {r['name']} clause {f['clause']}: got {f['got'][:300]} want {f['want'][:300]}")
            tail = "" if r["replay"] == "input" else " no-failing-input-found"
            print(f"VIOLATION property={a.prop} replay={path}{tail}")
        return 1
    if len(errors) == len(results):
        return 2            # the checker decided nothing
    return 0


def write_evidence(prop, tier, seed, results, functions, t0, nviol, assumptions, obs):
    from . import harness
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    proved = [r for r in results if r["status"] == "proved"]
    bounded = [r for r in results if r["status"] == "bounded"]
    und = [r for r in results if r["status"] not in ("proved", "bounded")]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": LEVEL.get(prop, "proof"),
        "coverage": {
            "obligations": len(results) - len(bounded),
            "discharged": len(proved),
            "checker_cmd": f"cd /verif && ./check {prop} {tier}",
            "trusted_base": TRUSTED,
            "functions_under_contract": [where(f) for f in functions],
            "clauses": sum(r["clauses"] for r in proved),
            "scalar_equalities_discharged": sum(r["scalars"] for r in proved),
            "paths": sum(r["paths"] for r in results),
            "z3_queries": sum(r["z3"] for r in results),
            "solver_wall_s": round(sum(r["wall"] for r in results), 2),
            "back_ends": {e: sum(1 for r in proved for o in obs if o.name == r["name"] and (("paths+z3" if o.fork else o.engine) == e))
                          for e in ("poly", "tensor", "paths+z3")},
            "concrete_crosscheck_runs": sum(r["samples"] for r in results),
            "bounded_standins": [{"obligation": r["name"], "bound": r["note"], "clauses": r["clauses"]} for r in bounded],
            "undecided": [{"obligation": r["name"], "status": r["status"], "reason": r["note"][:500]} for r in und],
            "per_obligation": [{k: r[k] for k in ("name", "status", "clauses", "scalars", "paths", "samples", "wall")} for r in results],
            "explanation": "obligations generated by executing the current source of /repo on symbolic inputs and "
                           "discharged by normal form / z3; see DESIGN.md",
            "evaluations": sum(r["samples"] for r in results),
        },
        "assumptions": assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": nviol,
    }
    with open(os.path.join(d, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=jdefault)


LEVEL = {"P03": "other"}
TRUSTED = [
    "the symbolic executor vc/sym and vc/tens (cross-checked against CPython on every run)",
    "CPython, numpy indexing/broadcast semantics, z3",
    "machine floating point treated as exact complex arithmetic; decimal constants compared to 1e-9 relative",
]

if __name__ == "__main__":
    sys.exit(main())
