"""Replay a refuted obligation's input on the real code of /repo:  python3-vt -m vc.replay FILE"""
import json, sys


def main(path):
    d = json.load(open(path))
    from . import boot, harness, run
    if d["obligation"] == "import":
        boot.boot()
        print("import works now")
        return 0
    boot.boot()
    run.load_checks()
    ob = [o for o in harness.REGISTRY[d["property"]] if o.name == d["obligation"]][0]
    c = d.get("concrete")
    if not c:
        print("no concrete input: the failed obligation is", d["obligation"])
        for f in d["symbolic"]:
            print("  clause", f["clause"], "\n    got ", f["got"], "\n    want", f["want"])
        return 1
    env = {k: (complex(*v) if isinstance(v, list) else v) for k, v in c["env"].items()} or None
    x = harness.run_concrete(ob, c["seed"], env, c.get("profile"))
    for f in x.fails[:20]:
        print("FAILS", f["clause"], "\n    got ", f["got"], "\n    want", f["want"])
    print(f"{len(x.fails)} failing clauses of {x.clauses} on the real code")
    return 1 if x.fails else 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1]))
