"""P06-P09: EOS export, YAML/JSON conversion and command line, DSixTools files, SMEFTsim cards."""
import copy, io, json, os, re, shutil, sys, tempfile, types
import numpy as np
import pylha, yaml
from ..harness import obligation
from .. import bases
from ..sym import text
from ..sym.num import Num, as_num
from . import spec
from .arrays import _nonred, _wcs, shapes, D4, sym_dict
from .wcxf_core import _codec, _Doc, _doc, _Stream, registry, CODEC
from wilson import wcxf
from wilson.util import smeftutil
from wilson.wcxf import cli
from wilson.wcxf.converters import eos, dsixtools, smeftsim, yamljson

EO, DX, SS, YJ, CL = ("wilson.wcxf.converters.eos:", "wilson.wcxf.converters.dsixtools:", "wilson.wcxf.converters.smeftsim:",
                      "wilson.wcxf.converters.yamljson:", "wilson.wcxf.cli:")


def make_wc(x, eft, basis, scale, d):
    """a real WC object with the (symbolic) coefficient values d"""
    return wcxf.WC(eft, basis, scale, {k: ({"Re": v.real, "Im": v.imag} if isinstance(v, (complex, Num)) else v) for k, v in d.items()})


# ------------------------------------------------------------------ P06
# EOS name -> (coefficient name, part)
EOS_DIRECT = ["b->s::c1", "b->s::c6", "b->s::c8p", "sbsb::c1", "a_b", "Reform", "b->s::Imag"]
EOS_NEUTRAL = [("b->smumu::Re{c9}", "b->smumu::c9", "re"), ("b->smumu::Im{c9}", "b->smumu::c9", "im"),
               ("b->see::Re{c10'}", "b->see::c10'", "re"), ("b->see::Im{c10'}", "b->see::c10'", "im"),
               ("b->s::Re{c7}", "b->s::c7", "re"), ("b->s::Im{c7'}", "b->s::c7'", "im")]
EOS_CC = [("b->ulnu::Re{cVL}", "b->u%s::cVL", "re"), ("b->ulnu::Im{cVL}", "b->u%s::cVL", "im"), ("b->clnu::Re{cSR}", "b->c%s::cSR", "re"),
          ("b->clnu::Im{cT}", "b->c%s::cT", "im")]


def _part(v, p):
    return v.real if p == "re" else v.imag


@obligation("P06", "new-physics part of every kind of EOS name", [EO + "get_eos_np"], fork=True)
def _(x):
    d = {n: x.cplx(n) for n in EOS_DIRECT}
    d.update({n: x.cplx(n) for n in {c for _, c, _ in EOS_NEUTRAL}})
    wc = make_wc(x, "WET", "EOS", 4.2, d)
    with x.lib():
        for n in EOS_DIRECT:
            x.eq(n, eos.get_eos_np(n, wc), d[n].real)
        for n, c, p in EOS_NEUTRAL:
            x.eq(n, eos.get_eos_np(n, wc), _part(d[c], p))
        for n in ("b->s::c2", "b->smumu::Re{c10}", "b->smumu::Im{c10}", "b->ulnu::Re{cVL}", "b->ulnu::Im{cVL}", "nothing"):
            x.eq(f"absent {n}", eos.get_eos_np(n, wc), 0)
        e = make_wc(x, "WET", "EOS", 4.2, {})
        for n in EOS_DIRECT + [a for a, _, _ in EOS_NEUTRAL]:
            x.eq(f"no coefficients {n}", eos.get_eos_np(n, e), 0)
    x.eq("coefficients unchanged", dict(wc.dict), d)


def _charged(x, n, pat, p):
    e, m = pat % "enue", pat % "munumu"
    v = x.cplx("v" + n)
    with x.lib():
        x.eq(f"{n} universal", eos.get_eos_np(n, make_wc(x, "WET", "EOS", 4.2, {e: v, m: v, pat % "taunutau": v})), _part(v, p))
        # not universal
        w = x.cplx("w" + n)
        for lab, d in (("both", {e: v, m: w}), ("e only", {e: v}), ("mu only", {m: w})):
            wc = make_wc(x, "WET", "EOS", 4.2, d)
            a, b = d.get(e, 0), d.get(m, 0)
            try:
                r = eos.get_eos_np(n, wc)
            except ValueError:
                x.true(f"{n} {lab}: an error only without universality", not _same(x, a, b), (a, b))
            else:
                x.true(f"{n} {lab}: different values are rejected", _same(x, a, b), (a, b))
                x.eq(f"{n} {lab}: value", r, _part(as_num(a) if x.mode == "sym" else complex(a), p))


for _n, _pat, _p in EOS_CC:
    obligation("P06", f"charged currents, flavour-universal values only: {_n}", [EO + "get_eos_np"], fork=True, samples=4)(
        lambda x, n=_n, pat=_pat, p=_p: _charged(x, n, pat, p))


def _same(x, a, b):
    if x.mode == "num":
        return a == b
    return not bool(as_num(a) - as_num(b) != 0)


@obligation("P06", "central, lower and upper values of every parameter", [EO + "wcxf2eos", EO + "get_eos_np"], fork=True)
def _(x):
    d = {"b->s::c1": x.cplx("c1"), "b->smumu::c9": x.cplx("c9")}
    sm = {n: {"central": x.real("sm" + n), "min": x.real("mn" + n), "max": x.real("mx" + n)}
          for n in ("b->s::c1", "b->s::c2", "b->smumu::Re{c9}", "b->smumu::Im{c9}", "b->smumu::Re{c10}")}
    keep = copy.deepcopy(sm)
    wc = make_wc(x, "WET", "EOS", 4.2, d)
    np_ = {"b->s::c1": d["b->s::c1"].real, "b->smumu::Re{c9}": d["b->smumu::c9"].real, "b->smumu::Im{c9}": d["b->smumu::c9"].imag}
    with x.lib():
        out = eos.wcxf2eos(wc, sm)
    x.true("one entry per Standard Model parameter, in order", list(out) == list(sm), list(out))
    for n in sm:
        t = sm[n]["central"] + np_.get(n, 0)
        x.eq(n, dict(out[n]), {"central": t, "min": t, "max": t})
    x.eq("Standard Model input unchanged", sm, keep)


@obligation("P06", "which parameter files are read", [EO + "get_sm_wcs"], bounded="one directory with up to 65 files", samples=1)
def _(x):
    x.clauses += 1
    if x.mode != "num":
        return
    d = tempfile.mkdtemp()
    try:
        for name, doc in {"a.yaml": {"@metadata@": {"wcxf-relevant": True, "x": 1}, "p1": {"central": 1.5, "min": 1, "max": 2}},
                          "b.yaml": {"@metadata@": {"wcxf-relevant": False}, "p2": {"central": 3}},
                          "c.yaml": {"p3": {"central": 4}},
                          "d.yaml": {"@metadata@": {"wcxf-relevant": True}, "p4": {"central": 5}, "p5": {"central": -6e-3}},
                          "e.txt": {"@metadata@": {"wcxf-relevant": True}, "p6": {"central": 5}}}.items():
            with open(os.path.join(d, name), "w") as f:
                yaml.safe_dump(doc, f)
        want = {"p1": {"central": 1.5, "min": 1, "max": 2}, "p4": {"central": 5}, "p5": {"central": -6e-3}}
        x.eq("relevant parameters", eos.get_sm_wcs(d), want)
        for i in range(60):
            with open(os.path.join(d, f"Z {i}-x.yaml"), "w") as f:
                yaml.safe_dump({"@metadata@": {"wcxf-relevant": True}, f"q{i}": {"central": 0.0, "min": float(i), "max": i + 1.0}}, f)
            want[f"q{i}"] = {"central": 0.0, "min": float(i), "max": i + 1.0}
        x.eq("many files", eos.get_sm_wcs(d), want)
        big = {f"b->s{i}::c{i}@Q=4.2": {"central": i / 7, "min": -i / 7, "max": 1e-9 * i} for i in range(1500)}
        with open(os.path.join(d, "big.yaml"), "w") as f:
            yaml.safe_dump({"@metadata@": {"wcxf-relevant": True, "title": "x"}, **big}, f)
        want.update(big)
        x.eq("large file", eos.get_sm_wcs(d), want)
    finally:
        shutil.rmtree(d)
    empty = tempfile.mkdtemp()
    try:
        x.eq("empty directory", eos.get_sm_wcs(empty), {})
    finally:
        shutil.rmtree(empty)


# ------------------------------------------------------------------ P07
def _content(x):
    return {"eft": "E", "basis": "b", "scale": x.real("s", pos=True), "values": {"a": x.real("a"), "b": {"Re": x.real("br"), "Im": x.real("bi")}},
            "metadata": {"list": [1, "two", None, True], "t": "a: b"}}


def _read(x, s, fmt):
    if x.mode == "num":
        if fmt == "yaml" and s.lstrip().startswith("{"):
            x._fail("format", s[:200], "YAML block style")
        return json.loads(s) if fmt == "json" else yaml.safe_load(s)
    if getattr(s, "fmt", None) != fmt:
        x._fail("format", getattr(s, "fmt", s), fmt)
    return s.obj


def _put(x, obj, fmt):
    """the text of obj in the given format, as a readable stream"""
    if x.mode == "num":
        return io.StringIO(json.dumps(obj) if fmt == "json" else yaml.safe_dump(obj))
    d = _doc(copy.deepcopy(obj))
    d.fmt = fmt
    return _Stream(d)


def _out(x):
    return io.StringIO() if x.mode == "num" else _Stream()


def _got(x, st):
    return st.getvalue() if x.mode == "num" else st.doc


for _frm, _to, _f in (("yaml", "json", "convert_json"), ("json", "json", "convert_json"), ("json", "yaml", "convert_yaml")):
    def _conv(x, frm=_frm, to=_to, f=_f):
        obj = _content(x)
        for via in ("function", "command"):
            with x.lib(stubs=_codec(x, [])):
                out = _out(x)
                if via == "function":
                    r = getattr(yamljson, f)(_put(x, obj, frm), out)
                    x.true("no error", not r, r)
                else:
                    cli.convert(types.SimpleNamespace(FORMAT=to.upper(), FILE=_put(x, obj, frm), output=out))
                x.eq(f"{via}: same document", _read(x, _got(x, out), to), obj)
    obligation("P07", f"conversion of a {_frm} file to {_to}", [YJ + _f, CL + "convert", "wilson.wcxf.classes:_yaml_to_json", "wilson.wcxf.classes:_json_to_yaml"],
               fork=True, assumptions=CODEC)(_conv)


def _dispatch(x, what):
    v = {"a": x.real("a"), "b": {"Re": x.real("br"), "Im": x.real("bi")}}
    sc = x.real("scale", pos=True)
    calls = []

    def fn(C, scale, parameters, sectors=None):
        calls.append((dict(C), scale, parameters))
        return {"p": C["a"] * 2 + C["b"], "q": C["a"] - C["b"]}
    with registry(), x.lib(stubs=_codec(x, [])):
        wcxf.Translator("E", "b", "c", fn)
        wcxf.Matcher("E", "b", "F", "d", fn)
        for fmt in ("json", "yaml"):
            out = _out(x)
            st = _put(x, {"eft": "E", "basis": "b", "scale": sc, "values": v}, "yaml" if fmt == "json" else "json")
            if what == "translate":
                cli.translate(types.SimpleNamespace(FILE=st, BASIS="c", output=out, format=fmt))
            else:
                cli.match(types.SimpleNamespace(FILE=st, EFT="F", BASIS="d", output=out, format=fmt))
            doc = _read(x, _got(x, out), fmt)
            x.eq(f"{fmt}: labels", [doc["eft"], doc["basis"]], ["E", "c"] if what == "translate" else ["F", "d"])
            x.eq(f"{fmt}: scale", doc["scale"], sc)
            b = v["b"]["Re"] + 1j * v["b"]["Im"]
            want = {"p": v["a"] * 2 + b, "q": v["a"] - b}
            n = lambda e: e["Re"] + 1j * e["Im"] if isinstance(e, dict) else e
            x.eq(f"{fmt}: values", {k: n(e) for k, e in doc["values"].items()}, want, absent=0)
        x.true("the registered function is called once per command", len(calls) == 2)
        x.raises("unknown target", ValueError, cli.translate, types.SimpleNamespace(FILE=_put(x, {"eft": "E", "basis": "c", "scale": sc, "values": v}, "json"),
                                                                                    BASIS="zz", output=_out(x), format="json"))


obligation("P07", "translate command equals the library translation", [CL + "translate"], fork=True, assumptions=CODEC)(lambda x: _dispatch(x, "translate"))
obligation("P07", "match command equals the library matching", [CL + "match"], fork=True, assumptions=CODEC)(lambda x: _dispatch(x, "match"))


def _run_cli(fn, argv, stdin=""):
    o, e, i, a = sys.stdout, sys.stderr, sys.stdin, sys.argv
    sys.stdout, sys.stderr, sys.stdin, sys.argv = io.StringIO(), io.StringIO(), io.StringIO(stdin), ["prog"] + argv
    try:
        try:
            r = fn()
        except SystemExit as ex:
            r = ("exit", ex.code)
        return r, sys.stdout.getvalue()
    finally:
        sys.stdout, sys.stderr, sys.stdin, sys.argv = o, e, i, a


@obligation("P07", "command lines in a scratch directory", [CL + f for f in ("wcxf_cli", "convert", "translate", "match", "validate", "eos")],
            bounded="a fixed list of command lines", samples=1)
def _(x):
    x.clauses += 1
    if x.mode != "num":
        return
    tmp = tempfile.mkdtemp()
    try:
        with registry():
            wcxf.EFT("E", {"s": {}, "t": {}})
            wcxf.Basis("E", "b", {"s": {"a": None, "c": None}})
            wcxf.Translator("E", "b", "c", lambda C, s, p: {"p": 2 * C["a"], "q": 1j * C["c"]})
            wcxf.Matcher("E", "b", "F", "d", lambda C, s, p: {"m": C["a"] + C["c"]})
            wc = wcxf.WC("E", "b", 91.1876, {"a": 1.25, "c": {"Re": 0.5, "Im": -3.5e-8}})
            f = os.path.join(tmp, "w.json")
            with open(f, "w") as h:
                wc.dump(h, fmt="json")
            def from_yaml(t):
                x.true("written as YAML, not JSON", not t.lstrip().startswith("{"), t[:80])
                return yaml.safe_load(t)
            for outfmt, load in (("yaml", from_yaml), ("json", json.loads)):
                for to_file in (False, True):
                    for inp in ("file", "stdin"):
                        o = os.path.join(tmp, f"o{outfmt}{to_file}{inp}")
                        a = ["convert", outfmt] + ([f] if inp == "file" else ["-"]) + (["--output", o] if to_file else [])
                        _, s = _run_cli(cli.wcxf_cli, a, open(f).read())
                        s = open(o).read() if to_file else s
                        x.eq(f"convert {outfmt} {to_file} {inp}", load(s), json.load(open(f)))
                    o = os.path.join(tmp, f"t{outfmt}{to_file}")
                    a = ["translate", "c", f, "--format", outfmt] + (["--output", o] if to_file else [])
                    _, s = _run_cli(cli.wcxf_cli, a)
                    d = load(open(o).read() if to_file else s)
                    x.eq("translate", [d["eft"], d["basis"], d["scale"], d["values"]], ["E", "c", 91.1876, {"p": 2.5, "q": {"Re": 3.5e-8, "Im": .5}}])
                    a = ["match", "F", "d", f, "--format", outfmt] + (["--output", o] if to_file else [])
                    _, s = _run_cli(cli.wcxf_cli, a)
                    d = load(open(o).read() if to_file else s)
                    x.eq("match", [d["eft"], d["basis"], d["scale"], d["values"]], ["F", "d", 91.1876, {"m": {"Re": 1.75, "Im": -3.5e-8}}])
            for a, vals in ((["translate", "c"], {"p": 2.5, "q": {"Re": 3.5e-8, "Im": .5}}), (["match", "F", "d"], {"m": {"Re": 1.75, "Im": -3.5e-8}})):
                for inp in ([f], ["-"], []):
                    _, s = _run_cli(cli.wcxf_cli, a + inp, open(f).read())
                    try:
                        d = json.loads(s)
                    except ValueError:
                        d = s
                    x.true(f"{a} {inp}: JSON unless told otherwise", isinstance(d, dict) and d.get("values") == vals, s[:80])
            for a, lab in ((["translate", "b"], "own basis"), (["match", "E", "b"], "own EFT and basis")):
                d = json.loads(_run_cli(cli.wcxf_cli, a + [f])[1])
                x.eq(f"{a}: {lab}", [d["eft"], d["basis"], d["scale"], d["values"]], ["E", "b", 91.1876, {"a": 1.25, "c": {"Re": 0.5, "Im": -3.5e-8}}])
            for a in (["translate", "zz"], ["match", "F", "zz"], ["match", "G", "d"]):
                x.raises(f"{a}: not registered", ValueError, _run_cli, cli.wcxf_cli, a + [f])
            ok = "Validation successful.\n"
            x.eq("validate standard input", _run_cli(cli.wcxf_cli, ["validate", "wc"], open(f).read())[1], ok)
            x.eq("validate", _run_cli(cli.wcxf_cli, ["validate", "wc", f])[1], ok)
            bad = os.path.join(tmp, "bad.json")
            with open(bad, "w") as h:
                wcxf.WC("E", "b", 1, {"zzz": 1.0}).dump(h, fmt="json")
            x.raises("validate rejects", AssertionError, _run_cli, cli.wcxf_cli, ["validate", "wc", bad])
            eb = os.path.join(tmp, "bb.json")
            with open(eb, "w") as h:
                wcxf.Basis["E", "b"].dump(h, fmt="json")
            x.eq("validate basis", _run_cli(cli.wcxf_cli, ["validate", "basis", eb])[1], ok)
            with open(eb, "w") as h:
                json.dump({"eft": "E", "basis": "b9", "sectors": {"zz": {"a": None}}}, h)
            x.raises("validate rejects a basis", ValueError, _run_cli, cli.wcxf_cli, ["validate", "basis", eb])
            for nm, doc in (("unknown sector", {"sectors": {"zz": {}}}), ("repeated coefficient", {"sectors": {"t": {"a": None}}}), ("repeated within", {"sectors": {"s": {"n": None}, "t": {"n": None}}})):
                with open(eb, "w") as h:
                    json.dump({"eft": "E", "basis": "b8", "parent": "b", **doc}, h)
                x.raises(f"validate rejects a child basis: {nm}", ValueError, _run_cli, cli.wcxf_cli, ["validate", "basis", eb])
            with open(eb, "w") as h:
                json.dump({"eft": "E", "basis": "b8", "parent": "b", "sectors": {"t": {"n": None}}}, h)
            x.eq("validate child basis", _run_cli(cli.wcxf_cli, ["validate", "basis", eb])[1], ok)
            for nm, doc in (("valid", {"eft": "E7", "sectors": {"s": {}}}),):
                with open(eb, "w") as h:
                    json.dump(doc, h)
                x.eq(f"validate EFT: {nm}", _run_cli(cli.wcxf_cli, ["validate", "eft", eb])[1], ok)
            x.raises("validate EFT without sectors", Exception, _run_cli, cli.wcxf_cli, ["validate", "eft", f])
            for lab, w in (("basis", wcxf.WC("E", "nope", 1, {})), ("eft", wcxf.WC("nope", "b", 1, {})), ("eft with values", wcxf.WC("nope", "b", 1, {"a": 0.0}))):
                with open(bad, "w") as h:
                    w.dump(h, fmt="json")
                x.raises(f"validate rejects an unknown {lab}", ValueError, _run_cli, cli.wcxf_cli, ["validate", "wc", bad])
            for nm, w in (("empty", wcxf.WC("E", "b", 1, {})), ("zero", wcxf.WC("E", "b", 1, {"a": 0.0}))):
                with open(bad, "w") as h:
                    w.dump(h, fmt="yaml")
                x.eq(f"validate accepts {nm}", _run_cli(cli.wcxf_cli, ["validate", "wc", bad])[1], ok)
            x.true("unknown kind of file", _run_cli(cli.wcxf_cli, ["validate", "zzz", f])[1] == "")
            # EOS
            os.makedirs(os.path.join(tmp, "pre", "share", "eos", "parameters"))
            os.makedirs(os.path.join(tmp, "home", "parameters"))
            with open(os.path.join(tmp, "pre", "share", "eos", "parameters", "x.yaml"), "w") as h:
                yaml.safe_dump({"@metadata@": {"wcxf-relevant": True}, "Re{a}": {"central": 1.0, "min": 1.0, "max": 1.0},
                                "Im{c}": {"central": 2.0, "min": 1.0, "max": 1.0}}, h)
            want = {"Re{a}": 2.25, "Im{c}": 2 - 3.5e-8}
            o = os.path.join(tmp, "eos.yaml")
            r, _ = _run_cli(cli.eos, [f, "--eosprefix", os.path.join(tmp, "pre"), "--output", o])
            for label, path, args in (("output", o, ["--output", o]),
                                      ("eoshome", os.path.join(tmp, "home", "parameters", "wcxf.yaml"), ["--eoshome", os.path.join(tmp, "home")])):
                with open(path, "w") as h:      # an earlier, longer result is replaced
                    h.write("old: {central: 1.0}\n" * 50)
                r, _ = _run_cli(cli.eos, [f, "--eosprefix", os.path.join(tmp, "pre")] + args)
                x.true(f"eos {label}", r == 0)
                t = yaml.load(open(path), Loader=yaml.UnsafeLoader)
                x.eq(f"eos {label}", {k: [v[q] for q in ("central", "min", "max")] for k, v in t.items()}, {k: [v] * 3 for k, v in want.items()})
            with open(bad, "w") as h:
                wcxf.WC("E", "b", 1, {"zzz": 1.0}).dump(h, fmt="json")
            x.raises("eos refuses an invalid file", AssertionError, _run_cli, cli.eos, [bad, "--eosprefix", os.path.join(tmp, "pre"), "--output", o])
            x.true("eos: two destinations", _run_cli(cli.eos, [f, "--eosprefix", os.path.join(tmp, "pre"), "--output", o, "--eoshome", os.path.join(tmp, "home")])[0] == 1)
            x.true("eos: home does not exist", _run_cli(cli.eos, [f, "--eoshome", os.path.join(tmp, "nope")])[0] == 1)
    finally:
        shutil.rmtree(tmp)


@obligation("P07", "DSixTools and SMEFTsim command lines", [CL + f for f in ("wcxf2dsixtools", "dsixtools2wcxf", "smeftsim")],
            bounded="a fixed list of command lines", samples=1)
def _(x):
    x.clauses += 1
    if x.mode != "num":
        return
    x.rtol = 1e-5
    tmp = tempfile.mkdtemp()
    P = lambda n: os.path.join(tmp, n)
    try:
        wc = wcxf.WC("SMEFT", "Warsaw", 1250.5, {"phiBox": 2e-9, "ll_1221": 4e-10, "uphi_12": {"Re": 1e-9, "Im": -1e-12}, "llphiphi_13": {"Re": 0.0, "Im": 2e-15}})
        with open(P("w.yaml"), "w") as h:
            wc.dump(h, fmt="yaml")
        with open(P("b.dat"), "w") as h:
            h.write("old content\n" * 500)
        sm = {"g": .6, "gp": .3, "gs": 1., "Lambda": .2, "m2": 9e3, "Theta": 0., "Thetap": 0., "Thetas": 0.}
        sm.update({k: np.diag([1e-5, 1e-3, .1]) for k in ("Gu", "Gd", "Ge")})
        with open(P("sm.dat"), "w") as h:
            h.write(pylha.dump(dsixtools.sm_dict2lha(sm), fmt="lha"))
        for to_file in (True, False):
            r, s = _run_cli(cli.wcxf2dsixtools, [P("w.yaml")] + (["--output", P("b.dat")] if to_file else []))
            x.true("return code", r == 0)
            t = open(P("b.dat")).read() if to_file else s
            b = pylha.load(t)["BLOCK"]
            x.eq(f"blocks {to_file}", [b["SCALES"]["values"], b["WC3"]["values"], b["IMWCUPHI"]["values"]],
                 [[[1, 1250.5]], [[1, 2e-9 * 1250.5 ** 2]], [[1, 2, -1e-12 * 1250.5 ** 2]]])
            r, s = _run_cli(cli.dsixtools2wcxf, [P("b.dat"), P("sm.dat")] + (["--output", P("o.yaml")] if to_file else []))
            x.true("return code", r == 0)
            d = yaml.safe_load(open(P("o.yaml")).read() if to_file else s)
            x.eq(f"labels {to_file}", [d["eft"], d["basis"], d["scale"]], ["SMEFT", "Warsaw", 1250.5])
            x.scale = 1e-24
            x.eq(f"values {to_file}", wcxf.WC("SMEFT", "Warsaw", 1, d["values"]).dict, wc.dict, absent=0)
            x.scale = 1e-3
        # the later file decides, whatever the names
        for n, v in (("z1.dat", 5.0), ("a2.dat", 7.0)):
            with open(P(n), "w") as h:
                h.write(pylha.dump({"BLOCK": {"WC2": {"values": [[1, v]]}, "SCALES": {"values": [[1, 10.0], [2, 3.0]]}}}, fmt="lha"))
        for names, v in ((("z1.dat", "a2.dat"), 7.0), (("a2.dat", "z1.dat"), 5.0)):
            r, s = _run_cli(cli.dsixtools2wcxf, [P("sm.dat")] + [P(n) for n in names])
            d = yaml.safe_load(s)
            x.eq(f"later file {names}", [d["scale"], d["values"]["phi"]], [10.0, v / 100])
        with open(P("bad.json"), "w") as h:
            wcxf.WC("SMEFT", "Warsaw", 1, {"zzz_11": 1.0}).dump(h, fmt="json")
        for f in (cli.wcxf2dsixtools, cli.smeftsim):
            x.raises("invalid file refused", AssertionError, _run_cli, f, [P("bad.json"), "--output", P("bad.out")])
        # SMEFTsim: fractional cutoff, earlier result replaced
        with open(P("m.json"), "w") as h:
            wcxf.WC("SMEFT", "Warsaw mass", 1000, {"phiBox": 2e-6}).dump(h, fmt="json")
        with open(P("card.dat"), "w") as h:
            h.write("old content\n" * 500000)
        r, _ = _run_cli(cli.smeftsim, [P("m.json"), "--output", P("card.dat"), "--cutoff-scale", "750.75"])
        c = open(P("card.dat")).read()
        m = re.search(r"(\S+)\s+# cHbox\s*$", c, re.M | re.I)
        x.eq("cutoff scale", [float(m.group(1)), float(re.search(r"(\S+)\s+# LambdaSMEFT", c).group(1))], [2e-6 * 750.75 ** 2, 750.75])
        x.true("earlier card replaced", "old content" not in c)
        # without options: the documented file name and cutoff scale; a file in another basis only after confirmation
        cwd = os.getcwd()
        os.chdir(tmp)
        try:
            r, _ = _run_cli(cli.smeftsim, [P("m.json")])
            c = open("wcxf2smeftsim_param_card.dat").read()
            os.remove("wcxf2smeftsim_param_card.dat")
            m = re.search(r"(\S+)\s+# cHbox\s*$", c, re.M | re.I)
            x.eq("default card", [r, float(m.group(1)), float(re.search(r"(\S+)\s+# LambdaSMEFT", c).group(1))], [0, 2., 1000.])
            for key, goes_on in (("i\n", True), ("I\n", True), ("\n", False), ("n\n", False), ("ii\n", False), (" \n", False)):
                r, _ = _run_cli(cli.smeftsim, [P("w.yaml"), "--output", "x.dat"], key)
                x.true(f"other basis, answer {key!r}", os.path.exists("x.dat") == goes_on and (r == 0) == goes_on, r)
                if os.path.exists("x.dat"):
                    os.remove("x.dat")
        finally:
            os.chdir(cwd)
    finally:
        shutil.rmtree(tmp)


# ------------------------------------------------------------------ P08
DIM5 = ["llphiphi"]


def _dx_class_arrays(x):
    d = _wcs(x, "SMEFT")
    out = {}
    for k in shapes("SMEFT"):
        if k not in D4["SMEFT"]:
            out[k] = spec.smeft_array(k, d)
    return out


@obligation("P08", "tensors to index lists and back", [DX + "lha2matrix", DX + "matrix2lha"])
def _(x):
    for sh in ((3,), (3, 3), (2, 3), (3, 3, 3, 3)):
        M = x.rarr("m%d" % len(sh) + str(sh[0]), sh)
        with x.lib():
            l = dsixtools.matrix2lha(M)
            B = dsixtools.lha2matrix(l, sh)
        x.eq(f"{sh}", B, M)
        x.true(f"{sh}: every element once, indices from one", sorted(tuple(e[:-1]) for e in l) == sorted(tuple(i + 1 for i in t) for t in np.ndindex(*sh)))
        for e in l:
            x.eq(f"{sh} {e[:-1]}", e[-1], M[tuple(i - 1 for i in e[:-1])])
        with x.lib():
            P = dsixtools.lha2matrix(l[1::3], sh)
        want = x.zeros(sh)
        for e in l[1::3]:
            want[tuple(i - 1 for i in e[:-1])] = e[-1]
        x.eq(f"{sh}: missing elements are zero", P, want)


@obligation("P08", "Standard Model parameters to blocks and back", [DX + "sm_dict2lha", DX + "sm_lha2dict"])
def _(x):
    d = {k: x.real(k) for k in ("g", "gp", "gs", "Lambda", "m2", "Theta", "Thetap", "Thetas")}
    d.update({k: x.carr(k, (3, 3)) for k in ("Gu", "Gd", "Ge")})
    with x.lib():
        l = dsixtools.sm_dict2lha(d)
        b = dsixtools.sm_lha2dict(l)
    x.eq("round trip", dict(b), d)
    with x.lib():
        m = {"BLOCK": {k: v for k, v in l["BLOCK"].items() if not k.startswith("IM") and k != "THETA"}}
        b = dsixtools.sm_lha2dict(m)
    for keep_ in ((1,), (2,), (3,), (1, 3), (2, 3)):
        with x.lib():
            m = {"BLOCK": {**l["BLOCK"], "THETA": {"values": [e for e in l["BLOCK"]["THETA"]["values"] if e[0] in keep_]}}}
            t = dsixtools.sm_lha2dict(m)
        x.eq(f"theta angles {keep_}, the others default to zero", [t[k] for k in ("Theta", "Thetap", "Thetas")],
             [d[k] if i + 1 in keep_ else 0 for i, k in enumerate(("Theta", "Thetap", "Thetas"))])
    x.eq("real input without theta angles", dict(b), {k: (v.real if k[0] == "G" else 0 if "Theta" in k else v) for k, v in d.items()})


for _sr in (True, False):
    for _sz in (True, False):
        def _wc(x, sr=_sr, sz=_sz):
            C = _dx_class_arrays(x)
            keep = {k: v.copy() if hasattr(v, "copy") else v for k, v in C.items()}
            with x.lib():
                l = dsixtools.wc_dict2lha(C, skip_redundant=sr, skip_zero=sz)
                b = smeftutil.symmetrize(dsixtools.wc_lha2dict(l))
            x.true("all coefficients", set(b) == set(C))
            x.eq("round trip", dict(b), C)
            x.eq("input unchanged", C, keep)
            if not sr and not sz:
                for k in shapes("SMEFT"):
                    if k in C and shapes("SMEFT")[k] != ():
                        v = l["BLOCK"]["WC" + k.upper()]["values"]
                        x.true(f"every element of {k} once", sorted(tuple(e[:-1]) for e in v) == sorted(tuple(i + 1 for i in t) for t in np.ndindex(*shapes("SMEFT")[k])))
            x.true("no empty block", all(v.get("values") for v in l["BLOCK"].values()))
        obligation("P08", f"coefficient arrays to blocks and back (skip redundant {_sr}, zero {_sz})",
                   [DX + "wc_dict2lha", DX + "wc_lha2dict", DX + "lha2matrix", "wilson.util.common:EFTutil.symmetrize"], cost=2)(_wc)


@obligation("P08", "sparse coefficient arrays", [DX + "wc_dict2lha", DX + "wc_lha2dict"])
def _(x):
    full = _dx_class_arrays(x)
    names = list(full)
    for part in range(3):
        C = {k: (full[k] if i % 3 == part else (0 if shapes("SMEFT")[k] == () else x.zeros(shapes("SMEFT")[k]))) for i, k in enumerate(names)}
        with x.lib():
            l = dsixtools.wc_dict2lha(C)
            b = smeftutil.symmetrize(dsixtools.wc_lha2dict(l))
        x.eq(f"part {part}", dict(b), C)
    with x.lib():
        b = dsixtools.wc_lha2dict({"BLOCK": {}})
    for k in names:
        x.eq(f"absent {k}", b[k], 0 if shapes("SMEFT")[k] == () else x.zeros(shapes("SMEFT")[k]))


def _wcx(x, pick=None):
    return _wcs(x, "SMEFT", pick)


for _mode in ("given scale", "own scale", "earlier scale"):
    def _init(x, mode=_mode):
        d = _wcx(x)
        sc, hi = x.real("scale", pos=True), x.real("high", pos=True)
        with x.lib():
            wc = make_wc(x, "SMEFT", "Warsaw", sc, d)
            io_ = dsixtools.SMEFTio()
            sm = {"g": x.real("g")}
            if mode == "earlier scale":
                io_.set_initial(dict(sm), 1.0, hi)
            L = sc if mode == "own scale" else hi
            io_.set_initial_wcxf(wc, **({"scale_high": hi} if mode == "given scale" else {}))
            x.eq("scales", [io_.scale_in, io_.scale_high], [sc, L])
            C = io_.C_in
            want = set(k for k in shapes("SMEFT") if k not in D4["SMEFT"])
            x.true("all coefficient arrays", set(C) == want | ({"g"} if mode == "earlier scale" else set()), set(C) ^ want)
            if mode == "earlier scale":
                x.eq("parameters kept", C["g"], sm["g"])
            for k, v in d.items():
                n = k.split("_")[0]
                f = L if n in DIM5 else L ** 2
                idx = tuple(int(i) - 1 for i in k.split("_")[1]) if "_" in k else ()
                x.eq(f"dimensionless {k}", C[n][idx] if idx else C[n], v * f)
            out = io_.get_wcxf(C, sc)
            x.eq("labels", [out.eft, out.basis], ["SMEFT", "Warsaw"])
            x.eq("scale", out.scale, sc)
            x.eq("round trip", dict(out.dict), d, absent=0)
    obligation("P08", f"coefficients to dimensionless arrays and back: {_mode}", [DX + "SMEFTio.set_initial_wcxf", DX + "SMEFTio.get_wcxf"], cost=2)(_init)


@obligation("P08", "sparse coefficients, other bases", [DX + "SMEFTio.set_initial_wcxf", DX + "SMEFTio.get_wcxf"])
def _(x):
    names = list(_nonred("SMEFT"))
    pick = set(names[::11]) | {"llphiphi_12"}
    d = _wcx(x, lambda k: k in pick)
    hi = x.real("high", pos=True)
    with x.lib():
        io_ = dsixtools.SMEFTio()
        io_.set_initial_wcxf(make_wc(x, "SMEFT", "Warsaw", 1000., d), scale_high=hi)
        for k, s in shapes("SMEFT").items():
            if k not in D4["SMEFT"] and not any(n.split("_")[0] == k for n in d):
                x.eq(f"absent {k}", io_.C_in[k], 0 if s == () else x.zeros(s))
        x.eq("round trip", dict(io_.get_wcxf(io_.C_in, 1000.).dict), d, absent=0)
        # the same arrays read by an object with another high scale
        for e, b in (("WET", "JMS"), ("SMEFT", "Warsaw up"), ("SMEFT", "Warsaw mass"), ("WET", "Warsaw")):
            x.raises(f"{e} {b} rejected", ValueError, dsixtools.SMEFTio().set_initial_wcxf, make_wc(x, e, b, 1000., {}))


def _pylha(x):
    if x.mode == "num":
        return {}

    def dump(d, fmt="lha", stream=None):
        doc = _doc(d)
        if stream is None:
            return doc
        stream.write(doc)
        return None

    def load(s):
        if hasattr(s, "read"):
            s = s.read()
        return copy.deepcopy(s.obj)
    return {pylha.dump: dump, pylha.load: load}


def _smdoc(x, sm):
    l = dsixtools.sm_dict2lha(sm)
    if x.mode == "num":
        return io.StringIO(pylha.dump(l, fmt="lha"))
    return _Stream(_doc(l))


PYLHA = ["pylha.load(pylha.dump(d)) = d up to number formatting"]


@obligation("P08", "files: WCxf to DSixTools and back", [DX + f for f in ("wcxf2dsixtools", "dsixtools2wcxf", "SMEFTio.dump", "SMEFTio.load_initial", "SMEFTio.dump_wcxf", "load", "lha2scale")],
            cost=2, assumptions=PYLHA + CODEC)
def _(x):
    x.rtol = 1e-6
    d = _wcx(x)
    sc = x.real("scale", pos=True)
    sm = {k: x.real(k) for k in ("g", "gp", "gs", "Lambda", "m2", "Theta", "Thetap", "Thetas")}
    sm.update({k: x.carr(k, (3, 3)) for k in ("Gu", "Gd", "Ge")})
    with x.lib(stubs={**_pylha(x), **_codec(x, [])}):
        out = _out(x)
        r = dsixtools.wcxf2dsixtools(make_wc(x, "SMEFT", "Warsaw", sc, d), stream=out)
        lha = io.StringIO(_got(x, out)) if x.mode == "num" else _Stream(_got(x, out))
        res = _out(x)
        dsixtools.dsixtools2wcxf((lha, _smdoc(x, sm)), stream=res)
        doc = _read(x, _got(x, res), "yaml")
        x.eq("labels", [doc["eft"], doc["basis"]], ["SMEFT", "Warsaw"])
        x.eq("scale", doc["scale"], sc)
        n = lambda e: e.get("Re", 0) + 1j * e.get("Im", 0) if isinstance(e, dict) else e
        x.eq("coefficients", {k: n(e) for k, e in doc["values"].items()}, d, absent=0)
        # the loaded parameters
        lha = io.StringIO(_got(x, out)) if x.mode == "num" else _Stream(_got(x, out))
        io_ = dsixtools.SMEFTio()
        io_.load_initial((lha, _smdoc(x, sm)))
        for k, v in sm.items():
            if not k.startswith("Theta"):     # the theta angles are no parameters of the library
                x.eq(k, io_.C_in[k], v)
        x.eq("scales", [io_.scale_in, io_.scale_high], [sc, sc])
        hi = x.real("hi", pos=True)
        for so in (None, hi):
            o = _out(x)
            io_.dump(io_.C_in, scale_out=so, stream=o)
            s = pylha.load(_got(x, o)) if x.mode == "num" else _got(x, o).obj
            x.eq("SCALES block", [list(e) for e in s["BLOCK"]["SCALES"]["values"]], [[1, sc]] + ([] if so is None else [[2, so]]))


@obligation("P08", "parameter files as text", [DX + "load"], bounded="one document in three formats, as text and as stream", samples=1)
def _(x):
    x.clauses += 1
    if x.mode != "num":
        return
    doc = {"BLOCK": {"SCALES": {"values": [[1, 1e4], [2, 91.1876]]}, "WC1": {"values": [[1, -3.123456789012345e-17], [2, 0.0]]}}}
    for fmt in ("json", "yaml", "lha"):
        t = json.dumps(doc) if fmt == "json" else yaml.safe_dump(doc) if fmt == "yaml" else pylha.dump(doc, fmt="lha")
        for lab, st in (("text", t), ("stream", io.StringIO(t))):
            r = dsixtools.load(st, **({} if fmt == "lha" else {"fmt": fmt}))
            if fmt == "lha":
                x.eq("lha", r["BLOCK"]["SCALES"]["values"], doc["BLOCK"]["SCALES"]["values"])
            else:
                x.true(f"{fmt} {lab}: same document", r == doc, r)
    x.true("the high scale is the first entry", dsixtools.lha2scale(doc) == 1e4)


# ------------------------------------------------------------------ P09
SIM0 = {"cg": "G", "cgtil": "Gtilde", "cw": "W", "cwtil": "Wtilde", "ch": "phi", "chbox": "phiBox", "chdd": "phiD", "chg": "phiG", "chgtil": "phiGtilde",
        "chw": "phiW", "chwtil": "phiWtilde", "chb": "phiB", "chbtil": "phiBtilde", "chwb": "phiWB", "chwbtil": "phiWtildeB"}
SIM2 = {"hl1": "phil1", "hl3": "phil3", "he": "phie", "hq1": "phiq1", "hq3": "phiq3", "hu": "phiu", "hd": "phid", "hud": "phiud",
        "eh": "ephi", "uh": "uphi", "dh": "dphi", "ew": "eW", "eb": "eB", "ug": "uG", "uw": "uW", "ub": "uB", "dg": "dG", "dw": "dW", "db": "dB"}
SIM4 = {k.lower(): k for k in "ll qq1 qq3 lq1 lq3 ee uu dd eu ed ud1 ud8 le lu ld qe qu1 qu8 qd1 qd8 ledq quqd1 quqd8 lequ1 lequ3".split()}
SIM = {**SIM2, **SIM4}


def sim_param(name):
    """SMEFTsim parameter name -> (Warsaw mass coefficient, part)"""
    n = name.lower().replace("x", "") if not name.lower().startswith("chbox") else name.lower()
    if n in SIM0:
        return SIM0[n], "value"
    m = re.fullmatch(r"c([a-z]+?[138]?)(ph|abs)(\d\d|\d\d\d\d)", n)
    return f"{SIM[m.group(1)]}_{m.group(3)}", m.group(2)


def _rep(name, known):
    """the library's name of the coefficient that SMEFTsim labels with another member of its (non-conjugate) symmetry orbit"""
    if name in known or "_" not in name:
        return name
    op, i = name.split("_")
    for t, c, f in bases.orbit(bases.smeft_class_of(op), tuple(int(k) - 1 for k in i)):
        if not c and f == 1 and bases.label(op, t) in known:
            return bases.label(op, t)
    return name


def _card_positions(x, card):
    """MadGraph finds a parameter by block and index: a block of one four-fermion or two-fermion operator counts by the flavours in the
    parameter's name; the others number the parameters, operator after operator, in the same order of flavours for operators of one kind"""
    kinds = {}
    for b, blk in card["Block"].items():
        rows = sorted(((tuple(e[:-2]), e[-1].lstrip("# ").strip()) for e in blk["values"]), key=lambda r: r[0])
        if not rows:
            continue
        if len(rows[0][0]) > 1:
            for i, n in rows:
                m = re.search(r"(\d(?:x\d)+)$", n)
                x.true(f"{b} {n}: index", m is not None and tuple(int(c) for c in m.group(1).split("x")) == i, i)
            x.true(f"{b}: one operator", len({re.sub(r"\d(x\d)+$", "", n) for _, n in rows}) == 1)
            continue
        first = rows[0][0][0]
        x.true(f"{b}: consecutive numbers", [i for i, _ in rows] == [(first + k,) for k in range(len(rows))] and first in (0, 1))
        groups = []
        for i, n in rows:
            m = re.match(r"(.*?(?:Abs|Ph))([\dx]+)$", n)
            g, fl = (m.group(1), m.group(2)) if m else (n, "")
            if not groups or groups[-1][0] != g:
                groups.append((g, []))
            groups[-1][1].append(fl)
        x.true(f"{b}: parameters of one operator follow each other", len({g for g, _ in groups}) == len(groups), [g for g, _ in groups][:80])
        for g, fl in groups:
            kinds.setdefault((len(fl), "Ph" in g), []).append((b, g, fl))
    for (n, ph), gs in kinds.items():
        seqs = [tuple(fl) for _, _, fl in gs]
        usual = max(seqs, key=seqs.count)
        for b, g, fl in gs:
            x.true(f"{b} {g}: order of flavours", tuple(fl) == usual, [p for p in zip(fl, usual) if p[0] != p[1]][:4])


for _ms in "AB":
    for _sch in ("alpha", "mw"):
        def _card(x, ms=_ms, sch=_sch):
            x.rtol = 1e-5
            nr = {k: v for k, v in _nonred("SMEFT").items() if k.split("_")[0] not in ("duql", "duue", "qque", "qqql", "llphiphi")}
            d = {k: (x.real(k) if r else x.cplx(k)) for k, r in nr.items()}
            lam = x.real("Lambda", pos=True)
            got = {}
            text.reset()
            with x.lib():
                wc = make_wc(x, "SMEFT", "Warsaw mass", 100., d)
                card = smeftsim.smeftsim_card_fill(smeftsim.initialize_smeftsim_card(ms), wc, ms, lam, sch)
            extra, dup = {}, []
            pos = set()
            for b, blk in card["Block"].items():
                for e in blk["values"]:
                    n = e[-1].lstrip("# ").strip()
                    x.true(f"{b} {e[:-2]}: index used once", (b, tuple(e[:-2])) not in pos)
                    pos.add((b, tuple(e[:-2])))
                    v = e[-2]
                    if isinstance(v, str) and text.MARK in v:
                        v = text.extract(v)
                    elif isinstance(v, str):
                        v = complex(v.replace(" ", ""))
                    if n in ("LambdaSMEFT", "Lambda", "MW0"):
                        extra[n] = v
                        continue
                    p = sim_param(n)
                    p = (_rep(p[0], nr), p[1])
                    if p in got:
                        dup.append(n)
                    got[p] = v
            x.true("no parameter is set twice", not dup, dup)
            _card_positions(x, card)
            lname = "LambdaSMEFT" if ms == "A" else "Lambda"
            x.eq("cutoff scale and W mass", extra, {lname: lam, **({"MW0": 80.387} if (ms, sch) == ("A", "mw") else {})})
            fac = _sim_factor()
            for k, v in d.items():
                c = v / fac(k)
                if "_" not in k:
                    x.eq(k, got.get((k, "value"), "absent"), c * lam ** 2)
                    continue
                x.true(f"{k} is in the card", (k, "abs") in got)
                if (k, "abs") in got:
                    x.eq(f"size of {k}", got[k, "abs"], (c if nr[k] else x.np.abs(c)) * lam ** 2)
                if nr[k]:
                    x.true(f"{k}: no phase for a real coefficient", (k, "ph") not in got)
                else:
                    x.true(f"{k} phase is in the card", (k, "ph") in got)
                    if (k, "ph") in got:
                        x.eq(f"arg {k}", got[k, "ph"], x.np.angle(c))
            x.true("only coefficients of the basis", {k for k, _ in got} <= set(d), {k for k, _ in got} - set(d))
        obligation("P09", f"parameter card, model set {_ms}, {_sch} inputs", [SS + "smeftsim_card_fill", SS + "initialize_smeftsim_card"], cost=3)(_card)


def _sim_factor():
    def f(k):
        if "_" not in k:
            return 1
        n, i = k.split("_")
        idx = tuple(int(c) - 1 for c in i)
        for cls, names in bases.SMEFT_CLASS.items():
            if n in names:
                return spec.multiplicity(cls, idx) if cls in (4, 6, 7) else 1
    return f


@obligation("P09", "card files in a scratch directory", [CL + "smeftsim", SS + "smeftsim_card_text"], bounded="one file per model set and input scheme", samples=1)
def _(x):
    x.clauses += 1
    if x.mode != "num":
        return
    x.rtol = 1e-5
    tmp = tempfile.mkdtemp()
    try:
        f = os.path.join(tmp, "w.json")
        with open(f, "w") as h:
            wcxf.WC("SMEFT", "Warsaw mass", 1000, {"phiBox": 2e-6, "ll_1221": 4e-6, "uphi_12": {"Re": 1e-6, "Im": -1e-6}}).dump(h, fmt="json")
        for ms in "AB":
            for sch in ("alpha", "mw"):
                for lam in (None, 500.):
                    o = os.path.join(tmp, "o.dat")
                    r, _ = _run_cli(cli.smeftsim, [f, "--output", o, "--input-scheme", sch, "--model-set", ms] + ([] if lam is None else ["--cutoff-scale", str(lam)]))
                    x.true("return code", r == 0)
                    L = lam or 1000.
                    s = open(o).read()
                    pre, post = smeftsim.smeftsim_card_text(ms, sch)
                    x.true("fixed parts", s.startswith(pre) and s.endswith(post))
                    inp = dict(re.findall(r"^\s*(\d+)\s+(\S+)\s+#", re.search(r"Block SMINPUTS\n(.*?)\n\s*\n", pre, re.S).group(1), re.M))
                    x.true(f"{ms} {sch}: input scheme", set(inp) == ({"1", "2", "3"} if sch == "alpha" else {"2", "3"}), inp)
                    mass = re.findall(r"^\s*(\d+)\s+(\S+)\s+#", re.search(r"Block MASS\n(.*?)\n\s*\n", pre, re.S).group(1), re.M)
                    x.true(f"{ms} {sch}: one mass per particle", len(mass) == len(dict(mass)) >= 24, sorted(mass))
                    mass = {k: float(v) for k, v in mass}
                    x.true("W and its ghosts and Goldstone boson", len({mass[k] for k in ("24", "9000003", "9000004", "251")}) == 1)
                    x.true("Z and its ghost and Goldstone boson", max(abs(mass[k] - 91.1876) for k in ("23", "9000002", "250")) < 1e-3)
                    if sch == "mw":
                        x.eq("W mass", mass["24"], 80.387)
                    v = {m.group(2).lower(): float(m.group(1)) for m in re.finditer(r"(\S+)\s+# (\S+)\s*$", s, re.M) if re.match(r"^-?[\d.]+e", m.group(1))}
                    x.eq(f"{ms} {sch} {L}", [v["chbox"], v["cllabs1221"], v["cuhabs1x2"], v["cuhph1x2"], v["cllabs1111"]],
                         [2e-6 * L ** 2, 2e-6 * L ** 2, abs(1e-6 - 1e-6j) * L ** 2, -np.pi / 4, 0])
    finally:
        shutil.rmtree(tmp)
