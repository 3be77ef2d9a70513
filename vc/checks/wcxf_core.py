"""P01-P05: WCxf coefficient files, bases, translator/matcher dispatch, registries."""
import copy, io, json, math, re
from collections import OrderedDict
import numpy as np
import yaml
from ..harness import obligation, Missing
from ..sym.num import Num, as_num
from ..sym import text
from wilson import wcxf
import wilson.wcxf.classes as wclasses

W = "wilson.wcxf.classes:"
CODEC = ["json.load(s)/dump(s) and yaml.dump/safe_load are inverse to each other on nested dicts, lists, strings and finite floats"]


def num(v):
    return v if not isinstance(v, Num) else v


# ------------------------------------------------------------------ P01
def _vals(x):
    return {"r": x.real("r"), "c": {"Re": x.real("cr"), "Im": x.real("ci")}, "only_re": {"Re": x.real("ore")},
            "only_im": {"Im": x.real("oim")}, "zero": 0, "int": 3, "neg": -2.5, "text": "1e-3", "a_1123": x.real("s")}


def _want(x):
    I = 1j
    return {"r": x.real("r"), "c": x.real("cr") + I * x.real("ci"), "only_re": x.real("ore"), "only_im": I * x.real("oim"),
            "zero": 0, "int": 3, "neg": -2.5, "text": 1e-3, "a_1123": x.real("s")}


@obligation("P01", "values as supplied, zero for absent names", [W + "WC.__init__", W + "WC._to_number", W + "WC.dict", W + "WC.__getitem__"], fork=True)
def _(x):
    v = _vals(x)
    keep = copy.deepcopy(v)
    sc = x.real("scale", pos=True)
    wc = wcxf.WC("E", "b", sc, v)
    want = _want(x)
    x.eq("dict", dict(wc.dict), want)
    x.eq("dict again", dict(wc.dict), want)
    for k in want:
        x.eq(f"item {k}", wc[k], want[k])
    for k in ("", "absent", "R", "a_1", 7):
        x.eq(f"absent {k}", wc[k], 0)
    x.true("lookup adds nothing", set(wc.dict) == set(want))
    x.eq("scale", wc.scale, sc)
    for q in (91.18760000000001, 0.1 + 0.2, 1 / 3, 2 ** 60 + 1, 1e-300, 80):
        x.true(f"every bit of the scale {q}", wcxf.WC("E", "b", q, {}).scale == float(q), wcxf.WC("E", "b", q, {}).scale)
    x.eq("names", [wc.eft, wc.basis], ["E", "b"])
    x.eq("argument unchanged", v, keep)
    x.eq("no values", dict(wcxf.WC("E", "b", sc, {}).dict), {})
    other = wcxf.WC("E", "b", sc, {"r": 1.5})
    x.eq("instances do not share state", [other["r"], wc["r"]], [1.5, x.real("r")])


@obligation("P01", "numbers to stored values and back", [W + "WC.dict2values", W + "WC._to_complex_dict", W + "WC._to_number"], fork=True)
def _(x):
    d = {"a": x.cplx("a"), "b": x.real("b"), "c": x.cplx("c"), "z": as_num(0) if x.mode == "sym" else 0.0, "i": 1j * x.real("d")}
    keep = dict(d)
    v = wcxf.WC.dict2values(d)
    x.eq("argument unchanged", d, keep)
    for k, e in v.items():
        if isinstance(e, dict):
            x.true(f"{k}: pair of floats", set(e) == {"Re", "Im"}, e)
            x.eq(f"{k} Re", e["Re"], d[k].real)
            x.eq(f"{k} Im", e["Im"], d[k].imag)
        else:
            x.eq(f"{k}: plain number only without imaginary part", as_num(d[k]).imag if x.mode == "sym" else d[k].imag, 0) if not _fork_zero(x, d[k]) else None
            x.eq(f"{k} plain", e, d[k].real)
    x.true("same names in the same order", list(v) == list(d))
    wc = wcxf.WC("E", "b", 1, v)
    for k in d:
        if _fork_zero(x, d[k]):
            x.eq(f"round trip {k}", wc[k], d[k].real)
        else:
            x.eq(f"round trip {k}", wc[k], d[k])


def _fork_zero(x, v):
    im = v.imag
    return bool(im == 0)


@obligation("P01", "every kind of value and magnitude", [W + "WC._to_complex_dict", W + "WC._to_number", W + "WC.dict2values", W + "WC.dict"],
            bounded="enumerated value kinds and magnitudes", samples=1)
def _(x):
    x.clauses += 1
    if x.mode != "num":
        return
    import numpy as np
    from collections import defaultdict

    class D(dict):
        pass
    for kind in (dict, OrderedDict, D, lambda *a: defaultdict(float, *a)):
        wc = wcxf.WC("E", "b", 1, kind([("a", kind([("Re", 1.5), ("Im", -2)])), ("b", kind([("Im", 3)])), ("c", kind([("Re", 4)])), ("d", 5)]))
        x.true("pairs of any mapping type", dict(wc.dict) == {"a": 1.5 - 2j, "b": 3j, "c": 4, "d": 5}, dict(wc.dict))
    mags = [1e-300, 1e-40, 1e-25, 1e-16, 1e-8, 1.0, 1e8, 1e25, 1e150]
    d = {}
    for i, a in enumerate(mags):
        for j, b in enumerate([0] + mags):
            d[f"c{i}_{j}"] = complex(a, -b)
            d[f"d{i}_{j}"] = complex(-b, a)
            d[f"r{i}_{j}"] = -a
    for conv in (complex, np.complex128):
        v = wcxf.WC.dict2values({k: conv(c) for k, c in d.items()})
        x.true("real and imaginary parts of any size are kept", list(v) == list(d) and all(
            (complex(v[k]["Re"], v[k]["Im"]) if isinstance(v[k], dict) else complex(v[k])) == d[k] for k in d))
        json.dumps(v)
        wc = wcxf.WC("E", "b", 1, v)
        x.true("and read back", all(wc[k] == d[k] and wc.dict[k] == d[k] for k in d))
        x.true("and in the table", list(wc.df.index) == list(d) and all(wc.df["Re"].tolist()[i] == c.real and wc.df["Im"].tolist()[i] == c.imag for i, c in enumerate(d.values())))
    x.true("one number type per kind of value", {type(q) for q in wcxf.WC.dict2values({"a": np.float64(2), "b": 3, "c": np.float32(.5)}).values()} == {float})


@obligation("P01", "coefficients of a Wilson instance", ["wilson.classes:Wilson.__init__", "wilson.classes:Wilson.from_wc", "wilson.classes:Wilson.load_wc",
                                                      W + "WC.dict2values"], fork=True)
def _(x):
    from wilson import Wilson
    ks = [k for k in wcxf.Basis["WET", "flavio"].all_wcs][:4]
    d = {ks[0]: x.cplx("a"), ks[1]: x.real("b"), ks[2]: 1j * x.real("c"), ks[3]: 1e-40 - 1e-50j if x.mode == "num" else x.cplx("d")}
    w = Wilson(d, 80., "WET", "flavio")
    x.eq("constructor", w.wc.dict, d)
    w2 = Wilson.from_wc(w.wc)
    x.eq("from_wc", w2.wc.dict, d)
    x.true("scale, EFT and basis", (w2.wc.scale, w2.wc.eft, w2.wc.basis) == (80., "WET", "flavio"))
    if x.mode == "num":
        for fmt in ("json", "yaml"):
            w3 = Wilson.load_wc(io.StringIO(w.wc.dump(fmt=fmt)))
            x.true(f"load_wc {fmt}", dict(w3.wc.dict) == {k: complex(v) for k, v in d.items()} and (w3.wc.scale, w3.wc.eft, w3.wc.basis) == (80., "WET", "flavio"))


class _Frame:
    """stands for pandas.DataFrame(mapping of columns to lists, index=, columns=)"""
    def __init__(self, data=None, index=None, columns=None, **kw):
        if kw or not isinstance(data, dict) or index is None or not all(isinstance(v, (list, tuple)) for v in data.values()):
            raise Missing("DataFrame built in another way")
        self.index = list(index)
        self.columns = list(columns) if columns is not None else list(data)
        self._d = {c: list(data[c]) for c in self.columns}
        if any(len(v) != len(self.index) for v in self._d.values()):
            raise ValueError("columns of another length than the index")

    def cell(self, k, c):
        return self._d[c][self.index.index(k)]


def _df(x, wc):
    if x.mode == "num":
        return [(list(d.index), list(d.columns), lambda k, c, d=d: float(d.loc[k, c])) for d in (wc.df, wc.df)]
    old = wclasses.DataFrame
    wclasses.DataFrame = _Frame
    try:
        return [(d.index, d.columns, d.cell) for d in (wc.df, wc.df)]
    finally:
        wclasses.DataFrame = old


@obligation("P01", "table of real and imaginary parts", [W + "WC.df", W + "WC.dict"], fork=True,
            assumptions=["pandas.DataFrame(mapping, index, columns) holds the given lists as columns"])
def _(x):
    wc = wcxf.WC("E", "b", 3, _vals(x))
    want = _want(x)
    for index, columns, cell in _df(x, wc):
        x.eq("index", list(index), list(want))
        x.eq("columns", list(columns), ["Re", "Im"])
        for k in want:
            v = want[k]
            x.eq(f"Re {k}", cell(k, "Re"), v.real)
            x.eq(f"Im {k}", cell(k, "Im"), v.imag)
    if x.mode == "num":
        s = str(wc)
        for k in want:
            x.true(f"listed: {k}", f"`{k}`" in s)
        x.true("scale, EFT and basis shown", "3.0 GeV" in s and "`E`" in s and "`b`" in s)


@obligation("P01", "an arbitrary name of a file of any size", [W + "WC.__init__", W + "WC._to_number", W + "WC.dict", W + "WC.__getitem__", W + "WC.dict2values",
                                                             W + "WC._to_complex_dict", W + "WC.df"], fork=True, numeric=False)
def _(x):
    """whatever else the file contains: the dictionary, item and table access give the number stored under the name, zero when it is absent"""
    s, o = _Name("s"), _Name("o")
    a, b = x.real("a"), x.real("b")
    for what, v, want in (("absent", None, None), ("number", a, a), ("pair", {"Re": a, "Im": b}, a + 1j * b), ("real part", {"Re": a}, a), ("imaginary part", {"Im": b}, 1j * b),
                          ("empty pair", {}, 0), ("integer", 3, 3)):
        wc = wcxf.WC("E", "b", 3, _Seen([] if v is None else [(s, v)]))
        x.eq(f"{what}: dictionary", dict(wc.dict.items()), {} if v is None else {s: want})
        x.eq(f"{what}: item", wc[s], 0 if v is None else want)
        x.eq(f"{what}: other name", wc[o], 0)
        x.eq(f"{what}: dictionary afterwards", dict(wc.dict.items()), {} if v is None else {s: want})
        for index, columns, cell in _df(x, wc):
            x.true(f"{what}: table rows", list(index) == ([] if v is None else [s]) and list(columns) == ["Re", "Im"])
            if v is not None:
                x.eq(f"{what}: table", [cell(s, "Re"), cell(s, "Im")], [as_num(want).real, as_num(want).imag])
    for what, c in (("none", None), ("complex", a + 1j * b), ("real", a), ("imaginary", 1j * b)):
        v = wcxf.WC.dict2values(_Seen([] if c is None else [(s, c)]))
        x.true(f"stored {what}: names", list(v.items()) == [] if c is None else [k for k, _ in v.items()] == [s])
        if c is not None:
            x.eq(f"stored {what}: read back", wcxf.WC("E", "b", 3, v)[s], as_num(c).real if _fork_zero(x, as_num(c)) else c)


# ------------------------------------------------------------------ P02
class _Doc(str):
    """what the (assumed) codec produced: stands for the text of `obj`"""
    obj = None


def _plain(o):
    if isinstance(o, dict):
        return {str(k): _plain(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [_plain(v) for v in o]
    return o


def _doc(o):
    d = _Doc("<document>")
    d.obj = _plain(o)
    return d


class _Stream:
    def __init__(self, doc=""):
        self.doc = doc

    def read(self):
        return self.doc

    def write(self, s):
        self.doc = s


def _codec(x, log):
    if x.mode == "num":
        return {}

    def dumps(o, **kw):
        log.append(("json", kw))
        return _doc(o)

    def dump(o, st, **kw):
        log.append(("json", kw))
        st.write(_doc(o))

    def loads(s, **kw):
        if isinstance(s, _Doc):
            if s.fmt == "json":
                return copy.deepcopy(s.obj)
            raise json.JSONDecodeError("not JSON", "", 0)
        return json.JSONDecoder().decode(s)

    def jload(st, **kw):
        return loads(st.read())

    def ydump(o, st=None, **kw):
        log.append(("yaml", kw))
        d = _doc(o)
        d.fmt = "yaml"
        if st is None:
            return d
        st.write(d)

    def yload(s, **kw):
        if hasattr(s, "read"):
            s = s.read()
        if isinstance(s, _Doc):
            return copy.deepcopy(s.obj)
        return yaml.load(s, yaml.SafeLoader)
    _Doc.fmt = "json"
    return {json.dumps: dumps, json.dump: dump, json.loads: loads, json.load: jload, yaml.dump: ydump, yaml.safe_load: yload}


def _trip(x, fmt, stream):
    v = {"r": x.real("r"), "c": {"Re": x.real("cr"), "Im": x.real("ci")}, "o": {"Im": x.real("oim")}, "i": 3}
    sc = x.real("scale", pos=True)
    meta = {"description": "a: b", "list": ["x", 1.5]}
    wc = wcxf.WC("E", "b", sc, copy.deepcopy(v), metadata=meta)
    log = []
    with x.lib(stubs=_codec(x, log)):
        before = dict(wc.dict)
        if stream:
            st = io.StringIO() if x.mode == "num" else _Stream()
            r = wc.dump(st, fmt=fmt)
            x.true("nothing returned", r is None)
            s = st.getvalue() if x.mode == "num" else st.doc
        else:
            s = wc.dump(fmt=fmt)
        src = (io.StringIO(s) if x.mode == "num" else _Stream(s)) if stream else s
        back = wcxf.WC.load(src)
        obj = json.loads(s) if fmt.lower() == "json" and x.mode == "num" else yaml.safe_load(s) if x.mode == "num" else s.obj
        x.true("only the public fields are written", set(obj) == {"eft", "basis", "scale", "values", "metadata"}, set(obj))
        x.eq("written values", obj["values"], v)
        x.eq("EFT, basis", [back.eft, back.basis], ["E", "b"])
        x.eq("scale", back.scale, sc)
        x.eq("coefficients", dict(back.dict), before)
        x.eq("metadata", back.metadata, meta)
        x.eq("stored values", dict(back.values), v)
    # the coefficients of the dumped object are untouched
    x.eq("object unchanged", dict(wc.values), v)


for _fmt in ("json", "yaml", "JSON", "Yaml"):
    for _st in (False, True):
        obligation("P02", f"dump and load {_fmt} {'stream' if _st else 'string'}",
                   [W + "WCxf.dump", W + "WCxf.load", W + "_load_yaml_json", W + "_dump_json", W + "WC.__init__"], fork=True, assumptions=CODEC)(
            lambda x, _fmt=_fmt, _st=_st: _trip(x, _fmt, _st))


def _any_file(x, cls, kw, fmt, stream):
    with registry():
        obj = cls(**kw)
        before = {k: v for k, v in obj.__dict__.items() if k[0] != "_"}
        log = []
        with x.lib(stubs=_codec(x, log)):
            if stream:
                st = _Stream()
                obj.dump(st, fmt=fmt)
                s = st.doc
            else:
                s = obj.dump(fmt=fmt)
            x.true("the fields as they are", dict(s.obj) == before and all(s.obj[k] is v or isinstance(v, (dict, list)) for k, v in before.items()), s.obj)
            back = cls.load(_Stream(s) if stream else s)
        x.true("and back", {k: v for k, v in back.__dict__.items() if k[0] != "_"} == before, back.__dict__)
        x.true("object unchanged", {k: v for k, v in obj.__dict__.items() if k[0] != "_"} == before)


@obligation("P02", "files with arbitrary contents", [W + "WCxf.dump", W + "WCxf.load", W + "_load_yaml_json", W + "_dump_json", W + "WC.__init__", W + "EFT.__init__", W + "Basis.__init__"],
            numeric=False, assumptions=CODEC)
def _(x):
    """coefficients, sectors and further fields are opaque: written and read as they are, whatever and however many they are"""
    class Opaque:
        def __init__(self, n):
            self.n = n

        def __eq__(self, o):
            return isinstance(o, Opaque) and o.n == self.n

        def __deepcopy__(self, memo):
            return self

        def __getattr__(self, n):
            raise Missing("operation on the contents of a file")
        __hash__ = __bool__ = __len__ = __iter__ = __contains__ = __getitem__ = lambda self, *a: self.__getattr__("op")
    for fmt in ("json", "yaml"):
        for stream in (False, True):
            for extra in ({}, {"metadata": Opaque(1)}, {"metadata": None, "more": Opaque(2)}):
                _any_file(x, wcxf.WC, dict(eft="E", basis="b", scale=7.25, values=Opaque(0), **extra), fmt, stream)
                _any_file(x, wcxf.EFT, dict(eft="E", sectors=Opaque(0), **extra), fmt, stream)
                _any_file(x, wcxf.Basis, dict(eft="E", basis="b", sectors=Opaque(0), **extra), fmt, stream)


@obligation("P02", "EFT and basis files", [W + "WCxf.dump", W + "WCxf.load", W + "EFT.__init__", W + "Basis.__init__"],
            bounded="concrete files", samples=1)
def _(x):
    x.clauses += 1
    if x.mode != "num":
        return
    with registry():
        for fmt in ("json", "yaml"):
            e = wcxf.EFT("E1", {"s": {}, "t": {}}, parameters=["a"])
            e2 = wcxf.EFT.load(e.dump(fmt=fmt))
            x.eq("EFT", [e2.eft, dict(e2.sectors), e2.parameters], ["E1", {"s": {}, "t": {}}, ["a"]])
            b = wcxf.Basis("E1", "B", {"s": {"c1": {"tex": "C_1", "real": True}, "c2": None}}, metadata={"d": "x"})
            b2 = wcxf.Basis.load(b.dump(fmt=fmt))
            x.eq("basis", [b2.eft, b2.basis, json.loads(json.dumps(b2.sectors)), b2.metadata],
                 ["E1", "B", {"s": {"c1": {"tex": "C_1", "real": True}, "c2": None}}, {"d": "x"}])
            x.eq("coefficients", list(b2.all_wcs), ["c1", "c2"])
            x.true("registered instance is the loaded one", wcxf.Basis["E1", "B"] is b2 and wcxf.EFT["E1"] is e2)
        for bad in ("xml", "", "js"):
            x.raises(f"format {bad}", ValueError, wcxf.WC("E", "b", 1, {}).dump, fmt=bad)
        x.true("formatting arguments are honoured", wcxf.WC("E", "b", 1, {}).dump(indent=None).count("\n") == 0)
        # everything in a file comes back exactly: falsy and empty fields, integers, every bit of a number
        nums = [1.2345678901234567e-10, 0.1 + 0.2, 1 / 3, 2 ** 0.5 * 1e-17, 1.7976931348623157e308, 2.2250738585072014e-308, 91.1876000000000033, 1e22, 1e23, 123456789012345680.0, -0.0, 5e-324]
        for fmt in ("json", "yaml"):
            extra = {"n": 2 ** 60 + 1, "zero": 0, "empty": "", "none": None, "no": False, "yes": True, "el": [], "ed": {}, "i": 3, "f": 2.0, "l": [1, 2.5, "a", None, 0],
                     "date": "2018-01-01", "num": "1e5", "word": "no", "k": {"a": 0, "b": {}}}
            wc = wcxf.WC("E", "b", 91.18760000000001, {f"c{i}": v if i % 2 else {"Re": v, "Im": -v / 3} for i, v in enumerate(nums)}, metadata=extra)
            wc2 = wcxf.WC.load(wc.dump(fmt=fmt))
            same = lambda a, b: repr(json.loads(json.dumps(a, sort_keys=True))) == repr(json.loads(json.dumps(b, sort_keys=True)))
            x.true(f"{fmt}: metadata come back as written", same(wc2.metadata, extra), wc2.metadata)
            x.true(f"{fmt}: every bit of every coefficient", same(wc2.values, wc.values) and all(repr(wc2[k]) == repr(wc[k]) for k in wc.dict), wc2.values)
            x.true(f"{fmt}: scale", repr(wc2.scale) == repr(wc.scale) == repr(91.18760000000001), wc2.scale)
            for q in [v for v in nums if v > 0] + [math.nextafter(4.18, 9), 80]:
                w0 = wcxf.WC("E", "b", q, {})
                x.true(f"{fmt}: every bit of the scale {q}", w0.scale == q == wcxf.WC.load(w0.dump(fmt=fmt)).scale, w0.scale)
            for empty in (wcxf.WC("E", "b", 10, {}), wcxf.WC("E", "b", 10, {}, metadata={}), wcxf.WC("E", "b", 10, {"a": 0, "b": 0.0, "c": {"Re": 0, "Im": 0}})):
                e2 = wcxf.WC.load(empty.dump(fmt=fmt))
                x.true(f"{fmt}: empty and zero fields", same(e2.values, empty.values) and same(getattr(e2, "metadata", "none"), getattr(empty, "metadata", "none")) and dict(e2.dict) == dict(empty.dict), e2.__dict__)
            wc = wcxf.WC("E", "b", 5, {" a": 1.0, "a ": 2.0, "a": 3.0, "A": 4.0, "a: b": 5.0, "null": 6.0, "1": 7.0, "é": 8.0, "true": {"Re": 1.0, "Im": -0.5}}, note=None, metadata=None, ref="")
            wc2 = wcxf.WC.load(wc.dump(fmt=fmt))
            x.true(f"{fmt}: unusual names", same(wc2.values, wc.values) and dict(wc2.dict) == dict(wc.dict), wc2.values)
            x.true(f"{fmt}: empty fields", "note" in wc2.__dict__ and "metadata" in wc2.__dict__ and wc2.note is None and wc2.metadata is None and wc2.ref == "", wc2.__dict__)
            e = wcxf.EFT.load(wcxf.EFT("E1", {}, extra=extra, zero=0, superset="").dump(fmt=fmt))
            x.true(f"{fmt}: further fields of an EFT", dict(e.sectors) == {} and same(e.extra, extra) and e.zero == 0 and e.superset == "", e.__dict__)
            b = wcxf.Basis.load(wcxf.Basis("E1", "B0", {}, extra=extra, zero=0, note="").dump(fmt=fmt))
            x.true(f"{fmt}: further fields of a basis", dict(b.sectors) == {} and same(b.extra, extra) and b.zero == 0 and b.note == "", b.__dict__)
            b = wcxf.Basis.load(wcxf.Basis("E1", "B0", {"s": {}, "t": {"a": None, "b": {}, "c": {"real": False, "tex": ""}}}).dump(fmt=fmt))
            x.true(f"{fmt}: empty sectors and entries", same(b.sectors, {"s": {}, "t": {"a": None, "b": {}, "c": {"real": False, "tex": ""}}}), b.sectors)
        x.eq("extreme numbers", [wcxf.WC.load(wcxf.WC("E", "b", 1, {"a": v}).dump(fmt=f))["a"] for v in (1e-5, 1e300, 5e-324, -0.1, 123456789.123) for f in ("json", "yaml")],
             [v for v in (1e-5, 1e300, 5e-324, -0.1, 123456789.123) for f in ("json", "yaml")])


# ------------------------------------------------------------------ P03
import contextlib


@contextlib.contextmanager
def registry():
    """run with scratch copies of the registries"""
    saved = [(c, c.__dict__.get("instances")) for c in (wcxf.EFT, wcxf.Basis, wcxf.Translator, wcxf.Matcher)]
    try:
        for c, i in saved:
            if i is not None:
                c.instances = OrderedDict(i)
        yield
    finally:
        for c, i in saved:
            if i is not None:
                c.instances = i


def _sub(seed, pool):
    """all subsets, deterministic order"""
    for m in range(2 ** len(pool)):
        yield [p for i, p in enumerate(pool) if m >> i & 1]


@obligation("P03", "inheritance of sectors", [W + "Basis.__init__", W + "Basis.all_wcs"],
            bounded="all assignments of up to 3 sectors to parent, child and grandchild", samples=1)
def _(x):
    x.clauses += 1
    if x.mode != "num":
        return
    S3 = ["s", "t", "u"]
    with registry():
        wcxf.EFT("E1", {s: {} for s in S3})
        for P in _sub(0, S3):
            for C in _sub(0, S3):
                for G in _sub(0, S3):
                    sec = lambda tag, names: {s: {f"{tag}_{s}1": {"real": True}, f"{tag}_{s}2": None} for s in names}
                    p = wcxf.Basis("E1", "P", sec("p", P))
                    c = wcxf.Basis("E1", "C", sec("c", C), parent="P")
                    g = wcxf.Basis("E1", "G", sec("g", G), parent="C")
                    wc_ = {**sec("p", P), **sec("c", C)}
                    wg = {**wc_, **sec("g", G)}
                    ok = dict(p.sectors) == sec("p", P) and dict(c.sectors) == wc_ and dict(g.sectors) == wg
                    ok = ok and [sorted(b.all_wcs) == sorted(k for s in w.values() for k in s) for b, w in ((p, sec("p", P)), (c, wc_), (g, wg))] == [True] * 3
                    x.true(f"sectors {P} {C} {G}", ok, (p.sectors, c.sectors, g.sectors))
                    c.sectors["new"] = {"n": None}
                    x.true("parent not affected by its child", "new" not in p.sectors)
        before = dict(wcxf.Basis.instances)
        x.raises("unknown parent", ValueError, wcxf.Basis, "E1", "X", {}, parent="nope")
        x.raises("parent of another EFT", ValueError, wcxf.Basis, "E2", "X", {}, parent="P")
        x.true("a rejected basis is not registered", dict(wcxf.Basis.instances) == before, set(wcxf.Basis.instances) ^ set(before))


class _Name(str):
    """an arbitrary name: only comparable for equality"""
    def _no(self, *a, **k):
        raise Missing("operation on an arbitrary name")
    __getitem__ = __len__ = __iter__ = __contains__ = __lt__ = __gt__ = __le__ = __ge__ = __add__ = __radd__ = __mul__ = _no
    startswith = endswith = split = lower = upper = strip = replace = find = index = count = join = encode = rsplit = partition = title = _no
    __hash__ = str.__hash__
    __eq__ = str.__eq__
    __ne__ = str.__ne__


class _NoSize(Missing, TypeError):
    """the size of a map of any size is not available (a TypeError, so that list() does without it)"""


class _Seen(OrderedDict):
    """a map of any size looked at in one arbitrary place: {} (the place is empty) or {place: entry}.
    The operations allowed here act on every place separately."""
    def _no(self, *a, **k):
        raise Missing("operation on a map of any size")
    def _nosize(self, *a):
        raise _NoSize("size of a map of any size")
    __len__ = __bool__ = _nosize
    __eq__ = __ne__ = popitem = move_to_end = __reversed__ = __repr__ = _no

    def copy(self):
        return _Seen(self.items())
    __copy__ = copy

    def __or__(self, o):
        return _Seen([*self.items(), *o.items()])


@obligation("P03", "inheritance at an arbitrary sector", [W + "Basis.__init__"], numeric=False)
def _(x):
    """for every sector name, whatever else the bases contain: the child's definition if it has one, else the parent's (any depth by induction)"""
    s = _Name("s")
    for pin in (False, True):
        for cin in (False, True):
            with registry():
                P, C = object(), object()
                psec, csec = _Seen([(s, P)] if pin else []), _Seen([(s, C)] if cin else [])
                p = wcxf.Basis("e", "p", psec)
                x.true("a basis without parent has its own sectors", dict(p.sectors.items()) == ({s: P} if pin else {}))
                c = wcxf.Basis("e", "c", csec, parent="p")
                want = {s: C} if cin else {s: P} if pin else {}
                x.true(f"parent {pin} child {cin}", dict(c.sectors.items()) == want, dict(c.sectors.items()))
                x.true("parent unchanged", dict(p.sectors.items()) == ({s: P} if pin else {}) and dict(csec.items()) == ({s: C} if cin else {}))
                x.true("registered", wcxf.Basis["e", "c"] is c and wcxf.Basis["e", "p"] is p)
                c.sectors[s] = None
                c.sectors[_Name("n")] = None
                x.true("the parent does not follow its child", dict(p.sectors.items()) == ({s: P} if pin else {}))
                g = wcxf.Basis("e", "g", _Seen(), parent="p")
                p.sectors[s] = 5
                x.true("nor the child its parent", dict(g.sectors.items()) == ({s: P} if pin else {}))


@obligation("P03", "validation of bases and coefficient files", [W + "Basis.validate", W + "WC.validate"],
            bounded="all subsets of 3 sectors and 4 coefficients; files of up to 2001 coefficients", samples=1)
def _(x):
    x.clauses += 1
    if x.mode != "num":
        return
    S3 = ["s", "t", "u"]
    old = wclasses._testtex
    wclasses._testtex = lambda s, delete=True: {"success": True}
    try:
        with registry():
            wcxf.EFT("E1", {"s": {}, "t": {}})
            for B in _sub(0, S3):
                for dup in (False, True):
                    sec = {s: ({"x": None, f"a{s}": None} if dup else {f"a{s}": None}) for s in B}
                    b = wcxf.Basis("E1", "B", sec)
                    bad = "u" in B or (dup and len(B) > 1)
                    if bad:
                        x.raises(f"invalid basis {B} {dup}", ValueError, b.validate)
                    else:
                        try:
                            b.validate()
                        except Exception as e:
                            x.true(f"valid basis {B} {dup}", False, e)
            x.raises("EFT not defined", ValueError, wcxf.Basis("E9", "B", {}).validate)
            wcxf.Basis("E1", "B", {"s": {"a": None, "b": {"real": True}}, "t": {"c": None}})
            for K in _sub(0, ["a", "b", "c", "d"]):
                wc = wcxf.WC("E1", "B", 10, {k: 1.0 for k in K})
                if "d" in K:
                    x.raises(f"unknown coefficient {K}", (AssertionError, ValueError), wc.validate)
                else:
                    try:
                        wc.validate()
                    except Exception as e:
                        x.true(f"valid {K}", False, e)
            # the size of the file and the values in it play no role
            many = {f"k{i}": None for i in range(2000)}
            wcxf.Basis("E1", "L", {"s": dict(many)})
            for v in (0, 0.0, 1e-300, -2.0, {}, {"Re": 0, "Im": 0}, {"Im": 1.0}, None):
                for rest in ({}, {"k0": 1.0}, {k: 1.0 for k in many}, {k: v for k in many}):
                    for unknown in ("k2000", "K0", "k0 ", "", "k", "k00"):
                        for vals in ({unknown: v, **rest}, {**rest, unknown: v}):
                            x.raises(f"unknown {unknown!r} = {v} among {len(rest)}", (AssertionError, ValueError), wcxf.WC("E1", "L", 10, vals).validate)
                    try:
                        wcxf.WC("E1", "L", 10, rest).validate()
                    except Exception as e:
                        x.true(f"valid file of {len(rest)}", False, e)
            x.raises("EFT not defined", ValueError, wcxf.WC("E9", "B", 1, {}).validate)
            x.raises("basis not defined", ValueError, wcxf.WC("E1", "Z", 1, {}).validate)
            wcxf.Basis("E1", "Ch", {"t": {"d": None}}, parent="B")
            wcxf.WC("E1", "Ch", 1, {"a": 1, "d": 2}).validate()
            wcxf.EFT("E0", {"u": {}, "v": {}})
            x.raises("sector of another EFT", ValueError, wcxf.Basis("E1", "Bu", {"s": {"a": None}, "u": {"q": None}}).validate)
            x.raises("sector of another EFT, empty", ValueError, wcxf.Basis("E1", "Bv", {"v": {}}).validate)
            x.raises("coefficient of another basis", (AssertionError, ValueError), wcxf.WC("E1", "B", 1, {"k0": 1}).validate)
            em = wcxf.Basis("E1", "Em", {"t": {}}, parent="B")
            x.eq("emptied sector", {k: list(v) for k, v in em.sectors.items()}, {"s": ["a", "b"], "t": []})
            x.raises("coefficient of an emptied sector", (AssertionError, ValueError), wcxf.WC("E1", "Em", 1, {"c": 1}).validate)
            x.raises("duplicate with the parent", ValueError, wcxf.Basis("E1", "Dp", {"t": {"a": None}}, parent="B").validate)
            x.raises("overridden sector", (AssertionError, ValueError), wcxf.WC("E1", "Ch", 1, {"c": 1}).validate)
    finally:
        wclasses._testtex = old


# ------------------------------------------------------------------ P04
@obligation("P04", "translation and matching dispatch", [W + "WC.translate", W + "WC.match", W + "Translator.translate", W + "Matcher.match",
                                                      W + "translator", W + "matcher"], fork=True)
def _(x):
    with registry():
        calls = []
        res = {"out": x.cplx("o"), "r": x.real("r"), "zero": 0 if x.mode == "num" else as_num(0), "im": 1j * x.real("i"), "n": x.cplx("n")}

        @wcxf.translator("E1", "A", "B")
        def tr(C, scale, parameters, sectors="none given"):
            calls.append(("AB", C, scale, parameters, sectors))
            return dict(res)

        @wcxf.translator("E1", "B", "A")
        def tr2(C, scale, parameters, sectors="none given"):
            calls.append(("BA", C, scale, parameters, sectors))
            return {}

        @wcxf.matcher("E1", "A", "E2", "A")
        def ma(C, scale, parameters):
            calls.append(("match", C, scale, parameters))
            return dict(res)

        @wcxf.matcher("E1", "A", "E1", "C")
        def ma2(C, scale, parameters):
            calls.append(("match2", C, scale, parameters))
            return {"k": x.real("r")}
        x.true("decorators return the function", callable(tr) and callable(ma))
        v = {"a": x.real("a"), "c": {"Re": x.real("cr"), "Im": x.real("ci")}}
        sc = x.real("scale", pos=True)
        wc = wcxf.WC("E1", "A", sc, v)
        par = {"p": 1}
        for p, s in ((None, None), (par, None), (par, ["x", "y"]), ({}, []), (par, ()), (None, {"x"})):
            del calls[:]
            out = wc.translate("B", parameters=p, sectors=s)
            x.true(f"one call {s}", len(calls) == 1 and calls[0][0] == "AB", calls)
            x.eq("input coefficients", dict(calls[0][1]), {"a": x.real("a"), "c": x.real("cr") + 1j * x.real("ci")})
            x.eq("scale", calls[0][2], sc)
            x.true("parameters", (calls[0][3] is None) == (p is None) and calls[0][3] == p and calls[0][4] == ("none given" if s is None else s), calls[0][3:])
            x.eq("EFT, basis", [out.eft, out.basis], ["E1", "B"])
            x.eq("scale out", out.scale, sc)
            x.eq("coefficients", dict(out.dict), res, absent=0)
            x.true("exact zeros are not listed", all(not (e == 0) for e in out.dict.values()))
            x.true("new object", out is not wc)
        x.eq("empty result", dict(wcxf.WC("E1", "B", sc, {}).translate("A").dict), {})
        for p in (None, par):
            del calls[:]
            out = wc.match("E2", "A", parameters=p)
            x.true("one call", len(calls) == 1 and calls[0][0] == "match" and calls[0][3] == p)
            x.eq("input coefficients", dict(calls[0][1]), {"a": x.real("a"), "c": x.real("cr") + 1j * x.real("ci")})
            x.eq("scale", calls[0][2], sc)
            x.eq("EFT, basis", [out.eft, out.basis], ["E2", "A"])
            x.eq("scale out", out.scale, sc)
            x.eq("coefficients", dict(out.dict), res, absent=0)
        out = wc.match("E1", "C")
        x.eq("matching within one EFT", [out.eft, out.basis], ["E1", "C"])
        del calls[:]
        x.true("own basis", wc.translate("A") is wc and wc.match("E1", "A") is wc and not calls)
        x.raises("no translator", ValueError, wc.translate, "Z")
        x.raises("no inverse direction", ValueError, wcxf.WC("E2", "A", 1, {}).translate, "B")
        x.raises("no matcher", ValueError, wc.match, "E2", "B")
        x.raises("no matcher from there", ValueError, wcxf.WC("E2", "A", 1, {}).match, "E1", "A")
        x.raises("translators are no matchers", ValueError, wc.match, "E1", "B")
        x.eq("input unchanged", dict(wc.dict), {"a": x.real("a"), "c": x.real("cr") + 1j * x.real("ci")})


@obligation("P04", "coefficients of any size survive translation and matching", [W + "WC.translate", W + "WC.match", W + "Translator.translate", W + "Matcher.match"],
            bounded="enumerated magnitudes", samples=1)
def _(x):
    x.clauses += 1
    if x.mode != "num":
        return
    import numpy as np
    mags = [1e-300, 1e-40, 1e-25, 1e-16, 1e-8, 1.0, 1e8, 1e25, 1e150]
    d = {}
    for i, a in enumerate(mags):
        for j, b in enumerate([0] + mags):
            d[f"c{i}_{j}"], d[f"d{i}_{j}"] = complex(a, -b), complex(-b, a)
        d[f"r{i}"], d[f"z{i}"] = -a, 0
        d[f"n{i}"] = np.complex128(a)
    with registry():
        wcxf.translator("E1", "A", "B")(lambda C, scale, parameters, sectors=None: dict(C))
        wcxf.matcher("E1", "A", "E2", "A")(lambda C, scale, parameters: dict(C))
        wc = wcxf.WC("E1", "A", 3.7, wcxf.WC.dict2values(d))
        want = {k: complex(v) for k, v in d.items() if v != 0}
        for out in (wc.translate("B"), wc.match("E2", "A"), wc.translate("B", parameters={}, sectors=())):
            x.true("all non-zero coefficients, exactly", {k: complex(v) for k, v in out.dict.items() if v != 0} == want)
            x.true("scale", out.scale == 3.7)


# ------------------------------------------------------------------ P05
@obligation("P05", "registries follow every history of additions and deletions", [W + "NamedInstanceClass.__init__", W + "NamedInstanceClass.get_instance",
            W + "NamedInstanceClass.del_instance", W + "NamedInstanceClass.clear_all", W + "NamedInstanceMetaclass.__getitem__",
            W + "EFT.known_bases", W + "EFT.known_translators", W + "Basis.known_translators"],
            bounded="random histories of 14 operations over 2 EFTs x 3 bases", samples=60, fallback=60)
def _(x):
    x.clauses += 1
    if x.mode != "num":
        return
    rng = x.rng
    E, Bs = ["E", "E-3"], ["A", "A b", "C"]
    with registry():
        for c in (wcxf.EFT, wcxf.Basis, wcxf.Translator, wcxf.Matcher):
            c.clear_all()
        model = {c: OrderedDict() for c in (wcxf.EFT, wcxf.Basis, wcxf.Translator, wcxf.Matcher)}
        efts = {e: wcxf.EFT(e, {}) for e in E}
        model[wcxf.EFT].update(efts)
        for step in range(14):
            c = rng.choice([wcxf.EFT, wcxf.Basis, wcxf.Basis, wcxf.Translator, wcxf.Translator, wcxf.Matcher])
            m = model[c]
            op = rng.choice(["add"] * 4 + ["bad", "del", "del", "clear"] if c is not wcxf.EFT else ["add"])
            if op == "bad":
                x.raises("parent that does not exist", ValueError, wcxf.Basis, rng.choice(E), rng.choice(Bs), {}, parent="nope")
                continue
            if op == "add":
                if c is wcxf.EFT:
                    n = rng.choice(E)
                    o = wcxf.EFT(n, {})
                    efts[n] = o
                elif c is wcxf.Basis:
                    n = (rng.choice(E), rng.choice(Bs))
                    o = wcxf.Basis(*n, {})
                elif c is wcxf.Translator:
                    n = (rng.choice(E), rng.choice(Bs), rng.choice(Bs))
                    o = wcxf.Translator(*n, lambda *a: {})
                else:
                    n = (rng.choice(E), rng.choice(Bs), rng.choice(E), rng.choice(Bs))
                    o = wcxf.Matcher(*n, lambda *a: {})
                m[n] = o
            elif op == "del":
                if m and rng.random() < .8:
                    n = rng.choice(list(m))
                    if rng.random() < .5:
                        c.del_instance(n)
                    else:
                        del c[n]
                    del m[n]
                else:
                    x.raises("deleting an unknown name", KeyError, c.del_instance, "nope")
            else:
                c.clear_all()
                m.clear()
            for cc, mm in model.items():
                x.true("registered names", list(cc.instances) == list(mm), (cc, list(cc.instances), list(mm)))
                x.true("registered objects", all(cc[n] is o and cc.get_instance(n) is o for n, o in mm.items()))
                x.raises("unknown name", (KeyError, AttributeError), cc.get_instance, "nope")
            for e, o in efts.items():
                x.true("known bases", sorted(o.known_bases) == sorted(b for e2, b in model[wcxf.Basis] if e2 == e))
                x.true("known translators of an EFT", sorted(o.known_translators) == sorted(t for t in model[wcxf.Translator] if t[0] == e))
            for (e, b), o in model[wcxf.Basis].items():
                kt = o.known_translators
                x.true("known translators of a basis", sorted(kt["from"]) == sorted(t for t in model[wcxf.Translator] if t[:2] == (e, b))
                       and sorted(kt["to"]) == sorted(t for t in model[wcxf.Translator] if (t[0], t[2]) == (e, b)))
            wc = wcxf.WC(rng.choice(E), rng.choice(Bs), 10, {"k": 1})
            to = rng.choice(Bs)
            if to != wc.basis:
                if (wc.eft, wc.basis, to) in model[wcxf.Translator]:
                    x.true("translation uses the registry", wc.translate(to).basis == to)
                else:
                    x.raises("translation needs a registered translator", ValueError, wc.translate, to)


class _AbsMap(OrderedDict):
    """an arbitrary finite map: contents unknown (every lookup of `present` names gives a fresh token),
    records the net effect of the operation under contract"""
    def __init__(self, present, absent):
        super().__init__()
        self.present, self.absent = present, absent
        self.effect = {}
        self.cleared = False

    def _lookup(self, k):
        if k in self.effect:
            return self.effect[k]
        if not self.cleared and k in self.present:
            return ("old", self.present[k])
        return None

    def __getitem__(self, k):
        r = self._lookup(k)
        if r is None or r[0] == "del":
            raise KeyError(k)
        return r[1]

    def get(self, k, d=None):
        try:
            return self[k]
        except KeyError:
            return d

    def __contains__(self, k):
        return self.get(k, _AbsMap) is not _AbsMap

    def __setitem__(self, k, v):
        self.effect[k] = ("set", v)

    def setdefault(self, k, d=None):
        if k not in self:
            self[k] = d
        return self[k]

    def __delitem__(self, k):
        self[k]
        self.effect[k] = ("del",)

    def pop(self, k, *d):
        if d and k not in self:
            return d[0]
        v = self[k]
        del self[k]
        return v

    def update(self, *a, **k):
        for kk, v in dict(*a, **k).items():
            self[kk] = v

    def clear(self):
        self.cleared = True
        self.effect = {}

    def _no(self, *a, **k):
        raise NotImplementedError("not an operation of the abstract map")
    __iter__ = keys = values = items = popitem = move_to_end = copy = __len__ = _no


@obligation("P05", "effect of one operation on an arbitrary registry", [W + "NamedInstanceClass.__init__", W + "NamedInstanceClass.get_instance",
            W + "NamedInstanceClass.del_instance", W + "NamedInstanceMetaclass.__getitem__", W + "NamedInstanceMetaclass.__delitem__", W + "NamedInstanceClass.clear_all"], numeric=False)
def _(x):
    makers = [(wcxf.EFT, "e", lambda: wcxf.EFT("e", {})), (wcxf.Basis, ("e", "b"), lambda: wcxf.Basis("e", "b", {"s": {}})),
              (wcxf.Translator, ("e", "a", "b"), lambda: wcxf.Translator("e", "a", "b", len)),
              (wcxf.Matcher, ("e", "a", "f", "b"), lambda: wcxf.Matcher("e", "a", "f", "b", len))]
    with registry():
        for cls, name, make in makers:
            others = [c for c, _, _ in makers if c is not cls]
            for old in ({}, {name: object()}):
                maps = {c: _AbsMap(old if c is cls else {}, ()) for c, _, _ in makers}

                def fresh():
                    for c in maps:
                        maps[c] = _AbsMap(old if c is cls else {}, ())
                        c.instances = maps[c]
                fresh()
                o = make()
                x.true(f"{cls.__name__}: creation binds its name to the object and nothing else",
                       dict(maps[cls].effect) == {name: ("set", o)} and not maps[cls].cleared, maps[cls].effect)
                x.true("other registries untouched", all(not maps[c].effect and not maps[c].cleared for c in others))
                x.true("lookup", cls[name] is o and cls.get_instance(name) is o)
                for how in ("method", "del"):
                    fresh()
                    try:
                        if how == "method":
                            cls.del_instance(name)
                        else:
                            del cls[name]
                        x.true("deletion removes exactly this name", bool(old) and dict(maps[cls].effect) == {name: ("del",)})
                    except KeyError:
                        x.true("deleting an unknown name fails without effect", not old and not maps[cls].effect)
                    x.true("other registries untouched", all(not maps[c].effect and not maps[c].cleared for c in others))
                fresh()
                try:
                    x.true("lookup gives the registered object", cls[name] is old[name] and cls.get_instance(name) is old[name])
                except KeyError:
                    x.true("lookup of an unknown name fails", not old)
                x.true("lookup has no effect", not maps[cls].effect)
                fresh()
                cls.clear_all()
                m = cls.instances
                x.true("clear empties this registry", (m is maps[cls] and m.cleared and not m.effect) or (m is not maps[cls] and len(m) == 0))
                x.true("clear leaves the others", all(c.instances is maps[c] and not maps[c].cleared for c in others))
        # rejected constructions have no effect
        maps = {c: _AbsMap({}, ()) for c, _, _ in makers}
        for c in maps:
            c.instances = maps[c]
        x.raises("unknown parent", ValueError, wcxf.Basis, "e", "b", {}, parent="p")
        x.true("rejected basis: no effect", not maps[wcxf.Basis].effect, maps[wcxf.Basis].effect)


@obligation("P05", "queries on an arbitrary registry", [W + "EFT.known_bases", W + "EFT.known_translators", W + "Basis.known_translators"], numeric=False)
def _(x):
    """whatever is registered: an entry is listed exactly if it belongs to the EFT and basis asked for (seen at one arbitrary entry)"""
    n = {k: _Name(k) for k in ("e", "f", "a", "b", "c")}
    with registry():
        eft = wcxf.EFT(n["e"], {})
        bas = wcxf.Basis(n["e"], n["a"], {})
        for there in (False, True):
            for e in ("e", "f"):
                for a in ("a", "b", "c"):
                    key = (_Name(e), _Name(a))
                    wcxf.Basis.instances = _Seen([(key, object())] if there else [])
                    x.true(f"known bases {there} {e}", tuple(eft.known_bases) == ((a,) if there and e == "e" else ()), eft.known_bases)
                    for b in ("a", "b", "c"):
                        key = (_Name(e), _Name(a), _Name(b))
                        wcxf.Translator.instances = _Seen([(key, object())] if there else [])
                        here = there and e == "e"
                        x.true(f"translators of an EFT {there} {key}", tuple(eft.known_translators) == ((key,) if here else ()))
                        kt = bas.known_translators
                        x.true(f"translators of a basis {there} {key}", set(kt) == {"from", "to"} and tuple(kt["from"]) == ((key,) if here and a == "a" else ())
                               and tuple(kt["to"]) == ((key,) if here and b == "a" else ()), kt)
