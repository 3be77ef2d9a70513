"""Generated stand-ins for the WCxf EFT and basis files (empty submodule).

SMEFT/Warsaw is generated from the operator symmetries (non-redundant
representative = lexicographically smallest index tuple of each orbit); WET/JMS
and the other WET bases are pinned coefficient lists (vc/data/*.json).  The
tables are *inputs* of the verified code: all contracts are stated relative to
them.  They are pinned here so that a change in /repo cannot change them.
"""
import itertools, json, os, re

HERE = os.path.dirname(os.path.abspath(__file__))
R3 = range(3)

SMEFT_CLASS = {
    0: "G Gtilde W Wtilde phi phiBox phiD phiG phiB phiW phiWB phiGtilde phiBtilde phiWtilde phiWtildeB".split(),
    1: "uphi dphi ephi uW uB uG dW dB dG eW eB phiud".split(),
    2: "phil1 phil3 phie phiq1 phiq3 phiu phid".split(),
    9: ["llphiphi"],
    4: "ll qq1 qq3 uu dd".split(),
    5: "lq1 lq3 eu ed ud1 ud8 le lu ld qe qu1 qd1 qu8 qd8".split(),
    6: ["ee"],
    3: "ledq quqd1 quqd8 lequ1 lequ3 duql duue".split(),
    7: ["qque"],
    8: ["qqql"],
}
# order of the coefficient list used by the reference tables
SMEFT_ORDER = [
    "G", "Gtilde", "W", "Wtilde", "phi", "phiBox", "phiD", "phiG", "phiB", "phiW", "phiWB",
    "phiGtilde", "phiBtilde", "phiWtilde", "phiWtildeB",
    "uphi", "dphi", "ephi", "eW", "eB", "uG", "uW", "uB", "dG", "dW", "dB",
    "phil1", "phil3", "phie", "phiq1", "phiq3", "phiu", "phid", "phiud", "llphiphi",
    "ll", "qq1", "qq3", "lq1", "lq3", "ee", "uu", "dd", "eu", "ed", "ud1", "ud8", "le", "lu", "ld",
    "qe", "qu1", "qd1", "qu8", "qd8", "ledq", "quqd1", "quqd8", "lequ1", "lequ3",
    "duql", "qque", "qqql", "duue"]

QQQL_NONRED = [(0, 0, 0), (0, 0, 1), (0, 0, 2), (0, 1, 0), (0, 1, 1), (0, 1, 2), (0, 2, 0), (0, 2, 1),
               (0, 2, 2), (1, 0, 1), (1, 0, 2), (1, 1, 1), (1, 1, 2), (1, 2, 0), (1, 2, 1), (1, 2, 2),
               (2, 0, 2), (2, 1, 2), (2, 2, 2)]


# an orbit element is (index tuple, conjugated?, sign)
def orbit(cls, idx):
    if cls in (0, 1, 3, 8):
        return [(idx, False, 1)]
    if cls == 2:
        i, j = idx
        return [((i, j), False, 1), ((j, i), True, 1)]
    if cls == 9:
        i, j = idx
        return [((i, j), False, 1), ((j, i), False, 1)]
    i, j, k, l = idx
    if cls == 5:
        return [((i, j, k, l), False, 1), ((j, i, l, k), True, 1)]
    if cls == 4:
        return [((i, j, k, l), False, 1), ((k, l, i, j), False, 1),
                ((j, i, l, k), True, 1), ((l, k, j, i), True, 1)]
    if cls == 41:
        return [((i, j, k, l), False, 1), ((k, l, i, j), False, 1)]
    if cls == 6:
        base = {(i, j, k, l), (k, l, i, j), (k, j, i, l), (i, l, k, j)}
        return [(t, False, 1) for t in sorted(base)] + \
               [((t[1], t[0], t[3], t[2]), True, 1) for t in sorted(base)]
    if cls == 7:
        return [((i, j, k, l), False, 1), ((j, i, k, l), False, 1)]
    if cls == 71:
        return [((i, j, k, l), False, 1), ((j, i, k, l), False, -1)]
    raise ValueError(cls)


def is_real(cls, idx):
    """hermiticity forces this element to be real"""
    o = orbit(cls, idx)
    return any(t == idx and c for t, c, _ in o) or cls == 0


def nonredundant(cls, shape):
    if cls == 0:
        return [()]
    out = []
    for idx in itertools.product(*[range(s) for s in shape]):
        if cls == 8:
            if idx[:3] in QQQL_NONRED:
                out.append(idx)
            continue
        if cls == 71 and idx[0] == idx[1]:
            continue
        if idx == min(t for t, _, _ in orbit(cls, idx)):
            out.append(idx)
    return out


def label(name, idx):
    return name if not idx else name + "_" + "".join(str(i + 1) for i in idx)


def smeft_class_of(name):
    for c, names in SMEFT_CLASS.items():
        if name in names:
            return c


def smeft_shape(name):
    c = smeft_class_of(name)
    return () if c == 0 else (3, 3) if c in (1, 2, 9) else (3, 3, 3, 3)


def smeft_warsaw():
    """{label: {'real': bool}} in order"""
    d = {}
    for name in SMEFT_ORDER:
        c = smeft_class_of(name)
        for idx in nonredundant(c, smeft_shape(name)):
            d[label(name, idx)] = {"real": True} if is_real(c, idx) else {}
    return d


_SM_SEC = {"duql": "dB=dL=1", "qque": "dB=dL=1", "qqql": "dB=dL=1", "duue": "dB=dL=1", "llphiphi": "dL=2"}


def smeft_sectors():
    sec = {"dB=de=dmu=dtau=0": {}, "dB=dL=1": {}, "dL=2": {}}
    for k, v in smeft_warsaw().items():
        sec[_SM_SEC.get(k.split("_")[0], "dB=de=dmu=dtau=0")][k] = v
    return sec


# ---------------------------------------------------------------- WET / JMS
JMS_CLASS = {
    0: ["G", "Gtilde"],
    1: ["egamma", "uG", "dG", "ugamma", "dgamma"],
    3: ['S1udRR', 'S1udduRR', 'S8udRR', 'S8udduRR', 'SedRL', 'SedRR', 'SeuRL', 'SeuRR', 'SnueduRL',
        'SnueduRR', 'TedRR', 'TeuRR', 'TnueduRR', 'V1udduLR', 'V8udduLR', 'VnueduLL', 'VnueduLR',
        'SuddLL', 'SduuLL', 'SduuLR', 'SduuRL', 'SdudRL', 'SduuRR'],
    4: ['VuuRR', 'VddRR', 'VuuLL', 'VddLL'],
    41: ['S1ddRR', 'S1uuRR', 'S8uuRR', 'SeeRR', 'S8ddRR'],
    5: ["VnueLL", "VnuuLL", "VnudLL", "VeuLL", "VedLL", "V1udLL", "V8udLL", "VeuRR", "VedRR", "V1udRR",
        "V8udRR", "VnueLR", "VeeLR", "VnuuLR", "VnudLR", "VeuLR", "VedLR", "VueLR", "VdeLR", "V1uuLR",
        "V8uuLR", "V1udLR", "V8udLR", "V1duLR", "V8duLR", "V1ddLR", "V8ddLR"],
    6: ['VeeLL', 'VeeRR', 'VnunuLL'],
    71: ['SuudLR', 'SuudRL', 'SdduRL'],
}


def jms_class_of(name):
    for c, names in JMS_CLASS.items():
        if name in names:
            return c


def jms_fields(name):
    """'V1udduLR' -> ['u','d','d','u']"""
    if name in ("G", "Gtilde"):
        return []
    m = re.match(r"^([ued])(G|gamma)$", name)
    if m:
        return [m.group(1)] * 2
    s = re.match(r"^[VST][18]?((?:nu|[ude])+)(LL|LR|RL|RR)$", name).group(1)
    f = re.findall(r"nu|[ude]", s)
    if len(f) == 2:
        f = [f[0], f[0], f[1], f[1]]
    if len(f) == 3:  # baryon number violating: the lepton is implicit
        f = f + ["e" if f.count("u") == 2 else "nu"]
    return f


def jms_shape(name, n=None):
    n = n or {"u": 2, "d": 3, "e": 3, "nu": 3}
    return tuple(n[x] for x in jms_fields(name))


def _load(fn):
    with open(os.path.join(HERE, "data", fn)) as f:
        return json.load(f)


def _cut(sectors, keep):
    return {s: {k: v for k, v in d.items() if keep(k)} for s, d in sectors.items()}


def jms_keep(f):
    nmax = {5: {"u": 2, "d": 3}, 4: {"u": 2, "d": 2}, 3: {"u": 1, "d": 2}, 2: {"u": 1, "d": 1}}[f]

    def keep(k):
        if "_" not in k:
            return True
        name, ind = k.split("_")
        return all(int(i) <= nmax.get(x, 3) for i, x in zip(ind, jms_fields(name)))
    return keep


def wet_sectors():
    return _load("jms_sectors.json")


def jms():
    """{sector: {label: {'real':bool}}}"""
    out = {}
    for s, ks in wet_sectors().items():
        out[s] = {}
        for k in ks:
            name = k.split("_")[0]
            idx = tuple(int(i) - 1 for i in k.split("_")[1]) if "_" in k else ()
            out[s][k] = {"real": True} if is_real(jms_class_of(name), idx) else {}
    return out


def register():
    from wilson import wcxf
    p = os.path.join(HERE, "data", "wet_keys.json")
    WET_KEYS = _load("wet_keys.json") if os.path.exists(p) else {}
    EFT, Basis = wcxf.EFT, wcxf.Basis
    sm = smeft_sectors()
    EFT("SMEFT", {s: {} for s in sm})
    for b in ("Warsaw", "Warsaw up", "Warsaw mass"):
        Basis("SMEFT", b, {s: dict(d) for s, d in sm.items()})
    p = os.path.join(HERE, "data", "higgs_up.json")
    if os.path.exists(p):
        Basis("SMEFT", "Higgs-Warsaw up", _load("higgs_up.json"))
    j = jms()
    for f, eft in ((5, "WET"), (4, "WET-4"), (3, "WET-3"), (2, "WET-2")):
        d = _cut(j, jms_keep(f)) if f < 5 else {s: dict(v) for s, v in j.items()}
        d = {s: v for s, v in d.items() if v}
        EFT(eft, {s: {} for s in d})
        Basis(eft, "JMS", d)
        for b, t in WET_KEYS.items():
            t = {n: {k: {"real": True} if v.get("real") else {} for k, v in q.items() if v["f"] <= f} for n, q in t.items()}
            t = {n: q for n, q in t.items() if q}
            if t and (f == 5 or f >= 3 and b in ("flavio", "Bern")):
                Basis(eft, b, t)
