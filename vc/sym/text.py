"""Symbolic numbers embedded in strings (text formats): a marker stands for the
decimal rendering of a symbolic value; reading it back yields the value (the
float -> text -> float round trip of the format itself is an assumption)."""
import re
from .num import Num, Unsupported

MARK = "\u27e6"
END = "\u27e7"
_tab = []


def reset():
    _tab.clear()


def embed(n, spec=""):
    _tab.append(n)
    return f"{MARK}{len(_tab)-1}|{spec}{END}"


def extract(s):
    m = re.fullmatch(r"\s*([+-]?)%s(\d+)\|([^%s]*)%s\s*" % (MARK, END, END), s)
    if not m:
        raise Unsupported(f"cannot parse {s!r} as one number")
    v = _tab[int(m.group(2))]
    return -v if m.group(1) == "-" else v


def find(s):
    return [(m.start(), _tab[int(m.group(1))], m.group(2)) for m in re.finditer(r"%s(\d+)\|([^%s]*)%s" % (MARK, END, END), s)]
