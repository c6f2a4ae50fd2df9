"""Between the specification's encoding (JSON) and the real objects of colosseum.

project(x)  real value -> specification value (see spec/Values.tla)
build(raw)  specification raw -> real object handed to the code
Everything is read through public attributes, methods and text forms.
"""
import math, operator, signal, zlib
from collections.abc import Mapping
from fractions import Fraction

from colosseum import constants, units
from colosseum.colors import hsl, rgb
from colosseum.shapes import Rect
from colosseum.wrappers import BorderSpacing, Cursor, ImmutableList, Quotes, Shorthand, Uri

LIM = 2 ** 31 - 1
UNIT = {"px": units.px, "em": units.em, "ex": units.ex, "ch": units.ch, "pt": units.pt, "pc": units.pc,
        "in": units.inch, "cm": units.cm, "mm": units.mm, "vh": units.vh, "vmax": units.vmax, "vmin": units.vmin,
        "vw": units.vw, "%": units.percent}
ANGLE = {"deg": units.deg, "grad": units.grad, "rad": units.rad, "turn": units.turn}


def odd(x):
    try:
        s = f"{type(x).__name__} {x!r}"
    except Exception as e:
        s = f"{type(x).__name__} ({type(e).__name__})"
    return {"t": "odd", "s": "".join(ch if 32 <= ord(ch) < 127 and ch not in '"\\' else "." for ch in s)[:80]}


def frac(x, approx=0):
    """A number as [n, d], or None.  approx: take a fraction with a denominator up to that if it is as near as rounding errors."""
    if isinstance(x, bool) or not isinstance(x, (int, float)):
        return None
    if isinstance(x, float) and not math.isfinite(x):
        return None
    f = Fraction(x) if isinstance(x, int) else Fraction(repr(x))
    approx = 1000 if approx is True else approx
    if approx and f.denominator > approx:
        g = f.limit_denominator(approx)
        if abs(g - f) < Fraction(1, 10 ** 12) * max(1, abs(f) // 100):
            f = g
    if abs(f.numerator) > LIM or f.denominator > LIM:
        return None
    return f.numerator, f.denominator


def plain(s):
    """Text TLC can carry."""
    return all(32 <= ord(ch) < 127 or ch in "\t\n" for ch in s)


def project(v):
    if v is None:
        return {"t": "none"}
    if v is constants.default:
        return {"t": "default"}
    if isinstance(v, str):
        return {"t": "kw", "s": v} if plain(v) else odd(v)
    if isinstance(v, bool):
        return odd(v)
    if isinstance(v, int):
        return {"t": "int", "i": v} if abs(v) <= LIM else odd(v)
    if isinstance(v, units.AngleUnit):
        return odd(v)
    if isinstance(v, units.BaseUnit):
        f = frac(v.val)
        if f is None or v.suffix not in UNIT:
            return odd(v)
        return {"t": "len", "u": v.suffix, "n": f[0], "d": f[1]}
    if isinstance(v, rgb):
        a = frac(v.a, True)
        if a is None or not all(type(x) is int and abs(x) <= LIM for x in (v.r, v.g, v.b)):
            return odd(v)
        return {"t": "rgb", "r": v.r, "g": v.g, "b": v.b, "an": a[0], "ad": a[1]}
    if isinstance(v, hsl):
        s, l, a = frac(v.s, True), frac(v.l, True), frac(v.a, True)
        if None in (s, l, a) or type(v.h) is not int or abs(v.h) > LIM:
            return odd(v)
        return {"t": "hsl", "h": v.h, "sn": s[0], "sd": s[1], "ln": l[0], "ld": l[1], "an": a[0], "ad": a[1]}
    if isinstance(v, Rect):
        return {"t": "rect", "p": [project(x) for x in (v.top, v.right, v.left, v.bottom)]}
    if isinstance(v, BorderSpacing):
        one = len(str(v).split()) == 1
        p = [project(v.horizontal), project(v.vertical)]
        return {"t": "spacing", "p": p[:1] if one and p[0] == p[1] else p}
    if isinstance(v, Quotes):
        return {"t": "quotes", "q": [[v.opening(k), v.closing(k)] for k in range(len(v))]}
    if isinstance(v, Uri):
        return {"t": "uri", "s": v.url} if isinstance(v.url, str) and plain(v.url) else odd(v)
    if isinstance(v, ImmutableList):
        return {"t": "cursor", "p": [project(x) for x in v]}
    if isinstance(v, Shorthand):
        return {"t": "short", "k": [[k, project(x)] for k, x in v.to_dict().items()]}
    if isinstance(v, tuple):
        return {"t": "seq", "p": [project(x) for x in v]}
    return odd(v)


def project_safe(f):
    try:
        return project(f())
    except Exception as e:
        return {"t": "raises", "s": type(e).__name__}


def number(n, d):
    return n if d == 1 else n / d


class Strange:
    def __repr__(self):
        return "Strange()"


class Unhashable:
    __hash__ = None

    def __eq__(self, other):
        return False


OTHER = {
    "bytes": lambda: b"auto", "dict": lambda: {"px": 1}, "set": lambda: {1, 2, 3, 4, 5}, "object": Strange,
    "inf": lambda: float("inf"), "nan": lambda: float("nan"), "ninf": lambda: float("-inf"), "complex": lambda: 1j,
    "function": lambda: (lambda: 0), "type": lambda: Strange, "fraction": lambda: Fraction(1, 2),
    "deg": lambda: 90 * units.deg, "turn": lambda: units.turn, "unhashable": Unhashable,
    "gen": lambda: (k for k in ()), "range": lambda: range(5), "ellipsis": lambda: ...,
}


class Words(str):
    pass


class Count(int):
    pass


class Amount(float):
    pass


class Row(tuple):
    pass


class Items(list):
    pass


USUAL, SPECIAL = (str, int, float, tuple, list), (Words, Count, Amount, Row, Items)
TYPES = list(USUAL)


def types_for(case):
    """Some cases pass instances of subclasses of the usual types."""
    TYPES[:] = SPECIAL if zlib.crc32(case["id"].encode()) % 11 == 3 else USUAL


def build(raw):
    k = raw["k"]
    text, whole, real, fixed, row = TYPES
    if k == "str":
        return text(raw["s"])
    if k == "int":
        return bool(raw["i"]) if raw.get("bool") else whole(raw["i"])
    if k == "float":
        return real(raw["n"] / raw["d"])
    if k == "none":
        return None
    if k == "tuple":
        return fixed(build(x) for x in raw["p"])
    if k == "list":
        return row(build(x) for x in raw["p"])
    if k == "val":
        return build_val(raw["v"])
    return OTHER[raw["x"]]()


def build_val(v):
    t = v["t"]
    if t == "len":
        return number(v["n"], v["d"]) * UNIT[v["u"]]
    if t == "rgb":
        return rgb(v["r"], v["g"], v["b"], v["an"] / v["ad"])
    if t == "hsl":
        return hsl(v["h"], v["sn"] / v["sd"], v["ln"] / v["ld"], v["an"] / v["ad"])
    if t == "rect":
        return Rect(*[build_val(x) for x in v["p"]])
    if t == "spacing":
        return BorderSpacing(*[build_val(x) for x in v["p"]])
    if t == "quotes":
        return Quotes([tuple(x) for x in v["q"]])
    if t == "uri":
        return Uri(v["s"])
    if t == "cursor":
        return Cursor([x["s"] if x["t"] == "kw" else build_val(x) for x in v["p"]])
    if t == "default":
        return constants.default
    if t == "none":
        return None
    if t == "kw":
        return v["s"]
    raise AssertionError(t)


MUTATIONS = {
    "append": lambda v: v.append("wait"), "clear": lambda v: v.clear(), "extend": lambda v: v.extend(["wait"]), "insert": lambda v: v.insert(0, "wait"),
    "pop": lambda v: v.pop(), "pop0": lambda v: v.pop(0), "remove": lambda v: v.remove(v[0]), "reverse": lambda v: v.reverse(), "sort": lambda v: v.sort(),
    "sortkey": lambda v: v.sort(key=str, reverse=True), "setitem": lambda v: operator.setitem(v, 0, "wait"), "delitem": lambda v: operator.delitem(v, 0),
    "setslice": lambda v: operator.setitem(v, slice(0, 1), ["wait", "help"]), "delslice": lambda v: operator.delitem(v, slice(None)),
    "iadd": lambda v: operator.iadd(v, ["wait"]), "imul": lambda v: operator.imul(v, 2), "imul0": lambda v: operator.imul(v, 0), "iaddself": lambda v: operator.iadd(v, []),
    "imul1": lambda v: operator.imul(v, 1), "setsame": lambda v: operator.setitem(v, 0, v[0]), "delnone": lambda v: operator.delitem(v, slice(0, 0)), "extendnone": lambda v: v.extend([]),
    "insertend": lambda v: v.insert(len(v), "wait"), "poplast": lambda v: v.pop(-1), "popafter": lambda v: v.pop(99), "removeother": lambda v: v.remove("nothing"),
    "setafter": lambda v: operator.setitem(v, 99, "wait"), "delafter": lambda v: operator.delitem(v, 99), "setend": lambda v: operator.setitem(v, slice(9, 9), ["wait"]),
}


def spoil(x):
    """Change a list that was passed in."""
    if type(x) in (list, tuple, Items, Row):
        for y in x:
            spoil(y)
    if type(x) in (list, Items):
        x.reverse()
        x.append("spoilt")
    elif type(x) is dict:
        x["spoilt"] = 1


class Hung(BaseException):
    pass


def on_alarm(*_):
    raise Hung()


HANGS = []       # calls that had to be broken off


def tired():
    """Too many calls hang: leave it at what has been seen."""
    return len(HANGS) >= 3


def outcome(f):
    """Run f; the name of what came out, and the result."""
    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(20)  # seconds one call may take
    try:
        return attempt(f)
    except Hung:
        HANGS.append(1)
        return "Hung", None
    finally:
        signal.alarm(0)


def attempt(f):
    try:
        r = f()
    except ValueError:
        return "ValueError", None
    except KeyError:
        return "KeyError", None
    except NameError as e:
        return "NameError" if type(e) is NameError else type(e).__name__, None
    except Exception as e:
        return type(e).__name__, None
    return "ok", r
