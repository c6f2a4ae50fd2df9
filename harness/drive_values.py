"""Executes histories of value operations on the real code.  usage: drive_values.py IN OUT"""
import copy, json, math, sys
from decimal import Decimal
from fractions import Fraction

from colosseum import parser, units
from colosseum.colors import hsl
from proj import ANGLE, MUTATIONS, UNIT, build, frac, number, odd, outcome, project, spoil, tired, types_for

FN = {"length": parser.units, "color": parser.color, "rect": parser.rect, "spacing": parser.border_spacing, "quotes": parser.quotes,
      "uri": parser.uri, "cursor": parser.cursor}
HOME = {"len": "length", "rgb": "color", "hsl": "color"}


class Display:
    def __init__(self, c):
        self.dpi, self.content_width, self.content_height = number(c["dpi"], c.get("dd", 1)), number(*reduce64(c["w"])), number(*reduce64(c["h"]))


class Font:
    def __init__(self, c):
        self.em, self.ex, self.ch = (number(*tenth(c[k])) for k in ("em", "ex", "ch"))


def reduce64(x):
    f = Fraction(x, 64)
    return f.numerator, f.denominator


def tenth(x):
    f = Fraction(x, 10)
    return f.numerator, f.denominator


def look(v):
    out, r = outcome(lambda: look_at(v))
    return r if out == "ok" else {"t": "odd", "s": "raises " + out}


def look_at(v):
    if isinstance(v, units.AngleUnit):
        f = frac(v.val)
        return {"t": "ang", "u": v.suffix, "n": f[0], "d": f[1]} if f and v.suffix in ANGLE else odd(v)
    return project(v)


def wide(v):
    """A length by the digits of its number."""
    d = Decimal(repr(float(v.val)))
    if not d.is_finite():
        return {"ok": False, "u": v.suffix, "neg": False, "dg": str(d), "e": 0}
    sign, digits, ex = d.as_tuple()
    s = "".join(map(str, digits)).lstrip("0")
    e = len(s) + ex
    s = s.rstrip("0")
    return {"ok": True, "u": v.suffix, "neg": bool(sign) and s != "", "dg": s, "e": e if s else 0}


def run_wide(op):
    got, w = [], []
    for s in op["ts"]:
        out, r = outcome(lambda: FN["length"](s))
        o = {"out": out}
        if out == "ok":
            got.append(r)
            out, o["val"] = outcome(lambda: wide(r))
            if out != "ok":
                o["val"] = {"ok": False, "u": "", "neg": False, "dg": out, "e": 0}
            o2, o["str"] = outcome(lambda: str(r))
            o3, b = outcome(lambda: wide(FN["length"](o["str"])))
            o["back"] = b if o3 == "ok" else {"ok": False, "u": "", "neg": False, "dg": o3, "e": 0}
        w.append(o)
    eq = "-"
    if len(got) == 2:
        out, eq = outcome(lambda: "T" if got[0] == got[1] and not got[0] != got[1] else "F" if got[0] != got[1] and not got[0] == got[1] else "?")
        eq = eq if out == "ok" else out
    return {"out": "ok", "w": w, "eq": eq}


def run(case):
    types_for(case)
    objs, ev, given = [], [], []
    for op in case["ops"]:
        if tired():
            break
        k = op["op"]
        obs = {}
        if k == "wide":
            obs = run_wide(op)
            obs["objs"] = [look(o) for o in objs]
            ev.append({"op": op, "obs": obs})
            continue

        def do():
            if k == "parse":
                given.append(build(op["raw"]))
                return FN[op["fn"]](given[-1])
            if k == "unit":
                v = op["v"]
                return number(v["n"], v["d"]) * (UNIT[v["u"]] if v["t"] == "len" else ANGLE[v["u"]])
            o = objs[op["o"] - 1] if "o" in op else None
            if k == "mul":
                return number(op["n"], op["d"]) * o
            if k == "neg":
                return -o
            if k == "px":
                c = op["ctx"]
                return o.px(display=Display(c), font=Font(c), size=number(c["sn"], c["sd"]))
            if k == "deg":
                return o.deg()
            if k == "rgb":
                return o.rgb
            if k == "eq":
                a, b = o == objs[op["p"] - 1], o != objs[op["p"] - 1]
                return a if a is (not b) else "inconsistent"
            if k == "spoil":
                for x in given:
                    spoil(x)
                return None
            if k == "assign":
                return setattr(o, op["attr"], 77)
            if k == "copylist":
                return o.copy()
            if k == "level":
                a, b = (outcome(lambda: f(op["k"])) for f in (o.opening, o.closing))
                if a[0] == b[0] == "IndexError":
                    raise IndexError
                return [x[1] if x[0] == "ok" and isinstance(x[1], str) else x[0] for x in (a, b)]
            if k == "mutate":
                return MUTATIONS[op["how"]](o)
            if k == "hslrow":
                row = []
                for s, l in op["sl"]:
                    a = (s + l) % 8 / 8
                    c = hsl(number(op["h"], op["hd"]), s / op["den"], l / op["den"], a).rgb
                    if not all(type(x) is int and abs(x) < 2 ** 31 for x in (c.r, c.g, c.b)) or c.a != a:
                        raise AssertionError("channels")
                    row.append([s, l, c.r, c.g, c.b])
                return row
            raise AssertionError(k)

        obs["out"], r = outcome(do)
        if obs["out"] == "ok":
            if k in ("parse", "unit", "mul", "neg", "copylist"):
                objs.append(r)
                obs["val"] = look(r)
                o2, s = outcome(lambda: str(r))
                obs["str"] = s if o2 == "ok" else "raises " + o2
                fn = HOME.get(obs["val"].get("t"), obs["val"].get("t"))
                o3, b = outcome(lambda: FN[fn](s)) if fn in FN else ("", None)
                obs["back"] = look(b) if o3 == "ok" else {"t": "raises", "s": o3}
            elif k == "px":
                f = Fraction(r) * 64 if isinstance(r, (int, float)) and not isinstance(r, bool) else None
                obs["lu"] = int(f) if f is not None and f.denominator == 1 and abs(f) < 2 ** 31 else -2147483647
                obs["isint"] = isinstance(r, int)
                c, o = op["ctx"], objs[op["o"] - 1]
                if hasattr(o, "lu"):
                    out, r = outcome(lambda: o.lu(display=Display(c), font=Font(c), size=number(c["sn"], c["sd"])))
                    obs["lu2"] = r if type(r) is int and abs(r) < 2 ** 31 else -2147483646
            elif k == "level":
                obs["pair"] = r
            elif k == "deg":
                f = frac(r, 50000)
                obs["q"] = {"n": f[0], "d": f[1]} if f else {"n": 0, "d": 0}
                obs["m"] = math.floor(r * 100000) if abs(r) < 21000 else 2147483647
                obs["isint"] = isinstance(r, int)
            elif k == "rgb":
                obs["val"] = look(r)
            elif k == "eq":
                obs["b"] = r if isinstance(r, bool) else "no boolean"
                if not isinstance(r, bool):
                    obs["out"] = "odd"
                    obs["b"] = False
            elif k == "hslrow":
                obs["row"] = r
        obs["objs"] = [look(o) for o in objs]
        ev.append({"op": op, "obs": obs})
    return {"id": case["id"], "ev": ev}


if __name__ == "__main__":
    with open(sys.argv[1]) as f, open(sys.argv[2], "w") as g:
        for line in f:
            if tired():
                break
            g.write(json.dumps(run(json.loads(line))) + "\n")
