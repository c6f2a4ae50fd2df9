"""Executes histories of building blocks on the real code.  usage: drive_blocks.py IN OUT"""
import json, sys

from colosseum import constants, parser, validators, wrappers
from colosseum.constants import Choices, OtherProperty
from colosseum.declaration import unvalidated_property, validated_property
from colosseum.exceptions import ValidationError
from proj import build, build_val, frac, number, odd, outcome, plain, project, tired, types_for

CHECK = {"number": validators.is_number, "integer": validators.is_integer, "length": validators.is_length, "percentage": validators.is_percentage,
         "color": validators.is_color, "spacing": validators.is_border_spacing, "rect": validators.is_rect, "quotes": validators.is_quote,
         "uri": validators.is_uri, "cursor": validators.is_cursor}
SHORT = {"outline": parser.outline, "border": parser.border, "border_top": parser.border_top, "border_right": parser.border_right,
         "border_bottom": parser.border_bottom, "border_left": parser.border_left}
RECORD = {"outline": wrappers.Outline, "border": wrappers.Border, "border_top": wrappers.BorderTop, "border_right": wrappers.BorderRight,
          "border_bottom": wrappers.BorderBottom, "border_left": wrappers.BorderLeft}


class By:
    def __init__(self, name, eq, a, b):
        self.name, self.eq, self.a, self.b = name, eq, a, b

    def value(self, context):
        return self.a if getattr(context, self.name) == self.eq else self.b


def look(v):
    def f():
        if isinstance(v, float):
            x = frac(v)
            return {"t": "num", "n": x[0], "d": x[1]} if x else odd(v)
        return project(v)
    out, r = outcome(f)
    return r if out == "ok" else {"t": "odd", "s": "raises " + out}


def limit(q):
    return number(q[0]["n"], q[0]["d"]) if q else None


def validator(v):
    f = CHECK[v["fn"]]
    kw = {k: limit(v[m]) for k, m in (("min_value", "lo"), ("max_value", "hi")) if v[m]}
    return f(**kw) if kw else f


def choices(c):
    kw = {}
    if c["vs"] or c.get("full"):
        kw["validators"] = [validator(v) for v in c["vs"]]
    if c["df"] or c.get("full"):
        kw["explicit_defaulting_constants"] = list(c["df"])
    return Choices(*[constants.default if x["t"] == "default" else x["i"] if x["t"] == "int" else build_val(x) for x in c["cs"]], **kw)


def initial(i):
    if i["k"] == "ref":
        return OtherProperty(i["s"])
    if i["k"] == "by":
        return By(i["s"], build_val(i["eq"]), build_val(i["a"]), build_val(i["b"]))
    return build(i)


def run(case):
    types_for(case)
    chs, classes, objs, recs, kinds, ev, shared = [], [], [], [], {}, [], {}
    for op in case["ops"]:
        if tired():
            break
        k = op["op"]
        obs = {}
        for o, _ in objs:
            o.dirty = False

        def do():
            if k == "check":
                return validator(op["v"])(build(op["raw"]))
            if k == "choices":
                chs.append(choices(op["c"]))
                return str(chs[-1])
            if k == "choose":
                return chs[op["k"] - 1].validate(build(op["raw"]))
            if k == "class":
                d = {p["n"]: (unvalidated_property if p["free"] else validated_property)(p["n"], choices=chs[p["c"] - 1], initial=initial(p["init"])) for p in op["props"]}
                classes.append((type("Styled", (), d), [p["n"] for p in op["props"]]))
                return None
            if k == "new":
                cl, names = classes[op["c"] - 1]
                objs.append((cl(), names))
                objs[-1][0].dirty = False
                return None
            if k == "set":
                v = build(op["raw"])
                try:
                    setattr(objs[op["o"] - 1][0], op["p"], v)
                except ValueError as e:
                    s = str(e)
                    obs["msg"] = s if plain(s) else "odd"
                    raise
                return None
            if k == "del":
                return delattr(objs[op["o"] - 1][0], op["p"])
            if k == "short":
                return SHORT[op["fn"]](build(op["raw"]))
            if k == "record":
                name = op["cls"]
                if name in RECORD:
                    cl = RECORD[name]
                else:
                    key = (name, tuple(op["keys"]))
                    if key not in kinds:
                        kinds[key] = type(name, (wrappers.Shorthand,), {"VALID_KEYS": list(op["keys"])} if op["keys"] else {})
                    cl = kinds[key]
                recs.append(cl(**{n: build_val(v) for n, v in op["parts"]}))
                return None
            a, b = recs[op["r"] - 1], recs[op.get("s", op["r"]) - 1]
            if k == "same":
                x, y = a == b, a != b
                return x if x is (not y) else None
            if k == "spoil":
                d = a.to_dict()
                if op["how"] == "clear":
                    d.clear()
                else:
                    for n in list(d):
                        d[n] = "spoilt"
                return None
            raise AssertionError(k)

        obs["out"], r = outcome(do)
        if k == "check" and obs["out"] == "ValueError":
            try:
                do()
            except ValidationError:
                obs["out"] = "ValidationError"
            except Exception:
                pass
        if k in ("check", "choose") and obs["out"] == "ok":
            obs["val"] = look(r)
        if k == "choices":
            obs["text"] = r if obs["out"] == "ok" and isinstance(r, str) and plain(r) else "odd"
        if k == "set" and "msg" not in obs:
            obs["msg"] = ""
        if k == "short":
            obs["parts"] = []
            if obs["out"] == "ok":
                o2, p = outcome(lambda: [[n, look(v)] for n, v in r.items()])
                obs["parts"] = p if o2 == "ok" else [["raises", {"t": "odd", "s": o2}]]
        if k == "same":
            if obs["out"] == "ok" and not isinstance(r, bool):
                obs["out"] = "odd"
            obs["b"] = r if isinstance(r, bool) else False
        obs["dirty"] = [o.dirty is not False for o, _ in objs]
        obs["reads"] = []
        for o, names in objs:
            row = []
            for n in names:
                out, v = outcome(lambda: getattr(o, n))
                row.append(look(v) if out == "ok" else {"t": "raises", "s": out})
            obs["reads"].append(row)
        obs["recs"] = []
        for x in recs:
            out, p = outcome(lambda: [[n, look(v)] for n, v in x.to_dict().items()])
            out2, s = outcome(lambda: str(x))
            out3, at = outcome(lambda: [[n, look(getattr(x, n))] for n in type(x).VALID_KEYS if hasattr(x, n)])
            obs["recs"].append({"parts": p if out == "ok" else [["raises", {"t": "odd", "s": out}]], "str": s if out2 == "ok" and plain(s) else "raises " + out2,
                                "attrs": at if out3 == "ok" else [["raises", {"t": "odd", "s": out3}]]})
        ev.append({"op": op, "obs": obs})
    return {"id": case["id"], "ev": ev}


if __name__ == "__main__":
    with open(sys.argv[1]) as f, open(sys.argv[2], "w") as g:
        for line in f:
            if tired():
                break
            g.write(json.dumps(run(json.loads(line))) + "\n")
