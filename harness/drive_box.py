"""Executes histories of box operations on the real code.  usage: drive_box.py IN OUT"""
import json, re, sys
from fractions import Fraction

from colosseum.constants import AUTO
from colosseum.dimensions import Box
from nodes import kind
from proj import outcome, tired

AUTOINT, ODD = -999999999, 888888888
NAME = {"ct": "content_top", "cl": "content_left", "cw": "content_width", "ch": "content_height"}
for s, side in zip("trbl", ("top", "right", "bottom", "left")):
    NAME["m" + s], NAME["k" + s], NAME["p" + s], NAME["b" + s] = f"margin_{side}", f"collapse_{side}", f"padding_{side}", f"border_{side}_width"
STATE = {True: "T", False: "F", None: "N"}
VALUE = {v: k for k, v in STATE.items()}
EDGES = ("top", "right", "bottom", "left")


def lu(v):
    """A distance in 1/64 pixel."""
    if v is AUTO or (isinstance(v, str) and v == AUTO):
        return AUTOINT
    try:
        f = Fraction(v) * 64
    except (TypeError, ValueError, OverflowError):
        return ODD
    return int(f) if f.denominator == 1 and abs(f) < 10 ** 9 else ODD


def raw(v, kind):
    if v == AUTOINT:
        return AUTO
    if v % 64 == 0 and kind != "float":
        return v // 64
    return v / 64


# the engine places a box it makes through these; without them, histories end where a box is placed
PLACED = hasattr(Box, "_origin_top") and hasattr(Box, "_origin_left")


def fresh(cls):
    n = cls()
    n.children, n.layout = [], None
    return n


def get(obj, name):
    try:
        return lu(getattr(obj, name))
    except Exception:
        return ODD


def view(node):
    b = node.layout
    if b is None:
        return {"shown": False}
    d = {k: get(b, n) for k, n in NAME.items()}
    d["shown"] = True
    for o, c in (("ot", "top"), ("ol", "left")):
        x, y = get(b, "absolute_content_" + c), get(b, "content_" + c)
        d[o] = ODD if ODD in (x, y) else x - y
    try:
        d["dirty"] = STATE.get(b.dirty, "?")
    except Exception:
        d["dirty"] = "?"
    d["content"] = [get(b, "content_" + e) for e in EDGES] + [get(b, "content_width"), get(b, "content_height")]
    for x in ("padding", "border"):
        d[x] = [get(b, f"{x}_box_{e}") for e in EDGES] + [get(b, f"{x}_box_width"), get(b, f"{x}_box_height")]
        d["abs" + x] = [get(b, f"absolute_{x}_box_{e}") for e in EDGES]
    m = re.fullmatch(r"<Box \((\S+)x(\S+) @ (\S+),(\S+)\)>", str(outcome(lambda: repr(b))[1]))
    d["text"] = [lu(x) for x in m.groups()] if m else [ODD]
    d["abscontent"] = [get(b, "absolute_content_" + e) for e in EDGES]
    return d


def run(case):
    nodes = [fresh(kind(case)) for _ in case["par"]]
    for n, p in zip(nodes, case["par"]):
        if p:
            n.parent = nodes[p - 1]
            nodes[p - 1].children.append(n)
    for n in nodes:
        n.layout = Box(n)
    ev = []
    for op in case["ops"]:
        if op["op"] in ("origin", "anchor") and not PLACED:
            break
        n = nodes[op["n"] - 1]
        k = op["op"]

        def do():
            if k == "set":
                setattr(n.layout, NAME[op["f"]], raw(op["v"], op.get("as")))
            elif k == "origin":
                n.layout._origin_top = raw(op["t"], None)
                n.layout._origin_left = raw(op["l"], None)
            elif k == "anchor":
                n.layout._origin_top = n.parent.layout.absolute_content_top
                n.layout._origin_left = n.parent.layout.absolute_content_left
            elif k == "reset":
                n.layout.reset()
            elif k == "dirty":
                n.layout.dirty = VALUE[op["v"]]
            elif k == "move":
                n.parent.children.remove(n)
                n.parent = nodes[op["par"] - 1]
                n.parent.children.append(n)
            elif k == "visible":
                n.layout.visible = op["v"]
            elif k == "hide":
                n.layout = None
            elif k == "show":
                n.layout = Box(n)
        out = outcome(do)[0]
        ev.append({"op": op, "out": out, "obs": [view(x) for x in nodes]})
    return {"id": case["id"], "par": case["par"], "ev": ev}


def main():
    with open(sys.argv[1]) as f, open(sys.argv[2], "w") as g:
        for line in f:
            if tired():
                break
            g.write(json.dumps(run(json.loads(line))) + "\n")


if __name__ == "__main__":
    main()
