"""Executes histories of style operations on the real code and records what can be observed after each.

usage: drive_style.py IN OUT     IN: one history per line {"id", "pars", "ops"}; OUT: one trace per line
"""
import json, sys

from colosseum.declaration import CSS
from colosseum.dimensions import Box, Size
from colosseum.shapes import Rect
from colosseum.wrappers import BorderSpacing, Shorthand, Uri
from nodes import kind
from proj import MUTATIONS, attempt, build as real, outcome, project, project_safe, spoil, tired, types_for

NAMES = json.load(open(__file__.rsplit("/", 1)[0] + "/names.json"))


def fresh(cls):
    n = cls()
    n.children, n.style = [], None
    n.intrinsic = Size(n)
    n.layout = Box(n)
    return n


DIRTY = {True: "T", False: "F", None: "N"}


def flag(f):
    try:
        v = f()
    except Exception as e:
        return type(e).__name__
    return DIRTY.get(v, "?") if v is None or isinstance(v, bool) else "?"


def reads(o):
    return {n: project_safe(lambda: getattr(o, n)) for n in NAMES}


EFF0 = reads(CSS())


def views(o):
    return attempt(o.keys)[1] or [], attempt(o.items)[1] or []


def observe_obj(o, handed=None):
    now = reads(o)
    keys, items = handed or views(o)
    diff = []
    for n in NAMES:
        h = n.replace("_", "-")
        if project_safe(lambda: o[n]) != now[n] or project_safe(lambda: o[h]) != now[n]:
            diff.append(n)
    out, s = attempt(lambda: str(o))
    return {"eff": [[n, now[n]] for n in NAMES if now[n] != EFF0[n]],
            "keys": sorted(keys),
            "items": [[n, project(v)] for n, v in sorted(items, key=lambda x: x[0])],
            "str": s if out == "ok" else "raises " + out,
            "itemdiff": diff}


def tamper(o, n):
    """Try to change what was handed out."""
    v = getattr(o, n)
    if isinstance(v, Shorthand):
        for k in list(vars(v)):
            attempt(lambda: setattr(v, k, "tampered"))
        for k in v.VALID_KEYS:
            attempt(lambda: setattr(v, k, None))
        attempt(lambda: v.to_dict().clear())
    elif isinstance(v, list):
        for how in sorted(MUTATIONS):
            attempt(lambda: MUTATIONS[how](v))
    elif isinstance(v, (Rect, BorderSpacing, Uri)):
        for k in ("top", "right", "bottom", "left", "horizontal", "vertical", "url"):
            if hasattr(v, k):
                attempt(lambda: setattr(v, k, 77))
    for f in (o.items, o.keys):
        out, r = attempt(f)
        for g in (lambda: r.clear(), lambda: r.append(("width", "1px")), lambda: r.add("width")):
            attempt(g)


def intr_value(v):
    return {"none": None, "bool": v.get("b"), "num": v.get("i")}[v["t"]]


def run(case):
    types_for(case)
    nodes = []
    for p in case["pars"]:
        n = fresh(kind(case))
        if p:
            n.parent = nodes[p - 1]
            n.parent.children.append(n)
        nodes.append(n)
    objs, ev, given = [], [], []

    def build(raw):
        given.append(real(raw))
        return given[-1]

    def passed(op):
        """The operation that hands on a value read elsewhere: the very object, described for the specification."""
        src, held = op["from"], []
        out, _ = attempt(lambda: held.append(getattr(objs[src["o"] - 1], src["n"])))
        v = project(held[0]) if held else {"t": "odd"}
        if v["t"] == "kw":
            raw = {"k": "str", "s": v["s"]}
        elif v["t"] == "none":
            raw = {"k": "none"}
        elif v["t"] == "int":
            raw = {"k": "int", "i": v["i"]}
        elif v["t"] in ("default", "len", "rgb", "hsl", "rect", "spacing", "quotes", "cursor") and not (op["n"] == "quotes" and v["t"] in ("cursor", "spacing", "rect")):
            raw = {"k": "val", "v": v}
        else:
            return {"op": "getitem", "o": op["o"], "n": "color"}
        if src.get("beside"):
            raw, held[0] = {"k": "tuple", "p": [raw, src["beside"]]}, (held[0], real(src["beside"]))
        handed[0] = held[0]
        return {"op": "set", "o": op["o"], "n": op["n"], "raw": raw, "passed": True}
    handed = [None]

    def do(op):
        k = op["op"]
        if k == "new":
            objs.append(CSS(**{x["n"]: build(x["raw"]) for x in op["items"]}))
        elif k == "set":
            setattr(objs[op["o"] - 1], op["n"], handed[0] if op.get("passed") else build(op["raw"]))
        elif k == "setitem":
            objs[op["o"] - 1][op["n"]] = build(op["raw"])
        elif k == "del":
            delattr(objs[op["o"] - 1], op["n"])
        elif k == "delitem":
            del objs[op["o"] - 1][op["n"]]
        elif k == "getitem":
            objs[op["o"] - 1][op["n"]]
        elif k == "update":
            objs[op["o"] - 1].update(**{x["n"]: build(x["raw"]) for x in op["items"]})
        elif k == "copy":
            n = nodes[op["node"] - 1] if op["node"] else None
            o = objs[op["o"] - 1]
            new = (o.copy(n) if len(objs) % 2 else o.copy(node=n)) if n is not None or len(ev) % 2 else o.copy()
            if n is not None:
                n.style = new
            objs.append(new)
        elif k == "dirty":
            nodes[op["node"] - 1].layout.dirty = {"T": True, "F": False, "N": None}[op["val"]]
        elif k == "intr":
            setattr(nodes[op["node"] - 1].intrinsic, op["attr"], intr_value(op["v"]))
        elif k == "spoil":
            for x in given:
                spoil(x)
        elif k == "tamper":
            attempt(lambda: tamper(objs[op["o"] - 1], op["n"]))
        elif k == "visible":
            if nodes[op["node"] - 1].layout is not None:
                nodes[op["node"] - 1].layout.visible = op["val"]
        elif k == "reparent":
            n = nodes[op["node"] - 1]
            if n.parent is not None:
                n.parent.children.remove(n)
            n.parent = nodes[op["par"] - 1] if op["par"] else None
            if n.parent is not None:
                n.parent.children.append(n)
        elif k == "hide":
            nodes[op["node"] - 1].layout = None
        elif k == "show":
            if nodes[op["node"] - 1].layout is None:
                nodes[op["node"] - 1].layout = Box(nodes[op["node"] - 1])
        else:
            raise AssertionError(k)

    last = []

    def note(now, j):
        """Refer to the event where a declaration last looked different, instead of repeating it."""
        out = []
        for k, x in enumerate(now):
            if k < len(last) and last[k][1] == x:
                out.append({"at": last[k][0]})
            else:
                last[k:k + 1] = [(j, x)]
                out.append(dict(x, at=j))
        return out

    def observe():
        handed = [views(o) for o in objs]      # all of them at once: one must not be another
        return {"objs": [observe_obj(o, v) for o, v in zip(objs, handed)], "odirty": [flag(lambda: o.dirty) for o in objs],
                "dirty": ["X" if n.layout is None else flag(lambda: n.layout.dirty) for n in nodes],
                "idirty": [flag(lambda: n.intrinsic.dirty) for n in nodes]}

    for op in case["ops"]:
        if "from" in op:
            op = passed(op)
        out, _ = outcome(lambda: do(op))
        unseen = len(ev) + 1 < case.get("from", 0) or (len(ev) + 1) % case.get("every", 1)
        if out != "Hung" and unseen and len(ev) + 1 < len(case["ops"]):
            ev.append({"op": op, "obs": {"unseen": out}})
            continue
        seen, obs = outcome(observe)
        if seen != "ok":
            obs = {"objs": [], "odirty": [], "dirty": [], "idirty": []}
            out = out + " then " + seen
        obs["out"], obs["objs"] = out, note(obs["objs"], len(ev) + 1)
        if op["op"] == "new" and not op["items"] and out == "ok":
            obs["full"] = [[n, v] for n, v in reads(objs[-1]).items()]
        ev.append({"op": op, "obs": obs})
        if seen != "ok" or out == "Hung":
            break
    return {"id": case["id"], "pars": case["pars"], "ev": ev}


if __name__ == "__main__":
    with open(sys.argv[1]) as f, open(sys.argv[2], "w") as g:
        for line in f:
            if tired():
                break
            g.write(json.dumps(run(json.loads(line))) + "\n")
