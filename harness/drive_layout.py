"""Executes edit/layout histories on the real engine.  usage: drive_layout.py IN OUT

A case is {id, doc, ops}; doc and ops as in spec/Layout.tla, an op may carry "how" (how to write the value).
"""
import copy, json, os, sys, zlib
from fractions import Fraction

from colosseum.constants import HTML4, HTML5, MEDIUM, THICK, THIN
from colosseum.declaration import CSS
from colosseum.dimensions import Box, Size
from colosseum.engine import layout
from drive_edit import edit
from drive_box import NAME, ODD, VALUE, lu, view
from nodes import kind
from proj import UNIT, number, outcome, tired

FIELDS = ["ct", "cl", "cw", "ch", "mt", "mr", "mb", "ml", "kt", "kb", "bt", "br", "bb", "bl", "pt", "pr", "pb", "pl"]
NONE = dict({f: 0 for f in FIELDS}, shown=False, ot=0, ol=0)


class Display:
    def __init__(self, sc):
        self.become(sc)

    def become(self, sc):
        self.dpi, self.content_width, self.content_height = number(sc["dpi"], sc.get("dd", 1)), px(sc["w"]), px(sc["h"])
        self.sizes = {THIN: px(sc["thin"]), MEDIUM: px(sc["medium"]), THICK: px(sc["thick"])}

    def fixed_size(self, value):
        return self.sizes[value]


def px(x):
    f = Fraction(x, 64)
    return f.numerator if f.denominator == 1 else float(f)


def fresh(cls):
    n = cls()
    n.children = []
    n.layout = Box(n)
    n.intrinsic = Size(n)
    n.style = CSS().copy(n)
    return n


class Shared(dict):
    """Units that are made once and used again wherever the same length is declared."""
    def __missing__(self, key):
        n, d, u = key
        self[key] = x = number(n, d) * UNIT[u]
        return x


def value(v, how=None, pool=None):
    if v["t"] in ("auto", "inherit"):
        return v["t"]
    if v["t"] == "none":
        return None
    if v["t"] == "kw":
        return v["s"]
    if v["u"] == "int":
        return v["n"]
    if pool is not None and how != "number":
        return pool[(v["n"], v["d"], v["u"])]
    n = number(v["n"], v["d"])
    if how == "unit":
        return n * UNIT[v["u"]]
    if how == "number" and v["u"] == "px":
        return n
    return f"{n}{v['u']}"


def intrinsic(node, i):
    node.intrinsic.is_replaced = i["rep"]
    node.intrinsic.width = None if i["w"] == ODD else px(i["w"])
    node.intrinsic.height = None if i["h"] == ODD else px(i["h"])
    node.intrinsic.ratio = number(i["rn"], i["rd"]) if i["rn"] else None


def build(doc, cls, pool=None):
    nodes = [fresh(cls) for _ in doc["nodes"]]
    for node, d in zip(nodes, doc["nodes"]):
        for k in d["kids"]:
            node.children.append(nodes[k - 1])
            nodes[k - 1].parent = node
        for p, v in d["st"].items():
            setattr(node.style, p, value(v, None, pool))
        intrinsic(node, d["intr"])
    return nodes


def real_edit(nodes, op, pool=None):
    k = op["op"]
    node = nodes[op["n"] - 1]
    if k == "set":
        v = value(op["v"], op.get("how"), pool)
        if op.get("how") == "copy":
            node.style = node.style.copy(node)
        if op.get("how") == "item":
            node.style[op["p"].replace("_", "-")] = v
        elif op.get("how") == "update" and v is not None:
            node.style.update(**{op["p"]: v})
        else:
            setattr(node.style, op["p"], v)
    elif k == "del":
        delattr(node.style, op["p"])
    elif k == "unbox":
        node.layout = Box(node) if op["new"] else None
    elif k == "unseen":
        if node.layout is not None:
            node.layout.visible = op["v"]
    elif k == "mark":
        if node.layout is not None:
            node.layout.dirty = VALUE[op["v"]]
    elif k == "tamper":
        if node.layout is not None:
            setattr(node.layout, NAME[op["f"]], px(op["v"]))
    elif k == "intr":
        intrinsic(node, op["v"])
    if k in ("detach", "move"):
        node.parent.children.remove(node)
        node.parent = None
    if k in ("attach", "move"):
        par = nodes[op["par"] - 1]
        par.children.insert(op["at"] - 1, node)
        node.parent = par


def boxes(doc, nodes):
    out = []
    live = set()

    def walk(k):
        live.add(k)
        for m in doc["nodes"][k - 1]["kids"]:
            walk(m)
    walk(doc["root"])
    for k, node in enumerate(nodes, 1):
        if k not in live or node.layout is None:
            out.append(dict(NONE))
            continue
        b = node.layout
        d = {"shown": True}
        for f in FIELDS:
            try:
                d[f] = lu(getattr(b, NAME[f]))
            except Exception:
                d[f] = ODD
        try:
            d["ot"], d["ol"] = lu(b.absolute_content_top - b.content_top), lu(b.absolute_content_left - b.content_left)
        except Exception:
            d["ot"] = d["ol"] = ODD
        out.append(d)
    return out


def perform(doc, nodes, sc, display=None):
    display = display or Display(sc)
    display.become(sc)
    out, _ = outcome(lambda: layout(display, nodes[doc["root"] - 1], standard=HTML5 if sc["std"] == "HTML5" else HTML4))
    return {"out": out, "boxes": boxes(doc, nodes) if out == "ok" else []}


class Pristine:
    """Lays out documents in processes in which nothing was ever laid out."""
    def __init__(self):
        (ar, aw), (br, bw) = os.pipe(), os.pipe()
        self.pid = os.fork()
        if self.pid:
            os.close(ar), os.close(bw)
            self.ask, self.answer = os.fdopen(aw, "w"), os.fdopen(br)
            return
        os.close(aw), os.close(br)
        for line in os.fdopen(ar):
            pid = os.fork()
            if not pid:
                case = json.loads(line)
                out, nodes = outcome(lambda: build(case["doc"], kind(case), Shared() if case["pool"] else None))
                text = json.dumps(perform(case["doc"], nodes, case["sc"]) if out == "ok" else {"out": out, "boxes": []})
                with os.fdopen(bw, "w") as f:
                    f.write(text + "\n")
                os._exit(0)
            if os.waitpid(pid, 0)[1]:
                os.write(bw, b'{"out": "died", "boxes": []}\n')
        os._exit(0)

    def lay(self, case, doc, sc, pool):
        self.ask.write(json.dumps({"id": case["id"], "doc": doc, "sc": sc, "pool": pool is not None}) + "\n")
        self.ask.flush()
        return json.loads(self.answer.readline())


def inputs(nodes):
    text = []
    for k, n in enumerate(nodes):
        i = n.intrinsic
        try:
            items = sorted((a, str(b), type(b).__name__) for a, b in n.style.items())
        except Exception as e:
            items = type(e).__name__
        text.append([k, [nodes.index(c) for c in n.children], nodes.index(n.parent) if n.parent is not None else -1, items,
                     [repr(x) for x in (i.width, i.height, i.exact_width, i.exact_height, i.ratio, i.is_replaced)]])
    return "".join(ch if ch not in '"\\' else "'" for ch in json.dumps(text))


def pruned(doc):
    d = copy.deepcopy(doc)
    for n in d["nodes"]:
        n["kids"] = [k for k in n["kids"] if d["nodes"][k - 1]["st"].get("display", {}).get("t") != "none"]
    return d


def unshifted(doc):
    d = copy.deepcopy(doc)
    for n in d["nodes"]:
        for p in ("left", "right", "top", "bottom"):
            n["st"].pop(p, None)
    return d


def run(case, pristine):
    doc = copy.deepcopy(case["doc"])
    cls = kind(case)
    pool = Shared() if zlib.crc32(case["id"].encode()) % 3 == 0 else None
    out, nodes = outcome(lambda: build(doc, cls, pool))
    if out != "ok":
        return {"id": case["id"], "doc": case["doc"], "ev": [{"op": "build", "n": 0, "out": out}]}
    ev = []
    display = Display(case["ops"][0]["sc"]) if case["ops"][0]["op"] == "layout" and zlib.crc32(case["id"].encode()) % 2 else None      # one display throughout
    for op in case["ops"]:
        if tired():
            break
        e = dict(op)
        if op["op"] == "layout":
            sc, want = op["sc"], op.get("want", [])
            e["n"] = 0
            before = inputs(nodes) if "inputs" in want else None
            obs = perform(doc, nodes, sc, display)
            if before is not None:
                obs["inputs"] = [before, inputs(nodes)]
            if "derived" in want and obs["out"] == "ok":
                obs["derived"] = [view(n) for n in nodes]
            if obs["out"] != "ok":      # what cannot be laid out cannot be compared
                want = ()
            if "fresh" in want:
                obs["fresh"] = pristine.lay(case, doc, sc, pool)
            if "pruned" in want and doc["nodes"][doc["root"] - 1]["st"].get("display", {}).get("t") != "none":
                d = pruned(doc)
                obs["pruned"] = perform(d, build(d, cls, pool), sc)
            if "other" in want:
                obs["other"] = perform(doc, build(doc, cls, pool), dict(sc, std="HTML4" if sc["std"] == "HTML5" else "HTML5"))
            if "unshifted" in want:
                d = unshifted(doc)
                obs["unshifted"] = perform(d, build(d, cls, pool), sc)
            e["obs"] = obs
        else:
            e["out"] = outcome(lambda: real_edit(nodes, op, pool))[0]
            edit(doc, op)
        e.pop("want", None)
        e.pop("how", None)
        ev.append(e)
    return {"id": case["id"], "doc": case["doc"], "ev": ev}


if __name__ == "__main__":
    pristine = Pristine()
    with open(sys.argv[1]) as f, open(sys.argv[2], "w") as g:
        for line in f:
            if tired():
                break
            g.write(json.dumps(run(json.loads(line), pristine)) + "\n")
