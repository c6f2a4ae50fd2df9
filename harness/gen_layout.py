"""Random documents and edit/layout histories (see spec/Layout.tla for their form)."""
import copy, random
from fractions import Fraction

import drive_edit

ODD = 888888888
AUTO, NONE = {"t": "auto"}, {"t": "none"}
NOINTR = {"rep": False, "w": ODD, "h": ODD, "rn": 0, "rd": 1}
SIDES = ["top", "right", "bottom", "left"]


def kw(s):
    return {"t": "kw", "s": s}


def ln(x, u="px"):
    f = Fraction(x)
    return {"t": "len", "n": f.numerator, "d": f.denominator, "u": u}


def length(r, percent=True, big=False, neg=False, vert=False):
    top = 700 if big else 60
    c = r.random()
    if c < 0.06:
        v = ln(r.choice([0, 0, 0, 1, Fraction(1, 64), Fraction(1, 128), Fraction(1, 100), 10 if not big else r.choice([1024, 640, 300, 3000, 9000])]))
    elif c < 0.40:
        v = ln(r.randrange(0, top))
    elif c < 0.55:
        v = ln(Fraction(r.randrange(1, top * 4), r.choice([2, 4, 5, 8, 10])))
    elif c < 0.75 and percent:
        v = ln(r.choice([5, 10, 25, 50, 75, 100, 33, Fraction(25, 2), Fraction(333, 10)]) if big else r.choice([1, 2, 5, 10, Fraction(5, 2), 7]), "%")
    elif c < 0.87:
        v = ln(r.choice([1, 2, 5, 10, 25, 50] if big else [1, 2, 3]), r.choice(["vw", "vh", "vmin", "vmax"]))
    else:
        v = ln(*r.choice([(12, "pt"), (Fraction(15, 2), "pt"), (1, "pc"), (2, "pc"), (Fraction(1, 4), "in"), (5, "mm"), (1, "cm")]))
        if big and r.random() < 0.5:
            v["n"] *= 5
    if neg and r.random() < 0.5:
        v["n"] = -v["n"]
    return v


def screen(r, std=None):
    w, h = r.choice([(1024, 768), (640, 480), (300, 200), (1000, 1000), (Fraction(1001, 2), 333)] if r.random() < 0.95 else [(0, 0), (1, 1), (0, 100), (100, 0), (3000, 10)])
    a = sorted(r.sample(range(0, 20), 3)) if r.random() < 0.5 else [1, 5, 10]
    dpi, dd = r.choice([(96, 1), (72, 1), (100, 1), (193, 2)])
    return {"dpi": dpi, "dd": dd, "w": int(w * 64), "h": int(h * 64), "thin": 64 * a[0], "medium": 64 * a[1], "thick": 64 * a[2],
            "std": std or r.choice(["HTML5", "HTML4"])}


def node(display, par=0):
    return {"par": par, "kids": [], "st": {"display": kw(display)}, "intr": dict(NOINTR)}


def intrinsic(r):
    c = r.random()
    w, h = 64 * r.randrange(0, 400), 64 * r.randrange(0, 300)
    if r.random() < 0.2:
        w += 16
        h += 48
    if c < 0.4:
        return {"rep": False, "w": w, "h": h, "rn": 0, "rd": 1}
    i = {"rep": True, "w": w if r.random() < 0.55 else ODD, "h": h if r.random() < 0.55 else ODD, "rn": 0, "rd": 1}
    if r.random() < 0.5:
        i["rn"], i["rd"] = r.choice([(1, 1), (2, 1), (3, 1)])
        if r.random() < 0.4 and (i["w"] != ODD or i["h"] != ODD):
            i["rn"], i["rd"] = r.choice([(1, 2), (3, 2)])
            for k in "wh":
                if i[k] != ODD:
                    i[k] -= i[k] % 128
    return i


FOCUS = {  # how likely each group of declarations is
    "C13": dict(width=.7, mw=.35, hm=.6, edge=.3, vm=.1, height=.1, rel=.05, rtl=.35, inline=0, none=.02),
    "C14": dict(width=.1, mw=.05, hm=.1, edge=.35, vm=.75, height=.25, rel=.05, rtl=.1, inline=.05, none=.12),
    "C15": dict(width=.1, mw=.05, hm=.1, edge=.35, vm=.45, height=.6, rel=.05, rtl=.1, inline=.15, none=.08),
    "C16": dict(width=.2, mw=.05, hm=.2, edge=.25, vm=.35, height=.3, rel=.6, rtl=.4, inline=.1, none=.05),
    "C17": dict(width=.4, mw=.05, hm=.45, edge=.4, vm=.4, height=.35, rel=.05, rtl=.1, inline=.8, none=.05),
    "C18": dict(width=.2, mw=.1, hm=.2, edge=.25, vm=.5, height=.2, rel=.1, rtl=.1, inline=.15, none=.25),
    "C19": dict(width=.25, mw=.1, hm=.2, edge=.3, vm=.4, height=.25, rel=.15, rtl=.1, inline=.15, none=.1),
    "C20": dict(width=.2, mw=.1, hm=.2, edge=.3, vm=.5, height=.35, rel=.08, rtl=.1, inline=.1, none=.05),
    "C21": dict(width=.5, mw=.3, hm=.45, edge=.7, vm=.4, height=.5, rel=.15, rtl=.1, inline=.15, none=.02),
}
FOCUS["C24"] = dict(FOCUS["C19"], none=.2, inline=.35)
FOCUS["C11"] = FOCUS["C16"]
FOCUS["C12"] = dict(width=.2, mw=.05, hm=.45, edge=.4, vm=.35, height=.3, rel=.35, rtl=.2, inline=.15, none=.3)


# declarations that have no bearing on the layout
INERT = [("visibility", ["hidden", "visible", "collapse"]), ("overflow", ["hidden", "scroll", "auto"]), ("clear", ["both", "left"]), ("z_index", [ln(3, "int"), AUTO]),
         ("text_align", ["center", "right"]), ("border_top_style", ["solid", "hidden"]), ("border_bottom_style", ["none", "dotted"]), ("border_left_style", ["none"]),
         ("color", ["red"]), ("border_top_color", ["blue"]), ("unicode_bidi", ["embed"]), ("text_indent", [ln(40), ln(10, "%")]), ("outline_width", ["thick", ln(30)]),
         ("outline_style", ["solid"]), ("border_collapse", ["collapse"]), ("white_space", ["pre"]), ("letter_spacing", [ln(5)]),
         ("float", ["none"]), ("position", ["static"]), ("direction", ["ltr"]), ("page_break_before", ["always"]), ("orphans", [ln(9, "int")])]


def inert(r):
    p, vs = r.choice(INERT)
    v = r.choice(vs)
    return p, (dict(NONE) if v == "none" else kw(v)) if isinstance(v, str) else dict(v)


def declare(r, f, st, inline, can_percent_height=False, root=False, lean=False):
    """Declarations for one node."""
    def p(k):
        return r.random() < f[k]
    if not inline:
        if p("width"):
            st["width"] = length(r, big=True)
        if p("mw"):
            st["min_width"] = length(r, big=True)
        if p("mw"):
            st["max_width"] = length(r, big=True)
        if p("rtl"):
            st["direction"] = kw("rtl")
        if p("height"):
            st["height"] = length(r, percent=can_percent_height, big=True)
        if p("height") and r.random() < 0.5:
            st["min_height"] = length(r, percent=root, big=True)
        if p("height") and r.random() < 0.5:
            st["max_height"] = length(r, percent=root, big=True)
    else:
        if p("width"):
            st["width"] = length(r, big=True)
        if p("height"):
            st["height"] = length(r, percent=False, big=True)
    for s in ("left", "right"):
        if p("hm"):
            st["margin_" + s] = AUTO if r.random() < 0.4 else length(r, neg=r.random() < 0.3, big=r.random() < 0.2)
    for s in ("top", "bottom"):
        if p("vm"):
            st["margin_" + s] = AUTO if r.random() < 0.1 else length(r, neg=r.random() < 0.1)
    for s in SIDES:
        if p("edge"):
            st["padding_" + s] = length(r)
        if p("edge"):
            st[f"border_{s}_width"] = kw(r.choice(["thin", "medium", "thick"])) if r.random() < 0.4 else length(r, percent=False)
    if p("rel"):
        st["position"] = kw("relative")
        for s in ("left", "right"):
            if r.random() < 0.6:
                st[s] = length(r, neg=True) if r.random() < 0.9 else dict(AUTO)
        for s in ("top", "bottom"):
            if r.random() < 0.6:
                st[s] = length(r, percent=root, neg=True) if r.random() < 0.9 else dict(AUTO)
    elif p("rel"):
        st[r.choice(SIDES)] = length(r, percent=False)       # offsets of a static box mean nothing
    if r.random() < 0.15:
        p, v = inert(r)
        st.setdefault(p, v)


def document(r, prop, most=7, percent_heights=True, kinds=False):
    f = FOCUS[prop]
    wide = r.random() < 0.3
    narrow = None
    if most >= 24 and r.random() < 0.7:      # all in one row, or one in another
        narrow = r.random() < 0.4
    nodes = [node("block")]
    declare(r, f, nodes[0]["st"], False, can_percent_height=percent_heights, root=True)
    if r.random() < 0.4:
        nodes[0]["st"] = {"display": kw("block")}
    kind = {1: None}           # what the children of a node are
    n = r.randrange(1 if narrow is None else most // 2, most + 1)
    tries = 0
    while len(nodes) < n and tries < 40 + most:
        tries += 1
        par = r.randrange(1, min(len(nodes), 3) + 1) if wide else r.randrange(max(1, len(nodes) - 3), len(nodes) + 1)
        if narrow is not None:
            par = len(nodes) if narrow else min(len(nodes), 2)
        pd = nodes[par - 1]
        if pd["intr"]["rep"] or kind[par] == "leaf":
            continue
        if kind[par] is None:
            kind[par] = "inline" if pd["st"]["display"]["t"] == "kw" and pd["st"]["display"].get("s") == "inline" or r.random() < f["inline"] else "block"
        inline = kind[par] == "inline"
        nd = node("inline" if inline else r.choices(["block", "list-item", "table"], [88, 8, 4])[0], par)
        table = nd["st"]["display"]["s"] == "table"        # only as a leaf
        ph = pd["st"].get("height")
        can = percent_heights and bool(ph) and ph["t"] == "len" and ph["u"] != "%"
        declare(r, f, nd["st"], inline, can_percent_height=can)
        if inline:
            nd["intr"] = intrinsic(r)
            i = nd["intr"]
            if i["rd"] == 2 and nd["st"].get("width", AUTO)["t"] != "auto":
                nd["st"]["width"] = ln(r.randrange(1, 200) * 2)
        elif r.random() < 0.1:                             # of no consequence to a block
            nd["intr"] = dict(intrinsic(r), rep=False)
        if r.random() < f["none"]:
            nd["st"]["display"] = dict(NONE)
        nd["inline"] = inline
        nodes.append(nd)
        k = len(nodes)
        nodes[par - 1]["kids"].append(k)
        kind[k] = "inline" if inline and r.random() < 0.3 else "leaf" if inline or table else None
    inlines = {k: nd.pop("inline", False) for k, nd in enumerate(nodes, 1)}
    doc = {"root": 1, "nodes": nodes}
    return (doc, inlines) if kinds else doc


WANT = {"C24": ["fresh", "inputs"], "C16": ["unshifted"], "C18": ["fresh", "pruned"], "C19": ["fresh", "inputs"], "C20": ["other"], "C11": ["derived"], "C12": ["derived"]}


def single(r, prop, most=7):
    doc = document(r, prop, most)
    std = None if prop == "C20" else "HTML4" if r.random() < 0.75 else "HTML5"
    return {"doc": doc, "ops": [{"op": "layout", "sc": screen(r, std), "want": WANT.get(prop, [])}]}


def history(r, prop, length_):
    """Edits and layouts of one document."""
    f = FOCUS[prop]
    # every node is of one kind for good
    doc, inline = document(r, prop, 7, percent_heights=False, kinds=True)
    spare = r.randrange(0, 3)
    for _ in range(spare):
        nd = node("block")
        declare(r, f, nd["st"], False)
        doc["nodes"].append(nd)
        inline[len(doc["nodes"])] = False
    start = copy.deepcopy(doc)
    cur = doc
    sc = screen(r)
    ops = []
    tidy = r.random() < 0.4
    ops_want = ["fresh", "pruned", "inputs"] if prop == "C18" else WANT.get(prop, [])

    def lay():
        ops.append({"op": "layout", "sc": dict(sc), "want": ops_want})
        if tidy:                                           # the caller notes that the layout is good
            ops.append({"op": "mark", "n": 1, "v": "F"})

    def under(k):
        s = [k]
        for m in cur["nodes"][k - 1]["kids"]:
            s += under(m)
        return s

    def fits(k, par):
        pd = cur["nodes"][par - 1]
        if pd["intr"]["rep"] or par in under(k) or pd["st"]["display"].get("s") == "table":
            return False
        if inline[par]:
            return inline[k]
        return all(inline[m] == inline[k] for m in pd["kids"] if m != k)

    def do(op):
        ops.append(op)
        drive_edit.edit(cur, op)
    if r.random() < 0.9:
        lay()
    n = len(doc["nodes"])
    while len(ops) < length_:
        k = r.randrange(1, n + 1)
        nd = cur["nodes"][k - 1]
        x = r.random()
        if x < 0.20:
            if nd["st"]["display"]["t"] == "none":
                v = kw("inline") if inline[k] else kw("block")
            elif k == 1 and r.random() < 0.7:
                continue
            else:
                v = dict(NONE)
            do({"op": "set", "n": k, "p": "display", "v": v})
        elif x < 0.45:
            st = {}
            declare(r, {q: 0.9 for q in f}, st, inline[k])
            p = r.choice(sorted(q for q in st if q not in ("float", "position") or st[q]["t"] == "kw"))
            if inline[k] and nd["intr"]["rd"] == 2 and p == "width":
                continue
            do({"op": "set", "n": k, "p": p, "v": st[p], "how": r.choice([None, "unit", "number", "item", "update", "copy"])})
        elif x < 0.55:
            c = sorted(p for p in nd["st"] if p != "display")
            if not c:
                continue
            do({"op": "del", "n": k, "p": r.choice(c)})
        elif x < 0.60 and inline[k] and not nd["kids"]:
            i = intrinsic(r)
            if i["rd"] == 2 and nd["st"].get("width", AUTO)["t"] != "auto":
                continue
            do({"op": "intr", "n": k, "v": i})
        elif x < 0.70 and k != 1:
            if nd["par"]:
                par = r.randrange(1, n + 1)
                if fits(k, par):
                    room = len([m for m in cur["nodes"][par - 1]["kids"] if m != k])
                    do({"op": "move", "n": k, "par": par, "at": r.randrange(1, room + 2)})
            else:
                par = r.randrange(1, n + 1)
                if fits(k, par):
                    do({"op": "attach", "n": k, "par": par, "at": r.randrange(1, len(cur["nodes"][par - 1]["kids"]) + 2)})
        elif x < 0.74 and k != 1 and nd["par"]:
            do({"op": "detach", "n": k})
        elif x < 0.77:
            sc.update(screen(r))
        elif x < 0.775:
            do({"op": "mark", "n": k, "v": r.choice("TFN")})
        elif x < 0.785:                                    # boxes hold nothing but the last layout
            do({"op": "tamper", "n": k, "f": r.choice(["ct", "cl", "cw", "ch", "mt", "mr", "mb", "ml", "kt", "kb", "kl", "kr", "bt", "bl", "pb", "pr"]), "v": 64 * r.randrange(0, 900)})
        elif x < 0.80:
            do({"op": "unbox", "n": k, "new": r.random() < 0.5} if r.random() < 0.6 else {"op": "unseen", "n": k, "v": r.random() < 0.5})
        elif x < 0.82 and not inline[k]:         # something the engine cannot lay out, for the time being
            p, v = r.choice([("float", kw("left")), ("position", kw("absolute")), ("position", kw("fixed")), ("display", kw("inline-block")), ("float", kw("right"))])
            old = nd["st"].get(p)
            if p == "display" and old["t"] == "none":
                continue
            do({"op": "set", "n": k, "p": p, "v": v})
            lay()
            if r.random() < 0.3:
                st = {}
                declare(r, {q: 0.9 for q in f}, st, False)
                q = r.choice(sorted(x for x in st if x not in ("position", "display")))
                do({"op": "set", "n": k, "p": q, "v": st[q]})
            do({"op": "set", "n": k, "p": p, "v": old} if old else {"op": "del", "n": k, "p": p})
        else:
            lay()
            if r.random() < 0.2:
                lay()
    lay()
    return {"doc": start, "ops": ops}


STRANGE = ["table-cell", "table-row", "inline-table", "table-caption", "table-column", "flex", "inline-flex", "grid", "inline-grid", "table-row-group"]


def refusals(r, prop, length_):
    """Features that cannot be laid out come and go."""
    doc, inline = document(r, prop, r.choice([1, 2, 4, 7]), percent_heights=False, kinds=True)
    start = copy.deepcopy(doc)
    sc = screen(r)
    ops, undo = [], []

    def do(op):
        ops.append(op)
        drive_edit.edit(doc, op)

    def lay():
        ops.append({"op": "layout", "sc": dict(sc), "want": WANT[prop]})
    if r.random() < 0.6:
        lay()
    while len(ops) < length_:
        k = r.randrange(1, len(doc["nodes"]) + 1)
        nd = doc["nodes"][k - 1]
        x = r.random()
        if x < 0.4:
            p, v = r.choice([("float", kw("left")), ("float", kw("right")), ("position", kw("absolute")), ("position", kw("fixed")), ("display", None), ("intr", None)])
            if p == "intr":
                if inline[k] or nd["intr"]["rep"]:
                    continue
                undo.append({"op": "intr", "n": k, "v": nd["intr"]})
                do({"op": "intr", "n": k, "v": dict(intrinsic(r), rep=True)})
                continue
            if p == "display":
                # only where no block would be next to it
                if nd["st"]["display"]["t"] == "none" or not (k == 1 or inline[k] or len(doc["nodes"][nd["par"] - 1]["kids"]) == 1):
                    continue
                if nd["kids"] and r.random() < 0.7:
                    continue
                v = kw("inline-block" if r.random() < 0.6 else r.choice(STRANGE))
            if any(u.get("p") == p and u["n"] == k for u in undo):
                continue
            old = nd["st"].get(p)
            undo.append({"op": "set", "n": k, "p": p, "v": old} if old else {"op": "del", "n": k, "p": p})
            do({"op": "set", "n": k, "p": p, "v": v})
        elif x < 0.6 and undo:
            do(undo.pop(r.randrange(len(undo))))
        elif x < 0.7:
            if nd["st"]["display"]["t"] != "none":
                if not any(u.get("p") == "display" and u["n"] == k for u in undo):
                    undo.append({"op": "set", "n": k, "p": "display", "v": nd["st"]["display"]})
                    do({"op": "set", "n": k, "p": "display", "v": dict(NONE)})
        elif x < 0.75:
            st = {}
            declare(r, {q: 0.9 for q in FOCUS[prop]}, st, inline[k])
            p = r.choice(sorted(q for q in st if q not in ("position", "float", "display")))
            if inline[k] and nd["intr"]["rd"] == 2 and p == "width":
                continue
            do({"op": "set", "n": k, "p": p, "v": st[p]})
        else:
            lay()
    if r.random() < 0.7:
        while undo:
            do(undo.pop())
    lay()
    return {"doc": start, "ops": ops}


def doc_of(*specs):
    """Documents by hand: (par, style, intrinsic or None)."""
    nodes = []
    for k, (par, st, intr) in enumerate(specs, 1):
        nodes.append({"par": par, "kids": [], "st": st, "intr": intr or dict(NOINTR)})
        if par:
            nodes[par - 1]["kids"].append(k)
    return {"root": 1, "nodes": nodes}


def findings(prop):
    """Documents that show the known findings."""
    B, R = {"display": kw("block")}, {"display": kw("block"), "position": kw("relative")}
    sc = {"dpi": 96, "w": 64 * 1024, "h": 64 * 768, "thin": 64, "medium": 320, "thick": 640, "std": "HTML4"}
    docs = {"C16": [doc_of((0, B, None), (1, dict(R, padding_top=ln(7), height=ln(20)), None), (1, B, None)),
                    doc_of((0, B, None), (1, dict(R, top=ln(10), height=ln(20)), None)),
                    doc_of((0, B, None), (1, dict(R, left={"t": "inherit"}), None)),
                    doc_of((0, dict(B, margin_left=ln(9)), None), (1, dict(R, left={"t": "inherit"}), None)),
                    doc_of((0, dict(B, left=ln(5)), None), (1, dict(R, left={"t": "inherit"}, right=ln(5)), None))],
            "C13": [doc_of((0, B, None), (1, dict(B, max_width=ln(100)), None)), doc_of((0, dict(B, width=ln(50)), None), (1, dict(B, min_width=ln(100)), None))],
            "C15": [doc_of((0, B, None), (1, dict(B, max_height=ln(10)), None), (2, dict(B, height=ln(100)), None))],
            "C17": [doc_of((0, B, None), (1, {"display": kw("inline")}, None)),
                    doc_of((0, B, None), (1, {"display": kw("inline"), "height": ln(50)}, {"rep": True, "w": ODD, "h": ODD, "rn": 2, "rd": 1}))],
            "C21": [doc_of((0, B, None), (1, dict(B, height=ln(50, "%")), None), (2, dict(B, height=ln(50, "%")), None)),
                    doc_of((0, dict(B, height=ln(50, "%")), None), (1, dict(B, height=ln(50, "%")), None))]}
    for k, d in enumerate(docs.get(prop, [])):
        yield {"id": f"finding-{k}", "doc": d, "ops": [{"op": "layout", "sc": sc}]}


def heights(r, prop):
    """Heights within heights: explicit, in percent, limited, of nothing; in boxes that are positioned or not."""
    B = {"display": kw("block")}
    specs = []
    for k in range(r.choice([2, 3, 3, 4])):
        st = dict(B)
        for p, chance in (("height", 0.8), ("min_height", 0.4), ("max_height", 0.25)):
            if r.random() < chance:
                st[p] = ln(r.choice([0, 10, 40, 50, 100, 150]), r.choice(["%", "px", "px"] if p == "height" else ["px"]))
        if r.random() < 0.35:
            st["position"] = kw("relative")
        if r.random() < 0.2:
            st[r.choice(["padding_top", "padding_bottom", "border_bottom_width", "margin_bottom"])] = ln(r.choice([3, 20]))
        specs.append((r.choice([k, k, max(1, k - 1)]) if k else 0, st, None))
    return {"doc": doc_of(*specs), "ops": [{"op": "layout", "sc": screen(r)}]}


def gen(prop, tier, seed, scale=1.0):
    r = random.Random(f"{seed}/layout/{prop}")
    yield from findings(prop)
    if prop in ("C15", "C21"):
        for k in range(600 if tier == "quick" else 20000):
            yield dict(heights(r, prop), id=f"heights-{k}")
    q = tier == "quick"
    histories = prop in ("C12", "C18", "C19", "C24")
    n = {True: (700 if histories else 3000), False: (10000 if histories else 60000)}[q]
    for k in range(int(n * scale)):
        c = refusals(r, prop, r.choice([3, 6, 12])) if prop == "C24" else history(r, prop, r.choice([5, 10, 20])) if histories and r.random() < 0.8 else single(r, prop, r.choice([2, 3, 4, 7]) if r.random() < 0.97 else 24)
        yield dict(c, id=f"random-{k}")
