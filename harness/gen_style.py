"""Histories of style operations.  gen(prop, tier, seed) yields {"id", "pars", "ops"}."""
import itertools, json, os, random

from rawpool import ALL, FAM, KEYWORDS, RELEVANT, S, I, F, T, L, V, length

NAMES = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "names.json")))
SIDED = ["margin", "padding", "border_width", "border_style", "border_color"]
SHORT = ["outline", "border_top", "border_right", "border_bottom", "border_left", "border"]
LONG = [n for n in NAMES if n not in SIDED + SHORT]
TREES = [[0], [0, 1], [0, 1, 1], [0, 1, 2], [0, 1, 2, 1], [0, 0, 1, 2, 3], [0, 1, 2, 3, 4, 5], [0, 1, 1, 1, 1, 2, 5]]
INTR = ["width", "height", "exact_width", "exact_height", "ratio", "is_replaced"]


def spell(rng, n):
    s = n.replace("_", "-")
    r = rng.random()
    if r < 0.4:
        return s
    if r < 0.8:
        return n
    return "".join(rng.choice("-_") if ch == "_" else ch for ch in n)


BADNAMES = ["", "nope", "margin-topp", "_margin_top", "Margin-Top", "margin top", "update", "dirty", "font-size", "margin--top", "_node", "keys", "grid_", "border-top-radius"]


def apt(n, raw):
    """Compound values are lists, and quotes take lists: whether a cursor is one is nobody's concern."""
    return not (n == "quotes" and raw["k"] == "val" and raw["v"]["t"] in ("cursor", "spacing", "rect"))


def pick(rng, n):
    fams = RELEVANT.get(n, ("keyword",))
    while True:
        raw = rng.choice(FAM[rng.choice(fams)]) if rng.random() < 0.80 else rng.choice(ALL)
        if apt(n, raw):
            return raw


VALID_HINT = {}


def good(rng, n):
    """A raw that is probably valid for n (the specification decides)."""
    pos = {"margin": ["number", "lengthtext", "tuple"], "padding": ["number", "lengthtext"], "border_width": ["number", "tuple"],
           "border_style": ["bstyle"], "border_color": ["color"]}
    if n in SHORT:
        return rng.choice(FAM["shorthand"])
    if n.endswith("_style"):
        return S(rng.choice(["solid", "dashed", "none", "double", "hidden", "ridge"]))
    if n.endswith("color"):
        return rng.choice(FAM["color"])
    if n in pos:
        return rng.choice(FAM[pos[n][rng.randrange(len(pos[n]))]])
    fams = RELEVANT.get(n)
    if fams:
        fam = [f for f in fams if not f.startswith("no") or f == "number"]
        return rng.choice(FAM[rng.choice(fam[:3])])
    return S(rng.choice(KW.get(n, ["auto"])))


KW = {"display": ["none", "block", "inline", "list-item", "inline-block", "table", "inline-table", "table-cell", "flex", "inline-grid"], "position": ["static", "relative", "absolute", "fixed"], "float": ["left", "right", "none"],
      "clear": ["left", "both", "none"], "direction": ["ltr", "rtl"], "unicode_bidi": ["normal", "embed", "bidi-override"], "overflow": ["visible", "hidden", "inherit"],
      "visibility": ["visible", "hidden", "collapse"], "page_break_before": ["auto", "always", "left"], "page_break_after": ["auto", "avoid", "right"],
      "page_break_inside": ["auto", "avoid", "inherit"], "text_align": ["left", "right", "center", "justify", "inherit"], "text_decoration": ["none", "underline", "blink"],
      "text_transform": ["none", "uppercase"], "white_space": ["normal", "pre", "nowrap"], "caption_side": ["top", "bottom"], "table_layout": ["auto", "fixed"],
      "border_collapse": ["collapse", "separate"], "empty_cells": ["show", "hide"]}
FOCUS = ["color", "direction", "text_align", "border_color", "border_top_color", "border_left_color", "border", "border_top", "border_left", "border_style", "border_width",
         "border_top_style", "border_top_width", "margin", "margin_top", "margin_left", "padding", "padding_bottom", "outline", "outline_color", "outline_width", "display",
         "width", "min_height", "max_width", "clip", "border_spacing", "quotes", "cursor", "z_index", "orphans", "background_color", "letter_spacing", "float"]


def a_name(rng):
    return rng.choice(FOCUS) if rng.random() < 0.6 else rng.choice(NAMES)


def op_item(rng, o, n=None):
    """One declaration-changing (or refused) operation on object o."""
    n = n or a_name(rng)
    raw = good(rng, n) if rng.random() < 0.7 else pick(rng, n)
    r = rng.random()
    if r < 0.35:
        return {"op": "set", "o": o, "n": n, "raw": raw}
    if r < 0.50:
        return {"op": "setitem", "o": o, "n": spell(rng, n), "raw": raw}
    if r < 0.60:
        return {"op": "del", "o": o, "n": n}
    if r < 0.70:
        return {"op": "delitem", "o": o, "n": spell(rng, n)}
    if r < 0.92:
        k = rng.choice([0, 1, 1, 2, 3])
        items, used = [], set()
        for _ in range(k):
            m = spell(rng, a_name(rng)) if rng.random() < 0.96 else rng.choice([b for b in BADNAMES])
            if m in used:
                continue
            used.add(m)
            m2 = m.replace("-", "_")
            rw = {"k": "none"} if rng.random() < 0.2 else (good(rng, m2) if rng.random() < 0.8 and m2 in NAMES else pick(rng, m2))
            items.append({"n": m, "raw": rw})
        return {"op": "update", "o": o, "items": items}
    m = rng.choice(BADNAMES) if rng.random() < 0.6 else spell(rng, n)
    kind = rng.choice(["setitem", "delitem", "getitem"])
    op = {"op": kind, "o": o, "n": m}
    if kind == "setitem":
        op["raw"] = raw
    return op


NEW = {"op": "new", "items": []}


def reparent(rng, now):
    """Move a node elsewhere (now: the parents as they are, updated), or nothing."""
    k = rng.randint(1, len(now))
    p = rng.choice([0] + list(range(1, len(now) + 1)))
    q = p
    while q and q != k:
        q = now[q - 1]
    if q == k or p == now[k - 1]:
        return []
    now[k - 1] = p
    return [{"op": "reparent", "node": k, "par": p}]


def history(rng, id, length=14, pars=None, objs=2, copies=0.12, dirties=0.1, names=None):
    pars = rng.choice(TREES) if pars is None else pars
    boxed, now = [True] * len(pars), list(pars)
    ops, n, free = [NEW], 1, list(range(1, len(pars) + 1))
    if rng.random() < 0.5:
        k = rng.choice([1, 2, 4])
        ms = rng.sample(FOCUS, k)
        ops = [{"op": "new", "items": [{"n": spell(rng, m), "raw": good(rng, m)} for m in ms]}]
    # ops on an object that failed to be constructed would be meaningless: always start from an empty one as well
    ops = [NEW] + ops[(0 if ops[0] is not NEW else 1):]
    for nd in free:
        ops.append({"op": "copy", "o": 1, "node": nd})
    base = len(ops)
    nobj = 1 + len(free)
    if len(ops) > 1 and ops[1]["op"] == "new":
        pass
    while len(ops) < base + length:
        r = rng.random()
        if r < copies and nobj < 6:
            ops.append({"op": "copy", "o": rng.randint(1, nobj), "node": rng.choice([0] + free)})
            nobj += 1
        elif r < copies + dirties:
            ks = [k for k in free if boxed[k - 1]]
            q = rng.random()
            if q < 0.6 and ks:
                ops.append({"op": "dirty", "node": rng.choice(ks), "val": rng.choice("FFFFNT")})
            elif q < 0.72:
                ops.append(intr(rng, rng.choice(free)))
            elif q < 0.76:
                ops.append({"op": "visible", "node": rng.choice(free), "val": rng.random() < 0.4})
            elif q < 0.84:
                ops += reparent(rng, now)
            elif q < 0.9:
                k = rng.choice(free)
                boxed[k - 1] = False
                ops.append({"op": "hide", "node": k})
            else:
                k = rng.choice(free)
                boxed[k - 1] = True
                ops.append({"op": "show", "node": k})
        elif r > 0.97:
            ops.append({"op": "spoil"})
        elif r > 0.93:
            ops.append({"op": "tamper", "o": rng.randint(1, nobj), "n": rng.choice(names) if names else rng.choice(SHORT + SIDED + ["cursor", "quotes", "clip", "border_spacing"])})
        else:
            ops.append(op_item(rng, rng.randint(1, nobj), rng.choice(names) if names else None))
    return {"id": id, "pars": pars, "ops": ops, "every": rng.choice([1, 1, 1, 2, 5, 100])}


def intr(rng, node):
    a = rng.choice(INTR)
    v = {"t": "bool", "b": rng.random() < 0.5} if a.startswith("exact") or a == "is_replaced" else rng.choice([{"t": "none"}, {"t": "num", "i": 0}, {"t": "num", "i": 3}, {"t": "num", "i": 40}])
    return {"op": "intr", "node": node, "attr": a, "v": v}


def fix_objects(case):
    """'new' with items may be refused, so object numbers after it are unknown: keep it only as the last object user."""
    return case


def chunks(xs, k):
    xs = list(xs)
    for j in range(0, len(xs), k):
        yield xs[j:j + k]


def every_value(tier, rng):
    """Every property offered every raw of the pool, from a fresh declaration and from one that declares things."""
    n = 0
    for name in NAMES:
        for part in chunks(ALL, 40):
            n += 1
            ops = [NEW, {"op": "copy", "o": 1, "node": 1}, {"op": "dirty", "node": 1, "val": "F"}]
            for raw in part:
                if not apt(name, raw):
                    continue
                ops.append({"op": "set", "o": 2, "n": name, "raw": raw})
                ops.append({"op": "dirty", "node": 1, "val": "F"})
            yield {"id": f"value-{name}-{n}", "pars": [0], "ops": ops}


def near_keywords(tier, rng):
    """Texts that are almost keywords."""
    ways = [str.upper, str.title, lambda k: k + " ", lambda k: " " + k, lambda k: k.replace("-", "_") if "-" in k else k + "-", lambda k: k[:-1], lambda k: k + k[-1],
            lambda k: k + " !important", lambda k: k + ";", lambda k: "\t" + k, lambda k: k.replace("-", "") if "-" in k else "-" + k, lambda k: k + " " + k,
            lambda k: "'" + k + "'", lambda k: k[0].upper() + k[1:]]
    for name in NAMES:
        near = [S(w(k)) for k in KEYWORDS for w in (rng.sample(ways, 1) if tier == "quick" else ways)]
        for j, part in enumerate(chunks(near, 40)):
            ops = [NEW, {"op": "copy", "o": 1, "node": 1}, {"op": "set", "o": 2, "n": name, "raw": good(rng, name)}, {"op": "dirty", "node": 1, "val": "F"}]
            yield {"id": f"near-{name}-{j}", "pars": [0], "ops": ops + [{"op": "set", "o": 2, "n": name, "raw": raw} for raw in part]}


def after_state(rng, tier):
    """Refusals (and acceptances) in declarations that already declare much."""
    for name in NAMES:
        for rep in range(2 if tier == "quick" else 12):
            ops = [NEW, {"op": "copy", "o": 1, "node": 1}]
            for m in rng.sample(FOCUS, 6) + [name]:
                ops.append({"op": "set", "o": 2, "n": m, "raw": good(rng, m)})
            for k in range(8):
                ops.append({"op": "dirty", "node": 1, "val": "F"})
                ops.append({"op": rng.choice(["set", "set", "setitem"]), "o": 2, "n": name, "raw": {"k": "none"} if k == 5 else pick(rng, name)})
            yield {"id": f"after-{name}-{rep}", "pars": [0], "ops": ops}


def set_then_others(rng, tier):
    """Each property declared, then an unrelated or dependent one changed, then deleted."""
    for name in NAMES:
        for rep in range(2 if tier == "quick" else 12):
            ops = [NEW]
            for m in [name, rng.choice(FOCUS), rng.choice(NAMES), name, rng.choice(FOCUS)]:
                ops.append({"op": "set", "o": 1, "n": m, "raw": good(rng, m)})
            ops.append({"op": "del", "o": 1, "n": name})
            ops.append({"op": "set", "o": 1, "n": "color", "raw": rng.choice(FAM["color"])})
            ops.append({"op": "set", "o": 1, "n": "direction", "raw": S(rng.choice(["ltr", "rtl"]))})
            ops.append({"op": "del", "o": 1, "n": rng.choice(["color", "direction"])})
            ops.append({"op": "set", "o": 1, "n": name, "raw": good(rng, name)})
            ops.append({"op": "set", "o": 1, "n": "border_color", "raw": rng.choice([S("red"), T(S("red"), S("blue")), S("inherit")])})
            ops.append({"op": "del", "o": 1, "n": "border_color"})
            ops.append({"op": "update", "o": 1, "items": [{"n": spell(rng, name), "raw": {"k": "none"}}]})
            yield {"id": f"dep-{name}-{rep}", "pars": [], "ops": ops}


SIDEVALS = {"margin": [I(1), S("auto"), S("2%"), S("bad")], "padding": [I(1), S("2em"), I(0), S("auto")], "border_width": [I(1), S("thin"), I(0), S("5%x")],
            "border_style": [S("solid"), S("none"), S("double"), S("bad")], "border_color": [S("red"), S("#123"), S("transparent"), S("bad")]}
PARTS = {"w": [S("3px"), S("thick"), I(2), S("0")], "s": [S("solid"), S("none"), S("ridge")], "c": [S("red"), S("#abc"), V(t="rgb", r=9, g=8, b=7, an=1, ad=1)],
         "x": [S("bad"), S("auto"), S("10%%")]}


def sides(tier, rng):
    for name in SIDED:
        vals = SIDEVALS[name]
        combos = [T(*c) for k in range(0, 6) for c in (itertools.product(vals, repeat=k) if k < 4 else
                  [tuple(rng.choice(vals[:3] if rng.random() < 0.8 else vals) for _ in range(k)) for _ in range(60)])]
        combos += vals
        rng.shuffle(combos)
        if tier == "quick":
            combos = combos[:110]
        for k, part in enumerate(chunks(combos, 20)):
            ops = [NEW, {"op": "copy", "o": 1, "node": 1}]
            sidenames = [n for n in LONG if n.startswith(name.split("_")[0]) and (("_" not in name) or n.endswith("_" + name.split("_")[1]))]
            for raw in part:
                q = rng.random()
                if q < 0.25:
                    m = rng.choice(sidenames)
                    ops.append({"op": "set", "o": 2, "n": m, "raw": good(rng, m)})
                elif q < 0.35:
                    ops.append({"op": rng.choice(["del", "delitem"]), "o": 2, "n": rng.choice(sidenames + [name])})
                elif q < 0.45 and name.startswith("border"):
                    m = rng.choice(["border", "border_top", "border_left"])
                    ops.append({"op": "set", "o": 2, "n": m, "raw": good(rng, m)})
                ops.append({"op": "dirty", "node": 1, "val": "F"})
                ops.append(rng.choice([{"op": "set", "o": 2, "n": name, "raw": raw}, {"op": "setitem", "o": 2, "n": spell(rng, name), "raw": raw},
                                       {"op": "update", "o": 2, "items": [{"n": spell(rng, name), "raw": raw}]}]))
            yield {"id": f"sides-{name}-{k}", "pars": [0], "ops": ops}


def shorts(tier, rng):
    for name in SHORT:
        pats = [p for k in (0, 1, 2, 3, 4) for p in itertools.product("wscx", repeat=k)]
        pats = [p for p in pats if len(p) <= 2 or len(set(p)) == len(p) or rng.random() < 0.25]
        rng.shuffle(pats)
        if tier == "quick":
            pats = pats[:70]
        for k, part in enumerate(chunks(pats, 12)):
            ops = [NEW, {"op": "copy", "o": 1, "node": 1}]
            longs = [n for n in LONG if n.startswith("outline" if name == "outline" else "border_") and n not in ("border_collapse", "border_spacing")]
            for pat in part:
                parts = [rng.choice(PARTS[c]) for c in pat]
                if name == "outline":
                    parts = [S("invert") if rng.random() < 0.1 and c == "c" else x for c, x in zip(pat, parts)]
                if all(x["k"] == "str" for x in parts) and rng.random() < 0.7:
                    raw = S(rng.choice([" ", "  "]).join(x["s"] for x in parts))
                else:
                    raw = (T if rng.random() < 0.5 else L)(*parts)
                q = rng.random()
                if q < 0.4:
                    m = rng.choice(longs)
                    ops.append({"op": "set", "o": 2, "n": m, "raw": good(rng, m)})
                elif q < 0.5:
                    ops.append({"op": "del", "o": 2, "n": rng.choice(longs)})
                elif q < 0.6:
                    m = rng.choice(SHORT)
                    ops.append({"op": "set", "o": 2, "n": m, "raw": good(rng, m)})
                elif q < 0.7:
                    ops.append({"op": rng.choice(["del", "delitem"]), "o": 2, "n": rng.choice(SHORT + SIDED)})
                ops.append({"op": "dirty", "node": 1, "val": "F"})
                ops.append(rng.choice([{"op": "set", "o": 2, "n": name, "raw": raw}, {"op": "setitem", "o": 2, "n": spell(rng, name), "raw": raw},
                                       {"op": "update", "o": 2, "items": [{"n": spell(rng, name), "raw": raw}]}]))
            yield {"id": f"short-{name}-{k}", "pars": [0], "ops": ops}


FALSY = [S(""), I(0), {"k": "int", "i": 0, "bool": True}, F(0, 1), T(), L(), S("none"), S("0")]


def names_everywhere(tier, rng):
    """Every name in every spelling through every access path."""
    for name in NAMES:
        ops = [NEW]
        hyph = name.replace("_", "-")
        for sp in {name, hyph}:
            ops.append({"op": "setitem", "o": 1, "n": sp, "raw": good(rng, name)})
            ops.append({"op": "getitem", "o": 1, "n": sp})
            ops.append({"op": "update", "o": 1, "items": [{"n": sp, "raw": good(rng, name)}]})
            ops.append({"op": "delitem", "o": 1, "n": sp})
            ops.append({"op": "delitem", "o": 1, "n": sp})
            ops.append({"op": "update", "o": 1, "items": [{"n": sp, "raw": good(rng, name)}, {"n": "z-index" if name != "z_index" else "widows", "raw": I(4)}]})
            ops.append({"op": "update", "o": 1, "items": [{"n": sp, "raw": {"k": "none"}}]})
        for raw in FALSY:
            ops.append({"op": "set", "o": 1, "n": name, "raw": good(rng, name)})
            ops.append(rng.choice([{"op": "update", "o": 1, "items": [{"n": spell(rng, name), "raw": raw}]}] * 2 + [{"op": "setitem", "o": 1, "n": spell(rng, name), "raw": raw}]))
        for sp in {name, hyph}:      # nothing, given as a value: declared, then not
            for kind in ("setitem", "set"):
                n = sp if kind == "setitem" else name
                ops += [{"op": "set", "o": 1, "n": name, "raw": good(rng, name)}, {"op": kind, "o": 1, "n": n, "raw": {"k": "none"}},
                        {"op": "delitem", "o": 1, "n": sp}, {"op": kind, "o": 1, "n": n, "raw": {"k": "none"}}]
        ops.append({"op": "new", "items": [{"n": spell(rng, name), "raw": good(rng, name)}]})
        yield {"id": f"name-{name}", "pars": [], "ops": ops}
    ops = [NEW, {"op": "set", "o": 1, "n": "margin", "raw": I(3)}]
    for b in BADNAMES + [m.replace("_", "") for m in NAMES if "_" in m][:20] + ["_" + m for m in NAMES[:10]]:
        for kind in ("getitem", "setitem", "delitem"):
            op = {"op": kind, "o": 1, "n": b}
            if kind == "setitem":
                op["raw"] = I(1)
            ops.append(op)
        ops.append({"op": "update", "o": 1, "items": [{"n": b, "raw": I(1)}]})
        ops.append({"op": "update", "o": 1, "items": [{"n": b, "raw": {"k": "none"}}]})
    for k, part in enumerate(chunks(ops[2:], 40)):
        yield {"id": f"badname-{k}", "pars": [], "ops": ops[:2] + part}
    for k, b in enumerate(BADNAMES):
        yield {"id": f"badnew-{k}", "pars": [], "ops": [NEW, {"op": "new", "items": [{"n": b, "raw": I(1)}]}]}


LISTED = {"quotes": [L(S("<"), S(">")), L(L(S("<"), S(">")), L(S("{"), S("}"))), T(L(S("a"), S("b"))), L(T(S("a"), S("b")))],
          "cursor": [L(S("url(a)"), S("wait")), L(S("help")), L(S("url(x)"), S("url(y)"), S("move")), L(V(t="uri", s="q"), S("text"))],
          "border_spacing": [L(I(1)), L(I(1), S("2px")), L(V(**length("em", 2)), V(**length("pt", 3)))],
          "border_top": [L(S("solid"), I(3)), L(S("red"))], "border": [L(S("dashed"), S("thin"), S("blue"))], "outline": [L(S("dotted"), S("red"))]}


def lists(tier, rng):
    """Values given as lists, which the caller goes on using; values handed out, which the caller tries to change."""
    for name in sorted(LISTED):
        for k, raw in enumerate(LISTED[name]):
            for rep in range(2 if tier == "quick" else 10):
                how = rng.choice(["set", "setitem", "update"])
                put = {"op": "update", "o": 1, "items": [{"n": spell(rng, name), "raw": raw}]} if how == "update" else {"op": how, "o": 1, "n": name if how == "set" else spell(rng, name), "raw": raw}
                ops = [NEW, put, {"op": "spoil"}, {"op": "copy", "o": 1, "node": 1}, {"op": "tamper", "o": 2, "n": name}, {"op": "spoil"}, {"op": "tamper", "o": 1, "n": name},
                       dict(put, o=2), {"op": "copy", "o": 2, "node": 0}, {"op": "spoil"}, {"op": "tamper", "o": 3, "n": rng.choice(sorted(LISTED))}, {"op": "del", "o": 1, "n": name}, {"op": "tamper", "o": 1, "n": name}]
                yield {"id": f"list-{name}-{k}-{rep}", "pars": [0], "ops": ops, "every": rng.choice([1, 1, 20])}


def handing(tier, rng):
    """Values read from one property and declared for another, or for another declaration."""
    kin = [["color", "background_color", "border_top_color", "border_left_color", "outline_color", "border_color", "border_top", "outline", "border"],
           ["margin_top", "width", "max_height", "padding_left", "border_top_width", "letter_spacing", "text_indent", "top", "margin", "border_spacing", "outline_width", "z_index", "orphans"],
           ["border_top_style", "border_left_style", "outline_style", "border_style", "float", "display", "border_bottom"],
           ["quotes", "quotes", "cursor", "cursor", "clip", "clip", "border_spacing", "border_spacing", "direction", "text_align"]]
    for k in range(60 if tier == "quick" else 1200):
        names = rng.choice(kin)
        sources = [n for n in names if n in LONG]
        ops = [NEW, {"op": "copy", "o": 1, "node": 1}]
        for j in range(10):
            q = rng.random()
            n = rng.choice(sources)
            if q < 0.35:
                ops.append({"op": "set", "o": rng.choice([1, 2]), "n": n, "raw": good(rng, n)})
            elif q < 0.45:
                ops.append({"op": "del", "o": rng.choice([1, 2]), "n": n})
            elif q < 0.5:
                ops.append({"op": "spoil"})
            else:
                m = rng.choice(names) if rng.random() < 0.9 else rng.choice(NAMES)
                src = {"o": rng.choice([1, 2]), "n": n}
                if m in SHORT + SIDED and rng.random() < 0.6:
                    src["beside"] = rng.choice([S("solid"), S("2px"), S("red"), I(0), S("thin")])
                ops.append({"op": "set", "o": rng.choice([1, 2]), "n": m, "from": src})
        yield {"id": f"hand-{k}", "pars": [0], "ops": ops}


def equal(rng, id, lead, v, follow, w, others, turned):
    ops = [NEW, {"op": "set", "o": 1, "n": lead, "raw": v}, {"op": "set", "o": 1, "n": follow, "raw": w}]
    if turned:
        ops[1:] = reversed(ops[1:])
    ops += [{"op": "copy", "o": 1, "node": 1}, {"op": "copy", "o": 2, "node": 0}]
    for o in rng.sample([1, 2, 3], 3):
        ops += [{"op": "set", "o": o, "n": lead, "raw": rng.choice(others)}, {"op": "del", "o": o, "n": lead}]
    return {"id": id, "pars": [0], "ops": ops}


INITIAL = {"display": "inline", "position": "static", "top": "auto", "bottom": "auto", "left": "auto", "right": "auto", "z_index": "auto", "direction": "ltr", "unicode_bidi": "normal",
           "width": "auto", "min_width": "auto", "height": "auto", "min_height": "auto", "overflow": "visible", "clip": "auto", "visibility": "visible", "quotes": "initial",
           "page_break_before": "auto", "page_break_after": "auto", "page_break_inside": "auto", "letter_spacing": "normal", "word_spacing": "normal", "white_space": "normal",
           "caption_side": "top", "table_layout": "auto", "border_collapse": "separate", "empty_cells": "show", "cursor": "auto", "outline_width": "medium", "outline_color": "invert",
           "orphans": "2", "widows": "2", "float": "none", "clear": "none", "max_width": "none", "max_height": "none", "outline_style": "none", "text_decoration": "none", "text_transform": "none"}


def returns(tier, rng):
    """To and fro between a property's initial value and others: nothing, zero, keywords, proper values."""
    for name in LONG:
        init = INITIAL.get(name) or ("none" if name.endswith("_style") else rng.choice(["left", "right"]) if name == "text_align" else "red" if name.endswith("color") else "0")
        others = [S("none"), {"k": "none"}, I(0), S("0"), S("0%"), S("inherit"), S("initial"), S("unset"), S("revert"), S("auto"), S("normal")] + [good(rng, name) for _ in range(2 if tier == "quick" else 6)]
        others += [S(k) for k in KW.get(name, [])]
        ops = [NEW, {"op": "copy", "o": 1, "node": 1}]
        for x in rng.sample(others, len(others)):
            ops += [{"op": "set", "o": 2, "n": name, "raw": x}, {"op": "set", "o": 2, "n": name, "raw": S(init)}]
            if rng.random() < 0.3:
                ops.append({"op": "del", "o": 2, "n": name})
        yield {"id": f"return-{name}", "pars": [0], "ops": ops}


UNITS = ["px", "em", "ex", "ch", "pt", "pc", "in", "cm", "mm", "vh", "vmax", "vmin", "vw", "%"]
LENGTHY = [n for n in ["width", "max_height", "margin_left", "padding_top", "border_top_width", "top", "line_height", "text_indent", "letter_spacing", "border_spacing", "outline_width", "vertical_align", "margin", "border_width"] if n in NAMES]


def units(tier, rng):
    """One number in every unit, each assigned over every other: different values, whatever they share."""
    pairs = [(a, b) for k, a in enumerate(UNITS) for b in UNITS[:k]]
    for rep in range(1 if tier == "quick" else 8):
        for k, part in enumerate(chunks(rng.sample(pairs, len(pairs)), 5)):
            name = LENGTHY[(k + rep) % len(LENGTHY)]
            ops = [NEW, {"op": "copy", "o": 1, "node": 1}]
            num = rng.choice([1, 5, 12])
            for a, b in part:
                for u in rng.choice([(a, b, a), (b, a, b)]):
                    ops += [{"op": "dirty", "node": 1, "val": "F"}, {"op": "set", "o": 2, "n": name, "raw": S(f"{num}{u}") if rng.random() < 0.7 else V(**length(u, num))}]
            yield {"id": f"units-{rep}-{k}", "pars": [0], "ops": ops}


def near(tier, rng):
    """Values of several parts that differ in one part, or in the order of parts, each assigned over the other."""
    rects = [S("rect({}, {}, {}, {})".format(*p)) for p in itertools.permutations(("1px", "2px", "3px", "4px"))] + [S("rect(1px, 2px, 3px, 4em)"), S("rect(1px, 2px, 3px, 5px)"), S("rect(1px 1px 1px 1px)"), S("auto")]
    colors = [S("rgb({}, {}, {})".format(*p)) for p in itertools.permutations((1, 2, 3))] + [S("rgba(1, 2, 3, 0.5)"), S("rgba(1, 2, 3, 0.25)"), S("#010203"), S("#01020380"), S("hsl(120, 50%, 25%)"), S("hsl(120, 25%, 50%)"), S("hsl(480, 50%, 25%)"), S("hsla(120, 50%, 25%, 0.5)")]
    spacings = [S(x) for x in ("1px", "2px", "1px 2px", "2px 1px", "1px 1px", "1px 1em", "1em 1px", "1em", "1px 2em")]
    quotes = [L(*(T(S(a[0]), S(a[1])) for a in x)) for x in (["ab"], ["ba"], ["ab", "cd"], ["cd", "ab"], ["ab", "ab"], ["ac"], ["ab", "dc"])]
    cursors = [L(*map(S, x)) for x in (["url(a)"], ["url(b)"], ["url(a)", "url(b)"], ["url(b)", "url(a)"], ["url(a)", "wait"], ["url(a)", "help"], ["wait"], ["url(a)", "url(b)", "wait"], ["url(a)", "url(a)", "wait"])]
    numbers = [I(1), I(-1), I(10), I(0), S("1"), S("11")]
    pools = {"clip": rects, "border_spacing": spacings, "quotes": quotes, "cursor": cursors, "z_index": numbers, "orphans": numbers, "color": colors, "outline_color": colors, "border_left_color": colors, "background_color": colors,
             "border_color": [T(*x) for x in itertools.permutations(colors[:3], 2)], "margin": [T(*map(I, x)) for x in itertools.permutations((1, 2, 3, 4))][::3], "padding": [T(*map(I, x)) for x in ((1, 2), (2, 1), (1, 2, 3), (1, 3, 2), (1,), (2, 2), (1, 2, 1, 3))]}
    for name in sorted(set(pools) & set(NAMES)):
        pool = pools[name]
        pairs = [(a, b) for a in pool for b in pool if a is not b]
        pairs = rng.sample(pairs, min(len(pairs), 60 if tier == "quick" else 400))
        for k, part in enumerate(chunks(pairs, 10)):
            ops = [NEW, {"op": "copy", "o": 1, "node": 1}]
            for a, b in part:
                for x in (a, b):
                    ops += [{"op": "dirty", "node": 1, "val": "F"}, {"op": "set", "o": 2, "n": name, "raw": x}]
            yield {"id": f"near-{name}-{k}", "pars": [0], "ops": ops}


def alike(tier, rng):
    """Declared values that equal what the property would read as undeclared."""
    for k, c in enumerate([S("red"), S("#123456"), V(t="rgb", r=1, g=2, b=3, an=1, ad=1)]):
        for p in ["border_color"] + SHORT[1:] + [f"border_{s}_color" for s in ("top", "right", "bottom", "left")]:
            for turned in (False, True) if k == 0 else (rng.random() < 0.5,):
                yield equal(rng, f"equal-{p}-{k}-{turned}", "color", c, p, c, [S("blue"), S("transparent")], turned)
    for k, (d, a) in enumerate([("rtl", "right"), ("ltr", "left")]):
        for rep in range(2):
            yield equal(rng, f"equal-align-{k}-{rep}", "direction", S(d), "text_align", S(a), [S("ltr"), S("rtl")], rep)


def copies(tier, rng):
    yield from alike(tier, rng)
    yield from handing(tier, rng)
    for name in NAMES:
        for rep in range(2 if tier == "quick" else 10):
            raw = good(rng, name)
            others = rng.sample(FOCUS, 3)
            ops = [NEW, {"op": "set", "o": 1, "n": name, "raw": raw}]
            ops += [{"op": "set", "o": 1, "n": m, "raw": good(rng, m)} for m in others]
            ops += [{"op": "copy", "o": 1, "node": 1}, {"op": "copy", "o": 2, "node": 2}, {"op": "copy", "o": 2, "node": 0}]
            ops += [{"op": "dirty", "node": k, "val": "F"} for k in (1, 2)]
            for o in rng.sample([1, 2, 3, 4], 4):
                ops.append({"op": "set", "o": o, "n": name, "raw": good(rng, name)})
                ops.append(op_item(rng, o))
                ops += [{"op": "dirty", "node": k, "val": "F"} for k in (1, 2)]
                ops.append({"op": "del", "o": o, "n": name})
            yield {"id": f"copy-{name}-{rep}", "pars": [0, 0], "ops": ops}


def dirtiness(tier, rng):
    """Every property and intrinsic attribute, over trees in every state of dirtiness."""
    for name in NAMES:
        for rep in range(2 if tier == "quick" else 8):
            pars = rng.choice(TREES[2:])
            ops = [NEW] + [{"op": "copy", "o": 1, "node": k + 1} for k in range(len(pars))]
            nd = rng.randint(1, len(pars))
            hid = rng.choice([0, 0] + list(range(1, len(pars) + 1)))
            if hid:
                ops.append({"op": "hide", "node": hid})
            def clear():
                for k in range(len(pars)):
                    if k + 1 != hid:
                        ops.append({"op": "dirty", "node": k + 1, "val": rng.choice("FFFN")})
            raw, raw2, now = good(rng, name), good(rng, name), list(pars)
            if rng.random() < 0.3:
                ops.append({"op": "visible", "node": rng.randint(1, len(pars)), "val": False})
            for step in ({"op": "set", "n": name, "raw": raw}, {"op": "set", "n": name, "raw": raw}, {"op": "setitem", "n": name, "raw": raw2}, {"op": "getitem", "n": name},
                         {"op": "del", "n": name}, {"op": "del", "n": name}, {"op": "set", "n": name, "raw": {"k": "other", "x": "object"}},
                         {"op": "update", "items": [{"n": name, "raw": raw}]}, {"op": "update", "items": [{"n": name, "raw": {"k": "none"}}]}):
                clear()
                if rng.random() < 0.3 and nd != hid:
                    ops.append({"op": "dirty", "node": nd, "val": "T"})
                    kids = [k + 1 for k, p in enumerate(pars) if p == nd and k + 1 != hid]
                    if kids:
                        ops.append({"op": "dirty", "node": rng.choice(kids), "val": "F"})
                if rng.random() < 0.25:
                    ops += reparent(rng, now)
                ops.append(dict(step, o=nd + 1))
            yield {"id": f"dirty-{name}-{rep}", "pars": pars, "ops": ops}
    for a in INTR:
        for rep in range(4 if tier == "quick" else 20):
            pars = rng.choice(TREES[2:])
            now = list(pars)
            ops = [NEW] + [{"op": "copy", "o": 1, "node": k + 1} for k in range(len(pars))]
            hid = rng.choice([0, 0] + list(range(1, len(pars) + 1)))
            if hid:
                ops.append({"op": "hide", "node": hid})
            for step in range(7):
                for k in range(len(pars)):
                    if k + 1 != hid and rng.random() < 0.8:
                        ops.append({"op": "dirty", "node": k + 1, "val": rng.choice("FFFN")})
                op = intr(rng, rng.randint(1, len(pars)))
                op["attr"] = a
                op["v"] = {"t": "bool", "b": rng.random() < 0.5} if a.startswith("exact") or a == "is_replaced" else rng.choice([{"t": "none"}, {"t": "num", "i": 0}, {"t": "num", "i": 3}, {"t": "num", "i": 3}])
                if rng.random() < 0.25:
                    ops += reparent(rng, now)
                ops.append(op)
            yield {"id": f"intr-{a}-{rep}", "pars": pars, "ops": ops}
    for rep in range(60 if tier == "quick" else 600):      # whether one attribute depends on the others
        pars = rng.choice(TREES[:4])
        ops = [NEW] + [{"op": "copy", "o": 1, "node": k + 1} for k in range(len(pars))]
        nd = rng.randint(1, len(pars))
        for a in rng.sample(INTR, rng.randint(1, len(INTR))):
            ops.append(dict(intr(rng, nd), attr=a, v={"t": "bool", "b": rng.random() < 0.5} if a.startswith("exact") or a == "is_replaced" else {"t": "num", "i": rng.choice([0, 1, 3, 40])}))
        for step in range(8):
            for k in range(len(pars)):
                ops.append({"op": "dirty", "node": k + 1, "val": "F"})
            ops.append(intr(rng, nd))
        yield {"id": f"intrs-{rep}", "pars": pars, "ops": ops}


def crowded(rng, id, prop):
    """Declarations that declare much, looked at and changed: whether one property depends on another."""
    ops = [NEW, {"op": "copy", "o": 1, "node": 1}, {"op": "copy", "o": 1, "node": 2}]
    for m in rng.sample(LONG, rng.choice([15, 30, 45, 60])):
        ops.append({"op": "set", "o": 2, "n": m, "raw": good(rng, m)})
    seen = len(ops)
    lean = ["color", "direction", "text_align", "border_top_color", "border_bottom_color", "border_left_style", "unicode_bidi", "float", "position", "display"]
    for k in range(9):
        q = rng.random()
        ops.append({"op": "dirty", "node": 1, "val": "F"})
        if q < (0.3 if prop == "C05" else 0.1):
            ops.append({"op": "copy", "o": 2, "node": rng.choice([0, 2])})
        elif q < 0.35:
            ops.append({"op": rng.choice(["del", "delitem"]), "o": 2, "n": rng.choice(lean if rng.random() < 0.5 else NAMES)})
        elif q < 0.5 or prop == "C03":
            m = rng.choice(SIDED + SHORT)
            ops.append({"op": "set", "o": 2, "n": m, "raw": good(rng, m)} if rng.random() < 0.8 else {"op": "del", "o": 2, "n": m})
        else:
            ops.append(op_item(rng, 2, rng.choice(lean) if rng.random() < 0.4 else rng.choice(NAMES)))
    return {"id": id, "pars": [0, 0], "ops": ops, "from": seen}


def gen(prop, tier, seed):
    rng = random.Random(f"{prop}-{seed}")
    for k in range((80 if prop == "C01" else 40) if tier == "quick" else 1500):
        yield crowded(rng, f"crowd-{k}", prop)
    q = tier == "quick"
    if prop == "C01":
        yield from lists(tier, rng)
        yield from returns(tier, rng)
        yield from units(tier, rng)
        yield from near(tier, rng)
        yield from alike(tier, rng)
        yield from handing(tier, rng)
        yield from set_then_others(rng, tier)
        for k in range(250 if q else 6000):
            yield history(rng, f"hist-{k}", 14 if q else 25, copies=0.05)
    elif prop == "C02":
        yield from every_value(tier, rng)
        yield from near_keywords(tier, rng)
        yield from after_state(rng, tier)
    elif prop == "C03":
        yield from sides(tier, rng)
        yield from shorts(tier, rng)
        yield from alike(tier, rng)
        yield from handing(tier, rng)
        for k in range(120 if q else 4000):
            yield history(rng, f"hist-{k}", 14 if q else 25, names=SIDED + SHORT + [n for n in LONG if n.startswith(("border_", "outline", "margin"))], copies=0.03)
    elif prop == "C04":
        yield from lists(tier, rng)
        yield from names_everywhere(tier, rng)
        for k in range(250 if q else 6000):
            yield history(rng, f"hist-{k}", 14 if q else 25, pars=[], copies=0.05, dirties=0)
    elif prop == "C05":
        yield from lists(tier, rng)
        yield from copies(tier, rng)
        for k in range(200 if q else 5000):
            yield history(rng, f"hist-{k}", 16 if q else 28, copies=0.3)
    elif prop == "C06":
        yield from dirtiness(tier, rng)
        yield from handing(tier, rng)
        yield from returns(tier, rng)
        yield from units(tier, rng)
        yield from near(tier, rng)
        for k in range(200 if q else 5000):
            yield history(rng, f"hist-{k}", 18 if q else 30, copies=0.05, dirties=0.4)
