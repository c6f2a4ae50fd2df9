"""Histories of building blocks.  gen(prop, tier, seed) yields {"id", "ops"}."""
import random
from fractions import Fraction

from gen_values import chunks, length_text, number_text, safe
from rawpool import ALL, FAM, KEYWORDS, S, I, F, T, L, V, length

RUNG = {"number": ["number", "lengthtext", "integertext", "nolength", "keyword", "other"], "integer": ["number", "integertext", "lengthtext", "other"],
        "length": ["number", "lengthtext", "length", "nolength"], "percentage": ["lengthtext", "length", "nolength", "number"],
        "color": ["color", "nocolor", "keyword"], "spacing": ["spacing", "nospacing", "number", "lengthtext"], "rect": ["rect", "norect"],
        "quotes": ["quotes", "noquotes"], "uri": ["cursor", "nocursor"], "cursor": ["cursor", "nocursor", "keyword"]}
KINDS = list(RUNG)
CONSTS = [{"t": "kw", "s": s} for s in ("auto", "a", "b", "list-item", "A_B", "Upper", "left", "10", "thick", "under_score", "")] + \
         [{"t": "none"}, {"t": "int", "i": 0}, {"t": "int", "i": 1}, {"t": "int", "i": 100}, {"t": "default"}]
SHORTS = ["outline", "border", "border_top", "border_right", "border_bottom", "border_left"]
PARTS = {"outline": ["outline_color", "outline_style", "outline_width"], "border": ["border_width", "border_style", "border_color"],
         **{f"border_{d}": [f"border_{d}_{x}" for x in ("width", "style", "color")] for d in ("top", "right", "bottom", "left")}}
WORDS = ["solid", "dashed", "none", "hidden", "thin", "thick", "medium", "red", "#0f0", "Blue", "rgb(1,2,3)", "2px", "0", "-1.5em", "50%", "inherit", "invert", "transparent",
         "initial", "unset", "revert", "nope", "auto", "10", "rgb(1,", "2px;"]


def q(n, d=1):
    return [{"n": n, "d": d}]


def a_validator(rng, fn=None):
    fn = fn or rng.choice(KINDS)
    v = {"fn": fn, "lo": [], "hi": []}
    if fn in ("number", "integer") and rng.random() < 0.7:
        lo = rng.choice([(0, 1), (1, 1), (-5, 1), (3, 2), (1, 2), (7, 1)]) if fn == "number" else rng.choice([(0, 1), (1, 1), (-5, 1), (7, 1)])
        if rng.random() < 0.75:
            v["lo"] = q(*lo)
        if not v["lo"] or rng.random() < 0.6:
            v["hi"] = q(*rng.choice([(0, 1), (7, 1), (300, 1), (12, 1)]))
    return v


def settled(fn, raw):
    """Whether the specification says what this validator makes of this raw."""
    if fn == "number":
        if raw["k"] == "str":
            return raw["s"].strip().lower().lstrip("+-") not in ("inf", "nan", "infinity") and "_" not in raw["s"] and safe(raw["s"])
        return raw["k"] != "other" or raw["x"] not in ("inf", "nan", "ninf", "fraction")
    if fn == "integer":
        if raw["k"] == "str":
            return "_" not in raw["s"]
        return raw["k"] != "other" or raw["x"] != "fraction"
    if fn in ("quotes", "spacing"):      # a cursor is a list, too
        return raw["k"] != "val" or raw["v"]["t"] != "cursor"
    return True


def a_raw(rng, fn):
    for _ in range(20):
        r = rng.random()
        if r < 0.55:
            raw = rng.choice(FAM[rng.choice(RUNG[fn])])
        elif r < 0.75:
            raw = rng.choice(ALL)
        elif fn in ("number", "integer"):
            raw = rng.choice([I(rng.choice([-6, -5, -4, -1, 0, 1, 2, 6, 7, 8, 11, 12, 13, 299, 300, 301])), S(number_text(rng)), S(str(rng.choice([-6, -5, 0, 1, 7, 12, 13, 300, 301]))),
                              F(*Fraction(rng.randint(-50, 50), 4).as_integer_ratio()), F(*Fraction(rng.choice([-1, 1, 3, 28, 29, 27]), 4).as_integer_ratio())])
        else:
            raw = S(length_text(rng))
        if raw["k"] == "str" and not safe(raw["s"]):
            continue
        if settled(fn, raw):
            return raw
    return I(1)


def some_choices(rng, free=False):
    """free: any validators together, even of one kind, and constants that are defaulting keywords as well."""
    vs = []
    if free and rng.random() < 0.6:
        vs = [a_validator(rng, rng.choice(["integer", "number", "length", "percentage", None, None])) for _ in range(rng.randint(2, 3))]
        if rng.random() < 0.4:
            vs[0] = a_validator(rng, vs[1]["fn"])
    elif rng.random() < 0.75:
        first = rng.choice(KINDS)
        vs = [a_validator(rng, first)]
        more = {"number": [], "integer": [], "length": ["percentage", "color"], "percentage": ["length", "color"], "color": ["length", "percentage", "integer"], "spacing": ["color"],
                "rect": ["color", "length"], "quotes": ["integer"], "uri": ["color", "integer"], "cursor": ["length"]}[first]
        if more and rng.random() < 0.5:
            vs.append(a_validator(rng, rng.choice(more)))
            rng.shuffle(vs)
    cs = rng.sample(CONSTS, rng.choice([0, 1, 1, 2, 2, 3, 4, 6]))
    if free and rng.random() < 0.4:
        cs.append({"t": "kw", "s": rng.choice(["inherit", "initial", "a-b", "upper", "UPPER", "under-score"])})
        cs = [c for k, c in enumerate(cs) if c not in cs[:k]]
    # a default has no name that could be written
    if rng.random() < 0.8:
        cs = [c for c in cs if c["t"] != "default"]
    df = rng.choice([[], [], ["inherit"], ["initial", "inherit", "unset", "revert"], ["inherit", "initial"]])
    return {"cs": cs, "vs": vs, "df": df, "full": rng.random() < 0.3}


def hint(rng, c):
    """A raw that may or may not suit choices."""
    for _ in range(20):
        r = rng.random()
        if r < 0.35 and c["cs"]:
            x = rng.choice(c["cs"])
            raw = {"k": "none"} if x["t"] == "none" and rng.random() < 0.5 else S("none") if x["t"] == "none" else S(x["s"]) if x["t"] == "kw" else V(t="default") if x["t"] == "default" else \
                rng.choice([I(x["i"]), F(x["i"], 1), S(str(x["i"]))])
        elif r < 0.45 and c["df"]:
            raw = S(rng.choice(c["df"]))
        elif r < 0.75 and c["vs"]:
            raw = a_raw(rng, rng.choice(c["vs"])["fn"])
        elif r < 0.9:
            raw = S(rng.choice(["auto", "a", "b", "A", "Auto", "AUTO", "None", "none", "NONE", "a_b", "a-b", "A_B", "list-item", "list_item", "inherit", "initial", "x", "", " a", "10", "0"]))
        else:
            raw = rng.choice(ALL)
        if raw["k"] == "str" and not safe(raw["s"]):
            continue
        if all(settled(v["fn"], raw) for v in c["vs"]):
            return raw
    return S("x")


def same_kind(c):
    """No two values of these choices are equal to the code but not to the specification (0 and 0.0)."""
    return not (any(x["t"] == "int" for x in c["cs"]) and any(v["fn"] in ("length", "percentage", "number") for v in c["vs"])) and \
        not any(x["t"] == "default" for x in c["cs"])


def definitions(rng, id, steps):
    ops, chs, classes, objs = [], [], [], []
    for _ in range(rng.randint(2, 4)):
        for _ in range(50):
            c = some_choices(rng)
            if same_kind(c) and (c["cs"] or c["df"] or c["vs"]):
                break
        else:
            continue
        chs.append(c)
        ops.append({"op": "choices", "c": c})
    if not chs:
        return {"id": id, "ops": [{"op": "choices", "c": some_choices(rng)}]}
    for _ in range(steps):
        r = rng.random()
        if r < 0.12 or not classes:
            props, names = [], rng.sample(["alpha", "beta", "gamma", "delta_x"], rng.randint(1, 4))
            for n in names:
                c = rng.randrange(len(chs))
                s = rng.random()
                if s < 0.25 and props:
                    init = {"k": "ref", "s": rng.choice(props)["n"]}
                elif s < 0.28:
                    init = {"k": "ref", "s": "nowhere"}
                elif s < 0.45 and props:
                    o = rng.choice(props)
                    kws = [x for x in chs[o["c"] - 1]["cs"] if x["t"] in ("kw", "none")]
                    init = {"k": "by", "s": o["n"], "eq": rng.choice(kws or [{"t": "kw", "s": "auto"}]), "a": {"t": "kw", "s": "yes"}, "b": {"t": "kw", "s": "no"}}
                else:
                    kws = [S(x["s"]) if x["t"] == "kw" else {"k": "none"} for x in chs[c]["cs"] if x["t"] in ("kw", "none")] + [S(x) for x in chs[c]["df"]]
                    init = rng.choice(kws) if kws and rng.random() < 0.9 else hint(rng, chs[c])
                    if init["k"] == "val" and init["v"]["t"] not in ("kw", "none", "len"):
                        init = S("auto")
                free = init["k"] in ("str", "none") and not chs[c]["vs"] and rng.random() < 0.3
                props.append({"n": n, "c": c + 1, "init": init, "free": free})
            dangling = {p["n"] for p in props if p["init"].get("s") == "nowhere"}
            # nothing follows a property that cannot be read
            if any(p["init"].get("s") in dangling and p["init"]["k"] in ("ref", "by") for p in props):
                continue
            op = {"op": "class", "props": props}
            ops.append(op)
            if simple_inits(op, chs):
                classes.append(props)
            else:
                ops.pop()
        elif r < 0.25 or not objs:
            k = rng.randrange(len(classes))
            ops.append({"op": "new", "c": k + 1})
            objs.append(k)
        elif r < 0.8:
            o = rng.randrange(len(objs))
            p = rng.choice(classes[objs[o]])
            if p["init"].get("s") == "nowhere" and p["init"]["k"] == "ref":
                continue
            raw = hint(rng, chs[p["c"] - 1])
            if p["free"] and (rng.random() < 0.5 or raw["k"] not in ("str", "none")):
                raw = rng.choice([S("anything"), S(""), S("none"), S("10 apples"), I(0), I(-7), {"k": "none"}, S("auto"), S("inherit")])
            ops.append({"op": "set", "o": o + 1, "p": p["n"], "raw": raw})
        elif r < 0.95:
            o = rng.randrange(len(objs))
            ops.append({"op": "del", "o": o + 1, "p": rng.choice(classes[objs[o]])["n"]})
        else:
            k = rng.randrange(len(chs))
            ops.append({"op": "choose", "k": k + 1, "raw": hint(rng, chs[k])})
    return {"id": id, "ops": ops}


def simple_inits(op, chs):
    """Initial values that certainly are valid keywords: the class will exist."""
    for p in op["props"]:
        c, i = chs[p["c"] - 1], p["init"]
        if i["k"] in ("ref", "by"):
            continue
        if i["k"] == "none" and {"t": "none"} in c["cs"]:
            continue
        if i["k"] == "str" and not c["vs"] and ({"t": "kw", "s": i["s"]} in c["cs"] or i["s"] in c["df"]) and i["s"] != "none":
            continue
        if i["k"] == "str" and i["s"] in ("auto", "a", "b", "list-item", "inherit", "initial") and ({"t": "kw", "s": i["s"]} in c["cs"] or i["s"] in c["df"]) \
                and not any(v["fn"] == "cursor" for v in c["vs"]):
            continue
        return False
    return True


def bad_classes(rng, id):
    """Definitions with initial values that may not be valid."""
    ops = []
    for k in range(8):
        c = some_choices(rng, True)
        ops.append({"op": "choices", "c": {**c, "cs": [x for x in c["cs"] if x["t"] != "default"]}})
        ops.append({"op": "class", "props": [{"n": "alpha", "c": k + 1, "init": hint(rng, c), "free": False}]})
        init = rng.choice([S("auto"), S("nothing"), {"k": "ref", "s": "alpha"}, {"k": "none"}])
        ops.append({"op": "class", "props": [{"n": "alpha", "c": k + 1, "init": init, "free": rng.random() < 0.7}]})
    return {"id": id, "ops": ops}


def a_value(rng):
    return rng.choice([{"t": "kw", "s": rng.choice(["solid", "red", "thin", "", "a b"])}, {"t": "none"}, length("px", rng.randint(-3, 9)), length("em", 3, 2),
                       {"t": "rgb", "r": 1, "g": 2, "b": rng.randint(0, 9), "an": 1, "ad": 2}, length("px", 0)])


def records(rng, id, steps):
    ops, made = [], 0
    for _ in range(steps):
        r = rng.random()
        if r < 0.45 or made < 2:
            cls = rng.choice(SHORTS + ["Font", "Other"])
            keys = PARTS[cls] if cls in PARTS else rng.choice([["x_size", "family", "weight"], ["b", "a"], ["a", "b"], ["a"], []])
            some = rng.sample(keys, rng.randint(0, len(keys)))
            ok = bool(keys)
            if rng.random() < 0.12:
                some.insert(rng.randrange(len(some) + 1), rng.choice(["nothing", "border_width", "outline_width", "color", "VALID_KEYS"]))
                ok = ok and set(some) <= set(keys)
            some = list(dict.fromkeys(some))
            vals = [a_value(rng)] * 9 if rng.random() < 0.3 else None
            ops.append({"op": "record", "cls": cls, "keys": keys, "parts": [[k, vals[0] if vals else a_value(rng)] for k in some]})
            made += ok
            if ok and rng.random() < 0.4:      # the same again, in another order
                again = dict(ops[-1], parts=rng.sample(ops[-1]["parts"], len(ops[-1]["parts"])))
                ops.append(again)
                made += 1
                ops.append({"op": "same", "r": made - 1, "s": made})
        elif r < 0.85:
            ops.append({"op": "same", "r": rng.randint(1, made), "s": rng.randint(1, made)})
        else:
            ops.append({"op": "spoil", "r": rng.randint(1, made), "how": rng.choice(["clear", "change"])})
    return {"id": id, "ops": ops}


def a_shorthand(rng):
    r = rng.random()
    n = rng.choice([0, 1, 1, 2, 2, 2, 3, 3, 3, 4])
    ws = [rng.choice(WORDS) for _ in range(n)]
    if rng.random() < 0.7:
        ws = rng.sample([rng.choice(["solid", "dashed", "none", "inset"]), rng.choice(["2px", "thin", "0", "3em"]), rng.choice(["red", "#123", "transparent", "invert", "inherit"])], min(n, 3))
    if r < 0.5:
        return S(rng.choice([" ", " ", "  ", "\t", "\n"]).join(ws))
    if r < 0.9:
        mk = T if rng.random() < 0.5 else L
        return mk(*[rng.choice([S(w), S(w), I(3), {"k": "none"}, V(**length("px", 2))]) if rng.random() < 0.3 else S(w) for w in ws])
    return rng.choice(FAM["shorthand"] + FAM["noshorthand"] + ALL)


def gen(prop, tier, seed):
    rng = random.Random(f"{prop}-{seed}-blocks")
    big = tier != "quick"
    if prop == "C22":
        # every pooled raw through every validator, and through limited ones
        for fn in KINDS:
            raws = [r for r in ALL if settled(fn, r) and (r["k"] != "str" or safe(r["s"]))]
            for j, part in enumerate(chunks(raws, 25)):
                yield {"id": f"check-{fn}-{j}", "ops": [{"op": "check", "v": {"fn": fn, "lo": [], "hi": []}, "raw": r} for r in part]}
        for k in range(600 if big else 120):
            ops = []
            for _ in range(25):
                v = a_validator(rng)
                ops.append({"op": "check", "v": v, "raw": a_raw(rng, v["fn"])})
            yield {"id": f"checks-{k}", "ops": ops}
        for k in range(500 if big else 110):
            c = some_choices(rng, True)
            if any(x["t"] == "default" for x in c["cs"]):
                c["cs"] = [x for x in c["cs"] if x["t"] != "default"]
            d = some_choices(rng, True)
            d["cs"] = [x for x in d["cs"] if x["t"] != "default"]
            ops = [{"op": "choices", "c": c}, {"op": "choices", "c": d}]
            for _ in range(22):
                j = rng.randrange(2)
                ops.append({"op": "choose", "k": j + 1, "raw": hint(rng, (c, d)[j])})
            yield {"id": f"choices-{k}", "ops": ops}
        for k in range(900 if big else 180):
            yield definitions(rng, f"defs-{k}", rng.choice([12, 25, 40]))
        for k in range(100 if big else 25):
            yield bad_classes(rng, f"inits-{k}")
    else:
        for k in range(1500 if big else 300):
            yield {"id": f"short-{k}", "ops": [{"op": "short", "fn": rng.choice(SHORTS), "raw": r} for r in
                                               (a_shorthand(rng) for _ in range(20)) if r["k"] != "str" or safe(r["s"])]}
        for fn in SHORTS:
            for j, part in enumerate(chunks([r for r in ALL if r["k"] != "str" or safe(r["s"])], 25)):
                yield {"id": f"pool-{fn}-{j}", "ops": [{"op": "short", "fn": fn, "raw": r} for r in part]}
        for k in range(500 if big else 120):
            yield records(rng, f"records-{k}", rng.choice([8, 16, 30]))
