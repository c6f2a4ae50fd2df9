"""Histories of value operations.  gen(prop, tier, seed) yields {"id", "ops"}."""
import random, re
from fractions import Fraction

from rawpool import ALL, FAM, S, I, F, T, L, V, length

UNITS = ["px", "em", "ex", "ch", "pt", "pc", "in", "cm", "mm", "vh", "vmax", "vmin", "vw", "%"]
ANGLES = ["deg", "grad", "rad", "turn"]
MUTATIONS = ["append", "clear", "extend", "insert", "pop", "pop0", "remove", "reverse", "sort", "sortkey", "setitem", "delitem", "setslice", "delslice", "iadd", "imul", "imul0", "iaddself", "imul1", "setsame",
             "delnone", "extendnone", "insertend", "poplast", "popafter", "removeother", "setafter", "delafter", "setend"]


def parse(fn, raw): return {"op": "parse", "fn": fn, "raw": raw}


def number_text(rng):
    r = rng.random()
    if r < 0.3:
        s = str(rng.choice([0, 1, 2, 7, 10, 12, 96, 100, 255, 999, 1024, 30000]))
    elif r < 0.6:
        s = f"{rng.randint(0, 999)}.{rng.choice(['0', '5', '25', '125', '1', '33', '007', '990'])}"
    elif r < 0.7:
        s = f".{rng.randint(1, 99)}"
    elif r < 0.75:
        s = f"{rng.randint(0, 99)}."
    elif r < 0.9:
        s = f"{rng.randint(1, 99)}{rng.choice('eE')}{rng.choice(['', '+', '-'])}{rng.randint(0, 3)}"
    else:
        s = f"0{rng.randint(0, 99)}"
    return rng.choice(["", "", "", "-", "+"]) + s


def length_text(rng):
    s = number_text(rng) + rng.choice(UNITS + [""])
    r = rng.random()
    if r < 0.1:
        s = " " + s
    elif r < 0.3:     # a neighbour, often malformed
        k = rng.randrange(len(s) + 1)
        s = s[:k] + rng.choice(["x", "p", " ", "-", ".", "%", "e", "1", "m", "deg", ",", "in"]) + s[k:]
    elif r < 0.4 and s:
        k = rng.randrange(len(s))
        s = s[:k] + s[k + 1:]
    return s


def safe(s):
    """Numbers the specification's 32-bit arithmetic can follow, and forms whose meaning it settles."""
    for m in re.finditer(r"(\d*)\.?(\d*)(?:[eE]([+-]?\d+))?", s):
        ex = abs(int(m.group(3))) if m.group(3) else 0
        digits = len(m.group(1).lstrip("0")) + len(m.group(2))
        if digits > 7 or digits + ex > 9 or ex > 4 or len(m.group(2)) + ex > 6:
            return False
        if m.group(3) and m.group(3).startswith("-") and len(m.group(2)) - int(m.group(3)) > 4:
            return False
        if m.group(2) and float("0." + m.group(2)) < 1e-3 and int(m.group(2)):
            return False
    return True


def chunks(xs, k):
    xs = list(xs)
    for j in range(0, len(xs), k):
        yield xs[j:j + k]


def dyadic(rng):
    return rng.choice([(0, 1), (1, 1), (2, 1), (3, 1), (-1, 1), (-4, 1), (1, 2), (3, 2), (-5, 2), (7, 4), (1, 8), (10, 1), (100, 1)])


def a_unit(rng, angle=False):
    n, d = dyadic(rng)
    return {"op": "unit", "v": {"t": "ang" if angle else "len", "u": rng.choice(ANGLES if angle else UNITS), "n": n, "d": d}}


def dyadic_text(rng):
    return rng.choice(["", "-"]) + rng.choice(["0", "1", "2", "12", "0.5", "1.25", ".75", "2.0", "1e1", "33"])


def arithmetic(rng, id, steps, ctxs, angle=False):
    """Units made, multiplied, negated, compared and converted, in turn."""
    ops, vals = [], []

    def ok(v):
        return abs(v) <= 300 and v.denominator <= 64 and (angle or all(fits(v, c) for c in ctxs))

    def make():
        op = a_unit(rng, angle)
        ops.append(op)
        vals.append(Fraction(op["v"]["n"], op["v"]["d"]))
    make()
    for _ in range(steps):
        r = rng.random()
        n = len(vals)
        o = rng.randint(1, n)
        if r < 0.2 and n < 9:
            make()
        elif r < 0.35 and n < 9:
            k, d = rng.choice([(0, 1), (1, 1), (2, 1), (-3, 1), (1, 2), (-1, 4)])
            if ok(vals[o - 1] * Fraction(k, d)):
                ops.append({"op": "mul", "o": o, "n": k, "d": d})
                vals.append(vals[o - 1] * Fraction(k, d))
        elif r < 0.5 and n < 9:
            ops.append({"op": "neg", "o": o})
            vals.append(-vals[o - 1])
        elif r < 0.6 and n < 9 and not angle:
            t = dyadic_text(rng)
            ops.append(parse("length", S(t + rng.choice(UNITS))))
            vals.append(Fraction(t))
        elif r < 0.75:
            ops.append({"op": "eq", "o": o, "p": rng.randint(1, n)})
        elif angle:
            ops.append({"op": "deg", "o": o})
        else:
            ops.append({"op": "px", "o": o, "ctx": rng.choice(ctxs)})
    return {"id": id, "ops": ops}


def context(rng):
    dpi, dd = rng.choice([(1, 1), (72, 1), (96, 1), (120, 1), (144, 1), (192, 1), (193, 2), (289, 4)])
    return {"dpi": dpi, "dd": dd, "w": 64 * rng.choice([0, 1, 100, 640, 1024, 1920]) + rng.choice([0, 0, 32, 7]),
            "h": 64 * rng.choice([0, 1, 75, 480, 768, 1080]) + rng.choice([0, 0, 16, 5]), "em": rng.choice([10, 100, 120, 125, 240]), "ex": rng.choice([5, 50, 66]),
            "ch": rng.choice([8, 71, 100]), **dict(zip(("sn", "sd"), rng.choice([(0, 1), (1, 1), (100, 1), (333, 1), (1024, 1), (25, 2), (401, 4), (-50, 1), (1001, 8)])))}


def fits(v, c):
    """Exact arithmetic on v in context c stays within 32 bits (mirrors the products of spec/Units.tla generously)."""
    big = 2 ** 31
    n, d = abs(v.numerator), v.denominator
    return all(x < big for x in (n * 64, n * 56693 * c["dpi"], n * c["w"], n * c["h"], n * abs(c["sn"]) * 16, n * c["em"] * c["dpi"] * 64, d * 25 * c["sd"] * 2250 * 16 * c.get("dd", 1)))


def fits_unit(u, v, c):
    """The same for one unit only."""
    n = abs(v.numerator)
    x = {"px": 64, "cm": 56693 * c["dpi"], "mm": 56693 * c["dpi"], "%": 16 * max(1, abs(c["sn"])), "vw": c["w"], "vh": c["h"]}.get(u)
    if x is None:
        x = max(c["w"], c["h"]) if u in ("vmin", "vmax") else c[u] * c["dpi"] * 64 if u in ("em", "ex", "ch") else 72 * 8 * c["dpi"]
    return n * x < 2 ** 31 and v.denominator * 25 * c["sd"] * 2250 * 16 * c.get("dd", 1) < 2 ** 31


def near_whole(rng):
    """A little more or less than a whole number."""
    f = rng.randint(-200, 400) + rng.choice([1, -1]) * Fraction(1, rng.choice([2, 16, 256, 1024, 4096, 10, 100, 1000]))
    return f.numerator, f.denominator


def conversions(rng, tier):
    """Every unit against every kind of context."""
    vals = [(0, 1), (1, 1), (3, 1), (-2, 1), (1, 2), (7, 4), (1, 10), (33, 10), (-25, 4), (50, 1), (100, 1), (1, 3)]
    for u in UNITS:
        for rep in range(6 if tier == "quick" else 80):
            ops = []
            for _ in range(8):
                n, d = rng.choice(vals[:-1]) if rng.random() < 0.8 else (rng.randint(-120, 120), rng.choice([1, 2, 4, 5, 10, 8]))
                f = Fraction(n, d)
                ops.append({"op": "unit", "v": {"t": "len", "u": u, "n": f.numerator, "d": f.denominator}})
                for _ in range(3):
                    c = context(rng)
                    if fits(f, c):
                        ops.append({"op": "px", "o": sum(o["op"] == "unit" for o in ops), "ctx": c})
            yield {"id": f"px-{u}-{rep}", "ops": ops}
        for rep in range(6 if tier == "quick" else 60):      # large numbers
            ops = []
            for _ in range(8):
                f = Fraction(rng.choice([-1, 1]) * rng.randint(*rng.choice([(1, 300), (100, 1000), (1000, 9000), (10000, 99999)])), rng.choice([1, 2, 4, 5, 8, 10]))
                ops.append({"op": "unit", "v": {"t": "len", "u": u, "n": f.numerator, "d": f.denominator}})
                for _ in range(4):
                    c = context(rng)
                    if fits_unit(u, f, c):
                        ops.append({"op": "px", "o": sum(o["op"] == "unit" for o in ops), "ctx": c})
            yield {"id": f"large-{u}-{rep}", "ops": ops}
    for u in ANGLES:
        for rep in range(3 if tier == "quick" else 30):
            ops = []
            for k in range(8):
                n, d = rng.choice([(0, 1), (1, 1), (-1, 1), (1, 2), (90, 1), (45, 2), (360, 1), (-1, 4), (100, 1), (1, 10), (5, 4)]) if u == "rad" or rng.random() < 0.5 else near_whole(rng)
                ops.append({"op": "unit", "v": {"t": "ang", "u": u, "n": n, "d": d}})
                ops.append({"op": "deg", "o": k + 1})
            yield {"id": f"deg-{u}-{rep}", "ops": ops}


def colors(rng, tier, names):
    texts = []
    for n in names:
        texts += [n, n.upper(), n.capitalize(), "".join(rng.choice([c, c.upper()]) for c in n)]
        k = rng.randrange(len(n))
        texts += [n[:k] + n[k + 1:], n + rng.choice("aex "), " " + n, n[:k] + rng.choice("aeiou") + n[k:]]
    hexd = "0123456789abcdefABCDEF"
    for size in (1, 2, 3, 3, 3, 4, 4, 4, 5, 6, 6, 6, 6, 7, 8, 8, 8, 9):
        for _ in range(40 if tier == "quick" else 1500):
            s = "#" + "".join(rng.choice(hexd) for _ in range(size))
            if rng.random() < 0.08:
                k = rng.randrange(1, len(s))
                s = s[:k] + rng.choice("gz -+x_."[:6] + "G#") + s[k + 1:]
            texts.append(s)
    for _ in range(600 if tier == "quick" else 20000):
        fn = rng.choice(["rgb", "rgba", "hsl", "hsla"])
        pc = fn.startswith("hsl")
        args = [str(rng.choice([0, 1, 9, 128, 255, 256, -1, 300, rng.randint(0, 360)]))]
        for _ in range(2):
            args.append(str(rng.choice([0, 1, 50, 99, 100, rng.randint(0, 255)])) + ("%" if pc and rng.random() < 0.85 else ""))
        if fn.endswith("a"):
            args.append(rng.choice(["0", "1", "0.5", ".25", "1.0", "0.75", "2"]))
        r = rng.random()
        if r < 0.1:
            args = args[:-1]
        elif r < 0.2:
            args.append("1")
        elif r < 0.3:
            k = rng.randrange(len(args))
            args[k] = rng.choice(["", "x", "1.5", "1 2", "--1", "%", "+7", " 8 "])
        sep = rng.choice([",", ", ", " , ", ","])
        s = f"{fn}({rng.choice(['', ' '])}{sep.join(args)}{rng.choice(['', ' '])})"
        if rng.random() < 0.08:
            s = rng.choice([s[:-1], s + " ", " " + s, s + ")", s.upper(), s.replace("(", "", 1)])
        texts.append(s)
    for fn in ("rgb", "rgba", "hsl", "hsla"):      # one argument out of the ordinary
        good = ["12", "50%", "40%"] if fn.startswith("hsl") else ["1", "2", "3"]
        good += ["0.5"] if fn.endswith("a") else []
        for k in range(len(good)):
            for odd in ("%5", "5 %", "5%%", " 5% ", "\t5%", "%5%", "% 5", "5%5", "5.%", "5.0%", "+5%", "-5%", "05%", "", " ", "5 5", "x", "0x5", "5e0", "5.", ".5", "+.5", "-1", "5,", "5;", "(5)", "1e1", "1e-1"):
                texts.append(f"{fn}({','.join(good[:k] + [odd] + good[k + 1:])})")
    rng.shuffle(texts)
    for k, part in enumerate(chunks(texts, 20)):
        yield {"id": f"color-{k}", "ops": [parse("color", S(s)) for s in part]}
    # conversions of parsed colors
    for k in range(40 if tier == "quick" else 400):
        ops, n = [], 0
        for _ in range(6):
            raw = rng.choice([V(t="hsl", h=rng.randint(-400, 800), sn=rng.choice([0, 1]), sd=1, ln=1, ld=rng.choice([2, 4]), **dict(zip(("an", "ad"), rng.choice([(0, 1), (1, 1), (1, 2), (1, 4), (1, 100)])))), S("red"), S("#12345678"),
                              S(f"hsl({rng.randint(-360, 720)},{rng.randint(0, 100)}%,{rng.randint(0, 100)}%)"), S(f"hsla({rng.randint(0, 359)}, {rng.randint(0, 100)}%, 50%, {rng.choice(['0.5', '0', '1', '0.0', '.01', '2', '-1'])})")])
            ops.append(parse("color", raw))
            n += 1
            ops.append({"op": "rgb", "o": n})
            ops.append({"op": "rgb", "o": rng.randint(1, n)})
        yield {"id": f"conv-{k}", "ops": ops}
    hues = sorted({h + d for h in range(-360, 721, 60) for d in (-1, 0, 1)} | set(rng.sample(range(360), 40 if tier == "quick" else 360)))
    for h in hues:
        for rep in range(1 if tier == "quick" else 8):
            sl = [[s, l] for s in (0, 50, 100) for l in (0, 25, 50, 75, 100)] + [[rng.randint(0, 100), rng.randint(0, 100)] for _ in range(40 if tier == "quick" else 200)]
            yield {"id": f"hsl-{h}", "ops": [{"op": "hslrow", "h": h, "hd": 1, "den": 100, "sl": sl}]}
    for k in range(60 if tier == "quick" else 1500):
        den, hd = rng.choice([8, 16, 20, 40, 10, 1000]), rng.choice([1, 2, 4])
        if den == 1000:
            hd = 1
            sl = [[1000, rng.randint(0, 1000)] for _ in range(20)] + [[rng.randint(0, 1000), 500] for _ in range(20)]
        else:
            sl = [[rng.randint(0, den), rng.randint(0, den)] for _ in range(40)]
        h = rng.randint(-400 * hd, 800 * hd) if rng.random() < 0.7 else rng.randrange(-360, 721, 60) * hd + rng.choice([-1, 1])
        yield {"id": f"hslq-{k}", "ops": [{"op": "hslrow", "h": h, "hd": hd, "den": den, "sl": sl}]}


WSP = ["", " ", "  ", "\t", "\n "]


def good_length(rng):
    while True:
        s = rng.choice(["", "-"]) + rng.choice(["0", "1", "2", "10", "1.5", "0.25", ".5", "33"]) + rng.choice(UNITS + ["px", "px", ""])
        return s


ATTRS = {"rect": ["top", "right", "left", "bottom"], "spacing": ["horizontal", "vertical"], "uri": ["url"]}
KEPT = {"rect": [S("rect(1px, 2px, 3px, 4px)"), S("rect(1px 2px 3px 4px)"), S("rect(1px, 2px, 4px, 3px)"), S("rect(1em, 2px, 3px, 4px)"), S("rect(1,2,3,4)"), S("rect(1px, 2px, 3px, 4.5px)"), S("rect(2px, 1px, 3px, 4px)"), S("rect(9px, 2px, 3px, 4px)"), S("rect(1px, 9px, 3px, 4px)"), S("rect(1px, 2px, 9px, 4px)"), S("rect(1px, 2px, 3px, 9px)"), S("rect(1px, 2px, 3em, 4px)")],
        "quotes": [S("'<' '>'"), L(S("<"), S(">")), L(T(S("<"), S(">")), T(S("["), S("]"))), L(T(S("a"), S("b"))), L(L(S("<"), S(">"))), L(T(S("<"), S(">")), L(S("{"), S("}"))), S("'<' '>' '{' '}'"), S("'>' '<'"), T(L(S("a"), S("b"))), S("'<' '>' '{' ')'")],
        "cursor": [L(S("url(a)"), S("wait")), L(S("help")), S("help"), S("url(a), url(b), move"), L(V(t="uri", s="q"), S("text")), T(S("url(a)"), S("wait"))],
        "spacing": [L(I(1)), L(I(1), S("2px")), T(S("1px"), S("2em")), S("1px 2px"), S("3pt")], "uri": [S("url(a)"), S("url('b c')")]}


def composites(rng, tier):
    q = tier == "quick"
    ops = []
    for _ in range(500 if q else 12000):     # rectangles
        n = rng.choice([4] * 8 + [0, 1, 3, 5])
        parts = [good_length(rng) if rng.random() < 0.95 else rng.choice(["x", "auto", "", "1 2"]) for _ in range(n)]
        if rng.random() < 0.5:
            inner = ",".join(rng.choice(WSP) + p + rng.choice(WSP) for p in parts)
        else:
            inner = rng.choice(WSP[1:]).join(parts)
        s = rng.choice(WSP) + "rect(" + inner + ")" + rng.choice(WSP)
        if rng.random() < 0.1:
            k = rng.randrange(len(s))
            s = s[:k] + rng.choice(["", ",", " ", "(", ")"]) + s[k + 1:]
        ops.append(parse("rect", S(s)))
    for _ in range(250 if q else 6000):      # spacings
        n = rng.choice([1, 1, 2, 2, 2, 0, 3])
        parts = [good_length(rng) if rng.random() < 0.93 else rng.choice(["x", "auto", "1,2"]) for _ in range(n)]
        if rng.random() < 0.6:
            raw = S(rng.choice(WSP) + rng.choice(WSP[1:]).join(parts) + rng.choice(WSP))
        else:
            raw = rng.choice([T, L])(*[S(p) if rng.random() < 0.6 else rng.choice([I(3), F(1, 2), V(**length("em", 2)), V(**length("%", 5, 2)), {"k": "none"}]) for p in parts])
        ops.append(parse("spacing", raw))
    marks = ["<", ">", "{", "}", "<<", ">>", "a", "-", "''", '"', "(", "x y", "1"]
    for _ in range(300 if q else 6000):      # quotes
        n = rng.choice([2, 2, 2, 4, 4, 6, 1, 3, 0]) if rng.random() < 0.95 else rng.randint(7, 30)
        ms = [rng.choice(marks) for _ in range(n)]
        if ms and rng.random() < 0.1:
            ms[rng.randrange(n)] = ""
        if rng.random() < 0.6:
            ws = []
            for m in ms:
                if any(ch in m for ch in " '\""):
                    m = "<"
                c = rng.choice("'\"")
                ws.append(c + m + c if rng.random() < 0.97 else rng.choice([m, c + m, m + c]))
            raw = S(rng.choice(WSP) + rng.choice(WSP[1:]).join(ws) + rng.choice(WSP))
        elif rng.random() < 0.7:
            pairs = [T(*[S(m) for m in p]) if rng.random() < 0.5 else L(*[S(m) for m in p]) for p in chunks(ms, 2)]
            raw = rng.choice([T, L])(*pairs)
        else:
            raw = rng.choice([T, L])(*[S(m) for m in ms if len(m) == 1])
        ops.append(parse("quotes", raw))
    urls = ["a.png", "http://x/y?z=1", "b", "q-1.cur", "", "a b", "(", "data:1"]

    def url(rng):
        u = rng.choice(urls)
        c = rng.choice(["", "'", '"'])
        if u == "" and c == "" and False:
            c = "'"
        return f"url({rng.choice(WSP)}{c}{u}{c}{rng.choice(WSP)})"
    for _ in range(200 if q else 4000):
        s = rng.choice(WSP) + url(rng) + rng.choice(WSP)
        if rng.random() < 0.2:
            s = rng.choice([s.replace("url", "uri", 1), s.strip()[:-1], s.strip() + "x", s.replace("(", "", 1), s.strip().upper()])
        ops.append(parse("uri", S(s)))
    kws = ["auto", "crosshair", "default", "pointer", "move", "e-resize", "ne-resize", "nw-resize", "n-resize", "se-resize", "sw-resize", "s-resize", "w-resize", "text", "wait", "progress", "help"]
    for kw in kws:
        ops.append(parse("cursor", S(kw)))
        ops.append(parse("cursor", S("url(a), " + kw)))
        ops.append(parse("cursor", S(kw.upper())))
    for _ in range(300 if q else 6000):
        items = [url(rng) for _ in range(rng.choice([0, 0, 1, 1, 2, 3]) if rng.random() < 0.93 else rng.randint(4, 20))] + [rng.choice(kws) for _ in range(rng.choice([0, 1, 1, 1, 2]))]
        if rng.random() < 0.15:
            rng.shuffle(items)
        if rng.random() < 0.08:
            items.insert(rng.randrange(len(items) + 1), rng.choice(["nope", "", "url(x", "none"]))
        if rng.random() < 0.6:
            raw = S(",".join(rng.choice(WSP) + x + rng.choice(WSP) for x in items))
        else:
            raw = rng.choice([T, L])(*[S(x.strip()) if rng.random() < 0.8 or not x.strip().startswith("url(") else V(t="uri", s="w.png") for x in items])
        ops.append(parse("cursor", raw))
    rng.shuffle(ops)
    for k, part in enumerate(chunks(ops, 15)):
        yield {"id": f"comp-{k}", "ops": part}
    for fn, fams in (("rect", ("rect", "norect")), ("spacing", ("spacing", "nospacing")), ("quotes", ("quotes", "noquotes")), ("cursor", ("cursor", "nocursor"))):
        raws = [r for f in fams for r in FAM[f]] + [r for r in ALL if r["k"] not in ("str", "val")]
        if fn == "quotes":
            raws = [r for r in raws if not (r["k"] == "val" and r["v"]["t"] == "cursor")]
        for k, part in enumerate(chunks(raws, 15)):
            yield {"id": f"pool-{fn}-{k}", "ops": [parse(fn, r) for r in part if r["k"] != "other" or fn in ("rect", "uri")]}
    for k in range(25 if q else 300):
        ops, n = [], 0
        for _ in range(2):
            ops.append(parse("cursor", rng.choice([S("help"), S("url(a), url('b'), move"), L(S("url(a)"), S("wait")), S("url(z)")])))
            n += 1
        for _ in range(9):
            ops.append({"op": "mutate", "o": rng.randint(1, n), "how": MUTATIONS[(k + len(ops)) % len(MUTATIONS)] if rng.random() < 0.7 else rng.choice(MUTATIONS)})
        yield {"id": f"mutate-{k}", "ops": ops}
    for k in range(120 if q else 1200):       # values compared, copied, taken apart; callers that go on using their lists
        ops, kinds = [], []
        for _ in range(14):
            r = rng.random()
            n = len(kinds)
            if n == 0 or (r < 0.4 and n < 7):
                fn = rng.choice(["rect", "quotes", "cursor", "spacing", "uri"])
                ops.append(parse(fn, rng.choice(KEPT[fn])))
                kinds.append(fn)
            elif r < 0.55:
                ops.append({"op": "spoil"})
            elif r < 0.75:
                o = rng.randint(1, n)
                same = [j + 1 for j in range(n) if kinds[j] == kinds[o - 1]]
                if kinds[o - 1] in ("rect", "quotes"):
                    ops.append({"op": "eq", "o": o, "p": rng.choice(same)})
                if kinds[o - 1] == "quotes":
                    ops.append({"op": "level", "o": o, "k": rng.randint(0, 3)})
                if kinds[o - 1] == "cursor":
                    ops.append({"op": "copylist", "o": o})
                    kinds.append("cursor")
            else:
                o = rng.randint(1, n)
                if kinds[o - 1] == "cursor":
                    ops.append({"op": "mutate", "o": o, "how": rng.choice(MUTATIONS)})
                elif kinds[o - 1] in ATTRS:
                    ops.append({"op": "assign", "o": o, "attr": rng.choice(ATTRS[kinds[o - 1]])})
        yield {"id": f"kept-{k}", "ops": ops}
    for fn in ("rect", "quotes"):
        n = len(KEPT[fn])
        for a in range(n):
            yield {"id": f"eq-{fn}-{a}", "ops": [parse(fn, r) for r in KEPT[fn]] + [{"op": "eq", "o": a + 1, "p": b + 1} for b in range(n)]
                   + ([{"op": "level", "o": a + 1, "k": k} for k in range(4)] if fn == "quotes" else [])}
    for k, m in enumerate(MUTATIONS):
        yield {"id": f"mutate-{m}", "ops": [parse("cursor", S("url(a), help")), {"op": "mutate", "o": 1, "how": m}, parse("cursor", S("move")), {"op": "mutate", "o": 2, "how": m}]}


def wide_number(rng):
    n = rng.choice([1, 3, 6, 7, 8, 10, 12, 13, 14, 15, 15, 16, 17, 20, 25])
    s = "".join(rng.choice("0123456789") for _ in range(n))
    r = rng.random()
    if r < 0.2:
        s = s[: n // 2] + rng.choice(["0", "00000", "9999999", "000000000001"]) + s[n // 2:]
    if rng.random() < 0.65:
        k = rng.randrange(len(s) + 1)
        s = s[:k] + "." + s[k:]
    if rng.random() < 0.3:
        s += rng.choice("eE") + rng.choice(["", "+", "-"]) + str(rng.choice([0, 1, 2, 3, 5, 7, 10, 15, 16, 17, 20, 22, 23, 50, 100, 250, 280, 400, 999]))
    return rng.choice(["", "", "-", "+"]) + s


def wide_pair(rng):
    a = wide_number(rng)
    u = rng.choice(UNITS + ["", "px"])
    r = rng.random()
    if r < 0.35:      # the same number, differently written
        m, _, ex = a.lower().partition("e")
        b = rng.choice([a + ("0" if "." in a and not ex else ""), m.replace("+", "") + ("e" + ex if ex else ""), m + "e" + str(int(ex or 0)), "0" + a if a[0] not in "+-" else a[0] + "0" + a[1:]])
    elif r < 0.7:     # a near neighbour
        k = rng.randrange(len(a))
        b = a[:k] + rng.choice("0123456789") + a[k + 1:] if a[k].isdigit() else a
    elif r < 0.8:
        k = rng.randrange(len(a) + 1)
        b = a[:k] + rng.choice(["", " ", ".", "-", "e", "x", "_x", "inf", "nan"]) + a[k:]
    else:
        b = wide_number(rng)
    return [a + u, b + (u if rng.random() < 0.8 else rng.choice(UNITS + [""]))]


def plainwide(s):
    """Exponents within reason."""
    return not re.search(r"[eE][+-]?[0-9]{5,}", s)


SAME = [("12", "pt", "1", "pc"), ("72", "pt", "1", "in"), ("6", "pc", "1", "in"), ("10", "mm", "1", "cm"), ("24", "pt", "2", "pc"), ("1", "cm", "28.3465", "pt"), ("0", "pt", "0", "in"), ("0", "vw", "0", "vh"),
        ("0", "px", "0", "em"), ("0", "px", "0", "%"), ("1", "vmin", "1", "vmax"), ("50", "vw", "50", "vmin"), ("5", "em", "5", "ex"), ("5", "em", "5", "ch"), ("100", "%", "100", "vw"), ("96", "px", "1", "in"),
        ("1", "px", "1", "pt"), ("1", "px", "1.0", "px"), ("-0", "mm", "0", "mm"), ("1e2", "vh", "100", "vh"), ("0.5", "pc", "6", "pt")]


def equalities(rng):
    for a, u, b, w in SAME:
        yield {"id": f"eq-{a}{u}-{b}{w}", "ops": [parse("length", S(a + u)), parse("length", S(b + w)), {"op": "eq", "o": 1, "p": 2}, {"op": "eq", "o": 2, "p": 1}, {"op": "eq", "o": 1, "p": 1}]}
    for k, u in enumerate(UNITS):
        ops = [{"op": "unit", "v": {"t": "len", "u": w, "n": 1, "d": 1}} for w in UNITS]
        yield {"id": f"eq-all-{u}", "ops": ops + [{"op": "eq", "o": k + 1, "p": j + 1} for j in range(len(UNITS))]}


def gen(prop, tier, seed, names=()):
    rng = random.Random(f"values-{prop}-{seed}")
    q = tier == "quick"
    if prop == "C07":
        ts = [s for s in (length_text(rng) for _ in range(5000 if q else 80000)) if safe(s)]
        ts += [n + u for n in ("0", "1", "-1", "2.5", "1e2", "+3", "007", ".5") for u in UNITS]
        for k, part in enumerate(chunks(ts, 20)):
            yield {"id": f"len-{k}", "ops": [parse("length", S(s)) for s in part]}
        raws = [r for r in ALL if r["k"] != "str"] + FAM["nolength"] + FAM["lengthtext"] + FAM["length"]
        for k, part in enumerate(chunks(raws, 20)):
            yield {"id": f"raw-{k}", "ops": [parse("length", r) for r in part]}
        ws = [w for w in (wide_pair(rng) for _ in range(4000 if q else 60000)) if all(plainwide(s) for s in w)]
        for k, part in enumerate(chunks(ws, 20)):
            yield {"id": f"wide-{k}", "ops": [{"op": "wide", "ts": w} for w in part]}
        yield from equalities(rng)
        ctx = {"dpi": 96, "w": 6400, "h": 3200, "em": 100, "ex": 50, "ch": 60, "sn": 100, "sd": 1}
        for k in range(250 if q else 5000):
            yield arithmetic(rng, f"arith-{k}", 12, [ctx])
    elif prop == "C08":
        yield from conversions(rng, tier)
        ctx = [{"dpi": d, "w": 6400, "h": h, "em": 100, "ex": 50, "ch": 60, "sn": sn, "sd": sd} for d in (72, 96) for h in (3200, 12800) for sn, sd in ((100, 1), (25, 2))]
        for k in range(200 if q else 4000):
            yield arithmetic(rng, f"arith-{k}", 14, ctx)
        for k in range(60 if q else 1000):
            yield arithmetic(rng, f"angle-{k}", 14, ctx, angle=True)
    elif prop == "C09":
        yield from colors(rng, tier, names)
    elif prop == "C10":
        yield from composites(rng, tier)
