"""Raw values offered to properties, by family (JSON encoding of spec/Values.tla)."""
import json


def S(s): return {"k": "str", "s": s}
def I(i): return {"k": "int", "i": i}
def F(n, d): return {"k": "float", "n": n, "d": d}
def T(*p): return {"k": "tuple", "p": list(p)}
def L(*p): return {"k": "list", "p": list(p)}
def V(**v): return {"k": "val", "v": v}
def O(x): return {"k": "other", "x": x}
def length(u, n, d=1): return {"t": "len", "u": u, "n": n, "d": d}


UNITS = ["px", "em", "ex", "ch", "pt", "pc", "in", "cm", "mm", "vh", "vmax", "vmin", "vw", "%"]
KEYWORDS = """auto none inherit initial unset revert transparent thin medium thick hidden dotted dashed solid double groove ridge
inset outset inline block list-item inline-block table inline-table table-row-group table-header-group table-footer-group table-row
table-column-group table-column table-cell table-caption flex inline-flex grid inline-grid static relative absolute fixed left right
both ltr rtl normal embed bidi-override visible scroll collapse always avoid center justify underline overline line-through blink
capitalize uppercase lowercase pre nowrap pre-wrap pre-line top bottom separate show hide invert crosshair default pointer move
e-resize ne-resize nw-resize n-resize se-resize sw-resize s-resize w-resize text wait progress help""".split()
EXTRA_KEYWORDS = ["AUTO", "Auto", " auto", "auto ", "None", "", " ", "inherit ", "list_item", "sticky", "row", "column", "wrap",
                  "contents", "run-in", "start", "end", "baseline", "bold", "currentcolor", "all", "xx"]

FAM = {}
FAM["keyword"] = [S(k) for k in KEYWORDS]
FAM["nokeyword"] = [S(k) for k in EXTRA_KEYWORDS]
FAM["number"] = [I(0), I(1), I(7), I(-3), I(300), F(1, 2), F(5, 2), F(-7, 4), F(3, 1), F(1, 10), {"k": "int", "i": 1, "bool": True}, {"k": "int", "i": 0, "bool": True}]
FAM["lengthtext"] = [S(x) for x in ["0", "1", "10", "-4", "2.5", "0.5px", "10px", "-3px", "1e2px", "1.5E1", "+7px", ".5em", "5.px", " 12px", "12 px",
                     "3em", "2ex", "4ch", "12pt", "1pc", "1in", "2.54cm", "10mm", "50vh", "25vmax", "10vmin", "100vw", "50%", "33.3%", "-10%", "0%"]]
FAM["length"] = [V(**length(u, 3)) for u in UNITS] + [V(**length("px", 1, 2)), V(**length("%", 50)), V(**length("px", 0)), V(**length("em", -5, 4))]
FAM["nolength"] = [S(x) for x in ["px", "em", "%", "10 20", "10pxx", "px10", "1 0px", "--1px", "1.2.3px", "e5", "1e", "inf", "nan", "infpx", "90deg", "1turn",
                   "2rad", "3grad", "0x10", "1,5px", "10PX", "5m", "5%%", "10px;", "."]] + [O("deg"), O("turn"), O("inf"), O("nan"), O("ninf")]
FAM["integertext"] = [S(x) for x in ["3", "-12", "+4", " 5 ", "007", "1.0", "3.7", "1e3", "12a", "- 3"]]
FAM["color"] = [S(x) for x in ["red", "Blue", "REBECCAPURPLE", "darkslategray", "grey", "#fff", "#0Af8", "#1234ab", "#1234AB80", "rgb(1,2,3)", "rgb( 10 , 20 , 30 )",
                "rgba(1,2,3,0.5)", "rgba(255, 255, 255, 1)", "hsl(120,50%,25%)", "hsla(300, 100%, 50%, 0.25)", "hsl(-30, 10, 20)"]] + \
               [V(t="rgb", r=1, g=2, b=3, an=1, ad=1), V(t="rgb", r=255, g=0, b=9, an=1, ad=4), V(t="hsl", h=200, sn=1, sd=2, ln=1, ld=4, an=1, ad=1)]
FAM["nocolor"] = [S(x) for x in ["#", "#f", "#ff", "#fffff", "#fffffff", "#ggg", "#12 4ab", "rgb(1,2)", "rgb(1,2,3,4)", "rgba(1,2,3)", "rgb(1,2,x)", "rgb(1,2,3",
                  "rgb1,2,3)", "RGB(1,2,3)", "hsl(1,2%)", "hsl(a,1%,1%)", "hsla(1,1%,1%)", "rgb(1.5,2,3)", "reddish", "red blue", "rgb()", "#-12", "hsl(10%,10%,10%)"]]
FAM["rect"] = [S(x) for x in ["rect(1px, 2px, 3px, 4px)", "rect(1px 2px 3px 4px)", "rect(1,2,3,4)", "  rect( 1em ,2px,3%,  4 ) ", "rect(-1px,0,0,1.5px)"]] + \
              [V(t="rect", p=[length("px", k) for k in (1, 2, 3, 4)]), V(t="rect", p=[length("em", 1), length("px", 2), length("%", 3), length("px", 4)])]
FAM["norect"] = [S(x) for x in ["rect()", "rect(1px)", "rect(1px,2px,3px)", "rect(1px,2px,3px,4px,5px)", "rect(1px 2px 3px)", "rect(1px,2px 3px,4px)", "rect(a,b,c,d)",
                 "rect(1,2,3,4", "rect 1,2,3,4", "rect(1,2,3,4) rect(1,2,3,4)", "xrect(1,2,3,4)", "rect(1,2,3,auto)", "rect(,,,)"]]
FAM["spacing"] = [S(x) for x in ["1px 2px", "3em", " 4px   5px ", "0 0", "1.5 2"]] + [T(I(1), I(2)), L(I(3)), L(S("4px"), S("5em")), T(V(**length("px", 9))),
                  V(t="spacing", p=[length("px", 1)]), V(t="spacing", p=[length("px", 1), length("em", 2)])]
FAM["nospacing"] = [S("1px 2px 3px"), S("1px x"), S("x 1px"), S("1px,2px"), T(), L(), T(I(1), I(2), I(3)), T(S("x")), L(I(1), S("red")), T(T(I(1)), I(2)), T({"k": "none"})]
FAM["quotes"] = [S("'<' '>'"), S("\"<\" \">\""), S("'<' '>' '{' '}'"), S("'a'   \"b\""), T(S("<"), S(">")), L(S("<"), S(">")), L(T(S("<"), S(">")), T(S("{"), S("}"))),
                 T(L(S("<<"), S(">>"))), V(t="quotes", q=[["<", ">"]]), V(t="quotes", q=[["<", ">"], ["'", "x"]])]
FAM["noquotes"] = [S("'<'"), S("'<' '>' '{'"), S("< >"), S("'<' >"), S("'<"), S("1 2"), S("'' ''"), T(S("<")), L(), T(), L(S("<"), I(3)), T(I(1), I(2)), L(T(S("<"))), L(T(S(""), S("x"))), L(T(I(1), I(2))), S("'<' ''"), S("'<' '>' '{' ''"), S("'<' 3"), L(T(S("<"), S(""))), L(T(S("<"), I(3))), T(L(S("a"), S("b")), L(S("<"), S("")))]
FAM["cursor"] = [S("pointer"), S("url(a.png), help"), S("url('a.png'),url(\"b.png\") , move"), S("url(x)"), S("url( y ), url(z)"), T(S("pointer")), L(S("url(a.png)"), S("wait")),
                 L(V(t="uri", s="q.png"), S("text")), T(V(t="uri", s="q.png")), V(t="cursor", p=[{"t": "kw", "s": "help"}]), V(t="cursor", p=[{"t": "uri", "s": "c"}, {"t": "kw", "s": "move"}])]
FAM["nocursor"] = [S("pointer, help"), S("pointer, url(a)"), S("url(a.png"), S("ur(a), help"), S("url(a), nope"), S(","), S("pointer,"), L(S("pointer"), S("help")), L(S("pointer"), S("url(a)")), L(I(1)), L(S("x")), T(S("url(a)"), I(2)), L(L(S("pointer")))]
FAM["shorthand"] = [S(x) for x in ["solid", "red", "3px", "thick", "solid red", "red solid", "2px dashed", "dashed 2px blue", "blue 2px dotted", "none", "medium none",
                    "thin double #0f0", "inherit", "invert", "transparent solid", "0 hidden"]] + \
                   [T(S("solid"), S("red")), L(I(3), S("dashed")), T(V(**length("px", 2)), S("solid"), V(t="rgb", r=1, g=2, b=3, an=1, ad=1)), L(S("thin")), T(S("red"), I(4), S("ridge"))]
FAM["noshorthand"] = [S(x) for x in ["solid solid", "red blue", "3px 4px", "solid red 3px 4px", "solid red 3px red", "solid nope", "nope", "  ", "solid, red", "thick 3px"]] + \
                     [T(), L(), T(S("solid"), S("dashed")), L(S("x")), T(S("solid"), S("red"), I(1), I(2)), T(T(S("solid"))), L({"k": "none"}, S("red"), S("none"))]
FAM["tuple"] = [T(I(1)), T(I(1), I(2)), T(I(1), I(2), I(3)), T(I(1), I(2), I(3), I(4)), T(S("auto"), I(5)), T(S("solid"), S("dashed"), S("none"), S("double")), T(S("red"), S("blue")),
                T(S("thin"), S("thick"), S("medium")), T(S("1%"), S("2em"))]
FAM["notuple"] = [T(I(1), I(2), I(3), I(4), I(5)), T(I(1), S("bad")), T(I(1), I(2), I(3), S("bad")), T(S("red"), S("bad"), S("red")), T(S("solid"), S("bad")), T(I(1), O("dict"))]
FAM["other"] = [{"k": "none"}, O("bytes"), O("dict"), O("set"), O("object"), O("complex"), O("function"), O("type"), O("unhashable"), O("range"), O("ellipsis"),
                V(t="default"), V(t="uri", s="u")]
ALL = []
_seen = set()
for fam in FAM.values():
    for r in fam:
        k = json.dumps(r, sort_keys=True)
        if k not in _seen:
            _seen.add(k)
            ALL.append(r)

# families worth offering to a property often
RELEVANT = {}
def rel(names, *fams):
    for n in names.split():
        RELEVANT[n] = fams
LEN = ("number", "lengthtext", "length", "nolength", "keyword")
rel("margin_top margin_right margin_bottom margin_left padding_top padding_right padding_bottom padding_left border_top_width border_right_width border_bottom_width "
    "border_left_width top bottom left right width height min_width min_height max_width max_height text_indent letter_spacing word_spacing outline_width", *LEN)
rel("margin padding border_width", "number", "lengthtext", "tuple", "notuple", "keyword", "length")
rel("border_style", "keyword", "tuple", "notuple")
rel("border_color", "color", "nocolor", "tuple", "notuple")
rel("border_top_color border_right_color border_bottom_color border_left_color color background_color outline_color", "color", "nocolor", "keyword")
rel("z_index orphans widows", "number", "integertext", "keyword")
rel("clip", "rect", "norect", "keyword")
rel("border_spacing", "spacing", "nospacing", "number", "lengthtext")
rel("quotes", "quotes", "noquotes", "keyword")
rel("cursor", "cursor", "nocursor", "keyword")
rel("border border_top border_right border_bottom border_left outline", "shorthand", "noshorthand")
