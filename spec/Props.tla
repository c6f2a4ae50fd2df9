------------------------------- MODULE Props --------------------------------
(***************************************************************************)
(* The table of CSS properties: what each one accepts, and its initial     *)
(* value.  Written from the CSS 2.1 property index as colosseum documents  *)
(* it; nothing here is read from the code.                                 *)
(***************************************************************************)
EXTENDS Values

(* A kind: kw - its keywords, none - whether 'none' is one of them,        *)
(* dflt - the explicit defaulting keywords, rd - readers tried in order,   *)
(* ua - whether the user agent default is a value.                         *)
Kind(kw, none, dflt, rd) == [kw |-> kw, none |-> none, dflt |-> dflt, rd |-> rd, ua |-> FALSE]

BorderStyles == {"hidden", "dotted", "dashed", "solid", "double", "groove", "ridge", "inset", "outset"}
Thickness == {"thin", "medium", "thick"}
Inherit == {"inherit"}

Kinds ==
  ("margin"       :> Kind({"auto"}, FALSE, {}, <<"length">>)) @@
  ("padding"      :> Kind({}, FALSE, {}, <<"length">>)) @@
  ("bwidth"       :> Kind(Thickness, FALSE, {}, <<"length">>)) @@
  ("bstyle"       :> Kind(BorderStyles, TRUE, {}, <<>>)) @@
  ("bcolor"       :> Kind({"transparent"}, FALSE, {"initial", "inherit", "unset", "revert"}, <<"color">>)) @@
  ("display"      :> Kind({"inline", "block", "list-item", "inline-block", "table", "inline-table", "table-row-group",
                           "table-header-group", "table-footer-group", "table-row", "table-column-group", "table-column",
                           "table-cell", "table-caption", "flex", "inline-flex", "grid", "inline-grid"}, TRUE, {}, <<>>)) @@
  ("position"     :> Kind({"static", "relative", "absolute", "fixed"}, FALSE, {}, <<>>)) @@
  ("offset"       :> Kind({"auto"}, FALSE, Inherit, <<"length">>)) @@
  ("float"        :> Kind({"left", "right"}, TRUE, {}, <<>>)) @@
  ("clear"        :> Kind({"left", "right", "both"}, TRUE, {}, <<>>)) @@
  ("zindex"       :> Kind({"auto"}, FALSE, {}, <<"integer">>)) @@
  ("direction"    :> Kind({"ltr", "rtl"}, FALSE, {}, <<>>)) @@
  ("bidi"         :> Kind({"normal", "embed", "bidi-override"}, FALSE, {}, <<>>)) @@
  ("size"         :> Kind({"auto"}, FALSE, {}, <<"length">>)) @@
  ("maxsize"      :> Kind({}, TRUE, {}, <<"length">>)) @@
  ("overflow"     :> Kind({"visible", "hidden", "scroll", "auto"}, FALSE, Inherit, <<>>)) @@
  ("clip"         :> Kind({"auto"}, FALSE, Inherit, <<"rect">>)) @@
  ("visibility"   :> Kind({"visible", "hidden", "collapse"}, FALSE, {}, <<>>)) @@
  ("quotes"       :> Kind({"initial"}, TRUE, Inherit, <<"quotes">>)) @@
  ("pagebreak"    :> Kind({"auto", "always", "avoid", "left", "right"}, FALSE, Inherit, <<>>)) @@
  ("pageinside"   :> Kind({"auto", "avoid"}, FALSE, Inherit, <<>>)) @@
  ("count"        :> Kind({}, FALSE, Inherit, <<"integer">>)) @@
  ("color"        :> [Kind({}, FALSE, {}, <<"color">>) EXCEPT !.ua = TRUE]) @@
  ("background"   :> [Kind({"transparent"}, FALSE, {}, <<"color">>) EXCEPT !.ua = TRUE]) @@
  ("indent"       :> Kind({}, FALSE, Inherit, <<"length">>)) @@
  ("align"        :> Kind({"left", "right", "center", "justify"}, FALSE, Inherit, <<>>)) @@
  ("decoration"   :> Kind({"underline", "overline", "line-through", "blink"}, TRUE, Inherit, <<>>)) @@
  ("spacing"      :> Kind({"normal"}, FALSE, Inherit, <<"length">>)) @@
  ("transform"    :> Kind({"capitalize", "uppercase", "lowercase"}, TRUE, Inherit, <<>>)) @@
  ("whitespace"   :> Kind({"normal", "pre", "nowrap", "pre-wrap", "pre-line"}, FALSE, Inherit, <<>>)) @@
  ("captionside"  :> Kind({"top", "bottom"}, FALSE, Inherit, <<>>)) @@
  ("tablelayout"  :> Kind({"auto", "fixed"}, FALSE, Inherit, <<>>)) @@
  ("bcollapse"    :> Kind({"collapse", "separate"}, FALSE, Inherit, <<>>)) @@
  ("bspacing"     :> Kind({}, FALSE, Inherit, <<"spacing">>)) @@
  ("emptycells"   :> Kind({"show", "hide"}, FALSE, Inherit, <<>>)) @@
  ("cursor"       :> Kind({}, FALSE, Inherit, <<"cursor">>)) @@
  ("owidth"       :> Kind(Thickness, FALSE, Inherit, <<"length">>)) @@
  ("ostyle"       :> Kind(BorderStyles, TRUE, Inherit, <<>>)) @@
  ("ocolor"       :> Kind({"invert"}, FALSE, Inherit, <<"color">>))

(* Initial values.  "follows" names the property whose value is taken      *)
(* instead; text-align starts at the side the direction starts from.       *)
Zero == Px(0)
Follows(p) == [t |-> "follows", s |-> p]
ByDirection == [t |-> "bydirection"]
Row(kind, init) == [kind |-> kind, init |-> init]

Longhand ==
  ("margin_top" :> Row("margin", Zero)) @@ ("margin_right" :> Row("margin", Zero)) @@
  ("margin_bottom" :> Row("margin", Zero)) @@ ("margin_left" :> Row("margin", Zero)) @@
  ("padding_top" :> Row("padding", Zero)) @@ ("padding_right" :> Row("padding", Zero)) @@
  ("padding_bottom" :> Row("padding", Zero)) @@ ("padding_left" :> Row("padding", Zero)) @@
  ("border_top_width" :> Row("bwidth", Zero)) @@ ("border_right_width" :> Row("bwidth", Zero)) @@
  ("border_bottom_width" :> Row("bwidth", Zero)) @@ ("border_left_width" :> Row("bwidth", Zero)) @@
  ("border_top_color" :> Row("bcolor", Follows("color"))) @@ ("border_right_color" :> Row("bcolor", Follows("color"))) @@
  ("border_bottom_color" :> Row("bcolor", Follows("color"))) @@ ("border_left_color" :> Row("bcolor", Follows("color"))) @@
  ("border_top_style" :> Row("bstyle", None)) @@ ("border_right_style" :> Row("bstyle", None)) @@
  ("border_bottom_style" :> Row("bstyle", None)) @@ ("border_left_style" :> Row("bstyle", None)) @@
  ("display" :> Row("display", Kw("inline"))) @@ ("position" :> Row("position", Kw("static"))) @@
  ("top" :> Row("offset", Kw("auto"))) @@ ("bottom" :> Row("offset", Kw("auto"))) @@
  ("left" :> Row("offset", Kw("auto"))) @@ ("right" :> Row("offset", Kw("auto"))) @@
  ("float" :> Row("float", None)) @@ ("clear" :> Row("clear", None)) @@
  ("z_index" :> Row("zindex", Kw("auto"))) @@ ("direction" :> Row("direction", Kw("ltr"))) @@
  ("unicode_bidi" :> Row("bidi", Kw("normal"))) @@
  ("width" :> Row("size", Kw("auto"))) @@ ("min_width" :> Row("size", Kw("auto"))) @@ ("max_width" :> Row("maxsize", None)) @@
  ("height" :> Row("size", Kw("auto"))) @@ ("min_height" :> Row("size", Kw("auto"))) @@ ("max_height" :> Row("maxsize", None)) @@
  ("overflow" :> Row("overflow", Kw("visible"))) @@ ("clip" :> Row("clip", Kw("auto"))) @@
  ("visibility" :> Row("visibility", Kw("visible"))) @@ ("quotes" :> Row("quotes", Kw("initial"))) @@
  ("page_break_before" :> Row("pagebreak", Kw("auto"))) @@ ("page_break_after" :> Row("pagebreak", Kw("auto"))) @@
  ("page_break_inside" :> Row("pageinside", Kw("auto"))) @@
  ("orphans" :> Row("count", IntV(2))) @@ ("widows" :> Row("count", IntV(2))) @@
  ("color" :> Row("color", Default)) @@ ("background_color" :> Row("background", Default)) @@
  ("text_indent" :> Row("indent", Zero)) @@ ("text_align" :> Row("align", ByDirection)) @@
  ("text_decoration" :> Row("decoration", None)) @@
  ("letter_spacing" :> Row("spacing", Kw("normal"))) @@ ("word_spacing" :> Row("spacing", Kw("normal"))) @@
  ("text_transform" :> Row("transform", None)) @@ ("white_space" :> Row("whitespace", Kw("normal"))) @@
  ("caption_side" :> Row("captionside", Kw("top"))) @@ ("table_layout" :> Row("tablelayout", Kw("auto"))) @@
  ("border_collapse" :> Row("bcollapse", Kw("separate"))) @@
  ("border_spacing" :> Row("bspacing", [t |-> "spacing", p |-> <<Zero>>])) @@
  ("empty_cells" :> Row("emptycells", Kw("show"))) @@
  ("cursor" :> Row("cursor", [t |-> "cursor", p |-> <<Kw("auto")>>])) @@
  ("outline_width" :> Row("owidth", Kw("medium"))) @@ ("outline_style" :> Row("ostyle", None)) @@
  ("outline_color" :> Row("ocolor", Kw("invert")))
Longhands == DOMAIN Longhand
KindOf(p) == Kinds[Longhand[p].kind]

(* The longhands in the order of their hyphenated names. *)
SortedLonghands == <<"background_color", "border_bottom_color", "border_bottom_style", "border_bottom_width",
  "border_collapse", "border_left_color", "border_left_style", "border_left_width", "border_right_color",
  "border_right_style", "border_right_width", "border_spacing", "border_top_color", "border_top_style",
  "border_top_width", "bottom", "caption_side", "clear", "clip", "color", "cursor", "direction", "display",
  "empty_cells", "float", "height", "left", "letter_spacing", "margin_bottom", "margin_left", "margin_right",
  "margin_top", "max_height", "max_width", "min_height", "min_width", "orphans", "outline_color", "outline_style",
  "outline_width", "overflow", "padding_bottom", "padding_left", "padding_right", "padding_top", "page_break_after",
  "page_break_before", "page_break_inside", "position", "quotes", "right", "table_layout", "text_align",
  "text_decoration", "text_indent", "text_transform", "top", "unicode_bidi", "visibility", "white_space", "widows",
  "width", "word_spacing", "z_index">>
ASSUME SortedComplete == {SortedLonghands[k] : k \in 1..Len(SortedLonghands)} = Longhands

(* Multi-side properties: the four sides in the order top, right, bottom, left. *)
Sided ==
  ("margin" :> <<"margin_top", "margin_right", "margin_bottom", "margin_left">>) @@
  ("padding" :> <<"padding_top", "padding_right", "padding_bottom", "padding_left">>) @@
  ("border_width" :> <<"border_top_width", "border_right_width", "border_bottom_width", "border_left_width">>) @@
  ("border_style" :> <<"border_top_style", "border_right_style", "border_bottom_style", "border_left_style">>) @@
  ("border_color" :> <<"border_top_color", "border_right_color", "border_bottom_color", "border_left_color">>)

(* Shorthands: parts in the order in which a written part is tried. *)
Part(p, kind) == [p |-> p, kind |-> kind]
Short ==
  ("outline" :> <<Part("outline_color", "ocolor"), Part("outline_style", "ostyle"), Part("outline_width", "owidth")>>) @@
  ("border_top" :> <<Part("border_top_width", "bwidth"), Part("border_top_style", "bstyle"), Part("border_top_color", "bcolor")>>) @@
  ("border_right" :> <<Part("border_right_width", "bwidth"), Part("border_right_style", "bstyle"), Part("border_right_color", "bcolor")>>) @@
  ("border_bottom" :> <<Part("border_bottom_width", "bwidth"), Part("border_bottom_style", "bstyle"), Part("border_bottom_color", "bcolor")>>) @@
  ("border_left" :> <<Part("border_left_width", "bwidth"), Part("border_left_style", "bstyle"), Part("border_left_color", "bcolor")>>) @@
  ("border" :> <<Part("border_width", "bwidth"), Part("border_style", "bstyle"), Part("border_color", "bcolor")>>)

AllNames == Longhands \cup DOMAIN Sided \cup DOMAIN Short

-----------------------------------------------------------------------------
(* Validation *)
Reader(r, raw) ==
    CASE r = "length" -> ReadLength(raw)
      [] r = "integer" -> ReadInteger(raw)
      [] r = "color" -> ReadColor(raw)
      [] r = "rect" -> ReadRect(raw)
      [] r = "spacing" -> ReadSpacing(raw)
      [] r = "quotes" -> ReadQuotes(raw)
      [] r = "cursor" -> ReadCursor(raw)

ReadKeyword(kind, raw) ==
    CASE raw.k = "none" -> IF kind.none THEN None ELSE Bad
      [] raw.k = "str" -> IF raw.s = "none" THEN (IF kind.none THEN None ELSE Bad)
                          ELSE IF raw.s \in kind.kw \cup kind.dflt THEN Kw(raw.s) ELSE Bad
      [] raw.k = "val" -> CASE raw.v.t = "kw" -> IF raw.v.s \in kind.kw \cup kind.dflt THEN raw.v ELSE Bad
                            [] raw.v.t = "none" -> IF kind.none THEN None ELSE Bad
                            [] raw.v.t = "default" -> IF kind.ua THEN Default ELSE Bad
                            [] OTHER -> Bad
      [] OTHER -> Bad

(* The value that raw denotes for a property of this kind, or Bad. *)
Validate(kind, raw) ==
    LET r == IF kind.rd = <<>> THEN Bad ELSE Reader(kind.rd[1], raw)
    IN IF OK(r) THEN r ELSE ReadKeyword(kind, raw)
=============================================================================
