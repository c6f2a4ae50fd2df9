#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
        why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     **({"state": [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {}),
                     observe_at=observe or [], hook_needed=None)))

S = "src/colosseum/"
D, E, B, PA, U, C, K, V, W, SH = [S + x + ".py" for x in
    ("declaration", "engine", "dimensions", "parser", "units", "colors", "constants", "validators", "wrappers", "shapes")]

p("C01", "A style property always reads as its declared value, else its initial value",
  "Reading a CSS property of a style declaration gives the value most recently and successfully declared for it, or its initial value when it is not declared or its declaration was deleted. Initial values that depend on another property (border side colors follow 'color', 'text-align' follows 'direction') are evaluated at the moment of reading. A declaration for one property never changes what any unrelated property reads.",
  ["histories", "inputs"], "every property, every finite history of constructing, assigning, updating and deleting declarations, and every accepted value",
  "Tests set one property at a time from a fresh declaration; they never interleave sets, deletes, shorthands and dependent initials over all ~95 properties.",
  [D, K], [("validated_property getter", D), ("OtherProperty / TextAlignInitialValue", K)],
  [("_<property>", "the declared values", D)], ["attribute and item reads of CSS"])
p("C02", "Invalid declarations are refused with ValueError and change nothing",
  "Each property accepts exactly its own keywords (including 'none' and the explicit defaulting keywords it supports) and its own kinds of value (lengths, percentages, integers, colors, rectangles, spacings, quotes, cursors); every other value, of whatever Python type, is refused with a ValueError. A refused assignment, including one that is invalid in only one part of a multi-part value, leaves every property of the declaration unchanged and does not mark any layout as dirty. An accepted value is stored in its parsed form, so a number means pixels and integer text means an integer.",
  ["inputs", "histories"], "every property, every value and every state of the declaration in which it is offered",
  "Tests try a few good and bad values per property; they cannot enumerate property x value x prior state, and never look at the state after a refusal.",
  [D, K, V, PA], [("Choices.validate", K), ("validators", V), ("directional_property setter", D), ("validated_shorthand_property setter", D)],
  None, ["exceptions and reads of CSS"])
p("C03", "Multi-side and shorthand properties expand to the right longhands",
  "Assigning 1, 2, 3 or 4 values to margin, padding, border-width, border-style or border-color sets top, right, bottom and left by the CSS order rules, and reading it gives those four sides. Assigning border, border-top/right/bottom/left or outline sets the parts given, in any order, and resets the parts not given to their initial values; deleting one deletes all its longhands. Reading border-top/right/bottom/left or outline reports exactly the longhands that are declared.",
  ["inputs", "histories"], "every multi-side and shorthand property, every combination and order of parts, from every prior state",
  "Tests cover a few combinations from fresh declarations; resetting of parts set earlier and interleaving with longhand changes need histories.",
  [D, PA, W], [("directional_property", D), ("validated_shorthand_property", D), ("border/outline parsers", PA)],
  None, ["reads of CSS"])
p("C04", "All the views of a style declaration agree with each other",
  "Attribute access, item access with hyphens or underscores, update(), keys(), items() and the text form of a declaration all describe and change one and the same set of declarations, and the text form lists them sorted by name as 'name: value' joined by '; '. update() with None deletes the declaration. Unknown names are refused (KeyError for items, NameError for update and construction) and change nothing. Whatever a caller does afterwards to the list or collection it passed in, or to the views it was handed, leaves the declaration as it was.",
  ["histories", "inputs"], "every history of operations mixing all the access paths, every property name and spelling",
  "Tests use each path in isolation on a handful of properties.",
  [D], [("CSS.update/__getitem__/__setitem__/__delitem__/items/keys/__str__", D)], None, ["CSS dict-like interface", "str(style)"])
p("C05", "A copied style is equal, independent, and bound to the node it is copied for",
  "A copy of a style declaration reads the same as the original for every property at the moment of copying, whatever was declared. Afterwards changes to either one never affect the other. The copy belongs to the node it was made for, so changes to the copy mark that node's layout dirty and never the original's node.",
  ["histories", "inputs"], "every declaration reachable by any history, followed by any history of changes to original and copy",
  "Tests copy one declaration with two properties and do not continue with a history on both.",
  [D], [("CSS.copy", D)], None, ["CSS.copy", "node.layout.dirty"])
p("C06", "Whatever changes a node's style or intrinsic size marks its layout dirty",
  "Any change to a style property of a node, or to its intrinsic size, marks the layout of that node and of all its displayed descendants dirty, and no one else's. Assigning the value a keyword, number or length property or an intrinsic attribute already has, deleting a single property that is not declared, reading, and refused assignments leave dirtiness as it was. Nodes without a box can be restyled without error.",
  ["histories", "inputs"], "every property and intrinsic attribute, every prior state of dirtiness of the tree, every history",
  "Tests check one node with a mocked or single layout for a few properties; propagation and no-op histories over trees are not enumerated.",
  [D, B], [("CSS.dirty proxy", D), ("Size setters", B), ("Box.dirty setter", B)],
  [("_dirty", "dirtiness of a box", B)], ["node.layout.dirty", "style.dirty", "intrinsic.dirty"])
p("C07", "Length text is parsed exactly, and its text form parses back to the same length",
  "Text made of a number and one of the units px, em, ex, ch, pt, pc, in, cm, mm, vh, vw, vmin, vmax or % is that many of that unit, a bare number (text or numeric) is pixels, and an existing length is itself. Anything else, including unknown units, angles, missing or non-finite numbers, is refused with a ValueError. The text form of a length (whole numbers without a decimal point) parses back to an equal length, and lengths are equal only if number and unit are.",
  ["inputs"], "every number, every unit and every malformed neighbour of such text",
  "Tests sample a few values per unit.",
  [PA, U], [("parser.units", PA), ("BaseUnit.__repr__, __eq__", U)], None, ["parser.units", "str(unit)", "=="])
p("C08", "Lengths convert to pixels by their definition, on the 1/64-pixel grid",
  "A length converts to pixels as its number times the size of its unit (px; pt, pc, in, cm, mm through the display's dots per inch; em, ex, ch through the font; vw, vh, vmin, vmax through the viewport; % through the reference size), rounded to the nearest 1/64 pixel, and is an int whenever that is whole. Angles convert to degrees by deg = 1, grad = 0.9, rad = 180/pi, turn = 360. Multiplying or negating a unit gives a new length of the same kind and leaves the original as it was.",
  ["inputs", "configurations"], "every unit, number, display density, viewport, font and reference size",
  "Tests check one or two values per unit on one display.",
  [U], [("lu/px/deg/dup", U)], None, ["px()", "lu()", "deg()", "* and unary -"])
p("C09", "Color text denotes the right color, and HSL converts to RGB correctly",
  "#RGB, #RGBA, #RRGGBB, #RRGGBBAA, rgb(), rgba(), hsl(), hsla() and the CSS color names (in any case) denote exactly the channels the notation spells, and any other text is refused with ValueError. A color given as HSL converts to the RGB triple of the standard formula for every hue (taken modulo 360), saturation and lightness, rounded to the nearest integer, with alpha kept. An existing color is accepted as itself.",
  ["inputs"], "every color name, every hexadecimal and functional notation, every hue/saturation/lightness",
  "Tests check a dozen colors; the hue sextants and their borders were not covered (one was wrong).",
  [C, PA], [("parser.color, pound_sign_color", PA), ("hsl.rgb, NAMED_COLOR", C)], None, ["parser.color", "color.rgb"])
p("C10", "Rectangles, spacings, quotes, urls and cursors parse and render faithfully",
  "Clip rectangles (four lengths separated by commas or by spaces), border spacings (one or two lengths), quote pairs, urls (single, double or no quotes) and cursor lists (urls followed by at most one cursor keyword) parse to exactly the parts written, in order, from text or from sequences, and malformed ones are refused with ValueError. Their text form parses back to the same parts. The values handed out cannot be modified in place: every mutating list operation on a cursor raises TypeError and leaves it as it was, and so does any later use of the sequence it was made from. Rectangles, and quotes, are equal exactly if all their parts are, and a quote level beyond the last is an IndexError.",
  ["inputs", "histories"], "every number and arrangement of parts and whitespace, every malformed neighbour, every sequence of attempted mutations",
  "Tests sample a few texts and did not try every mutating operation (several worked).",
  [PA, W, SH], [("parser.rect/border_spacing/quotes/uri/cursor", PA), ("Rect", SH), ("BorderSpacing, Quotes, Uri, ImmutableList, Cursor", W)], None, ["parsers", "str()", "list operations"])
p("C11", "Content, padding and border boxes of a layout box are always consistent",
  "For every box, the padding box is the content box grown by the padding on each side and the border box is the padding box grown by the border widths; width = right - left and height = bottom - top for each of the three. Absolute coordinates are the origin plus the relative ones, for every edge of every box. The text form of a box shows its content size and absolute content corner. This holds after any history of changes to any of the stored quantities.",
  ["histories", "inputs"], "every assignment of sizes, paddings, borders, positions and origins, in any order",
  "Tests set one configuration and read the edges.",
  [B], [("Box computed properties", B)], [("content_*, padding_*, border_*_width, origin", "stored geometry", B)], ["Box attributes"])
p("C12", "A child's origin is always its parent's absolute content corner",
  "Whenever the position or the origin of a box changes, the absolute positions of all its displayed descendants move with it, so that in any tree each displayed child's absolute position is its parent's absolute content corner plus its own relative position. Resetting a box puts it and its displayed descendants back at zero geometry, dirty. Margins extend the collapsed margin of their own side and of no other.",
  ["histories"], "every tree shape and every history of position changes, resets and hiding on any node of it",
  "Tests move one parent with children once; multi-level histories with hidden nodes in between are not explored.",
  [B], [("content_top/left and origin setters", B), ("reset", B), ("margin/collapse setters", B)],
  [("origin_top/left", "absolute position of the containing block", B)], ["Box.absolute_*"])
p("C13", "Block widths and horizontal margins satisfy the CSS 10.3.3 equation",
  "After layout, margins, borders, padding and content width of a normal-flow block add up to the width of its containing block: an auto width absorbs what is left, otherwise one auto margin does, two auto margins share it equally in whole pixels, and with none auto the end margin (right in left-to-right, left in right-to-left) is adjusted; auto margins are zero when the box would overflow. An explicit width is limited by max-width and then by min-width before that. The content edge lies after left margin, border and padding.",
  ["inputs", "configurations"], "every combination of auto, length and percentage for width, margins, borders, paddings, min/max-width and direction, in every container",
  "Tests sample a few combinations (mainly W3C pages, most marked not implemented).",
  [E], [("calculate_block_non_replaced_normal_flow_width", E)], None, ["layout()", "Box margins and content_width/left"])
p("C14", "Blocks stack vertically with collapsed margins",
  "After layout, each displayed block child starts below the previous one, separated by the larger of the previous one's bottom and its own top (collapsed) margin, and children in document order never overlap. The first child's top margin and, when the height is automatic, the last child's bottom margin collapse into their parent's margin unless the parent has border or padding on that side, in which case they take up space inside the parent. Undisplayed children take no space.",
  ["inputs", "histories"], "every tree of normal-flow blocks with non-negative margins, any borders and paddings, any depth and fan-out",
  "Tests use few small trees; collapsing through several levels with mixed borders is not covered.",
  [E, B], [("layout_box block formatting context", E), ("collapse_* setters", B)], None, ["layout()", "Box.content_top, collapse_top/bottom"])
p("C15", "Block heights come from the explicit height or from the content",
  "After layout, a block with an explicit height has that content height, limited by max-height; a block with automatic height reaches exactly to the bottom border edge of its last displayed child (plus that child's margin when it cannot collapse), or is zero when it has none. Neither is ever below min-height. Auto vertical margins count as zero.",
  ["inputs", "configurations"], "every combination of auto, length and percentage for height, min-height, max-height, in every tree of normal-flow blocks",
  "Tests sample a few pages.",
  [E], [("calculate_block_non_replaced_normal_flow_height", E)], None, ["layout()", "Box.content_height"])
p("C16", "Relative positioning shifts a box without disturbing its surroundings",
  "A relatively positioned block is shifted from its normal-flow position by left (or minus right) and top (or minus bottom): left wins over right unless the containing block is right-to-left, top wins over bottom, and two autos mean no shift. Its descendants move along with it. Its size, its siblings' positions and sizes and all boxes elsewhere are what they would be without the shift.",
  ["inputs", "configurations"], "every combination of offsets, positions and directions on any node of any tree of blocks",
  "Tests sample a few offsets; many W3C pages are marked not implemented.",
  [E], [("layout_box section 9.4.3", E)], None, ["layout()", "Box positions"])
p("C17", "Inline and replaced elements take their CSS 10.3.1/10.3.2 and 10.6.1/10.6.2 size",
  "An inline element takes its intrinsic width and height; an inline replaced element takes its explicit width and height, or for auto ones the intrinsic ones, or else those derived from the intrinsic ratio, or else 300 wide and half as high but at most 150. Auto margins are zero. The content box lies after the top margin, border and padding (and for replaced elements after the left ones).",
  ["inputs", "configurations"], "every combination of auto, length and percentage sizes with present or absent intrinsic width, height and ratio",
  "Tests sample about ten combinations.",
  [E], [("calculate_inline_*_width/height", E)], None, ["layout()", "Box"])
p("C18", "An element with display none has no box and leaves no trace in the layout",
  "After layout, an element with display none and all its descendants have no box, and every other element is laid out exactly as if that element were not in the document. Displaying it again gives, at the next layout, exactly the layout of a document in which it had always been displayed. This includes the root element, and restyling elements while they are not displayed.",
  ["histories", "configurations"], "every subset of hidden elements in every document and every history of hiding, showing, restyling and laying out",
  "Tests never hide and show elements; hidden elements in block flow used to crash.",
  [E, B], [("layout_box display none branch", E)], [("node.layout", "None when not displayed", E)], ["node.layout"])
p("C19", "Layout depends only on document, styles and display, and changes only boxes",
  "Laying out a document gives the same boxes however often it is repeated and whatever was laid out, edited, added, removed or moved before: they equal those of a freshly built document with the same structure and styles. Layout never changes the structure, the declared styles or the intrinsic sizes.",
  ["histories"], "every history of style, intrinsic, structure and display changes interleaved with layouts",
  "Every test lays out a fresh document exactly once.",
  [E, B], [("layout() reset", E), ("Box.reset", B)], None, ["layout()"])
p("C20", "The root box fits the viewport according to the HTML standard in force",
  "The root block is laid out in a containing block of the size of the viewport, its content starting below its full collapsed top margin. In HTML5 mode its content height is the viewport height minus its collapsed top and bottom margins, whatever its style; in HTML4 mode its height follows from style and content like any other block. The mode makes no difference to any other box except through that.",
  ["configurations", "inputs"], "every viewport size, both standards, every root style and content",
  "Tests use one viewport and mostly no root margins.",
  [E], [("layout()", E)], None, ["layout()", "root Box"])
p("C21", "Layout resolves every length against the right reference",
  "In layout, percentages for width, min-width, max-width, all margins and all paddings refer to the content width of the containing block, and a percentage height to the explicit height of the parent. Border width keywords thin, medium and thick take the display's sizes, and viewport and physical units take the display's size and density. All resolved sizes lie on the 1/64-pixel grid.",
  ["inputs", "configurations"], "every unit on every size property of every side, in every container and on every display",
  "Tests cover a few percentages; the references of several paddings and margins were wrong.",
  [E, U], [("layout_box contexts, calculate_size", E), ("Unit.px", U)], None, ["layout()", "Box margins, borders, paddings, sizes"])

p("C22", "A property defined from choices, validators and an initial value behaves so",
  "A validator returns the parsed value of exactly the inputs of its kind (numbers and integers within the given limits, both included; percentages only if not negative) and raises ValidationError for all others. Choices accept what the first accepting validator returns, else the constant or defaulting keyword equal to the value ('none' meaning None), and raise ValueError for everything else; their text form lists the constants, validator descriptions and defaulting keywords, each once, sorted. A property defined from choices on any class reads the last accepted value, else its initial value (for a reference or computed initial value: evaluated when read), refuses other values with a ValueError listing the choices, is deleted back to its initial value, and marks its object dirty exactly when its declaration changes; one defined without validation does the same with any value. Neither choices nor objects influence one another.",
  ["inputs", "configurations", "histories"], "every combination of constants, validators, limits and defaulting keywords, every initial value, every value offered, every history of objects",
  "Tests try a dozen fixed choices with a few values each, and limits only at three points.",
  [K, V, D], [("Choices.validate, Choices.__str__, OtherProperty", K), ("is_number, is_integer, is_percentage, ...", V), ("validated_property", D)], None, ["Choices", "validators", "validated_property on a class"])
p("C23", "Shorthand readers and records hold exactly the parts written",
  "The readers of outline, border and border-top/right/bottom/left turn a text or a sequence of one to three parts, in any order, into exactly those parts, each under the first longhand whose choices accept it, with its parsed value, and refuse with ValueError anything empty, longer, unknown, or with two parts for the same longhand. A shorthand record holds exactly the parts it was made with and refuses other names with ValueError (as does a record class without names); it lists its parts in its fixed order whatever the order given, its text form is theirs joined by spaces, and two records are equal exactly if they are of the same class with the same parts. What a caller does to the dictionary of a record leaves the record as it was.",
  ["inputs", "histories"], "every sequence of parts for every shorthand, every subset and order of parts of every record, user-defined record classes included",
  "Tests permute the parts of one or two examples.",
  [PA, W], [("outline(), border(), border_*()", PA), ("Shorthand", W)], None, ["parser.outline, parser.border*", "wrappers.Shorthand and its subclasses"])

p("C24", "What cannot be laid out is refused, never laid out as something else",
  "Layout of a document in which a displayed element floats, is absolutely positioned or fixed, is a replaced block-level element or an inline block raises NotImplementedError, and of one with an element displayed as anything but block, list-item, table, inline or inline-block (where no block is its sibling) some exception. Elements that are not displayed, and their descendants, are never a reason to refuse, and every other document of blocks with only block children or only inline children of known size is laid out without an exception. A refused layout leaves structure, styles and intrinsic sizes as they were, and once the reason is gone, layout gives exactly the boxes of a fresh document.",
  ["inputs", "histories"], "every combination of unsupported features on every element of every document, coming and going between layouts",
  "No passing test lays out anything unsupported.",
  [E], [("layout_box, calculate_width_and_margins, calculate_height_and_margins", E)], None, ["layout()"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
