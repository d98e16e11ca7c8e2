"""Generate properties.jsonl and MANIFEST.json from one table."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state, observe, technique, note):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, state=state, observe=observe, technique=technique, note=note))


E = "src/colosseum/engine.py"
D = "src/colosseum/dimensions.py"
C = "src/colosseum/declaration.py"
K = "src/colosseum/constants.py"
PA = "src/colosseum/parser.py"
V = "src/colosseum/validators.py"
U = "src/colosseum/units.py"
CO = "src/colosseum/colors.py"
W = "src/colosseum/wrappers.py"
S = "src/colosseum/shapes.py"

MODEL_NOTE = ("Sampled, not exhaustive: documents are drawn at random (up to a few dozen boxes, depth up to 7) and compared "
              "box by box with an independent reference layout written from CSS 2.1; cases the reference does not "
              "define (listed in DESIGN.md) are excluded by construction.")

prop("C01", "Block boxes fit their containing block horizontally",
     "Every block-level, non-replaced box in normal flow gets used horizontal values (CSS 2.1 10.3.3, and 10.4 for an explicit width) "
     "such that left margin + border + padding + content width + padding + border + right margin equals the width of its containing block. "
     "An automatic width takes the remaining space (without min-width/max-width; never below zero); an explicit width is clamped to max-width and then min-width; automatic margins take the remaining space "
     "(shared equally when both are automatic, leaving less than 2 pixels; zero when the box is too wide), and if nothing is automatic the "
     "right margin (left margin for a right-to-left box) gives way.",
     ["inputs"], "all trees of block-level boxes, all margins/borders/paddings/widths (px, fractions, percentages, other units, auto, negative margins), both directions, any display width",
     "the suite pins single nodes with a few round numbers; the equation must hold for every combination of auto/explicit/percent/over-constrained values at every depth",
     [E], [("block width equation", E)], ["used margins, borders, paddings and content width of every box"],
     "layout boxes of a document after layout", "property-based testing: generated documents vs. an independent CSS 2.1 solution of every box, plus the width equation as an invariant", MODEL_NOTE)

prop("C02", "Block boxes stack vertically with collapsed margins",
     "Block-level children of a block are laid out top to bottom in document order without overlap: the gap between two adjacent siblings' border boxes is the larger of "
     "the two collapsed margins that meet there. A box's top (bottom) margin collapses with that of its first (last, if its height is automatic) child exactly when no top (bottom) "
     "border or padding separates them, otherwise the child's margin is kept inside the parent; the collapsed top and bottom margin a box reports are the results.",
     ["inputs"], "all trees of block-level boxes (also empty ones, tables, list items, blocks with inline content and hidden boxes) with non-negative vertical margins",
     "the suite compares a fixed set of pages; the position of a box depends on the margins, borders and paddings of chains of ancestors and siblings",
     [E, D], [("block formatting context loop", E), ("collapsed margin extents", D)], ["content position of every box, collapsed margin extents"],
     "layout boxes of a document after layout", "property-based testing: generated documents vs. an independent CSS 2.1 reference layout", MODEL_NOTE)

prop("C03", "Block heights follow content, explicit height, min and max height",
     "The content height of a block-level, non-replaced box with automatic height is exactly the distance from the top of its content to the bottom border edge of its last displayed child "
     "(plus that child's bottom margin when it does not collapse through), or zero without children. An explicit height is used as specified, a percentage of the parent's explicit (not percentage or limited) height; "
     "any height is then limited by max-height and finally by min-height, given as lengths.",
     ["inputs"], "all trees of block-level boxes, heights in any unit, min/max heights, any depth",
     "heights depend on all descendants; tests only sample single children",
     [E], [("block height calculation", E)], ["content height of every box"],
     "layout boxes of a document after layout", "property-based testing: generated documents vs. an independent CSS 2.1 reference layout", MODEL_NOTE)

prop("C04", "The root box is placed on the display, and fills it in HTML5",
     "The root box of a document is placed so that its whole collapsed top margin is visible below the top of the display and its left margin right of the left edge, and its width is solved against the display width. "
     "In HTML5 mode the content height of a root without vertical border and padding is the display height less its collapsed top and bottom margins; in HTML4 mode it follows the content; nothing else in the document differs between the two modes.",
     ["inputs", "configurations"], "all documents, display sizes and resolutions, both HTML standards",
     "only a few display sizes are tested; the mode must not affect any box other than the root",
     [E], [("root layout", E)], ["root box", "all other boxes"],
     "layout boxes after layout in both modes", "property-based testing: generated documents vs. a reference, and HTML4 vs. HTML5 differential", MODEL_NOTE)

prop("C05", "Every edge of every box is consistent, relative and absolute",
     "For every layout box, at any time, the padding box is the content box extended by the four paddings and the border box is the padding box extended by the four border widths: all sizes, edges and "
     "positions reported for the three boxes agree with that. Every absolute edge equals the relative edge plus the absolute position of the parent's content box, for any order in which positions and sizes are changed in the tree. Margins read as assigned, and the collapsed extent of a side is the largest margin assigned to it since the box was reset.",
     ["inputs", "histories"], "all box trees and all sequences of position/size/border/padding/reset changes",
     "absolute positions are pushed down the tree incrementally; tests sample one parent/child chain",
     [D], [("edge properties", D), ("origin propagation", D)], ["content, padding, border box edges, absolute positions"],
     "edge properties of layout boxes after every operation", "stateful property-based testing: generated operations on box trees vs. a model recomputed from scratch", "Sampled histories of up to ~40 operations on trees of up to ~12 boxes; also asserted on every document laid out by the other layout checks.")

prop("C06", "A new layout only depends on the current document, not on its history",
     "Laying out a document again after any history of style changes, intrinsic size changes, added, moved or removed nodes, hidden or shown nodes, different displays or HTML standards, and layouts that were aborted by an exception, gives exactly the same boxes as laying out a "
     "freshly built, identical document. In particular, laying out an unchanged document twice changes nothing.",
     ["histories", "crash_points"], "all interleavings of document edits and layouts, exceptions at any point of a layout",
     "stale state from earlier layouts only shows after particular edit/layout interleavings; tests lay out once or twice",
     [E, D], [("layout reset", D), ("layout entry point", E)], ["all layout boxes"],
     "all edges of all boxes compared with a fresh copy of the document", "stateful property-based testing: generated edit/layout histories, differential against a fresh document", "Sampled histories (up to ~14 edits, several layouts) over small trees; the oracle is the library's own layout of a fresh document, whose correctness C01-C04 decide.")

prop("C07", "Layout is pure: it only writes layout boxes, of this document only",
     "Laying out a document changes nothing but its layout boxes: all style declarations (values, declared properties, rendered text), intrinsic sizes, the tree structure and the display stay as they were. "
     "Documents do not interfere: laying out, restyling or hiding parts of one document never changes a box of another one, not even when one is laid out in the middle of the layout of another, and equal documents get equal layouts.",
     ["inputs", "histories"], "all documents, and all interleavings of layouts of several documents",
     "tests only inspect the layout results of one document at a time",
     [E, C, D], [("layout entry point", E)], ["styles, intrinsic sizes, tree, display, boxes of other documents"],
     "snapshots before/after layout", "property-based testing: snapshot invariants over generated documents and interleaved layouts of several documents", "Sampled documents and interleavings of up to 3 documents; snapshots cover the public API of declarations, sizes, boxes.")

prop("C08", "Relative positioning shifts a box and its content, and nothing else",
     "Making a box without top border and padding relatively positioned moves it, together with all its descendants, by exactly its offset: left if given (in both directions), otherwise minus right, and top if given, otherwise minus bottom, each zero when both are automatic (vertical offsets are lengths, on boxes that do not end a parent of automatic height). "
     "No size and no other box changes: following siblings stay as if the box had not moved, and offsets of static boxes have no effect.",
     ["inputs"], "all block documents, any set of relatively positioned boxes, any offsets (both signs, any absolute unit, horizontal percentages); boxes with top border/padding and automatic-height parents' last child are known defects",
     "nested combinations of relative and static boxes are not covered by the fixed pages",
     [E], [("relative positioning", E)], ["positions of all boxes"],
     "layout boxes with and without relative positioning", "property-based testing, metamorphic: generated documents with relative vs. static positioning", "Sampled. Two genuine defects of the repository (see known findings) are excluded by construction and reported as KNOWN-FINDING.")

prop("C09", "Nodes that are not displayed have no boxes and no effect",
     "A node with display 'none' gets no layout box, nor do its descendants, wherever it is in the document (first, last, only child, nested, root), and every other node is laid out exactly as if that node was not in the document. "
     "Hiding a node and showing it again restores the original layout.",
     ["inputs", "histories"], "all documents and all subsets of hidden nodes",
     "the effect depends on the position of the hidden node among its siblings and on layout history",
     [E, D], [("box creation and removal", E)], ["all layout boxes, presence of a box"],
     "layout compared with the layout of the pruned document", "property-based testing, metamorphic: generated documents with hidden nodes vs. the pruned document, and hide/show histories", "Sampled documents with random hidden subsets, in block and single-child inline contexts.")

prop("C10", "Lengths of any unit lay out like the pixels they resolve to",
     "In layout of block and inline boxes, a length in any absolute, viewport or percentage unit gives the same result as the equivalent number of pixels: absolute units by the display's resolution, viewport units by the display's size, "
     "thin/medium/thick border widths by the display's fixed sizes, and percentages of widths, horizontal offsets and of all margins and paddings by the width of the containing block.",
     ["inputs", "configurations"], "all properties that take lengths, all units, resolutions and display sizes, at any depth",
     "tests sample a few units on a single display; the basis of a percentage is different for each property and depth",
     [E, U], [("length resolution in layout", E), ("unit conversion", U)], ["all layout boxes"],
     "layout of a document vs. the same document with lengths replaced by pixels", "property-based testing, metamorphic: generated document in any unit vs. the pixel document resolved by an independent converter", MODEL_NOTE)

prop("C11", "Inline boxes are sized by their intrinsic size, ratio and style",
     "An inline replaced box uses its explicit width/height (also zero) if given, otherwise its intrinsic size, otherwise a size derived from the intrinsic ratio and the other dimension (or the containing width), otherwise the default of 300 pixels wide and half the width, at most 150 pixels, high; "
     "an inline non-replaced box always uses its intrinsic size. Automatic margins are zero, and the content is offset from the containing block's content by the left/top margin, border and padding.",
     ["inputs"], "all combinations of intrinsic width/height/ratio present or not, explicit or automatic width/height, margins, borders and paddings",
     "the combinations multiply; tests have one value each and no margins/borders",
     [E], [("inline sizing 10.3.1, 10.3.2, 10.6.1, 10.6.2", E)], ["inline box size and position"],
     "layout box of an inline child in a block", "property-based testing: generated inline boxes vs. an independent reading of CSS 2.1 10.3.1/2 and 10.6.1/2", "Sampled; one inline child per block (line boxes are not implemented). The ratio convention is the one pinned by the existing tests.")

prop("C12", "Assigning a style value either stores a valid value or changes nothing",
     "Assigning a value to a style property either succeeds, and then reading the property gives the value in its canonical form (keywords compare and test identical to the exported constants, "
     "'none' reads as None, lengths, colors and structured values parse to the equivalent value), or raises ValueError and leaves every property unchanged. Every documented keyword and value form of every property is accepted; a keyword of another property, malformed text, or an object of another type is rejected.",
     ["inputs"], "all properties times all values: documented keywords, valid and malformed lengths/colors/structures, arbitrary objects",
     "the suite covers a handful of properties and values; the guarantee is per property and for arbitrary input",
     [C, K, V, PA], [("property setters", C), ("allowed choices per property", K)], ["all properties of a declaration"],
     "getters after assignment, or after the rejection", "grammar-based and arbitrary-value fuzzing of every property against an independent table of CSS values", "Sampled values; the keyword tables are enumerated completely for every property on each run.")

prop("C13", "A declaration behaves like a mapping of its declared properties",
     "Any sequence of attribute, item and update operations on a declaration behaves like a mapping from property names (with '-' or '_') to values: reading gives the last assigned value or the initial value, deleting (or updating to None) "
     "restores the initial value, keys and items list exactly the properties that are set, and unknown names raise KeyError (item access) or NameError (update).",
     ["histories"], "all sequences of set/get/delete/update operations through all interfaces",
     "interactions between interfaces only show in sequences",
     [C], [("dict-like interface", C), ("property getters, setters, deleters", C)], ["declared properties"],
     "getters, items, keys after every operation", "stateful property-based testing: generated histories vs. a dictionary model", "Sampled histories of up to ~30 operations. Whether a value equal to the initial value counts as declared is left open.")

prop("C14", "Directional properties expand 1-4 values to the four sides",
     "Assigning margin, padding, border-width, border-color or border-style a single value or a tuple of 1 to 4 values sets the top, right, bottom and left sides by the CSS rule (missing left = right, bottom = top, right = top), and reading gives the four sides in that order. "
     "Deleting resets all four sides; a tuple of any other length, or with any invalid member, raises ValueError and changes no side.",
     ["inputs", "histories"], "all five directional properties, all tuples of values, valid or not",
     "tests cover margins with small numbers; atomicity needs an invalid member at each position",
     [C], [("directional property", C)], ["the four sides of each directional property"],
     "getters of the sides and of the whole", "property-based testing: generated tuples and histories vs. the expansion rule, including rejected tuples", "Sampled values, all lengths and positions of an invalid member are generated every run.")

prop("C15", "Border and outline shorthands set exactly their longhands",
     "Assigning a border, border-<side> or outline shorthand any ordering of up to one width, one style and one color sets each given longhand (of all four sides for border) to that value and resets the omitted ones to their initial values, leaving all other properties alone. "
     "Duplicated, unknown, empty or more than three parts raise ValueError and change nothing; deleting the shorthand resets its longhands, and reading a border-<side> or outline shorthand gives exactly the longhands that are set, as a value whose text can be assigned with the same result.",
     ["inputs", "histories"], "all shorthands, all part subsets, orders and forms (text or sequence), any prior state",
     "the number of part orders times prior states; the suite samples a few",
     [C, PA, W], [("shorthand property", C), ("shorthand parsers", PA)], ["longhand properties"],
     "getters of the longhands and shorthand", "property-based testing: generated part permutations and prior states vs. a model of the longhands", "Sampled values; all orders and subsets of parts are generated.")

prop("C16", "Copying a declaration preserves all values and is independent",
     "A copy of a declaration reads the same as the original for every property, whatever values were set before and however they were set, and copies again to the same. Later changes to the copy do not affect the original or the other way round, and the copy is bound to the node it was copied for only.",
     ["inputs", "histories"], "all declarations, all subsequent changes",
     "the values that do not survive copying are in rarely used properties",
     [C, PA], [("copy", C)], ["all properties of original and copy"],
     "getters of original and copy", "property-based testing: generated declarations over all properties, copies of copies and change histories vs. models", "Sampled declarations over all properties.")

prop("C17", "Every change to a node's style or intrinsic size marks its layout dirty",
     "When a node's style property changes value (through any interface, including shorthands, directional values, deletion and update), or an intrinsic size attribute changes, the layout of that node and all its descendants is dirty afterwards (layouts being marked clean from the root down, not below a dirty one). "
     "Assigning a keyword, length or number property the value it already has, a rejected assignment, and setting an intrinsic size to the same value do not mark a clean layout dirty, and a node that is not displayed can be modified freely. The dirty attribute of the style and of the intrinsic size is that of the layout.",
     ["histories"], "all properties, values, interfaces and tree shapes",
     "a missed invalidation only shows for particular property/interface combinations",
     [C, D], [("dirty proxy", C), ("dirtiness tracking", D)], ["dirty flag of every box"],
     "dirty flag after every operation", "stateful property-based testing: generated change histories on trees of clean nodes", "Sampled histories over all properties. Not judged: assigning equal colors or structured values.")

prop("C18", "The rendered declaration lists all set properties and parses back",
     "The text of a declaration is the '; '-separated list of 'name: value' for exactly the properties that are set, sorted by name with hyphens, and assigning each rendered value (except URLs with commas, and HSL colors with fractional percentages) back to a new declaration "
     "gives the same values.",
     ["inputs"], "all declarations",
     "round-trips depend on every value type's text form",
     [C, U, W, S, CO], [("rendered form", C), ("text form of values", W)], ["rendered text"],
     "text of a declaration and values parsed from it", "property-based testing: round trip over generated declarations", "Sampled declarations over all properties.")

prop("C19", "Initial values that depend on another property follow it",
     "While text-align is not set it reads 'left' for a left-to-right and 'right' for a right-to-left declaration, and while a border side's color is not set it reads as the declaration's current color. "
     "This holds at any time through any history of changes to either property, setting the dependent property overrides it, and deleting that restores it.",
     ["histories"], "all histories of changes to color, direction and the dependent properties, through any interface",
     "only checked once per property by tests",
     [C, K], [("derived initial values", K), ("property getter", C)], ["text-align, border colors"],
     "getters after every operation", "stateful property-based testing: generated histories vs. a model", "Sampled histories.")

prop("C20", "Units convert to pixels consistently, rounded to 1/64 pixel",
     "Converting any length to pixels gives its exact mathematical value - by the resolution for pt, pc, in, cm and mm, the font metrics for em, ex and ch, the viewport for vw, vh, vmin and vmax, the reference size for percentages - rounded to the nearest 1/64 pixel (cm and mm to a few parts per million). "
     "Multiplying a number by a unit and negation scale the value and keep the unit without changing the operands, equality holds exactly for the same amount of the same unit (or an integer number of pixels), and angles convert to degrees.",
     ["inputs"], "all units, amounts, resolutions, font metrics, viewports and reference sizes",
     "tests sample one or two amounts per unit",
     [U], [("unit classes", U)], ["pixel values"],
     "converted values", "property-based testing: generated amounts and contexts vs. exact rational arithmetic", "Sampled amounts; compared with exact rationals, half-way cases may round either way.")

prop("C21", "Lengths parse to exactly the number and unit written, or are rejected",
     "A number, a numeric text or a number followed by a length unit parses to exactly that amount of that unit (pixels without a unit), the text of the result parses back to an equal value (an int beyond 2^53: to the nearest float), and parsing does not depend on, or grow, any global state. "
     "Any other text (white space, underscores and letter case aside), angles, and numbers that are not finite are rejected with ValueError.",
     ["inputs", "histories"], "all number formats, all units, all malformed texts, any sequence of parses",
     "suffixes overlap (in/vmin, rad/grad, m/mm) and every number format must be exact",
     [PA, U], [("unit parser", PA)], ["parsed value, unit registry"],
     "parsed amount and unit", "grammar-based fuzzing and mutation of length texts vs. an independent recogniser", "Sampled.")

prop("C22", "Colors parse to exactly the components written, or are rejected",
     "#RGB, #RGBA, #RRGGBB, #RRGGBBAA (either case), rgb(), rgba(), hsl(), hsla() and all CSS named colors parse to the components written, with alpha 1 unless given, in the ranges of CSS; equivalent notations give equal components, and the text of a color parses back to the same components. "
     "Malformed texts (wrong length, digits, component count, parentheses, unknown names) and other objects are rejected with ValueError.",
     ["inputs"], "all color notations and component values, all malformed variants",
     "the space of notations and malformed variants is large",
     [PA, CO], [("color parser", PA), ("named colors", CO)], ["color components"],
     "components of the parsed color", "grammar-based fuzzing and mutation vs. an independent recogniser; all 148 named colors vs. an independent table", "Sampled notations; named colors enumerated completely.")

prop("C23", "HSL colors convert to the right RGB color",
     "Converting any HSL color to RGB gives, for each component, the value of the standard conversion rounded to the nearest integer in 0..255, with alpha unchanged, for every hue (any angle, also negative or beyond a full turn), saturation and lightness. "
     "Converting an RGB color is the identity.",
     ["inputs"], "all hues, saturations, lightnesses and alphas",
     "tests sample a few hues",
     [CO], [("HSL conversion", CO)], ["rgb components"],
     "components of the converted color", "property-based testing: differential against Python's colorsys, generated colors and a complete grid", "Sampled plus a complete grid of integer hues at several saturations/lightnesses.")

prop("C24", "Structured values parse to exactly what is written, or are rejected",
     "rect() clips, border spacings, quotes, URLs and cursor lists parse - in each documented notation - to the components written, in order, and their text (for URLs without commas) parses back to equal components. "
     "A wrong number of parts, invalid parts, misplaced or repeated keywords, missing parentheses, unquoted quotes, and objects of other types are rejected with ValueError.",
     ["inputs"], "all notations, spacings, numbers of parts and component values, all malformed variants",
     "the notations multiply and tests cover a few each",
     [PA, V, W, S], [("structured value parsers", PA)], ["parsed components"],
     "accessors of the parsed value", "grammar-based fuzzing and mutation vs. independent parsers", "Sampled.")

prop("C25", "Parsed lists are immutable and hashable",
     "No operation on a cursor list or any immutable list - item or slice assignment or deletion, in-place addition or multiplication, and every mutating list method - changes its content; each raises TypeError. "
     "Reading, slicing, iterating, comparing, copying and pickling work like on a list, and equal lists of the same type have equal hashes.",
     ["histories"], "all contents and all sequences of list operations",
     "every mutating entry point of list must be covered, with any argument",
     [W], [("immutable list", W)], ["list content"],
     "content after every operation", "stateful property-based testing: generated list operations against a tuple", "Sampled histories; all mutating operations are generated.")

prop("C26", "Integer properties and numeric ranges accept exactly valid numbers",
     "z-index, orphans and widows accept every integer, given as a number or text, store exactly that integer, and reject other texts and objects with ValueError (but for the documented keywords). "
     "Range validators for numbers and integers accept exactly the finite values between their inclusive minimum and maximum, whichever of them are given; the percentage validator accepts exactly the percentages that are not negative.",
     ["inputs"], "all numbers, numeric and other texts, other objects, all ranges",
     "boundaries and combinations of minimum and maximum are sampled only once",
     [V, K], [("numeric validators", V)], ["stored number"],
     "property value or rejection", "property-based testing: generated numbers and ranges vs. direct comparison", "Sampled, with values at and next to the boundaries.")

prop("C27", "Layout is local: a box depends on its content and its container only",
     "The layout of a block-level box - its size, its horizontal position in its parent, and everything inside of it relative to it - depends on its own and its descendants' styles and the width of its containing block (for a percentage height, also its height) only: "
     "replacing, adding or removing siblings of the box or of its ancestors does not change it; nor do its siblings change the size of an inline box. Content never moves what comes before it: a change after a box in the document leaves the position of the box, of everything in it and of everything before it unchanged.",
     ["inputs"], "all documents, boxes in them, and changes around or after the box",
     "tests compare single pages with fixed numbers; independence quantifies over all surroundings of a box",
     [E, D], [("block formatting context loop", E), ("layout of one box", E)], ["all boxes"],
     "boxes of a document before and after a change elsewhere", "metamorphic property-based testing: generated documents and changes around a box", "Sampled documents, with negative margins, relative positions, inline content and hidden boxes.")

prop("C28", "Layout completes with a box for every displayed node, or is refused",
     "Every document of blocks, list items, tables and inline boxes in normal flow, with static or relative position and any lengths, percentages and limits, is laid out without an exception: afterwards every displayed node has a box whose positions, sizes, margins, borders and paddings are all finite numbers, and no other node has one. "
     "What is not implemented is never laid out as something else: a document with a displayed box that floats, is absolutely or fixed positioned, a replaced block-level box or (without block-level siblings) an inline block is refused with NotImplementedError; table parts, flex and grid boxes (without block-level siblings) raise an exception.",
     ["inputs", "configurations"], "all documents of the supported features with any style values, and all places of a box that needs an unsupported one",
     "tests lay out a fixed set of pages; an exception, a missing box or an ignored feature only shows for some combination of values, depths and displays",
     [E, D], [("layout of one box", E), ("selection of the width and height calculation", E)], ["all boxes, or the exception raised"],
     "layout of a generated document", "property-based testing: generated documents of supported features must complete with finite boxes; with one unsupported feature they must be refused", "Sampled documents; children of one node are all block-level or all not (anonymous boxes are not implemented).")

prop("C29", "A property accepts exactly what it is defined to accept, and says so",
     "A property defined with keywords, validators, defaulting keywords and an initial value (validated_property with Choices) accepts a value if and only if one of its validators accepts it - the first that does, in the given order, decides what is stored - or it is one of the keywords (none and None are the same), and reads as its initial value (or the current value of the property that one follows) until it is set and after it is deleted; properties and objects do not affect each other. "
     "An initial value that is not valid is refused when the property is defined. Every other assignment raises a ValueError that names the value, the property, and the sorted list of its keywords and kinds of values, and changes nothing; for the properties of a CSS declaration, that list is exactly what they accept.",
     ["inputs", "histories"], "all definitions of properties, sequences of assignments and deletions, and all values",
     "tests define a few properties with one or all validators and assign a handful of values; the order of validators, combinations of alternatives and sequences are not sampled",
     [K, C, V], [("Choices", K), ("validated_property", C)], ["property values of user-defined declarations"],
     "reading of every property after every step; text of the ValueError", "stateful, model-based property-based testing: generated property definitions and assignment histories vs. a model that asks each validator alone", "Sampled definitions of up to four properties and histories of up to ten steps.")


prop("C30", "Layout has no preferred scale",
     "Multiplying every pixel length of a document, the intrinsic sizes of its nodes, the size and resolution of the display and the sizes of its thin, medium and thick borders by a whole number multiplies every size and position of every box by exactly that number, wherever nothing has to be rounded: no size, depth or position is treated differently for being small or large, percentages stay percentages, and absolute and viewport units follow the display. "
     "(Rounded, or of a fixed size, are: computed lengths of a fraction of 1/64 px, automatic margins on both sides, sizes from a ratio, and replaced boxes without any size.)",
     ["inputs", "configurations"], "all documents, displays and factors",
     "tests lay out fixed pages on one display size; a threshold, a wrongly fixed size or a mix-up of device and CSS pixels only shows at other sizes",
     [E, U, D], [("layout of one box", E), ("lengths to pixels", U)], ["all boxes"],
     "boxes of a document and of its multiple", "metamorphic property-based testing: generated documents laid out at two scales", "Sampled documents with whole pixels, and factors up to 1000.")


prop("C31", "Values are equal, and have the same text, exactly if their parts are the same",
     "Lengths, angles, rectangles, quotes, parsed lists and shorthand values are equal if and only if they are of the same kind and all their parts are the same, however they were written (a length in pixels also equals the int of its amount; a parsed list an ordinary one); equality is symmetric, reflexive and the opposite of inequality, never fails for any other object, and a copy of a value is equal to it. "
     "Colors, URLs and border spacings are never equal to ones with other parts. Within a kind, the texts and representations of two values are the same exactly if their parts are.",
     ["inputs"], "all pairs of values, in all notations, and values with objects of other types",
     "tests compare a few values with equal or quite different ones; a part that is left out of a comparison or a text only shows for values that differ in just that part",
     [U, S, W, C], [("units", U), ("Rect", S), ("value wrappers", W)], ["style values"],
     "==, !=, str and repr of two values", "property-based testing: generated pairs of values that are the same or differ in one part vs. comparison of their parts", "Sampled pairs; the parts are read through the public accessors.")


prop("C32", "The mirror image of a document has the mirrored layout",
     "Swapping left and right in a document (margins, borders, paddings and relative offsets) and reversing the direction of every box mirrors its layout: every block-level box is as wide and as high and at the same height, and as far from the right side as it was from the left, with its edges swapped. Neither side of a box, and neither direction of the text, is treated in a way in which the other is not. "
     "(Where two automatic margins share an odd number of pixels the halves differ by one, and where left and right offsets contradict each other left wins: neither is mirrored.)",
     ["inputs", "configurations"], "all documents, with any mix of directions, and displays",
     "tests sample left-to-right pages and a few right-to-left ones; a side that is handled differently only shows if its opposite is tried in the same circumstances",
     [E, D], [("layout of one box", E), ("directional properties", D)], ["all boxes"],
     "boxes of a document and of its mirror image", "metamorphic property-based testing: generated documents and their mirror images are laid out and compared", "Sampled documents; horizontal positions of inline boxes are not judged.")


prop("C33", "A plain block around boxes is invisible",
     "Putting neighbouring boxes of a block into a plain block of the same direction (no edges, automatic size), or several of them, changes nothing for any box of the document: all have the same size, edges and absolute position, at any depth, because the plain block is exactly as wide as its parent, margins collapse through it, and it adds no height. (Percentages of a height, which the plain block does not have, and relative positions are exempt.)",
     ["inputs", "configurations"], "all documents, runs of siblings and displays",
     "tests have few nested blocks without edges; what is handed down or up by a box (widths, margins that collapse, positions) is wrong only for certain combinations of boxes",
     [E, D], [("layout of one box", E), ("margin collapsing", E), ("Box", D)], ["all boxes"],
     "boxes of a document with and without the plain block", "metamorphic property-based testing: generated documents are laid out with and without plain blocks around a random run of boxes", "Sampled documents and runs, up to three plain blocks.")


prop("C34", "Results are the same in every process",
     "The same operations on declarations, the same parsing and the same layouts give the same values, texts, representations, declared properties, error messages and boxes in every run of a program: they depend neither on the randomised hashes of Python (the order of sets), its optimisation level, the locale, time zone or other settings of the environment, nor on whatever else was parsed, declared or laid out before in the same process.",
     ["inputs", "configurations", "histories"], "all operations and documents, processes, and work done before",
     "tests run in one process with one setting; the order of sets only matters for certain combinations of properties and hash seeds, and leaked state only after certain other work",
     [C, K, PA, E], [("properties of a declaration", C), ("Choices", K), ("parsers", PA), ("layout", E)], ["set of all properties", "keyword sets", "module globals"],
     "results of the same work in four processes", "differential property-based testing: generated operations, documents and texts are processed by processes with different settings and histories", "Sampled work, four processes per shard.")

prop("C35", "Decoration takes no space",
     "Properties that only decorate a box have no effect on any box of the document, whatever their values and however they are set: colors, outlines, visibility (a hidden box keeps its place), z-index, clipping, cursors, quotes, page breaks, bidi overrides, text decoration, transformation and spacing, the kind of line of a border, the offsets of boxes that are not positioned, text alignment and indentation around blocks, table properties outside of tables, and clear without floats. Laying out again after they are set or removed changes nothing.",
     ["inputs", "configurations", "histories"], "all documents, decorated nodes, properties and values",
     "tests of layout set hardly any property without an effect; there are dozens of them, with many values, on any box of a document",
     [E, C], [("layout of one box", E), ("properties of a declaration", C)], ["all boxes"],
     "boxes of the decorated and the plain document", "metamorphic property-based testing: generated documents are laid out with and without random decoration", "Sampled documents and values.")

prop("C36", "Layout depends on what is declared, not on how it was written",
     "Two documents whose declarations read the same have the same boxes, however the declarations came about: in whatever order the properties were set; as numbers, texts, unit objects or constants; by attribute, by item, with '-' or '_', by update, by keyword arguments, one by one or by the directional and border shorthands; with initial values spelled out or left out; after other values were set, deleted or rejected on the way; through copies and texts; before the first layout or after another one.",
     ["inputs", "configurations", "histories"], "all documents and all ways to write their declarations",
     "tests of layout write each declaration once, by keyword arguments with a few notations; a value that is kept as the wrong kind of object, or a stale group of values, only shows when a layout uses it",
     [C, V, U, E], [("properties of a declaration", C), ("validators", V), ("lengths", U), ("layout of one box", E)], ["all boxes"],
     "boxes of the plain document and of the one written in another way", "metamorphic property-based testing: the declarations of generated documents are written again in generated other ways, and laid out", "Sampled documents and ways to write them.")


def main():
    known = {}
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {
                    "files": p["files"],
                    "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                    "state": [{"name": n, "meaning": "observable through the public API", "where": p["files"][0]} for n in p["state"]],
                    "observe_at": [p["observe"]],
                    "hook_needed": None,
                },
            }) + "\n")
    ids = [p["id"] for p in P if os.path.exists(os.path.join(ROOT, "checks", p["id"].lower() + ".py"))]
    manifest = {
        "version": 1,
        "setup_cmd": "python3-vt -B run.py --setup",
        "checks": [{
            "property": p["id"],
            "quick_cmd": f"python3-vt -B run.py {p['id']} --tier quick",
            "thorough_cmd": f"python3-vt -B run.py {p['id']} --tier thorough",
            "technique": p["technique"],
            "level": "exploration",
            "level_note": p["note"],
        } for p in P if p["id"] in ids],
        "not_applicable": [{"property": p["id"], "reason": "check not built yet"} for p in P if p["id"] not in ids],
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")
    print(len(P), "properties", len(ids), "checks")


if __name__ == "__main__":
    sys.exit(main())
