"""Style properties and their values, independent of the code under test.

A value to assign is a *spec*, plain data that ``realize`` turns into the
object to assign; every spec is generated together with the canonical, plain
form (see ``canon``) of what the property must read afterwards.
"""
import math

from . import gen

SIDES = ("top", "right", "bottom", "left")
BORDER_STYLES = ["none", "hidden", "dotted", "dashed", "solid", "double", "groove", "ridge", "inset", "outset"]
CURSORS = ["auto", "crosshair", "default", "pointer", "move", "e-resize", "ne-resize", "nw-resize", "n-resize", "se-resize", "sw-resize",
           "s-resize", "w-resize", "text", "wait", "help", "progress"]

# property: (keywords, kind of other values, initial value)
# The initial value is canonical; ("color",) and ("align",) depend on other properties.
PROPS = {}


def prop(names, keywords, kind, initial):
    for name in names.split():
        PROPS[name] = (keywords, kind, initial)


def kw(text):
    return None if text == "none" else ("kw", text)


ZERO = ("len", 0.0, "px")
for _s in SIDES:
    prop(f"margin_{_s}", ["auto"], "lenpct±", ZERO)
    prop(f"padding_{_s}", [], "lenpct", ZERO)
    prop(f"border_{_s}_width", ["thin", "medium", "thick"], "len", ZERO)
    prop(f"border_{_s}_color", ["transparent", "initial", "inherit", "unset", "revert"], "color", ("color",))
    prop(f"border_{_s}_style", BORDER_STYLES, None, None)
    prop(_s, ["auto", "inherit"], "lenpct±", kw("auto"))
prop("display", ["none", "inline", "block", "list-item", "inline-block", "table", "inline-table", "table-row-group", "table-header-group", "table-footer-group",
                 "table-row", "table-column-group", "table-column", "table-cell", "table-caption", "flex", "inline-flex", "grid", "inline-grid"], None, kw("inline"))
prop("position", ["static", "relative", "absolute", "fixed"], None, kw("static"))
prop("float", ["none", "left", "right"], None, None)
prop("clear", ["none", "left", "right", "both"], None, None)
prop("z_index", ["auto"], "int", kw("auto"))
prop("direction", ["ltr", "rtl"], None, kw("ltr"))
prop("unicode_bidi", ["normal", "embed", "bidi-override"], None, kw("normal"))
prop("width height min_width min_height", ["auto"], "lenpct", kw("auto"))
prop("max_width max_height", ["none"], "lenpct", None)
prop("overflow", ["visible", "hidden", "scroll", "auto", "inherit"], None, kw("visible"))
prop("clip", ["auto", "inherit"], "rect", kw("auto"))
prop("visibility", ["visible", "hidden", "collapse"], None, kw("visible"))
prop("quotes", ["none", "initial", "inherit"], "quotes", kw("initial"))
prop("page_break_before page_break_after", ["auto", "always", "avoid", "left", "right", "inherit"], None, kw("auto"))
prop("page_break_inside", ["auto", "avoid", "inherit"], None, kw("auto"))
prop("orphans widows", ["inherit"], "int", ("int", 2))
prop("color", [], "color", ("default",))
prop("background_color", ["transparent"], "color", ("default",))
prop("text_indent", ["inherit"], "lenpct±", ZERO)
prop("text_align", ["left", "right", "center", "justify", "inherit"], None, ("align",))
prop("text_decoration", ["none", "underline", "overline", "line-through", "blink", "inherit"], None, None)
prop("letter_spacing word_spacing", ["normal", "inherit"], "len±", kw("normal"))
prop("text_transform", ["none", "capitalize", "uppercase", "lowercase", "inherit"], None, None)
prop("white_space", ["normal", "pre", "nowrap", "pre-wrap", "pre-line", "inherit"], None, kw("normal"))
prop("caption_side", ["top", "bottom", "inherit"], None, kw("top"))
prop("table_layout", ["auto", "fixed", "inherit"], None, kw("auto"))
prop("border_collapse", ["collapse", "separate", "inherit"], None, kw("separate"))
prop("border_spacing", ["inherit"], "spacing", ("spacing", ZERO, ZERO))
prop("empty_cells", ["show", "hide", "inherit"], None, kw("show"))
prop("cursor", ["inherit"], "cursor", ("cursor", (kw("auto"),)))
prop("outline_width", ["thin", "medium", "thick", "inherit"], "len", kw("medium"))
prop("outline_style", BORDER_STYLES + ["inherit"], None, None)
prop("outline_color", ["invert", "inherit"], "color", kw("invert"))

LONGHANDS = sorted(PROPS)
DIRECTIONAL = {f"{a}{b}": [f"{a}_{s}{b}" for s in SIDES] for a, b in (("margin", ""), ("padding", ""), ("border", "_width"), ("border", "_color"), ("border", "_style"))}
SHORTHAND = {f"border_{s}": [f"border_{s}_{x}" for x in ("width", "style", "color")] for s in SIDES}
SHORTHAND["outline"] = ["outline_width", "outline_style", "outline_color"]
SHORTHAND["border"] = [f"border_{s}_{x}" for s in SIDES for x in ("width", "style", "color")]
ALL = sorted(list(PROPS) + list(DIRECTIONAL) + list(SHORTHAND))
KEYWORDS = sorted({k for ks, _, _ in PROPS.values() for k in ks} | set(CURSORS))

NAMED = """aliceblue f0f8ff antiquewhite faebd7 aqua 00ffff aquamarine 7fffd4 azure f0ffff beige f5f5dc bisque ffe4c4 black 000000 blanchedalmond ffebcd blue 0000ff
blueviolet 8a2be2 brown a52a2a burlywood deb887 cadetblue 5f9ea0 chartreuse 7fff00 chocolate d2691e coral ff7f50 cornflowerblue 6495ed cornsilk fff8dc crimson dc143c cyan 00ffff
darkblue 00008b darkcyan 008b8b darkgoldenrod b8860b darkgray a9a9a9 darkgreen 006400 darkgrey a9a9a9 darkkhaki bdb76b darkmagenta 8b008b darkolivegreen 556b2f darkorange ff8c00
darkorchid 9932cc darkred 8b0000 darksalmon e9967a darkseagreen 8fbc8f darkslateblue 483d8b darkslategray 2f4f4f darkslategrey 2f4f4f darkturquoise 00ced1 darkviolet 9400d3
deeppink ff1493 deepskyblue 00bfff dimgray 696969 dimgrey 696969 dodgerblue 1e90ff firebrick b22222 floralwhite fffaf0 forestgreen 228b22 fuchsia ff00ff gainsboro dcdcdc
ghostwhite f8f8ff gold ffd700 goldenrod daa520 gray 808080 green 008000 greenyellow adff2f grey 808080 honeydew f0fff0 hotpink ff69b4 indianred cd5c5c indigo 4b0082 ivory fffff0
khaki f0e68c lavender e6e6fa lavenderblush fff0f5 lawngreen 7cfc00 lemonchiffon fffacd lightblue add8e6 lightcoral f08080 lightcyan e0ffff lightgoldenrodyellow fafad2
lightgray d3d3d3 lightgreen 90ee90 lightgrey d3d3d3 lightpink ffb6c1 lightsalmon ffa07a lightseagreen 20b2aa lightskyblue 87cefa lightslategray 778899 lightslategrey 778899
lightsteelblue b0c4de lightyellow ffffe0 lime 00ff00 limegreen 32cd32 linen faf0e6 magenta ff00ff maroon 800000 mediumaquamarine 66cdaa mediumblue 0000cd mediumorchid ba55d3
mediumpurple 9370db mediumseagreen 3cb371 mediumslateblue 7b68ee mediumspringgreen 00fa9a mediumturquoise 48d1cc mediumvioletred c71585 midnightblue 191970 mintcream f5fffa
mistyrose ffe4e1 moccasin ffe4b5 navajowhite ffdead navy 000080 oldlace fdf5e6 olive 808000 olivedrab 6b8e23 orange ffa500 orangered ff4500 orchid da70d6 palegoldenrod eee8aa
palegreen 98fb98 paleturquoise afeeee palevioletred db7093 papayawhip ffefd5 peachpuff ffdab9 peru cd853f pink ffc0cb plum dda0dd powderblue b0e0e6 purple 800080
rebeccapurple 663399 red ff0000 rosybrown bc8f8f royalblue 4169e1 saddlebrown 8b4513 salmon fa8072 sandybrown f4a460 seagreen 2e8b57 seashell fff5ee sienna a0522d silver c0c0c0
skyblue 87ceeb slateblue 6a5acd slategray 708090 slategrey 708090 snow fffafa springgreen 00ff7f steelblue 4682b4 tan d2b48c teal 008080 thistle d8bfd8 tomato ff6347
turquoise 40e0d0 violet ee82ee wheat f5deb3 white ffffff whitesmoke f5f5f5 yellow ffff00 yellowgreen 9acd32""".split()
NAMED = {k: tuple(int(v[i:i + 2], 16) for i in (0, 2, 4)) for k, v in zip(NAMED[::2], NAMED[1::2])}

UNITS = ["px", "%", "em", "ex", "ch", "pt", "pc", "in", "cm", "mm", "vw", "vh", "vmin", "vmax"]
UNIT_NAMES = {"%": "percent", "in": "inch"}


# ---------------------------------------------------------------- the code under test: from specs to objects, from objects to canonical data
def realize(spec):
    "The object to assign"
    from colosseum import colors, constants, shapes, units, wrappers

    if not isinstance(spec, (list, tuple)):
        # a text that is not the identical object of any constant
        return "".join(list(spec)) if isinstance(spec, str) else spec
    tag, *a = spec
    if tag == "unit":
        return a[0] * getattr(units, UNIT_NAMES.get(a[1], a[1]))
    if tag == "rgb":
        return colors.rgb(*a)
    if tag == "hsl":
        return colors.hsl(*a)
    if tag == "list":
        return [realize(x) for x in a]
    if tag == "tuple":
        return tuple(realize(x) for x in a)
    if tag == "const":
        return getattr(constants, a[0])
    if tag == "rect":
        return shapes.Rect(*[realize(x) for x in a])
    if tag == "spacing":
        return wrappers.BorderSpacing(*[realize(x) for x in a])
    if tag == "quotes":
        return wrappers.Quotes([tuple(x) for x in a])
    if tag == "uri":
        return wrappers.Uri(a[0])
    if tag == "cursor":
        return wrappers.Cursor([realize(x) for x in a])
    if tag == "junk":
        return JUNK[a[0]]()
    raise AssertionError(spec)


class Opaque:
    pass


JUNK = {
    "object": object, "opaque": Opaque, "dict": dict, "fulldict": lambda: {"a": 1}, "set": lambda: {1, 2}, "bytes": lambda: b"auto", "type": lambda: int, "lambda": lambda: len,
    "nan": lambda: float("nan"), "inf": lambda: float("inf"), "-inf": lambda: float("-inf"), "huge": lambda: 10 ** 400, "complex": lambda: 1j, "ellipsis": lambda: ...,
    "angle": lambda: __import__("colosseum.units", fromlist=["deg"]).deg, "angle2": lambda: 0.5 * __import__("colosseum.units", fromlist=["deg"]).turn,
    "exception": lambda: ValueError("auto"), "generator": lambda: (x for x in ["auto"]), "range": lambda: range(3), "listauto": lambda: ["auto", "auto"], "nested": lambda: [["1px"]],
    "module": lambda: __import__("math"),
    "pairset": lambda: {"<", ">"}, "pairdict": lambda: {"<": 1, ">": 2}, "pairgen": lambda: iter(["<", ">"]), "pxset1": lambda: {"1px"}, "pxdict1": lambda: {"1px": 1}, "pxset": lambda: {"1px", "2px"}, "pxdict": lambda: {"1px": 1, "2px": 2},
    "cursorset": lambda: {"auto"}, "cursordict": lambda: {"auto": 1},
}


def canon(value):
    "Plain, comparable form of a value read from a property"
    from colosseum import colors, constants, shapes, units, wrappers

    if value is None:
        return None
    if value is constants.default:
        return ("default",)
    if isinstance(value, str):
        return ("kw", value)
    if isinstance(value, bool):
        return ("bool", value)
    if isinstance(value, int):
        return ("int", value)
    if isinstance(value, units.Unit):
        return ("len", float(value.val), value.suffix)
    if isinstance(value, colors.rgb):
        return ("rgb", value.r, value.g, value.b, value.a)
    if isinstance(value, colors.hsl):
        return ("hsl", value.h, value.s, value.l, value.a)
    if isinstance(value, shapes.Rect):
        return ("rect", canon(value.top), canon(value.right), canon(value.left), canon(value.bottom))
    if isinstance(value, wrappers.BorderSpacing):
        return ("spacing", canon(value.horizontal), canon(value.vertical))
    if isinstance(value, wrappers.Quotes):
        return ("quotes", tuple((value.opening(i), value.closing(i)) for i in range(len(value))))
    if isinstance(value, wrappers.Uri):
        return ("uri", value.url)
    if isinstance(value, wrappers.Cursor):
        return ("cursor", tuple(canon(x) for x in value))
    if isinstance(value, (tuple, list)):
        return tuple(canon(x) for x in value)
    return ("?", type(value).__name__, repr(value))


def const_name(keyword):
    "Name of the exported constant of a keyword"
    return keyword.upper().replace("-", "_")


def tup(x):
    "Undo what JSON does to tuples"
    return tuple(tup(i) for i in x) if isinstance(x, (list, tuple)) else x


def read_all(css):
    return {p: canon(getattr(css, p)) for p in LONGHANDS}


# ---------------------------------------------------------------- generators: (spec, canonical value)
def g_number(r, neg=False, hi=500):
    "(text, value) of a number"
    kind = r.below(7)
    n = r.int(-hi if neg and r.maybe(0.3) else 0, hi)
    if kind <= 2:
        v, t = float(n), str(n)
    elif kind == 3:
        v = n / 8
        t = repr(v)
    elif kind == 4:
        v = round(n / 100, 2)
        t = repr(v)
        if t.startswith("0.") and r.maybe(0.5):
            t = t[1:]
    elif kind == 5:
        # many digits
        v = r.one(lambda r: n * 10 ** r.int(1, 4) + r.int(0, 9999), lambda r: n + r.int(0, 10**12) / 10**12, lambda r: n / 10**5, lambda r: n * 10**15 / 7)
        v = float(v)
        t = repr(v)
    else:
        v = float(n)
        t = f"{n}.0" if r.maybe(0.5) else f"{n}e0"
    if v >= 0 and r.maybe(0.05):
        t = "+" + t
    return t, v


def g_length(r, percent=True, neg=False):
    t, v = g_number(r, neg)
    u = r.weighted((3, "px"), (5, lambda r: r.choice([x for x in UNITS if percent or x != "%"])))
    kind = r.below(5)
    if kind == 0:
        spec, u = int(v), "px"
        v = float(spec)
    elif kind == 1:
        spec, u = v, "px"
    elif kind == 2:
        spec, u = t, "px"
    elif kind == 3:
        spec = t + u
    else:
        spec = ["unit", v, u] if r.maybe(0.5) else ["unit", int(v), u]
        v = float(spec[1])
    return spec, ("len", v, u)


def g_color(r, hsl=True):
    kind = r.below(9 if hsl else 6)
    c = [r.weighted((2, lambda r: r.int(0, 255)), (1, lambda r: r.choice([0, 255, 1, 16, 128]))) for _ in range(3)]
    alpha = r.choice([1.0, 0.5, 0.0, 0.25, 0.125])
    sp = r.choice([", ", ",", " , "])
    if kind == 0:
        name = r.choice(sorted(NAMED))
        text = r.choice([name, name.upper(), name.capitalize()])
        return text, ("rgb",) + NAMED[name] + (1.0,)
    if kind == 1:
        t = "#" + "".join("%02x" % x for x in c)
        return (t if r.maybe(0.5) else t.upper()), ("rgb", *c, 1.0)
    if kind == 2:
        d = [x // 17 for x in c]
        t = "#" + "".join("%x" % x for x in d)
        return (t if r.maybe(0.5) else t.upper()), ("rgb", *(x * 17 for x in d), 1.0)
    if kind == 3:
        return f"rgb({sp.join(map(str, c))})", ("rgb", *c, 1.0)
    if kind == 4:
        return f"rgba({sp.join(map(str, c))}{sp}{alpha})", ("rgb", *c, alpha)
    if kind == 5:
        return ["rgb", *c, alpha], ("rgb", *c, alpha)
    h, s, lt = r.int(0, 360), r.int(0, 100), r.int(0, 100)
    if kind == 6:
        return f"hsl({h}{sp}{s}%{sp}{lt}%)", ("hsl", h, s / 100.0, lt / 100.0, 1.0)
    if kind == 7:
        return f"hsla({h}{sp}{s}%{sp}{lt}%{sp}{alpha})", ("hsl", h, s / 100.0, lt / 100.0, alpha)
    return ["hsl", h, s / 100.0, lt / 100.0, alpha], ("hsl", h, s / 100.0, lt / 100.0, alpha)


def g_word(r):
    "A number for use within a text of several"
    spec, c = g_length(r, percent=False)
    text = spec if isinstance(spec, str) else gen.fmt(c[1]) + c[2]
    return text, c


def g_rect(r):
    parts = [g_word(r) for _ in range(4)]
    if r.maybe(0.3):
        # some of the sides are the same
        parts = [parts[r.below(2)] for _ in range(4)]
    c = ("rect", *(p[1] for p in parts))
    if r.maybe(0.2):
        return ["rect", *(["unit", p[1][1], p[1][2]] for p in parts)], c
    sep = r.choice([", ", " ", ",", "  ,  ", "   "])
    pad = r.choice(["", " ", "  "])
    return f"{r.choice(['', ' '])}rect({pad}{sep.join(p[0] for p in parts)}{pad}){r.choice(['', ' '])}", c


QUOTE_TEXTS = ["<", ">", "«", "»", "{", "}", "[", "]", "„", "“", "a", "xy", "<<", "-", ";", ",", "(", "'", '"', "0", "\\", "« ", " »", " ", "a b", "x  y", "; ", ": ", "a; b: c", ";;"]


def g_quotes(r, plain=False):
    pairs = [(r.choice(QUOTE_TEXTS), r.choice(QUOTE_TEXTS)) for _ in (r.many(1, 12, 0.85) if r.maybe(0.05) else r.many(1, 4, 0.4))]
    c = ("quotes", tuple(pairs))
    kind = r.below(4)
    if kind == 0:
        words = []
        for q in (x for p in pairs for x in p):
            if "\\" in q or ("'" in q) or r.maybe(0.5) and '"' not in q:
                words.append('"%s"' % q.replace("\\", "\\\\"))
            else:
                words.append("'%s'" % q)
        return r.choice([" ", "  "]).join(words), c
    if kind == 1:
        return ["list", *(["tuple", *p] for p in pairs)], c
    if kind == 2:
        return [r.choice(["list", "tuple"]), *(x for p in pairs for x in p)], c
    return ["quotes", *pairs], c


def g_spacing(r):
    a = g_word(r)
    b = (g_word(r) if r.maybe(0.85) else a) if r.maybe(0.6) else None
    c = ("spacing", a[1], (b or a)[1])
    parts = [a] + ([b] if b else [])
    kind = r.below(4)
    if kind == 0:
        return r.choice([" ", "   "]).join(p[0] for p in parts), c
    if kind == 1:
        return [r.choice(["list", "tuple"]), *(p[0] for p in parts)], c
    if kind == 2:
        return ["spacing", *(["unit", p[1][1], p[1][2]] for p in parts)], c
    if b is None:
        n = int(a[1][1])
        return n, ("spacing", ("len", float(n), "px"), ("len", float(n), "px"))
    return ["tuple", *(["unit", p[1][1], p[1][2]] for p in parts)], c


URLS = ["a.png", "", "http://example.com/x.cur", "x", "../dir/c.svg#a", "data:image;base64", "a_b-c?d=e&f=g", "a%20b.png", "é.png", "A.PNG", "it's.png", 'q".png', "(a).png", "url.png", " a b ", "a b.png", "'a'x", "a(b)", "x)", "((y", ")"]


def g_url(r):
    if r.maybe(0.6):
        return r.choice(URLS)
    parts = [r.choice(["a", "B", "c.d", "..", "e-f", "g_h", "%7E", "1", "é", "x y", "~", "+"]) for _ in range(r.int(1, 6))]
    return (r.choice(["", "", "/", "http://", "HTTP://", "file:///", "//"]) + r.choice(["/", "/", "/", "//", ".", ":", ";", "#"]).join(parts)
            + r.choice(["", "", "", "/", "?", "#", "?a=b", ".png", ".PNG"]))


def g_uri(r):
    url = g_url(r)
    pad = r.choice(["", " ", "  "])
    quotes = [q for q in ("'", '"') if q not in url]
    if len(quotes) == 2 and url.strip() == url:
        quotes.append("")
    q = r.choice(quotes)
    return f"url({pad}{q}{url}{q}{pad})", ("uri", url)


def g_cursor(r):
    uris = [g_uri(r) for _ in (r.many(0, 12, 0.85) if r.maybe(0.05) else r.many(0, 3, 0.4))]
    word = r.choice(CURSORS)
    c = ("cursor", tuple(u[1] for u in uris) + (kw(word),))
    kind = r.below(3)
    parts = [u[0] for u in uris] + [word]
    if kind == 0:
        return r.choice([", ", ",", " ,  "]).join(parts), c
    if kind == 1:
        return [r.choice(["list", "tuple"]), *parts], c
    return ["list", *(["uri", u[1][1]] for u in uris), word], c


def g_int(r, lo=-50):
    n = r.weighted((3, lambda r: r.int(1, 9)), (2, lambda r: r.int(lo, 1000)))
    kind = r.below(3)
    return (n, str(n), float(n))[kind], ("int", n)


def g_other(r, kind):
    "A value of a kind"
    if kind.startswith("lenpct"):
        return g_length(r, True, kind.endswith("±"))
    if kind.startswith("len"):
        return g_length(r, False, kind.endswith("±"))
    if kind == "int":
        return g_int(r)
    return {"color": g_color, "rect": g_rect, "quotes": g_quotes, "spacing": g_spacing, "cursor": g_cursor}[kind](r)


def g_value(r, name):
    "A valid value of a longhand: (spec, canonical)"
    keywords, kind, first = PROPS[name]
    if first == ZERO and r.maybe(0.1):
        return r.choice([0, "0", "0px", 0.0, ["unit", 0, "px"]]), ZERO
    if kind is None or (keywords and r.maybe(0.35)):
        word = r.choice(keywords)
        if word == "none":
            return "none", None
        return word, kw(word)
    return g_other(r, kind)


def spec_of(r, c):
    "A spec of a canonical value"
    if c is None:
        return "none"
    tag = c[0]
    if tag == "kw":
        return c[1]
    if tag == "len":
        return r.one(["unit", c[1], c[2]], gen.fmt(c[1]) + c[2])
    if tag == "int":
        return r.one(c[1], str(c[1]))
    if tag in ("rgb", "hsl"):
        return list(c)
    if tag in ("rect", "spacing"):
        return [tag, *(["unit", x[1], x[2]] for x in c[1:])]
    if tag == "quotes":
        return ["quotes", *c[1]]
    if tag == "cursor":
        return ["list", *(["uri", x[1]] if x[0] == "uri" else x[1] for x in c[1])]
    raise AssertionError(c)


def fraction(r, x):
    "Another number in [0, 1]"
    return 1.0 - x if x != 0.5 and r.maybe(0.5) else x + 2**-52 if x <= 0.5 else x - 2**-52


def near_url(r, url):
    k = r.int(0, len(url))
    other = r.choice([url + "/", url[:-1] or "y", url.swapcase(), url[:k] + "x" + url[k:], url[:k] + url[k:].replace("/", "//", 1), g_url(r), r.choice(URLS)])
    return other if other != url and other.strip() == other else url + "x"


ABSOLUTE = {"px": 0.75, "pt": 1, "pc": 12, "in": 72, "cm": 72 / 2.54, "mm": 72 / 25.4}


def near(r, c):
    "Another value of the same kind that differs in one component, or None"
    if c is None:
        return None
    tag = c[0]
    if tag == "len":
        if c[2] in ABSOLUTE and r.maybe(0.3):
            # (about) the same length in another unit
            u = r.choice([u for u in ABSOLUTE if u != c[2]])
            return ("len", c[1] * ABSOLUTE[c[2]] / ABSOLUTE[u], u)
        if r.maybe(0.6):
            return ("len", c[1], r.choice([u for u in UNITS if u != c[2] and u != "%"]))
        return ("len", r.choice([c[1] + 1, c[1] * 10 + 1, c[1] + 0.5, c[1] + 2**-6, math.nextafter(c[1], math.inf)]), c[2])
    if tag == "int":
        return ("int", r.choice([c[1] + 1, c[1] - 1, c[1] + 256, 3 - c[1]]))
    if tag == "rgb":
        k = r.int(1, 4)
        return tuple((fraction(r, x) if k == 4 else 255 - x) if i == k else x for i, x in enumerate(c))
    if tag == "hsl":
        k = r.int(1, 4)
        return tuple((360 - x if k == 1 else fraction(r, x)) if i == k else x for i, x in enumerate(c))
    if tag in ("rect", "spacing"):
        k = r.int(1, len(c) - 1)
        if r.maybe(0.25):
            # the same components in another order
            if r.maybe(0.5):
                j = r.int(1, len(c) - 1)
                return tuple(c[j] if i == k else x for i, x in enumerate(c))
            return (c[0],) + c[1 + k % (len(c) - 1):] + c[1:1 + k % (len(c) - 1)]
        return tuple(near(r, x) if i == k else x for i, x in enumerate(c))
    if tag == "quotes":
        pairs = [list(p) for p in c[1]]
        k = r.below(8)
        if k == 0:
            # further levels
            pairs.insert(r.choice([0, len(pairs)]), [r.choice(QUOTE_TEXTS), r.choice(QUOTE_TEXTS)])
            return ("quotes", tuple(tuple(p) for p in pairs))
        if k == 1 and len(pairs) > 1:
            pairs.pop(r.choice([0, -1]))
            return ("quotes", tuple(tuple(p) for p in pairs))
        if k == 2:
            return ("quotes", tuple(tuple(p[::-1]) for p in pairs))
        if k == 3:
            return ("quotes", tuple(tuple(p) for p in pairs[::-1]))
        k, j = r.below(len(pairs)), r.below(2)
        pairs[k][j] = r.choice([q for q in QUOTE_TEXTS if q != pairs[k][j]])
        return ("quotes", tuple(tuple(p) for p in pairs))
    if tag == "cursor":
        parts = list(c[1])
        if len(parts) > 1 and r.maybe(0.25):
            parts.pop(r.below(len(parts) - 1))
            return ("cursor", tuple(parts))
        if len(parts) > 2 and r.maybe(0.25):
            return ("cursor", tuple(parts[:-1][::-1] + parts[-1:]))
        k = r.below(len(parts))
        if parts[k][0] == "uri":
            parts[k] = ("uri", near_url(r, parts[k][1]))
        elif r.maybe(0.3):
            parts.insert(0, ("uri", "x"))
        else:
            parts[k] = kw(r.choice([w for w in CURSORS if w != parts[k][1]]))
        return ("cursor", tuple(parts))
    return None


def g_near(r, name, c):
    "A valid value of a longhand that is different from, but similar to a canonical one: (spec, canonical)"
    other = near(r, tup(c))
    if other is None or other == tup(c):
        return g_value(r, name)
    return spec_of(r, other), other


def initial(name, state):
    "Canonical initial value; state: canonical values of the declared properties"
    v = PROPS[name][2]
    if v == ("color",):
        return state.get("color", ("default",))
    if v == ("align",):
        return kw("right" if state.get("direction") == kw("rtl") else "left")
    return v


def reading(name, state):
    return state[name] if name in state else initial(name, state)


def readings(state):
    return {p: reading(p, state) for p in LONGHANDS}
