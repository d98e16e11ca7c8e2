"""Generators of displays, style values and documents (functions of a Source, returning plain data)."""

import copy

from vlib import doc as D

SIDES = ("top", "right", "bottom", "left")


def display(r):
    return {
        "dpi": r.weighted((4, lambda r: r.choice([96, 72, 120, 144, 160, 300])), (1, lambda r: r.int(30, 400)), (1, lambda r: r.int(300, 3200) / 8)),
        "w": r.weighted((9, lambda r: r.choice([640, 1024, 320, 100, 1])), (8, lambda r: r.int(1, 4000)), (1, lambda r: r.int(4000, 100000)), (3, lambda r: r.int(1, 64000) / 64)),
        "h": r.weighted((9, lambda r: r.choice([480, 768, 240, 100, 1])), (8, lambda r: r.int(1, 4000)), (1, lambda r: r.int(4000, 100000)), (3, lambda r: r.int(1, 64000) / 64)),
        "fixed": r.choice([[1, 5, 10], [1, 3, 5], [2, 4, 9], [0.5, 1.25, 3.75]]),
    }


def fmt(x):
    return str(int(x)) if x == int(x) else repr(x)


# ---------------------------------------------------------------- lengths
def px(lo=0, hi=60):
    "Pixels; fractions are multiples of 1/64, so they are exact"

    def gen(r):
        kind = r.below(60)
        if kind == 59 and hi > 0:
            # huge
            return r.one(lambda r: r.int(1000, 200000), lambda r: f"{fmt(r.int(64000, 12800000) / 64)}px")
        kind //= 10
        if kind <= 1:
            return r.int(lo, hi)
        if kind == 2:
            return f"{r.int(lo, hi)}px"
        if kind == 3:
            return r.int(lo * 8, hi * 8) / 8
        if kind == 4:
            return f"{fmt(r.int(lo * 64, hi * 64) / 64)}px"
        return f"{r.int(lo, hi)}"

    return gen


SCALE = {"pt": 45, "pc": 4, "in": 0.6, "cm": 1.6, "mm": 16, "vw": 6, "vh": 8, "vmin": 9, "vmax": 6}
UNITS = sorted(SCALE)


def unit(lo=0, factor=1):
    "Lengths in other absolute and viewport units; they come to about 60px at most on usual displays, and now and then to much more."

    def gen(r):
        u = r.choice(UNITS)
        n = r.int(int(lo * 20), 20)
        big = r.choice([20, 0.05]) if r.maybe(0.05) else 1
        return f"{fmt(round(factor * SCALE[u] * n * big / 20, 3))}{u}"

    return gen


def pct(lo=0, hi=100):
    special = [v for v in (50, 25, 12.5, 33.3, 100, 0, 1, 66.67) if lo <= v <= hi]

    def gen(r):
        if special and r.maybe(0.5):
            return f"{fmt(r.choice(special))}%"
        if hi >= 100 and r.maybe(0.04):
            return f"{fmt(r.choice([150, 101, 1000, 2500, 0.01]))}%"
        return f"{r.int(lo, hi)}%"

    return gen


def length(lo=0, hi=60, percent=30, units=True):
    pairs = [(4, px(lo, hi))]
    if units:
        pairs.append((2, unit(0 if lo <= 0 else lo / hi)))
    if percent:
        pairs.append((2, pct(0 if lo <= 0 else 1, percent)))

    def gen(r):
        return r.weighted(*pairs)

    return gen


def line(r):
    return r.choice(["thin", "medium", "thick"])


class Opts:
    """Options of generated block styles."""

    def __init__(self, percent=True, units=False, hidden=0.0, limits=True, vneg=False, relative=0.0, focus="all", depth=7, size=14, para=0.0, noise=True):
        self.percent = percent
        self.units = units
        self.hidden = hidden
        self.limits = limits
        self.relative = relative
        self.focus = focus
        self.depth = depth
        self.size = size
        self.para = para
        self.noise = noise

    def sometimes(self, r, **kw):
        "A copy in which some options only apply to some of the documents"
        o = copy.copy(self)
        for name, p in kw.items():
            if not r.maybe(p):
                setattr(o, name, type(getattr(self, name))())
        return o


# properties of a box that must not matter for the layout
NOISE = {
    "visibility": ["hidden", "collapse"], "color": ["red", "#123"], "z_index": [0, 3, -1], "background_color": ["blue", "transparent"], "caption_side": ["bottom"],
    "clear": ["left", "both"], "clip": ["rect(1px, 2px, 3px, 4px)"], "cursor": ["pointer", "url(a.png), auto"], "empty_cells": ["hide"], "letter_spacing": ["3px"],
    "word_spacing": ["5px"], "text_decoration": ["underline"], "text_transform": ["uppercase"], "orphans": [5], "widows": [1], "outline_width": ["3px", "thick"],
    "outline_style": ["solid", "dotted"], "outline_color": ["red", "invert"], "page_break_after": ["always"], "page_break_before": ["left"], "page_break_inside": ["avoid"],
    "quotes": ["'<' '>'"], "unicode_bidi": ["embed", "bidi-override"], "white_space": ["pre", "nowrap"], "border_top_color": ["red"], "border_left_color": ["transparent"],
    "left": [7, "20%"], "top": [9, "-3px"], "right": [11], "bottom": ["5px"],
}


def block_style(r, o, density):
    """Style of one block. density: probability of a property to be set."""
    s = {}
    p = 30 if o.percent else 0
    horizontal = o.focus in ("all", "horizontal")
    vertical = o.focus in ("all", "vertical")

    def put(name, gen, prob=density):
        if r.maybe(prob):
            s[name] = r.one(gen)

    s["display"] = r.weighted((12, "block"), (2, "list-item"), (1, "table"))
    if o.hidden and r.maybe(o.hidden):
        s["display"] = "none"
    if horizontal:
        for side in ("left", "right"):
            put(f"padding_{side}", length(percent=p, units=o.units), density * 0.7)
            put(f"border_{side}_width", lambda r: r.weighted((3, px(0, 20)), (2, line), (2 if o.units else 0, unit())), density * 0.7)
        kind = r.weighted((3, "none"), (4, "mixed"), (2, "auto"))
        if kind == "auto" and r.maybe(min(1, density * 2)):
            s["margin_left"] = s["margin_right"] = "auto"
        elif kind == "mixed":
            for side in ("left", "right"):
                put(f"margin_{side}", lambda r: r.weighted((4, length(percent=p, units=o.units)), (3, px(-40, -1)), (3, "auto"), (1, px(0, 900)), (1 if p else 0, pct(-25, -1)), (1 if o.units else 0, unit(-0.6))), max(density, 0.4))
        if r.maybe(0.45):
            s["width"] = r.weighted((4, px(0, 200)), (2, px(0, 3000)), (4 if o.percent else 0, pct(0, 150)), (4 if o.units else 0, unit(0, 4)), (1, "auto"))
            if o.limits:
                for name, none in (("min_width", "auto"), ("max_width", "none")):
                    put(name, lambda r: r.weighted((4, px(0, 250)), (3 if o.percent else 0, pct(0, 120)), (2 if o.units else 0, unit(0, 3)), (1, none)), 0.35)
        if r.maybe(0.3):
            s["direction"] = r.choice(["rtl", "ltr"])
    if vertical:
        for side in ("top", "bottom"):
            put(f"margin_{side}", lambda r: r.weighted((5, length(percent=p, units=o.units)), (4, px(0, 12)), (1, "auto")), min(1, density * 1.6))
            put(f"padding_{side}", length(percent=p, units=o.units), density * 0.5)
            put(f"border_{side}_width", lambda r: r.weighted((3, px(0, 20)), (2, line), (2 if o.units else 0, unit())), density * 0.5)
        if r.maybe(0.4):
            s["height"] = r.weighted((5, px(0, 120)), (3 if o.units else 0, unit(0)), (5 if o.percent else 0, pct(0, 150)), (1, "auto"), (1, 0))
        if o.limits:
            for name, none in (("min_height", "auto"), ("max_height", "none")):
                put(name, lambda r: r.weighted((5, px(0, 120)), (2 if o.units else 0, unit()), (1, none)), density * 0.5)
    if o.relative and r.maybe(o.relative):
        s["position"] = "relative"
    if o.noise and r.maybe(0.12):
        name = r.choice(sorted(NOISE))
        s[name] = r.choice(NOISE[name])
    return s


def tree(r, o):
    density = r.choice([0.15, 0.3, 0.3, 0.6, 0.9])
    shape = r.weighted((5, "tree"), (2, "chain"), (2, "wide"))
    budget = [r.int(1, o.size)]
    max_depth, wide, more = o.depth, 8, 0.8
    if r.maybe(0.03):
        # a few large ones
        budget, max_depth, wide, more = [r.int(o.size, 5 * o.size)], 3 * o.depth, 40, 0.95
        if r.maybe(0.1):
            # and very large ones, with few properties
            density, shape = 0.15, r.choice(["wide", "wide", "chain"])
            budget, max_depth, wide, more = [r.int(50, 160)], 60, 150, 0.995

    def node(depth):
        budget[0] -= 1
        s = block_style(r, o, density)
        kids = []
        if depth < max_depth:
            if shape == "chain":
                # mostly one child, sometimes a sibling before or after it
                if budget[0] > 0 and r.maybe(max(0.85, more)):
                    kids.append(node(depth + 1))
                    if budget[0] > 0 and r.maybe(0.2):
                        kids.insert(r.below(2), node(max_depth))
            elif shape == "wide":
                if depth == 0 or r.maybe(0.15):
                    for _ in r.many(1 if depth == 0 else 0, wide if depth == 0 else min(wide, 8), more if depth == 0 else 0.8):
                        if budget[0] <= 0:
                            break
                        kids.append(node(depth + 1))
            else:
                for _ in r.many(0, 4, 0.62):
                    if budget[0] <= 0:
                        break
                    kids.append(node(depth + 1))
        return {"s": s, "c": kids}

    return node(0)


# ---------------------------------------------------------------- block documents in the domain of the reference
def sane(doc, parent_height="ok"):
    """Map a document into the domain of the reference layout (see DESIGN.md).

    * a table with children, and a block with inline children, has a bottom padding (margins don't collapse through it)
    * percentage heights only below a parent with an explicit, non-percentage, unlimited height
    * min/max width only with an explicit width
    * min/max heights: no percentages; min-height with an automatic height only where
      no margin of a child could collapse through the bottom.
    """
    s = dict(doc["s"])
    s["display"] = s.get("display", "block")
    if s.get("width", "auto") == "auto":
        s.pop("min_width", None)
        s.pop("max_width", None)
    kids = doc["c"]
    h = s.get("height", "auto")
    if isinstance(h, str) and h.endswith("%") and parent_height != "ok":
        h = s["height"] = "auto"
    limited = "min_height" in s or "max_height" in s
    if h == "auto":
        shown = [k for k in kids if k["s"].get("display") != "none"]
        if shown and ("min_height" in s or s["display"] == "table" or "i" in shown[0]):
            # the bottom margin of the last child must not be able to collapse with this one's
            s["padding_bottom"] = "1px"
    below = None
    if s.get("height", "auto") != "auto" and not str(s["height"]).endswith("%") and not limited:
        below = "ok"
    return {"s": s, "c": [k if "i" in k else sane(k, below) for k in kids]}


def block_doc(o):
    "Block documents, some of them with other units, hidden boxes, and boxes with inline content"
    o.units, o.hidden, o.para = True, 0.1, 0.2

    def gen(r):
        x = o.sometimes(r, units=0.2, hidden=0.2, para=0.2)
        doc = tree(r, x)
        if doc["s"]["display"] == "none":
            doc["s"]["display"] = "block"
        if x.para:
            paras(r, doc, x.para)
        return sane(doc)

    return gen


def layout_case(docs):
    def gen(r):
        return {
            "doc": docs(r),
            "display": display(r),
            "standard": r.choice(["html5", "html4"]),
            "top_down": r.maybe(0.5),
        }

    return gen


# ---------------------------------------------------------------- documents for differential laws (no reference layout needed)
def offsets(r, s, percent=True):
    "Box offsets; generated for static boxes as well (where they have no effect)"
    for a, b in (("left", "right"), ("top", "bottom")):
        for side in (a, b):
            if r.maybe(0.5):
                s[side] = r.weighted((4, px(-40, 60)), (2, unit()), (2 if percent and a == "left" else 0, pct(0, 60)), (1, "auto"))


def inline_intrinsic(r):
    "Intrinsic size; always known for a non-replaced box"
    if r.maybe(0.5):
        i = {"width": r.int(0, 200), "height": r.int(0, 100)}
        if r.maybe(0.2):
            i[r.choice(["exact_width", "exact_height"])] = False
        return i
    i = {"is_replaced": True}
    if r.maybe(0.1):
        i[r.choice(["exact_width", "exact_height"])] = False
    if r.maybe(0.5):
        i["width"] = r.int(0, 200)
    if r.maybe(0.5):
        i["height"] = r.int(0, 100)
    if r.maybe(0.4):
        i["ratio"] = r.choice([1, 2, 0.5, 1.5, 3, 0.25, 20, 0.015625, 0])
    return i


def inline_node(r, relative=0.2, nested=0):
    """An inline box; nested: levels of inline boxes it may have inside"""
    s = {"display": "inline"}
    for side in SIDES:
        if r.maybe(0.2):
            s[f"margin_{side}"] = r.weighted((4, length()), (1, px(-20, 0)), (1, "auto"))
        if r.maybe(0.2):
            s[f"padding_{side}"] = r.one(length())
        if r.maybe(0.2):
            s[f"border_{side}_width"] = r.weighted((3, px(0, 20)), (1, line))
    if r.maybe(0.3):
        s["width"] = r.weighted((3, px(0, 200)), (1, pct(0, 100)), (1, unit(0)))
    if r.maybe(0.3):
        s["height"] = r.weighted((3, px(0, 200)), (1, unit(0)))
    if r.maybe(0.1):
        s["direction"] = "rtl"
    if relative and r.maybe(relative):
        s["position"] = "relative"
        offsets(r, s)
    kids = []
    if nested and r.maybe(0.2):
        kids = [inline_node(r, relative, nested - 1) for _ in r.many(1, 3, 0.3)]
    return {"s": s, "i": inline_intrinsic(r), "c": kids}


def para(r):
    "Turn a childless block into one with inline content"
    many = r.many(1, 24, 0.93) if r.maybe(0.03) else r.many(1, 3, 0.4)
    return [inline_node(r, nested=2) for _ in many]


def paras(r, doc, p):
    "Give some childless blocks inline content"
    if not doc["c"] and r.maybe(p):
        doc["c"] = [inline_node(r, 0) for _ in r.many(1, 3, 0.3)]
        for d in doc["c"]:
            d["s"].pop("margin_bottom", None)
    elif "i" not in doc:
        for c in doc["c"]:
            paras(r, c, p)


def free_style(r, o, density):
    s = block_style(r, o, density)
    if r.maybe(0.15):
        s["position"] = "relative"
    if r.maybe(0.2):
        offsets(r, s)
    if r.maybe(0.1):
        s["margin_" + r.choice(["top", "bottom"])] = r.one(px(-30, 60))
    return s


FREE = Opts(percent=True, units=True, size=10, depth=5)


def free_doc(r, o=FREE):
    "Any block document with inline leaves that the engine can lay out"
    doc = tree(r, o)

    def visit(d):
        if r.maybe(0.15):
            d["s"]["position"] = "relative"
        if r.maybe(0.15):
            offsets(r, d["s"])
        if r.maybe(0.08):
            d["s"]["margin_" + r.choice(["top", "bottom"])] = r.one(px(-30, 60))
        if not d["c"] and r.maybe(0.3):
            d["c"] = para(r)
        else:
            for c in d["c"]:
                visit(c)
        return d

    return visit(doc)


def odd(r, doc, p=0.06):
    "Now and then, blocks in inline boxes, and an inline root"
    if not r.maybe(p):
        return doc
    few = Opts(percent=True, units=True, size=3, depth=2)
    for d in list(D.walk_doc(doc)):
        if "i" in d and r.maybe(0.4):
            d["c"] = [sane(free_doc(r, few)) for _ in r.many(1, 3, 0.4)]
    if r.maybe(0.5):
        root = inline_node(r)
        root["c"] = [doc]
        return root
    return doc


def hide(r, doc, p, root=0.02, anything=True):
    "Hide some nodes; hidden subtrees may contain anything"

    def weird(d):
        if r.maybe(0.5):
            d["s"].update(r.choice([{"float": "left"}, {"position": "absolute"}, {"position": "fixed"}, {"width": "3em"}, {"display": "inline-block"},
                                    {"display": "table"}, {"margin_top": "10ex"}, {"left": "inherit"}, {"display": "flex"}]))
        for c in d["c"]:
            weird(c)

    def visit(d, prob):
        if r.maybe(prob):
            if anything and r.maybe(0.5):
                weird(d)
            d["s"]["display"] = "none"
            return
        for c in d["c"]:
            visit(c, p)

    visit(doc, root)
    return doc
