"""An independent reference layout for block documents, from CSS 2.1.

It works on plain data, with exact rationals, and shares no code with the
code under test.  All results are Fractions.  Only the domain described in
DESIGN.md is defined; a rounding tie of a length conversion raises Discard.
"""
from fractions import Fraction as F
import re

from .base import Discard

SIDES = ("top", "right", "bottom", "left")
NUM = re.compile(r"^([+-]?(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?)(px|pt|pc|in|cm|mm|vw|vh|vmin|vmax|%)?$")
ABS = {"pt": F(1), "pc": F(12), "in": F(72), "cm": F("28.3465"), "mm": F("2.83465")}
INITIAL = {"display": "inline", "position": "static", "direction": "ltr"}


def parse(value):
    "(amount, unit) of a specified length"
    if isinstance(value, (int, float)):
        return F(value), "px"
    m = NUM.match(value)
    # text amounts are read as floats
    return F(float(m.group(1))), m.group(2) or "px"


def exact(value, display, basis=None):
    amount, unit = parse(value)
    if unit == "px":
        return amount
    if unit in ABS:
        return amount * ABS[unit] / 72 * F(display["dpi"])
    w, h = F(display["w"]), F(display["h"])
    if unit == "%":
        return amount / 100 * F(basis)
    return amount / 100 * {"vw": w, "vh": h, "vmin": min(w, h), "vmax": max(w, h)}[unit]


def lu(x):
    "Round to the nearest 1/64 pixel"
    scaled = x * 64
    low = scaled.numerator // scaled.denominator
    frac = scaled - low
    if abs(frac - F(1, 2)) < F(1, 10**5):
        raise Discard("rounding tie")
    return F(low if frac < F(1, 2) else low + 1, 64)


def length(value, display, basis=None):
    return lu(exact(value, display, basis))


def border_width(value, display, basis):
    if value in ("thin", "medium", "thick"):
        return F(display.get("fixed", [1, 5, 10])[("thin", "medium", "thick").index(value)])
    return length(value, display, basis)


class RBox:
    "Reference box of one node"

    def __init__(self, doc):
        self.doc = doc
        self.children = []


def get(doc, name, default):
    return doc.get("s", {}).get(name, default)


def is_percent(value):
    return isinstance(value, str) and value.endswith("%")


def displayed(doc):
    return get(doc, "display", "inline") not in ("none", None)


def shown(doc, node):
    "Pairs of the displayed children"
    return [(d, n) for d, n in zip(doc["c"], node.children) if displayed(d)]


def stacks(doc):
    "Is the content of a box a stack of blocks?"
    return get(doc, "display", "inline") in ("block", "list-item") and any(displayed(d) and "i" not in d for d in doc["c"])


def defined(doc):
    "Is the layout of a document defined here? There are no inline boxes, nor tables with content."
    return "i" not in doc and (stacks(doc) or not doc["c"] or doc["s"]["display"] in ("block", "list-item", "none")) and all(map(defined, doc["c"]))


def solve_width(doc, display, cw):
    """10.3.3 and 10.4. Returns (margin_left, margin_right, width, b/p sides, both_auto)"""
    r = {}
    for side in SIDES:
        r["p" + side] = length(get(doc, f"padding_{side}", 0), display, cw)
        r["b" + side] = border_width(get(doc, f"border_{side}_width", 0), display, cw)
    hbp = r["pleft"] + r["pright"] + r["bleft"] + r["bright"]
    ml, mr = get(doc, "margin_left", 0), get(doc, "margin_right", 0)
    ml = None if ml == "auto" else length(ml, display, cw)
    mr = None if mr == "auto" else length(mr, display, cw)
    width = get(doc, "width", "auto")
    rtl = get(doc, "direction", "ltr") == "rtl"
    both = False
    if width == "auto":
        ml, mr = ml or F(0), mr or F(0)
        w = cw - hbp - ml - mr
        if w < 0:
            w = F(0)
            if rtl:
                ml = cw - hbp - mr
            else:
                mr = cw - hbp - ml
    else:
        w = length(width, display, cw)
        mx, mn = get(doc, "max_width", "none"), get(doc, "min_width", "auto")
        if mx not in ("none", None):
            w = min(w, length(mx, display, cw))
        if mn != "auto":
            w = max(w, length(mn, display, cw))
        total = w + hbp + (ml or 0) + (mr or 0)
        if total > cw:
            ml, mr = ml or F(0), mr or F(0)
        rest = cw - w - hbp
        if ml is None and mr is None:
            both = True
            half = F((rest / 2).numerator // (rest / 2).denominator)
            ml = mr = half
        elif ml is None:
            ml = rest - mr
        elif mr is None:
            mr = rest - ml
        elif rtl:
            ml = rest - mr
        else:
            mr = rest - ml
    r.update(ml=ml, mr=mr, w=w, both=both)
    return r


def layout_block(doc, display, cw, parent_height, is_root=False):
    """Lay out one displayed block. parent_height: the explicit height percentages refer to (None: automatic)."""
    box = RBox(doc)
    r = solve_width(doc, display, cw)
    box.__dict__.update(r)
    mt, mb = get(doc, "margin_top", 0), get(doc, "margin_bottom", 0)
    box.mt = F(0) if mt == "auto" else length(mt, display, cw)
    box.mb = F(0) if mb == "auto" else length(mb, display, cw)
    box.ctop, box.cbottom = box.mt, box.mb  # collapsed margins

    height = get(doc, "height", "auto")
    explicit = None
    if height != "auto":
        if is_percent(height) and parent_height is None:
            raise Discard("percentage of an automatic height")
        explicit = length(height, display, parent_height)

    y = F(0)
    previous = None
    for child_doc in doc.get("c", ()):
        if not displayed(child_doc):
            box.children.append(None)
            continue
        child = layout_block(child_doc, display, box.w, explicit)
        box.children.append(child)
        if previous is None:
            if box.btop or box.ptop:
                y += child.ctop
            else:
                box.ctop = max(box.ctop, child.ctop)
        else:
            y += max(previous.cbottom, child.ctop)
        child.y = y  # top of its border box, from the top of this content
        y += child.border_height
        previous = child

    if explicit is not None:
        h = explicit
    else:
        h = y
        if previous is not None:
            if box.bbottom or box.pbottom:
                h += previous.cbottom
            else:
                box.cbottom = max(box.cbottom, previous.cbottom)
    mx, mn = get(doc, "max_height", "none"), get(doc, "min_height", "auto")
    if mx not in ("none", None):
        h = min(h, length(mx, display, parent_height))
    if mn != "auto":
        h = max(h, length(mn, display, parent_height))
    box.h = h
    box.border_height = box.btop + box.ptop + h + box.pbottom + box.bbottom
    return box


def place(box, left, top):
    "Absolute position of the content box; left/top: absolute content position of the containing block."
    box.left = left + box.ml + box.bleft + box.pleft
    box.top = top + box.y + box.btop + box.ptop
    for child in box.children:
        if child is not None:
            place(child, box.left, box.top)


def layout(doc, display, standard="html5"):
    root = layout_block(doc, display, F(display["w"]), F(display["h"]), True)
    root.y = root.ctop
    place(root, F(0), F(0))
    if standard == "html5":
        root.h = F(display["h"]) - root.ctop - root.cbottom
    return root


def compare(root, node, require):
    "Compare all boxes; returns the number of boxes compared."
    count = 0
    stack = [(root, node, "root")]
    while stack:
        box, node, path = stack.pop()
        if box is None:
            continue
        actual = node.layout
        if actual is None:
            require(False, f"{path}: no layout box")
        for name, got, want in (
            ("content width", actual.content_width, box.w),
            ("content height", actual.content_height, box.h),
            ("absolute left of the content", actual.absolute_content_left, box.left),
            ("absolute top of the content", actual.absolute_content_top, box.top),
            ("left margin", actual.margin_left, box.ml),
            ("right margin", actual.margin_right, box.mr),
            ("top margin", actual.margin_top, box.mt),
            ("bottom margin", actual.margin_bottom, box.mb),
            ("left border", actual.border_left_width, box.bleft),
            ("right border", actual.border_right_width, box.bright),
            ("top border", actual.border_top_width, box.btop),
            ("bottom border", actual.border_bottom_width, box.bbottom),
            ("left padding", actual.padding_left, box.pleft),
            ("right padding", actual.padding_right, box.pright),
            ("top padding", actual.padding_top, box.ptop),
            ("bottom padding", actual.padding_bottom, box.pbottom),
        ):
            if got != want:
                require(False, f"{path}: {name} is {got!r}, expected {show(want)}")
        count += 1
        for i, (c, n) in enumerate(zip(box.children, node.children)):
            stack.append((c, n, f"{path}/{i}"))
    return count


def show(x):
    return str(int(x)) if x.denominator == 1 else repr(float(x))
