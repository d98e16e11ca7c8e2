import copy
from fractions import Fraction as F

from vlib import doc as D
from vlib import gen
from vlib.base import Law, require

RULE = ("Random documents with everything the engine can lay out (negative margins, relative positions, inline content, percentages, all units, limits, hidden boxes, both directions and HTML standards), and their mirror images: "
        "left and right margins, borders, paddings and offsets swapped, and every direction reversed. Every block-level box must be at the mirrored position with swapped edges and the same size and vertical position; inline boxes must have swapped edges and the same size. Non-trivial: a box that is not symmetric.")
ASSUMPTIONS = [
    "not generated: two automatic horizontal margins around a given width (the remaining space is halved in whole pixels), both left and right offsets on a relatively positioned box (left always wins)",
    "the horizontal positions of inline boxes are not judged (they are not arranged in lines yet)",
]
PAIRS = [("margin_left", "margin_right"), ("padding_left", "padding_right"), ("border_left_width", "border_right_width"), ("left", "right")]
VERTICAL = ["content_height", "content_width", "margin_top", "margin_bottom", "padding_top", "padding_bottom", "border_top_width", "border_bottom_width", "content_top", "content_bottom",
            "absolute_content_top", "absolute_content_bottom", "collapse_top", "collapse_bottom", "absolute_border_box_top", "absolute_border_box_bottom", "border_box_width", "border_box_height", "padding_box_width"]
SWAPPED = [("margin_left", "margin_right"), ("padding_left", "padding_right"), ("border_left_width", "border_right_width")]
EDGES = ["absolute_content", "absolute_padding_box", "absolute_border_box"]


def tidy(doc):
    for d in D.walk_doc(doc):
        s = d["s"]
        if s.get("margin_left") == "auto" and s.get("margin_right") == "auto" and s.get("width", "auto") != "auto":
            s["margin_left"] = "7px"
        if s.get("left", "auto") != "auto" and s.get("right", "auto") != "auto":
            del s["right"]
    return doc


def mirror(doc):
    s = dict(doc["s"])
    for a, b in PAIRS:
        x, y = s.pop(a, None), s.pop(b, None)
        if x is not None:
            s[b] = x
        if y is not None:
            s[a] = y
    s["direction"] = "ltr" if s.get("direction") == "rtl" else "rtl"
    return dict(doc, s=s, c=[mirror(c) for c in doc["c"]])


def laid_out(case, doc):
    root = D.build(doc, case["top_down"])
    D.run_layout(D.Display(case["display"]), root, case["standard"])
    return root


def check(case, note):
    doc = case["doc"]
    one, two = laid_out(case, doc), laid_out(case, mirror(doc))
    width = F(case["display"]["w"])
    nontrivial = False
    for i, (d, a, b) in enumerate(zip(D.walk_doc(doc), D.walk(one), D.walk(two))):
        a, b = a.layout, b.layout
        require((a is None) == (b is None), f"node {i} has a box in one of the layouts only")
        if a is None:
            continue
        what = f"node {i} (in document order)"
        for p in VERTICAL:
            require(getattr(a, p) == getattr(b, p), f"{what}: {p} is {getattr(a, p)}, and {getattr(b, p)} in the mirrored document")
        for p, q in SWAPPED:
            for x, y in ((p, q), (q, p)):
                require(getattr(a, x) == getattr(b, y), f"{what}: {x} is {getattr(a, x)}, but {y} is {getattr(b, y)} in the mirrored document")
            nontrivial |= getattr(a, p) != getattr(a, q)
        if "i" not in d:
            for p in EDGES:
                for x, y in (("left", "right"), ("right", "left")):
                    got, want = getattr(b, f"{p}_{y}"), width - F(getattr(a, f"{p}_{x}"))
                    require(got == want, f"{what}: {p}_{x} is {getattr(a, f'{p}_{x}')}; in the mirrored document, {p}_{y} is {got}, expected {float(want)}")
    return nontrivial


def case(r):
    doc = gen.free_doc(r)
    if r.maybe(0.3):
        doc = gen.hide(r, doc, 0.15, anything=False)
    return {"doc": tidy(copy.deepcopy(doc)), "display": gen.display(r), "standard": r.choice(["html5", "html4"]), "top_down": r.maybe(0.5)}


LAWS = [Law("mirror", check, case, quick=20000)]
