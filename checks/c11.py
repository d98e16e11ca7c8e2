from fractions import Fraction as F

from vlib import doc as D
from vlib import gen, ref
from vlib.base import Discard, Law, require

RULE = ("Random combinations of intrinsic width, height and ratio (each present or not), explicit or automatic width and height, margins (also automatic and negative), borders and paddings of inline boxes, replaced or not, in a random containing block; "
        "the used size, margins, borders, paddings and position are compared with an independent reading of CSS 2.1 10.3.1, 10.3.2, 10.6.1 and 10.6.2. Non-trivial: a replaced box with an automatic dimension, or a box with a margin, border or padding.")
ASSUMPTIONS = [
    "the ratio is applied as the existing tests fix it: width = height * ratio, rounded to whole pixels, and height = width * ratio",
    "positions are judged for the first inline box of a block only (line boxes are not implemented); sizes for all",
    "within another inline box, boxes that refer to the width of the containing block are not judged (the repository takes the inline parent for it)",
    "no percentage heights, no min/max sizes; the intrinsic size of a non-replaced box is known",
    "half of an odd default width may be rounded either way",
]


def near(a, b):
    "Equal, but for the rounding of products of floats"
    return abs(F(a) - F(b)) <= F(1, 10**6)


def used(d, display, cw, m):
    """(width, height, tolerance) of an inline box"""
    i, s = d["i"], d["s"]
    if not i.get("is_replaced"):
        return F(i["width"]), F(i["height"]), 0
    iw, ih, ratio = (None if i.get(k) is None else F(i[k]) for k in ("width", "height", "ratio"))
    width, height = s.get("width", "auto"), s.get("height", "auto")
    h = None if height == "auto" else ref.length(height, display)
    tolerance = 0

    def whole(x):
        low = x.numerator // x.denominator
        if abs(x - low - F(1, 2)) < F(1, 10**6):
            raise Discard("rounding tie")
        return F(low + (x - low > F(1, 2)))

    if width != "auto":
        w = ref.length(width, display, cw)
    elif h is None and iw is not None:
        w = iw
    elif h is None and ih is not None and ratio is not None:
        w = whole(ih * ratio)
    elif h is not None and ratio is not None:
        w = whole(h * ratio)
    elif h is None and ratio is not None:
        w = cw - sum(m.values())
    elif iw is not None:
        w = iw
    else:
        w = F(300)
    if w < 0:
        raise Discard("no space left")
    if h is None:
        if width == "auto" and ih is not None:
            h = ih
        elif ratio is not None:
            h = w * ratio
        elif ih is not None:
            h = ih
        else:
            h = min(w / 2, F(150))
            tolerance = 1 if h == w / 2 else 0
    return w, h, tolerance


def check(case, note):
    display = case["display"]
    root = D.build(case["doc"], case["top_down"])
    D.run_layout(D.Display(display), root, case["standard"])
    node, doc = root, case["doc"]
    nontrivial = False
    if "i" in doc:
        note("inline root")
        cw = F(display["w"])
        boxes = [(doc, root, False, False)]
    else:
        while "i" not in doc["c"][-1]:
            node, doc = node.children[-1], doc["c"][-1]
        block = node.layout
        cw = F(block.content_width)
        boxes = [(d, n, k == 0, False) for k, (d, n) in enumerate(zip(doc["c"], node.children))]
    for d, n, first, nested in boxes:
        boxes.extend((c, k, False, True) for c, k in zip(d["c"], n.children))
        if nested:
            note("nested")
            if uses_container(d):
                continue
        box = n.layout
        require(box is not None, "an inline box has no layout box")
        s = d["s"]
        m = {}
        for side in D.SIDES:
            margin = s.get(f"margin_{side}", 0)
            want = {"margin": F(0) if margin == "auto" else ref.length(margin, display, cw),
                    "padding": ref.length(s.get(f"padding_{side}", 0), display, cw),
                    "border": ref.border_width(s.get(f"border_{side}_width", 0), display, cw)}
            for what, v in want.items():
                got = getattr(box, f"border_{side}_width" if what == "border" else f"{what}_{side}")
                require(got == v, f"{what} {side} is {got!r}, expected {float(v)}")
            m[side] = sum(want.values())
        w, h, tolerance = used(d, display, cw, {k: m[k] for k in ("left", "right")})
        require(near(box.content_width, w), f"content width is {box.content_width!r}, expected {float(w)}")
        require(near(box.content_height, h) or abs(F(box.content_height) - h) < tolerance, f"content height is {box.content_height!r}, expected {float(h)}")
        if first:
            left, top = F(box.absolute_content_left) - F(block.absolute_content_left), F(box.absolute_content_top) - F(block.absolute_content_top)
            require(left == m["left"], f"content starts {float(left)} px right of the block's content, expected {float(m['left'])}")
            require(top == m["top"], f"content starts {float(top)} px below the block's content, expected {float(m['top'])}")
        if d["i"].get("is_replaced"):
            auto = (s.get("width", "auto") == "auto", s.get("height", "auto") == "auto")
            has = "".join(x[0] for x in ("width", "height", "ratio") if d["i"].get(x) is not None) or "nothing"
            note(f"replaced {'auto' if auto[0] else 'explicit'} x {'auto' if auto[1] else 'explicit'}, intrinsic {has}")
            nontrivial |= any(auto)
        nontrivial |= any(m.values())
    return nontrivial


def uses_container(d):
    "Whether the size of a box depends on that of its containing block"
    s, i = d["s"], d["i"]
    return any(str(v).endswith("%") for v in s.values()) or (
        "is_replaced" in i and "ratio" in i and i.get("width") is None and i.get("height") is None and s.get("width", "auto") == s.get("height", "auto") == "auto")


def inline(r, depth=0):
    d = gen.inline_node(r, 0)
    if depth < 2 and r.maybe(0.15):
        d["c"] = [inline(r, depth + 1) for _ in r.many(1, 2, 0.3)]
    i = {}
    if r.maybe(0.75):
        i["is_replaced"] = True
        size = lambda r: r.weighted((6, lambda r: r.int(1, 400)), (2, lambda r: r.int(1, 6400) / 64), (1, 0))  # noqa: E731
        if r.maybe(0.5):
            i["width"] = size(r)
        if r.maybe(0.5):
            i["height"] = size(r)
        if r.maybe(0.5):
            i["ratio"] = r.weighted((2, lambda r: r.choice([1, 2, 0.5, 1.5, 3, 0.25, 1.0])), (1, lambda r: r.int(1, 640) / 64), (1, lambda r: round(r.int(1, 500) / 100, 2)), (1, lambda r: r.choice([10, 20, 100, 1000, 0.01, 0.1])))
    else:
        i = {"width": r.int(0, 400), "height": r.one(lambda r: r.int(0, 100), lambda r: r.int(1, 6400) / 64)}
        if r.maybe(0.2):
            i["ratio"] = 2
    d["i"] = i
    return d


def docs(r):
    if r.maybe(0.05):
        return inline(r)
    kids = [inline(r) for _ in r.many(1, 3, 0.25)]
    doc = {"s": gen.block_style(r, gen.Opts(), 0.2), "c": kids}
    doc["s"]["height"] = r.one(gen.px(1, 200))
    if r.maybe(0.15):
        doc["s"]["position"] = "relative"
    for _ in r.many(0, 3, 0.5):
        kids = [doc]
        if r.maybe(0.4):
            sibling = {"s": gen.block_style(r, gen.Opts(), 0.2), "c": []}
            sibling["s"]["height"] = 10
            kids.insert(0, sibling)
        doc = {"s": gen.block_style(r, gen.Opts(), 0.2), "c": kids}
    return doc


def cases(r):
    case = gen.layout_case(docs)(r)
    if "i" in case["doc"]:
        # in HTML5, the root fills the display
        case["standard"] = "html4"
    return case


LAWS = [Law("inline", check, cases, quick=60000)]
