from fractions import Fraction as F

from vlib import doc as D
from vlib import gen, ref
from vlib.base import Law, require

RULE = ("Random block documents whose lengths are in all absolute and viewport units, thin/medium/thick and percentages, on displays with various sizes and resolutions; laid out, and compared with (a) the same document with every length replaced by the pixels it resolves to (percentages by the actual containing block) and "
        "(b) the reference layout. Non-trivial: a non-zero length in a unit other than px that is neither on the root alone nor ignored.")
ASSUMPTIONS = [
    "font-relative units are not judged in layout (the repository has no font metrics yet; C20 decides their conversion)",
    "percentage heights only where the parent has an explicit height; percentages of min/max-height, top and bottom are known findings of C03 and C08",
    "a length exactly half-way between two multiples of 1/64 px is not judged",
]

WIDTH_BASIS = ({f"{a}_{s}" for a in ("margin", "padding") for s in D.SIDES} | {"width", "min_width", "max_width", "left", "right"})
PLAIN = {"height", "min_height", "max_height", "top", "bottom"}
BORDERS = {f"border_{s}_width" for s in D.SIDES}


def to_pixels(doc, node, display, cw, ph, note):
    s = {}
    for name, value in doc["s"].items():
        if name in BORDERS:
            px = ref.border_width(value, display, cw)
            if value in ("thin", "medium", "thick"):
                note(value)
        elif name in WIDTH_BASIS or name in PLAIN:
            if value in ("auto", "none"):
                s[name] = value
                continue
            px = ref.length(value, display, cw if name in WIDTH_BASIS else ph)
            if isinstance(value, str) and not value.endswith("px"):
                note("percentage" if value.endswith("%") else value.lstrip("+-.0123456789e") or "number")
        else:
            s[name] = value
            continue
        s[name] = int(px) if px.denominator == 1 else float(px)
    explicit = None
    if doc["s"].get("height", "auto") != "auto":
        explicit = F(s["height"])
    return dict(doc, s=s, c=[to_pixels(c, n, display, F(node.layout.content_width), explicit, note) if n.layout is not None else c for c, n in zip(doc["c"], node.children)])


def check(case, note):
    display, doc = case["display"], case["doc"]
    node = D.build(doc, case["top_down"])
    D.run_layout(D.Display(display), node, case["standard"])
    labels = []
    pixels = to_pixels(doc, node, display, F(display["w"]), F(display["h"]), labels.append)
    other = D.build(pixels, case["top_down"])
    D.run_layout(D.Display(display), other, case["standard"])
    delta = D.diff_snap(D.snap_tree(node), D.snap_tree(other))
    require(delta is None, f"not the layout of the equivalent pixels: {delta}; in pixels: {pixels}")
    for label in labels:
        note(label)
    if not case["relative"] and ref.defined(doc):
        ref.compare(ref.layout(doc, display, case["standard"]), node, require) if root_plain(doc, display, case["standard"]) else None
    return bool(set(labels) - {"number"})


def root_plain(doc, display, standard):
    "The HTML5 root height is only defined without vertical border and padding"
    return standard == "html4" or not any(doc["s"].get(p) for p in ("border_top_width", "border_bottom_width", "padding_top", "padding_bottom"))


def cases(r):
    o = gen.Opts(percent=True, units=True, size=10, relative=0.25 if r.maybe(0.4) else 0)
    case = gen.layout_case(gen.block_doc(o))(r)
    case["relative"] = False
    if o.relative:
        case["relative"] = True
        for d in D.walk_doc(case["doc"]):
            gen.offsets(r, d["s"])
    return case


LAWS = [Law("pixels", check, cases, quick=36000)]
