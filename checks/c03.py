from fractions import Fraction as F

from vlib import doc as D
from vlib import gen, ref
from vlib.base import Finding, Law, require
from checks.c02 import collapsed

RULE = ("Random trees of block-level boxes with automatic, explicit (px, fractions, percentages of an explicit parent height) heights and min/max heights, laid out once; the height of every box below the root is compared with the actual "
        "position of its last child, or its specified height. Non-trivial: a box below the root with an automatic height and children, or a min/max height that takes effect, or a percentage height.")
ASSUMPTIONS = [
    "percentage heights only where the parent has an explicit, non-percentage height without min/max (other bases are known findings)",
    "min/max-height are not percentages",
    "the root box is decided by C04",
]


def check(case, note):
    display = case["display"]
    root = D.build(case["doc"], case["top_down"])
    D.run_layout(D.Display(display), root, case["standard"])
    nontrivial = False
    stack = [(case["doc"], root, F(display["w"]), None)]
    while stack:
        doc, node, cw, basis = stack.pop()
        box = node.layout
        require(box is not None, "a displayed block has no layout box")
        s = doc["s"]
        height = s.get("height", "auto")
        explicit = None
        is_root = node is root
        if not (is_root and ref.is_percent(height)):
            if height != "auto":
                explicit = ref.length(height, display, basis)
                h = explicit
                if ref.is_percent(height):
                    nontrivial = True
                    note("percentage")
            elif ref.shown(doc, node):
                last_doc, last = ref.shown(doc, node)[-1]
                h = F(last.layout.absolute_border_box_bottom) - F(box.absolute_content_top)
                separated = (ref.border_width(s.get("border_bottom_width", 0), display, cw) != 0
                             or ref.length(s.get("padding_bottom", 0), display, cw) != 0)
                if separated:
                    h += collapsed(last_doc, last, display, F(box.content_width))[1]
                if not is_root:
                    nontrivial = True
                    note("automatic, with children")
            else:
                h = F(0)
            limited = h
            if s.get("max_height", "none") != "none":
                limited = min(limited, ref.length(s["max_height"], display))
            if s.get("min_height", "auto") != "auto":
                limited = max(limited, ref.length(s["min_height"], display))
            if limited != h and not is_root:
                nontrivial = True
                note("limited" + (" automatic height" if height == "auto" else " explicit height"))
            if not is_root:
                require(box.content_height == limited, f"content height is {box.content_height!r}, expected {float(limited)} (style {s})")
                for side in ("top", "bottom"):
                    b = ref.border_width(s.get(f"border_{side}_width", 0), display, cw)
                    p = ref.length(s.get(f"padding_{side}", 0), display, cw)
                    require(getattr(box, f"border_{side}_width") == b, f"{side} border is {getattr(box, f'border_{side}_width')!r}, expected {float(b)}")
                    require(getattr(box, f"padding_{side}") == p, f"{side} padding is {getattr(box, f'padding_{side}')!r}, expected {float(p)}")
        for d, n in ref.shown(doc, node):
            if "i" not in d:
                stack.append((d, n, F(box.content_width), explicit))
    return nontrivial


LAWS = [
    Law("height", check, gen.layout_case(gen.block_doc(gen.Opts())), quick=30000),
    Law("height-dense", check, gen.layout_case(gen.block_doc(gen.Opts(focus="vertical", size=8))), quick=50000),
]


def _height(parent, child):
    display = {"dpi": 96, "w": 640, "h": 480}
    leaf = {"s": {"display": "block", "height": "30px"}, "c": []}
    doc = {"s": {"display": "block"}, "c": [{"s": dict(parent, display="block"), "c": [{"s": dict(child, display="block"), "c": [leaf]}]}]}
    root = D.build(doc)
    D.run_layout(D.Display(display), root)
    return root.children[0].children[0].layout.content_height


def finding(parent, child, quirk, right):
    def fn():
        h = _height(parent, child)
        if h == quirk:
            return "known"
        require(h == right, f"content height is {h}, expected {right}")
        return "ok"

    return fn


FINDINGS = [
    Finding("percent-max-height", "height: 80px; max-height: 50% in a parent with height: 100px",
            finding({"height": "100px"}, {"height": "80px", "max_height": "50%"}, 0, 50)),
    Finding("percent-height-auto-parent", "height: 50% with automatic-height parent, and 30px of content",
            finding({}, {"height": "50%"}, 0, 30)),
    Finding("percent-min-height", "min-height: 60% in a parent with height: 100px, and 30px of content",
            finding({"height": "100px"}, {"min_height": "60%"}, 30, 60)),
]
