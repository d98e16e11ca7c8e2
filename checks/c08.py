import copy
from fractions import Fraction as F

from vlib import doc as D
from vlib import gen, ref
from vlib.base import Finding, Law, require

RULE = ("Random block documents (with some inline content) in which random boxes are relatively positioned by offsets in any absolute or viewport unit, fractions, of both signs, and horizontal percentages; laid out as they are, and with all boxes static. "
        "Every box must have the same size, margins, borders and paddings, and be moved by exactly the sum of its own and its ancestors' offsets. Offsets of static boxes must have no effect. Non-trivial: a box with a non-zero offset that has a sibling, parent or child.")
ASSUMPTIONS = [
    "a relative box has no top border or padding, and no vertical offset if it is the last displayed child of a parent with automatic height (known findings)",
    "top and bottom are not percentages (known finding); left wins over right in both directions, as the statement says (CSS 2.1 lets right win in a right-to-left containing block)",
    "a relative box, and its parent, have no percentage min/max-height",
]
OFFSETS = ("left", "right", "top", "bottom")


def static(doc, strip):
    s = {k: v for k, v in doc["s"].items() if k != "position" and not (strip and k in OFFSETS)}
    return dict(doc, s=s, c=[static(c, strip) for c in doc["c"]])


def offset(s, display, cw):
    def one(a, b):
        if s.get(a, "auto") != "auto":
            return ref.length(s[a], display, cw)
        if s.get(b, "auto") != "auto":
            return -ref.length(s[b], display, cw)
        return F(0)

    return one("left", "right"), one("top", "bottom")


POSITIONS = {p for p in D.BOX_PROPS if p.rsplit("_", 1)[1] in ("top", "right", "bottom", "left") and not p.startswith(("margin", "collapse", "padding_top", "padding_right", "padding_bottom", "padding_left"))}


def check(case, note):
    display = case["display"]
    doc = case["doc"]
    plain = D.build(static(doc, True), case["top_down"])
    D.run_layout(D.Display(display), plain, case["standard"])
    kept = D.build(static(doc, False), case["top_down"])
    D.run_layout(D.Display(display), kept, case["standard"])
    delta = D.diff_snap(D.snap_tree(kept), D.snap_tree(plain))
    require(delta is None, f"offsets of static boxes have an effect: {delta}")
    moved = D.build(doc, case["top_down"])
    D.run_layout(D.Display(display), moved, case["standard"])

    nontrivial = False
    stack = [(doc, moved, plain, F(display["w"]), (F(0), F(0)), "root")]
    while stack:
        d, m, p, cw, (ox, oy), path = stack.pop()
        a, b = D.snap(m), D.snap(p)
        require((a is None) == (b is None), f"{path}: relative positioning decides whether there is a box")
        if a is None:
            continue
        dx = dy = F(0)
        if d["s"].get("position") == "relative":
            dx, dy = offset(d["s"], display, cw)
            if dx or dy:
                nontrivial |= bool(d["c"]) or path != "root"
                note("nested" if ox or oy else "moved")
        for name in D.BOX_PROPS:
            want = F(b[name])
            if name in POSITIONS:
                horizontal = name.endswith(("left", "right"))
                total = dx if horizontal else dy
                if name.startswith("absolute"):
                    total += ox if horizontal else oy
                want += total
            if a[name] != want:
                require(False, f"{path}: {name} is {a[name]!r}, expected {float(want)!r} (static: {b[name]!r})")
        for i, c in enumerate(d["c"]):
            stack.append((c, m.children[i], p.children[i], F(b["content_width"]), (ox + dx, oy + dy), f"{path}/{i}"))
    return nontrivial


def docs(r):
    doc = gen.tree(r, gen.Opts(percent=True, units=False, size=12))
    p = r.choice([0.2, 0.5, 0.8])

    def visit(d):
        if not d["c"] and r.maybe(0.15):
            d["c"] = [gen.inline_node(r, 0)]
            d["s"]["height"] = r.one(gen.px(10, 60))
            for side in OFFSETS:
                d["c"][0]["s"].pop(side, None)
        for c in d["c"]:
            visit(c)
        if r.maybe(0.15):
            gen.offsets(r, d["s"])
        if r.maybe(p):
            s = d["s"]
            s["position"] = "relative"
            for name in ("border_top_width", "padding_top") + (("margin_top",) if "i" in d else ()):
                s.pop(name, None)
            gen.offsets(r, s)

    visit(doc)
    if r.maybe(0.2):
        gen.hide(r, doc, 0.1, 0)
    doc = sane(doc)

    def fix(d):
        shown = [c for c in d["c"] if c["s"].get("display") != "none"]
        if shown and d["s"].get("height", "auto") == "auto":
            shown[-1]["s"].pop("top", None)
            shown[-1]["s"].pop("bottom", None)
        for c in d["c"]:
            fix(c)

    fix(doc)
    return doc


def sane(doc):
    "Only the percentages matter here"
    s = dict(doc["s"])
    for name in ("min_height", "max_height", "height"):
        if ref.is_percent(s.get(name)):
            s[name] = "40px"
    return dict(doc, s=s, c=[sane(c) for c in doc["c"]])


LAWS = [Law("shift", check, gen.layout_case(docs), quick=30000)]


# ---------------------------------------------------------------- known findings
def box(style, parent=None, sibling=True):
    doc = {"s": {"display": "block"}, "c": [
        {"s": dict(parent or {}, display="block"), "c": [{"s": dict(style, display="block", height="20px", position="relative"), "c": []}]},
        {"s": {"display": "block", "height": "10px"}, "c": []}]}
    root = D.build(doc)
    D.run_layout(D.Display({"dpi": 96, "w": 640, "h": 480}), root)
    return root.children[0].children[0].layout, root.children[1].layout


def twice():
    b, _ = box({"border_top_width": "10px"}, {"height": "50px"})
    if b.absolute_border_box_top == 10:
        return "known"
    require(b.absolute_border_box_top == 0, f"the border box of a relative box without offset starts at {b.absolute_border_box_top}, expected 0")
    return "ok"


def leak():
    _, after = box({"top": "7px"})
    if after.absolute_border_box_top == 27:
        return "known"
    require(after.absolute_border_box_top == 20, f"the box after the parent of a relative box starts at {after.absolute_border_box_top}, expected 20")
    return "ok"


def percent():
    b, _ = box({"top": "50%"}, {"height": "50px"})
    if b.absolute_border_box_top == 0:
        return "known"
    require(b.absolute_border_box_top == 25, f"a box with top: 50% in 50px starts at {b.absolute_border_box_top}, expected 25")
    return "ok"


FINDINGS = [
    Finding("relative-top-border", "position: relative; border-top-width: 10px without offset", twice),
    Finding("relative-last-child", "the last child of an automatic-height block has position: relative; top: 7px", leak),
    Finding("relative-percent-top", "position: relative; top: 50% in a parent with height: 50px", percent),
]
