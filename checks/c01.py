from fractions import Fraction as F

from vlib import doc as D
from vlib import gen, ref
from vlib.base import Finding, Law, require

RULE = ("Random trees of block-level boxes (px, fractional px, percentages, auto, negative horizontal margins, min/max width, both directions, any display width; a third also with relatively positioned boxes and negative vertical margins), laid out once; "
        "every box is solved independently against the actual width of its parent's content. Non-trivial: at least one box below the root has a declared horizontal property, and the tree has two or more boxes.")
ASSUMPTIONS = [
    "min-width/max-width are only generated with an explicit width (see the known finding about automatic widths)",
    "'direction' is not inherited: each box uses its own value",
    "lengths are below 10^4 px, so that sums of multiples of 1/64 px are exact",
]

H = ("margin_left", "margin_right", "padding_left", "padding_right", "border_left_width", "border_right_width", "width", "min_width", "max_width")


def check(case, note):
    root = D.build(case["doc"], case["top_down"])
    D.run_layout(D.Display(case["display"]), root, case["standard"])
    display = case["display"]
    nontrivial = False
    stack = [(case["doc"], root, F(display["w"]), 0, 0)]
    while stack:
        doc, node, cw, left, depth = stack.pop()
        box = node.layout
        require(box is not None, "a displayed block has no layout box")
        if "i" in doc:
            # an inline box; there may be blocks in it
            for d, n in ref.shown(doc, node):
                note("in an inline box")
                stack.append((d, n, F(box.content_width), box.absolute_content_left, depth + 1))
            continue
        want = ref.solve_width(doc, display, cw)
        where = f"depth {depth}, containing width {float(cw)}"
        for name, got, exp in (
            ("left border", box.border_left_width, want["bleft"]), ("right border", box.border_right_width, want["bright"]),
            ("left padding", box.padding_left, want["pleft"]), ("right padding", box.padding_right, want["pright"]),
            ("content width", box.content_width, want["w"]),
        ):
            require(got == exp, f"{where}: {name} is {got!r}, expected {ref.show(exp)}")
        total = F(box.margin_left) + F(box.margin_right) + F(box.border_box_width)
        if want["both"]:
            note("centered")
            require(box.margin_left == box.margin_right, f"{where}: automatic margins differ: {box.margin_left} {box.margin_right}")
            require(0 <= cw - total < 2, f"{where}: centered box leaves {float(cw - total)} px")
        else:
            require(box.margin_left == want["ml"], f"{where}: left margin is {box.margin_left!r}, expected {ref.show(want['ml'])}")
            require(box.margin_right == want["mr"], f"{where}: right margin is {box.margin_right!r}, expected {ref.show(want['mr'])}")
            require(total == cw, f"{where}: total width is {float(total)}")
        if doc["s"].get("position") == "relative":
            # where it is then is decided by C08
            note("relative")
        else:
            require(F(box.border_box_left) == F(box.margin_left), f"{where}: border box starts at {box.border_box_left}, left margin is {box.margin_left}")
        require(doc["s"].get("position") == "relative" or box.absolute_content_left == left + box.margin_left + box.border_left_width + box.padding_left,
                f"{where}: absolute left of the content is {box.absolute_content_left}")
        s = doc["s"]
        if depth and any(p in s for p in H):
            nontrivial = True
        if s.get("width", "auto") != "auto":
            note("explicit width")
            if want["w"] + want["bleft"] + want["bright"] + want["pleft"] + want["pright"] > cw:
                note("too wide")
            if s.get("direction") == "rtl":
                note("rtl explicit")
        if depth >= 4:
            note("deep")
        for d, n in ref.shown(doc, node):
            stack.append((d, n, F(box.content_width), box.absolute_content_left, depth + 1))
    return nontrivial


def shifted(docs):
    "Relatively positioned boxes and negative vertical margins don't matter for the horizontal values"

    def gen_doc(r):
        doc = docs(r)
        if r.maybe(0.3):
            for d in D.walk_doc(doc):
                if "i" in d:
                    continue
                if r.maybe(0.4):
                    d["s"]["position"] = "relative"
                if r.maybe(0.5):
                    gen.offsets(r, d["s"])
                if r.maybe(0.2):
                    d["s"]["margin_" + r.choice(["top", "bottom"])] = r.one(gen.px(-30, -1))
        return gen.odd(r, doc)

    return gen_doc


LAWS = [
    Law("fit", check, gen.layout_case(shifted(gen.block_doc(gen.Opts()))), quick=30000),
    Law("fit-dense", check, gen.layout_case(shifted(gen.block_doc(gen.Opts(focus="horizontal", size=6)))), quick=50000),
]


def auto_limits():
    "width: auto with max-width: the box should be limited to 100px"
    display = {"dpi": 96, "w": 640, "h": 480}
    doc = {"s": {"display": "block"}, "c": [{"s": {"display": "block", "max_width": "100px", "height": "10px"}, "c": []}]}
    root = D.build(doc)
    D.run_layout(D.Display(display), root)
    w = root.children[0].layout.content_width
    if w == 640:
        return "known"
    require(w == 100, f"content width is {w}")
    return "ok"


FINDINGS = [Finding("auto-width-max", "div with max-width: 100px and automatic width in a 640px block", auto_limits)]
