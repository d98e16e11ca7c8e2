from fractions import Fraction as F

from vlib import doc as D
from vlib import gen, ref
from vlib.base import Law, require

RULE = ("Random trees of block-level boxes with non-negative vertical margins, borders and paddings (px, fractions, percentages, auto, sometimes other units), some of them empty, hidden, or with inline content, laid out once; the gap above every box is compared with the collapsed margins "
        "computed from the document alone. Non-trivial: two displayed siblings with a non-zero margin between them, or a first/last child with a non-zero margin.")
ASSUMPTIONS = [
    "no negative vertical margins (collapsing them is not implemented in the repository)",
    "the own top and bottom margin of an empty box do not collapse with each other (CSS 2.1 says they do, the repository does not implement it): the statement is taken literally",
    "boxes of one parent are all block-level or all inline (mixing them is not implemented)",
    "an automatic height combined with min-height, a table with content, and a block with inline content are only generated where no margin can collapse through the bottom",
]


def margins(doc, display, cw):
    top, bottom = (doc["s"].get(f"margin_{s}", 0) for s in ("top", "bottom"))
    return tuple(F(0) if m == "auto" else ref.length(m, display, cw) for m in (top, bottom))


def side_margin(doc, node, display, cw, bottom):
    largest = margins(doc, display, cw)[bottom]
    side = "bottom" if bottom else "top"
    while True:
        shown, s = ref.shown(doc, node), doc["s"]
        if not shown or not (s.get("height", "auto") == "auto" if bottom else ref.stacks(doc)):
            return largest
        if ref.border_width(s.get(f"border_{side}_width", 0), display, cw) != 0 or ref.length(s.get(f"padding_{side}", 0), display, cw) != 0:
            return largest
        cw = F(node.layout.content_width)
        doc, node = shown[-1 if bottom else 0]
        largest = max(largest, margins(doc, display, cw)[bottom])


def collapsed(doc, node, display, cw):
    """(top, bottom) collapsed margins of a box, from the styles and the actual widths only."""
    return tuple(side_margin(doc, node, display, cw, bottom) for bottom in (0, 1))


def check(case, note):
    display = case["display"]
    root = D.build(case["doc"], case["top_down"])
    D.run_layout(D.Display(display), root, case["standard"])
    nontrivial = False
    stack = [(case["doc"], root, F(display["w"]), 0)]
    while stack:
        doc, node, cw, depth = stack.pop()
        box = node.layout
        s = doc["s"]
        width = F(box.content_width)
        previous = None
        for i, (d, n) in enumerate(ref.shown(doc, node)):
            b = n.layout
            require(b is not None, "a displayed block has no layout box")
            if not ref.stacks(doc):
                if "i" not in d:
                    stack.append((d, n, width, depth + 1))
                continue
            top, bottom = collapsed(d, n, display, width)
            start = F(b.absolute_border_box_top) - F(box.absolute_content_top)
            where = f"child {i} at depth {depth + 1}"
            if previous is None:
                sep = (ref.border_width(s.get("border_top_width", 0), display, cw) != 0
                       or ref.length(s.get("padding_top", 0), display, cw) != 0)
                want = top if sep else F(0)
                if top:
                    nontrivial = True
                    note("first child margin " + ("kept" if sep else "collapsed"))
                require(start == want, f"{where}: first box starts {float(start)} px below its parent's content, expected {float(want)}")
            else:
                pb, pbottom = previous
                gap = F(b.absolute_border_box_top) - F(pb.absolute_border_box_bottom)
                want = max(pbottom, top)
                require(gap == want, f"{where}: gap to the previous box is {float(gap)}, expected {float(want)}")
                if want:
                    nontrivial = True
                    note("sibling gap")
                    own = margins(d, display, width)[0]
                    if top > own:
                        note("gap from a descendant")
            require(b.collapse_top == top and b.collapse_bottom == bottom, f"{where}: collapsed margins are {b.collapse_top} {b.collapse_bottom}, expected {float(top)} {float(bottom)}")
            m = margins(d, display, width)
            require(b.margin_top == m[0] and b.margin_bottom == m[1], f"{where}: vertical margins are {b.margin_top} {b.margin_bottom}, expected {float(m[0])} {float(m[1])}")
            previous = (b, bottom)
            stack.append((d, n, width, depth + 1))
        if depth >= 3:
            note("deep")
    return nontrivial


LAWS = [
    Law("stack", check, gen.layout_case(gen.block_doc(gen.Opts())), quick=30000),
    Law("stack-dense", check, gen.layout_case(gen.block_doc(gen.Opts(focus="vertical", limits=False))), quick=50000),
]
