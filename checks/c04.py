from fractions import Fraction as F

from vlib import doc as D
from vlib import gen, ref
from vlib.base import Law, require
from checks.c02 import collapsed

RULE = ("Random block documents and displays, laid out in HTML4 and in HTML5 mode. The root box is compared with the display, and all other boxes between the modes. Non-trivial: the root has a non-zero margin (own or collapsed) and a child.")
ASSUMPTIONS = [
    "the HTML5 height of a root box is only judged without vertical border or padding on the root",
    "no negative vertical margins",
]


def check(case, note):
    display = case["display"]
    doc = case["doc"]
    roots = {}
    for standard in ("html4", "html5"):
        root = D.build(doc, case["top_down"])
        D.run_layout(D.Display(display), root, standard)
        require(root.layout is not None, "the root has no layout box")
        roots[standard] = root
    h4, h5 = roots["html4"], roots["html5"]
    s = doc["s"]
    w, h = F(display["w"]), F(display["h"])
    want = ref.solve_width(doc, display, w)
    top, bottom = collapsed(doc, h5, display, w)
    for standard, root in roots.items():
        box = root.layout
        require(box.content_width == want["w"], f"{standard}: root content width is {box.content_width}, expected {float(want['w'])}")
        require(box.absolute_border_box_left == want["ml"], f"{standard}: root border box starts {box.absolute_border_box_left} px from the left, expected {float(want['ml'])}")
        require(box.absolute_border_box_top == top, f"{standard}: root border box starts {box.absolute_border_box_top} px below the top, expected {float(top)}")
    plain = not any(getattr(h5.layout, p) for p in ("border_top_width", "border_bottom_width", "padding_top", "padding_bottom"))
    if plain:
        exp = h - top - bottom
        require(h5.layout.content_height == exp, f"html5: root content height is {h5.layout.content_height}, expected {float(exp)}")
        note("html5 height")
    height = s.get("height", "auto")
    if height != "auto":
        exp = ref.length(height, display, h)
    elif ref.shown(doc, h4):
        last_doc, last_node = ref.shown(doc, h4)[-1]
        last = last_node.layout
        exp = F(last.absolute_border_box_bottom) - F(h4.layout.absolute_content_top)
        if h4.layout.border_bottom_width or h4.layout.padding_bottom:
            exp += collapsed(last_doc, last_node, display, F(h4.layout.content_width))[1]
    else:
        exp = F(0)
    if s.get("max_height", "none") != "none":
        exp = min(exp, ref.length(s["max_height"], display, h))
    if s.get("min_height", "auto") != "auto":
        exp = max(exp, ref.length(s["min_height"], display, h))
    require(h4.layout.content_height == exp, f"html4: root content height is {h4.layout.content_height}, expected {float(exp)}")
    a, b = D.snap_tree(h4), D.snap_tree(h5)
    delta = D.diff_snap(a[1:], b[1:])
    require(delta is None, f"a box below the root depends on the HTML standard: {delta}")
    vertical = {p for p in D.BOX_PROPS if p.endswith(("_height", "_bottom")) and not p.startswith(("margin", "padding_bottom"))}
    for p in D.BOX_PROPS:
        if p not in vertical:
            require(a[0][p] == b[0][p], f"{p} of the root depends on the HTML standard: {a[0][p]} {b[0][p]}")
    if top > 0 and top > collapsed({"s": s, "c": []}, h5, display, w)[0]:
        note("root margin collapsed with a descendant's")
    return bool((top or bottom) and root.children)


def docs(r):
    doc = gen.tree(r, gen.Opts(units=r.maybe(0.2), hidden=0.1 if r.maybe(0.2) else 0))
    if doc["s"]["display"] == "none":
        doc["s"]["display"] = "block"
    if r.maybe(0.2):
        gen.paras(r, doc, 0.2)
    if r.maybe(0.7):
        # mostly without vertical border and padding, see ASSUMPTIONS
        for p in ("border_top_width", "border_bottom_width", "padding_top", "padding_bottom"):
            doc["s"].pop(p, None)
    if r.maybe(0.3):
        doc["s"]["height"] = r.one(gen.px(0, 2000), gen.pct(0, 150))
    return gen.sane(doc)


LAWS = [Law("root", check, gen.layout_case(docs), quick=30000)]
