from vlib import css as C
from vlib import doc as D
from vlib import gen
from vlib import values as V
from vlib.base import Law, require

RULE = ("Random documents with everything the engine can lay out (relative positions, inline content, percentages, all units, limits, hidden boxes, both directions and HTML standards). Random nodes get random values of properties that only decorate a box, in random notations and through all interfaces: "
        "after a layout, before the first one, and removed again. All numbers of all boxes must be those of the plain document each time. Non-trivial: a displayed node was decorated.")
ASSUMPTIONS = [
    "overflow is not judged (CSS lets it change which margins collapse), nor border styles changing from or to none (CSS lets that remove the border), table properties in documents with tables, and text-align and text-indent of boxes around inline content",
]
ALWAYS = ["background_color", "clear", "clip", "color", "cursor", "letter_spacing", "orphans", "outline_color", "outline_style", "outline_width", "page_break_after", "page_break_before", "page_break_inside",
          "quotes", "text_decoration", "text_transform", "unicode_bidi", "visibility", "white_space", "widows", "word_spacing", "z_index"] + [f"border_{s}_color" for s in gen.SIDES]
TABLE = ["border_collapse", "border_spacing", "caption_side", "empty_cells", "table_layout"]
TEXT = ["text_align", "text_indent"]
OFFSETS = ["top", "right", "bottom", "left"]
STYLES = ["dotted", "dashed", "solid", "double", "groove", "ridge", "inset", "outset"]


def laid_out(case, root, expected, what):
    D.run_layout(D.Display(case["display"]), root, case["standard"])
    found = D.snap_tree(root)
    problem = expected and D.diff_snap(found, expected)
    require(not problem, f"{problem}, {what}")
    return found


def check(case, note):
    plain, decorated = (D.build(case["doc"], case["top_down"]) for _ in range(2))
    expected = laid_out(case, plain, None, "")
    shown = False
    for root, before in ((plain, False), (decorated, True)):
        nodes = list(D.walk(root))
        for i, name, spec, via in case["decor"]:
            C.assign(nodes[i].style, name, V.realize(spec), via)
            shown |= expected[i] is not None
            note(name)
        texts = ", ".join(f"{name} {spec} on node {i}" for i, name, spec, _ in case["decor"])
        laid_out(case, root, expected, f"{'in the first' if before else 'after another'} layout, with {texts}")
    for k, (i, name, spec, via) in enumerate(case["decor"]):
        if k % 2 and not name.endswith("_style"):
            C.delete(nodes[i].style, name, via)
    laid_out(case, decorated, expected, f"after {texts}, and every other of these removed")
    return shown


def case(r):
    doc = gen.odd(r, gen.free_doc(r))
    if r.maybe(0.3):
        doc = gen.hide(r, doc, 0.15, anything=False)
    docs = list(D.walk_doc(doc))
    tables = any(d["s"].get("display", "").startswith("table") for d in docs)
    inline = {id(d) for d in docs if any("i" in c for c in D.walk_doc(d))}
    styles = set()
    for d in docs:
        if "i" not in d and r.maybe(0.3):
            for s in gen.SIDES:
                d["s"][f"border_{s}_style"] = r.choice(STYLES)
                if r.maybe(0.4):
                    d["s"][f"border_{s}_width"] = r.weighted((3, lambda r: r.int(0, 6)), (1, lambda r: r.choice(["thin", "medium", "thick", "0.5px", 2.5, "1mm"])))
            styles.add(id(d))
    decor = {}
    for _ in r.many(1, 9, 0.75):
        i = r.below(len(docs))
        d = docs[i]
        names = [r.choice(ALWAYS)] * 2
        if not tables:
            names.append(r.choice(TABLE))
        if id(d) not in inline:
            names.append(r.choice(TEXT))
            if d["s"].get("position", "static") == "static":
                names.append(r.choice(OFFSETS))
        if id(d) in styles:
            names += [f"border_{r.choice(gen.SIDES)}_style"] * 3
        name = r.choice(names)
        spec = r.choice(STYLES) if name in V.LONGHANDS and name.startswith("border_") and name.endswith("_style") else V.g_value(r, name)[0]
        decor[i, name] = [i, name, spec, r.choice(C.VIAS)]
    return {"doc": doc, "decor": list(decor.values()), "display": gen.display(r), "standard": r.choice(["html5", "html4"]), "top_down": r.maybe(0.5)}


LAWS = [Law("decoration", check, case, quick=16000)]
