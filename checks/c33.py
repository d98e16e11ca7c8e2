import copy

from vlib import doc as D
from vlib import gen
from vlib.base import Law, require

RULE = ("Random documents with everything the engine can lay out (relative positions, inline content, percentages, all units, limits, hidden boxes, both directions and HTML standards). A run of siblings, picked at random, is moved into one to three nested plain blocks in the same place. "
        "Every box of the document must have the same absolute position, size and edges as before, and the plain blocks must be as wide as what they are in. Non-trivial: the run is two or more boxes, or has margins or descendants.")
ASSUMPTIONS = [
    "the boxes of the run and their siblings are not relatively positioned and have no percentages in vertical directions; the run has at least one visible box (a plain block without content is a box of its own), and its parent is a block",
]
SAME = ["content_width", "content_height", "border_box_width", "border_box_height", "absolute_content_top", "absolute_content_right", "absolute_content_bottom", "absolute_content_left",
        "absolute_border_box_top", "absolute_border_box_right", "absolute_border_box_bottom", "absolute_border_box_left", "absolute_padding_box_top", "absolute_padding_box_left"]
SAME += [f"{p}_{s}" for p in ("margin", "padding") for s in gen.SIDES] + [f"border_{s}_width" for s in gen.SIDES]


def wrap(case):
    doc = copy.deepcopy(case["doc"])
    parent = doc
    for k in case["path"]:
        parent = parent["c"][k]
    a, b = case["run"]
    run = parent["c"][a:b]
    for d in run:
        d["run"] = True
    w = run
    for _ in range(case["n"]):
        w = [{"s": {"display": "block", "direction": parent["s"].get("direction", "ltr")}, "c": w, "wrapper": True}]
    parent["c"][a:b] = w
    return doc


def laid_out(case, doc):
    root = D.build(doc, case["top_down"])
    D.run_layout(D.Display(case["display"]), root, case["standard"])
    return root


def check(case, note):
    plain, wrapped = case["doc"], wrap(case)
    one, two = laid_out(case, plain), laid_out(case, wrapped)
    inner = [(d, n) for d, n in zip(D.walk_doc(wrapped), D.walk(two))]
    rest = [(d, n) for d, n in inner if "wrapper" not in d]
    nontrivial, shown = False, 0
    for i, (a, (d, b)) in enumerate(zip(D.walk(one), rest)):
        a, b = a.layout, b.layout
        require((a is None) == (b is None), f"node {i} has a box in one of the layouts only")
        if a is None:
            continue
        for p in SAME:
            require(getattr(a, p) == getattr(b, p), f"node {i} (in document order): {p} is {getattr(a, p)}, and {getattr(b, p)} with a plain block around {'it' if 'run' in d else 'other boxes'}")
        if "run" in d:
            shown += 1
            nontrivial |= bool(d["c"]) or shown > 1 or any(getattr(a, f"margin_{s}") for s in gen.SIDES)
    for d, n in inner:
        if "wrapper" in d and n.layout is not None:
            box, outer = n.layout, n.parent.layout
            for p in ("absolute_content_left", "absolute_content_right", "content_width"):
                require(getattr(box, p) == getattr(outer, p), f"{p} of the plain block is {getattr(box, p)}, but {getattr(outer, p)} for its parent")
            for p in [f"{p}_{s}" for p in ("margin", "padding") for s in gen.SIDES] + [f"border_{s}_width" for s in gen.SIDES]:
                require(getattr(box, p) == 0, f"{p} of the plain block is {getattr(box, p)}")
    return nontrivial


def paths(doc, at=()):
    if doc["c"] and doc["s"].get("display") == "block" and "i" not in doc["c"][0]:
        yield list(at)
    for k, c in enumerate(doc["c"]):
        yield from paths(c, at + (k,))


def case(r):
    doc = gen.free_doc(r)
    if r.maybe(0.3):
        doc = gen.hide(r, doc, 0.15, anything=False)
    p = list(paths(doc))
    if not p:
        doc = {"s": {"display": "block"}, "c": [doc]}
        p = [[]]
    path = r.choice(p)
    parent = doc
    for k in path:
        parent = parent["c"][k]
    n = len(parent["c"])
    for c in parent["c"]:
        c["s"].pop("position", None)
        for name in ("height", "min_height", "max_height", "top", "bottom"):
            if str(c["s"].get(name)).endswith("%"):
                c["s"][name] = c["s"][name][:-1] + "px"
    a = r.int(0, n - 1)
    b = r.int(a + 1, n)
    if all(c["s"]["display"] == "none" for c in parent["c"][a:b]):
        parent["c"][a]["s"]["display"] = "block"
    return {"doc": copy.deepcopy(doc), "path": path, "run": [a, b], "n": r.choice([1, 1, 1, 2, 3]), "display": gen.display(r), "standard": r.choice(["html5", "html4"]), "top_down": r.maybe(0.5)}


LAWS = [Law("wrapper", check, case, quick=20000)]
