import copy
import math

from vlib import doc as D
from vlib import gen
from vlib.base import Finding, Law, Violation, require

RULE = ("(a) Random documents with every display, standard and unit (also font-relative ones, negative and tiny amounts of any property, any combination of limits, offsets, relative positions, hidden nodes, inline and replaced content): layout completes, every displayed node has a box of finite numbers, every other one none. "
        "(b) The same documents with one or two displayed boxes, anywhere, that need something that is not implemented (floating, absolutely or fixed positioned, replaced blocks, inline blocks; table parts, flex and grid boxes where nothing around them is block-level): layout raises NotImplementedError (for the latter, any exception). "
        "Non-trivial: (a) several boxes, (b) the box is not the root.")
ASSUMPTIONS = [
    "children of one node are all block-level or all not; a non-replaced inline box has an intrinsic size",
    "offsets of relatively positioned boxes are not 'inherit' (known finding)",
]

UNITS = ["px", "pt", "pc", "in", "cm", "mm", "em", "ex", "ch", "vw", "vh", "vmin", "vmax", "%"]
SIGNED = ["left", "right", "top", "bottom"] + [f"margin_{s}" for s in gen.SIDES]
POSITIVE = ["width", "height", "min_width", "max_width", "min_height", "max_height"] + [f"padding_{s}" for s in gen.SIDES] + [f"border_{s}_width" for s in gen.SIDES]


def wild(r):
    "Documents with anything that can be laid out"
    doc = gen.odd(r, gen.free_doc(r, gen.Opts(percent=True, units=True, size=10, depth=5)))
    p = r.choice([0, 0.05, 0.2])
    if p:
        for d in D.walk_doc(doc):
            for name in SIGNED + POSITIVE:
                if r.maybe(p):
                    units = UNITS[:-1] if name.startswith("border") else UNITS
                    n = r.choice([0, 1, 10, 33.5, 500, 0.01, -7, -1000] if name in SIGNED else [0, 1, 10, 33.5, 500, 0.01])
                    if r.maybe(0.03):
                        n = r.choice([100000, 1e7, 1e10, 1e13, 1e20, 1e-9]) * (-1 if name in SIGNED and r.maybe(0.5) else 1)
                    d["s"][name] = f"{n}{r.choice(units)}"
            if r.maybe(p):
                d["s"][r.choice(["min_width", "min_height", "width", "height", "left", "top", "margin_left", "margin_bottom"])] = "auto"
            if r.maybe(p):
                d["s"][r.choice(["max_width", "max_height"])] = "none"
    return gen.hide(r, doc, r.choice([0, 0, 0.1]), 0.01)


def shown(node, hidden=False):
    hidden = hidden or node.style.display is None
    yield node, hidden
    for c in node.children:
        yield from shown(c, hidden)


def complete(case, note):
    node = D.build(case["doc"], case["top_down"])
    try:
        D.run_layout(D.Display(case["display"]), node, case["standard"])
    except Exception as e:
        raise Violation(f"layout raised {type(e).__name__}: {e}")
    boxes = 0
    for i, (n, hidden) in enumerate(shown(node)):
        snap = D.snap(n)
        require((snap is None) == hidden, f"node {i} (preorder) has {'a' if snap else 'no'} box, but is {'not ' if hidden else ''}displayed")
        if snap is None:
            note("hidden")
            continue
        boxes += 1
        for p, v in snap.items():
            require(isinstance(v, (int, float)) and not isinstance(v, bool) and math.isfinite(v), f"node {i} (preorder): {p} is {v!r}")
        if n.intrinsic.is_replaced:
            note("replaced")
    return boxes > 1


# what is not implemented, and whether it has to be the NotImplementedError
KINDS = [
    ("float", {"float": "left"}, True), ("float", {"float": "right"}, True), ("absolute", {"position": "absolute"}, True), ("fixed", {"position": "fixed"}, True),
    ("replaced", None, True), ("inline-block", {"display": "inline-block"}, True),
    ("other", {"display": "inline-table"}, False), ("other", {"display": "table-cell"}, False), ("other", {"display": "table-row"}, False),
    ("other", {"display": "table-caption"}, False), ("other", {"display": "flex"}, False), ("other", {"display": "grid"}, False),
]


def apply(doc, feature):
    """Make the n-th of the displayed boxes that can have the feature need it. Returns its depth, or None if there is none."""
    name, style, _ = KINDS[feature["kind"]]
    found = []

    def visit(d, parent, depth):
        if d["s"]["display"] == "none":
            return
        inline = "i" in d and "block" not in d
        alone = parent is None or all(c is d or c["s"]["display"] == "none" for c in parent["c"])
        if name in ("float", "absolute", "fixed") or (name == "replaced" and not inline) or (name in ("inline-block", "other") and (inline or alone)):
            found.append((d, depth))
        for c in d["c"]:
            visit(c, d, depth + 1)

    visit(doc, None, 0)
    if not found:
        return None
    d, depth = found[feature["at"] % len(found)]
    if style is None:
        d.setdefault("i", {})["is_replaced"] = True
        d["block"] = True
    else:
        d["s"].update(style)
    for k, v in feature["with"]:
        d["s"].setdefault(k, v)
    return depth


def refused(case, note):
    doc = copy.deepcopy(case["doc"])
    depths = []
    named = True
    for f in case["features"]:
        depth = apply(doc, f)
        if depth is not None:
            depths.append(depth)
            named = named and KINDS[f["kind"]][2]
            note(KINDS[f["kind"]][0])
    if not depths:
        return False
    node = D.build(doc, case["top_down"])
    if case["clean"]:
        for n in D.walk(node):
            if n.layout is not None:
                n.layout.dirty = False
    what = [dict(KINDS[f["kind"]][1] or {"replaced block": True}) for f in case["features"]]
    try:
        D.run_layout(D.Display(case["display"]), node, case["standard"])
    except NotImplementedError:
        return max(depths) > 0
    except Exception as e:
        require(not named, f"layout of {what} raised {type(e).__name__}: {e}, not NotImplementedError")
        return max(depths) > 0
    raise Violation(f"a document with {what}, which is not implemented, was laid out")


def complete_cases(r):
    return gen.layout_case(wild)(r)


def refused_cases(r):
    case = gen.layout_case(wild)(r)
    case["features"] = [{
        "kind": r.below(len(KINDS)), "at": r.below(30),
        "with": [r.choice([("left", "5px"), ("top", "0px"), ("width", "10px"), ("height", "10px"), ("right", "0px"), ("clear", "both"), ("z_index", 1), ("width", "auto")]) for _ in r.many(0, 2, 0.4)],
    } for _ in r.many(1, 2, 0.1)]
    case["clean"] = r.maybe(0.3)
    return case


LAWS = [
    Law("complete", complete, complete_cases, quick=25000),
    Law("refused", refused, refused_cases, quick=30000),
]


def inherit():
    node = D.build({"s": {"display": "block", "position": "relative", "left": "inherit"}, "c": []})
    try:
        D.run_layout(D.Display({"dpi": 96, "w": 640, "h": 480}), node)
    except AttributeError:
        return "known"
    require(node.layout.content_left == 0, "left: inherit of the root box gives the offset %r", node.layout.content_left)
    return "ok"


FINDINGS = [Finding("relative-inherit", "a root box with position: relative; left: inherit", inherit)]
