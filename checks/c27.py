import copy
from fractions import Fraction as F

from vlib import doc as D
from vlib import gen
from vlib.base import Law, require

RULE = ("Random documents with everything the engine can lay out (also negative margins, relative positions, inline content, percentage heights, hidden boxes, in both HTML standards) and a random displayed box in them. "
        "(a) Its siblings, and those of its ancestors, are replaced, removed or added. (b) Anything that follows it in the document is. (c) It is put, alone, into another document with a parent of the same width. (d) An inline box gets up to 13 inline siblings. "
        "The layout before and after is compared: (a), (c) the inside and the horizontal values of the box, (d) all sizes of the box and what is in it, (b) the absolute position of the box, everything in it and everything before it. Non-trivial: (a), (b) a box outside of it changed, (c) the box has children, (d) all cases.")
ASSUMPTIONS = [
    "a percentage height, min-height or max-height of the moved box itself depends on the height of its parent, and is not generated in (c)",
    "children of one node are all block-level or all inline; features the engine does not implement do not occur",
]
VERTICAL = ("content_top", "content_bottom", "padding_box_top", "padding_box_bottom", "border_box_top", "border_box_bottom")


def inside(node):
    "All numbers of a box and its descendants, but for where the box is in its parent vertically"
    out = [D.snap(n) for n in D.walk(node)]
    top, left = F(node.layout.absolute_content_top), F(node.layout.absolute_content_left)
    for s in out:
        if s is None:
            continue
        for p in s:
            if p.startswith("absolute"):
                s[p] = F(s[p]) - (top if p.endswith(("top", "bottom")) else left)
    for p in VERTICAL:
        out[0][p] = None
    return out


def targets(doc):
    "Paths of the displayed block-level boxes below the root"
    out = []

    def visit(d, path):
        for i, c in enumerate(d["c"]):
            if c["s"]["display"] != "none" and "i" not in c:
                out.append(path + [i])
                visit(c, path + [i])

    if doc["s"]["display"] != "none":
        visit(doc, [])
    return out


def pick(case, doc):
    paths = targets(doc)
    return paths[case["target"] % len(paths)] if paths else None


def at(node, path):
    for i in path:
        node = (node["c"] if isinstance(node, dict) else node.children)[i]
    return node


def laid_out(case, doc):
    root = D.build(doc, case["top_down"])
    D.run_layout(D.Display(case["display"]), root, case["standard"])
    return root


def edit(case, doc, path, before):
    """Replace siblings of a box and its ancestors (only following ones unless before). Returns the new path."""
    new = []
    edits = list(case["edits"])
    for depth, i in enumerate(path):
        parent = at(doc, new)
        kids = parent["c"]
        first, last = kids[:i], kids[i + 1:]

        def changed(group):
            out = []
            for k in group:
                e = edits.pop(0) if edits else None
                if e is None or e["op"] == "keep":
                    out.append(k)
                elif e["op"] == "replace":
                    out.append(copy.deepcopy(e["doc"]))
                elif e["op"] == "insert":
                    out += [copy.deepcopy(e["doc"]), k]
            e = edits.pop(0) if edits else None
            if e is not None and e["op"] in ("insert", "replace"):
                out.append(copy.deepcopy(e["doc"]))
            return out

        first = changed(first) if before else first
        parent["c"] = first + [kids[i]] + changed(last)
        new.append(len(first))
    return new


def outside(root, path):
    skip = set(map(id, D.walk(at(root, path))))
    return [D.snap(n) for n in D.walk(root) if id(n) not in skip]


def subtree(case, note):
    doc = case["doc"]
    path = pick(case, doc)
    if path is None:
        return False
    one = laid_out(case, doc)
    other = copy.deepcopy(doc)
    moved = edit(case, other, path, True)
    two = laid_out(case, other)
    delta = D.diff_snap(inside(at(two, moved)), inside(at(one, path)))
    require(delta is None, f"the box {path} changed with its surroundings: {delta}")
    note(f"depth {len(path)}")
    return outside(one, path) != outside(two, moved)


def before(root, path):
    "Absolute positions of the box, everything in it and before it; and of the content of its ancestors"
    out = []
    node = root
    for i in path:
        b = node.layout
        out.append({p: getattr(b, p) for p in ("content_width", "absolute_content_top", "absolute_content_left", "absolute_border_box_top", "absolute_border_box_left")})
        for k in node.children[:i]:
            out += [D.snap(n) for n in D.walk(k)]
        node = node.children[i]
    return out + [D.snap(n) for n in D.walk(node)]


def prefix(case, note):
    doc = case["doc"]
    path = pick(case, doc)
    if path is None:
        return False
    one = laid_out(case, doc)
    other = copy.deepcopy(doc)
    moved = edit(case, other, path, False)
    two = laid_out(case, other)
    for i, (a, b) in enumerate(zip(before(one, path), before(two, moved))):
        if a != b:
            names = [p for p in a or {} if b and a[p] != b[p]]
            require(False, f"content after the box {path} changed what is before it: {[(p, a[p], b[p]) for p in names[:3]]}")
    note(f"depth {len(path)}")
    return outside(one, path) != outside(two, moved)


def context(case, note):
    doc = copy.deepcopy(case["doc"])
    path = pick(case, doc)
    if path is None:
        return False
    target = at(doc, path)
    for p in ("height", "min_height", "max_height"):
        if str(target["s"].get(p, "")).endswith("%"):
            del target["s"][p]
    one = laid_out(case, doc)
    parent = at(one, path[:-1])
    box = {"s": {"display": "block", "width": f"{gen.fmt(parent.layout.content_width)}px", **case["parent"]}, "c": [target]}
    two = laid_out(case, {"s": {"display": "block", **case["root"]}, "c": [box]})
    delta = D.diff_snap(inside(at(two, [0, 0])), inside(at(one, path)))
    require(delta is None, f"the box {path} is different in another parent of the same width: {delta}")
    note(f"depth {len(path)}")
    return bool(target["c"])


SIZES = ["content_width", "content_height"] + [f"{p}_{s}" for p in ("margin", "padding") for s in gen.SIDES] + [f"border_{s}_width" for s in gen.SIDES]


def sizes(node):
    return [[getattr(n.layout, p) for p in SIZES] for n in D.walk(node)]


def inline(case, note):
    "The size of an inline box, and of what is in it, doesn't depend on the other ones"
    width = {"display": "block", **case["parent"]}
    alone = laid_out(case, {"s": {"display": "block"}, "c": [{"s": width, "c": [case["kids"][0]]}]})
    kids = list(case["kids"])
    kids.insert(case["target"] % len(kids), kids.pop(0))
    together = laid_out(case, {"s": {"display": "block"}, "c": [{"s": width, "c": kids}]})
    i = case["target"] % len(kids)
    a, b = sizes(alone.children[0].children[0]), sizes(together.children[0].children[i])
    for n, (x, y) in enumerate(zip(a, b)):
        for p, u, v in zip(SIZES, x, y):
            require(u == v, f"{p} of box {n} in an inline box is {u} with no siblings, and {v} as number {i} of {len(kids)}")
    note(f"{len(kids)} boxes")
    return len(kids) > 1


def inline_case(r):
    s = {}
    for p in ("width", "height", "padding_left", "margin_left", "padding_top"):
        if r.maybe(0.4):
            s[p] = r.one(gen.px(0, 300))
    return {"parent": s, "kids": [gen.inline_node(r, nested=2) for _ in r.many(2, 14, 0.7)], "display": gen.display(r), "standard": r.choice(["html5", "html4"]), "top_down": r.maybe(0.5), "target": r.below(16)}


def base(r):
    doc = gen.free_doc(r, gen.Opts(percent=True, units=True, size=10, depth=5))
    if r.maybe(0.3):
        gen.hide(r, doc, 0.15, 0, anything=False)
    return {"doc": doc, "display": gen.display(r), "standard": r.choice(["html5", "html4"]), "top_down": r.maybe(0.5), "target": r.below(16)}


def edits_case(r):
    case = base(r)
    case["edits"] = []
    for _ in r.many(1, 6, 0.7):
        op = r.choice(["keep", "replace", "insert", "remove"])
        e = {"op": op}
        if op in ("replace", "insert"):
            e["doc"] = gen.free_doc(r, gen.Opts(percent=True, units=True, size=3, depth=2))
            if r.maybe(0.1):
                e["doc"]["s"]["display"] = "none"
        case["edits"].append(e)
    return case


def vertical_style(r):
    s = {}
    for side in ("top", "bottom"):
        for p in (f"margin_{side}", f"padding_{side}", f"border_{side}_width"):
            if r.maybe(0.3):
                s[p] = r.one(gen.px(0, 40))
    if r.maybe(0.3):
        s["height"] = r.one(gen.px(0, 200))
    return s


def context_case(r):
    case = base(r)
    case["parent"] = vertical_style(r)
    case["root"] = vertical_style(r)
    return case


LAWS = [
    Law("subtree", subtree, edits_case, quick=15000),
    Law("prefix", prefix, edits_case, quick=15000),
    Law("context", context, context_case, quick=15000),
    Law("inline", inline, inline_case, quick=6000),
]
