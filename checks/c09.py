import copy

from vlib import doc as D
from vlib import gen
from vlib.base import Law, require

RULE = ("Random documents in which random nodes (first, last, only, all children; nested; inline; sometimes the root) are hidden; the hidden subtrees may use anything, including features the engine does not implement. "
        "Laid out and compared box by box with the same document without the hidden nodes; also hidden after a first layout, and shown again. Non-trivial: a hidden node with a displayed sibling.")
ASSUMPTIONS = ["children of one node, other than hidden ones, are all block-level or all inline"]


def hidden(d):
    return d["s"].get("display") == "none"


def prune(doc):
    return dict(doc, c=[prune(c) for c in doc["c"] if not hidden(c)])


def compare(doc, node, pruned, note, path="root"):
    "node: with hidden nodes; pruned: without"
    a, b = D.snap(node), D.snap(pruned)
    require(a is not None and b is not None, f"{path}: a displayed node has no box")
    if a != b:
        p = next(p for p in D.BOX_PROPS if a[p] != b[p])
        require(False, f"{path}: {p} is {a[p]!r}, but {b[p]!r} without the hidden nodes")
    rest = list(pruned.children)
    found = False
    shown = [c for c in doc["c"] if not hidden(c)]
    for i, (c, n) in enumerate(zip(doc["c"], node.children)):
        if hidden(c):
            for x in D.walk(n):
                require(x.layout is None, f"{path}/{i}: a node that is not displayed has a layout box")
            if shown:
                found = True
                if i == 0:
                    note("first hidden")
                if i == len(doc["c"]) - 1:
                    note("last hidden")
            else:
                note("all hidden")
        else:
            found |= compare(c, n, rest.pop(0), note, f"{path}/{i}")
    return found


def check(case, note):
    doc, display = case["doc"], case["display"]
    node = D.build(doc, case["top_down"])
    if case["before"]:
        # lay it out first with (some) hidden nodes displayed
        note("hidden after a layout")
        for n, d in zip(D.walk(node), D.walk_doc(doc)):
            if hidden(d) and d["s"].get("float") is None and d["s"].get("position") is None and "safe" in d:
                n.style.display = d["safe"]
        D.run_layout(D.Display(display), node, case["before"])
        for n, d in zip(D.walk(node), D.walk_doc(doc)):
            if hidden(d):
                n.style.display = "none"
    D.run_layout(D.Display(display), node, case["standard"])
    if hidden(doc):
        for x in D.walk(node):
            require(x.layout is None, "a node of a document whose root is not displayed has a layout box")
        note("root hidden")
        return True
    pruned = D.build(prune(doc), case["top_down"])
    D.run_layout(D.Display(display), pruned, case["standard"])
    return compare(doc, node, pruned, note)


def hide_show(case, note):
    "Hiding nodes and showing them again restores the original layout"
    doc, display = case["doc"], case["display"]
    node = D.build(doc, case["top_down"])
    D.run_layout(D.Display(display), node, case["standard"])
    want = D.snap_tree(node)
    nodes = list(D.walk(node))
    original = [n.style.display for n in nodes]
    changed = False
    for step in case["steps"]:
        picked = sorted({k % len(nodes) for k in step})
        for k in picked:
            nodes[k].style.display = "none"
        D.run_layout(D.Display(display), node, case["standard"])
        for k in picked:
            for x in D.walk(nodes[k]):
                require(x.layout is None, f"node {k} (preorder) was hidden, and has a layout box")
        if 0 not in picked:
            changed = True
        else:
            note("root hidden")
        for k in picked:
            nodes[k].style.display = original[k]
        D.run_layout(D.Display(display), node, case["standard"])
        delta = D.diff_snap(D.snap_tree(node), want)
        require(delta is None, f"hiding and showing nodes {picked} did not restore the layout: {delta}")
    return changed


def docs(r):
    doc = gen.odd(r, gen.free_doc(r, gen.Opts(percent=True, units=True, size=12, depth=5)))
    for d in D.walk_doc(doc):
        d["safe"] = d["s"]["display"]
    return gen.hide(r, doc, r.choice([0.1, 0.25, 0.5]), 0.02)


def cases(r):
    case = gen.layout_case(docs)(r)

    def strip(d, weird):
        "what is not safe to display stays hidden"
        weird = weird or d["s"].get("float") or d["s"].get("position") in ("absolute", "fixed") or any(
            isinstance(v, str) and v.endswith(("em", "ex", "inherit")) for v in d["s"].values()) or (d["s"]["display"] not in ("none", d["safe"]))
        for c in d["c"]:
            weird = strip(c, False) or weird
        if weird:
            d.pop("safe", None)
        return weird

    strip(case["doc"], False)
    case["before"] = r.weighted((2, None), (1, "html5"), (1, "html4"))
    return case


def restore_cases(r):
    case = gen.layout_case(lambda r: gen.free_doc(r, gen.Opts(percent=True, units=True, size=9, depth=4)))(r)
    case["steps"] = [[r.below(24) for _ in r.many(1, 4, 0.5)] for _ in r.many(1, 3, 0.4)]
    return case


LAWS = [
    Law("pruned", check, cases, quick=30000),
    Law("hide-show", hide_show, restore_cases, quick=16000),
]
