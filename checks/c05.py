from vlib import doc as D
from vlib import gen
from vlib.base import Law, require

RULE = ("(a) Random histories of up to 40 operations (assigning content position, content size, paddings, border widths and margins of any box, resetting the whole tree, marking boxes dirty or clean) on random trees of up to 12 boxes, some of them without a layout box; after every operation "
        "every edge, margin and collapsed margin extent of every box is compared with a model recomputed from the assigned values. (b) Random documents laid out by the engine, with and without relative positions; the same relations between the edges of each box and its parent. "
        "Non-trivial: a box below the root whose parent's content is not at 0,0.")
ASSUMPTIONS = [
    "a box is only reset together with the root of its tree (as the layout engine does)",
    "the tree structure only changes within a history of (a) by new or moved children of a box that is moved next; C06 decides other histories with structural changes",
]
SIDES = D.SIDES


def edges(m, ox, oy):
    "All edge properties from the stored values of one box and the absolute position of the parent's content"
    e = {}
    w, h, x, y = m["content_width"], m["content_height"], m["content_left"], m["content_top"]
    t = r = b = left = 0
    for name in ("content", "padding", "border"):
        if name == "padding":
            t, r, b, left = (m[f"padding_{s}"] for s in SIDES)
        elif name == "border":
            t, r, b, left = t + m["border_top_width"], r + m["border_right_width"], b + m["border_bottom_width"], left + m["border_left_width"]
        pre = "content" if name == "content" else f"{name}_box"
        e[f"{pre}_width"] = w + left + r
        e[f"{pre}_height"] = h + t + b
        for side, v in (("top", y - t), ("left", x - left), ("right", x + w + r), ("bottom", y + h + b)):
            e[f"{pre}_{side}"] = v
            e[f"absolute_{pre}_{side}"] = v + (ox if side in ("left", "right") else oy)
    return e


STORED = (["content_width", "content_height", "content_top", "content_left"] + [f"padding_{s}" for s in SIDES] + [f"border_{s}_width" for s in SIDES])
MARGINS = [f"{x}_{s}" for x in ("margin", "collapse") for s in SIDES]


def check_box(box, m, ox, oy, where):
    for name, want in edges(m, ox, oy).items():
        got = getattr(box, name)
        if got != want:
            require(False, f"{where}: {name} is {got!r}, expected {want!r}")


def history(case, note):
    nodes = []

    def make(shape):
        node = D.Node({"display": "block"})
        nodes.append(node)
        for s in shape["c"]:
            child = make(s)
            node.add(child)
        if shape["none"]:
            for n in D.walk(node):
                n.layout = None
        return node

    root = make(case["tree"])
    if root.layout is None:
        root.layout = D.Box(root)
    boxed = [n for n in nodes if n.layout is not None]
    model = {id(n): {p: 0 for p in STORED + MARGINS} for n in boxed}
    nontrivial = False

    def verify(what):
        nonlocal nontrivial
        stack = [(root, 0, 0)]
        while stack:
            n, ox, oy = stack.pop()
            if n.layout is None:
                continue
            m = model[id(n)]
            check_box(n.layout, m, ox, oy, f"{what}, box {nodes.index(n)}")
            for p in MARGINS:
                require(getattr(n.layout, p) == m[p], f"{what}, box {nodes.index(n)}: {p} is {getattr(n.layout, p)!r}, expected {m[p]!r}")
            ax, ay = ox + m["content_left"], oy + m["content_top"]
            if n is not root and (ox or oy):
                nontrivial = True
            stack.extend((c, ax, ay) for c in n.children)

    verify("before any operation")
    for i, op in enumerate(case["ops"]):
        if op[0] == "reset":
            root.layout.reset()
            for m in model.values():
                m.update({p: 0 for p in STORED + MARGINS})
            note("reset")
        elif op[0] == "attach":
            # a new child (with a child of its own), and then the parent, or what that is in, moves: the child has to follow from where its parent is
            parent = boxed[op[1] % len(boxed)]
            added = []
            for k in range(op[2]):
                n = D.Node({"display": "block"})
                added.append(n)
                nodes.append(n)
                boxed.append(n)
                model[id(n)] = {p: 0 for p in STORED + MARGINS}
                parent.add(n) if k == 0 or op[3] else added[0].add(n)
            for _ in range(op[5]):
                parent = parent.parent or parent
            for name, value in zip(("content_left", "content_top"), op[4]):
                m = model[id(parent)]
                m[name] += value
                setattr(parent.layout, name, m[name])
            note("attached")
        elif op[0] == "move":
            # a part of the tree gets another parent, which (or what that is in) moves then
            n, parent = boxed[op[1] % len(boxed)], boxed[op[2] % len(boxed)]
            if n is root or parent in D.walk(n):
                continue
            n.parent.remove(n)
            parent.add(n, op[3] if op[3] < len(parent.children) else None)
            for _ in range(op[5]):
                parent = parent.parent or parent
            for name, value in zip(("content_left", "content_top"), op[4]):
                m = model[id(parent)]
                m[name] += value
                setattr(parent.layout, name, m[name])
            note("moved to another parent")
        elif op[0] == "dirty":
            boxed[op[1] % len(boxed)].layout.dirty = op[2]
        else:
            _, k, name, value = op
            n = boxed[k % len(boxed)]
            setattr(n.layout, name, value)
            m = model[id(n)]
            m[name] = value
            if name.startswith("margin") and value != "auto":
                side = "collapse" + name[6:]
                m[side] = max(m[side], value)
        verify(f"after operation {i}")
    return nontrivial


def value(r, name):
    if name in ("content_top", "content_left"):
        return r.weighted((3, lambda r: r.int(-50, 400)), (1, lambda r: r.int(-800, 4000) / 8), (1, 0), (1, lambda r: r.int(-3, 3)))
    if name.startswith("margin"):
        return r.weighted((3, lambda r: r.int(-20, 60)), (1, "auto"))
    return r.weighted((4, lambda r: r.int(0, 200)), (1, lambda r: r.int(0, 1600) / 8), (1, 0))


def histories(r):
    budget = [r.int(1, 12)]
    chain = r.maybe(0.3)
    wide = not chain and r.maybe(0.02)
    if wide:
        budget = [r.int(12, 60)]

    def shape(depth):
        budget[0] -= 1
        kids = []
        for _ in r.many(0, 1 if chain else 60 if wide and depth < 2 else 3, 0.97 if wide and depth < 2 else 0.9 if chain else 0.6):
            if budget[0] <= 0 or depth > 8:
                break
            kids.append(shape(depth + 1))
        return {"c": kids, "none": depth > 0 and r.maybe(0.07)}

    names = STORED + [f"margin_{s}" for s in SIDES]
    ops = []
    for _ in r.many(1, 40, 0.93):
        if r.maybe(0.06):
            ops.append(["reset"])
            continue
        if r.maybe(0.06):
            ops.append(["dirty", r.below(12), r.choice([False, True, None])])
            continue
        if r.maybe(0.03):
            ops.append(["attach", r.below(12), r.int(1, 3), r.maybe(0.5), [r.choice([1, -1]) * r.int(1, 30) for _ in range(2)], r.choice([0, 0, 1, 2])])
            continue
        if r.maybe(0.05):
            ops.append(["move", r.below(12), r.below(12), r.below(3), [r.choice([1, -1]) * r.int(1, 30) for _ in range(2)], r.choice([0, 0, 1, 2])])
            continue
        name = r.weighted((3, lambda r: r.choice(["content_top", "content_left"])), (2, lambda r: r.choice(names)))
        ops.append(["set", r.below(12), name, value(r, name)])
    return {"tree": shape(0), "ops": ops}


def laid_out(case, note):
    root = D.build(case["doc"], case["top_down"])
    D.run_layout(D.Display(case["display"]), root, case["standard"])
    nontrivial = False
    stack = [(root, 0, 0, "root")]
    while stack:
        n, ox, oy, path = stack.pop()
        box = n.layout
        if box is None:
            for c in D.walk(n):
                require(c.layout is None, f"{path}: a descendant of a node without a box has a box")
            continue
        m = {p: getattr(box, p) for p in STORED}
        check_box(box, m, ox, oy, path)
        if n is not root and (ox or oy):
            nontrivial = True
        for i, c in enumerate(n.children):
            stack.append((c, ox + m["content_left"], oy + m["content_top"], f"{path}/{i}"))
    if any(d["s"].get("position") == "relative" for d in D.walk_doc(case["doc"])):
        note("relative")
    return nontrivial


def docs(r):
    doc = gen.odd(r, gen.free_doc(r))
    if r.maybe(0.3):
        gen.hide(r, doc, 0.1, 0)
    return doc




LAWS = [
    Law("history", history, histories, quick=30000),
    Law("laid-out", laid_out, gen.layout_case(docs), quick=40000),
]
