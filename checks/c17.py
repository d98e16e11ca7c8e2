from vlib import css as C
from vlib import doc as D
from vlib import values as V
from vlib.base import Law, require

RULE = ("Random trees whose layouts are marked clean, some nodes without a layout box; random operations on the style (all properties, all interfaces, shorthands, directional values, deletion, rejected values) and the intrinsic size of any node. "
        "After each operation that changed a value, the box of that node and all boxes below must be dirty; after one that changed nothing, no box may be. Non-trivial: an operation that changes a value of a node with children.")
ASSUMPTIONS = [
    "a layout is only marked clean together with the whole tree, from the root (before an operation or not at all)",
    "not judged: assigning an equal color or structured value, deleting what is not set, equal values through directional or shorthand properties; whether other nodes are marked dirty when something changed",
]
SIZE = {"width": [None, 0, 10, 20.5], "height": [None, 0, 10, 20.5], "ratio": [None, 1, 0.5, 2.0], "is_replaced": [False, True], "exact_width": [True, False], "exact_height": [True, False]}
SIMPLE = {None, "len", "lenpct", "len±", "lenpct±", "int"}


def check(case, note):
    nodes = []

    def make(shape):
        node = D.Node({})
        nodes.append(node)
        for s in shape["c"]:
            node.add(make(s))
        if shape["none"]:
            for n in D.walk(node):
                n.layout = None
        return node

    root = make(case["tree"])
    for n in nodes:
        require(n.layout is None or n.layout.dirty, "a new layout box is not dirty")
    models = {}
    nontrivial = False
    for i, op in enumerate(case["ops"]):
        kind, k = op[0], op[1] % len(nodes)
        node = nodes[k]
        state, op = op[-1], op[:-1]
        if state != "keep":
            for n in nodes:
                if n.layout is not None:
                    n.layout.dirty = {"clean": False, "evaluating": None}[state]
            for n in nodes:
                require(n.layout is None or not n.layout.dirty, "a layout marked clean is dirty")
        style = node.style
        before = V.read_all(style)
        size = {p: getattr(node.intrinsic, p) for p in SIZE}
        clean = False     # must not be marked
        what = f"operation {i} {op!r} on node {k}"
        if kind == "set":
            _, _, via, name, spec, c = op
            same = before[name] == V.tup(c) and V.PROPS[name][1] in SIMPLE and (name in style.keys() or V.PROPS[name][2] not in (("color",), ("align",)))
            C.assign(style, name, V.realize(spec), via)
            clean = same
        elif kind == "again":
            # assign a value equal to the one the property has
            _, _, via, name = op
            if V.PROPS[name][1] in SIMPLE and (name in style.keys() or V.PROPS[name][2] not in (("color",), ("align",))):
                value = getattr(style, name)
                if isinstance(value, str):
                    value = "".join(list(value))
                elif value is None:
                    value = "none"
                elif not isinstance(value, int):
                    value = str(value)
                C.assign(style, name, value, via)
                clean = True
                note("equal value")
        elif kind == "delete":
            C.delete(style, op[3], op[2])
        elif kind == "sides":
            C.assign(style, op[3], tuple(V.realize(s) for s, _ in op[4]), op[2])
        elif kind == "shorthand":
            C.assign(style, op[3], op[4], op[2])
        elif kind == "reject":
            C.rejects(lambda: C.assign(style, op[3], V.realize(op[4]), op[2]), what)
            clean = True
        elif kind == "size":
            setattr(node.intrinsic, op[2], op[3])
            require(getattr(node.intrinsic, op[2]) == op[3], f"{what}: intrinsic {op[2]} reads {getattr(node.intrinsic, op[2])!r}")
            clean = size[op[2]] == op[3]
        elif kind == "visible":
            # whether a box is rendered makes no difference
            if node.layout is not None:
                node.layout.visible = op[2]
            continue
        elif kind == "replace":
            node.style = style.copy(node)
            style = node.style
            continue
        elif kind == "mark":
            setattr(node.intrinsic if op[2] else style, "dirty", True)
            for n in D.walk(node):
                # without a box of its own, there is nothing to mark
                if node.layout is not None and n.layout is not None:
                    require(n.layout.dirty, f"{what}: box {nodes.index(n)} is marked {n.layout.dirty!r}")
            note("marked")
        for n in nodes:
            expect = None if n.layout is None else n.layout.dirty
            require(n.style.dirty == expect and n.intrinsic.dirty == expect,
                    f"{what}: the layout of node {nodes.index(n)} is marked {expect!r}, its style {n.style.dirty!r}, its intrinsic size {n.intrinsic.dirty!r}")
        changed = before != V.read_all(style) or size != {p: getattr(node.intrinsic, p) for p in SIZE}
        if changed:
            for n in D.walk(node):
                if n.layout is not None:
                    require(n.layout.dirty, f"{what} changed a value, but box {nodes.index(n)} is not dirty")
            if node.layout is not None:
                require(style.dirty and node.intrinsic.dirty, f"{what} changed a value, but the style or size is not dirty")
                if node.children:
                    nontrivial = True
            else:
                note("node without a box changed")
            note("changed by " + kind)
        elif clean and state != "keep":
            for n in nodes:
                require(n.layout is None or not n.layout.dirty, f"{what} changed nothing, but box {nodes.index(n)} is dirty")
            if kind != "again":
                note("unchanged by " + kind)
    return nontrivial


def g_op(r, recent, last):
    return [*g_change(r, recent, last), r.weighted((7, "clean"), (2, "keep"), (1, "evaluating"))]


def g_change(r, recent, last):
    k = r.below(10)
    via = r.choice(C.VIAS)
    name = r.choice(recent) if recent and r.maybe(0.4) else r.choice(V.LONGHANDS)
    kind = r.weighted((6, "set"), (2, "again"), (3, "delete"), (2, "sides"), (2, "shorthand"), (2, "reject"), (4, "size"), (1, "replace"), (1, "mark"), (1, "visible"))
    if kind == "set":
        recent.append(name)
        spec, c = V.g_near(r, name, last[name]) if name in last and r.maybe(0.6) else V.g_value(r, name)
        last[name] = c
        return ["set", k, via, name, spec, c]
    if kind in ("again", "delete"):
        if kind == "delete" and r.maybe(0.25):
            name = r.choice(sorted(list(V.DIRECTIONAL) + list(V.SHORTHAND)))
        return [kind, k, via, name]
    if kind == "sides":
        d = r.choice(sorted(V.DIRECTIONAL))
        recent.extend(V.DIRECTIONAL[d])
        return ["sides", k, via, d, [V.g_value(r, x) for x in V.DIRECTIONAL[d]]]
    if kind == "shorthand":
        s = r.choice(sorted(V.SHORTHAND))
        recent.extend(V.SHORTHAND[s])
        return ["shorthand", k, via, s, r.choice(["1px solid red", "2px", "dotted", "thick blue", "none", "red 3px"])]
    if kind == "reject":
        bad = r.choice(["bogus", ["junk", "object"], "~1px"])
        if r.maybe(0.3):
            name = r.choice(sorted(V.DIRECTIONAL))
            parts = [V.g_value(r, x)[0] for x in V.DIRECTIONAL[name]][:r.int(0, 3)]
            parts.insert(r.below(len(parts) + 1), bad)
            bad = ["tuple", *parts]
        elif r.maybe(0.3):
            name = r.choice(sorted(V.SHORTHAND))
            bad = r.choice([bad, "1px solid bogus", "1px 2px", "solid red dotted", "", "red 1px solid 2px"])
        return ["reject", k, via, name, bad]
    if kind == "size":
        p = r.choice(sorted(SIZE))
        return ["size", k, p, r.choice(SIZE[p])]
    if kind == "mark":
        return ["mark", k, r.below(2)]
    if kind == "visible":
        return ["visible", k, r.maybe(0.5)]
    return ["replace", k]


def cases(r):
    budget = [r.int(1, 8)]

    def shape(depth):
        budget[0] -= 1
        kids = []
        for _ in r.many(0, 3, 0.6):
            if budget[0] <= 0 or depth > 5:
                break
            kids.append(shape(depth + 1))
        return {"c": kids, "none": r.maybe(0.08)}

    recent, last = [], {}
    return {"tree": shape(0), "ops": [g_op(r, recent, last) for _ in r.many(1, 14, 0.85)]}


LAWS = [Law("dirty", check, cases, quick=16000)]
