from colosseum.declaration import CSS

from vlib import css as C
from vlib import doc as D
from vlib import gen
from vlib import values as V
from vlib.base import Law, require

RULE = ("Random documents with everything the engine can lay out. Their declarations are written once more in another way: in another order, in other notations (numbers, texts, unit objects, constants, freshly built texts), "
        "through all interfaces, by directional and border shorthands, with initial values spelled out, with other values set, deleted or rejected on the way, and through copies and texts; before the first layout or after one. "
        "All numbers of all boxes must be those of the plain document. Non-trivial: a displayed node was declared in another way.")
ASSUMPTIONS = [
    "the plain document sets each property once, by a keyword argument; other checks judge its layout",
    "properties whose initial values depend on other ones (text-align, colors) are not spelled out",
]
FAMILIES = {"margin": "margin_{}", "padding": "padding_{}", "border_width": "border_{}_width", "border_style": "border_{}_style"}
PLAIN = sorted(n for n in V.LONGHANDS if V.PROPS[n][2] not in (("color",), ("align",), ("default",)) and n != "display")
SPACING = [n for n in PLAIN if n.startswith(("margin", "padding", "border_top", "border_left", "min_", "max_", "width", "height"))] + ["position", "direction", "top", "left", "float"]
KEYWORDS = {k for n in SPACING + ["display", "border_top_style"] for k in V.PROPS[n][0]} - {"none", "inherit"}


def other(r, name, value):
    "Another notation of a value"
    if not (V.PROPS[name][1] or "len").startswith("len"):
        return value
    if isinstance(value, str):
        head = value.rstrip("abcdefghijklmnopqrstuvwxyz%-")
        try:
            number, unit = float(head), value[len(head):]
        except ValueError:
            # a keyword
            return r.one(value, ["const", V.const_name(value)]) if value in KEYWORDS else value
    else:
        number, unit = value, ""
    if unit and unit != "px":
        n = int(number) if number == int(number) and r.maybe(0.5) else number
        return r.one(value, ["unit", n, unit])
    n = int(number) if number == int(number) else number
    return r.choice([n, float(n), gen.fmt(n), f"{gen.fmt(n)}px", ["unit", n, "px"], ["unit", float(n), "px"]])


def g_ops(r, style):
    "Operations that end in the given declaration"
    ops, left = [], r.shuffled(sorted(style))
    for family, pattern in FAMILIES.items():
        names = [pattern.format(s) for s in gen.SIDES]
        if all(n in style for n in names) or (any(n in style for n in names) and r.maybe(0.5)):
            if not r.maybe(0.6):
                continue
            sides = [style.get(n, "none" if family == "border_style" else 0) for n in names]
            if sides[1] == sides[3] and r.maybe(0.7):
                sides.pop()
                if sides[0] == sides[2] and r.maybe(0.7):
                    sides.pop()
                    if sides[0] == sides[1] and r.maybe(0.7):
                        sides.pop()
            specs = [other(r, names[0], v) for v in sides]
            ops.append(["set", family, specs[0] if len(specs) == 1 and r.maybe(0.5) else ["tuple", *specs], r.choice(C.VIAS)])
            left = [n for n in left if n not in names]
    for side in gen.SIDES:
        names = [f"border_{side}_width", f"border_{side}_style"]
        if all(n in left for n in names) and r.maybe(0.6):
            specs = r.shuffled([other(r, n, style[n]) for n in names])
            ops.append(["set", f"border_{side}", " ".join(specs) if all(isinstance(x, str) for x in specs) and r.maybe(0.5) else ["list", *specs], r.choice(C.VIAS)])
            left = [n for n in left if n not in names]
    ops = r.shuffled(ops)
    # shorthands declare all that they stand for, so they do not come after single properties of their group: those are set after them
    for n in left:
        ops.append(["set", n, other(r, n, style[n]), r.choice(C.VIAS)])
    out = []
    for op in ops:
        name = op[1]
        if r.maybe(0.15) and name in V.LONGHANDS:
            out.append(["set", name, V.g_value(r, name)[0], r.choice(C.VIAS)])
            if r.maybe(0.3):
                out.append(["delete", name, r.choice(C.VIAS)])
        out.append(op)
        if r.maybe(0.1) and name in V.LONGHANDS:
            out.append(["reject", name, r.choice([["junk", "object"], ["junk", "dict"], "bogus", "1 2 3 4 5", ""]), r.choice(C.VIAS)])
        if r.maybe(0.1):
            absent = [n for n in SPACING if n not in style]
            n = r.choice(absent)
            out.insert(0, ["set", n, V.spec_of(r, V.PROPS[n][2]), r.choice(C.VIAS)])
        if r.maybe(0.05):
            absent = [n for n in PLAIN if n not in style]
            n = r.choice(absent)
            out.insert(0, ["delete", n, r.choice(C.VIAS)])
            out.insert(0, ["set", n, V.g_value(r, n)[0], r.choice(C.VIAS)])
    return out


def write(node, route, ops):
    if route == "node":
        css = node.style
    elif route == "fresh":
        css = CSS()
    else:
        css = CSS(**{op[1]: V.realize(op[2]) for op in ops if op[0] == "set"}) if route == "constructor" else CSS()
        if route == "constructor":
            ops = []
    for op, name, *rest in ops:
        if op == "set":
            C.assign(css, name, V.realize(rest[0]), rest[1])
        elif op == "delete":
            C.delete(css, name, rest[0])
        else:
            C.rejects(lambda: C.assign(css, name, V.realize(rest[0]), rest[1]), f"{name}: {rest[0]!r}")
    if route == "text":
        again = CSS()
        for line in str(css).split("; "):
            if line:
                name, value = line.split(": ", 1)
                again[name] = value
        css = again
    if route == "copies":
        css = css.copy().copy()
    if route != "node":
        node.style = css.copy(node)


def check(case, note):
    display, shown = D.Display(case["display"]), False
    plain = D.build(case["doc"], case["top_down"])
    D.run_layout(display, plain, case["standard"])
    expected = D.snap_tree(plain)
    for late in (False, True):
        if late:
            root = plain
        else:
            written = {i for i, _, _ in case["ways"]}
            root = D.build(strip(case["doc"], written), case["top_down"])
        nodes = list(D.walk(root))
        for i, route, ops in case["ways"]:
            write(nodes[i], route, ops)
            shown |= expected[i] is not None
            note(route)
        D.run_layout(display, root, case["standard"])
        problem = D.diff_snap(D.snap_tree(root), expected)
        require(not problem, f"{problem}, {'after another' if late else 'in the first'} layout, with {'; '.join(f'node {i} by {route}: {ops}' for i, route, ops in case['ways'])}")
    return shown


def strip(doc, written):
    "The document without the declarations that are written in other ways"
    out = []

    def visit(d):
        i = len(out)
        new = {**d, "s": {} if i in written else d["s"]}
        out.append(new)
        new["c"] = [visit(c) for c in d.get("c", ())]
        return new

    return visit(doc)


def case(r):
    doc = gen.odd(r, gen.free_doc(r))
    if r.maybe(0.3):
        doc = gen.hide(r, doc, 0.15, anything=False)
    docs = list(D.walk_doc(doc))
    for d in docs:
        if "i" not in d and r.maybe(0.3):
            for s in gen.SIDES:
                if r.maybe(0.7):
                    d["s"][f"border_{s}_style"] = r.choice(V.BORDER_STYLES[1:])
                    d["s"][f"border_{s}_width"] = r.weighted((3, lambda r: r.int(0, 6)), (1, lambda r: r.choice(["thin", "medium", "thick", "0.5px", 2.5, "1mm"])))
    ways = []
    for i, d in enumerate(docs):
        if r.maybe(0.6):
            route = r.choice(["node", "fresh", "constructor", "text", "copies"])
            ops = g_ops(r, d["s"])
            if route == "constructor":
                # keyword arguments are unordered, and each occurs once
                ops = [["set", n, other(r, n, v)] for n, v in r.shuffled(sorted(d["s"].items(), key=lambda x: x[0]))]
            ways.append([i, route, ops])
    return {"doc": doc, "ways": ways, "display": gen.display(r), "standard": r.choice(["html5", "html4"]), "top_down": r.maybe(0.5)}


LAWS = [Law("written otherwise", check, case, quick=30000)]
