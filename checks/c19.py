from vlib import css as C
from vlib import values as V
from vlib.base import Law, require

RULE = ("Random histories of up to 16 operations on color, direction, text-align, the border colors (single sides, all sides, border and border-<side> shorthands) and unrelated properties, through all interfaces, on up to two declarations and their copies. "
        "After every operation the dependent properties must read as set, or as the current value they depend on. Non-trivial: color or direction change while a dependent property is unset that was set before, or the other way round.")
ASSUMPTIONS = []
SIDE_COLORS = V.DIRECTIONAL["border_color"]
NAMES = ["color", "direction", "text_align"] + SIDE_COLORS


def check(case, note):
    css, model = C.make([], case["where"])
    all_css, all_models = [css], [model]
    nontrivial = False
    was_set = set()
    for i, op in enumerate(case["ops"]):
        k = op[1] % len(all_css)
        css, model = all_css[k], all_models[k]
        kind = op[0]
        if kind == "copy":
            if len(all_css) < 4:
                all_css.append(C.bind(css, 1) if i % 3 == 2 else css.copy())
                all_models.append(dict(model))
            continue
        if kind == "set":
            C.assign(css, op[3], V.realize(op[4]), op[2])
            model[op[3]] = V.tup(op[5])
            was_set.add(op[3])
            if op[3] == "color" and any(x in was_set and x not in model for x in SIDE_COLORS):
                nontrivial = True
                note("color changed under a reset border color")
            if op[3] == "direction" and "text_align" in was_set and "text_align" not in model:
                nontrivial = True
                note("direction changed under a reset text-align")
        elif kind == "same":
            # the very value that another property reads
            _, _, via, name, other = op
            if V.reading(other, model) == ("default",):
                continue  # not a color that can be assigned
            C.assign(css, name, getattr(css, other), via)
            model[name] = V.reading(other, model)
            was_set.add(name)
            note("set to the value of another property")
        elif kind == "delete":
            C.delete(css, op[3], op[2])
            for x in V.DIRECTIONAL.get(op[3]) or V.SHORTHAND.get(op[3]) or [op[3]]:
                model.pop(x, None)
                if x in ("color", "direction") and x in was_set:
                    nontrivial = True
        elif kind == "sides":
            C.assign(css, "border_color", tuple(V.realize(s) for s, _ in op[3]), op[2])
            for x, (_, c) in zip(SIDE_COLORS, op[3]):
                model[x] = V.tup(c)
                was_set.add(x)
        elif kind == "shorthand":
            name, text, c = op[3:]
            C.assign(css, name, text, op[2])
            for x in V.SHORTHAND[name]:
                model.pop(x, None)
            # the shorthand sets the color (if given), and resets the rest
            for x in V.SHORTHAND[name]:
                part = x.rsplit("_", 1)[1]
                if c.get(part) is not None:
                    model[x] = V.tup(c[part])
                    was_set.add(x)
        for j, (x, m) in enumerate(zip(all_css, all_models)):
            for name in NAMES:
                want = V.reading(name, m)
                for via in ("attr", "item-"):
                    got = V.canon(C.read(x, name, via))
                    require(got == want, f"after operation {i} ({op!r}) on declaration {k}: {name} of declaration {j} reads {got!r}, expected {want!r}")
            want = tuple(V.reading(n, m) for n in SIDE_COLORS)
            require(V.canon(x.border_color) == want, f"after operation {i}: border_color reads {V.canon(x.border_color)!r}, expected {want!r}")
        if "text_align" not in model:
            require(css.text_align is (const("RIGHT") if V.reading("direction", model) == ("kw", "rtl") else const("LEFT")), "the initial text-align is not the exported constant")
    return nontrivial


def const(name):
    from colosseum import constants

    return getattr(constants, name)


SHORT = [
    ("1px", {"width": ("len", 1.0, "px")}), ("solid", {"style": ("kw", "solid")}), ("red", {"color": ("rgb", 255, 0, 0, 1.0)}),
    ("2px dotted #00ff00", {"width": ("len", 2.0, "px"), "style": ("kw", "dotted"), "color": ("rgb", 0, 255, 0, 1.0)}),
    ("transparent thick", {"color": ("kw", "transparent"), "width": ("kw", "thick")}),
]


def g_op(r):
    kind = r.weighted((8, "set"), (5, "delete"), (1, "sides"), (2, "shorthand"), (1, "copy"), (2, "same"))
    k = r.below(3)
    via = r.choice(C.VIAS)
    if kind == "copy":
        return ["copy", k]
    if kind == "set":
        name = r.weighted((3, "color"), (3, "direction"), (2, "text_align"), (4, lambda r: r.choice(SIDE_COLORS)), (3, lambda r: r.choice(V.LONGHANDS)))
        return ["set", k, via, name, *V.g_value(r, name)]
    if kind == "same":
        name = r.choice(SIDE_COLORS + ["text_align"])
        return ["same", k, via, name, "text_align" if name == "text_align" else r.choice(["color"] + SIDE_COLORS)]
    if kind == "delete":
        return ["delete", k, via, r.weighted((1, lambda r: r.choice(V.LONGHANDS)), (3, "color"), (3, "direction"), (2, "text_align"), (4, lambda r: r.choice(SIDE_COLORS)), (1, "border_color"), (1, lambda r: r.choice(["border", "border_left", "border_top"])))]
    if kind == "sides":
        return ["sides", k, via, [V.g_value(r, x) for x in SIDE_COLORS]]
    name = r.choice(["border", "border_top", "border_right", "border_bottom", "border_left"])
    text, c = r.choice(SHORT)
    return ["shorthand", k, via, name, text, c]


def cases(r):
    # start with some unrelated properties
    start = [["set", 0, "attr", x, *V.g_value(r, x)] for x in r.sample(V.LONGHANDS, 0.1)] if r.maybe(0.3) else []
    return {"where": C.g_where(r), "ops": start + [g_op(r) for _ in r.many(1, 16, 0.88)]}


LAWS = [Law("derived", check, cases, quick=30000)]
