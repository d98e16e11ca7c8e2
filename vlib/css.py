"""Operations on declarations through all of their interfaces."""
from .base import require
from . import values as V

VIAS = ("attr", "item-", "item_", "update-", "update_")


def assign(css, name, value, via="attr"):
    if via == "attr":
        setattr(css, name, value)
    elif via == "item-":
        css[name.replace("_", "-")] = value
    elif via == "item_":
        css[name] = value
    elif via == "update-":
        css.update(**{name.replace("_", "-"): value})
    else:
        css.update(**{name: value})


def delete(css, name, via="attr"):
    if via == "attr":
        delattr(css, name)
    elif via == "item-":
        del css[name.replace("_", "-")]
    elif via == "item_":
        del css[name]
    elif via == "update-":
        css.update(**{name.replace("_", "-"): None})
    else:
        css.update(**{name: None})


def read(css, name, via="attr"):
    if via == "attr":
        return getattr(css, name)
    return css[name.replace("_", "-")] if via.endswith("-") else css[name]


def rejects(fn, what):
    try:
        fn()
    except ValueError:
        return
    require(False, f"{what} was accepted")


def check_readings(css, state, what):
    "All longhands read as the model says"
    for name in V.LONGHANDS:
        got, want = V.canon(getattr(css, name)), V.reading(name, state)
        if got != want:
            require(False, f"{what}: {name} reads {got!r}, expected {want!r}")


def check_keys(css, state, what):
    """The declared properties are among those assigned, and all that differ from their initial value
    (one that is assigned its initial value may or may not count as declared)"""
    keys = set(css.keys())
    for k in keys:
        require(k in state, f"{what}: {k} is listed, but not set")
    for k, v in state.items():
        require(k in keys or v == V.initial(k, state), f"{what}: {k} is set, but not listed")
    require({k for k, _ in css.items()} == keys, f"{what}: items and keys differ")


def probe(css, model, what):
    "Set values stay when what unset ones depend on changes (changes color and direction)"
    for color, c in (("#010203", ("rgb", 1, 2, 3, 1.0)), ("#040506", ("rgb", 4, 5, 6, 1.0))):
        css.color = color
        css.direction = "rtl" if V.reading("direction", model) == V.kw("ltr") else "ltr"
        model["color"], model["direction"] = c, V.canon(css.direction)
        check_readings(css, model, f"{what}, then color {color}, direction {css.direction}")


def observe(css):
    return {
        "values": V.read_all(css),
        "keys": sorted(css.keys()),
        "items": sorted((k, V.canon(v)) for k, v in css.items()),
        "text": str(css),
    }


def unchanged(css, before, what):
    after = observe(css)
    for k in before:
        if before[k] != after[k]:
            if k == "values":
                for p in before[k]:
                    require(before[k][p] == after[k][p], f"{what}: {p} changed from {before[k][p]!r} to {after[k][p]!r}")
            require(False, f"{what}: {k} changed from {before[k]!r} to {after[k]!r}")


# ---------------------------------------------------------------- generation
def g_state(r, lo=0, hi=8, names=V.LONGHANDS):
    "A declaration: list of [property, spec, canonical]"
    out = []
    for _ in r.many(lo, hi, 0.7):
        name = r.choice(names)
        spec, c = V.g_value(r, name)
        out.append([name, spec, c])
    return out


def bind(css, where):
    "The declaration as it is (0), or copied for a node with a parent and a child, which have boxes (1) or not (2)"
    if not where:
        return css
    from . import doc as D

    node = D.Node({})
    D.Node({"color": "#0a0b0c", "direction": "rtl", "text_align": "center", "border_top_color": "#0d0e0f", "margin_top": 77}, [node, D.Node({"color": "#101112"})])
    node.add(D.Node({"color": "#131415", "direction": "rtl", "width": 78}))
    if where == 2:
        for n in D.walk(node.parent):
            n.layout = None
    node.style = css.copy(node)
    return node.style


def g_where(r):
    return r.weighted((4, 0), (2, 1), (1, 2))


def make(state, where=0):
    "(CSS, model) of a generated declaration"
    from colosseum.declaration import CSS

    css, model = bind(CSS(), where), {}
    for name, spec, c in state:
        setattr(css, name, V.realize(spec))
        model[name] = V.tup(c)
    return css, model
