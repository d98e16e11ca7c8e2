from vlib import css as C
from vlib import values as V
from vlib.base import Law, require

RULE = ("Random histories of up to 30 operations on a declaration: set, delete and read single, directional and shorthand properties by attribute, by item (with '-' or '_') and by update (one or several names, None deletes), rejected values, unknown names. "
        "After every operation all properties, keys and items are compared with a dictionary model. Non-trivial: at least one property is set twice or deleted after being set.")
ASSUMPTIONS = [
    "whether a value equal to the initial value counts as set is left open; all others must be listed by keys and items exactly while they are set",
    "the effect of an update that is rejected in part on its other names is left open",
]


def history(case, note):
    from colosseum.declaration import CSS

    css, model = C.make([])
    touched = set()
    nontrivial = False
    if case["init"]:
        css = CSS(**{n: V.realize(s) for n, s, _ in case["init"]})
        for n, s, c in case["init"]:
            model[n] = V.tup(c)
        touched.update(model)
    css = C.bind(css, case["where"])
    for i, op in enumerate(case["ops"]):
        kind = op[0]
        what = f"after operation {i} ({op!r})"
        note(kind)
        if kind == "set":
            _, via, name, spec, c = op
            nontrivial |= name in touched
            C.assign(css, name, V.realize(spec), via)
            touched.add(name)
            model[name] = V.tup(c)
        elif kind == "delete":
            _, via, name = op
            nontrivial |= name in touched
            C.delete(css, name, via)
            for x in V.DIRECTIONAL.get(name) or V.SHORTHAND.get(name) or [name]:
                model.pop(x, None)
        elif kind == "sides":
            _, via, name, parts = op
            C.assign(css, name, tuple(V.realize(s) for s, _ in parts), via)
            for x, (s, c) in zip(V.DIRECTIONAL[name], parts):
                model[x] = V.tup(c)
                touched.add(x)
        elif kind == "shorthand":
            _, via, name, text, given = op
            C.assign(css, name, text, via)
            nontrivial |= any(x in touched for x in V.SHORTHAND[name])
            for x in V.SHORTHAND[name]:
                model.pop(x, None)
                part = x.rsplit("_", 1)[1]
                if part in given:
                    model[x] = V.tup(given[part])
                    touched.add(x)
        elif kind == "update":
            css.update(**{(n.replace("_", "-") if hy else n): (None if s is None else V.realize(s)) for n, s, c, hy in op[1]})
            for n, s, c, _ in op[1]:
                for x in V.DIRECTIONAL.get(n, [n]):
                    nontrivial |= x in touched
                    if s is None:
                        model.pop(x, None)
                    else:
                        model[x] = V.tup(c)
                        touched.add(x)
        elif kind == "none":
            _, via, name = op
            if "none" in V.PROPS[name][0]:
                C.assign(css, name, None, via)
                nontrivial |= name in touched
                touched.add(name)
                model[name] = None
            else:
                before = C.observe(css)
                C.rejects(lambda: C.assign(css, name, None, via), f"{name}: None")
                C.unchanged(css, before, what)
        elif kind == "reject":
            _, via, name, spec = op
            before = C.observe(css)
            C.rejects(lambda: C.assign(css, name, V.realize(spec), via), f"{name}: {spec!r}")
            C.unchanged(css, before, what)
        elif kind == "unknown":
            _, via, name = op
            before = C.observe(css)
            expected = NameError if via.startswith("update") or via == "init" else KeyError
            for act in ("set", "delete", "read"):
                if via == "init":
                    fn = lambda: CSS(**{name: 1})  # noqa: E731
                elif act == "set":
                    fn = lambda: C.assign(css, name, 1, via)  # noqa: E731
                elif act == "delete":
                    fn = lambda: C.delete(css, name, via)  # noqa: E731
                elif via.startswith("item"):
                    fn = lambda: C.read(css, name, via)  # noqa: E731
                else:
                    continue
                try:
                    fn()
                except expected:
                    pass
                except Exception as e:
                    require(False, f"{act} of the unknown property {name} ({via}) raised {type(e).__name__}, expected {expected.__name__}")
                else:
                    require(False, f"{act} of the unknown property {name} ({via}) was accepted")
            C.unchanged(css, before, what)
        C.check_readings(css, model, what)
        verify(css, model, what)
    C.probe(css, model, "at the end")
    return nontrivial


def verify(css, model, what):
    keys, items = css.keys(), list(css.items())
    require(len(keys) == len(set(keys)), f"{what}: keys are not unique: {keys}")
    require(sorted(k for k, _ in items) == sorted(keys), f"{what}: keys {sorted(keys)} and items {items} disagree")
    for k, v in items:
        require(k in model, f"{what}: {k} is listed, but not set")
        require(V.canon(v) == model[k], f"{what}: item {k} is {v!r}, expected {model[k]!r}")
    for k in model:
        if k not in keys:
            require(model[k] == V.initial(k, model), f"{what}: {k} is set to {model[k]!r}, but not listed")
    for name in V.LONGHANDS:
        want = V.reading(name, model)
        for via in ("item-", "item_"):
            got = V.canon(C.read(css, name, via))
            require(got == want, f"{what}: item {name} is {got!r}, expected {want!r}")
    for name, sides in V.DIRECTIONAL.items():
        want = tuple(V.reading(x, model) for x in sides)
        for via in ("attr", "item-"):
            got = V.canon(C.read(css, name, via))
            require(got == want, f"{what}: {name} is {got!r}, expected {want!r}")


UNKNOWN = ["bogus", "margin_middle", "margin__top", "colour", "_color", "_node", "dirty", "copy", "engine", "border_top_", "MARGIN", "margin top", "", "x", "keys", "font"]


SHORT = [
    ("1px", {"width": ("len", 1.0, "px")}), ("solid", {"style": ("kw", "solid")}), ("red", {"color": ("rgb", 255, 0, 0, 1.0)}), ("none", {"style": None}),
    ("2px dotted #00ff00", {"width": ("len", 2.0, "px"), "style": ("kw", "dotted"), "color": ("rgb", 0, 255, 0, 1.0)}),
    ("blue thick", {"color": ("rgb", 0, 0, 255, 1.0), "width": ("kw", "thick")}),
]


def g_unknown(r):
    "A name that is similar to that of a property"
    if r.maybe(0.3):
        return r.choice(UNKNOWN)
    name = r.choice(sorted([*V.LONGHANDS, *V.DIRECTIONAL, *V.SHORTHAND]))
    i = r.below(len(name))
    other = r.choice([name + " ", " " + name, name.upper(), name.capitalize(), name[:-1], name[1:], name + "_", "-" + name, name.replace("_", " "), name.replace("_", "__"), name.replace("_", ""), name.replace("_", "."),
                      name[:i] + name[i + 1:], name[:i] + "x" + name[i:], name + "s", name + "_top", name.title()])
    return "bogus" if other.replace("-", "_") in V.PROPS or other in V.DIRECTIONAL or other in V.SHORTHAND else other


def g_op(r, recent, last):
    name = r.choice(recent) if recent and r.maybe(0.6) else r.choice(V.LONGHANDS)
    via = r.choice(C.VIAS)
    kind = r.weighted((8, "set"), (4, "delete"), (2, "sides"), (3, "update"), (1, "reject"), (1, "unknown"), (1, "shorthand"), (1, "none"))
    if kind == "set":
        spec, c = V.g_near(r, name, last[name]) if name in last and r.maybe(0.5) else V.g_value(r, name)
        last[name] = c
        recent.append(name)
        return ["set", via, name, spec, c]
    if kind == "none":
        if r.maybe(0.5):
            name = r.choice([x for x in V.LONGHANDS if "none" in V.PROPS[x][0]])
        recent.append(name)
        last.pop(name, None)
        return ["none", r.choice(["attr", "item-", "item_"]), name]
    if kind == "delete":
        if r.maybe(0.25):
            name = r.choice(sorted(list(V.DIRECTIONAL) + list(V.SHORTHAND)))
        return ["delete", via, name]
    if kind == "sides":
        name = r.choice(sorted(V.DIRECTIONAL))
        recent.extend(V.DIRECTIONAL[name])
        return ["sides", via, name, [V.g_value(r, x) for x in V.DIRECTIONAL[name]]]
    if kind == "update":
        entries = {}
        for _ in r.many(1, 4, 0.6):
            n = r.choice(recent) if recent and r.maybe(0.5) else r.choice(V.LONGHANDS)
            if r.maybe(0.15):
                n = r.choice(sorted(V.DIRECTIONAL))
            spec, c = (None, None) if r.maybe(0.3) else V.g_value(r, V.DIRECTIONAL.get(n, [n])[0])
            entries.pop(n, None)
            entries[n] = [n, spec, c, r.maybe(0.5)]
            recent.extend(V.DIRECTIONAL.get(n, [n]))
        return ["update", list(entries.values())]
    if kind == "reject":
        return ["reject", via, name, r.choice(["bogus", "1 2 3 4 5 6 7", ["junk", "object"], "~1px", "", " ", ["list"], ["tuple"], ["junk", "dict"], "auto auto", "-"])]
    if kind == "shorthand":
        name = r.choice(sorted(V.SHORTHAND))
        text, given = r.choice(SHORT)
        recent.extend(V.SHORTHAND[name])
        return ["shorthand", via, name, text, given]
    return ["unknown", r.choice(["item-", "item_", "update-", "update_", "init"]), g_unknown(r)]


def cases(r):
    recent = []
    init = []
    if r.maybe(0.3):
        init = {x[0]: x for x in C.g_state(r, 1, 5)}
        init = list(init.values())
        recent = [x[0] for x in init]
    last = {x[0]: x[2] for x in init}
    return {"where": C.g_where(r), "init": init, "ops": [g_op(r, recent, last) for _ in r.many(1, 30, 0.9)]}


LAWS = [Law("history", history, cases, quick=12000)]
