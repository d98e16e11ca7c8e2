from vlib import css as C
from vlib import values as V
from vlib.base import Law, require

RULE = ("Random declarations over all properties, some properties deleted again; the text is split and compared with the properties that are set, in order, and each rendered value is assigned to a new declaration, which must read the same. "
        "Non-trivial: at least two properties set, one of them not a keyword.")
ASSUMPTIONS = [
    "HSL colors have whole percentages (the parser does not accept others); URLs contain no commas",
]


def safe(c):
    "Values whose text is in the domain of the round trip"
    if c is None or c[0] == "kw":
        return True
    if c[0] == "cursor":
        return not any("," in u[1] for u in c[1] if u[0] == "uri")
    return True


def check(case, note):
    from colosseum.declaration import CSS

    css, model = C.make(case["prior"], case["where"])
    for name in case["deleted"]:
        delattr(css, name)
        model.pop(name, None)
    text = str(css)
    require(isinstance(text, str), f"the text is {text!r}")
    keys = sorted(k.replace("_", "-") for k in css.keys())
    if not keys:
        require(text == "", f"the text of an empty declaration is {text!r}")
        return False
    for k in model:
        require(k in css.keys() or model[k] == V.initial(k, model), f"{k} is set but not listed")
    if not all(safe(c) for c in model.values()):
        # still, all names are there in order
        pos = 0
        for k in keys:
            at = text.find(f"{k}: ", pos)
            require(at >= 0, f"{k} is not rendered, or out of order, in {text!r}")
            pos = at
        note("names only")
        return False
    # a value may have a semicolon in it, but nothing that looks like the next name
    new, rest, values = CSS(), text, []
    for k, following in zip(keys, keys[1:] + [None]):
        require(rest.startswith(k + ": "), f"{k} is expected at {rest!r} in {text!r}")
        rest = rest[len(k) + 2:]
        value, sep, rest = rest.partition(f"; {following}: ") if following else (rest, "", "")
        require(value and (sep or not following), f"{k} is followed by {value!r} in {text!r}, and not by {following}")
        rest = f"{following}: {rest}"
        values.append((k, value))
    for name, value in values:
        new[name] = value
        note(f"round trip of {(model[name.replace('-', '_')] or ['none'])[0]}")
    C.check_readings(new, model, f"declaration parsed from {text!r}")
    if not any(c == V.PROPS[k][2] for k, c in model.items()):
        require(str(new) == text, f"the text of the parsed declaration is {str(new)!r}, the original {text!r}")
    return len(model) > 1 and any(c is not None and c[0] != "kw" for c in model.values())


def cases(r):
    prior = C.g_state(r, 0, 8)
    if r.maybe(0.8):
        prior = [x for x in prior if safe(x[2])]
    return {"where": C.g_where(r), "prior": prior, "deleted": r.sample([x[0] for x in prior], 0.1)}


LAWS = [Law("text", check, cases, quick=60000)]
