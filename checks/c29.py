import math

from vlib import css as C
from vlib import values as V
from vlib.base import Law, require

RULE = ("(a) Random user-defined properties: sets of keywords (with none), sequences of validators (also with ranges), defaulting keywords, and initial values (also ones that follow another property); random sequences of assignments of valid and invalid values and deletions on several objects. "
        "After every step all properties of all objects are compared with a model, in which each validator is asked alone; rejections must be ValueErrors whose text names value, property and alternatives. "
        "(b) Invalid values for every longhand of a declaration: the text of the error names the property and lists exactly the keywords and kinds of values it has. "
        "Non-trivial: (a) a rejection and an accepted value, (b) always.")
ASSUMPTIONS = ["the validators are those of the library, judged by other properties; the kinds of values are the descriptions they document"]

KEYWORDS = ["auto", "none", "a", "b", "left", "right", "inherit", "initial", "red", "medium", "table-cell", "table", "auto2", "un-set", "unset", "revert", "transparent", "normal", "0", 0, 3]
NAMES = ["width", "height", "color", "orphans", "float", "clear", "cursor", "quotes"]
CURSOR = "[ [<uri> ,]* [ " + " | ".join(V.CURSORS) + " ] ]"
VALIDATORS = {
    "is_number": "<number>", "is_integer": "<integer>", "is_length": "<length>", "is_percentage": "<percentage>", "is_color": "<color>",
    "is_border_spacing": "<length> <length>?", "is_rect": "<rect>", "is_quote": "[<string> <string>]+", "is_uri": "<uri>", "is_cursor": CURSOR,
}


def validator(spec):
    from colosseum import validators

    fn = getattr(validators, spec[0])
    if len(spec) == 3:
        return fn(min_value=spec[1], max_value=spec[2])
    return fn


def const(word):
    return None if word == "none" else word


def listing(prop):
    out = {str(k) for k in prop["keywords"]} | set(prop["defaulting"]) | {VALIDATORS[v[0]] for v in prop["validators"]}
    return ", ".join(sorted(out))


def canon(value):
    if isinstance(value, float):
        return ("float", value if math.isfinite(value) else repr(value))
    return V.canon(value)


def number(c):
    "The number of a canonical value that is a number or one of pixels, otherwise the value itself"
    if isinstance(c, tuple) and (c[0] in ("int", "float") or c[0] == "len" and c[2] == "px"):
        return float(c[1])
    return c


def decide(prop, value):
    "(accepted, canonical value) of an assignment"
    from colosseum.exceptions import ValidationError

    for spec in prop["validators"]:
        try:
            return True, canon(validator(spec)(value))
        except ValidationError:
            pass
    if isinstance(value, str) and value == "none":
        value = None
    for k in prop["keywords"] + prop["defaulting"]:
        if value == const(k):
            return True, canon(const(k))
    return False, None


class Follow:
    "An initial value that follows another property"

    def __init__(self, name):
        self.name = name

    def value(self, context):
        return getattr(context, self.name)


def define(props):
    from colosseum import constants
    from colosseum.declaration import validated_property

    space = {}
    for p in props:
        choices = constants.Choices(*[const(k) for k in p["keywords"]], validators=[validator(v) for v in p["validators"]], explicit_defaulting_constants=list(p["defaulting"]))
        kind, spec = p["initial"]
        if kind == "value":
            initial = V.realize(spec)
        else:
            initial = (constants.OtherProperty if kind == "other" else Follow)(spec)
        space[p["name"]] = validated_property(p["name"], choices=choices, initial=initial)
    return type("Declared", (), space)


def custom(case, note):
    props = {p["name"]: p for p in case["props"]}
    initials = {}
    for p in case["props"]:
        kind, spec = p["initial"]
        if kind == "value":
            ok, c = decide(p, V.realize(spec))
            if not ok:
                try:
                    define([p])
                except ValueError:
                    note("invalid initial value")
                    return True
                require(False, f"a property with the values {listing(p)} was defined with the initial value {spec!r}")
            initials[p["name"]] = c
    cls = define(case["props"])
    objects = [cls() for _ in range(case["objects"])]
    models = [{} for _ in objects]

    def reading(i, name):
        if name in models[i]:
            return models[i][name]
        kind, spec = props[name]["initial"]
        return initials[name] if kind == "value" else reading(i, spec)

    def compare(what):
        for i, o in enumerate(objects):
            for name in props:
                got, want = canon(getattr(o, name)), reading(i, name)
                require(got == want, f"{what}: {name} of object {i} reads {got!r}, expected {want!r}")

    compare("new objects")
    accepted = rejected = False
    for step in case["steps"]:
        i, name = step["object"] % len(objects), case["props"][step["prop"] % len(case["props"])]["name"]
        o, p = objects[i], props[name]
        if step["op"] == "delete":
            delattr(o, name)
            models[i].pop(name, None)
            compare(f"deleted {name} of object {i}")
            continue
        value = V.realize(step["value"])
        what = f"{name} ({listing(p)}) of object {i} = {step['value']!r}"
        ok, c = decide(p, value)
        before = reading(i, name)
        o.dirty = "untouched"
        try:
            setattr(o, name, value)
        except ValueError as e:
            require(not ok, f"{what} was rejected: {e}")
            want = f"Invalid value '{value}' for CSS property '{name}'; Valid values are: {listing(p)}"
            require(str(e) == want, f"{what} was rejected with the text {str(e)!r}, expected {want!r}")
            require(o.dirty == "untouched", f"{what} was rejected, but the object is dirty")
            rejected = True
        else:
            require(ok, f"{what} was accepted, and reads {getattr(o, name)!r}")
            same = number(c) == number(before)
            # of equal numbers of different types (0, 0.0, 0px), either may be stored
            models[i][name] = canon(getattr(o, name)) if same and canon(getattr(o, name)) == before else c
            require(o.dirty is True or same, f"{what} did not make the object dirty")
            accepted = True
            note("accepted")
        compare(what)
    return accepted and rejected


def g_any(r):
    return r.weighted(
        (6, lambda r: r.choice(KEYWORDS)),
        (2, lambda r: r.choice([0, 1, 3, -1, 2.5, "7", "0", "-3", "2.5", "1e3", "101%", "12px", "5%", "50", "1.5em", "1px 2px", "rgb(1,2,3)", "url(a)", "url(a), auto", "rect(1px, 2px, 3px, 4px)", "'<' '>'"])),
        (2, lambda r: V.g_value(r, r.choice(["width", "color", "border_spacing", "clip", "quotes", "cursor", "orphans", "z_index"]))[0]),
        (2, lambda r: V.g_value(r, r.choice(V.LONGHANDS))[0]),
        (1, lambda r: r.choice(["", " ", "-", "AUTO", "Auto", " auto", "auto ", "autoauto", "un_set", "table_cell", "table cell", "None", "NONE", "%", "px", "x", "{}", "%s", "é"])),
    )


def g_validator(r):
    name = r.choice(sorted(VALIDATORS))
    if name in ("is_number", "is_integer") and r.maybe(0.4):
        lo, hi = r.choice([(0, None), (None, 10), (0, 10), (3, 3), (-5, 2)])
        return [name, lo, hi]
    return [name]


def custom_cases(r):
    props = []
    names = r.shuffled(NAMES)
    for i in r.many(1, 4, 0.6):
        keywords = r.sample(KEYWORDS, r.choice([0.2, 0.2, 0, 0.5]))
        if r.maybe(0.04):
            keywords += [f"keyword-{j}" for j in range(r.int(20, 300))]
        validators = [g_validator(r) for _ in r.many(0, 3, 0.5)]
        if not keywords and not validators:
            keywords = ["auto"]
        defaulting = r.sample(["initial", "inherit", "unset", "revert"], r.choice([0, 0, 0.5, 1]))
        if props and r.maybe(0.3):
            initial = [r.choice(["other", "follow"]), r.choice(props)["name"]]
        elif keywords and r.maybe(0.7):
            initial = ["value", r.choice(keywords)]
        else:
            initial = ["value", g_any(r)]
            p = {"keywords": keywords, "validators": validators, "defaulting": defaulting}
            if not r.maybe(0.1):
                for _ in range(8):
                    try:
                        if decide(p, V.realize(initial[1]))[0]:
                            break
                    except Exception:
                        pass
                    initial = ["value", g_any(r)]
        props.append({"name": names[i], "keywords": keywords, "validators": validators, "defaulting": defaulting, "initial": initial})
    steps = []
    for _ in r.many(1, 10, 0.8):
        prop = r.below(4)
        if r.maybe(0.1):
            steps.append({"op": "delete", "object": r.below(2), "prop": prop})
            continue
        p = props[prop % len(props)]
        value = r.choice(p["keywords"] + p["defaulting"]) if p["keywords"] + p["defaulting"] and r.maybe(0.4) else g_any(r)
        steps.append({"op": "set", "object": r.below(2), "prop": prop, "value": value})
    return {"props": props, "objects": r.choice([1, 2]), "steps": steps}


KINDS = {
    None: [], "len": ["<length>"], "len±": ["<length>"], "lenpct": ["<length>", "<percentage>"], "lenpct±": ["<length>", "<percentage>"], "int": ["<integer>"], "color": ["<color>"],
    "rect": ["<rect>"], "quotes": ["[<string> <string>]+"], "spacing": ["<length> <length>?"], "cursor": [CURSOR],
}


def alternatives(text):
    "The listed alternatives; the internal default of the colors is not one"
    text = text.replace(CURSOR, "<<cursor>>")
    out = [CURSOR if t == "<<cursor>>" else t for t in text.split(", ")]
    return [t for t in out if not t.startswith("<object object")]


def message(case, note):
    from colosseum.declaration import CSS

    name, value = case["name"], case["value"]
    keywords, kind, _ = V.PROPS[name]
    css, _ = C.make(case["prior"], case["where"])
    try:
        C.assign(css, name, value, case["via"])
    except ValueError as e:
        head, sep, rest = str(e).partition("; Valid values are: ")
        want = f"Invalid value '{value}' for CSS property '{name}'"
        require(sep and head == want, f"{name} = {value!r} was rejected with {str(e)!r}, expected {want!r}, and the alternatives")
        listed = alternatives(rest)
        require(listed == sorted(keywords + KINDS[kind]), f"the alternatives of {name} are listed as {rest!r}, expected {sorted(keywords + KINDS[kind])}")
        for t in listed:
            if t in keywords:
                setattr(CSS(), name, t)
        return True
    require(False, f"{name} = {value!r} was accepted")


def message_cases(r):
    return {
        "name": r.choice(V.LONGHANDS), "where": C.g_where(r), "prior": C.g_state(r, 0, 3), "via": r.choice(["attr", "item-", "item_", "update-", "update_"]),
        "value": r.one(lambda r: f"@{r.choice(KEYWORDS)}", lambda r: r.choice(["{}", "%s", "@", "no such value", "@;@", "1qq", "#12", "rgb(1)"]), lambda r: r.choice(V.CURSORS) + "@"),
    }


LAWS = [
    Law("custom", custom, custom_cases, quick=60000),
    Law("message", message, message_cases, quick=20000),
]
