import copy

from vlib import values as V
from vlib.base import Law, require

RULE = ("(a) Pairs of values of all kinds (lengths, angles, colors, rectangles, spacings, quotes, URLs, cursor lists), written in any notation, the second one the same, different in one part, different in the order of its parts, or of another kind. "
        "Their equality is compared with that of their parts, and must be symmetric, reflexive and the opposite of inequality; so must that of their texts. (b) Border and outline shorthands with the same or different parts. "
        "(c) Parsed lists with the same members, or with one more, fewer, changed or moved. (d) Values against objects of any other type, and copies of values. Non-trivial: two distinct objects of the same kind.")
ASSUMPTIONS = [
    "colors, URLs and border spacings have no equality of their own: two of them may be unequal although their parts are the same, but not the other way round",
    "a length in pixels equals an int of the same amount; a parsed list equals a list with equal members; otherwise values of different kinds are different",
    "texts of HSL colors are compared up to twelve digits, and those of border spacings by both directions only if written",
]
WITHOUT = ("rgb", "hsl", "uri", "spacing")
ANGLES = ["deg", "grad", "rad", "turn"]


def has_equality(c):
    return c[0] not in WITHOUT and not (c[0] == "cursor" and any(p[0] == "uri" for p in c[1]))


def parse(kind, value):
    from colosseum import parser

    value = V.realize(value)
    if kind in ("len", "angle"):
        return parser.units(value) if kind == "len" else value
    fn = {"rgb": "color", "hsl": "color", "rect": "rect", "spacing": "border_spacing", "quotes": "quotes", "uri": "uri", "cursor": "cursor"}[kind]
    return getattr(parser, fn)(value)


def canon(value):
    from colosseum import units

    if isinstance(value, units.AngleUnit):
        return ("angle", float(value.val), value.suffix)
    return V.canon(value)


def symmetric(a, b, what):
    eq = a == b
    require(isinstance(eq, bool), f"{what}: == gives {eq!r}")
    require((b == a) is eq, f"{what}: == is {eq} one way, and {b == a} the other way")
    require((a != b) is (not eq), f"{what}: == is {eq}, and != is {a != b}")
    return eq


def pair(case, note):
    a, b = (parse(k, s) for k, s in case["values"])
    x, y = canon(a), canon(b)
    what = f"{a!r} and {b!r}"
    for v in (a, b):
        require(symmetric(v, v, f"{v!r} and itself"), f"{v!r} is not equal to itself")
    eq = symmetric(a, b, what)
    if eq or (has_equality(x) and has_equality(y)):
        require(eq is (x == y), f"{what}: == is {eq}, but the parts are {x} and {y}")
    require(canon(a) == x and canon(b) == y, f"{what}: comparing changed them")
    if x[0] == y[0]:
        same = x == y
        require((repr(a) == repr(b)) is same or x[0] == "spacing", f"{what}: the parts are {x} and {y}, the representations {repr(a)!r} and {repr(b)!r}")
        if x[0] not in ("hsl", "spacing") or same and x[0] == "hsl":
            require((str(a) == str(b)) is same, f"{what}: the parts are {x} and {y}, the texts {str(a)!r} and {str(b)!r}")
        if x[0] == "spacing" and not same:
            require(str(a) != str(b) and repr(a) != repr(b), f"{what}: the parts are {x} and {y}, the texts {str(a)!r} and {str(b)!r}")
        note(f"{x[0]} {'same' if same else 'different'}")
        return True
    note("other kind")
    return False


def g_canon(r):
    kind = r.choice(["len", "len", "angle", "rgb", "hsl", "rect", "spacing", "quotes", "uri", "cursor"])
    if kind == "angle":
        a, u = r.one(lambda r: r.int(-400, 400), lambda r: r.int(-4000, 4000) / 8, lambda r: r.choice([0, 0, 1, 90, 9, 10, 360, 400])), r.choice(ANGLES)
        return kind, ["unit", a, u], ("angle", float(a), u)
    if kind == "len":
        spec, c = V.g_length(r, True, True)
        return kind, spec, V.tup(c)
    if kind in ("rgb", "hsl"):
        for _ in range(4):
            spec, c = V.g_color(r)
            if c[0] in ("rgb", "hsl"):
                return c[0], spec, V.tup(c)
        return "rgb", "#123456", ("rgb", 0x12, 0x34, 0x56, 1.0)
    spec, c = {"rect": V.g_rect, "spacing": V.g_spacing, "quotes": V.g_quotes, "uri": V.g_uri, "cursor": V.g_cursor}[kind](r)
    return kind, spec, V.tup(c)


def pair_case(r):
    kind, spec, c = g_canon(r)
    how = r.weighted((3, "same"), (6, "near"), (2, "other"))
    if how == "other":
        k2, s2, _ = g_canon(r)
        return {"values": [[kind, spec], [k2, s2]]}
    other = c
    if how == "near":
        if kind == "angle":
            degrees = {"deg": 1, "grad": 0.9, "rad": 57.29577951308232, "turn": 360}
            u = r.choice(ANGLES)
            other = ("angle", *r.choice([(c[1] * degrees[c[2]] / degrees[u], u), (c[1], r.choice(ANGLES)), (c[1] + 1, c[2]), (-c[1], c[2]), (c[1] + 2**-20, c[2])]))
        elif kind == "uri":
            other = ("uri", V.near_url(r, c[1]))
        else:
            other = V.near(r, c) or c
    if kind == "angle":
        s2 = ["unit", other[1], other[2]]
    elif kind == "uri":
        s2 = ["uri", other[1]]
    else:
        s2 = V.spec_of(r, other)
    return {"values": [[kind, spec], [kind, s2]]}


# ---------------------------------------------------------------- shorthands
NAMES = ["border_top", "border_right", "border_bottom", "border_left", "outline"]
PARTS = {"width": [0, 1, 2, "thin", "1em", "1.5px"], "style": ["none", "solid", "dotted"]}


def shorthand(case, note):
    from colosseum.declaration import CSS

    values, parts = [], []
    for name, given in zip(case["names"], case["parts"]):
        css = CSS()
        for p, v in given.items():
            setattr(css, f"{name}_{p}", v)
        values.append(getattr(css, name))
        parts.append((name, {p: V.canon(getattr(css, f"{name}_{p}")) for p in given if f"{name}_{p}" in css.keys()}))
    a, b = values
    what = f"{a!r} ({case['names'][0]}) and {b!r} ({case['names'][1]})"
    eq = symmetric(a, b, what)
    empty = not parts[0][1] and not parts[1][1]
    want = empty or parts[0] == parts[1]
    require(eq is want, f"{what}: == is {eq}, but the parts are {parts}")
    if case["names"][0] == case["names"][1]:
        require((str(a) == str(b)) is want, f"{what}: the parts are {parts}, the texts {str(a)!r} and {str(b)!r}")
        require((repr(a) == repr(b)) is want, f"{what}: the parts are {parts}, the representations {a!r} and {b!r}")
    return True


def shorthand_case(r):
    name = r.choice(NAMES)
    given = {p: r.choice(PARTS[p]) for p in PARTS if r.maybe(0.7)}
    other = dict(given)
    for _ in r.many(0, 2, 0.5):
        p = r.choice(sorted(PARTS))
        if r.maybe(0.3):
            other.pop(p, None)
        else:
            other[p] = r.choice(PARTS[p])
    return {"names": [name, name if r.maybe(0.8) else r.choice(NAMES)], "parts": [given, other]}


def direct(case, note):
    "Shorthand values made without a declaration"
    from colosseum import wrappers

    values = []
    for given in case["parts"]:
        values.append(getattr(wrappers, case["kind"])(**{case["prefix"] + "_" + p: V.realize(v) for p, v in given}))
    a, b = values
    parts = [{p: V.realize(v) for p, v in given} for given in case["parts"]]
    what = f"{a!r} and {b!r}"
    for v in values:
        require(symmetric(v, v, what), f"{v!r} is not equal to itself")
    eq = symmetric(a, b, what)
    want = parts[0] == parts[1]
    require(eq is want, f"{what}: == is {eq}, but the parts are {parts}")
    for v, given in zip(values, parts):
        got = v.to_dict()
        require(dict(got) == {case["prefix"] + "_" + p: x for p, x in given.items()}, f"{v!r}: made of {given}, but to_dict() is {dict(got)}")
        got.clear()
        require(dict(v.to_dict()) == {case["prefix"] + "_" + p: x for p, x in given.items()}, f"{v!r}: changed by what was done with the result of to_dict()")
    if [sorted((p, repr(V.realize(v))) for p, v in given) for given in case["parts"]][0] == [sorted((p, repr(V.realize(v))) for p, v in given) for given in case["parts"]][1]:
        require(str(a) == str(b) and repr(a) == repr(b), f"{what}: the parts are the same, the texts {str(a)!r} and {str(b)!r}")
    elif not want:
        require(repr(a) != repr(b), f"{what}: the representations are the same")
        texts = [{p: "none" if x is None else str(x) for p, x in given.items()} for given in parts]
        if texts[0].keys() == texts[1].keys() and texts[0] != texts[1]:
            require(str(a) != str(b), f"{what}: the parts are different, but both texts are {str(a)!r}")
    return True


DIRECT = {"Outline": "outline", "BorderTop": "border_top", "BorderRight": "border_right", "BorderBottom": "border_bottom", "BorderLeft": "border_left", "Border": "border"}
DIRECT_PARTS = {"width": [0, 1, None, ["unit", 1, "px"], ["unit", 2, "px"], ["unit", 1, "em"], "thin", "thick"], "style": ["solid", "dotted", None, "hidden"], "color": ["red", "invert", None, "#123"]}


def direct_case(r):
    kind = r.choice(sorted(DIRECT))
    names = r.choice([["width", "style", "color"], ["color", "style", "width"], ["style", "width", "color"]])
    given = [[p, r.choice(DIRECT_PARTS[p])] for p in names if r.maybe(0.75)]
    other = [[p, v if r.maybe(0.7) else r.choice(DIRECT_PARTS[p])] for p, v in given if r.maybe(0.9)]
    if r.maybe(0.5):
        other = other[::-1]
    return {"kind": kind, "prefix": DIRECT[kind], "parts": [given, other]}


# ---------------------------------------------------------------- objects of other types
def stranger(case, note):
    kind, spec = case["value"]
    a = parse(kind, spec)
    x = canon(a)
    other = V.realize(case["other"])
    eq = symmetric(a, other, f"{a!r} and {other!r}")
    if isinstance(other, int) and not isinstance(other, bool) and x[0] == "len" and x[2] == "px":
        require(eq is (x[1] == other), f"{a!r} == {other!r} is {eq}")
    elif x[0] == "cursor" and isinstance(other, list):
        require(eq is (list(a) == other), f"{a!r} == {other!r} is {eq}")
    else:
        require(eq is False, f"{a!r} == {other!r}")
    for dup in (copy.copy(a), copy.deepcopy(a)):
        require(canon(dup) == x and canon(a) == x, f"the parts of {a!r} are {x}, and those of a copy {canon(dup)}")
        if has_equality(x):
            require(symmetric(a, dup, f"{a!r} and a copy"), f"{a!r} is not equal to a copy of it")
    note(type(other).__name__)
    return True


def stranger_case(r):
    kind, spec, c = g_canon(r)
    other = r.one(lambda r: ["junk", r.choice(sorted(j for j in V.JUNK if not j.startswith("angle")))], None, lambda r: r.int(-3, 60), "", "auto", "1px", ["list", "auto"], ["tuple", "auto"],
                  lambda r: int(c[1]) if kind == "len" else 0, lambda r: spec if isinstance(spec, str) else "x", lambda r: ["list", *(p[1] for p in c[1])] if kind == "cursor" else ["list"])
    return {"value": [kind, spec], "other": other}


# ---------------------------------------------------------------- lists
LISTS = ["ImmutableList", "Cursor", "list"]


def lists(case, note):
    from colosseum import wrappers

    (ka, ia), (kb, ib) = case["lists"]
    ia, ib = [V.realize(x) for x in ia], [V.realize(x) for x in ib]
    a, b = (getattr(wrappers, k, list)(list(i)) for k, i in ((ka, ia), (kb, ib)))
    what = f"{ka} of {ia} and {kb} of {ib}"
    eq = symmetric(a, b, what)
    require(eq is (len(ia) == len(ib) and all(x == y for x, y in zip(ia, ib))), f"{what}: == is {eq}")
    require(list(a) == ia and list(b) == ib, f"{what}: comparing changed them")
    if ka == kb:
        require((repr(a) == repr(b)) is ([repr(x) for x in ia] == [repr(x) for x in ib]), f"{what}: the representations are {a!r} and {b!r}")
        if not eq:
            require(str(a) != str(b), f"{what}: both texts are {str(a)!r}")
    note(f"{'equal' if eq else 'different'}")
    return bool(ia and ib)


def lists_case(r):
    members = ["auto", "move", "help", "wait", "text", ["unit", 1, "px"], ["unit", 1, "em"], ["unit", 2, "px"]]
    ia = [r.choice(members) for _ in r.many(0, 4, 0.7)]
    ib = list(ia)
    for _ in r.many(0, 2, 0.6):
        how = r.int(0, 4)
        if how == 0:
            ib = ib + ib[-1:]
        elif how == 1:
            ib = ib[:-1]
        elif how == 2:
            ib = ib[::-1]
        elif how == 3 and ib:
            k = r.int(0, len(ib) - 1)
            ib = ib[:k] + [r.choice(members)] + ib[k + 1:]
        else:
            k = r.int(0, len(ib))
            ib = ib[:k] + [r.choice(members)] + ib[k:]
    return {"lists": [[r.choice(LISTS[:2]), ia], [r.choice(LISTS), ib]]}


LAWS = [
    Law("lists", lists, lists_case, quick=10000),
    Law("pair", pair, pair_case, quick=60000),
    Law("shorthand", shorthand, shorthand_case, quick=10000),
    Law("direct", direct, direct_case, quick=10000),
    Law("stranger", stranger, stranger_case, quick=20000),
]
