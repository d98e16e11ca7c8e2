from vlib import css as C
from vlib import values as V
from vlib.base import Law, require

RULE = ("(a) Every property with every keyword of every property, complete: accepted and read back as the exported constant, or rejected; every property with arbitrary objects, complete: rejected. "
        "(b) Sequences of random valid values of every kind and notation, also ones that only differ in one component, through any interface on random prior declarations: reads as the canonical value, nothing else changes. (c) Values of another kind, malformed texts and corrupted valid values on random prior declarations: ValueError and no change at all. "
        "Non-trivial: (b) and (c) with at least one other property set before, (a) all.")
ASSUMPTIONS = [
    "not judged: negative lengths of properties that CSS restricts to non-negative ones, percentages where CSS only has lengths, upper case keywords, booleans, empty sequences of cursors",
]


def const(keyword):
    from colosseum import constants

    return None if keyword == "none" else getattr(constants, V.const_name(keyword))


PRIOR = [
    [],
    [["color", "red", ("rgb", 255, 0, 0, 1.0)], ["direction", "rtl", ("kw", "rtl")], ["margin_top", 5, ("len", 5.0, "px")]],
]


def keyword(case, note):
    name, word, prior, form = case["p"], case["k"], case["prior"], case["form"]
    css, model = C.make(PRIOR[prior])
    keywords, kind, _ = V.PROPS[name]
    valid = word in keywords or (kind == "cursor" and word in V.CURSORS)
    if form == "constant":
        value = const(word)
    else:
        value = "".join(list(word))
    before = C.observe(css)
    if not valid:
        C.rejects(lambda: setattr(css, name, value), f"{name}: {word}")
        C.unchanged(css, before, f"rejected {name}: {word}")
        note("rejected keyword")
        return True
    setattr(css, name, value)
    got = getattr(css, name)
    if kind == "cursor" and word != "inherit":
        require(V.canon(got) == ("cursor", (("kw", word),)), f"{name}: {word} reads {got!r}")
        model[name] = V.canon(got)
    else:
        require(got is const(word), f"{name}: {word} does not read as the exported constant, but as {got!r}")
        model[name] = V.kw(word)
    C.check_readings(css, model, f"{name}: {word}")
    note("accepted keyword")
    return True


def all_keywords():
    for name in V.LONGHANDS:
        for word in V.KEYWORDS:
            for prior in (0, 1):
                for form in ("text", "constant"):
                    yield {"p": name, "k": word, "prior": prior, "form": form}


BAD_TEXTS = ["", " ", "bogus", "12abc", "px", "%", "--1px", "1px2", "1..5px", "0x10", "#12", "#12345", "#ggg", "rgb(1,2)", "rgb(1,2,3", "hsl()", "rect(1px)", "rect()", "rect(1px 2px 3px",
             "'<'", "'<' '>' '{'", "url(", "none none", "1px 2px 3px", "initial initial", "\x00", "auto;", "a b c d", "1e", "e5", "nan", "infinity", "nanpx", "-infpx", "1,5px", "10 000 000x"]


def junk(case, note):
    name, what = case["p"], case["j"]
    css, model = C.make(PRIOR[1])
    before = C.observe(css)
    value = what[1] if what[0] == "text" else V.realize(["junk", what[1]])
    C.rejects(lambda: setattr(css, name, value), f"{name}: {value!r}")
    C.unchanged(css, before, f"rejected {name}: {value!r}")
    note("rejected object" if what[0] == "junk" else "rejected text")
    return True


def misspelt(name):
    "Texts similar to keywords of a property"
    keywords, kind, _ = V.PROPS[name]
    words = list(keywords) + (V.CURSORS if kind == "cursor" else [])
    texts = []
    for w in words:
        texts += [w.replace("-", "_"), w.replace("-", ""), w.replace("-", " "), w.replace("-", "--"), w[:-1], w[1:], w + "s", w + w, "-" + w, w[::-1], w + "-" + w, w + " " + w, f"'{w}'", f'"{w}"']
    return sorted({t for t in texts if t not in words and t not in V.NAMED})


def all_junk():
    for name in V.LONGHANDS:
        kind = V.PROPS[name][1]
        for what in sorted(V.JUNK):
            if (what, kind) in (("huge", "int"), ("listauto", "quotes")):
                continue
            yield {"p": name, "j": ["junk", what]}
        for text in BAD_TEXTS + misspelt(name):
            yield {"p": name, "j": ["text", text]}
        if "none" not in V.PROPS[name][0]:
            yield {"p": name, "j": ["text", None]}


def none(case, note):
    "None is the keyword none (but in an update)"
    css, model = C.make(PRIOR[case["prior"]])
    name = case["p"]
    for word in [None] + [w for w in V.PROPS[name][0] if w != "none"][:2]:
        if word:
            setattr(css, name, word)
        C.assign(css, name, None, case["via"])
        model[name] = None
        require(getattr(css, name) is None, f"{name}: None reads {getattr(css, name)!r}")
        C.check_readings(css, model, f"{name}: None")
    return True


def all_none():
    for name in V.LONGHANDS:
        if "none" in V.PROPS[name][0]:
            for prior in (0, 1):
                for via in ("attr", "item-", "item_"):
                    yield {"p": name, "prior": prior, "via": via}


def valid(case, note):
    css, model = C.make(case["prior"], case["where"])
    name = case["p"]
    C.check_readings(css, model, "prior declaration")
    for spec, c, via in case["values"]:
        C.assign(css, name, V.realize(spec), via)
        model[name] = V.tup(c)
        C.check_readings(css, model, f"after {name}: {spec!r}")
    # what is read can be assigned again
    setattr(css, name, getattr(css, name))
    C.check_readings(css, model, f"after assigning {name} to itself")
    note(f"valid {V.PROPS[name][1] or 'keyword'}")
    return bool(case["prior"])


def valid_case(r):
    prior = C.g_state(r)
    # properties with a structured or numeric kind are more interesting than keyword-only ones
    name = r.weighted((3, lambda r: r.choice([p for p in V.LONGHANDS if V.PROPS[p][1]])), (1, lambda r: r.choice(V.LONGHANDS)),
                      (2, lambda r: r.choice(["clip", "quotes", "border_spacing", "cursor", "z_index", "color", "outline_color"])))
    values = [[*V.g_value(r, name), r.choice(C.VIAS)]]
    for _ in r.many(0, 3, 0.4):
        values.append([*(V.g_near(r, name, values[-1][1]) if r.maybe(0.7) else V.g_value(r, name)), r.choice(C.VIAS)])
    return {"prior": prior, "p": name, "values": values, "where": C.g_where(r)}


def invalid(case, note):
    css, model = C.make(case["prior"])
    name, spec = case["p"], case["v"]
    before = C.observe(css)
    value = V.realize(spec)
    C.rejects(lambda: C.assign(css, name, value, case["via"]), f"{name}: {value!r}")
    C.unchanged(css, before, f"rejected {name}: {value!r}")
    note(case["why"])
    return bool(case["prior"])


KINDS = ["len", "lenpct", "int", "color", "rect", "quotes", "spacing", "cursor"]


def group(kind):
    return None if kind is None else kind.rstrip("±")


def compatible(value, prop):
    "May a value of one kind be valid for a property of another?"
    if value == prop or value is None:
        return True
    numbers = ("len", "lenpct", "int")
    if value in numbers and prop in numbers + ("spacing",):
        return True
    if value == "spacing" and prop in numbers:
        return True
    return False


def corrupt(r, text):
    i = r.below(len(text) + 1)
    return text[:i] + r.choice(["~", "!", "z", "@", "$"]) + text[i:]


def invalid_case(r):
    return {**bad_value(r), "via": r.choice(C.VIAS)}


def bad_value(r):
    prior = C.g_state(r)
    # mostly a property that is set before
    name = r.choice([x[0] for x in prior]) if prior and r.maybe(0.4) else r.choice(V.LONGHANDS)
    kind = group(V.PROPS[name][1])
    if kind in ("len", "lenpct", "int", "color", "rect", "spacing") and r.maybe(0.6):
        for _ in range(8):
            spec, _ = V.g_other(r, V.PROPS[name][1])
            if isinstance(spec, str):
                bad = corrupt(r, spec)
                if bad.lower() not in V.NAMED:
                    return {"prior": prior, "p": name, "v": bad, "why": "corrupted " + kind}
    others = [k for k in KINDS if not compatible(k, kind)]
    if others and r.maybe(0.7):
        k = r.choice(others)
        spec, _ = V.g_other(r, k)
        if not (kind == "quotes" and isinstance(spec, list) and spec[0] in ("list", "tuple")) and spec not in V.PROPS[name][0]:
            return {"prior": prior, "p": name, "v": spec, "why": f"{k} for {kind or 'keywords'}"}
    word = "".join(r.choice("abcdefghijklmnopqrstuvwxyz-_ 0123456789%#()',\"") for _ in r.many(1, 12, 0.8))
    return {"prior": prior, "p": name, "v": "~" + word, "why": "random text"}


# ---------------------------------------------------------------- anything at all
SOUP = ["[", "]", "{", "}", "(", ")", "'", '"', "'a'", '"b"', "[]", "{}", "{[]}", "{{}}", "()", ",", ":", ";", "\\", "\\x", "\\N{}", "\n", "\t", "\x00", "\u00a0", "\u2003", "é", "１", "-", "+", "*", "/", ".", "..", "...", "_", "=", "#", "%", "!", "@", "&",
        "1", "0", "12", "-3", "1.5", "1e9", "1e999", "1j", "0x1f", "0b1", "1_0", "nan", "inf", "-inf", "None", "True", "none", "auto", "red", "RED", "transparent", "invert", "solid", "thin", "px", "em", "vmin", "deg", "1px", "-2em", "50%", "1px 2px", "#123", "#12345678",
        "rgb(", "rgba(1,2,3,", "hsl(1,2%,3%)", "hsla(", "rect(", "rect(1px 2px 3px 4px)", "url(", "url(a)", "url('a')", "pointer", "initial", "inherit", "b'a'", "f'a'", "r'a'", "lambda:0", "a if b else c", "'a' 'b'", "' '", "''", "{'a':1}", "[1,2]", "*a", "**a", "a=1", " ", "  ", " "]
NESTED = [None, 0, 1, -1, 1.5, True, "", ["list"], ["tuple"], ["junk", "object"], ["junk", "dict"], ["junk", "set"], ["junk", "bytes"], ["junk", "nan"], ["junk", "inf"], ["junk", "huge"], ["unit", 1, "px"], ["unit", -2, "%"], ["junk", "angle"], ["rgb", 1, 2, 3], ["uri", "a"],
          ["quotes", ["<", ">"]], ["cursor", "auto"], ["rect", ["unit", 1, "px"], ["unit", 1, "px"], ["unit", 1, "px"], ["unit", 1, "px"]], ["spacing", ["unit", 1, "px"]]]
FAMILY = {"border": [p for p in V.LONGHANDS if p.startswith("border_") and p.endswith(("_width", "_style", "_color"))], "outline": ["outline_color", "outline_style", "outline_width"]}
FAMILY.update({f"border_{s}": [f"border_{s}_{p}" for p in ("width", "style", "color")] for s in ("top", "right", "bottom", "left")})
FAMILY.update({n: [n.replace("_", f"_{s}_") if "_" in n else f"{n}_{s}" for s in ("top", "right", "bottom", "left")] for n in ("margin", "padding", "border_width", "border_style", "border_color")})


def soup(case, note):
    "Whatever is assigned is stored as a value of the property, or raises ValueError and changes nothing"
    css, model = C.make(case["prior"])
    name, value = case["p"], V.realize(case["v"])
    before = C.observe(css)
    try:
        setattr(css, name, value)
    except ValueError:
        C.unchanged(css, before, f"rejected {name}: {value!r}")
        note("rejected")
        return isinstance(value, (str, list, tuple)) and len(value) > 1
    mine = FAMILY.get(name, [name])
    for p in V.LONGHANDS:
        got = V.canon(getattr(css, p))
        if p in mine:
            require(got is None or isinstance(got, tuple), f"{name}: {value!r} was accepted, and reads {getattr(css, p)!r}")
            if got == ("default",):
                # not set, nor is the color
                continue
            setattr(css, p, getattr(css, p))
            again = V.canon(getattr(css, p))
            require(again == got, f"{p}: {value!r} reads {got!r}, and {again!r} after assigning that")
        elif "color" not in p and p != "text_align":
            want = V.reading(p, model)
            require(got == want, f"{name}: {value!r} changed {p} from {want!r} to {got!r}")
    str(css), css.copy(), css.keys(), css.items()
    note("accepted")
    return True


def g_soup(r, depth=0):
    kind = r.below(8)
    if kind < 5:
        return r.choice(["", "", " ", ","]).join(r.choice(SOUP) for _ in r.many(1, 8, 0.65))
    if kind == 5 or depth > 2:
        return r.choice(NESTED)
    return [r.choice(["list", "tuple"]), *(g_soup(r, depth + 1) for _ in r.many(0, 5, 0.6))]


def soup_case(r):
    name = r.weighted((4, lambda r: r.choice(["clip", "quotes", "border_spacing", "cursor", "z_index", "color", "outline_color", "width"])), (3, lambda r: r.choice(sorted(FAMILY))), (3, lambda r: r.choice(V.LONGHANDS)))
    return {"prior": C.g_state(r), "p": name, "v": g_soup(r)}


LAWS = [
    Law("soup", soup, soup_case, quick=40000),
    Law("keyword", keyword, exhaustive=all_keywords),
    Law("junk", junk, exhaustive=all_junk),
    Law("none", none, exhaustive=all_none),
    Law("valid", valid, valid_case, quick=30000),
    Law("invalid", invalid, invalid_case, quick=24000),
]
