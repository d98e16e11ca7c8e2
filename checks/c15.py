from vlib import css as C
from vlib import values as V
from vlib.base import Law, require

RULE = ("Random prior declarations, then border, border-<side> and outline shorthands assigned any subset of width, style and color in any order, as text or as a list or tuple of texts or parsed values, through any interface; deletions and rejected values in between, up to 5 steps. "
        "All longhands and shorthands are compared with a model, and the text of each shorthand is assigned to another declaration; after a rejection nothing may have changed. Non-trivial: a shorthand assigned over a declaration that has one of its longhands set, or a rejection.")
ASSUMPTIONS = [
    "reading the four-sided border shorthand is not judged (it reads as empty in the repository)",
    "inherit, initial, unset and revert do not occur in shorthands; the order of the longhands read from a shorthand is not judged",
    "a shorthand reads exactly the longhands keys() lists",
]
NAMES = sorted(V.SHORTHAND)
PARTS = ("width", "style", "color")
GLOBAL = ("inherit", "initial", "unset", "revert")


def longhands(name, part):
    return [x for x in V.SHORTHAND[name] if x.endswith("_" + part)]


def check(case, note):
    css, model = C.make(case["prior"], case["where"])
    nontrivial = False
    for op in case["ops"]:
        kind, via, name = op[:3]
        what = f"after {op!r}"
        if kind == "delete":
            C.delete(css, name, via)
            for x in V.SHORTHAND[name]:
                model.pop(x, None)
            note("delete")
        elif kind == "side":
            C.assign(css, name, V.realize(op[3]), via)
            model[name] = V.tup(op[4])
        elif kind == "set":
            nontrivial |= any(x in model for x in V.SHORTHAND[name])
            C.assign(css, name, V.realize(op[3]), via)
            given = dict((p, V.tup(c)) for p, c in op[4])
            for part in PARTS:
                for x in longhands(name, part):
                    if part in given:
                        model[x] = given[part]
                    else:
                        model.pop(x, None)
            note(f"{len(given)} parts" + (" text" if isinstance(op[3], str) else " sequence"))
        else:
            before = C.observe(css)
            value = V.realize(op[3])
            C.rejects(lambda: C.assign(css, name, value, via), f"{name}: {value!r}")
            C.unchanged(css, before, what)
            nontrivial = True
            note("rejected: " + op[4])
        C.check_readings(css, model, what)
        C.check_keys(css, model, what)
        keys = css.keys()
        for s in NAMES:
            if s == "border":
                continue
            got = getattr(css, s)
            listed = {x for x in V.SHORTHAND[s] if x in keys}
            if not listed:
                require(not got, f"{what}: {s} reads {got!r} without longhands")
                continue
            values = {k: V.canon(v) for k, v in got.to_dict().items()}
            want = {x: V.reading(x, model) for x in listed}
            require(values == want, f"{what}: {s} reads {values!r}, expected {want!r}")
            for x in listed:
                require(V.canon(getattr(got, x)) == want[x], f"{what}: {x} of {s} reads {getattr(got, x)!r}")
            other = {x: getattr(css, x) for x in listed}
            require(got == type(got)(**other) and got != s and got != other, f"{what}: {s} reads {got!r}, which is not equal to one with the same longhands, or equal to something else")
            for t in NAMES:
                require(t in (s, "border") or getattr(css, t) != got, f"{what}: {s} and {t} are equal")
            if not any(c is not None and c[0] == "kw" and c[1] in GLOBAL for c in want.values()):
                # the text of a shorthand can be assigned
                text = str(got)
                new = type(css)()
                setattr(new, s, text)
                values = {x: V.canon(getattr(new, x)) for x in new.keys()}
                require(values == {x: v for x, v in want.items() if x in values or v != V.initial(x, {})}, f"{what}: {text!r}, the text of {s}, reads {values!r}, expected {want!r}")
                note("text round trip")
    C.probe(css, model, "at the end")
    return nontrivial


def g_part(r, name, part):
    "(spec, canonical) of one part, as it can be written in a text (if it is a text)"
    x = longhands(name, part)[0]
    while True:
        spec, c = V.g_value(r, x)
        if spec in GLOBAL:
            continue
        return spec, c


def as_word(spec, c):
    "The part as a single word of a text, or None"
    if isinstance(spec, str):
        return spec
    if isinstance(spec, (int, float)):
        return V.gen.fmt(spec)
    return None


def g_set(r, name):
    order = [p for p in r.shuffled(PARTS) if r.maybe(0.7)]
    if not order:
        order = [r.choice(PARTS)]
    parts = [(p,) + tuple(g_part(r, name, p)) for p in order]
    words = [as_word(s, c) for _, s, c in parts]
    given = [[p, c] for p, _, c in parts]
    if None not in words and r.maybe(0.6):
        sep = r.choice([" ", " ", "  "])
        return sep.join(words), given
    return [r.choice(["list", "tuple"])] + [s for _, s, c in parts], given


def g_op(r):
    name = r.choice(NAMES)
    via = r.choice(C.VIAS)
    kind = r.weighted((6, "set"), (1, "delete"), (2, "side"), (4, "reject"))
    if kind == "delete":
        return ["delete", via, name]
    if kind == "side":
        x = r.choice(V.SHORTHAND[name])
        return ["side", via, x, *V.g_value(r, x)]
    if kind == "set":
        return ["set", via, name, *g_set(r, name)]
    why = r.choice(["duplicate", "unknown", "empty", "too many", "object"])
    if why == "empty":
        spec = r.choice(["", ["list"], ["tuple"]])
    elif why == "object":
        spec = ["junk", r.choice(["object", "fulldict", "set", "opaque", "type", "listauto", "nested", "pxset1", "pxdict1"])]
    else:
        part = r.choice(PARTS)
        a, b = g_part(r, name, part)[0], g_part(r, name, part)[0]
        seq = [a]
        if why == "duplicate":
            if r.maybe(0.4):
                other = r.choice([p for p in PARTS if p != part])
                seq.append(g_part(r, name, other)[0])
            seq.insert(r.below(len(seq) + 1), b)
        elif why == "unknown":
            seq.insert(r.below(2), r.choice(["bogus", "~1px", "12abc", "#12", ["junk", "object"]]))
            if r.maybe(0.3):
                seq = [x for x in seq if x is not a]
        else:
            seq = [g_part(r, name, p)[0] for p in r.shuffled(PARTS)]
            seq.insert(r.below(4), r.choice([a, "bogus"]))
        words = [as_word(s, None) for s in seq]
        spec = " ".join(words) if None not in words and r.maybe(0.5) else ["list", *seq]
    return ["reject", via, name, spec, why]


def cases(r):
    names = [x for s in NAMES for x in V.SHORTHAND[s]] + ["color"]
    return {"where": C.g_where(r), "prior": C.g_state(r, 0, 8, names), "ops": [g_op(r) for _ in r.many(1, 5, 0.6)]}


LAWS = [Law("shorthand", check, cases, quick=50000)]
