from vlib import css as C
from vlib import gen
from vlib import values as V
from vlib.base import Law, require

RULE = ("(a) z-index, orphans and widows assigned integers of any size and sign, as int, text or integral float, and other texts and objects: stored exactly, or rejected without change. "
        "(b) is_number and is_integer with random inclusive ranges (one or both ends, also zero, negative and empty ones) and values at, next to and away from the ends, as numbers or texts: accepted with exactly that value, or rejected. "
        "(c) is_percentage with percentages of both signs, other lengths, texts and objects. Non-trivial: (a) values of two or more digits and rejections, (b) a value within 1 of an end.")
ASSUMPTIONS = ["not judged: fractional numbers where an integer is expected, booleans, not-a-number, texts with white space, underscores or digits outside ASCII"]
NAMES = ["z_index", "orphans", "widows"]


def integer(case, note):
    from colosseum.declaration import CSS

    name, n = case["p"], case["n"]
    css = CSS()
    if case["old"] is not None:
        setattr(css, name, case["old"])
    value = {"int": n, "text": str(n), "plus": f"+{n}" if n >= 0 else str(n), "float": float(n), "zeros": ("-" if n < 0 else "") + "00" + str(abs(n))}[case["f"]]
    setattr(css, name, value)
    got = getattr(css, name)
    require(isinstance(got, int) and not isinstance(got, bool) and got == n, f"{name}: {value!r} reads {got!r}")
    note(case["f"])
    return abs(n) > 9


def g_int(r):
    return r.weighted((3, lambda r: r.int(-20, 20)), (3, lambda r: r.int(-(10 ** 6), 10 ** 6)), (1, lambda r: r.int(-(1 << 53), 1 << 53)), (1, lambda r: r.int(-(10 ** 30), 10 ** 30)), (1, lambda r: r.choice([0, -1, 1, 2 ** 31 - 1, -2 ** 31, 2 ** 32])))


def integer_case(r):
    n = g_int(r)
    return {"p": r.choice(NAMES), "n": n, "f": r.choice(["int", "text", "plus", "zeros"] + ["float"] * (abs(n) <= 1 << 53)), "old": r.one(None, lambda r: r.int(-9, 9))}


def bad(case, note):
    from colosseum.declaration import CSS

    name = case["p"]
    css = CSS()
    if case["old"] is not None:
        setattr(css, name, case["old"])
    before = C.observe(css)
    value = V.realize(case["v"])
    C.rejects(lambda: setattr(css, name, value), f"{name}: {value!r}")
    C.unchanged(css, before, f"rejected {name}: {value!r}")
    note("rejected")
    return True


def bad_case(r):
    n = r.int(0, 9999)
    kind = r.below(5)
    if kind == 0:
        v = r.choice(["", "-", "+", "px", "auto1", "none", "bogus", "two", "nan", "inf", "0x1F", "1e3", "1.5", "--1", "1-", "1,000", "12a", "#1", "(1)", "normal"])
    elif kind == 1:
        v = f"{n}{r.choice(['px', '%', '.5', '.0', '.', 'e1', 'e0', ',', '-', ';', 'em', 'a', '!', '/2'])}"
    elif kind == 2:
        v = f"{r.choice(['a', '#', '.', '--', '+-', '$', '('])}{n}"
    elif kind == 3:
        v = ["junk", r.choice([j for j in sorted(V.JUNK) if j != "huge"])]
    else:
        v = r.choice([["list"], ["list", n], ["tuple", n], ["unit", n, "px"], ["rgb", 1, 2, 3], ["const", "HIDDEN"], ["const", "THIN"], None])
    return {"p": r.choice(NAMES), "v": v, "old": r.one(None, lambda r: r.int(-9, 9))}


def rng(case, note):
    from colosseum import validators

    lo, hi, v = case["lo"], case["hi"], case["v"]
    kw = {k: x for k, x in (("min_value", lo), ("max_value", hi)) if x is not None}
    number = case["t"] == "number"
    validate = (validators.is_number if number else validators.is_integer)
    value = (repr(v) if number else str(v)) if case["text"] else v
    call = (lambda: validate(**kw)(value)) if kw else (lambda: validate(value))
    ok = (lo is None or v >= lo) and (hi is None or v <= hi)
    what = f"is_{case['t']}({kw})({value!r})"
    if ok:
        got = call()
        require(got == v and isinstance(got, float if number else int), f"{what} gives {got!r}")
        # the validator can be used again
        require(not kw or call() == v, f"{what} differs the second time")
        note("accepted")
    else:
        C.rejects(call, what)
        note("below" if lo is not None and v < lo else "above")
    return any(x is not None and abs(x - v) <= 1 for x in (lo, hi))


def rng_case(r):
    t = r.choice(["number", "integer"])
    step = 1
    if t == "number":
        g = lambda r: r.weighted((2, lambda r: r.int(-20, 20)), (2, lambda r: r.int(-200, 200) / 8), (1, lambda r: round(r.int(-1000, 1000) / 100, 2)))  # noqa: E731
        step = r.choice([1, 0.5, 1e-9, 0.01])
    else:
        g = lambda r: r.weighted((3, lambda r: r.int(-20, 20)), (1, lambda r: r.int(-10 ** 6, 10 ** 6)))  # noqa: E731
    ends = r.below(4)
    lo = g(r) if ends in (1, 3) else None
    hi = g(r) if ends in (2, 3) else None
    if r.maybe(0.15) and lo is not None:
        lo = 0
    if r.maybe(0.15) and hi is not None:
        hi = 0
    if lo is not None and hi is not None and lo > hi and r.maybe(0.8):
        lo, hi = hi, lo
    if t == "integer" and r.maybe(0.2):
        # ends that are no integers themselves
        lo, hi = (None if x is None else x + r.choice([0.5, -0.5, 0.25, 0.0]) for x in (lo, hi))
    base = [x for x in (lo, hi) if x is not None]
    if base and r.maybe(0.75):
        v = r.choice(base) + r.choice([0, step, -step])
    else:
        v = g(r)
    if t == "number" and r.maybe(0.7):
        v = float(v)
    if t == "integer":
        v = int(v)
    return {"t": t, "lo": lo, "hi": hi, "v": v, "text": r.maybe(0.3)}


def rng_bad(case, note):
    from colosseum import validators

    kw = case["kw"]
    validate = getattr(validators, "is_" + case["t"])
    value = V.realize(case["v"])
    C.rejects((lambda: validate(**kw)(value)) if kw else (lambda: validate(value)), f"is_{case['t']}({kw})({value!r})")
    note("rejected type")
    return True


def rng_bad_case(r):
    kw = r.one({}, {"min_value": 0}, {"max_value": 5}, {"min_value": -3, "max_value": 3})
    v = r.weighted((2, lambda r: r.choice(["", "a", "1a", "1px", "--1", "1,5", "auto", "0x1"])), (1, lambda r: ["junk", r.choice(["object", "dict", "set", "listauto", "complex", "ellipsis", "type"])]),
                   (1, lambda r: r.choice([["list", 1], ["tuple", 1], ["unit", 1, "px"]])))
    t = r.choice(["number", "integer"])
    return {"t": t, "kw": kw, "v": v}


def percentage(case, note):
    from colosseum import validators

    v, text = case["n"], case["v"]
    value = V.realize(text)
    what = f"is_percentage({value!r})"
    if case["ok"]:
        got = validators.is_percentage(value)
        require(V.canon(got) == ("len", float(v), "%"), f"{what} gives {got!r}")
        note("percentage accepted")
    else:
        C.rejects(lambda: validators.is_percentage(value), what)
        note("percentage rejected")
    return True


def percentage_case(r):
    n = r.weighted((3, lambda r: r.int(-200, 200)), (2, lambda r: r.int(-400, 400) / 8), (1, 0), (1, lambda r: r.int(-3, 3)), (1, lambda r: r.choice([-1, 1]) * 10.0 ** -r.int(1, 12)))
    kind = r.below(4)
    ok = n >= 0
    if kind == 0:
        v = f"{gen.fmt(n)}%"
    elif kind == 1:
        v = ["unit", n, "%"]
    else:
        ok = False
        v = r.choice([n, f"{gen.fmt(n)}", f"{gen.fmt(n)}{r.choice([u for u in V.UNITS if u != '%'])}", ["unit", n, r.choice([u for u in V.UNITS if u != '%'])],
                      f"{gen.fmt(n)}%%", f"%{gen.fmt(n)}", "%", "", "auto", ["junk", "object"], ["list", f"{gen.fmt(n)}%"]])
    return {"n": n, "v": v, "ok": ok}


LAWS = [
    Law("percentage", percentage, percentage_case, quick=8000),
    Law("integer", integer, integer_case, quick=40000),
    Law("rejected", bad, bad_case, quick=16000),
    Law("range", rng, rng_case, quick=60000),
    Law("range type", rng_bad, rng_bad_case, quick=8000),
]
