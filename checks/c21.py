import math
import re
from fractions import Fraction

from vlib import css as C
from vlib import values as V
from vlib.base import Law, require

RULE = ("(a) Texts of the number grammar (sign, integer, decimal, leading or trailing point, exponent) with every unit or none, and numbers: exact amount and unit, from the parser and from properties; the text of the result parses back to the same. "
        "(b) Mutations of such texts and random texts over the same alphabet: an independent recogniser decides what must be accepted or rejected. (c) Sequences of parses: every result as if parsed alone, and no growing list of units. "
        "Non-trivial: (a) a text with a sign, point, exponent or unit, (b) rejected texts of at least two characters, (c) at least 3 parses.")
ASSUMPTIONS = [
    "not judged: whether texts with white space around them or before the unit, underscores, upper case units or digits outside ASCII are accepted (but the value of the first kinds is, if they are); booleans",
]
NUMBER = r"[+-]?(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?"
STRICT = re.compile(rf"({NUMBER})({'|'.join(re.escape(u) for u in sorted(V.UNITS, key=len, reverse=True))})?", re.A)
PROPERTIES = ["margin_top", "width", "text_indent", "letter_spacing", "padding_left", "left", "border_top_width", "max_height"]


SPACED = re.compile(r"\s*(\S*?)\s*([a-z%]*)\s*")


def recognise(text):
    "('ok', amount, unit), ('bad',), ('maybe', amount, unit) or ('unjudged',)"
    if not text.isascii() or "_" in text:
        return ("unjudged",)
    if any(ch.isspace() or ch in "\x1c\x1d\x1e\x1f" for ch in text):
        # white space: perhaps accepted around the text and before the unit, never elsewhere
        m = SPACED.fullmatch(text)
        verdict = recognise(m[1] + m[2]) if m else ("bad",)
        return ("maybe", *verdict[1:]) if verdict[0] == "ok" else verdict
    m = STRICT.fullmatch(text)
    if m:
        # Python's float is correctly rounded; the exact value decides whether it is finite
        amount = float(m.group(1))
        return ("ok", amount, m.group(2) or "px") if math.isfinite(amount) else ("bad",)
    return ("unjudged",) if STRICT.fullmatch(text.lower()) else ("bad",)


def parse(value):
    from colosseum import parser

    return parser.units(value)


def same(value, amount, unit, what):
    from colosseum import units

    require(isinstance(value, units.Unit), f"{what} parses to {value!r}")
    require(value.suffix == unit and Fraction(value.val) == Fraction(amount), f"{what} parses to {value.val!r} {value.suffix!r}, expected {amount!r} {unit!r}")


def valid(case, note):
    value = case["v"]
    if isinstance(value, str):
        verdict = recognise(value)
        if verdict[0] != "ok":
            require(verdict[0] == "bad" and "e" in value.lower(), f"generated {value!r}")
            C.rejects(lambda: parse(value), repr(value))
            note("overflow")
            return True
        _, amount, unit = verdict
    else:
        amount, unit = value, "px"
    got = parse(value)
    same(got, amount, unit, repr(value))
    same(parse(got), amount, unit, f"parsed {value!r}")
    if isinstance(value, int) and abs(value) > 1 << 53:
        # texts are read as floats, which do not have all of its digits
        require(got.val == value, f"{value!r} parses to an amount of {got.val!r}")
        note("large")
        return True
    text = str(got)
    again = parse(text)
    same(again, amount, unit, f"{text!r}, the text of {value!r},")
    require(again == got, f"{again!r} differs from {got!r}")
    from colosseum.declaration import CSS

    css = CSS()
    setattr(css, case["p"], 1234567)
    setattr(css, case["p"], value)
    same(getattr(css, case["p"]), amount, unit, f"{case['p']}: {value!r}")
    note(unit)
    return isinstance(value, str) and not value.isdigit()


def g_digits(r, lo, hi):
    return "".join(r.choice("0123456789") for _ in r.many(lo, hi, 0.6))


def g_text(r):
    sign = r.choice(["", "", "", "-", "+"])
    kind = r.below(5)
    if kind <= 1:
        number = g_digits(r, 1, 6) + (g_digits(r, 8, 20) if r.maybe(0.05) else "")
    elif kind == 2:
        number = g_digits(r, 1, 4) + "." + g_digits(r, 1, 6)
    elif kind == 3:
        number = "." + g_digits(r, 1, 6)
    else:
        number = g_digits(r, 1, 4) + "."
    if r.maybe(0.2):
        number += r.choice("eE") + r.choice(["", "-", "+"]) + g_digits(r, 1, 3)
    return sign + number


def g_value(r):
    kind = r.below(8)
    if kind == 0:
        return r.weighted((2, lambda r: r.int(-1000, 1000)), (1, lambda r: r.int(0, 1 << 53)), (1, lambda r: r.choice([1, -1]) * r.int(1 << 53, 10 ** r.int(16, 40))))
    if kind == 1:
        return r.weighted((1, lambda r: r.int(-100000, 100000) / 64), (1, lambda r: round(r.int(-100000, 100000) / 1000, 3)), (1, lambda r: r.int(1, 10 ** 6) * 10.0 ** r.int(-30, 30)))
    return g_text(r) + (r.choice(V.UNITS) if r.maybe(0.85) else "")


def valid_case(r):
    return {"v": g_value(r), "p": r.choice(PROPERTIES)}


SUFFIXES = V.UNITS + ["deg", "rad", "grad", "turn", "", "p", "x", "m", "i", "n", "e", "vmi", "dpi", "rem", "Q", "pxpx", "px%", "%%"]


def text(case, note):
    value = case["v"]
    verdict = recognise(value)
    if verdict[0] == "bad":
        C.rejects(lambda: parse(value), repr(value))
        from colosseum.declaration import CSS

        css = CSS()
        C.rejects(lambda: setattr(css, case["p"], value), f"{case['p']}: {value!r}")
        note("rejected")
        return len(value) > 1
    if verdict[0] == "ok":
        same(parse(value), verdict[1], verdict[2], repr(value))
        note("accepted")
        return False
    try:
        got = parse(value)
    except ValueError:
        got = None
    if verdict[0] == "maybe":
        if got is not None:
            same(got, verdict[1], verdict[2], repr(value))
        note("accepted or rejected")
        return True
    note("not judged")
    return False


def text_case(r):
    kind = r.below(4)
    if kind == 0:
        t = "".join(r.choice("0123456789.+-eE%pxmtcinvhwadrgu _") for _ in r.many(0, 8, 0.8))
    elif kind == 1:
        t = g_text(r) + r.choice(SUFFIXES)
    else:
        t = g_text(r) + (r.choice(V.UNITS) if r.maybe(0.8) else "")
        for _ in r.many(1, 2, 0.3):
            i = r.below(len(t) + 1)
            op = r.below(4)
            if op == 0:
                t = t[:i] + r.choice("0123456789.+-eE%pxmtcin()#,;'\"\\/*nf\x00é  \t") + t[i:]
            elif op == 1:
                t = t[:i] + t[i + 1:]
            elif op == 2:
                t = t[:i] + t[i:] * 2
            else:
                t = t[i:] + t[:i]
    if r.maybe(0.05):
        t = g_text(r) + r.choice(V.UNITS + [""]) + r.choice([" ", "  ", ", ", "\n"]) + r.choice([g_text(r) + r.choice(V.UNITS), "auto", "x", "apples", "solid", "px", "!important", "none"])
    if r.maybe(0.05):
        t = r.choice(["nan", "inf", "infinity", "-inf", "+nan"]) + r.choice(V.UNITS + [""])
    return {"v": t, "p": r.choice(PROPERTIES)}


def registry():
    from colosseum import units

    return len(getattr(units.Unit, "UNITS", ()))


def sequence(case, note):
    from colosseum.declaration import CSS

    before = registry()
    css = CSS()
    results = []
    for value in case["vs"]:
        try:
            results.append(parse(value))
        except ValueError:
            results.append(None)
        try:
            css.margin_left = value
        except ValueError:
            pass
    for value, got in zip(case["vs"], results):
        verdict = recognise(value) if isinstance(value, str) else ("ok", value, "px")
        if verdict[0] == "bad":
            require(got is None, f"{value!r} accepted in {case['vs']!r}")
        elif verdict[0] == "ok":
            require(got is not None, f"{value!r} rejected in {case['vs']!r}")
            same(got, verdict[1], verdict[2], f"{value!r}, in {case['vs']!r},")
            same(parse(value), verdict[1], verdict[2], f"{value!r}, after {case['vs']!r},")
    require(registry() == before, f"parsing {case['vs']!r} registered {registry() - before} more units")
    note("sequence")
    return len(case["vs"]) > 2


def sequence_case(r):
    return {"vs": [(text_case(r)["v"] if r.maybe(0.3) else g_value(r)) for _ in r.many(1, 8, 0.8)]}


LAWS = [
    Law("valid", valid, valid_case, quick=60000),
    Law("text", text, text_case, quick=80000),
    Law("sequence", sequence, sequence_case, quick=16000),
]
