import math
import re

from vlib import css as C
from vlib import values as V
from vlib.base import Law, require

RULE = ("(a) All 148 CSS named colors in lower, upper and mixed case, complete. (b) #RGB, #RGBA, #RRGGBB, #RRGGBBAA, rgb(), rgba(), hsl() and hsla() with random components, digit case and spacing: exact components, from the parser and from properties; other notations of the same color have equal components. "
        "(c) Mutations of such texts: an independent recogniser decides what must be accepted or rejected. Non-trivial: (a), (b) all, (c) rejected texts that are at least three characters long.")
ASSUMPTIONS = [
    "not judged: components outside 0..255, 0..1 and 0..100%, fractional or percentage components where CSS 2.1 has integers, percentages without %, function names in upper case, white space around the text or before parentheses, underscores",
]
PROPERTIES = ["color", "background_color", "border_left_color", "outline_color"]
WS = r"[ \t]*"
INT = rf"{WS}(\d{{1,3}}){WS}"
ALPHA = rf"{WS}(\d*\.?\d+){WS}"
PCT = rf"{WS}(\d{{1,3}})%{WS}"
STRICT = [
    ("rgb", re.compile(rf"rgb\({INT},{INT},{INT}\)", re.A)),
    ("rgb", re.compile(rf"rgba\({INT},{INT},{INT},{ALPHA}\)", re.A)),
    ("hsl", re.compile(rf"hsl\({INT},{PCT},{PCT}\)", re.A)),
    ("hsl", re.compile(rf"hsla\({INT},{PCT},{PCT},{ALPHA}\)", re.A)),
]
# anything that looks like the right number of numbers
LOOSE_ARG = r"[\s\d_.+\-eE%]*\d[\s\d_.+\-eE%]*(?:deg|rad|grad|turn)?\s*"
LOOSE = re.compile("|".join(rf"\s*{name}\s*\({','.join([LOOSE_ARG] * n)}\)\s*" for name, n in (("rgb", 3), ("rgba", 4), ("hsl", 3), ("hsla", 4))), re.I)


def recognise(text):
    "('ok', canonical), ('bad',) or ('unjudged',)"
    if text.startswith("#"):
        digits = text[1:]
        if text != text.strip():
            return ("unjudged",) if recognise(text.strip())[0] != "bad" else ("bad",)
        if not re.fullmatch(r"[0-9a-fA-F]*", digits) or len(digits) not in (3, 4, 6, 8):
            return ("bad",)
        if len(digits) < 6:
            digits = "".join(d + d for d in digits)
        c = [int(digits[i:i + 2], 16) for i in range(0, len(digits), 2)]
        return ("ok", ("rgb", *c[:3], c[3] / 255 if len(c) > 3 else 1.0))
    if text.lower() in V.NAMED:
        return ("ok", ("rgb", *V.NAMED[text.lower()], 1.0))
    for kind, regex in STRICT:
        m = regex.fullmatch(text)
        if m:
            a = [int(x) for x in m.groups()[:3]]
            alpha = float(m.group(4)) if len(m.groups()) > 3 else 1.0
            if alpha > 1:
                return ("unjudged",)
            if kind == "rgb":
                return ("ok", ("rgb", *a, alpha)) if max(a) < 256 else ("unjudged",)
            return ("ok", ("hsl", a[0], a[1] / 100, a[2] / 100, alpha)) if a[0] <= 360 and max(a[1:]) <= 100 else ("unjudged",)
    if not text.isascii() or LOOSE.fullmatch(text) or text.strip().lower() in V.NAMED or (text != text.strip() and text.strip().startswith("#")):
        return ("unjudged",)
    return ("bad",)


def parse(value):
    from colosseum import parser

    return parser.color(value)


def close(a, b):
    return a is not None and b is not None and len(a) == len(b) and a[0] == b[0] and all(x == y or (isinstance(x, (int, float)) and abs(x - y) < 1e-9) for x, y in zip(a[1:], b[1:]))


def accepts(value, want, prop, what):
    got = V.canon(parse(value))
    require(close(got, want), f"{what} parses to {got!r}, expected {want!r}")
    from colosseum.declaration import CSS

    css = CSS()
    setattr(css, prop, value)
    got = V.canon(getattr(css, prop))
    require(close(got, want), f"{prop}: {what} reads {got!r}, expected {want!r}")


def named(case, note):
    name = case["n"]
    text = [name, name.upper(), name.capitalize()][case["f"]]
    accepts(text, ("rgb", *V.NAMED[name], 1.0), PROPERTIES[case["f"]], text)
    from colosseum import colors

    require(getattr(colors, name.upper()) == name, f"the constant {name.upper()} is {getattr(colors, name.upper())!r}")
    note("named")
    return True


def all_named():
    for name in sorted(V.NAMED):
        for f in range(3):
            yield {"n": name, "f": f}


def spell(r, digits):
    return "".join(r.choice((d, d.upper())) for d in digits)


def g_text(r):
    kind = r.below(9)
    c = [r.weighted((2, lambda r: r.int(0, 255)), (1, lambda r: r.choice([0, 255, 1, 15, 16, 128]))) for _ in range(4)]
    if kind == 0:
        return "#" + spell(r, "".join("%x" % (x // 17) for x in c[:3]))
    if kind == 1:
        return "#" + spell(r, "".join("%x" % (x // 17) for x in c))
    if kind == 2:
        return "#" + spell(r, "".join("%02x" % x for x in c[:3]))
    if kind == 3:
        return "#" + spell(r, "".join("%02x" % x for x in c))
    if kind == 8:
        return r.choice(sorted(V.NAMED))
    alpha = r.weighted((2, lambda r: r.choice(["0", "1", "0.5", ".25", "1.0", "0.0"])), (2, lambda r: "%.3f" % (r.int(0, 1000) / 1000)))
    h, s, lt = r.int(0, 360), r.int(0, 100), r.int(0, 100)
    args = {4: c[:3], 5: c[:3] + [alpha], 6: [h, f"{s}%", f"{lt}%"], 7: [h, f"{s}%", f"{lt}%", alpha]}[kind]
    sep = r.choice([", ", ",", " , ", " ,"])
    pad = r.choice(["", "", " "])
    return f"{('rgb', 'rgba', 'hsl', 'hsla')[kind - 4]}({pad}{sep.join(map(str, args))}{pad})"


def valid(case, note):
    text = case["v"]
    verdict = recognise(text)
    require(verdict[0] == "ok", f"generated {text!r}")
    want = verdict[1]
    accepts(text, want, case["p"], repr(text))
    color = parse(text)
    require(V.canon(parse(color)) == V.canon(color), f"parsed {text!r} parses to {parse(color)!r}")
    if want[0] == "hsl":
        again = V.canon(parse(str(color)))
        require(close(again, want), f"{str(color)!r}, the text of {text!r}, parses to {again!r}, expected {want!r}")
    if want[0] == "rgb":
        r, g, b, a = want[1:]
        others = [f"rgba({r}, {g}, {b}, {a!r})", str(color)]
        if a == 1:
            others += [f"rgb({r},{g},{b})", "#%02x%02x%02x" % (r, g, b), "#%02X%02X%02XFF" % (r, g, b)]
        for t in others:
            got = V.canon(parse(t))
            require(close(got, want), f"{t!r} parses to {got!r}, but {text!r} to {want!r}")
    note(text[:text.index("(")] if "(" in text else f"#{len(text) - 1}" if text[0] == "#" else "named")
    return True


def mutate(r, t):
    for _ in r.many(1, 2, 0.4):
        i = r.below(len(t) + 1)
        op = r.below(8)
        if op == 0:
            t = t[:i] + r.choice("0123456789abcdefgz#(),.%- +rhsl;é") + t[i:]
        elif op == 1:
            t = t[:i] + t[i + 1:]
        elif op == 2:
            t = t[:i] + r.choice("0123456789gxyz#(),.%- ") + t[i + 1:]
        elif op == 3 and "(" in t:
            parts = t[:-1].split(",")
            if r.maybe(0.5):
                parts.insert(r.below(len(parts) + 1), r.choice(["0", "1", "50%", "", " ", "x", "0.5", "5%"]))
                if not parts[0].startswith(("rgb", "hsl")):
                    parts[0], parts[1] = parts[1], parts[0]
            elif len(parts) > 1:
                parts.pop(1 + r.below(len(parts) - 1))
            t = ",".join(parts) + ")"
        elif op == 4 and "(" in t and r.maybe(0.5):
            # another notation of one of the arguments
            parts = t.rstrip(")").split(",")
            k = r.below(len(parts))
            head, par, _ = parts[k].rpartition("(")
            parts[k] = head + par + r.choice([f"{r.int(0, 100)}%", f"{r.int(0, 255)}", f"{r.int(0, 99)}.{r.int(0, 9)}", f"{r.int(0, 9)}e1", f"-{r.int(1, 9)}", f"{r.int(0, 100)}.5%", f"+{r.int(0, 200)}"])
            t = ",".join(parts) + ")"
        elif op == 4:
            t = t.rstrip(")") if r.maybe(0.5) else t.replace("(", "", 1)
        elif op == 5:
            t = t + r.choice([")", "(", "0", "f", "ff", " none", "#fff", ";", "x", ",1"])
        elif op == 6:
            t = r.choice(["#", "rgb", "a", "x", "0", "(", "--"]) + t
        else:
            t = t.replace("rgba", "rgb") if "rgba" in t else t.replace("rgb", "rgba") if "rgb" in t else t.replace("hsla", "hsl") if "hsla" in t else t.replace("hsl", "hsla")
    return t


def plausible(value, got):
    "A lenient notation that is accepted has the components written"
    args = [a.strip() for a in value[value.index("(") + 1:].strip()[:-1].split(",")]
    for i, (arg, c) in enumerate(zip(args, got[1:])):
        m = re.fullmatch(r"([+-]?(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?)(%?)", arg)
        if not m:
            continue
        n, percent = float(m[1]), bool(m[2])
        full = 1 if i == 3 else 255 if got[0] == "rgb" else 360 if i == 0 else 1
        if percent:
            n = n / 100 * full
        elif got[0] == "hsl" and i in (1, 2):
            n = n / 100
        ok = [n, max(0, min(full, n))]
        if full > 1:
            ok += [math.floor(n), math.ceil(n), math.floor(ok[1]), math.ceil(ok[1]), n % 360]
        require(any(abs(c - x) < 1e-9 * max(1, abs(x)) for x in ok), f"component {i + 1} of {value!r} is {c!r}")


def text(case, note):
    value = case["v"]
    verdict = recognise(value)
    if verdict[0] == "ok":
        accepts(value, verdict[1], case["p"], repr(value))
        note("accepted")
        return False
    if verdict[0] == "bad":
        C.rejects(lambda: parse(value), repr(value))
        if value not in V.KEYWORDS:
            from colosseum.declaration import CSS

            css = CSS()
            C.rejects(lambda: setattr(css, case["p"], value), f"{case['p']}: {value!r}")
        note("rejected")
        return len(value) > 2
    try:
        got = V.canon(parse(value))
    except ValueError:
        got = None
    if got is not None and "(" in value:
        plausible(value, got)
        note("accepted or rejected")
        return True
    note("not judged")
    return False


def text_case(r):
    kind = r.below(5)
    if kind == 0:
        t = "#" + "".join(r.choice("0123456789abcdefABCDEF" + ("gG.- " if r.maybe(0.1) else "")) for _ in r.many(0, 12, 0.85))
    else:
        t = mutate(r, g_text(r))
    return {"v": t, "p": r.choice(PROPERTIES)}


def objects(case, note):
    value = V.realize(case["v"])
    C.rejects(lambda: parse(value), repr(value))
    note("rejected object")
    return True


def all_objects():
    for j in sorted(V.JUNK):
        yield {"v": ["junk", j]}
    for v in (None, 0, 255, 1.5, ["list", 1, 2, 3], ["tuple", 255, 255, 255], ["tuple", "red"], ["unit", 1, "px"], ["list"]):
        yield {"v": v}


LAWS = [
    Law("named", named, exhaustive=all_named),
    Law("objects", objects, exhaustive=all_objects),
    Law("valid", valid, lambda r: {"v": g_text(r), "p": r.choice(PROPERTIES)}, quick=50000),
    Law("text", text, text_case, quick=80000),
]
