import colorsys
import math

from vlib import values as V
from vlib.base import Law, require

RULE = ("(a) Every integer hue 0..360 at 8 saturations and 9 lightnesses, complete. (b) Random hues (any angle, also negative, fractional or beyond a turn), saturations, lightnesses and alphas, constructed or parsed: against Python's colorsys. "
        "(c) Hues a whole number of turns apart give equal colors; RGB colors convert to themselves. Non-trivial: saturation not 0 and lightness not 0 or 1, (c) all.")
ASSUMPTIONS = ["a component within 1e-6 of half-way between two integers may be rounded either way"]


def convert(h, s, lt, a, color, what, note):
    want = [x * 255 for x in colorsys.hls_to_rgb((h % 360) / 360.0, lt, s)]
    got = color.rgb
    from colosseum import colors

    require(isinstance(got, colors.rgb), f"{what} converts to {got!r}")
    for name, g, w in zip("rgb", (got.r, got.g, got.b), want):
        lo, hi = math.floor(w + 0.5 - 1e-6), math.floor(w + 0.5 + 1e-6)
        require(isinstance(g, int) and 0 <= g <= 255 and lo <= g <= hi, f"{what} converts to {got!r}: {name} is {g!r}, expected {w!r} rounded")
    require(got.a == a, f"{what} converts to {got!r}: alpha is {got.a!r}, not {a!r}")
    require((color.h, color.s, color.l, color.a) == (h, s, lt, a), f"converting {what} changed it to {color!r}")
    note(f"sextant {int(h % 360 // 60)}")


def grid(case, note):
    from colosseum import colors, parser

    h = case["h"]
    for s in (0, 1, 10, 33, 50, 75, 99, 100):
        for lt in (0, 1, 10, 33, 50, 67, 80, 99, 100):
            convert(h, s / 100.0, lt / 100.0, 1.0, parser.color(f"hsl({h}, {s}%, {lt}%)"), f"hsl({h}, {s}%, {lt}%)", note)
    convert(h, 1.0, 0.5, 0.25, colors.hsl(h, 1.0, 0.5, 0.25), f"hsl({h}, 1, 0.5, 0.25)", note)
    return True


def random_color(case, note):
    from colosseum import colors

    h, s, lt, a = case["c"]
    convert(h, s, lt, a, colors.hsl(h, s, lt, a) if a != 1.0 else colors.hsl(h, s, lt), f"hsl{tuple(case['c'])!r}", note)
    return s != 0 and lt not in (0, 1)


def g_unit(r):
    return r.weighted((2, lambda r: r.int(0, 100) / 100), (1, lambda r: r.int(0, 255) / 255), (1, lambda r: r.int(0, 10 ** 6) / 10 ** 6), (1, lambda r: r.choice([0.0, 1.0, 0.5])))


def g_hue(r):
    return r.weighted((2, lambda r: r.int(0, 360)), (2, lambda r: r.int(-1000, 1000)), (2, lambda r: r.int(0, 36000) / 100), (1, lambda r: r.int(-100000, 100000) / 64), (1, lambda r: 60 * r.int(-12, 12)))


def cases(r):
    return {"c": [g_hue(r), g_unit(r), g_unit(r), r.weighted((1, 1.0), (2, g_unit))]}


def turn(case, note):
    from colosseum import colors

    h, s, lt, a = case["c"]
    x = colors.hsl(h, s, lt, a).rgb
    y = colors.hsl(h + 360 * case["n"], s, lt, a).rgb
    want = [v * 255 for v in colorsys.hls_to_rgb((h % 360) / 360.0, lt, s)]
    if all(abs(w + 0.5 - round(w + 0.5)) > 1e-6 for w in want):
        require(V.canon(x) == V.canon(y), f"hue {h}: {x!r}, {case['n']} turns on: {y!r}")
    z = x.rgb
    require(V.canon(z) == V.canon(x), f"{x!r} converts to {z!r}")
    note("turns")
    return True


def identity(case, note):
    from colosseum import colors

    c = tuple(case["c"])
    x = colors.rgb(*c).rgb
    require((x.r, x.g, x.b, x.a) == c, f"rgb{c} converts to {x!r}")
    note("identity")
    return True


LAWS = [
    Law("grid", grid, exhaustive=lambda: ({"h": h} for h in range(0, 361))),
    Law("random", random_color, cases, quick=80000),
    Law("turn", turn, lambda r: {"c": cases(r)["c"], "n": r.int(-3, 3)}, quick=20000),
    Law("identity", identity, lambda r: {"c": [r.int(0, 255), r.int(0, 255), r.int(0, 255), g_unit(r)]}, quick=8000),
]
