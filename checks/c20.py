import math
from fractions import Fraction

from vlib import values as V
from vlib.base import Law, require

RULE = ("(a) Every unit times random amounts (integers, dyadic and decimal fractions, large and tiny, both signs), displays (resolution, size), fonts and reference sizes: lu() and px() against exact rational arithmetic, for one value in up to three environments in turn. "
        "(b) Random products and negations, also nested: amount, unit and unchanged operands. (c) Equality of random pairs of amounts and units. (d) Angles in degrees. "
        "Non-trivial: (a) amount is not zero and not one, (b) at least two operations, (c), (d) all.")
ASSUMPTIONS = [
    "a value half-way between two 1/64 pixels may be rounded either way; cm and mm may differ from 1/2.54 in and 1/25.4 in by 2 parts in a million",
    "a font gives em, ex and ch in points",
]
NAMES = {"%": "percent", "in": "inch"}
LENGTHS = V.UNITS
ANGLES = {"deg": Fraction(1), "grad": Fraction(9, 10), "turn": Fraction(360), "rad": Fraction(180) / Fraction("3.14159265358979323846264338327950288")}


def unit(name):
    from colosseum import units

    return getattr(units, NAMES.get(name, name))


class Display:
    def __init__(self, dpi, w, h):
        self.dpi, self.content_width, self.content_height = dpi, w, h


class Font:
    def __init__(self, em, ex, ch):
        self.em, self.ex, self.ch = em, ex, ch


def exact(amount, name, dpi, w, h, font, size):
    a = Fraction(amount)
    if name == "px":
        return a
    if name == "%":
        return a * Fraction(size) / 100
    if name in ("em", "ex", "ch"):
        return a * Fraction(font[("em", "ex", "ch").index(name)]) / 72 * Fraction(dpi)
    inches = {"pt": Fraction(1, 72), "pc": Fraction(1, 6), "in": Fraction(1), "cm": Fraction(100, 254), "mm": Fraction(10, 254)}
    if name in inches:
        return a * inches[name] * Fraction(dpi)
    w, h = Fraction(w), Fraction(h)
    return a * {"vw": w, "vh": h, "vmin": min(w, h), "vmax": max(w, h)}[name] / 100


def tolerance(x, name):
    return Fraction(1, 128) + abs(x) * Fraction(2 if name in ("cm", "mm") else 0.001) / 10 ** 6 + Fraction(1, 10 ** 9)


def convert(case, note):
    "One value (a unit times an amount, or a scaled base unit), converted in several environments one after the other"
    a, name = case["a"], case["u"]
    value = a * unit(name)
    for env in case["envs"]:
        dpi, w, h, font, size = env["dpi"], env["w"], env["h"], env["font"], env["size"]
        display, f = Display(dpi, w, h), Font(*font)
        want = exact(a, name, dpi, w, h, font, size)
        px = value.px(display=display, font=f, size=size)
        lu = value.lu(display=display, font=f, size=size)
        require(isinstance(px, (int, float)) and not isinstance(px, bool), f"{a!r}{name} is {px!r} pixels")
        require(abs(Fraction(px) - want) <= tolerance(want, name), f"{a!r}{name} with {env!r} is {px!r} pixels, exactly {float(want)!r}")
        require(Fraction(px) * 64 == int(Fraction(px) * 64), f"{a!r}{name}: {px!r} is not a multiple of 1/64 pixel")
        require(Fraction(lu) == Fraction(px) * 64, f"{a!r}{name}: {lu!r} logical units, {px!r} pixels")
        again = value.px(display=display, font=f, size=size)
        require(again == px, f"{a!r}{name}: {px!r} pixels, then {again!r}")
        require(vars(display) == vars(Display(dpi, w, h)) and vars(f) == vars(Font(*font)), f"converting {a!r}{name} changed the display or the font")
    require(value.val == a and value.suffix == name, f"converting {a!r}{name} changed it to {value!r}")
    note(name)
    return a not in (0, 1)


def g_amount(r):
    sign = -1 if r.maybe(0.3) else 1
    kind = r.below(7)
    if kind == 6:
        return sign * r.weighted((1, lambda r: r.int(0, 10 ** 9)), (1, lambda r: float(r.int(0, 10 ** 9))), (1, lambda r: r.int(0, 10 ** 12) / 64))
    if kind == 0:
        return sign * r.int(0, 100)
    if kind == 1:
        return sign * r.int(0, 100000)
    if kind == 2:
        return sign * r.int(0, 10000) / 64
    if kind == 3:
        return sign * r.int(0, 10000) / 128
    if kind == 4:
        return sign * round(r.int(0, 100000) / 1000, 3)
    return sign * r.int(0, 10 ** 6) / 10 ** 7


def g_env(r):
    return {
        "dpi": r.weighted((1, 72), (2, 96), (2, lambda r: r.int(1, 600)), (1, lambda r: r.int(8, 4800) / 8)),
        "w": r.weighted((1, 1024), (3, lambda r: r.int(0, 4000)), (1, lambda r: r.int(0, 64000) / 64)),
        "h": r.weighted((1, 768), (3, lambda r: r.int(0, 4000)), (1, lambda r: r.int(0, 64000) / 64)),
        "font": [r.weighted((2, lambda r: r.int(1, 40)), (1, lambda r: r.int(1, 200) / 8)) for _ in range(3)],
        "size": r.weighted((2, lambda r: r.int(0, 2000)), (1, lambda r: r.int(0, 6400) / 64), (1, lambda r: -r.int(1, 6400) / 64)),
    }


def convert_case(r):
    envs = [g_env(r)]
    for _ in r.many(0, 2, 0.5):
        env = g_env(r)
        if r.maybe(0.5):
            # one thing is different
            k = r.choice(sorted(env))
            env = {**envs[-1], k: env[k]}
        envs.append(env)
    return {"a": g_amount(r), "u": r.choice(LENGTHS), "envs": envs}


def snapshot():
    return {u: V.canon(unit(u)) for u in LENGTHS} | {u: (unit(u).val, unit(u).suffix) for u in ANGLES}


def arithmetic(case, note):
    name = case["u"]
    value = unit(name)
    before = snapshot()
    factor = Fraction(1)
    for op in case["ops"]:
        old = (value.val, value.suffix)
        if op == "neg":
            new = -value
            factor = -factor
        else:
            new = op * value
            factor *= Fraction(op)
        require((value.val, value.suffix) == old, f"{op!r} on {old!r} changed it to {value!r}")
        require(new is not None and type(new) is type(value) and new.suffix == name, f"{op!r} on {value!r} gives {new!r}")
        value = new
    require(abs(Fraction(value.val) - factor) <= abs(factor) * Fraction(1, 10 ** 12), f"{case['ops']!r} on {name} gives {value!r}, expected {float(factor)!r}")
    require(snapshot() == before, f"the base units changed after {case!r}")
    if name not in ANGLES:
        display, f = Display(96, 1000, 500), Font(12, 6, 8)
        px = value.px(display=display, font=f, size=200)
        want = exact(factor, name, 96, 1000, 500, (12, 6, 8), 200)
        require(abs(Fraction(px) - want) <= tolerance(want, name), f"{case['ops']!r} on {name} gives {px!r} pixels, exactly {float(want)!r}")
    note(f"{len(case['ops'])} operations")
    return len(case["ops"]) > 1


def arithmetic_case(r):
    return {"u": r.choice(LENGTHS + sorted(ANGLES)), "ops": [("neg" if r.maybe(0.35) else r.weighted((2, lambda r: r.int(-20, 20)), (1, lambda r: r.int(-64, 64) / 16))) for _ in r.many(1, 4, 0.6)]}


def equality(case, note):
    (a, u), (b, v) = case["x"], case["y"]
    x, y = a * unit(u), b * unit(v)
    same = u == v and a == b
    require((x == y) is same and (y == x) is same, f"{x!r} == {y!r} is {x == y!r}")
    require((x != y) is not same, f"{x!r} != {y!r} is {x != y!r}")
    if isinstance(b, int):
        want = u == "px" and a == b
        require((x == b) is want, f"{x!r} == {b!r} is {x == b!r}")
    for other in (None, "auto", str(x), object()):
        require((x == other) is False and (x != other) is True, f"{x!r} == {other!r}")
    note("equal" if same else ("same amount" if a == b else "same unit" if u == v else "different"))
    return True


def equality_case(r):
    names = LENGTHS + sorted(ANGLES)
    a, u = g_amount(r), r.choice(names)
    b = a if r.maybe(0.6) else g_amount(r)
    if r.maybe(0.2):
        b = float(a)
    v = u if r.maybe(0.5) else r.choice(names)
    return {"x": [a, u], "y": [b, v]}


def angle(case, note):
    a, name = case["a"], case["u"]
    got = (a * unit(name)).deg()
    want = Fraction(a) * ANGLES[name]
    require(abs(Fraction(got) - want) <= abs(want) / 10 ** 12, f"{a!r}{name} is {got!r} degrees, expected {float(want)!r}")
    note(name)
    return a not in (0, 1)


LAWS = [
    Law("convert", convert, convert_case, quick=80000),
    Law("arithmetic", arithmetic, arithmetic_case, quick=20000),
    Law("equality", equality, equality_case, quick=40000),
    Law("angle", angle, lambda r: {"a": g_amount(r), "u": r.choice(sorted(ANGLES))}, quick=20000),
]
