from vlib import css as C
from vlib import values as V
from vlib.base import Law, require

RULE = ("Random prior declarations, then a directional property assigned a single value or a tuple of 0 to 6 values through any interface, or deleted, or the value it (or the color) reads, or single sides changed, in histories of up to 6 steps; some values are invalid, at every position of every length. "
        "All properties are compared with the expansion rule, also after changing the color and direction that unset ones depend on; after a rejection nothing may have changed. Non-trivial: a tuple of 2 to 4 values that are not all equal, or a rejected tuple.")
ASSUMPTIONS = ["lists are not judged (only a single value or a tuple is documented)"]

NAMES = sorted(V.DIRECTIONAL)
BAD = ["bogus", "~1px", ["junk", "object"], ["junk", "dict"], "solid solid", "12abc", ["junk", "nan"]]


def expand(parts):
    top = parts[0]
    right = parts[1] if len(parts) > 1 else top
    bottom = parts[2] if len(parts) > 2 else top
    left = parts[3] if len(parts) > 3 else right
    return top, right, bottom, left


def check(case, note):
    css, model = C.make(case["prior"], case["where"])
    nontrivial = False
    for op in case["ops"]:
        kind, via, name = op[:3]
        what = f"after {op!r}"
        if kind == "delete":
            C.delete(css, name, via)
            for x in V.DIRECTIONAL[name]:
                model.pop(x, None)
            note("delete")
        elif kind == "side":
            C.assign(css, name, V.realize(op[3]), via)
            model[name] = V.tup(op[4])
        elif kind == "single":
            C.assign(css, name, V.realize(op[3]), via)
            for x in V.DIRECTIONAL[name]:
                model[x] = V.tup(op[4])
            note("single value")
        elif kind == "same":
            # the very value that the color, or the property itself, reads
            _, _, name, n, own = op
            if own:
                value = getattr(css, name)
            elif V.reading("color", model) != ("default",):
                value = (css.color,) * n if n else css.color
            else:
                continue
            got = V.canon(value)
            if any(c == ("default",) for c in (got if isinstance(value, tuple) else [got])):
                continue
            C.assign(css, name, value, via)
            for x, c in zip(V.DIRECTIONAL[name], expand(got) if isinstance(value, tuple) else (got,) * 4):
                model[x] = c
            note("value read before")
        elif kind == "tuple":
            C.assign(css, name, tuple(V.realize(s) for s, _ in op[3]), via)
            for x, c in zip(V.DIRECTIONAL[name], expand([V.tup(c) for _, c in op[3]])):
                model[x] = c
            note(f"{len(op[3])} values")
            nontrivial |= len({repr(c) for _, c in op[3]}) > 1
        else:
            before = C.observe(css)
            value = V.realize(op[3][0]) if op[4] else tuple(V.realize(s) for s in op[3])
            C.rejects(lambda: C.assign(css, name, value, via), f"{name}: {value!r}")
            C.unchanged(css, before, what)
            note(f"rejected {len(op[3])} values")
            nontrivial = True
        C.check_readings(css, model, what)
        C.check_keys(css, model, what)
        for d, sides in V.DIRECTIONAL.items():
            got = getattr(css, d)
            require(isinstance(got, tuple) and len(got) == 4, f"{what}: {d} reads {got!r}, expected a tuple of 4")
            want = tuple(V.reading(x, model) for x in sides)
            require(V.canon(got) == want, f"{what}: {d} reads {V.canon(got)!r}, expected {want!r}")
    C.probe(css, model, "at the end")
    return nontrivial


def g_op(r):
    name = r.choice(NAMES)
    via = r.choice(C.VIAS)
    side = V.DIRECTIONAL[name][0]
    kind = r.weighted((5, "tuple"), (2, "single"), (1, "delete"), (2, "side"), (4, "reject"), (2, "same"))
    if kind == "delete":
        return ["delete", via, name]
    if kind == "same":
        if r.maybe(0.3):
            return ["same", via, name, 0, True]
        return ["same", via, "border_color", r.int(0, 4), False]
    if kind == "side":
        side = r.choice(V.DIRECTIONAL[name])
        return ["side", via, side, *V.g_value(r, side)]
    if kind == "single":
        return ["single", via, name, *V.g_value(r, side)]
    if kind == "tuple":
        return ["tuple", via, name, [V.g_value(r, side) for _ in range(r.int(1, 4))]]
    n = r.weighted((1, 0), (1, lambda r: r.int(5, 6)), (6, lambda r: r.int(1, 4)))
    if 1 <= n <= 4:
        parts = [V.g_value(r, side)[0] for _ in range(n)]
        for k in {r.below(n) for _ in r.many(1, 2, 0.3)}:
            parts[k] = r.choice(BAD)
        return ["reject", via, name, parts, n == 1 and r.maybe(0.5)]
    return ["reject", via, name, [V.g_value(r, side)[0] for _ in range(n)], False]


def cases(r):
    names = [x for d in NAMES for x in V.DIRECTIONAL[d]] + ["color", "width"]
    return {"where": C.g_where(r), "prior": C.g_state(r, 0, 8, names), "ops": [g_op(r) for _ in r.many(1, 6, 0.6)]}


LAWS = [Law("sides", check, cases, quick=50000)]
