import copy
import re
from fractions import Fraction as F

from vlib import doc as D
from vlib import gen
from vlib.base import Law, require

RULE = ("Random documents with everything the engine can lay out (negative margins, relative positions, inline content, percentages, absolute and viewport units, hidden boxes, both HTML standards). "
        "Pixel lengths, intrinsic sizes, the size and resolution of the display and its border sizes are multiplied by a whole number (2 to 1000, or a power of 2 up to 2^30). Every number of every box must be multiplied by it, exactly. Non-trivial: five or more boxes, or a percentage or unit.")
ASSUMPTIONS = [
    "the values are such that no rounding occurs: whole pixels, quarters as percentages (three levels deep at most), units that come to whole pixels or quarters, whole-number ratios",
    "not generated, because the result is rounded or has a fixed size: two automatic horizontal margins around a given width, replaced boxes that fall back to 300px or 150px",
]
SIZES = ["width", "height", "min_width", "max_width", "min_height", "max_height", "top", "right", "bottom", "left"]
SIZES += [f"{p}_{s}" for p in ("margin", "padding") for s in gen.SIDES] + [f"border_{s}_width" for s in gen.SIDES]
QUARTERS = [25, 50, 75, 100]
NUM = re.compile(r"([-+]?[0-9.]+)([a-z%]*)$")


def parse(value):
    "(number, unit) of a length, or None for a keyword"
    if not isinstance(value, str):
        return F(value), "px"
    m = NUM.match(value)
    return (F(m[1]), m[2] or "px") if m else None


def whole(doc, depth=0):
    "Turn the lengths of a document into ones that are never rounded"
    s = doc["s"]
    for name in SIZES:
        if name not in s:
            continue
        p = parse(s[name])
        if p is None:
            continue
        n, u = p
        if u == "%":
            if depth > 2:
                s[name] = int(n)
            else:
                q = QUARTERS[int(abs(n)) % 4] if n else 0
                s[name] = f"{-q if n < 0 else q}%"
        elif u == "px":
            s[name] = f"{int(n)}px" if isinstance(s[name], str) else int(n)
        elif u in ("cm", "mm", "em", "ex", "ch"):
            s[name] = f"{int(n)}pt"
        else:
            s[name] = f"{int(n) or 1}{u}"
    if s.get("margin_left") == "auto" and s.get("margin_right") == "auto" and s.get("width", "auto") != "auto":
        s["margin_right" if depth % 2 else "margin_left"] = 3
    i = doc.get("i")
    if i is not None and i.get("is_replaced"):
        if "ratio" in i:
            i["ratio"] = max(1, int(i["ratio"]) % 4)
        if s.get("width", "auto") == "auto":
            i.setdefault("width", 40 + depth)
        if s.get("height", "auto") == "auto" and "ratio" not in i:
            i.setdefault("height", 30 + depth)
    for c in doc["c"]:
        whole(c, depth + 1)
    return doc


def times(doc, k):
    s = dict(doc["s"])
    for name in SIZES:
        if name in s:
            p = parse(s[name])
            if p is not None and p[1] == "px":
                n = int(p[0]) * k
                s[name] = f"{n}px" if isinstance(s[name], str) else n
    out = {"s": s, "c": [times(c, k) for c in doc["c"]]}
    if "i" in doc:
        out["i"] = {p: v * k if p in ("width", "height") else v for p, v in doc["i"].items()}
    return out


def laid_out(case, doc, display):
    root = D.build(doc, case["top_down"])
    D.run_layout(D.Display(display), root, case["standard"])
    return D.snap_tree(root)


def check(case, note):
    k = case["k"]
    doc, display = case["doc"], case["display"]
    large = {"dpi": display["dpi"] * k, "w": display["w"] * k, "h": display["h"] * k, "fixed": [v * k for v in display["fixed"]]}
    a = laid_out(case, doc, display)
    b = laid_out(case, times(doc, k), large)
    require(len(a) == len(b), "the number of boxes changed")
    for n, (x, y) in enumerate(zip(a, b)):
        require((x is None) == (y is None), f"box {n}: exists in one of the layouts only")
        if x is None:
            continue
        for p, v in x.items():
            require(F(y[p]) == F(v) * k, f"box {n} (in document order): {p} is {v}, and {y[p]} with everything multiplied by {k}")
    kinds = {parse(v)[1] for d in D.walk_doc(doc) for name, v in d["s"].items() if name in SIZES and parse(v)}
    for u in sorted(kinds - {"px"}):
        note(u)
    return len(a) >= 5 or bool(kinds - {"px"})


def case(r):
    doc = gen.odd(r, gen.free_doc(r))
    if r.maybe(0.3):
        doc = gen.hide(r, doc, 0.15, anything=False)
    return {
        "doc": whole(doc),
        "display": {"dpi": r.choice([72, 144, 360]), "w": 100 * r.weighted((3, lambda r: r.int(1, 40)), (1, lambda r: r.int(1, 400))), "h": 100 * r.int(1, 40), "fixed": r.choice([[1, 5, 10], [1, 3, 5], [2, 4, 9]])},
        "standard": r.choice(["html5", "html4"]),
        "top_down": r.maybe(0.5),
        "k": r.weighted((4, lambda r: r.choice([2, 3, 10])), (2, lambda r: r.int(2, 60)), (1, 1000), (1, lambda r: 2 ** r.int(10, 30))),
    }


LAWS = [Law("scale", check, case, quick=16000)]
