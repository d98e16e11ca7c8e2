from vlib import css as C
from vlib import values as V
from vlib.base import Law, require

from checks.c21 import recognise as recognise_length

RULE = ("(a) rect() clips, border spacings, quotes, URLs and cursor lists in every notation (text with random separators and padding, sequences, parsed objects) with random components: exact components in order, from the parser and from the property; the text of the result parses back to the same. "
        "(b) Malformed variants: wrong number of parts, an invalid, empty or misplaced part, missing or doubled parentheses, unquoted, empty or unbalanced quotes, unknown or misplaced cursor keywords, other types: ValueError from both, and the declaration is unchanged. "
        "(c) Mutations of such texts (rect, spacing, cursor): an independent recogniser decides what must be accepted, as what, or rejected. "
        "Non-trivial: (a) at least two components, (b) all, (c) all that are judged.")
ASSUMPTIONS = [
    "texts are parsed back for cursor lists whose URLs have no commas",
    "not judged: percentages, negative lengths, 'auto' within rect(), cursor lists without a keyword, unquoted URLs with quotation marks, nested quote tuples of other lengths than 2",
]
KINDS = {"rect": "clip", "spacing": "border_spacing", "quotes": "quotes", "cursor": "cursor"}
GEN = {"rect": V.g_rect, "spacing": V.g_spacing, "quotes": V.g_quotes, "uri": V.g_uri, "cursor": V.g_cursor}


def parse(kind, value):
    from colosseum import parser

    return {"rect": parser.rect, "spacing": parser.border_spacing, "quotes": parser.quotes, "uri": parser.uri, "cursor": parser.cursor}[kind](value)


def validate(kind, value):
    from colosseum import validators

    return {"rect": validators.is_rect, "spacing": validators.is_border_spacing, "quotes": validators.is_quote, "uri": validators.is_uri, "cursor": validators.is_cursor}[kind](value)


def reparses(kind, c):
    if kind == "cursor":
        return not any(ch in u[1] for u in c[1] if u[0] == "uri" for ch in ",")
    return True


def members(kind, value, c):
    "The accessors of a parsed value"
    if kind == "quotes":
        require(len(value) == len(c[1]), f"{value!r} has {len(value)} levels")
        for i, (a, b) in enumerate(c[1]):
            require(value.opening(i) == a and value.closing(i) == b, f"level {i} of {value!r}")
        for f in (value.opening, value.closing):
            try:
                f(len(c[1]))
            except IndexError:
                continue
            require(False, f"{value!r} has a level {len(c[1])}")
    elif kind == "cursor":
        require(len(value) == len(c[1]) and [V.canon(x) for x in value] == list(c[1]), f"members of {value!r}")


def valid(case, note):
    kind, spec, c = case["k"], case["v"], V.tup(case["c"])
    value = parse(kind, V.realize(spec))
    require(V.canon(value) == c, f"{kind} {spec!r} parses to {V.canon(value)!r}, expected {c!r}")
    members(kind, value, c)
    require(V.canon(parse(kind, value)) == c, f"parsed {kind} {spec!r} parses to {parse(kind, value)!r}")
    require(V.canon(validate(kind, V.realize(spec))) == c, f"{kind} {spec!r} validates to {validate(kind, V.realize(spec))!r}")
    if reparses(kind, c):
        text = str(value)
        again = parse(kind, text)
        require(V.canon(again) == c, f"{text!r}, the text of {kind} {spec!r}, parses to {V.canon(again)!r}, expected {c!r}")
        note("round trip")
    if kind in KINDS:
        from colosseum.declaration import CSS

        css = CSS()
        setattr(css, KINDS[kind], V.realize(spec))
        got = V.canon(getattr(css, KINDS[kind]))
        require(got == c, f"{KINDS[kind]}: {spec!r} reads {got!r}, expected {c!r}")
    if kind == "rect" or kind == "quotes":
        require(value == parse(kind, V.realize(spec)) and not value != parse(kind, V.realize(spec)), f"{kind} {spec!r} is not equal to itself")
    note(kind + (" text" if isinstance(spec, str) else " object"))
    return kind == "uri" or len(c) > 2 or len(c[1]) > 1


def valid_case(r):
    kind = r.choice(sorted(GEN))
    spec, c = GEN[kind](r)
    return {"k": kind, "v": spec, "c": c}


def different(case, note):
    "Values with different components are not equal"
    kind = case["k"]
    (a, x), (b, y) = case["a"], case["b"]
    p, q = parse(kind, V.realize(a)), parse(kind, V.realize(b))
    same = V.tup(x) == V.tup(y)
    require((p == q) is same, f"{p!r} == {q!r} is {p == q}")
    note("equal" if same else "different")
    return True


def different_case(r):
    kind = r.choice(["rect", "quotes"])
    a = GEN[kind](r)
    b = GEN[kind](r)
    if kind == "rect" and r.maybe(0.7):
        i = r.below(4)
        parts = list(a[1][1:])
        parts[i] = V.g_word(r)[1]
        c = ("rect", *parts)
        b = (["rect", *(["unit", p[1], p[2]] for p in parts)], c)
    if kind == "quotes" and r.maybe(0.7):
        pairs = [list(p) for p in a[1][1]]
        pairs[r.below(len(pairs))][r.below(2)] = r.choice(V.QUOTE_TEXTS)
        b = (["quotes", *pairs], ("quotes", tuple(tuple(p) for p in pairs)))
    return {"k": kind, "a": a, "b": b}


# ---------------------------------------------------------------- malformed
BAD_LENGTHS = ["", "x", "px", "1 px", "12abc", "1px;", "#fff", "red", "--1px", "1deg", "nanpx", "1..2px", "'1px'"]


def bad_rect(r):
    n = r.weighted((2, 4), (1, lambda r: r.choice([0, 1, 2, 3, 5, 6, 8])))
    parts = [V.g_word(r)[0] for _ in range(n)]
    why = f"{n} parts"
    sep = r.choice([", ", " ", ","])
    text = f"rect({sep.join(parts)})"
    if n != 4:
        return text, why
    kind = r.below(7)
    if kind == 0:
        i = r.below(4)
        bad = r.choice([b for b in BAD_LENGTHS if b not in ("", "1 px")])
        return f"rect({sep.join(parts[:i] + [bad] + parts[i + 1:])})", "invalid part"
    if kind == 1:
        return f"rect({', '.join(parts[:r.below(4)] + [''] + parts)}".rstrip() + ")", "empty part"
    if kind == 2:
        return r.choice([text[:-1], text[5:], text[5:-1], text[:4] + text[5:], "rect" + text[5:-1], text[4:]]), "missing parenthesis or name"
    if kind == 3:
        return r.choice([text + ")", "rect(" + text, "rect(" + text + ")", text + "x", "x" + text, text + " " + text, text + " 1px", "1px " + text]), "trailing text"
    if kind == 4:
        k = r.int(1, 2)
        return f"rect({', '.join(parts[:k])}, {' '.join(parts[k:])})", "mixed separators"
    if kind == 5:
        return text.replace("rect", r.choice(["inset", "rec", "tcer", "rectangle", "url", "r ect"])), "other function"
    return text.replace("(", r.choice(["[", "{", "<"])), "other bracket"


def bad_spacing(r):
    kind = r.below(6)
    if kind == 5:
        return ["junk", r.choice(["pxset", "pxdict", "pxset1", "pxdict1", "object", "dict", "bytes", "set"])], "other type"
    if kind == 0:
        parts = [V.g_word(r)[0] for _ in range(r.int(3, 5))]
        return (" ".join(parts) if r.maybe(0.5) else ["list", *parts]), "too many parts"
    if kind == 1:
        return r.choice(["", " ", ["list"], ["tuple"]]), "no parts"
    parts = [V.g_word(r)[0] for _ in range(r.int(1, 2))]
    if kind == 2:
        bad = r.choice([b for b in BAD_LENGTHS if b not in ("", "1 px")])
        parts[r.below(len(parts))] = bad
        return (" ".join(parts) if r.maybe(0.5) else [r.choice(["list", "tuple"]), *parts]), "invalid part"
    if kind == 3:
        parts = [V.g_word(r)[0] for _ in range(2)]
        return r.choice([", ", ",", "/", ";", " / "]).join(parts), "other separator"
    return ["list", *parts[:1], r.choice([None, ["junk", "object"], ["list", "1px"], "", ["junk", "dict"]])], "part of another type"


def bad_quotes(r):
    kind = r.below(7)
    words = [r.choice(["'<'", '">"', "'{'", '"a"', "'«'"]) for _ in range(2 * r.int(1, 3))]
    if kind == 0:
        return " ".join(words[:-1]), "odd number"
    if kind == 1:
        words[r.below(len(words))] = r.choice(["<", "a", "''", '""', "'a", 'a"', "'a\"", "'", '"', "12", "'a''b", "[]", "None", "1.5", "('a',", "b'a'", "{[]}", "{{}}", "{[]:1}", "-1", "'a'+'b'", "'a'*2", "('a','b')", "f'a'", "1j", "..."])
        return " ".join(words), "invalid word"
    if kind == 2:
        return r.choice(["", " ", ["list"], ["tuple"]]), "no quotes"
    texts = [r.choice(V.QUOTE_TEXTS) for _ in range(2 * r.int(1, 3))]
    if kind == 3:
        return [r.choice(["list", "tuple"]), *texts[:-1]], "odd sequence"
    if kind == 4:
        texts[r.below(len(texts))] = r.choice(["", 1, None, 1.5, ["list", 1], ["junk", "object"]])
        return [r.choice(["list", "tuple"]), *texts], "invalid member"
    if kind == 5:
        pairs = [["tuple", a, b] for a, b in zip(texts[::2], texts[1::2])]
        pairs[r.below(len(pairs))] = r.choice([["tuple", "<"], ["tuple", "<", ""], ["tuple", "<", 1], ["tuple", None, None], ["tuple", "a", "b", "c"]])
        return ["list", *pairs], "invalid pair"
    return r.choice([1, 1.5, ["junk", "dict"], ["junk", "object"], ["junk", "bytes"], ["junk", "set"], ["junk", "pairset"], ["junk", "pairdict"], ["junk", "pairgen"]]), "other type"


def bad_uri(r):
    url = r.choice(["a.png", "http://example.com/x.cur", "x", "../dir/c.svg#a"])
    q = r.choice(["", "'", '"'])
    text = f"url({q}{url}{q})"
    kind = r.below(4)
    if kind == 0:
        return r.choice([text[:-1], text[4:], text[4:-1], text[3:], url, "url", "url(", "", "()"]), "missing parenthesis or name"
    if kind == 1:
        return r.choice([text + "x", "x" + text, text + "; a", text + " auto", "auto " + text]), "trailing text"
    if kind == 2:
        return text.replace("url", r.choice(["uri", "ur", "src", "rect", "lru"])), "other function"
    return r.choice([1, None, 1.5, ["list", text], ["tuple"], ["junk", "bytes"], ["junk", "object"], ["junk", "dict"]]), "other type"


def bad_cursor(r):
    uris = [V.g_uri(r)[0] for _ in range(r.int(0, 2))]
    word = r.choice(V.CURSORS)
    kind = r.below(7)
    if kind == 0:
        parts = uris + [word, r.choice(V.CURSORS)]
        why = "two keywords"
    elif kind == 1:
        parts = [word] + uris + [V.g_uri(r)[0]]
        why = "keyword not last"
    elif kind == 2:
        bad = bad_uri(r)[0]
        parts = uris + [word]
        if bad in V.CURSORS or isinstance(bad, str) and "," in bad:
            bad = "bogus"
        parts.insert(r.below(len(uris) + 1), bad)
        why = "invalid part"
    elif kind == 3:
        parts = uris + [r.choice(["bogus", "Auto", "auto auto", "none", "resize", "e_resize", "pointer;", "url", "x-resize", "autoauto"])]
        why = "unknown keyword"
    elif kind == 4:
        parts = uris + [word]
        parts.insert(r.below(len(parts) + 1), "")
        why = "empty part"
    elif kind == 5:
        parts = [["cursor", word]] if r.maybe(0.3) else [word, *(["uri", "a.png"] for _ in range(r.int(1, 2)))]
        why = "parsed URL after the keyword, or nested"
    else:
        return r.choice([1, 1.5, ["junk", "dict"], ["junk", "object"], ["junk", "set"], ["junk", "cursorset"], ["junk", "cursordict"], None, ["list"], ["tuple"], "", " ", ","]), "other type, or empty"
    if all(isinstance(p, str) for p in parts) and r.maybe(0.5):
        return r.choice([", ", ","]).join(parts), why
    return [r.choice(["list", "tuple"]), *parts], why


BAD = {"rect": bad_rect, "spacing": bad_spacing, "quotes": bad_quotes, "uri": bad_uri, "cursor": bad_cursor}


def invalid(case, note):
    kind, spec = case["k"], case["v"]
    value = V.realize(spec)
    C.rejects(lambda: parse(kind, value), f"{kind} {value!r}")
    C.rejects(lambda: validate(kind, value), f"{kind} {value!r}")
    if kind in KINDS:
        from colosseum.declaration import CSS

        css = CSS()
        setattr(css, KINDS[kind], V.realize(case["old"][0]))
        C.rejects(lambda: setattr(css, KINDS[kind], value), f"{KINDS[kind]}: {value!r}")
        got = V.canon(getattr(css, KINDS[kind]))
        require(got == V.tup(case["old"][1]), f"{KINDS[kind]} changed to {got!r} by the rejected {value!r}")
    note(f"{kind}: {case['why']}")
    return True


def invalid_case(r):
    kind = r.choice(sorted(BAD))
    spec, why = BAD[kind](r)
    return {"k": kind, "v": spec, "why": why, "old": GEN[kind](r)}


# ---------------------------------------------------------------- mutated texts
def length(text):
    "Canonical length, 'bad' or None (not judged)"
    verdict = recognise_length(text)
    if verdict[0] != "ok":
        return "bad" if verdict[0] == "bad" and text != "auto" else None
    if verdict[2] == "%" or text.startswith("-"):
        return None
    return ("len", verdict[1], verdict[2])


def all_lengths(tag, parts):
    parts = [length(p) for p in parts]
    if "bad" in parts:
        return "bad"
    return None if None in parts else (tag, *parts)


def recognise(kind, text):
    "Canonical value, 'bad' or None (not judged)"
    if not text.isascii() or any(ch.isspace() and ch != " " for ch in text):
        return None
    text = text.strip()
    if kind == "spacing":
        parts = text.split()
        if len(parts) not in (1, 2) or "," in text:
            return "bad"
        c = all_lengths("spacing", parts)
        return c + c[1:] if c and c != "bad" and len(parts) == 1 else c
    if kind == "rect":
        if not text.startswith("rect"):
            return "bad"
        inner = text[4:]
        if inner.startswith(" "):
            return None
        if not (inner.startswith("(") and inner.endswith(")") and inner.count("(") == inner.count(")") == 1):
            return "bad"
        inner = inner[1:-1]
        parts = [p.strip() for p in inner.split(",")] if "," in inner else inner.split()
        if len(parts) != 4 or not all(parts):
            return "bad"
        for p in parts:
            if " " in p:
                # white space between a number and its unit is not judged
                a, b = p.split(None, 1)
                return None if length(a) != "bad" and b in V.UNITS else "bad"
        return all_lengths("rect", parts)
    # cursor
    parts = [p.strip() for p in text.split(",")]
    for p in parts[:-1]:
        if not (p.startswith("url(") and p.endswith(")")):
            return "bad"
        if any(ch in p[4:-1] for ch in "()'\""):
            return None
    if parts[-1].startswith("url(") and parts[-1].endswith(")"):
        return None
    if parts[-1] not in V.CURSORS:
        return None if parts[-1].lower() in V.CURSORS or parts[-1] in V.PROPS["cursor"][0] else "bad"
    return ("cursor", tuple(("uri", p[4:-1].strip()) for p in parts[:-1]) + (V.kw(parts[-1]),))


TOKENS = [",", " ", "  ", "(", ")", "px", "1", "0", ".", "-", "em", "rect(", "url(", "auto", "1px", ", ", "x", "'", "e", "1px, ", " 2em", "pointer", ", wait", "%", ";"]


def mutate(r, text):
    for _ in r.many(1, 3, 0.4):
        i, j = sorted((r.below(len(text) + 1), r.below(len(text) + 1)))
        kind = r.below(6)
        if kind == 0:
            text = text[:i] + text[i + 1:]
        elif kind == 1:
            text = text[:i] + r.choice(TOKENS) + text[i:]
        elif kind == 2:
            text = text[:i] + r.choice(TOKENS) + text[i + 1:]
        elif kind == 3:
            text = text[:j] + text[i:j] + text[j:]
        else:
            # move, replace or remove a separator
            seps = [k for k, ch in enumerate(text) if ch in ", "]
            if seps:
                k = r.choice(seps)
                ch = text[k]
                text = text[:k] + (" " if kind == 4 else "") + text[k + 1:]
                if kind == 5:
                    k = r.choice(seps)
                    text = text[:k] + ch + text[k:]
    return text


def fuzz(case, note):
    kind, text = case["k"], case["v"]
    want = recognise(kind, text)
    if want is None:
        note("not judged")
        return False
    if want == "bad":
        C.rejects(lambda: parse(kind, text), f"{kind} {text!r}")
        C.rejects(lambda: validate(kind, text), f"{kind} {text!r}")
        note(f"{kind} rejected")
    else:
        for got in (V.canon(parse(kind, text)), V.canon(validate(kind, text))):
            require(got == want, f"{kind} {text!r} is {got!r}, expected {want!r}")
        note(f"{kind} accepted")
    return True


def fuzz_case(r):
    kind = r.choice(["rect", "spacing", "cursor"])
    while True:
        spec = GEN[kind](r)[0]
        if isinstance(spec, str):
            return {"k": kind, "v": mutate(r, spec)}


LAWS = [
    Law("fuzz", fuzz, fuzz_case, quick=40000),
    Law("valid", valid, valid_case, quick=60000),
    Law("different", different, different_case, quick=12000),
    Law("invalid", invalid, invalid_case, quick=60000),
]
