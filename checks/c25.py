import copy
import pickle

from vlib.base import Law, require

RULE = ("Random immutable and cursor lists (numbers, texts, tuples, None) and histories of up to 12 operations: every mutating operation and method of list with random arguments, and every reading one. The content is compared with a tuple after every operation; every mutation must raise TypeError, every reading gives what a list gives. "
        "Non-trivial: a list that is not empty and at least one mutation.")
ASSUMPTIONS = ["calling list's methods or __init__ explicitly on an existing list is not an operation on it"]


def make(name, items):
    from colosseum import wrappers

    return getattr(wrappers, name)(items)


def outcome(fn):
    try:
        return ("value", fn())
    except (IndexError, ValueError, TypeError) as e:
        return ("raised", type(e).__name__)


def index(k):
    return slice(*k[1:]) if isinstance(k, list) else k


def iadd(x, v):
    x += v


def imul(x, n):
    x *= n


def setitem(x, k, v):
    x[k] = v


def delitem(x, k):
    del x[k]


CONTAINERS = [lambda x, v: [v], lambda x, v: (v, v), lambda x, v: type(x)([v]), lambda x, v: type(x)(), lambda x, v: iter([v]), lambda x, v: "ab", lambda x, v: {"a": 1}, lambda x, v: x,
              lambda x, v: x.copy()]
MUTATIONS = {
    "append": lambda x, k, v, n: x.append(v),
    "extend": lambda x, k, v, n: x.extend([v] * n),
    "extend by": lambda x, k, v, n: x.extend(CONTAINERS[n % len(CONTAINERS)](x, v)),
    "+= of": lambda x, k, v, n: iadd(x, CONTAINERS[n % len(CONTAINERS)](x, v)),
    "set slice of": lambda x, k, v, n: setitem(x, index(k), CONTAINERS[n % len(CONTAINERS)](x, v)),
    "insert": lambda x, k, v, n: x.insert(n, v),
    "pop": lambda x, k, v, n: x.pop(),
    "pop at": lambda x, k, v, n: x.pop(n),
    "remove": lambda x, k, v, n: x.remove(v),
    "clear": lambda x, k, v, n: x.clear(),
    "reverse": lambda x, k, v, n: x.reverse(),
    "sort": lambda x, k, v, n: x.sort(),
    "sort by": lambda x, k, v, n: x.sort(key=str),
    "sort reverse": lambda x, k, v, n: x.sort(reverse=True),
    "remove first": lambda x, k, v, n: x.remove(x[0] if x else v),
    "*= 1": lambda x, k, v, n: imul(x, 1),
    "del last": lambda x, k, v, n: delitem(x, -1),
    "sort down": lambda x, k, v, n: x.sort(key=str, reverse=True),
    "set": lambda x, k, v, n: setitem(x, n, v),
    "set slice": lambda x, k, v, n: setitem(x, index(k), [v] * n),
    "set all": lambda x, k, v, n: setitem(x, slice(None), [v]),
    "del": lambda x, k, v, n: delitem(x, n),
    "del slice": lambda x, k, v, n: delitem(x, index(k)),
    "del all": lambda x, k, v, n: delitem(x, slice(None)),
    "+=": lambda x, k, v, n: iadd(x, [v]),
    "+= itself": lambda x, k, v, n: iadd(x, x),
    "+= nothing": lambda x, k, v, n: iadd(x, []),
    "*=": lambda x, k, v, n: imul(x, n),
}
READINGS = {
    "get": lambda x, k, v, n: x[n],
    "get slice": lambda x, k, v, n: list(x[index(k)]),
    "len": lambda x, k, v, n: len(x),
    "iterate": lambda x, k, v, n: [y for y in x],
    "reversed": lambda x, k, v, n: list(reversed(x)),
    "in": lambda x, k, v, n: v in x,
    "count": lambda x, k, v, n: x.count(v),
    "index": lambda x, k, v, n: x.index(v),
    "+": lambda x, k, v, n: list(x + [v]),
    "*": lambda x, k, v, n: list(x * max(n, 0)),
    "r*": lambda x, k, v, n: list(max(n, 0) * x),
    "bool": lambda x, k, v, n: bool(x),
    "list": lambda x, k, v, n: list(x),
    "bad index": lambda x, k, v, n: x["a"],
    "far": lambda x, k, v, n: x[100],
    "-far": lambda x, k, v, n: x[-100],
    "sorted": lambda x, k, v, n: sorted(x, key=repr),
    "+= of a name": lambda x, k, v, n: [v] + list(x),
}


def tupled(x):
    return tuple(tupled(i) for i in x) if isinstance(x, list) else x


def check(case, note):
    items = [tupled(v) for v in case["items"]]
    x = make(case["type"], list(items))
    model = tuple(items)
    digest = hash(x)
    shown = repr(x), str(x)
    mutated = False
    for name, k, v, n in case["ops"]:
        v = tupled(v)
        if name in MUTATIONS:
            try:
                MUTATIONS[name](x, k, v, n)
            except TypeError:
                pass
            else:
                require(False, f"{name} ({k!r}, {v!r}, {n!r}) on {shown[0]} did not raise TypeError")
            mutated = True
        elif name in READINGS:
            got = outcome(lambda: READINGS[name](x, k, v, n))
            want = outcome(lambda: READINGS[name](list(model), k, v, n))
            require(got == want, f"{name} ({k!r}, {v!r}, {n!r}) on {shown[0]} gives {got!r}, on a list {want!r}")
        else:
            dup = {"copy": lambda: x.copy(), "copy.copy": lambda: copy.copy(x), "deepcopy": lambda: copy.deepcopy(x), "pickle": lambda: pickle.loads(pickle.dumps(x, abs(n) + 1)),
                   "rebuild": lambda: make(case["type"], model), "of itself": lambda: make(case["type"], x), "of iterator": lambda: make(case["type"], iter(model))}[name]()
            require(type(dup) is type(x) and list(dup) == list(model), f"{name} of {shown[0]} gives {dup!r}")
            require(dup == x and not dup != x and hash(dup) == hash(x), f"{name} of {shown[0]} is not equal, or has another hash")
            require({x: 1}.get(dup) == 1, f"{name} of {shown[0]} is another key")
            try:
                dup.append(1)
            except TypeError:
                pass
            else:
                require(False, f"{name} of {shown[0]} can be changed")
        note(name)
        require(tuple(x) == model and len(x) == len(model), f"{name} ({k!r}, {v!r}, {n!r}) changed {shown[0]} to {x!r}")
        require(hash(x) == digest and (repr(x), str(x)) == shown, f"{name} changed the hash or the text of {shown[0]}")
    other = make(case["type"], [tupled(v) for v in case["other"]])
    require((x == other) is (list(model) == list(other)), f"{x!r} == {other!r} is {x == other}")
    if x == other:
        require(hash(x) == hash(other), f"{x!r} and {other!r} are equal with different hashes")
    require((x == list(model)) is True, f"{x!r} is not equal to {list(model)!r}")
    require(str(x) == ", ".join(str(v) for v in model), f"the text of {x!r} is {str(x)!r}")
    return bool(items) and mutated


def g_item(r):
    return r.one(lambda r: r.int(0, 3), lambda r: r.choice(["auto", "a", "", "pointer"]), None, lambda r: [r.int(0, 1), "x"], 1.0)


def g_op(r):
    name = r.weighted((4, lambda r: r.choice(sorted(MUTATIONS))), (3, lambda r: r.choice(sorted(READINGS))),
                      (1, lambda r: r.choice(["copy", "copy.copy", "deepcopy", "pickle", "rebuild", "of itself", "of iterator"])))
    bound = lambda r: r.one(None, lambda r: r.int(-4, 4))  # noqa: E731
    return [name, ["slice", bound(r), bound(r), r.choice([None, 1, 2, -1])], g_item(r), r.int(-4, 4)]


def cases(r):
    items = [g_item(r) for _ in r.many(0, 5, 0.75)]
    if items and r.maybe(0.2):
        # some of them are the same
        items = [items[r.below(min(2, len(items)))] for _ in items]
    k, j = r.below(len(items) + 1), r.below(len(items) + 1)
    near = r.choice([items[:k], items[k:], items[:k] + items[k + 1:], items[::-1], items + items[:k], items[:k] + items[j:j + 1] + items[k:], items[:k] + [g_item(r)] + items[k + 1:]])
    other = r.weighted((4, list(items)), (3, near), (3, lambda r: [g_item(r) for _ in r.many(0, 3)]))
    return {"type": r.choice(["ImmutableList", "Cursor"]), "items": items, "other": other, "ops": [g_op(r) for _ in r.many(1, 12, 0.8)]}


def all_mutations():
    for t in ("ImmutableList", "Cursor"):
        for items in ([], ["auto"], ["b", "a", "c"]):
            for name in sorted(MUTATIONS):
                yield {"type": t, "items": items, "other": [], "ops": [[name, ["slice", 0, 1, None], "a", 0], ["list", ["slice", None, None, None], "a", 0]]}


def parsed(case, note):
    "Cursors as they are read from a declaration"
    from colosseum.declaration import CSS

    css = CSS()
    css.cursor = case["v"]
    x = css.cursor
    before = list(x)
    name, k, v, n = case["op"]
    try:
        MUTATIONS[name](x, k, tupled(v), n)
    except TypeError:
        pass
    else:
        require(False, f"{name} on the cursor {case['v']!r} did not raise TypeError")
    require(list(css.cursor) == before and css.cursor is x, f"{name} changed the cursor {case['v']!r} to {css.cursor!r}")
    require(isinstance(hash(x), int), "hash")
    note("cursor of a declaration")
    return True


def parsed_case(r):
    v = r.choice(["auto", "url(a.png), wait", "url('x'), url(y), pointer", "help"])
    return {"v": v, "op": [r.choice(sorted(MUTATIONS)), ["slice", 0, r.choice([None, 1]), None], "auto", r.int(0, 1)]}


LAWS = [
    Law("mutations", check, exhaustive=all_mutations),
    Law("history", check, cases, quick=60000),
    Law("parsed", parsed, parsed_case, quick=8000),
]
