from vlib import css as C
from vlib import doc as D
from vlib import values as V
from vlib.base import Law, require

RULE = ("Random declarations over all properties (set directly, by directional and shorthand properties, some deleted again), copied for a node or not, also copies of copies; then random changes to any of the declarations. All properties, keys, items and the text of every declaration are compared with models. "
        "Non-trivial: the declaration has at least two properties set, one of them not a keyword.")
ASSUMPTIONS = ["values themselves (e.g. colors) are not modified in place"]


def check(case, note):
    css, model = C.make(case["prior"], case["where"])
    for name, parts in case["sides"]:
        setattr(css, name, tuple(V.realize(s) for s, _ in parts))
        model.update({x: V.tup(c) for x, (_, c) in zip(V.DIRECTIONAL[name], parts)})
    for name in case["deleted"]:
        delattr(css, name)
        model.pop(name, None)
    C.check_readings(css, model, "original")
    nodes = [None]
    everything = [css]
    models = [model]
    for k, bound in case["copies"]:
        source = k % len(everything)
        before = C.observe(everything[source])
        node = (nodes[source] if bound == 2 and nodes[source] else D.Node({})) if bound else None
        own = dict(vars(node)) if bound else {}
        dup = everything[source].copy(node) if bound else everything[source].copy()
        if bound == 2 and nodes[source]:
            note("copied for the same node again")
        for x, v in own.items():
            require(getattr(node, x, None) is v, f"copying for a node changed its {x}")
        if node is not None:
            node.style = dup
        require(dup is not everything[source], "copy returned the same declaration")
        C.unchanged(everything[source], before, "copying changed the original")
        C.check_readings(dup, models[source], "copy")
        after = C.observe(dup)
        # a property may be listed or not while it has its initial value
        plain = {k for k, c in models[source].items() if c == V.PROPS[k][2]}
        require(after["values"] == before["values"], f"values of the copy: {after['values']!r}, original: {before['values']!r}")
        a, b = ([x for x in o["items"] if x[0] not in plain] for o in (after, before))
        require(a == b, f"items of the copy: {a!r}, original: {b!r}")
        a, b = ([x for x in o["keys"] if x not in plain] for o in (after, before))
        require(a == b, f"keys of the copy: {a!r}, original: {b!r}")
        if not plain:
            require(after["text"] == before["text"], f"text of the copy: {after['text']!r}, original: {before['text']!r}")
        everything.append(dup)
        models.append(dict(models[source]))
        nodes.append(node)
        note("copy for a node" if bound else "copy")
    bound = [n for n in nodes if n is not None]
    for k, op in case["changes"]:
        k %= len(everything)
        for n in bound:
            n.layout.dirty = False
        before = [C.observe(x) for x in everything]
        if op[0] == "set":
            setattr(everything[k], op[1], V.realize(op[2]))
            models[k][op[1]] = V.tup(op[3])
        else:
            delattr(everything[k], op[1])
            models[k].pop(op[1], None)
        C.check_readings(everything[k], models[k], f"declaration {k} after {op!r}")
        for j, x in enumerate(everything):
            if j != k:
                C.unchanged(x, before[j], f"declaration {j}, after changing declaration {k}")
        differs = C.observe(everything[k])["values"] != before[k]["values"]
        for j, n in enumerate(nodes):
            if n is None:
                continue
            if n is not nodes[k]:
                require(not n.layout.dirty, f"changing declaration {k} marked the node of declaration {j} dirty")
            elif differs:
                require(n.layout.dirty, f"{op!r} on the copy for a node did not mark its layout dirty")
                note("bound copy changed")
    nontrivial = len(model) > 1 and any(c is not None and c[0] != "kw" for c in model.values())
    for k, x in enumerate(everything):
        C.probe(x, models[k], f"declaration {k} at the end")
    return nontrivial


def cases(r):
    prior = C.g_state(r, 0, 10)
    sides = [[d, [V.g_value(r, x) for x in V.DIRECTIONAL[d]]] for d in r.sample(sorted(V.DIRECTIONAL), 0.1)]
    names = [x[0] for x in prior] or V.LONGHANDS
    changes = []
    for _ in r.many(0, 5, 0.7):
        name = r.choice(names) if r.maybe(0.6) else r.choice(V.LONGHANDS)
        op = ["delete", name] if r.maybe(0.3) else ["set", name, *V.g_value(r, name)]
        changes.append([r.below(4), op])
    return {"where": C.g_where(r), "prior": prior, "sides": sides, "deleted": r.sample(names, 0.1), "copies": [[r.below(3), r.weighted((3, 0), (2, 1), (1, 2))] for _ in r.many(1, 3, 0.4)], "changes": changes}


LAWS = [Law("copy", check, cases, quick=16000)]
