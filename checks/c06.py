import copy

from vlib import doc as D
from vlib import gen
from vlib.base import Law, require

RULE = ("Random histories of up to 14 edits (set/delete style properties through attributes, items or update; replace the style; change intrinsic sizes; add, remove, move subtrees, put removed ones back; hide and show nodes, also the root; directional properties and border shorthands; the application marking the layout clean; layouts aborted by an injected exception or an unsupported feature) interleaved with layouts on several displays and in both HTML standards. "
        "After every layout all edges of all boxes are compared with a freshly built copy of the current document. Non-trivial: at least two layouts with an edit in between that changed the layout.")
ASSUMPTIONS = [
    "the oracle for the fresh document is the library itself; whether that layout is right is decided by the other properties",
    "children of one node are all block-level or all inline; features the engine does not implement do not occur",
]


class Live:
    "A live document next to its plain description"

    def __init__(self, doc, top_down):
        self.doc = doc
        self.node = D.build(doc, top_down)
        self.removed = []

    def pairs(self):
        out = []
        stack = [(self.doc, self.node, None, None)]
        while stack:
            d, n, pd, pn = stack.pop()
            out.append((d, n, pd, pn))
            stack.extend((c, k, d, n) for c, k in reversed(list(zip(d["c"], n.children))))
        return out


class Fault(Exception):
    "Injected failure"


class FaultyDisplay(D.Display):
    "A display that fails when it is used for the n-th time"

    def __init__(self, data, n):
        super().__init__(data)
        self._left = n

    def __getattribute__(self, name):
        if not name.startswith("_"):
            self._left -= 1
            if self._left < 0:
                raise Fault(name)
        return super().__getattribute__(name)


UNSUPPORTED = [{"float": "left"}, {"position": "absolute"}, {"position": "fixed"}, {"display": "inline-block"}]


def failing_layout(live, op, display, note):
    "A layout that is aborted by an exception at any point"
    if op["how"] < len(UNSUPPORTED):
        # by a feature that isn't implemented
        pairs = live.pairs()
        d, n, _, _ = pairs[op["at"] % len(pairs)]
        for name, value in UNSUPPORTED[op["how"]].items():
            setattr(n.style, name, value)
        try:
            D.run_layout(D.Display(display), live.node, op["standard"])
        except Exception:
            note("failed layout (unsupported)")
        for name in UNSUPPORTED[op["how"]]:
            if name in d["s"]:
                setattr(n.style, name, d["s"][name])
            else:
                delattr(n.style, name)
    else:
        faulty = FaultyDisplay(display, op["n"])
        try:
            D.run_layout(faulty, live.node, op["standard"])
        except Fault:
            note("failed layout (injected)")


def is_para(d):
    return any(c["s"].get("display") == "inline" or "i" in c for c in d["c"])


def apply(live, op, note):
    pairs = live.pairs()
    kind = op["op"]
    d, n, pd, pn = pairs[op["at"] % len(pairs)]
    inline = "i" in d
    if kind == "style":
        style = op["inline"] if inline else op["block"]
        for name, value in style.items():
            if name == "display" and (inline or "none" in (value, d["s"]["display"])):
                continue
            if op["via"] == 0:
                setattr(n.style, name, value)
            elif op["via"] == 1:
                n.style[name.replace("_", "-")] = value
            else:
                n.style.update(**{name: value})
            d["s"][name] = value
    elif kind == "unstyle":
        names = [x for x in d["s"] if x != "display"]
        for i, name in enumerate(names):
            if op["mask"] >> (i % 16) & 1:
                del d["s"][name]
                if op["via"] == 0:
                    delattr(n.style, name)
                elif op["via"] == 1:
                    del n.style[name.replace("_", "-")]
                else:
                    n.style.update(**{name: None})
    elif kind == "restyle":
        style = dict(op["inline"] if inline else op["block"])
        style["display"] = d["s"]["display"]
        d["s"] = style
        n.style = D.CSS(**style).copy(n)
    elif kind == "intrinsic":
        if inline:
            d["i"] = dict(op["intrinsic"])
            full = {"width": None, "height": None, "ratio": None, "is_replaced": False, "exact_width": True, "exact_height": True, **op["intrinsic"]}
            for k, v in full.items():
                setattr(n.intrinsic, k, v)
    elif kind == "hide":
        d["s"]["display"] = "none"
        n.style.display = "none"
        note("hide")
    elif kind == "show":
        hidden = [(d, n) for d, n, _, _ in pairs if d["s"]["display"] == "none"]
        if hidden and not op["mask"] & 1:
            hidden = [hidden[op["at"] % len(hidden)]]
        for d, n in hidden:
            d["s"]["display"] = "inline" if "i" in d else "block"
            n.style.display = d["s"]["display"]
            note("show")
    elif kind == "add":
        if not inline and not is_para(d):
            sub = copy.deepcopy(op["doc"])
            i = op["index"] % (len(d["c"]) + 1)
            d["c"].insert(i, sub)
            n.add(D.build(sub, op["via"] == 1), i)
            note("add")
    elif kind == "remove":
        if pd is not None:
            i = pn.children.index(n)
            del pd["c"][i]
            pn.remove(n)
            live.removed.append((d, n))
            note("remove")
    elif kind == "restore":
        if live.removed:
            rd, rn = live.removed[op["mask"] % len(live.removed)]
            if "i" in rd if inline else not d["c"] or is_para(d) == ("i" in rd):
                live.removed.remove((rd, rn))
                i = op["index"] % (len(d["c"]) + 1)
                d["c"].insert(i, rd)
                n.add(rn, i)
                note("put back")
    elif kind == "four":
        value = op["value"]
        name = op["name"]
        pattern = "border_{}_width" if name == "border_width" else name + "_{}"
        if value is None:
            if op["via"] == 0:
                delattr(n.style, name)
            elif op["via"] == 1:
                del n.style[name.replace("_", "-")]
            else:
                n.style.update(**{name: None})
            for side in gen.SIDES:
                d["s"].pop(pattern.format(side), None)
        else:
            t, r = value[0], value[1 % len(value)]
            b = value[2] if len(value) > 2 else t
            l = value[3] if len(value) > 3 else r
            given = tuple(value) if len(value) > 1 or op["mask"] & 1 else value[0]
            if op["via"] == 0:
                setattr(n.style, name, given)
            elif op["via"] == 1:
                n.style[name.replace("_", "-")] = given
            else:
                n.style.update(**{name: given})
            for side, v in zip(gen.SIDES, (t, r, b, l)):
                d["s"][pattern.format(side)] = v
        note("directional")
    elif kind == "border":
        side = op["side"]
        text = op["value"]
        setattr(n.style, f"border_{side}" if side else "border", f"solid {text}")
        for x in [side] if side else gen.SIDES:
            d["s"][f"border_{x}_width"] = text
            d["s"][f"border_{x}_style"] = "solid"
            d["s"].pop(f"border_{x}_color", None)
        note("border")
    elif kind == "clean":
        if live.node.layout is not None:
            live.node.layout.dirty = op["value"]
    elif kind == "move":
        if pd is not None:
            inside = set(map(id, D.walk(n)))
            targets = [(td, tn) for td, tn, _, _ in pairs if id(tn) not in inside
                       and (inline if "i" in td else not td["c"] or is_para(td) == inline or (len(td["c"]) == 1 and td is pd))]
            if targets:
                td, tn = targets[op["index"] % len(targets)]
                i = pn.children.index(n)
                del pd["c"][i]
                pn.remove(n)
                j = op["mask"] % (len(td["c"]) + 1)
                td["c"].insert(j, d)
                tn.add(n, j)
                note("move")


def check(case, note):
    live = Live(copy.deepcopy(case["doc"]), case["top_down"])
    # several displays, or one that changes
    displays = [D.Display(x) for x in case["displays"]] if not case["one"] else [D.Display(case["displays"][0])] * len(case["displays"])
    layouts = changed = 0
    previous = None
    dirty = False
    for op in case["ops"]:
        if op["op"] == "fail":
            failing_layout(live, op, case["displays"][op["display"] % len(displays)], note)
            continue
        if op["op"] != "layout":
            apply(live, op, note)
            dirty = True
            continue
        k = op["display"] % len(displays)
        fresh = D.build(live.doc, op["top_down"])
        D.run_layout(D.Display(case["displays"][k]), fresh, op["standard"])
        want = D.snap_tree(fresh)
        displays[k].__init__(case["displays"][k])
        for again in range(1 + op["again"]):
            D.run_layout(displays[k], live.node, op["standard"])
            got = D.snap_tree(live.node)
            delta = D.diff_snap(got, want)
            require(delta is None, f"layout {layouts} differs from that of a fresh document: {delta}")
        layouts += 1
        if previous is not None and dirty and previous != want:
            changed += 1
        previous, dirty = want, False
        if live.node.layout is None:
            note("root hidden")
    if layouts >= 3:
        note("3 or more layouts")
    return changed > 0


SMALL = gen.Opts(percent=True, units=True, size=4, depth=3)


def gen_op(r):
    kind = r.weighted((5, "style"), (2, "unstyle"), (1, "restyle"), (1, "intrinsic"), (3, "hide"), (3, "show"), (2, "add"), (2, "remove"), (2, "move"), (4, "restore"), (2, "four"), (1, "border"))
    op = {"op": kind, "at": r.below(16), "via": r.below(3)}
    if kind in ("style", "restyle"):
        op["block"] = gen.free_style(r, SMALL, r.choice([0.2, 0.5]))
        op["inline"] = gen.inline_node(r)["s"]
        if kind == "restyle":
            for k in ("block", "inline"):
                op[k].pop("display", None)
    elif kind == "intrinsic":
        op["intrinsic"] = gen.inline_intrinsic(r)
    elif kind == "add":
        doc = gen.free_doc(r, SMALL)
        if r.maybe(0.3):
            gen.hide(r, doc, 0.3, 0.3, anything=False)
        op["doc"] = doc
    elif kind == "four":
        op["name"] = r.choice(["margin", "padding", "border_width"])
        lo = -20 if op["name"] == "margin" else 0
        op["value"] = None if r.maybe(0.3) else [r.weighted((3, gen.px(lo, 40)), (1, gen.unit()), (0 if op["name"] == "border_width" else 1, gen.pct(0, 20))) for _ in range(r.int(1, 4))]
    elif kind == "border":
        op["side"] = r.choice(["", "top", "right", "bottom", "left"])
        op["value"] = r.weighted((1, gen.line), (2, lambda r: f"{r.int(0, 20)}px"))
    if kind in ("add", "move", "restore"):
        op["index"] = r.below(8)
    if kind in ("unstyle", "show", "move", "restore", "four"):
        op["mask"] = r.below(1 << 16)
    return op


def cases(r):
    doc = gen.free_doc(r, gen.Opts(percent=True, units=True, size=8, depth=4))
    if r.maybe(0.3):
        gen.hide(r, doc, 0.15, 0.05, anything=False)
    displays = [gen.display(r)]
    if r.maybe(0.4):
        displays.append(gen.display(r))

    def layout():
        return {"op": "layout", "display": r.below(2), "standard": r.choice(["html5", "html4"]), "top_down": r.maybe(0.5), "again": int(r.maybe(0.3))}

    ops = []
    if r.maybe(0.8):
        ops.append(layout())
    for _ in r.many(1, 5, 0.8):
        for _ in r.many(0, 4, 0.5):
            ops.append(gen_op(r))
        if r.maybe(0.2):
            ops.append({"op": "fail", "at": r.below(16), "how": r.below(8), "n": r.weighted((2, lambda r: r.int(0, 20)), (1, lambda r: r.int(0, 100))), "display": r.below(2), "standard": r.choice(["html5", "html4"])})
        if r.maybe(0.2):
            ops.insert(len(ops) - r.below(2) * min(len(ops), 1), {"op": "clean", "at": 0, "value": r.choice([False, False, None, True])})
        ops.append(layout())
    return {"doc": doc, "displays": displays, "one": r.maybe(0.3), "top_down": r.maybe(0.5), "ops": ops}


LAWS = [Law("history", check, cases, quick=24000)]
