import copy

from vlib import doc as D
from vlib import gen
from vlib.base import Law, require
from vlib.values import canon, LONGHANDS
from checks import c06

RULE = ("(a) Random documents (with hidden nodes, relative positions, inline content and non-layout style properties): everything observable about styles, intrinsic sizes, tree and display is compared before and after layouts. "
        "(b) Two or three documents, whose nodes' styles may be copied from the same declarations, are laid out and edited in random order; after every step the boxes of all other documents are compared with what they were, and every layout with that of the same document on its own. "
        "(c) A document is laid out at a random point within the layout of another one (from within the display), and both are compared with their layouts alone. "
        "Non-trivial: at least one declared length other than px or 0, or (b) at least two documents with different boxes, or (c) the second layout took place.")
ASSUMPTIONS = ["styles are observed through the public interface: attribute values, items, keys and text"]

SIZE = ["width", "height", "exact_width", "exact_height", "ratio", "is_replaced"]


def observe(root, display):
    out = []
    for n in D.walk(root):
        out.append({
            "values": {p: canon(getattr(n.style, p)) for p in LONGHANDS},
            "items": sorted((k, canon(v)) for k, v in n.style.items()),
            "keys": sorted(n.style.keys()),
            "text": str(n.style),
            "intrinsic": [getattr(n.intrinsic, p) for p in SIZE],
            "children": [id(c) for c in n.children],
            "parent": id(n.parent),
            "style": id(n.style),
            "size": id(n.intrinsic),
        })
    return out, dict(vars(display))


def pure(case, note):
    root = D.build(case["doc"], case["top_down"])
    display = D.Display(case["display"])
    before, dbefore = observe(root, display)
    for standard in case["standards"]:
        D.run_layout(display, root, standard)
        after, dafter = observe(root, display)
        for i, (a, b) in enumerate(zip(before, after)):
            for k in a:
                if k == "values":
                    for p in a[k]:
                        require(a[k][p] == b[k][p], f"layout changed {p} of node {i} from {a[k][p]} to {b[k][p]}")
                require(a[k] == b[k], f"layout changed {k} of node {i}: {a[k]} to {b[k]}")
        require(len(before) == len(after), "layout changed the number of nodes")
        require(dbefore == dafter, f"layout changed the display: {dbefore} to {dafter}")
    return any(isinstance(v, str) and v[-1:] in "%tcnmwhx" and not v.endswith("px") for d in D.walk_doc(case["doc"]) for k, v in d["s"].items() if k != "display")


EXTRA = {"clip": "rect(1px, 2px, 3px, 4px)", "quotes": "'<' '>'", "border_spacing": "1px 2px", "cursor": "url(a.png), auto", "color": "#12345678",
         "text_indent": "3em", "orphans": 3, "text_align": "center", "max_height": "none", "outline_color": "hsl(10, 20%, 30%)", "border_top_color": "red"}


def pure_case(r):
    doc = gen.odd(r, gen.free_doc(r))
    for d in D.walk_doc(doc):
        for name in r.sample(sorted(EXTRA), 0.08):
            d["s"][name] = EXTRA[name]
    if r.maybe(0.4):
        gen.hide(r, doc, 0.15, 0.05)
    return {"doc": doc, "display": gen.display(r), "top_down": r.maybe(0.5), "standards": r.choice([["html5"], ["html4"], ["html5", "html4"], ["html5", "html5"]])}


# ---------------------------------------------------------------- several documents
def several(case, note):
    docs = [copy.deepcopy(d) for d in case["docs"]]
    if case["equal"]:
        docs[1:] = [copy.deepcopy(docs[0]) for _ in docs[1:]]
    # styles of all documents are copied from one pool of declarations
    pool = {}

    def make(d):
        key = repr(sorted(d["s"].items(), key=repr))
        if case["shared"] and key in pool:
            css = pool[key]
            note("shared declaration")
        else:
            css = pool[key] = D.CSS(**d["s"])
        node = D.Node(None, [make(c) for c in d["c"]], d.get("i"))
        node.style = css.copy(node)
        return node

    lives = []
    for d in docs:
        live = c06.Live.__new__(c06.Live)
        live.doc, live.node, live.removed = d, make(d), []
        lives.append(live)
    displays = [D.Display(d) for d in case["displays"]]
    snaps = [None] * len(lives)
    for op in case["ops"]:
        k = op["doc_index"] % len(lives)
        if op["op"] == "layout":
            which = op["display"] % len(displays)
            D.run_layout(displays[which], lives[k].node, op["standard"])
            snaps[k] = D.snap_tree(lives[k].node)
            alone = D.build(lives[k].doc)
            D.run_layout(D.Display(case["displays"][which]), alone, op["standard"])
            delta = D.diff_snap(snaps[k], D.snap_tree(alone))
            require(delta is None, f"document {k} is laid out differently next to other documents: {delta}")
        else:
            c06.apply(lives[k], op, note)
            snaps[k] = None
        for j, snap in enumerate(snaps):
            if j != k and snap is not None:
                delta = D.diff_snap(D.snap_tree(lives[j].node), snap)
                require(delta is None, f"{op['op']} of document {k} changed document {j}: {delta}")
    done = [s for s in snaps if s is not None]
    if case["equal"]:
        note("equal documents")
    return len(done) > 1 and (case["equal"] or done[0] != done[1])


def several_case(r):
    small = gen.Opts(percent=True, units=True, size=5, depth=3)
    docs = [gen.free_doc(r, small) for _ in r.many(2, 3, 0.5)]
    for d in docs:
        if r.maybe(0.3):
            gen.hide(r, d, 0.15, 0.03, anything=False)
    ops = []
    for _ in r.many(2, 10, 0.8):
        op = {"op": "layout", "standard": r.choice(["html5", "html4"]), "display": r.below(2)} if r.maybe(0.6) else c06.gen_op(r)
        op["doc_index"] = r.below(3)
        ops.append(op)
    displays = [gen.display(r) for _ in r.many(1, 2, 0.5)]
    return {"docs": docs, "displays": displays, "equal": r.maybe(0.3), "shared": r.maybe(0.6), "ops": ops}


# ---------------------------------------------------------------- interleaved layouts
class Interleaved(D.Display):
    "A display that calls back when it is used for the n-th time"

    def __init__(self, data, n, callback):
        super().__init__(data)
        self._left, self._callback = n, callback

    def __getattribute__(self, name):
        if not name.startswith("_"):
            self._left -= 1
            if self._left == -1:
                self._callback()
        return super().__getattribute__(name)


def interleaved(case, note):
    "A second document is laid out at some point in the middle of the layout of the first one"
    one, two = (D.build(d, case["top_down"]) for d in case["docs"])
    ran = []

    def other():
        D.run_layout(D.Display(case["displays"][1]), two, case["standards"][1])
        ran.append(D.snap_tree(two))

    D.run_layout(Interleaved(case["displays"][0], case["at"], other), one, case["standards"][0])
    if not ran:
        return False
    for name, doc, display, standard, node in zip("ab", case["docs"], case["displays"], case["standards"], (one, two)):
        alone = D.build(doc, case["top_down"])
        D.run_layout(D.Display(display), alone, standard)
        delta = D.diff_snap(D.snap_tree(node), D.snap_tree(alone))
        require(delta is None, f"document {name} is laid out differently when another one is laid out in between: {delta}")
    return True


def interleaved_case(r):
    small = gen.Opts(percent=True, units=True, size=6, depth=4)
    return {"docs": [gen.free_doc(r, small) for _ in range(2)], "displays": [gen.display(r) for _ in range(2)], "standards": [r.choice(["html5", "html4"]) for _ in range(2)],
            "top_down": r.maybe(0.5), "at": r.weighted((3, lambda r: r.int(0, 12)), (1, lambda r: r.int(0, 60)))}


LAWS = [
    Law("pure", pure, pure_case, quick=12000),
    Law("several", several, several_case, quick=16000),
    Law("interleaved", interleaved, interleaved_case, quick=8000),
]
