"""Build documents for the layout engine from plain data, and observe them.

A document is plain data: {"s": {property: value}, "i": {...}, "c": [children]}.
A display is {"dpi": .., "w": .., "h": .., "fixed": [thin, medium, thick]}.
"""
from colosseum.constants import HTML4, HTML5
from colosseum.declaration import CSS
from colosseum.dimensions import Box, Size
from colosseum.engine import layout as engine_layout


class Display:
    def __init__(self, data):
        self.dpi = data["dpi"]
        self.content_width = data["w"]
        self.content_height = data["h"]
        thin, medium, thick = data.get("fixed", [1, 5, 10])
        self._fixed = {"thin": thin, "medium": medium, "thick": thick}

    def fixed_size(self, value):
        return self._fixed[value]


class Node:
    def __init__(self, style=None, children=(), intrinsic=None, name=None):
        self.name = name
        self.parent = None
        self.children = []
        for child in children:
            self.add(child)
        self.intrinsic = Size(self)
        self.layout = Box(self)
        self.style = CSS(**(style or {})).copy(self)
        for key, value in (intrinsic or {}).items():
            setattr(self.intrinsic, key, value)

    def add(self, child, index=None):
        if index is None:
            self.children.append(child)
        else:
            self.children.insert(index, child)
        child.parent = self

    def remove(self, child):
        self.children.remove(child)
        child.parent = None


def build(doc, top_down=False):
    if top_down:
        node = Node(doc.get("s"), (), doc.get("i"))
        for child in doc.get("c", ()):
            node.add(build(child, True))
        return node
    return Node(doc.get("s"), [build(c) for c in doc.get("c", ())], doc.get("i"))


def run_layout(display, root, standard="html5"):
    engine_layout(display, root, HTML5 if standard == "html5" else HTML4)


SIDES = ("top", "right", "bottom", "left")
BOX_PROPS = (
    ["content_width", "content_height"]
    + [f"content_{s}" for s in SIDES]
    + [f"absolute_content_{s}" for s in SIDES]
    + [f"margin_{s}" for s in SIDES]
    + [f"collapse_{s}" for s in SIDES]
    + [f"padding_{s}" for s in SIDES]
    + [f"border_{s}_width" for s in SIDES]
    + [f"{b}_box_{d}" for b in ("padding", "border") for d in ("width", "height") + SIDES]
    + [f"absolute_{b}_box_{s}" for b in ("padding", "border") for s in SIDES]
)


def snap(node):
    "All observable numbers of the box of a node (None if it has none)."
    box = node.layout
    if box is None:
        return None
    return {p: getattr(box, p) for p in BOX_PROPS}


def walk(node):
    yield node
    for child in node.children:
        yield from walk(child)


def walk_doc(doc):
    yield doc
    for child in doc.get("c", ()):
        yield from walk_doc(child)


def snap_tree(node):
    return [snap(n) for n in walk(node)]


def diff_snap(a, b):
    "Describe the first difference of two snapshots, or None."
    if len(a) != len(b):
        return f"{len(a)} boxes instead of {len(b)}"
    for i, (x, y) in enumerate(zip(a, b)):
        if (x is None) != (y is None):
            return f"node {i} (preorder): {'no box' if x is None else 'a box'} where {'no box' if y is None else 'a box'} is expected"
        if x is not None and x != y:
            for p in BOX_PROPS:
                if x[p] != y[p]:
                    return f"node {i} (preorder): {p} is {x[p]!r}, expected {y[p]!r}"
    return None
