import json
import os
import select
import subprocess
import sys

from vlib import css as C
from vlib import doc as D
from vlib import gen, runner
from vlib import values as V
from vlib.base import Law, require

RULE = ("The same work (a history of operations on a declaration, a layout - done twice -, or the parsing of a text) is done in four processes: with different hash seeds, with and without -O and -OO, in another locale and time zone, "
        "and after different other work. What is observed (values, texts, representations, declared properties, error messages, all numbers of all boxes) must be the same. Non-trivial: two or more operations, or two or more boxes.")
ASSUMPTIONS = [
    "items() and keys() have no order; addresses of objects in representations are not compared",
    "the processes go on from case to case, and each of them does only some of the other work of each case",
]
PEERS = [
    {"hash": "0", "flags": [], "env": {}},
    {"hash": "1", "flags": ["-O"], "env": {"LC_ALL": "C", "LANG": "C", "TZ": "UTC"}},
    {"hash": "7", "flags": ["-OO"], "env": {"LC_ALL": "C.UTF-8", "TZ": "Asia/Tokyo", "COLUMNS": "10"}},
    {"hash": "4242", "flags": ["-X", "utf8"], "env": {"TZ": "America/New_York", "HOME": "/"}},
]
SECONDS = 150
peers = []


def start():
    for p in PEERS:
        env = {k: v for k, v in os.environ.items() if k not in ("PYTHONHASHSEED", "PYTHONPATH")}
        env.update(p["env"], PYTHONHASHSEED=p["hash"], PYTHONPATH=runner.VERIF)
        peers.append(subprocess.Popen([sys.executable, "-B", *p["flags"], "-m", "vlib.peer", runner.SRC], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env, cwd=runner.VERIF))


def stop():
    while peers:
        p = peers.pop()
        p.kill()
        p.communicate()


def answer(peer):
    ready, _, _ = select.select([peer.stdout], [], [], SECONDS)
    line = peer.stdout.readline() if ready else None
    if not line:
        stop()
        require(False, f"no result after {SECONDS} s" if line is None else "the process ended")
    return json.loads(line)


def difference(a, b, path=()):
    if type(a) is type(b) and isinstance(a, (list, dict)) and len(a) == len(b):
        for k in (a if isinstance(a, dict) else range(len(a))):
            if isinstance(a, dict) and k not in b:
                return path + (k,), "there", "missing"
            if a[k] != b[k]:
                return difference(a[k], b[k], path + (k,))
    return path, a, b


def same(case, note):
    if not peers:
        start()
    for k, peer in enumerate(peers):
        other = [t for i, t in enumerate(case["other"]) if (i + k) % 2]
        peer.stdin.write(json.dumps([*other, case["task"]]) + "\n")
        peer.stdin.flush()
    answers = [answer(p)[-1] for p in peers]
    for k in range(1, len(answers)):
        if answers[k] != answers[0]:
            path, x, y = difference(answers[0], answers[k])
            a, b = ({n: v for n, v in p.items() if v} for p in (PEERS[0], PEERS[k]))
            require(False, f"{case['task']['kind']}, observation {'/'.join(map(str, path))}: {str(x)[:300]!r} in a process with {a}, {str(y)[:300]!r} with {b}")
    note(case["task"]["kind"])
    return len(case["task"].get("ops", "..")) > 1 and (case["task"]["kind"] != "document" or bool(case["task"]["doc"]["c"]))


MORE = ["margin", "padding", "border_width", "border_color", "border_style", "border_top", "border_right", "border_bottom", "border_left", "outline"]
PARSERS = ["units", "color", "border_spacing", "rect", "quotes", "outline", "border", "border_top", "border_right", "border_bottom", "border_left", "uri", "cursor"]


def g_value(r, name):
    from checks import c12

    if name in V.PROPS and r.maybe(0.7):
        return V.g_value(r, name)[0]
    if r.maybe(0.5):
        return r.choice(["1px solid red", "solid", "thin", "none", "3px", "dotted 2em", ["tuple", 1, 2], ["tuple", 1, 2, 3, 4], ["tuple", "red"], ["tuple", "solid", "dotted"], "red", "rgb(1, 2, 3) solid", "1px 1px", "red red"])
    return c12.g_soup(r)


def g_name(r):
    return r.weighted((3, lambda r: r.choice(V.LONGHANDS)), (3, lambda r: r.choice(MORE + ["border"])), (2, lambda r: r.choice(["border_top_width", "border_left_color", "margin_top", "text_align", "direction", "color", "quotes", "cursor", "clip"])),
                      (1, lambda r: r.choice(["bogus", "Width", "box"])))


def g_task(r):
    kind = r.weighted((5, "declaration"), (2, "document"), (2, "parse"))
    if kind == "parse":
        fn = r.choice(PARSERS)
        kinds = {"units": "len", "color": "color", "rect": "rect", "quotes": "quotes", "border_spacing": "spacing", "cursor": "cursor"}
        return {"kind": kind, "fn": fn, "v": V.g_other(r, kinds[fn])[0] if fn in kinds and r.maybe(0.6) else g_value(r, fn)}
    if kind == "document":
        doc = gen.odd(r, gen.free_doc(r))
        for d in D.walk_doc(doc):
            if r.maybe(0.15):
                # the sizes of fonts are not implemented, but they are the same everywhere
                d["s"][r.choice(["padding_left", "margin_top", "width", "border_top_width", "min_height"])] = f"{r.int(-3, 9)}{r.choice(['em', 'ex', 'ch'])}"
        return {"kind": kind, "doc": gen.hide(r, doc, 0.1) if r.maybe(0.3) else doc, "display": gen.display(r), "standard": r.choice(["html5", "html4"]), "top_down": r.maybe(0.5)}
    ops = []
    for _ in r.many(1, 14, 0.85):
        op, name = r.weighted((8, "set"), (1, "del"), (1, "copy"), (1, "update")), g_name(r)
        value = None
        if op == "set":
            value = g_value(r, name)
        elif op == "update":
            value = [[n, g_value(r, n)] for n in {g_name(r): 0 for _ in r.many(1, 4, 0.6)}]
        ops.append([op, name, value, r.choice(C.VIAS)])
    return {"kind": kind, "ops": ops, "more": MORE}


def similar(r, spec):
    "Nearly the same value"
    if isinstance(spec, str) and spec:
        k, j = r.below(len(spec)), r.below(len(spec))
        t = spec[:k] + spec[k + 1:]
        if " " in spec and r.maybe(0.3):
            at = spec.index(" ")
            return r.choice([spec[:at] + spec[at + 1:], spec[:at] + spec[at + 1:at + 2] + " " + spec[at + 2:], spec[:at - 1] + " " + spec[at - 1:at] + spec[at + 1:]])
        return r.choice([spec.swapcase(), spec + " ", t, t[:j] + spec[k] + t[j:], spec[:k] + spec[k] + spec[k:], spec[::-1], spec[:k] + r.choice("012 ,.px'") + spec[k + 1:], spec[:k] + " " + spec[k:], spec.replace(" ", "", 1)])
    if isinstance(spec, (int, float)):
        return r.choice([str(spec), float(spec), -spec, spec + 1, f"{spec}px", f"{spec}pt"])
    if isinstance(spec, list) and len(spec) > 1:
        k = r.int(1, len(spec) - 1)
        if spec[0] in ("list", "tuple"):
            return [r.choice(["list", "tuple"]), *spec[1:k], similar(r, spec[k]), *spec[k + 1:]]
        if spec[0] == "unit":
            return ["unit", r.choice([spec[1], spec[1] + 1, -spec[1], float(spec[1])]), r.choice(V.UNITS)]
    return spec


def variant(r, task):
    "Nearly the same work"
    if task["kind"] == "parse":
        return dict(task, v=similar(r, task["v"]))
    if task["kind"] == "declaration":
        return dict(task, ops=[[op, name, similar(r, spec) if op == "set" else spec, via] for op, name, spec, via in task["ops"]])

    def visit(d):
        return dict(d, s={k: similar(r, v) if isinstance(v, (int, float)) and r.maybe(0.5) else v for k, v in d["s"].items()}, c=[visit(c) for c in d["c"]])

    return dict(task, doc=visit(task["doc"]), display=r.choice([task["display"], gen.display(r)]))


def case(r):
    task = g_task(r)
    near = [variant(r, task) for _ in r.many(0, 4, 0.5)]
    if near and r.maybe(0.3):
        task, near[0] = near[0], task
    other = [g_task(r) for _ in r.many(0, 3, 0.3)] + near
    return {"task": task, "other": other}


LAWS = [Law("same", same, case, quick=10000)]
