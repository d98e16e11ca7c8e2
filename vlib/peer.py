"""Another process in which the code under test does the same work.

Reads tasks, one line of JSON each, and answers with what was observed.
"""
import json
import re
import sys

ADDRESS = re.compile(r"0x[0-9a-f]+")


def plain(value):
    "Text of a value that does not depend on where objects are in memory"
    return ADDRESS.sub("0x", repr(value))


def attempt(fn):
    try:
        return ["ok", fn()]
    except RecursionError:
        return ["RecursionError"]
    except Exception as e:
        return [type(e).__name__, ADDRESS.sub("0x", str(e))]


def reading(css, names):
    return {n: attempt(lambda: [plain(getattr(css, n)), ADDRESS.sub("0x", str(getattr(css, n)))]) for n in names}


def declaration(task):
    from colosseum.declaration import CSS

    from . import css as C
    from . import values as V

    css = CSS()
    out = []
    for op, name, spec, via in task["ops"]:
        if op == "set":
            out.append(attempt(lambda: C.assign(css, name, V.realize(spec), via)))
        elif op == "del":
            out.append(attempt(lambda: C.delete(css, name, via)))
        elif op == "copy":
            css = css.copy()
        elif op == "update":
            out.append(attempt(lambda: css.update(**{n: V.realize(v) for n, v in spec})))
    for c in (css, css.copy()):
        out.append([attempt(lambda: ADDRESS.sub("0x", str(c))), sorted(c.keys()), sorted([k, plain(v)] for k, v in c.items()), reading(c, V.LONGHANDS + task["more"])])
    return out


def document(task):
    from . import doc as D

    root = D.build(task["doc"], task["top_down"])
    out = []
    for _ in range(2):
        out.append(attempt(lambda: D.run_layout(D.Display(task["display"]), root, task["standard"])))
        out.append([None if s is None else {k: plain(v) for k, v in s.items()} for s in D.snap_tree(root)])
    return out


def parse(task):
    from colosseum import parser

    from . import values as V

    def fn():
        value = getattr(parser, task["fn"])(V.realize(task["v"]))
        if isinstance(value, dict):
            return sorted([k, plain(v), str(v)] for k, v in value.items())
        return [plain(value), ADDRESS.sub("0x", str(value)), type(value).__name__]

    return attempt(fn)


TASKS = {"declaration": declaration, "document": document, "parse": parse}


def perform(task):
    return attempt(lambda: TASKS[task["kind"]](task))


def main():
    sys.path.insert(0, sys.argv[1])
    for line in sys.stdin:
        tasks = json.loads(line)
        answers = [perform(t) for t in tasks]
        sys.stdout.write(json.dumps(answers) + "\n")
        sys.stdout.flush()


if __name__ == "__main__":
    main()
