"""What a check module is made of.

A check module defines ``LAWS`` (a list of Law), ``RULE`` (how cases are made,
and which count as non-trivial) and optionally ``ASSUMPTIONS``.

A law is a predicate over generated, plain-data cases.  Its function gets
``(case, note)``; it raises Violation when the code under test breaks the
property, and calls ``note(label)`` to classify the case.  It returns True
when the case was non-trivial.
"""


class Violation(Exception):
    "The code under test broke the property."


class Discard(Exception):
    "The case is outside of the domain (e.g. a rounding tie); it isn't counted."


class Law:
    def __init__(self, name, fn, gen=None, strategy=None, quick=2000, thorough=None, exhaustive=None):
        self.name = name
        self.gen = gen                # function of a Source, returning plain data
        self.strategy = strategy      # or: () -> Hypothesis strategy of plain data
        self.fn = fn                  # (case, note) -> bool
        self.quick = quick            # number of examples, all shards together
        self.thorough = thorough or quick * 25
        self.exhaustive = exhaustive  # optional: () -> iterable of cases, always all evaluated


class Finding:
    """A known, recorded defect: one specific input.

    ``fn()`` returns "known" while the code fails exactly as recorded, "ok"
    when the code is right, and raises Violation for anything else.
    """

    def __init__(self, key, what, fn):
        self.key = key
        self.what = what
        self.fn = fn


def require(cond, message, *args):
    if not cond:
        raise Violation(message % args if args else message)
