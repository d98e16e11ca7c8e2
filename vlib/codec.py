"""Lossless JSON encoding of the plain Python values cases are made of."""
import json
import math


def enc(x):
    if x is None or isinstance(x, (bool, str)):
        return x
    if isinstance(x, int):
        return x if abs(x) < 2**53 else {"$i": str(x)}
    if isinstance(x, float):
        return x if math.isfinite(x) else {"$f": repr(x)}
    if isinstance(x, bytes):
        return {"$b": x.hex()}
    if isinstance(x, tuple):
        return {"$t": [enc(i) for i in x]}
    if isinstance(x, list):
        return [enc(i) for i in x]
    if isinstance(x, dict):
        if all(isinstance(k, str) and not k.startswith("$") for k in x):
            return {k: enc(v) for k, v in x.items()}
        return {"$d": [[enc(k), enc(v)] for k, v in x.items()]}
    if isinstance(x, (set, frozenset)):
        return {"$s": sorted((enc(i) for i in x), key=repr)}
    raise TypeError(f"cannot encode {x!r}")


def dec(x):
    if isinstance(x, list):
        return [dec(i) for i in x]
    if isinstance(x, dict):
        if "$i" in x:
            return int(x["$i"])
        if "$f" in x:
            return float(x["$f"])
        if "$b" in x:
            return bytes.fromhex(x["$b"])
        if "$t" in x:
            return tuple(dec(i) for i in x["$t"])
        if "$d" in x:
            return {dec(k): dec(v) for k, v in x["$d"]}
        if "$s" in x:
            return {dec(i) for i in x["$s"]}
        return {k: dec(v) for k, v in x.items()}
    return x


def dumps(x, **kw):
    return json.dumps(enc(x), **kw)


def loads(s):
    return dec(json.loads(s))
