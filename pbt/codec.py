"""Lossless JSON encoding of the plain Python data that cases are made of (replay files, samples, digests)."""

import base64
import json
import math


class Unknown(Exception):
    """The reference semantics do not say what is to happen."""


def enc(v):
    if v is None or isinstance(v, (bool, str)):
        return v
    if isinstance(v, int):
        # Keep clear of the limit for int <-> str conversions.
        return v if abs(v) < 10**4000 else {"$i": hex(v)}
    if isinstance(v, float):
        return v if math.isfinite(v) else {"$f": repr(v)}
    if isinstance(v, bytes):
        return {"$b": base64.b64encode(v).decode()}
    if isinstance(v, tuple):
        return {"$t": [enc(x) for x in v]}
    if isinstance(v, list):
        return [enc(x) for x in v]
    if isinstance(v, dict):
        if all(isinstance(k, str) and not k.startswith("$") for k in v):
            return {k: enc(x) for k, x in v.items()}
        return {"$d": [[enc(k), enc(x)] for k, x in v.items()]}
    if isinstance(v, (set, frozenset)):
        return {"$s": sorted((enc(x) for x in v), key=lambda x: json.dumps(x, sort_keys=True))}
    raise TypeError(f"not encodable: {type(v)}")


def dec(v):
    if isinstance(v, list):
        return [dec(x) for x in v]
    if isinstance(v, dict):
        if len(v) == 1:
            (k, x), = v.items()
            if k == "$i":
                return int(x, 16)
            if k == "$f":
                return float(x)
            if k == "$b":
                return base64.b64decode(x)
            if k == "$t":
                return tuple(dec(y) for y in x)
            if k == "$d":
                return {dec(a): dec(b) for a, b in x}
            if k == "$s":
                return {dec(y) for y in x}
        return {k: dec(x) for k, x in v.items()}
    return v


def dumps(v) -> str:
    return json.dumps(enc(v), sort_keys=False)


def canon(v) -> str:
    """A string that is equal for equal data (including NaN) and different for different data, with the types of
    numbers being told apart and the order of dictionaries being ignored."""

    def go(x):
        if isinstance(x, dict):
            return {"$d": sorted(([go(k), go(y)] for k, y in x.items()), key=lambda p: json.dumps(p[0], sort_keys=True))}
        if isinstance(x, list):
            return [go(y) for y in x]
        if isinstance(x, tuple):
            return {"$t": [go(y) for y in x]}
        return enc(x)

    return json.dumps(go(v), sort_keys=True)
