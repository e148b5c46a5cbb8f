"""Comparing settings and documents of model components."""
import json
import os
import re

import numpy as np

AUTONAME = re.compile(r"^\w+_\d+$")
NAMEFREE = set()       # kinds whose name is derived from the file


def is_gnome(a):
    from gnome.gnomeobject import GnomeId
    return isinstance(a, GnomeId)


def nodes(o, attr="all"):
    return [n for n in o._schema().get_nodes_by_attr(attr) if n not in ("id", "name", "obj_type")]


def same(a, b, key=""):
    """the same setting value, in whatever container; None when the two are the same, else what differs"""
    if a is None or b is None:
        return None if a is b else "None"
    if is_gnome(a):
        if type(a) is not type(b):
            return "type"
        for n in nodes(a):
            r = same(getattr(a, n, None), getattr(b, n, None), n)
            if r:
                return n + "/" + r
        return None
    if isinstance(a, (bool, np.bool_)):
        return None if isinstance(b, (bool, np.bool_)) and bool(a) == bool(b) else "bool"
    if isinstance(a, (int, float, np.number)):
        try:
            return None if a == b or abs(a - b) <= 1e-7 * max(abs(a), 1e-12) else "number"
        except TypeError:
            return "number"
    if isinstance(a, str):
        if "file" in key:
            if os.path.isfile(a) and os.path.isfile(str(b)):
                with open(a, "rb") as x, open(b, "rb") as y:
                    return None if x.read() == y.read() else "file contents"
            a, b = os.path.basename(a), os.path.basename(str(b))
        return None if a == b else "text"
    if isinstance(a, dict):
        try:
            if set(a) != set(b):
                return "keys"
        except TypeError:
            return "keys"
        for k in a:
            r = same(a[k], b[k], k)
            if r:
                return str(k) + "/" + r
        return None
    if isinstance(a, np.ndarray) and a.dtype.names:
        b = np.asarray(b)
        if a.shape != b.shape or a.dtype.names != b.dtype.names:
            return "shape"
        for n in a.dtype.names:
            r = same(a[n], b[n])
            if r:
                return n + "/" + r
        return None
    if isinstance(a, np.ndarray) and a.dtype.kind == "f":
        b = np.asarray(b)
        return None if a.shape == b.shape and np.allclose(a, b, rtol=1e-7, atol=1e-9) else "array"
    if hasattr(a, "__iter__"):
        try:
            a, b = list(a), list(b)
        except TypeError:
            return "list"
        if len(a) != len(b):
            return "length"
        for x, y in zip(a, b):
            r = same(x, y, key)
            if r:
                return "item/" + r
        return None
    return None if a == b else type(a).__name__


def strip(d):
    if isinstance(d, dict):
        return {k: strip(v) for k, v in d.items() if k != "id"}
    if isinstance(d, list):
        return [strip(x) for x in d]
    return d


def dsame(a, b, key=""):
    if isinstance(a, dict) and isinstance(b, dict):
        free = a.get("obj_type", "").rsplit(".", 1)[-1] in NAMEFREE
        return set(a) == set(b) and all(k == "name" and (free or AUTONAME.match(str(a[k]))) or dsame(a[k], b[k], k) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(dsame(x, y) for x, y in zip(a, b))
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b or abs(a - b) <= 1e-7 * max(abs(a), 1e-9)
    return a == b


def js(d):
    return json.loads(json.dumps(d))


def tell(a):
    s = repr(a)
    return s if len(s) < 300 else s[:300] + "..."
