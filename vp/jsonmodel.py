"""JSON documents with a known parse tree, exact positions and layout."""
from __future__ import unicode_literals

import itertools
import json

# layout: (after opening, between key and colon, after colon, after comma,
#          before comma, before closing, around document)
LAYOUTS = {
    "tight": ("", "", "", "", "", "", ("", "")),
    "space": (" ", "", " ", " ", "", " ", ("", "\n")),
    "wide": ("  ", " ", "\t ", " ", " ", " ", (" \n", " ")),
    "lines": ("\n  ", "", ": "[1:], "\n  ", "", "\n", ("", "\n")),
    "ragged": ("\n\n\t", " ", "\n ", " \n", "\n ", "\n\t ", ("\n", "\n\n")),
}


class Lit(object):
    kind = "lit"

    def __init__(self, text):
        self.text = text

    def key(self):
        return ("lit", self.text)


class Str(object):
    kind = "str"

    def __init__(self, raw):
        self.raw = raw

    def key(self):
        return ("str", self.raw)


class Obj(object):
    kind = "obj"

    def __init__(self, items):
        self.items = list(items)      # (raw key, node)

    def key(self):
        return ("obj", tuple((k, n.key()) for k, n in self.items))


class Arr(object):
    kind = "arr"

    def __init__(self, items):
        self.items = list(items)

    def key(self):
        return ("arr", tuple(n.key() for n in self.items))


def emit(node, layout, on_str=None):
    """List of segments: literal text, or whatever ``on_str(path, node)``
    returns for string values (a list of segments)."""
    lo = LAYOUTS[layout]
    out = [lo[6][0]]

    def walk(n, path):
        if n.kind == "lit":
            out.append(n.text)
        elif n.kind == "str":
            out.append('"')
            out.extend(on_str(path, n) if on_str else [n.raw])
            out.append('"')
        else:
            o, c = ("{", "}") if n.kind == "obj" else ("[", "]")
            out.append(o)
            if not n.items:
                out.append(lo[0] + c)
                return
            for i, it in enumerate(n.items):
                out.append(lo[0] if i == 0 else lo[4] + "," + lo[3])
                if n.kind == "obj":
                    k, v = it
                    out.append('"%s"' % k + lo[1] + ":" + lo[2])
                    walk(v, path + (("k", k),))
                else:
                    walk(it, path + (("i", i),))
            out.append(lo[5] + c)
    walk(node, ())
    out.append(lo[6][1])
    return out


def text(node, layout):
    return "".join(emit(node, layout))


def value(node):
    """What a standards-conforming decoder returns (pairs, not dicts)."""
    if node.kind == "lit":
        return json.loads(node.text)
    if node.kind == "str":
        return json.loads('"%s"' % node.raw)
    if node.kind == "arr":
        return ["arr"] + [value(n) for n in node.items]
    return ["obj"] + [[json.loads('"%s"' % k), value(n)]
                      for k, n in node.items]


def decode(txt):
    def conv(x):
        if isinstance(x, Pairs):
            return ["obj"] + [[k, conv(v)] for k, v in x.pairs]
        if isinstance(x, list):
            return ["arr"] + [conv(v) for v in x]
        return x
    return conv(json.loads(txt, object_pairs_hook=Pairs))


class Pairs(object):
    def __init__(self, pairs):
        self.pairs = pairs


def esc_key(raw):
    """Reference for key paths: backslash and dot are escaped."""
    return "".join("\\\\" if c == "\\" else "\\." if c == "." else c
                   for c in raw)


def kv_key(path):
    """Flat key of a value: dict keys joined by '.', list items '..i..'."""
    cur = None
    for kind, x in path:
        if kind == "k":
            cur = esc_key(x) if cur is None else cur + "." + esc_key(x)
        else:
            cur = ("..%d.." % x) if cur is None else "%s..%d.." % (cur, x)
    return cur


def emit_positions(node, layout, offset=0):
    """(text, positioned tree).  Positioned tree: for strings/literals
    (kind, start, end, payload); for containers (kind, start, end, items)
    with end the index of the closing symbol, and items
    [(key, key_pos, child)] or [child].  String starts are after the quote."""
    lo = LAYOUTS[layout]
    buf = [lo[6][0]]
    pos = [offset + len(lo[6][0])]

    def put(t):
        buf.append(t)
        pos[0] += len(t)

    def walk(n):
        if n.kind == "lit":
            s = pos[0]
            put(n.text)
            return ("lit", s, pos[0], n.text)
        if n.kind == "str":
            put('"')
            s = pos[0]
            put(n.raw)
            e = pos[0]
            put('"')
            return ("str", s, e, n.raw)
        o, c = ("{", "}") if n.kind == "obj" else ("[", "]")
        s = pos[0]
        put(o)
        items = []
        if not n.items:
            put(lo[0])
        for i, it in enumerate(n.items):
            put(lo[0] if i == 0 else lo[4] + "," + lo[3])
            if n.kind == "obj":
                put('"')
                kp = pos[0]
                put(it[0])
                put('"' + lo[1] + ":" + lo[2])
                items.append((it[0], kp, walk(it[1])))
            else:
                items.append(walk(it))
        if n.items:
            put(lo[5])
        e = pos[0]
        put(c)
        return (n.kind, s, e, items)
    tree = walk(node)
    put(lo[6][1])
    return "".join(buf), tree
