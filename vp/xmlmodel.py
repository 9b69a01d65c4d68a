"""XML element trees emitted as text with the position of every part."""
from __future__ import unicode_literals


class El(object):
    """children: None for a single tag, otherwise a list of El / Com / text.

    attrs: list of (space before, name, text between, quote, value)."""

    def __init__(self, tag, attrs=(), children=(), open_ws="", close_ws="",
                 slash_ws=""):
        self.tag, self.attrs, self.children = tag, list(attrs), children
        self.open_ws, self.close_ws, self.slash_ws = open_ws, close_ws, slash_ws


class Com(object):
    def __init__(self, text):
        self.text = text


def a(name, value, ws=" ", eq="=", q='"'):
    return (ws, name, eq, q, value)


def emit(node, pos=0):
    """Returns (text, info).  info describes elements only:
    dict(position, tag, attributes, text_position, text, content,
         content_end, tail_position, children=[info...]) -- the tail of a
    child is filled in by its parent."""
    if isinstance(node, Com):
        t = "<!--%s-->" % node.text
        return t, dict(position=pos, tag="!--", attributes=[],
                       text_position=pos + 4, text=node.text,
                       content=node.text, content_end=pos + 4 + len(node.text),
                       tail_position=pos + len(t), children=[])
    out = "<" + node.tag
    attributes = []
    for ws, name, eq, q, value in node.attrs:
        out += ws
        kp = pos + len(out)
        out += name + eq + q
        attributes.append((kp, name, pos + len(out), value))
        out += value + q
    out += node.open_ws
    info = dict(position=pos, tag=node.tag, attributes=attributes)
    if node.children is None:
        out += "/" + node.slash_ws + ">"
        info.update(text_position=None, text=None, content=None,
                    content_end=None, tail_position=pos + len(out),
                    children=[])
        return out, info
    out += ">"
    info["text_position"] = pos + len(out)
    begin = len(out)
    kids = []
    text = ""
    info["text"] = None
    for ch in node.children:
        if isinstance(ch, type("")):
            out += ch
            text += ch
            continue
        _flush(info, kids, text)
        text = ""
        t, i = emit(ch, pos + len(out))
        kids.append(i)
        out += t
    _flush(info, kids, text)
    info["content"] = out[begin:]
    info["content_end"] = pos + len(out)
    out += "</" + node.tag + node.close_ws + ">"
    info["tail_position"] = pos + len(out)
    info["children"] = kids
    return out, info


def _flush(info, kids, text):
    if kids:
        kids[-1]["tail"] = text
        kids[-1]["end"] = kids[-1]["tail_position"] + len(text)
    else:
        info["text"] = text
